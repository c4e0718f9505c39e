package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Result is the verdict of one generated case.
type Result struct {
	Fail       string // empty when the property held
	NonTrivial bool   // by the rule stated for the sub-check
	Class      string // label used to report the distribution
	Skip       bool   // the case is outside of the property's domain
}

func ok(class string) Result      { return Result{NonTrivial: true, Class: class} }
func trivial(class string) Result { return Result{Class: class} }
func bad(f string, a ...any) Result {
	return Result{Fail: fmt.Sprintf(f, a...), NonTrivial: true, Class: "failed"}
}

// Sub is one generated sub-check of a property.
type Sub struct {
	Prop, Name      string
	Quick, Thorough int // generated cases over all shards; 0 for an enumeration
	run             func(ctx *runCtx, s *Sub)
	replay          func(raw json.RawMessage) Result
}

var subs []*Sub

type subReport struct {
	Sub         string            `json:"sub"`
	Cases       int               `json:"cases"`
	NonTrivial  int               `json:"nontrivial"`
	Skipped     int               `json:"skipped"`
	Classes     map[string]int    `json:"classes"`
	Hashes      []uint64          `json:"hashes"`
	Samples     []json.RawMessage `json:"samples"`
	WallS       float64           `json:"wall_s"`
	seen        map[uint64]struct{}
	stopped     bool
	sampleClass map[string]int
}

type violation struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message"`
	Seed     uint64          `json:"seed"`
	Tier     string          `json:"tier"`
}

type runCtx struct {
	prop    string
	tier    string
	seed    uint64
	shard   int
	nShard  int
	journal string
	reports []*subReport
	viols   []violation
}

func (r *subReport) add(raw []byte, res Result) {
	if r.stopped {
		return
	}
	if res.Skip {
		r.Skipped++
		return
	}
	r.Cases++
	if res.Class != "" {
		r.Classes[res.Class]++
	}
	if res.NonTrivial {
		r.NonTrivial++
		h := fnv.New64a()
		h.Write(raw)
		k := h.Sum64()
		if _, dup := r.seen[k]; !dup {
			r.seen[k] = struct{}{}
			if r.sampleClass[res.Class] < 1 && len(r.Samples) < 6 {
				r.sampleClass[res.Class]++
				r.Samples = append(r.Samples, json.RawMessage(append([]byte(nil), raw...)))
			}
		}
	}
}

// tb is a minimal implementation of the test interface that rapid drives.
type tb struct {
	failed bool
	msgs   []string
}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "dpverif" }
func (t *tb) Logf(f string, a ...any)   { t.msgs = append(t.msgs, fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...any)              { t.msgs = append(t.msgs, fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any)  { panic("skip") }
func (t *tb) Skip(a ...any)             { panic("skip") }
func (t *tb) SkipNow()                  { panic("skip") }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *tb) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tb) Fatalf(f string, a ...any) { t.failed = true; t.Logf(f, a...); panic(tbStop{}) }
func (t *tb) Fatal(a ...any)            { t.failed = true; t.Log(a...); panic(tbStop{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

type tbStop struct{}

var rapidReady bool

func initRapid() {
	if rapidReady {
		return
	}
	rapidReady = true
	testing.Init()
	must(flag.CommandLine.Parse(nil))
	must(flag.Set("rapid.nofailfile", "true"))
	must(flag.Set("rapid.shrinktime", "12s"))
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func mix(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	v := h.Sum64()
	if v == 0 {
		v = 1
	}
	return v
}

// safely runs the check, turning a panic of the code under test into a violation.
func safely[C any](check func(C) Result, c C) (res Result) {
	defer func() {
		if r := recover(); r != nil {
			stack := strings.Split(string(debug.Stack()), "\n")
			var keep []string
			for i, l := range stack {
				if strings.Contains(l, "go-dateparser") && i+1 < len(stack) && len(keep) < 8 {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			res = bad("panic: %v [%s]", r, strings.Join(keep, " | "))
		}
	}()
	return check(c)
}

// Case execution bookkeeping for the watchdog.
var (
	caseStartCPU atomic.Int64
	caseActive   atomic.Bool
)

func cpuNow() int64 {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return ru.Utime.Nano() + ru.Stime.Nano()
}

type journalEntry struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Case     json.RawMessage `json:"case"`
}

var journalFile *os.File

func (ctx *runCtx) begin(s *Sub, raw []byte) {
	if ctx.journal != "" {
		if journalFile == nil {
			f, err := os.Create(ctx.journal)
			must(err)
			journalFile = f
		}
		bt, _ := json.Marshal(journalEntry{s.Prop, s.Name, raw})
		journalFile.Truncate(int64(len(bt)))
		journalFile.WriteAt(bt, 0)
	}
	caseStartCPU.Store(cpuNow())
	caseActive.Store(true)
}

func (ctx *runCtx) end() { caseActive.Store(false) }

// hangLimit is processor time of this process, so it doesn't depend on the load of the
// machine. The most expensive case of any generator needs less than a few seconds.
const hangLimit = 150 * time.Second

func (ctx *runCtx) watchdog() {
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			if caseActive.Load() && cpuNow()-caseStartCPU.Load() > int64(hangLimit) {
				// The orchestrator reads the journal and reports the case
				fmt.Fprintln(os.Stderr, "HANG: case used more than", hangLimit, "of processor time")
				os.Exit(97)
			}
		}
	}()
}

func newReport(s *Sub) *subReport {
	return &subReport{Sub: s.Name, Classes: map[string]int{}, seen: map[uint64]struct{}{}, sampleClass: map[string]int{}}
}

func (r *subReport) finish(start time.Time) {
	r.WallS = time.Since(start).Seconds()
	for h := range r.seen {
		r.Hashes = append(r.Hashes, h)
	}
	sort.Slice(r.Hashes, func(i, j int) bool { return r.Hashes[i] < r.Hashes[j] })
}

// quickScale multiplies the number of generated cases, so that every quick check takes about 30 s.
var quickScale = map[string]int{
	"P02": 8, "P03": 12, "P04": 2, "P05": 3, "P06": 3, "P07": 12, "P08": 6, "P09": 8, "P10": 2,
	"P11": 4, "P12": 8, "P13": 10, "P14": 8, "P18": 2, "P19": 6, "P20": 8, "P21": 2, "P23": 2, "P25": 4,
}

// Register adds a sub-check whose cases are drawn by rapid.
func Register[C any](prop, name string, quick, thorough int, gen func(g *G) C, check func(C) Result) {
	scale := max(1, quickScale[prop])
	s := &Sub{Prop: prop, Name: name, Quick: quick * scale, Thorough: max(thorough, quick*scale*2)}
	s.replay = replayer(check)
	s.run = func(ctx *runCtx, s *Sub) {
		start := time.Now()
		rep := newReport(s)
		ctx.reports = append(ctx.reports, rep)

		total := s.Quick
		if ctx.tier == "thorough" {
			total = s.Thorough
		}
		n := total / ctx.nShard
		if ctx.shard < total%ctx.nShard {
			n++
		}
		if n == 0 {
			return
		}

		initRapid()
		seed := mix(ctx.seed, s.Prop, s.Name, ctx.shard)
		must(flag.Set("rapid.seed", fmt.Sprint(seed)))
		must(flag.Set("rapid.checks", fmt.Sprint(n)))

		var lastRaw json.RawMessage
		var lastMsg string
		t := &tb{}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, isStop := r.(tbStop); !isStop {
						panic(r)
					}
				}
			}()
			rapid.Check(t, func(rt *rapid.T) {
				c := gen(&G{rt})
				raw, err := json.Marshal(c)
				must(err)
				ctx.begin(s, raw)
				t0 := time.Now()
				res := safely(check, c)
				ctx.end()
				slow(raw, time.Since(t0))
				rep.add(raw, res)
				if res.Fail != "" {
					rep.stopped = true
					lastRaw, lastMsg = raw, res.Fail
					rt.Fatalf("%s", res.Fail)
				}
			})
		}()
		if t.failed {
			if lastRaw == nil {
				fmt.Fprintln(os.Stderr, "harness error:", strings.Join(t.msgs, "\n"))
				os.Exit(3)
			}
			ctx.viols = append(ctx.viols, violation{s.Prop, s.Name, lastRaw, lastMsg, ctx.seed, ctx.tier})
		}
		rep.finish(start)
	}
	subs = append(subs, s)
}

// RegisterList adds a sub-check whose cases are enumerated. In quick tier only one of
// `stride` cases is used, the offset is chosen by the seed.
func RegisterList[C any](prop, name string, stride int, list func() []C, check func(C) Result) {
	s := &Sub{Prop: prop, Name: name}
	s.replay = replayer(check)
	s.run = func(ctx *runCtx, s *Sub) {
		start := time.Now()
		rep := newReport(s)
		ctx.reports = append(ctx.reports, rep)
		step := 1
		if ctx.tier != "thorough" {
			step = stride
		}
		off := int(ctx.seed % uint64(step))
		idx := 0
		nViol := 0
		for i, c := range list() {
			if i%step != off {
				continue
			}
			idx++
			if idx%ctx.nShard != ctx.shard {
				continue
			}
			raw, err := json.Marshal(c)
			must(err)
			ctx.begin(s, raw)
			res := safely(check, c)
			ctx.end()
			rep.add(raw, res)
			if res.Fail != "" {
				ctx.viols = append(ctx.viols, violation{s.Prop, s.Name, raw, res.Fail, ctx.seed, ctx.tier})
				if nViol++; nViol >= viollim() {
					break
				}
			}
		}
		rep.finish(start)
	}
	subs = append(subs, s)
}

func replayer[C any](check func(C) Result) func(json.RawMessage) Result {
	return func(raw json.RawMessage) Result {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			return Result{Skip: true, Class: "undecodable: " + err.Error()}
		}
		return safely(check, c)
	}
}

func typeName(v any) string { return reflect.TypeOf(v).String() }

func viollim() int {
	if os.Getenv("DPV_ALL") != "" {
		return 1 << 30
	}
	return 20
}
