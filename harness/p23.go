package main

import (
	"fmt"
	"regexp"
	"slices"
	"time"
	"unicode"

	"golang.org/x/text/unicode/norm"

	dps "github.com/markusmobius/go-dateparser"
)

// Calls is a sequence of calls that must not influence each other.
type Calls struct {
	Calls []Call
	Class string
}

// reproducible is a call whose result doesn't depend on the clock.
func (g *G) reproducible() Call {
	c, _ := g.validCall()
	if c.Cfg.Now == "" {
		setNow(&c.Cfg, g.Now(1970, 2060))
	}
	c.Cfg.TryPrevious = false
	c.Types = nil
	return c
}

// heavy calls look at all of the languages, so they are limited.
func (c Call) heavy() bool {
	return c.Op == "search" || c.Op == "parse" && len(c.Cfg.Locales)+len(c.Cfg.Languages) == 0
}

var skipPool = []string{"t", "foo", "of", "de", "xyz", "1"}

func (g *G) skipList() (list []string) {
	for i := g.N(4); i > 0; i-- {
		list = append(list, pick(g, skipPool))
	}
	return
}

// variant changes one thing of a call.
func (g *G) variant(c Call) Call {
	switch g.N(16) {
	case 0, 1:
		c.Cfg.Skip = g.skipList()
		if len(c.Raw) == 0 && g.Bool() {
			c.Text = pick(g, skipPool) + " " + c.Text
		}
	case 2:
		c.Cfg.Locales, c.Cfg.Languages = []string{pick(g, refLocales())}, nil
	case 3:
		c.Text, _ = g.localText(pick(g, refLocales()))
		c.Raw = nil
	case 4:
		c.Cfg.Languages, c.Cfg.Locales = []string{pick(g, someLangs), pick(g, someLangs)}, nil
	case 5:
		c.Cfg.Order = pick(g, sixOrders)
	case 6:
		c.Cfg.Region = pick(g, []string{"", "US", "GB", "CA", "CH"})
	case 7:
		c.Cfg.DefTZ = g.zoneAny()
	case 8:
		c.Cfg.Source, c.Cfg.DayPref, c.Cfg.MonthPref = g.N(3), g.N(3), g.N(3)
	case 9:
		c.Cfg.Strict, c.Cfg.Required = g.Bool(), pick(g, [][]string{nil, {"day"}, {"month"}, {"year", "day"}})
	case 10:
		c.Cfg.TimePeriod, c.Cfg.PreserveEOM, c.Cfg.GivenOrder = g.Bool(), g.Bool(), g.Bool()
	case 11:
		c.Formats = pick(g, [][]string{nil, {"%d %B %Y"}, {"%m/%d/%Y"}, {"%d/%m/%Y", "%Y-%m-%d"}})
	case 12:
		c.Op = pick(g, []string{"parse", "search", "searchlang", "jalali", "hijri"})
		if c.Op == "searchlang" && c.Lang == "" {
			c.Lang = pick(g, someLangs)
		}
	default:
		setNow(&c.Cfg, g.Now(1970, 2060))
		if g.Bool() {
			c.Cfg.NowZone = g.zoneAny()
		}
	}
	return c
}

func (g *G) calls(n int) (list []Call) {
	heavy := 0
	for len(list) < n {
		var c Call
		if len(list) > 0 && g.P(35) { // a variant of an earlier call
			c = g.variant(pick(g, list))
		} else {
			c = g.reproducible()
		}
		if c.heavy() {
			if heavy++; heavy > 3 && g.P(90) {
				c.Cfg.Languages = []string{pick(g, someLangs), "en"}
			}
		}
		list = append(list, c)
	}
	return
}

func genCalls(g *G) Calls {
	return Calls{Calls: g.calls(g.Range(2, 14))}
}

// onDefault runs a call by the functions of the package.
func (c Call) onDefault() (o CallOut) {
	defer o.encode()
	switch c.Op {
	case "parse":
		d, err := dps.Parse(c.Cfg.build(), c.text(), c.Formats...)
		o.Out = toOut(d, err)
		if err != nil {
			o.ErrText = err.Error()
		}
	case "search":
		lang, res, err := dps.Search(c.Cfg.build(), c.text())
		o.Lang, o.Out.Err = lang, err != nil
		o.fill(res)
	default:
		return c.on(&dps.Parser{})
	}
	return o
}

func checkCalls(cs Calls) Result {
	fresh := make([]string, len(cs.Calls))
	dates := 0
	for i, c := range cs.Calls {
		o := c.fresh()
		fresh[i] = o.key()
		if !o.Out.Err {
			dates++
		}
	}
	shared := &dps.Parser{}
	for i, c := range cs.Calls {
		if o := c.on(shared).key(); o != fresh[i] {
			return bad("call %d, %s %q, gives %s on a fresh parser but %s on a used one", i, c.Op, c.text(), fresh[i], o)
		}
	}
	for i, c := range cs.Calls {
		if o := c.onDefault().key(); o != fresh[i] {
			return bad("call %d, %s %q, gives %s on a fresh parser but %s on the default one", i, c.Op, c.text(), fresh[i], o)
		}
	}
	for i := len(cs.Calls) - 1; i >= 0; i-- {
		if o := cs.Calls[i].on(shared).key(); o != fresh[i] {
			return bad("call %d, %s %q, gives %s on a fresh parser but %s in reversed order", i, cs.Calls[i].Op, cs.Calls[i].text(), fresh[i], o)
		}
	}
	if dates < 2 {
		return trivial("less than two dates")
	}
	return ok(fmt.Sprintf("%d dates", dates/3*3))
}

var environments = [][]string{
	{"TZ=America/New_York", "LANG=de_DE.UTF-8", "GOMAXPROCS=1"},
	{"TZ=Asia/Kathmandu", "LC_ALL=tr_TR.UTF-8", "GOGC=20"},
}

func genProcess(g *G) Calls {
	return Calls{Calls: g.calls(g.Range(2, 10))}
}

var rxStamp = regexp.MustCompile(`\d{10}`)

// instants is the result with instants in place of the times of timestamps, which are in local time.
func (c Call) instants(o CallOut) string {
	if !rxStamp.MatchString(norm.NFKC.String(c.text())) && c.ascii() {
		return o.key()
	}
	list := slices.Clone(o.Dates)
	for i := range list {
		list[i] = list[i].inUTC()
	}
	o.Dates, o.Out = list, o.Out.inUTC()
	return o.key()
}

func (c Call) ascii() bool {
	for _, r := range c.text() {
		if unicode.Is(unicode.Nd, r) && r > 127 {
			return false
		}
	}
	return true
}

func (o Out) inUTC() Out {
	t, err := time.Parse("2006-01-02T15:04:05.999999999", o.Time)
	if err != nil {
		return o
	}
	o.Time, o.Zone, o.Offset = t.Add(-time.Duration(o.Offset)*time.Second).String(), "", 0
	return o
}

// checkProcess compares with processes that live in other environments.
func checkProcess(cs Calls) Result {
	dates := 0
	for _, env := range environments {
		outs, err := ask(peerBinary, env, cs.Calls)
		if err != nil {
			return bad("in %v: %v", env, err)
		}
		dates = 0
		for i, c := range cs.Calls {
			if c.Cfg.now().IsZero() {
				continue // the real time
			}
			o := c.fresh()
			if o.key() != outs[i].key() && c.instants(o) != c.instants(outs[i]) {
				return bad("call %d, %s %q, gives %s here but %s in a process with %v", i, c.Op, c.text(), o.key(), outs[i].key(), env)
			}
			if !o.Out.Err {
				dates++
			}
		}
	}
	if dates == 0 {
		return trivial("no date")
	}
	return ok(fmt.Sprintf("%d dates", dates/3*3))
}

// RealClock is a relative time, by the real clock, after other calls.
type RealClock struct {
	Calls
	Num  int
	Unit string
}

func genRealClock(g *G) RealClock {
	c := RealClock{Num: 1 + g.N(40), Unit: pick(g, []string{"second", "minute", "hour", "day", "month", "year"})}
	for i := g.Range(1, 5); i > 0; i-- {
		call := g.reproducible()
		if call.heavy() {
			call.Cfg.Languages = []string{"en"}
		}
		switch g.N(4) {
		case 0:
			call.Cfg.Now = ""
		case 1: // a text that sets the time which relative dates count from
			p := genPlantedBase(g)
			call = Call{Op: "searchlang", Lang: "en", Text: p.Text, Cfg: p.Cfg}
		}
		c.Calls.Calls = append(c.Calls.Calls, call)
	}
	return c
}

func checkRealClock(c RealClock) Result {
	p := &dps.Parser{}
	for _, call := range c.Calls.Calls {
		call.on(p)
		call.onDefault()
	}
	unit := map[string]time.Duration{"second": time.Second, "minute": time.Minute, "hour": time.Hour}[c.Unit]
	before := func(t time.Time) time.Time {
		switch c.Unit {
		case "day":
			return t.AddDate(0, 0, -c.Num)
		case "month":
			return t.AddDate(0, -c.Num, 0)
		case "year":
			return t.AddDate(-c.Num, 0, 0)
		}
		return t.Add(-time.Duration(c.Num) * unit)
	}
	text := fmt.Sprintf("%d %ss ago", c.Num, c.Unit)
	for i, parse := range []func() (time.Time, error){
		func() (time.Time, error) {
			d, err := p.Parse(nil, text)
			return d.Time, err
		},
		func() (time.Time, error) {
			d, err := dps.Parse(nil, text)
			return d.Time, err
		},
		func() (time.Time, error) {
			r, err := p.SearchWithLanguage(nil, "en", "Alice left "+text)
			if err != nil || len(r) != 1 {
				return time.Time{}, fmt.Errorf("%d results %v", len(r), err)
			}
			return r[0].Date.Time, nil
		},
		func() (time.Time, error) {
			_, r, err := dps.Search(&dps.Configuration{Languages: []string{"en"}}, "Alice left "+text)
			if err != nil || len(r) != 1 {
				return time.Time{}, fmt.Errorf("%d results %v", len(r), err)
			}
			return r[0].Date.Time, nil
		},
	} {
		start := time.Now()
		t, err := parse()
		end := time.Now()
		if err != nil {
			return bad("%q by the clock, %d: error %v", text, i, err)
		}
		// Whatever the zone of the clock is
		early, late := before(start.UTC()).Add(-26*time.Hour), before(end.UTC()).Add(26*time.Hour)
		if unit > 0 {
			early, late = before(start).Add(-time.Millisecond), before(end).Add(time.Millisecond)
		} else if c.Unit != "day" {
			early, late = early.AddDate(0, 0, -3), late.AddDate(0, 0, 3) // lengths of months
		}
		if t.Before(early) || t.After(late) {
			return bad("%q by the clock, %d: got %s at %s", text, i, t, start)
		}
	}
	return ok(c.Unit)
}

// genAlone is a history with many variants of few calls.
func genAlone(g *G) Calls {
	cs := Calls{}
	for i := g.Range(1, 4); i > 0; i-- {
		c := g.reproducible()
		if c.heavy() {
			c.Cfg.Languages = []string{pick(g, someLangs), "en"}
		}
		cs.Calls = append(cs.Calls, c)
		for j := g.Range(2, 8); j > 0; j-- {
			if c = g.variant(c); !c.heavy() || len(c.Cfg.Languages) > 0 {
				cs.Calls = append(cs.Calls, c)
			}
		}
	}
	return cs
}

// checkAlone compares new processes that get the calls in opposite orders.
func checkAlone(cs Calls) Result {
	defer dropPeers(aloneEnv[0], aloneEnv[1])
	dropPeers(aloneEnv[0], aloneEnv[1])
	outs, err := ask(peerBinary, aloneEnv[0], cs.Calls)
	if err != nil {
		return bad("%v", err)
	}
	back := slices.Clone(cs.Calls)
	slices.Reverse(back)
	backOuts, err := ask(peerBinary, aloneEnv[1], back)
	if err != nil {
		return bad("reversed: %v", err)
	}
	slices.Reverse(backOuts)
	dates := 0
	for i, c := range cs.Calls {
		if outs[i].key() != backOuts[i].key() {
			return bad("call %d, %s %q, gives %s after the calls before it but %s after those behind it", i, c.Op, c.text(), outs[i].key(), backOuts[i].key())
		}
		if !outs[i].Out.Err {
			dates++
		}
	}
	if dates < 2 {
		return trivial("less than two dates")
	}
	return ok(fmt.Sprintf("%d dates", dates/3*3))
}

var aloneEnv = [][]string{{"DPV_ORDER=forward"}, {"DPV_ORDER=reversed"}}

func init() {
	Register("P23", "clock", 600, 6000, genRealClock, checkRealClock)
	Register("P23", "orders in new processes", 100, 1600, genAlone, checkAlone)
	Register("P23", "histories", 800, 8000, genCalls, checkCalls)
	Register("P23", "processes", 800, 8000, genProcess, checkProcess)
}
