package main

import (
	"fmt"
	"runtime"
	"sync"

	dps "github.com/markusmobius/go-dateparser"
)

// Schedule is calls done by several goroutines at the same time.
type Schedule struct {
	Calls   []Call
	Workers [][]int // indices of the calls that each goroutine makes
	Own     bool    // every goroutine has its own parser instead of a shared one
	Class   string
}

func genSchedule(g *G) Schedule {
	s := Schedule{Calls: g.calls(g.Range(1, 6)), Own: g.P(30)}
	for i := range s.Calls {
		if c := &s.Calls[i]; c.heavy() && (i > 0 || len(c.text()) > 60 || g.P(70)) {
			c.Cfg.Languages = []string{pick(g, someLangs), "en"}
		}
	}
	n := 1 + g.many(5)
	// Goroutines that start by the same call meet at the same place
	first := g.N(len(s.Calls))
	together := g.Bool()
	for i := 0; i < n; i++ {
		var w []int
		if together {
			w = append(w, first)
		}
		for k := g.Range(1, 5); k > 0; k-- {
			w = append(w, g.N(len(s.Calls)))
		}
		s.Workers = append(s.Workers, w)
	}
	return s
}

func checkSchedule(s Schedule) Result {
	// The calls run concurrently before anything else does them, so that whatever is prepared at
	// the first use is prepared by several goroutines
	outs := make([][]string, len(s.Workers))
	shared := &dps.Parser{}
	var ready, done sync.WaitGroup
	gate := make(chan struct{})
	panics := make([]any, len(s.Workers))
	for i, w := range s.Workers {
		outs[i] = make([]string, len(w))
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			defer func() { panics[i] = recover() }()
			p := shared
			if s.Own {
				p = &dps.Parser{}
			}
			ready.Done()
			<-gate
			for k, idx := range w {
				c := s.Calls[idx]
				if (i+k)%3 == 2 {
					outs[i][k] = c.onDefault().key()
				} else {
					outs[i][k] = c.on(p).key()
				}
				if k%2 == i%2 {
					runtime.Gosched()
				}
			}
		}()
	}
	ready.Wait()
	close(gate)
	done.Wait()
	for i, p := range panics {
		if p != nil {
			return bad("goroutine %d panics: %v", i, p)
		}
	}

	alone := make([]string, len(s.Calls))
	dates := 0
	for i, c := range s.Calls {
		o := c.fresh()
		alone[i] = o.key()
		if !o.Out.Err {
			dates++
		}
	}
	for i, w := range s.Workers {
		for k, idx := range w {
			c := s.Calls[idx]
			if c.Cfg.now().IsZero() {
				continue // the real time
			}
			if outs[i][k] != alone[idx] {
				return bad("%s %q gives %s alone but %s beside other goroutines", c.Op, c.text(), alone[idx], outs[i][k])
			}
		}
	}
	if dates == 0 {
		return trivial("no date")
	}
	class := "shared parser"
	if s.Own {
		class = "own parsers"
	}
	return ok(fmt.Sprintf("%s, %d goroutines", class, len(s.Workers)))
}

func init() {
	Register("P24", "goroutines", 400, 6000, genSchedule, checkSchedule)
}
