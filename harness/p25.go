package main

import "fmt"

func genEngineCalls(g *G) Calls {
	return Calls{Calls: g.calls(g.Range(1, 6))}
}

// checkEngines compares with a process built with the other regular expression engine.
func checkEngines(cs Calls) Result {
	outs, err := ask(peerBinary, []string{"TZ=UTC"}, cs.Calls)
	if err != nil {
		return bad("with the tag re2_wasm: %v", err)
	}
	dates := 0
	for i, c := range cs.Calls {
		if c.Cfg.now().IsZero() {
			continue // the real time
		}
		o := c.fresh()
		if o.key() != outs[i].key() {
			return bad("call %d, %s %q, gives %s but %s with the tag re2_wasm", i, c.Op, c.text(), o.key(), outs[i].key())
		}
		if !o.Out.Err {
			dates++
		}
	}
	if dates == 0 {
		return trivial("no date")
	}
	return ok(fmt.Sprintf("%d dates", dates))
}

func init() {
	Register("P25", "engines", 400, 6000, genEngineCalls, checkEngines)
}
