package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: dpverif worker|replay|serve|list")
		os.Exit(2)
	}

	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	sub := fs.String("sub", "", "only this sub-check")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Uint64("seed", 1, "seed")
	shard := fs.Int("shard", 0, "index of this shard")
	nShard := fs.Int("shards", 1, "number of shards")
	out := fs.String("out", "", "report file")
	journal := fs.String("journal", "", "journal of the running case")
	file := fs.String("file", "", "replay file")
	peer := fs.String("peer", "", "binary used as the other side of a differential check")
	must(fs.Parse(os.Args[2:]))
	peerBinary = *peer

	switch mode {
	case "worker":
		ctx := &runCtx{prop: *prop, tier: *tier, seed: *seed, shard: *shard, nShard: *nShard, journal: *journal}
		ctx.watchdog()
		found := false
		for _, s := range subs {
			if s.Prop == *prop && (*sub == "" || s.Name == *sub) {
				found = true
				s.run(ctx, s)
			}
		}
		closePeers()
		if !found {
			fmt.Fprintln(os.Stderr, "no such property", *prop)
			os.Exit(2)
		}
		bt, err := json.Marshal(map[string]any{"reports": ctx.reports, "violations": ctx.viols})
		must(err)
		if *out == "" {
			for _, r := range ctx.reports {
				r.Hashes = nil
			}
			bt, _ = json.MarshalIndent(map[string]any{"reports": ctx.reports, "violations": ctx.viols}, "", " ")
			os.Stdout.Write(bt)
			fmt.Println()
		} else {
			must(os.WriteFile(*out, bt, 0o644))
		}
		if len(ctx.viols) > 0 {
			os.Exit(1)
		}
	case "replay":
		bt, err := os.ReadFile(*file)
		must(err)
		var v violation
		must(json.Unmarshal(bt, &v))
		for _, s := range subs {
			if s.Prop == v.Property && s.Name == v.Sub {
				res := s.replay(v.Case)
				closePeers()
				if res.Fail != "" {
					fmt.Println("FAIL", res.Fail)
					os.Exit(1)
				}
				fmt.Println("PASS", res.Class)
				return
			}
		}
		fmt.Fprintln(os.Stderr, "no such check", v.Property, v.Sub)
		os.Exit(2)
	case "serve":
		serve(bufio.NewReaderSize(os.Stdin, 1<<20), os.Stdout)
	case "list":
		var lines []string
		for _, s := range subs {
			lines = append(lines, fmt.Sprintf("%s %s %d %d", s.Prop, s.Name, s.Quick, s.Thorough))
		}
		sort.Strings(lines)
		for _, l := range lines {
			fmt.Println(l)
		}
	default:
		os.Exit(2)
	}
}
