package main

import (
	"fmt"
	"slices"
	"time"

	dps "github.com/markusmobius/go-dateparser"
)

// History is a sequence of parses by one parser.
type History struct {
	Steps []Selection
}

func genHistory(g *G) History {
	var h History
	now := g.Now(1990, 2040).Format(time.RFC3339)
	pool := []string{pick(g, refLocales()), pick(g, refLocales()), pick(g, someLangs), pick(g, someLangs), pick(g, []string{"en", "en-GB", "fr", "fr-CA", "hu", "de"})}
	n := 1 + g.many(8)
	for i := 9; i < n; i++ {
		pool = append(pool, pick(g, refLocales()))
	}
	all := g.P(15)
	for i := 0; i < n; i++ {
		s := Selection{}
		s.Cfg.Now = now
		s.Cfg.TryPrevious = g.P(85)
		s.Cfg.GivenOrder = g.Bool()
		s.Text, s.Kind = g.localText(pick(g, pool))
		if g.P(40) {
			s.Text, s.Kind = fmt.Sprintf("%02d/%02d/%d", 1+g.N(12), 1+g.N(12), g.Range(1950, 2050)), "numeric"
		}
		switch k := g.N(10); {
		case k < 5:
			for j := g.Range(1, 4); j > 0; j-- {
				l := pick(g, pool)
				if !slices.ContainsFunc(s.Cfg.Locales, func(o string) bool { return langOf(o) == langOf(l) }) {
					s.Cfg.Locales = append(s.Cfg.Locales, l)
				}
			}
		case k < 9 || !all:
			for j := g.Range(1, 4); j > 0; j-- {
				s.Cfg.Languages = append(s.Cfg.Languages, langOf(pick(g, pool)))
			}
			if g.P(20) {
				s.Cfg.Region = pick(g, []string{"US", "GB", "CA", "CH"})
			}
		}
		if g.P(10) {
			s.Text, s.Kind = "foo 12 bar", "junk"
		}
		if g.P(5) {
			s.Cfg.Locales = []string{"xx"}
		}
		h.Steps = append(h.Steps, s)
	}
	return h
}

func checkHistory(h History) Result {
	p := &dps.Parser{}
	var used []string
	class := "no previous locale"
	for i, s := range h.Steps {
		d, err := p.Parse(s.build(), s.Text)
		locales, selErr := selected(s.Cfg.Locales, s.Cfg.Languages, s.Cfg.Region, s.Cfg.GivenOrder)
		what := fmt.Sprintf("step %d %q (used %v, allowed %v)", i, s.Text, used, locales[:min(len(locales), 9)])
		if selErr != nil {
			if err == nil {
				return bad("%s: want error because of %v, got %s", what, selErr, toOut(d, nil))
			}
			continue
		}

		outcome := map[string]Out{}
		parse := func(l string) (Out, bool) {
			o, done := outcome[l]
			if !done {
				o = toOut(s.single(l))
				outcome[l] = o
			}
			return o, !o.Err
		}

		normal := Out{Err: true}
		for _, l := range locales {
			if o, parsed := parse(l); parsed {
				normal = o
				break
			}
		}
		want := []Out{normal}
		if s.Cfg.TryPrevious {
			for j, l := range used {
				if (len(s.Cfg.Locales) > 0 || len(s.Cfg.Languages) > 0) && !slices.Contains(locales, l) {
					continue
				}
				o, parsed := parse(l)
				if parsed {
					if first := !slices.ContainsFunc(used[:j], func(u string) bool {
						return slices.Contains(locales, u) || len(s.Cfg.Locales)+len(s.Cfg.Languages) == 0
					}); first {
						want = []Out{o}
						if o != normal {
							class = "previous locale goes first"
						} else if class == "no previous locale" {
							class = "same locale"
						}
					} else {
						// An earlier one may be applicable without being able to parse the text
						want = append(want, o)
					}
					break
				}
			}
		}
		got := toOut(d, err)
		if !slices.Contains(want, got) {
			return bad("%s: want %v, got %s", what, want, got)
		}
		if err == nil && s.Cfg.TryPrevious && !slices.Contains(used, d.Locale) {
			used = append(used, d.Locale)
		}
	}
	if class == "no previous locale" {
		return trivial(class)
	}
	return ok(class)
}

func init() {
	Register("P16", "histories", 20000, 200000, genHistory, checkHistory)
}
