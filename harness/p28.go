package main

import (
	"slices"
	"strings"
)

// SkipCase is a text with words to skip.
type SkipCase struct {
	Cfg    Cfg
	Text   string
	Words  []string // inserted words
	At     []int    // and the gaps of the text they are inserted at
	Locale bool     // words of the locale, in place of configured ones
	Class  string
}

func (g *G) gibberish() string {
	n := g.Range(3, 7)
	s := ""
	for len(s) < n {
		s += pick(g, []string{"q", "x", "v", "w"})
	}
	return s
}

func genSkip(g *G) SkipCase {
	var c SkipCase
	l := pick(g, refLocales())
	if g.P(30) {
		l = pick(g, someLangs)
	}
	c.Cfg.Locales = []string{l}
	c.Text, c.Class = g.localText(l)
	if g.P(25) {
		c.Text, c.Class = genAbsolute(g).Text, "English"
		c.Cfg.Locales[0] = pick(g, []string{"en", "en-GB", "en-AU"})
		l = c.Cfg.Locales[0]
	}
	c.Locale = g.P(50)
	if slices.Contains(refNoSpace(), l) {
		c.Locale = true // unknown words are searched for known ones
	}
	setNow(&c.Cfg, g.Now(1970, 2060))
	gaps := strings.Count(c.Text, " ") + 1
	for n := g.Range(1, 3); n > 0; n-- {
		if c.Locale {
			c.Words = append(c.Words, pick(g, refSkip()[l]))
		} else if l != "fi" && g.P(25) {
			c.Words = append(c.Words, "t") // skipped by default
		} else {
			c.Words = append(c.Words, g.gibberish())
		}
		at := g.N(gaps + 1)
		if c.Class != "date" && c.Class != "weekday date" && at > 0 { // the words of others belong together
			at = gaps
		}
		c.At = append(c.At, at)
	}
	if !c.Locale {
		c.Cfg.Skip = append(slices.Clone(c.Words), "t")
	}
	return c
}

// with inserts the words.
func (c SkipCase) with() string {
	parts := strings.Split(c.Text, " ")
	digit := func(i int) bool { return strings.Trim(parts[i], "0123456789,") == "" }
	var out []string
	for i := 0; i <= len(parts); i++ {
		for k, at := range c.At {
			at = min(at, len(parts))
			for at > 0 && at < len(parts) && !digit(at-1) && !digit(at) {
				at++ // inside of a name
			}
			if at == i {
				out = append(out, c.Words[k])
			}
		}
		if i < len(parts) {
			out = append(out, parts[i])
		}
	}
	return strings.Join(out, " ")
}

func checkSkip(c SkipCase) Result {
	cfg := c.Cfg
	cfg.Skip = nil
	plain, err := parseFresh(cfg, c.Text)
	want := toOut(plain, err)
	text := c.with()
	got := toOut(parseFresh(c.Cfg, text))
	switch l := langOf(c.Cfg.Locales[0]); {
	case l == "vi" && strings.HasSuffix(c.Class, "date"), l == "mgo" && c.Class == "weekday date":
		return Result{Skip: true} // its months or weekdays have a number
	case l == "ru" && strings.HasSuffix(c.Text, "год"), l == "th" && slices.Contains(c.Words, "น."):
		return Result{Skip: true} // the year of a date or amount, the hour of a clock
	}
	if want.Err {
		return trivial("no date")
	}
	if got != want {
		return bad("%v %q gives %s, but with the words to skip %q %s", c.Cfg.Locales, c.Text, want, text, got)
	}
	if c.Locale {
		return ok("locale, " + c.Class)
	}
	if !slices.ContainsFunc(c.Words, func(w string) bool { return w != "t" }) {
		return ok("default, " + c.Class)
	}
	// The words aren't known by themselves
	if none := toOut(parseFresh(cfg, text)); !none.Err {
		return bad("%v %q has unknown words, but gives %s", c.Cfg.Locales, text, none)
	}
	if one := c.Words[0]; one != "t" && len(c.Words) > 1 && slices.ContainsFunc(c.Words, func(w string) bool { return w != one && w != "t" }) {
		cfg.Skip = []string{one, "t"}
		if none := toOut(parseFresh(cfg, text)); !none.Err {
			return bad("%v %q has unknown words beside %s, but gives %s", c.Cfg.Locales, text, one, none)
		}
	}
	return ok("configured, " + c.Class)
}

func init() {
	Register("P28", "words to skip", 8000, 100000, genSkip, checkSkip)
}
