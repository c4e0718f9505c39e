package main

import (
	"fmt"
	"slices"
	"strings"

	dps "github.com/markusmobius/go-dateparser"
)

// TypesCase is a text that is parsed with a selection of parsers.
type TypesCase struct {
	Cfg   Cfg
	Text  string
	Types []int
	Class string
}

func genTypes(g *G) TypesCase {
	var c TypesCase
	l := pick(g, refLocales())
	c.Cfg.Locales = []string{l}
	switch g.N(8) {
	case 0:
		c.Text, c.Class = fmt.Sprint(g.Range(1000000000, 2000000000)), "timestamp"
	case 1:
		c.Text, c.Class = fmt.Sprint(-g.Range(1000000000, 2000000000)), "timestamp"
	case 2:
		d := g.YMD(1000, 2999)
		c.Text, c.Class = fmt.Sprintf("%04d%02d%02d", d.Y, d.M, d.D), "no spaces"
		if g.Bool() {
			c.Text += fmt.Sprintf("%02d%02d", g.N(24), g.N(60))
		}
	case 3:
		c.Text, c.Class = fmt.Sprint(g.Range(1000, 99999999)), "digits"
	case 4:
		c.Text, c.Class = genAbsolute(g).Text, "English"
		c.Cfg.Locales[0] = "en"
	default:
		c.Text, c.Class = g.localText(l)
	}
	if g.P(30) {
		l2 := pick(g, refLocales())
		// Two locales of one language aren't allowed
		if a, _, _ := strings.Cut(l2, "-"); !strings.HasPrefix(c.Cfg.Locales[0]+"-", a+"-") {
			c.Cfg.Locales = append(c.Cfg.Locales, l2)
			if g.Bool() {
				slices.Reverse(c.Cfg.Locales)
			}
		}
	}
	c.Cfg.GivenOrder = true
	if g.P(40) {
		c.Cfg.Order = pick(g, sixOrders)
	}
	c.Cfg.Strict = g.P(20)
	if g.P(20) {
		c.Cfg.Required = [][]string{{"day"}, {"Month"}, {"year", "DAY"}}[g.N(3)]
	}
	c.Cfg.Source, c.Cfg.DayPref, c.Cfg.MonthPref = g.N(3), g.N(3), g.N(3)
	setNow(&c.Cfg, g.Now(1970, 2060))
	for n := g.Range(1, 7); n > 0; n-- {
		c.Types = append(c.Types, g.N(6))
	}
	return c
}

func parserOf(types []int) *dps.Parser {
	p := &dps.Parser{}
	for _, t := range types {
		p.ParserTypes = append(p.ParserTypes, dps.ParserType(t))
	}
	return p
}

func checkTypes(c TypesCase) Result {
	// Each parser by itself, in each locale by itself
	alone := map[string]map[int]Out{}
	for _, l := range c.Cfg.Locales {
		alone[l] = map[int]Out{}
		for t := 0; t < 6; t++ {
			cfg := c.Cfg
			cfg.Locales = []string{l}
			alone[l][t] = toOut(parserOf([]int{t}).Parse(cfg.build(), c.Text))
		}
	}
	first := func(types []int) (Out, int) {
		for _, l := range c.Cfg.Locales {
			for _, t := range types {
				if o := alone[l][t]; !o.Err {
					return o, t
				}
			}
		}
		return Out{Err: true}, -1
	}
	want, _ := first(c.Types)
	if got := toOut(parserOf(c.Types).Parse(c.Cfg.build(), c.Text)); got != want {
		return bad("%q by parsers %v in %v gives %s, but one by one %s", c.Text, c.Types, c.Cfg.Locales, got, want)
	}
	want, t := first([]int{0, 1, 2, 3, 4, 5})
	if got := toOut((&dps.Parser{}).Parse(c.Cfg.build(), c.Text)); got != want {
		return bad("%q in %v gives %s, but the parsers one by one give %s", c.Text, c.Cfg.Locales, got, want)
	}
	if t < 0 {
		return trivial("no date")
	}
	return ok(fmt.Sprintf("%s, parser %d", c.Class, t))
}

// ValidCase is a configuration which may be invalid.
type ValidCase struct {
	Call  Call
	Class string
}

func genValid(g *G) ValidCase {
	var c ValidCase
	l := pick(g, someLangs)
	c.Call.Op = pick(g, []string{"parse", "search", "searchlang", "jalali", "hijri"})
	c.Call.Text = "13.05.2021"
	c.Call.Cfg.Languages = []string{l}
	c.Call.Lang = l
	setNow(&c.Call.Cfg, g.Now(1970, 2060))
	val := func() int {
		if g.P(80) {
			return g.N(3)
		}
		// the first value past the last one is the one that slips through
		if g.P(60) {
			return g.Range(3, 4)
		}
		return g.N(256)
	}
	c.Call.Cfg.DayPref, c.Call.Cfg.MonthPref, c.Call.Cfg.Source = val(), val(), val()
	if g.P(70) {
		for n := g.Range(0, 3); n > 0; n-- {
			c.Call.Cfg.Required = append(c.Call.Cfg.Required, pick(g, []string{"day", "month", "year", "Day", "MONTH", "yeaR", "day", "month", "year", pick(g, []string{"", "hour", "days", " day", "d", "week", "day,month"})}))
		}
	}
	if g.P(50) {
		for n := g.Range(1, 4); n > 0; n-- {
			t := g.N(6)
			if g.P(15) {
				t = pick(g, []int{6, 6, 7, 8, g.Range(6, 255), 255})
			}
			c.Call.Types = append(c.Call.Types, t)
		}
	}
	return c
}

func checkValid(c ValidCase) Result {
	cfg := c.Call.Cfg
	why := ""
	if cfg.DayPref > 2 || cfg.MonthPref > 2 || cfg.Source > 2 {
		why = "preference"
	}
	for _, part := range cfg.Required {
		if !slices.Contains([]string{"day", "month", "year"}, lowerASCII(part)) {
			why = "required part"
		}
	}
	if c.Call.Op == "parse" && slices.ContainsFunc(c.Call.Types, func(t int) bool { return t > 5 }) {
		why = "parser type"
	}
	if why == "" && len(c.Call.Types) > 0 && c.Call.Op != "parse" && slices.Max(c.Call.Types) > 5 {
		return Result{Skip: true}
	}
	o := c.Call.fresh()
	if why != "" {
		if !o.Out.Err {
			return bad("%s with invalid %s (%+v) gives no error but %s", c.Call.Op, why, c.Call, o.key())
		}
		return ok("invalid " + why + ", " + c.Call.Op)
	}
	// A valid configuration can only fail as the text doesn't satisfy it
	if o.Out.Err && len(c.Call.Types) == 0 && !(c.Call.Op == "jalali" || c.Call.Op == "hijri") {
		return bad("%s of %q with valid configuration %+v gives an error %s", c.Call.Op, c.Call.Text, c.Call.Cfg, o.ErrText)
	}
	return ok("valid, " + c.Call.Op)
}

func lowerASCII(s string) string {
	bt := []byte(s)
	for i, b := range bt {
		if 'A' <= b && b <= 'Z' {
			bt[i] = b + 32
		}
	}
	return string(bt)
}

func init() {
	Register("P27", "selected parsers", 8000, 100000, genTypes, checkTypes)
	Register("P27", "validation", 20000, 200000, genValid, checkValid)
}
