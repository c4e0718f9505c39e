package main

import (
	"fmt"

	"strings"
	"time"
)

// UnitCase is a complete date or clock with the locale's word for year or hour beside it.
type UnitCase struct {
	Locale  string
	Order   string
	Sep     string
	Month   string // name in place of the number
	Y, M, D int
	H, Min  int
	Clock   bool
	Year    string // word after the date, if it ends in the year
	Hour    string // word after the clock
	Tight   bool   // no space before the word
	Upper   bool
	Now     string
}

func (c UnitCase) text(words bool) string {
	month := fmt.Sprintf("%02d", c.M)
	if c.Month != "" {
		month = c.Month
	}
	var p []string
	for _, r := range c.Order {
		switch r {
		case 'Y':
			p = append(p, fmt.Sprintf("%04d", c.Y))
		case 'M':
			p = append(p, month)
		case 'D':
			p = append(p, fmt.Sprintf("%02d", c.D))
		}
	}
	space := " "
	if c.Tight {
		space = ""
	}
	form := func(s string) string {
		if c.Upper {
			return upperExact(s)
		}
		return s
	}
	text := strings.Join(p, c.Sep)
	if words && c.Year != "" {
		text += space + form(c.Year)
	}
	if c.Clock {
		text += fmt.Sprintf(" %02d:%02d", c.H, c.Min)
		if words && c.Hour != "" {
			text += space + form(c.Hour)
		}
	}
	return text
}

// upperExact is upper case if it can be turned back.
func upperExact(s string) string {
	if u := strings.ToUpper(s); strings.ToLower(u) == s {
		return u
	}
	return s
}

// order is the date order of the locale.
func (c *UnitCase) order() {
	c.Order = refOrders()[c.Locale]
	if c.Order == "" {
		c.Order = refOrders()[langOf(c.Locale)]
	}
	if c.Order == "" {
		c.Order = "MDY"
	}
}

func (c *UnitCase) fill(g *G) {
	d := g.YMD(1500, 2900)
	c.Y, c.M, c.D = d.Y, d.M, d.D
	c.H, c.Min = g.N(24), g.N(60)
	c.order()
	c.Sep = pick(g, []string{"/", "-", ".", "/", " "})
	if c.Sep == " " {
		names := refNames()[c.Locale]
		for _, w := range sortedKeys(names) {
			if monthIndex(names[w]) == c.M && !isAmbiguousName(w) && g.P(60) {
				c.Month = w
			}
		}
		if c.Month == "" {
			c.Sep = "/"
		}
	}
	c.Now = g.Now(1900, 2100).Format(time.RFC3339)
}

func listUnits() (out []UnitCase) {
	i := 0
	set := func(c UnitCase) {
		i++
		c.Y, c.M, c.D, c.H, c.Min = 1970+i%80, 1+i%12, 1+i%28, i%24, i*7%60
		c.Sep = []string{"/", "-", "."}[i%3]
		c.Now = "2024-05-17T09:30:12Z"
		c.order()
		out = append(out, c)
	}
	for _, l := range refLocales() {
		u := refUnits()[l]
		for _, w := range u.Year {
			set(UnitCase{Locale: l, Year: w})
		}
		for _, w := range u.Hour {
			set(UnitCase{Locale: l, Hour: w, Clock: true})
		}
	}
	return
}

func genUnit(g *G) UnitCase {
	var c UnitCase
	for c.Year == "" && c.Hour == "" {
		c.Locale = pick(g, refLocales())
		if g.P(40) {
			c.Locale = pick(g, someLangs)
		}
		u := refUnits()[c.Locale]
		c.Clock = g.P(60)
		if g.P(60) && len(u.Year) > 0 {
			c.Year = pick(g, u.Year)
		}
		if c.Clock && g.P(60) && len(u.Hour) > 0 {
			c.Hour = pick(g, u.Hour)
		}
	}
	c.fill(g)
	c.Tight, c.Upper = g.P(20), g.P(20)
	return c
}

func checkUnit(c UnitCase) Result {
	if c.Year != "" && !strings.HasSuffix(c.Order, "Y") {
		c.Year = "" // only after the year
	}
	if _, now := refRel()[c.Locale][c.Hour]; now && c.Tight {
		return Result{Skip: true} // "ora" is "now" in Italian, too
	}
	if c.Year == "" && c.Hour == "" || langOf(c.Locale) == "ta" {
		return Result{Skip: true} // "2 ஆ" is "in 2 years" in Tamil
	}
	cfg := Cfg{Locales: []string{c.Locale}, Now: c.Now}
	plain := toOut(parseFresh(cfg, c.text(false)))
	if plain.Err {
		return trivial("no date")
	}
	text := c.text(true)
	if got := toOut(parseFresh(cfg, text)); got != plain {
		return bad("[%s] %q gives %s, but with words of units %q %s", c.Locale, c.text(false), plain, text, got)
	}
	class := "numeric"
	if c.Month != "" {
		class = "named month"
	}
	if c.Hour != "" {
		class += ", hour"
	}
	if c.Year != "" {
		class += ", year"
	}
	return ok(class)
}

func init() {
	RegisterList("P29", "every word", 1, listUnits, checkUnit)
	Register("P29", "words of units", 8000, 100000, genUnit, checkUnit)
}
