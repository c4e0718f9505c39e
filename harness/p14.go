package main

import (
	"fmt"
	"strings"
	"time"
	"unicode"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

// Custom is a text in one of the formats given by the caller.
type Custom struct {
	Cfg     Cfg
	Formats []string
	Text    string
	Locale  string `json:",omitempty"` // expected one, empty for the raw text
	Y, M, D int    // zero when the format lacks it
	YDay    bool
	C       Clock
	Secs    *int `json:",omitempty"` // offset written in the text
	Class   string
}

func (c Custom) expect() (t time.Time, period date.Period) {
	now := c.Cfg.now()
	loc := now.Location()
	if c.Cfg.DefTZ != "" {
		loc = zone(c.Cfg.DefTZ)
	}
	if c.Secs != nil {
		loc = time.FixedZone("", *c.Secs)
	}
	y, m, d := c.Y, c.M, c.D
	period = date.Day
	switch {
	case m == 0:
		period = date.Year
	case d == 0:
		period = date.Month
	}
	if y == 0 {
		y = now.Year()
	}
	if m == 0 {
		m = [...]int{int(now.Month()), 1, 12}[c.Cfg.MonthPref]
	}
	switch {
	case d == 0:
		d = [...]int{now.Day(), 1, 31}[c.Cfg.DayPref]
		d = min(d, dim(y, m))
	case c.M == 0: // the month was chosen
		d = min(d, dim(y, m))
	case c.Y == 0 && m == 2 && d == 29 && !isLeap(y):
		y = leapAround(y, c.Cfg.Source)
	}
	return time.Date(y, time.Month(m), d, c.C.H, c.C.M, c.C.S, c.C.NS, loc), period
}

// genCustom builds a layout from its parts and the text with them.
func genCustom(g *G) Custom {
	c := Custom{Class: "raw"}
	g.anyPrefs(&c.Cfg)
	c.Cfg.Strict, c.Cfg.Required = false, nil
	c.Cfg.NowZone = pick(g, []string{"", "", "+0530", "-0330"})
	if g.P(30) {
		c.Cfg.DefTZ = pick(g, []string{"UTC", "+0900", "-0700"})
	}
	c.Cfg.TimePeriod = g.P(20)
	if g.P(50) {
		c.Cfg.Languages = []string{pick(g, []string{"en", "fr", "ja"})}
	}
	v := g.YMD(1600, 2400)
	var parts []string
	two := g.P(15)
	if g.P(70) {
		c.Y = v.Y
		if two {
			c.Y = g.Range(1969, 2068)
			parts = append(parts, "06")
		} else {
			parts = append(parts, "2006")
		}
	}
	if c.Y > 0 && !isLeap(c.Y) && v.M == 2 {
		v.D = min(v.D, 28)
	}
	if g.P(6) {
		c.YDay = true
		parts = append(parts, "002")
		if c.Y == 0 {
			c.Y = v.Y
			parts = append(parts, "2006")
			v.D = min(v.D, dim(c.Y, v.M))
		}
		c.M, c.D = v.M, v.D
	} else {
		if g.P(75) {
			c.M = v.M
			parts = append(parts, pick(g, []string{"01", "1", "Jan", "January", "January"}))
		}
		if g.P(75) {
			c.D = v.D
			parts = append(parts, pick(g, []string{"02", "2", "02", "_2"}))
		}
	}
	if len(parts) == 0 {
		c.Y = v.Y
		parts = append(parts, "2006")
	}
	for i := len(parts) - 1; i > 0; i-- {
		j := g.N(i + 1)
		parts[i], parts[j] = parts[j], parts[i]
	}
	sep := pick(g, []string{"/", ".", " ", ", ", "~", " of ", "年"})
	layout := strings.Join(parts, sep)
	if g.P(20) && c.Y > 0 && c.M > 0 && c.D > 0 {
		layout = pick(g, []string{"Monday", "Mon"}) + pick(g, []string{" ", ", "}) + layout
	}
	if g.P(45) {
		c.C.H, c.C.M = g.N(24), g.N(60)
		l := "15:04"
		switch g.N(5) {
		case 0:
			l = "3:04PM"
		case 1:
			l, c.C.S = "15:04:05", g.N(60)
		case 2:
			l, c.C.S, c.C.NS = "15:04:05.000", g.N(60), g.N(1000)*1_000_000
		case 3:
			l, c.C.S = "15h04m05s", g.N(60)
		}
		if g.P(30) {
			layout = l + " " + layout
		} else {
			layout = layout + pick(g, []string{" ", " @ ", "; "}) + l
		}
		if g.P(30) {
			r := pick(g, tzList(refTz().Offsets))
			secs := r.Secs
			if secs%60 == 0 {
				c.Secs = &secs
				layout += pick(g, []string{" -0700", " -07:00", " Z07:00"})
				c.Class += " offset"
			}
		}
	}
	layout = pick(g, []string{"", "", "", "Date: ", "[", "→ "}) + layout
	if strings.HasPrefix(layout, "[") {
		layout += "]"
	}

	// The text. The year 2000 has every day.
	y, m, d := c.Y, c.M, c.D
	if y == 0 {
		y = 2000
	}
	if m == 0 {
		m = 1
	}
	if d == 0 {
		d = 1
	}
	loc := time.UTC
	if c.Secs != nil {
		loc = time.FixedZone("", *c.Secs)
	}
	c.Text = time.Date(y, time.Month(m), d, c.C.H, c.C.M, c.C.S, c.C.NS, loc).Format(layout)

	// Formats that come first and don't match
	others := []string{"2006-01-02T15:04:05Z07:00", "Jan 2006 Mon 02 05 | 15", "##", "15:04:05.000000 MST 2006", "06#1#2"}
	for g.P(30) && len(c.Formats) < 3 {
		c.Formats = append(c.Formats, pick(g, others))
	}
	c.Formats = append(c.Formats, layout)
	for g.P(30) && len(c.Formats) < 5 { // later ones don't matter, even if they match too
		c.Formats = append(c.Formats, pick(g, append(others, layout, "2006", "01/02/2006", "02/01/2006", "02.01.2006")))
	}
	have := ""
	for _, p := range []struct {
		s string
		b bool
	}{{"y", c.Y > 0}, {"m", c.M > 0}, {"d", c.D > 0}, {"#", c.YDay}} {
		if p.b {
			have += p.s
		}
	}
	c.Class += " " + have
	return c
}

// genCustomLocal: the month is written in the language of a locale.
func genCustomLocal(g *G) Custom {
	n := genName(g)
	// A format reads the raw text first, where "may" is English whatever the locale is
	for n.M == 0 || monthIndex(n.Word) > 0 && monthIndex(n.Word) != n.M || isAmbiguousName(n.Word) || strings.IndexFunc(n.Word, unicode.IsDigit) >= 0 {
		n = genName(g)
	}
	c := Custom{Cfg: Cfg{Locales: []string{n.Locale}, Now: n.Now}, Locale: n.Locale, Y: n.Y, M: n.M, D: n.D, Class: "localized"}
	layout := pick(g, []string{"2 January 2006", "2006 January 02", "January 2, 2006", "2006/January/02"})
	if g.P(25) {
		layout, c.D = strings.NewReplacer("2 January", "January", "/02", "", " 02", "", "2, ", "").Replace(layout), 0
		layout = strings.TrimSpace(layout)
	}
	c.Cfg.DayPref, c.Cfg.Source = g.N(3), g.N(3)
	d := max(c.D, 1)
	c.Text = strings.Replace(time.Date(c.Y, 1, d, 0, 0, 0, 0, time.UTC).Format(layout), "January", n.Word, 1)
	c.Formats = []string{layout}
	if strings.EqualFold(n.Word, n.English) { // matches without translation
		c.Locale = ""
	}
	return c
}

func checkCustom(c Custom) Result {
	want, period := c.expect()
	var d date.Date
	var err error
	if c.Locale != "" {
		p := &dps.Parser{ParserTypes: []dps.ParserType{dps.CustomFormat}}
		d, err = p.Parse(c.Cfg.build(), c.Text, c.Formats...)
	} else {
		d, err = parseFresh(c.Cfg, c.Text, c.Formats...)
	}
	what := fmt.Sprintf("%q formats %q now %s", c.Text, c.Formats, c.Cfg.Now)
	if f := expectWall(what, d, err, want, period); f != "" {
		return bad("%s", f)
	}
	if d.Locale != c.Locale {
		return bad("%s: want locale %q, got %q", what, c.Locale, d.Locale)
	}
	return ok(c.Class)
}

// Unmatched is a text which none of the formats match.
type Unmatched struct {
	Absolute
	Formats []string
}

func genUnmatched(g *G) Unmatched {
	u := Unmatched{Absolute: genAbsolute(g)}
	for i := g.Range(1, 3); i > 0; i-- {
		u.Formats = append(u.Formats, pick(g, []string{"2006|01|02", "Jan-2006-2 (Mon)", "06#1#2", "x", "15h 2006", ""}))
	}
	return u
}

func checkUnmatched(u Unmatched) Result {
	d, err := parseFresh(u.Cfg, u.Text, u.Formats...)
	p, perr := parseFresh(u.Cfg, u.Text)
	if a, b := toOut(d, err), toOut(p, perr); a != b {
		return bad("%q formats %q: got %s, but %s without formats", u.Text, u.Formats, a, b)
	}
	if err != nil {
		return bad("%q: error %v", u.Text, err)
	}
	return ok("unmatched")
}

func init() {
	Register("P14", "custom formats", 16000, 200000, genCustom, checkCustom)
	Register("P14", "localized", 5000, 60000, genCustomLocal, checkCustom)
	Register("P14", "unmatched", 2000, 20000, genUnmatched, checkUnmatched)
}
