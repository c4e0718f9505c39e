package main

import (
	"fmt"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

// ZoneCase is a text with an explicit timezone.
type ZoneCase struct {
	Cfg    Cfg
	Head   string // text before the timezone
	Zone   string
	Tail   string
	Secs   int
	Name   string
	Want   string // wall clock in the zone
	Period string
	Class  string
}

func (z ZoneCase) text() string { return z.Head + z.Zone + z.Tail }

func abbreviations() []tzRef {
	var out []tzRef
	seen := map[string]bool{}
	for _, r := range tzList(refTz().Abbr) {
		if !seen[r.Name] { // LMT has several meanings in the source, the first one is used
			out = append(out, r)
		}
		seen[r.Name] = true
	}
	return out
}

// markedZone tells that the parser strips the mark of a letter of the name before it looks for
// timezones, see the known findings.
func markedZone(name string) bool { return strings.Contains(name, "Č") }

func (g *G) plainAbbr() tzRef {
	for {
		if r := pick(g, abbreviations()); !markedZone(r.Name) {
			return r
		}
	}
}

// offsetText writes an offset as an user would.
func (g *G) offsetText(secs int) (string, string) {
	sign := "+"
	if secs < 0 || secs == 0 && g.Bool() {
		sign = "-"
	}
	if secs < 0 {
		secs = -secs
	}
	h, m := secs/3600, secs/60%60
	prefix := pick(g, []string{"UTC", "GMT", ""})
	forms := []string{"hh:mm", "hhmm"}
	if prefix != "" {
		if m == 0 {
			forms = append(forms, "h", "hh")
		} else {
			forms = append(forms, "h:mm")
		}
	}
	f := pick(g, forms)
	out := prefix + sign
	switch f {
	case "hh:mm":
		out += fmt.Sprintf("%02d:%02d", h, m)
	case "hhmm":
		out += fmt.Sprintf("%02d%02d", h, m)
	case "h":
		out += fmt.Sprintf("%d", h)
	case "hh":
		out += fmt.Sprintf("%02d", h)
	case "h:mm":
		out += fmt.Sprintf("%d:%02d", h, m)
	}
	if prefix == "" {
		prefix = "bare"
	}
	return out, prefix + " " + f
}

func (g *G) zoneCfg() Cfg {
	c := Cfg{Languages: []string{"en"}}
	g.anyPrefs(&c)
	c.NowZone = pick(g, []string{"", "", "+0530", "America/New_York"})
	if g.P(30) { // the explicit one wins
		c.DefTZ = pick(g, []string{"UTC", "+0900", "America/Los_Angeles", "Europe/London"})
	}
	c.TimePeriod = g.P(30)
	return c
}

func (z *ZoneCase) absolute(g *G, form int) {
	c := g.YMD(1500, 9998)
	h, m, s := g.N(24), g.N(60), g.N(60)
	t := time.Date(c.Y, time.Month(c.M), c.D, h, m, s, 0, time.UTC)
	z.Want = wall(t)
	p := date.Second
	switch form {
	case 0:
		z.Head = t.Format("2006-01-02 15:04:05 ")
	case 1:
		z.Head = t.Format("2 January 2006 15:04:05 ")
	case 2:
		z.Head = t.Format("Monday, January 2, 2006 at 3:04:05 PM ")
	case 3:
		z.Head, z.Tail = t.Format("Mon Jan _2 15:04:05 "), t.Format(" 2006")
	case 4:
		z.Head, z.Tail = t.Format("15:04:05 "), t.Format(", 2 January 2006")
	case 5:
		z.Head = t.Format("Jan 2, 2006 15:04:05 (")
		z.Tail = ")"
	case 6:
		z.Head = t.Format("2006-01-02T15:04:05")
	case 7:
		z.Head = t.Format("2006-01-02 15:04 ")
		z.Want = wall(t.Truncate(time.Minute))
		p = date.Minute
	}
	if !z.Cfg.TimePeriod {
		p = date.Day
	}
	z.Period = p.String()
	z.Class += fmt.Sprintf(" form %d", form)
}

func genOffset(g *G) ZoneCase {
	z := ZoneCase{Cfg: g.zoneCfg()}
	r := pick(g, tzList(refTz().Offsets))
	z.Zone, z.Class = g.offsetText(r.Secs)
	z.Secs = r.Secs
	z.Zone = g.Case(z.Zone)
	z.absolute(g, pick(g, []int{0, 1, 2, 6, 7}))
	return z
}

func genAbbr(g *G) ZoneCase {
	z := ZoneCase{Cfg: g.zoneCfg()}
	r := g.plainAbbr()
	z.Zone, z.Secs, z.Name, z.Class = r.Name, r.Secs, r.Name, "abbreviation"
	if g.P(25) {
		z.Zone = strings.ToLower(z.Zone)
	}
	z.absolute(g, g.N(8))
	return z
}

func listAbbr() (out []ZoneCase) {
	for _, r := range abbreviations() {
		for i, layout := range []string{"2006-01-02 15:04:05 ", "Jan 2, 2006 3:04 PM ", "2 January 2006 15:04:05"} {
			t := time.Date(2011+i, time.Month(3+2*i), 14+i, 9+4*i, 26, 0, 0, time.UTC)
			z := ZoneCase{Cfg: Cfg{Languages: []string{"en"}, Now: "2015-03-15T10:00:00Z"}, Head: t.Format(layout), Zone: r.Name, Secs: r.Secs, Name: r.Name, Want: wall(t), Period: date.Day.String(), Class: layout}
			out = append(out, z)
		}
	}
	return
}

func checkZone(z ZoneCase) Result {
	d, err := parseFresh(z.Cfg, z.text())
	if err != nil {
		return bad("%q: want %s offset %d, got error %v", z.text(), z.Want, z.Secs, err)
	}
	name, off := d.Time.Zone()
	if wall(d.Time) != z.Want || off != z.Secs {
		return bad("%q: want %s offset %d, got %s offset %d", z.text(), z.Want, z.Secs, wall(d.Time), off)
	}
	if z.Name != "" && name != z.Name {
		return bad("%q: want zone %s, got %s", z.text(), z.Name, name)
	}
	if z.Period != "" && d.Period.String() != z.Period {
		return bad("%q: want period %s, got %s", z.text(), z.Period, d.Period)
	}
	return ok(z.Class)
}

// genZoneRelative draws a relative date in an explicit timezone: the same instant in that zone.
func genZoneRelative(g *G) Relative {
	r := Relative{Cfg: g.relCfg()}
	r.Cfg.TimePeriod = g.P(30)
	u := pick(g, relUnits)
	a := Amount{Num: fmt.Sprint(g.Small(min(relMax[u], 400))), Unit: u}
	r.Amounts = []Amount{a}
	r.Text, r.Dir = g.direction(a.Num + " " + pick(g, relShort[u]))
	if r.Dir == 1 && strings.HasSuffix(r.Text, "now") || r.Dir == 0 {
		r.Text, r.Dir = "in "+a.Num+" "+u+"s", 1
	}
	tz := g.plainAbbr()
	r.Class = u
	r.Text += " " + tz.Name
	// The model converts the current time to the default timezone
	sign, s := "+", tz.Secs
	if s < 0 {
		sign, s = "-", -s
	}
	r.Cfg.DefTZ = fmt.Sprintf("%s%02d%02d", sign, s/3600, s/60%60)
	r.Clock = nil
	return r
}

type relativeZone struct {
	Relative
	Given string // default timezone in the configuration
}

func genRelativeZone(g *G) relativeZone {
	r := relativeZone{Relative: genZoneRelative(g)}
	r.Given = pick(g, []string{"", "", "+0900", "America/Los_Angeles"})
	return r
}

func checkRelativeZone(r relativeZone) Result {
	want, period, sharp := r.expect()
	if !sharp || want.Year() < 1 || want.Year() > 9999 {
		return Result{Skip: true}
	}
	cfg := r.Cfg
	cfg.DefTZ = r.Given
	d, err := parseFresh(cfg, r.Text)
	// Offsets with seconds can't be written, compare what matters
	_, wo := want.Zone()
	if err == nil {
		if _, o := d.Time.Zone(); o/60 == wo/60 && o != wo {
			return Result{Skip: true}
		}
	}
	if f := expectWall(fmt.Sprintf("%q now %s", r.Text, cfg.now().Format(time.RFC3339Nano)), d, err, want, period); f != "" {
		return bad("%s", f)
	}
	return ok(r.Class)
}

// PopCase is a text for PopTzOffset.
type PopCase struct {
	Head, Zone, Tail, Name string
	Secs                   int
}

var popHeads = []string{"10:00 ", "2015-03-01 23:45:01 ", "5 July 2016 at 4 pm ", "дата 5 мая ", "午後3時 ", "x ", "1 ", "7", "23:59:59", "(", "日", "é ", "​ "}

func genPop(g *G) PopCase {
	p := PopCase{Head: pick(g, popHeads)}
	if g.P(60) {
		r := pick(g, abbreviations())
		p.Zone, p.Name, p.Secs = r.Name, r.Name, r.Secs
		switch g.N(5) {
		case 0:
			p.Tail = " "
		case 1:
			p.Tail = ", 2016"
		case 2:
			p.Tail = ")"
		}
		if r := []rune(p.Head); len(r) == 1 && r[0] > 127 {
			p.Head += " " // a letter can't be followed by an abbreviation
		}
		if g.P(30) {
			p.Zone = strings.ToLower(p.Zone)
		}
		return p
	}
	r := pick(g, tzList(refTz().Offsets))
	p.Zone, _ = g.offsetText(r.Secs)
	p.Name, p.Secs = r.Name, r.Secs
	if r.Secs == 0 {
		p.Name = "UTC" + string(p.Zone[strings.IndexAny(p.Zone, "+-")]) + "00:00"
	}
	if p.Head == "23:59:59" || p.Head == "7" || p.Head == "1 " {
		p.Head = pick(g, []string{"10:00 ", "5 May 2015 15:00 "})
	}
	p.Zone = g.Case(p.Zone)
	return p
}

func checkPop(p PopCase) Result {
	text := p.Head + p.Zone + p.Tail
	clean, name, off := dps.PopTzOffset(text)
	if off != p.Secs || name != p.Name {
		return bad("PopTzOffset(%q): want %s %d, got %s %d", text, p.Name, p.Secs, name, off)
	}
	// The separator after an abbreviation is dropped with it
	want := p.Head + p.Tail
	want2 := p.Head
	if r := []rune(p.Tail); len(r) > 0 {
		want2 += string(r[1:])
	}
	if clean != want && clean != want2 {
		return bad("PopTzOffset(%q): want %q, got %q", text, want2, clean)
	}
	return ok("popped")
}

// PlainCase is a text without timezone.
type PlainCase struct{ Text string }

func genPlain(g *G) PlainCase {
	c := g.YMD(1000, 9999)
	t := time.Date(c.Y, time.Month(c.M), c.D, g.N(24), g.N(60), g.N(60), 0, time.UTC)
	layouts := []string{"2 January 2006", "January 2, 2006 15:04", "02/01/2006", "2006/01/02 15:04:05", "Monday 2 Jan", "15:04:05", "02.01.2006", "2006年1月2日", "2 января 2006", "on Monday"}
	return PlainCase{t.Format(pick(g, layouts))}
}

func checkPlain(p PlainCase) Result {
	clean, name, off := dps.PopTzOffset(p.Text)
	if clean != p.Text || name != "" || off != 0 {
		return bad("PopTzOffset(%q) without timezone: got %q %s %d", p.Text, clean, name, off)
	}
	return ok("plain")
}

func init() {
	RegisterList("P10", "every abbreviation", 1, listAbbr, checkZone)
	Register("P10", "abbreviations", 5000, 80000, genAbbr, checkZone)
	Register("P10", "offsets", 5000, 80000, genOffset, checkZone)
	Register("P10", "relative", 3000, 40000, genRelativeZone, checkRelativeZone)
	Register("P10", "extraction", 5000, 80000, genPop, checkPop)
	Register("P10", "no timezone", 3000, 30000, genPlain, checkPlain)
}
