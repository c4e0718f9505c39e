package main

import (
	"fmt"
	"time"

	"github.com/markusmobius/go-dateparser/date"
)

// Absolute is a complete, written date.
type Absolute struct {
	Cfg    Cfg
	Text   string
	Want   string // wall clock, in wallFmt
	Period string
	Class  string
}

// clockText draws a time of day and how it's written. The second result is the finest unit.
func (g *G) clockText() (text string, h, m, s, ns int, p date.Period) {
	h, m = g.N(24), g.N(60)
	half := func() (int, string) {
		hh := h % 12
		if hh == 0 {
			hh = 12
		}
		if h < 12 {
			return hh, pick(g, []string{"am", "AM"})
		}
		return hh, pick(g, []string{"pm", "PM"})
	}
	sp := pick(g, []string{"", " "})
	switch g.N(7) {
	case 0:
		return fmt.Sprintf("%02d:%02d", h, m), h, m, 0, 0, date.Minute
	case 1:
		s = g.N(60)
		return fmt.Sprintf("%02d:%02d:%02d", h, m, s), h, m, s, 0, date.Second
	case 2:
		s = g.N(60)
		us := g.N(1_000_000)
		return fmt.Sprintf("%02d:%02d:%02d.%06d", h, m, s, us), h, m, s, us * 1000, date.Second
	case 3:
		hh, ap := half()
		return fmt.Sprintf("%d:%02d%s%s", hh, m, sp, ap), h, m, 0, 0, date.Minute
	case 4:
		s = g.N(60)
		hh, ap := half()
		return fmt.Sprintf("%d:%02d:%02d%s%s", hh, m, s, sp, ap), h, m, s, 0, date.Second
	case 5:
		hh, ap := half()
		return fmt.Sprintf("%d%s%s", hh, sp, ap), h, 0, 0, 0, date.Hour
	default:
		s = g.N(60)
		ms := g.N(1000)
		return fmt.Sprintf("%02d:%02d:%02d.%03d", h, m, s, ms), h, m, s, ms * 1_000_000, date.Second
	}
}

// englishDate writes a date in English so that its parts are unambiguous.
func (g *G) englishDate(c YMD) (text, class string) {
	mon := monthsLong[c.M-1]
	wd := weekdaysLong[time.Date(c.Y, time.Month(c.M), c.D, 0, 0, 0, 0, time.UTC).Weekday()]
	short := mon[:3]
	ord := func(d int) string {
		switch {
		case d%10 == 1 && d != 11:
			return fmt.Sprintf("%dst", d)
		case d%10 == 2 && d != 12:
			return fmt.Sprintf("%dnd", d)
		case d%10 == 3 && d != 13:
			return fmt.Sprintf("%drd", d)
		}
		return fmt.Sprintf("%dth", d)
	}
	switch g.N(15) {
	case 0:
		return fmt.Sprintf("%d %s %04d", c.D, mon, c.Y), "d-month-y"
	case 1:
		return fmt.Sprintf("%s %d, %04d", mon, c.D, c.Y), "month-d-y"
	case 2:
		return fmt.Sprintf("%s %02d %04d", short, c.D, c.Y), "mon-d-y"
	case 3:
		return fmt.Sprintf("%d %s %04d", c.D, short, c.Y), "d-mon-y"
	case 4:
		return fmt.Sprintf("%s, %s %d, %04d", wd, mon, c.D, c.Y), "weekday-month-d-y"
	case 5:
		return fmt.Sprintf("%s %d %s %04d", wd[:3], c.D, short, c.Y), "wd-d-mon-y"
	case 6:
		return fmt.Sprintf("%s %s, %04d", mon, ord(c.D), c.Y), "month-ordinal-y"
	case 7:
		return fmt.Sprintf("%s of %s, %04d", ord(c.D), mon, c.Y), "ordinal-of-month-y"
	case 8:
		return fmt.Sprintf("%04d %s %d", c.Y, mon, c.D), "y-month-d"
	case 9:
		return fmt.Sprintf("%02d-%s-%04d", c.D, short, c.Y), "d-mon-y dashes"
	case 10:
		return fmt.Sprintf("%s/%d/%04d", short, c.D, c.Y), "mon/d/y"
	case 11:
		return fmt.Sprintf("%04d-%02d-%02d", c.Y, c.M, c.D), "iso"
	case 12:
		return fmt.Sprintf("%04d/%02d/%02d", c.Y, c.M, c.D), "y/m/d"
	case 13:
		return fmt.Sprintf("%d/%d/%04d", c.M, c.D, c.Y), "m/d/y"
	default:
		return fmt.Sprintf("%s, %04d, the %s", mon, c.Y, ord(c.D)), "month-y-the-ordinal"
	}
}

// anyPrefs fills the preferences that must not matter for a complete date.
func (g *G) anyPrefs(c *Cfg) {
	setNow(c, g.Now(1600, 2300))
	c.DayPref, c.MonthPref, c.Source = g.N(3), g.N(3), g.N(3)
	c.Strict = g.P(25)
	if g.P(20) {
		c.Required = pick(g, [][]string{{"day"}, {"month"}, {"year"}, {"day", "month", "year"}, {"year", "day"}})
	}
	c.PreserveEOM = g.P(20)
}

func genAbsolute(g *G) Absolute {
	a := Absolute{Cfg: Cfg{Languages: []string{"en"}}}
	g.anyPrefs(&a.Cfg)
	c := g.YMD(1000, 9999)
	// Four digits at the end of a text with dashes can be read as an UTC offset
	var class string
	a.Text, class = g.englishDate(c)
	if class == "d-mon-y dashes" && c.Y < 1500 {
		c.Y += 1000
		c.D = min(c.D, dim(c.Y, c.M))
		a.Text = fmt.Sprintf("%02d-%s-%04d", c.D, monthsLong[c.M-1][:3], c.Y)
	}
	a.Period = date.Day.String()
	var h, mi, s, ns int
	a.Cfg.TimePeriod = g.P(30)
	if g.P(60) {
		var ct string
		var p date.Period
		ct, h, mi, s, ns, p = g.clockText()
		glue := []string{" ", ", ", " at ", " - ", " | ", ": "}
		if class == "iso" {
			glue = []string{" ", "T", ": "}
			if p == date.Hour {
				glue = []string{" ", ": "}
			}
		}
		gl := pick(g, glue)
		if g.P(12) { // a dot in the clock
			h, mi, s, ns = g.N(24), g.N(60), 0, 0
			ct, p = fmt.Sprintf("%d.%02d", h, mi), date.Minute
			if g.P(40) {
				ct = fmt.Sprintf("%02d.%02d", h, mi)
			}
			if g.P(30) {
				ct = fmt.Sprintf("%d.%02d %s", (h+11)%12+1, mi, []string{"am", "pm"}[h/12])
			}
			class += " dot"
			gl = " "
		}
		if class == "iso" || g.P(75) {
			a.Text += gl + ct
		} else {
			a.Text = ct + pick(g, []string{" ", ", ", " on "}) + a.Text
			class += " after time"
		}
		if a.Cfg.TimePeriod {
			a.Period = p.String()
		}
		class += " +time"
	}
	a.Want = wall(time.Date(c.Y, time.Month(c.M), c.D, h, mi, s, ns, time.UTC))
	a.Class = class
	return a
}

func checkAbsolute(a Absolute) Result {
	d, err := parseFresh(a.Cfg, a.Text)
	if err != nil {
		return bad("%q: want %s, got error %v", a.Text, a.Want, err)
	}
	if wall(d.Time) != a.Want || d.Time.Location() != time.UTC {
		return bad("%q: want %s UTC, got %s", a.Text, a.Want, d.Time.Format(time.RFC3339Nano))
	}
	if d.Period.String() != a.Period {
		return bad("%q: want period %s, got %s", a.Text, a.Period, d.Period)
	}
	if d.Locale != "en" {
		return bad("%q: want locale en, got %q", a.Text, d.Locale)
	}
	return ok(a.Class)
}

func init() {
	Register("P02", "english", 6000, 120000, genAbsolute, checkAbsolute)
}
