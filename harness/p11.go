package main

import (
	"fmt"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

// ZonedCase is a date without timezone, whose zone comes from the configuration.
type ZonedCase struct {
	Cfg    Cfg
	Kind   string // absolute, format, nospace, jalali, hijri, partial
	Text   string
	Format string `json:",omitempty"`
	Want   string `json:",omitempty"` // wall clock, if known
}

func (z ZonedCase) parse(c Cfg) (date.Date, error) {
	switch z.Kind {
	case "jalali":
		return dps.ParseJalali(c.build(), z.Text)
	case "hijri":
		return dps.ParseHijri(c.build(), z.Text)
	case "format":
		return parseFresh(c, z.Text, z.Format)
	}
	return parseFresh(c, z.Text)
}

func genZoned(g *G) ZonedCase {
	z := ZonedCase{Cfg: Cfg{Languages: []string{"en"}}}
	g.anyPrefs(&z.Cfg)
	z.Cfg.Strict, z.Cfg.Required, z.Cfg.Source = false, nil, 0
	z.Cfg.NowZone = g.zoneAny()
	if g.P(70) {
		z.Cfg.DefTZ = g.zoneAny()
	}
	if z.Cfg.DefTZ == "" && g.P(20) {
		z.Cfg.NowZone = ""
	}
	c := g.YMD(1500, 2200)
	h, m, s := g.N(24), g.N(60), g.N(60)
	t := time.Date(c.Y, time.Month(c.M), c.D, h, m, s, 0, time.UTC)
	z.Want = wall(t)
	switch z.Kind = pick(g, []string{"absolute", "absolute", "format", "nospace", "jalali", "hijri", "partial"}); z.Kind {
	case "absolute":
		z.Text = t.Format(pick(g, []string{"2 January 2006 15:04:05", "Jan 2, 2006 3:04:05 PM", "2006-01-02T15:04:05", "Monday 2 January 2006 at 15:04:05", "15:04:05 2006/01/02", "01/02/2006 15:04:05"}))
	case "format":
		z.Format = pick(g, []string{"2006-01-02 15:04:05", "15h04m05s 02.01.2006", "Monday, 02-Jan-2006 15:04:05"})
		z.Text = t.Format(z.Format)
	case "nospace":
		z.Cfg.Order = "YMD"
		z.Text = t.Format("20060102150405")
	case "jalali", "hijri":
		z.Cfg.Languages = nil
		z.Want = ""
		y := g.Range(1320, 1420)
		if z.Kind == "hijri" {
			y = g.Range(1360, 1480)
		}
		z.Text = fmt.Sprintf("%02d/%02d/%d %02d:%02d:%02d", g.Range(1, 29), g.Range(1, 12), y, h, m, s)
	case "partial":
		z.Want = ""
		z.Text = t.Format(pick(g, []string{"2 January 15:04:05", "15:04:05", "January 2006", "2006", "Monday", "Monday 15:04"}))
		// The parts of the current time are those of its own zone
		n := z.Cfg.now()
		z.Cfg.Now = time.Date(n.Year(), n.Month(), n.Day(), 12, n.Minute(), n.Second(), 0, zone(z.Cfg.NowZone)).UTC().Format(time.RFC3339Nano)
	}
	return z
}

func checkZoned(z ZonedCase) Result {
	// The wall clock doesn't depend on the timezones, read it where there are no gaps
	plain := z.Cfg
	plain.DefTZ = "UTC"
	p, perr := z.parse(plain)
	d, err := z.parse(z.Cfg)
	if (err == nil) != (perr == nil) {
		return bad("%s %q: in UTC %v, with default %q and current %q %v", z.Kind, z.Text, perr, z.Cfg.DefTZ, z.Cfg.NowZone, err)
	}
	if err != nil {
		if z.Want != "" {
			return bad("%s %q: want %s, got %v", z.Kind, z.Text, z.Want, err)
		}
		return trivial(z.Kind + " invalid")
	}
	if z.Want != "" && wall(p.Time) != z.Want {
		return bad("%s %q: want %s, got %s", z.Kind, z.Text, z.Want, wall(p.Time))
	}
	loc := zone(z.Cfg.NowZone)
	if z.Cfg.DefTZ != "" {
		loc = zone(z.Cfg.DefTZ)
	}
	y, m, day := p.Time.Date()
	if !wallExists(y, int(m), day, p.Time.Hour(), p.Time.Minute(), p.Time.Second(), 0, loc) {
		return Result{Skip: true}
	}
	want := time.Date(y, m, day, p.Time.Hour(), p.Time.Minute(), p.Time.Second(), p.Time.Nanosecond(), loc)
	if f := expectWall(fmt.Sprintf("%s %q default %q current %q", z.Kind, z.Text, z.Cfg.DefTZ, z.Cfg.NowZone), d, err, want, p.Period); f != "" {
		return bad("%s", f)
	}
	wn, _ := want.Zone()
	if gn, _ := d.Time.Zone(); gn != wn {
		return bad("%s %q: want zone %s, got %s", z.Kind, z.Text, wn, gn)
	}
	return ok(z.Kind + map[bool]string{true: " default", false: " current"}[z.Cfg.DefTZ != ""])
}

// SameMoment: relative dates of hours and less, and now, are the same moment in any default timezone.
type SameMoment struct {
	Cfg  Cfg
	Text string
}

func genMoment(g *G) SameMoment {
	s := SameMoment{Cfg: g.relCfg()}
	s.Cfg.NowZone, s.Cfg.DefTZ = g.zoneAny(), g.zoneAny()
	if g.P(15) {
		s.Text = pick(g, []string{"now", "just now"})
		return s
	}
	u := pick(g, []string{"hour", "minute", "second"})
	s.Text, _ = g.direction(fmt.Sprint(g.Small(min(relMax[u], 90000))) + " " + pick(g, relShort[u]))
	return s
}

func checkMoment(s SameMoment) Result {
	d, err := parseFresh(s.Cfg, s.Text)
	c := s.Cfg
	c.DefTZ, c.NowZone = "", ""
	p, perr := parseFresh(c, s.Text)
	if err != nil || perr != nil {
		return bad("%q: %v, in UTC %v", s.Text, err, perr)
	}
	if !d.Time.Equal(p.Time) {
		return bad("%q default %s: %s isn't the same moment as in UTC %s", s.Text, s.Cfg.DefTZ, d.Time, p.Time)
	}
	want := d.Time.In(zone(s.Cfg.DefTZ))
	if wall(want) != wall(d.Time) {
		return bad("%q: want the clock of %s, %s, got %s", s.Text, s.Cfg.DefTZ, want, d.Time)
	}
	return ok("relative")
}

func init() {
	Register("P11", "wall clock", 16000, 150000, genZoned, checkZoned)
	Register("P11", "same moment", 4000, 40000, genMoment, checkMoment)
}
