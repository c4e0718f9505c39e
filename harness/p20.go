package main

import (
	"fmt"
	"sync"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

// refUmalqura is the length of every month of the Umm al-Qura calendar, from the table of R.H. van
// Gent. It is the same as the one of ICU for the years 1420 until 1450.
var refUmalqura = load[struct {
	Start int64
	Years []string
}]("umalqura")

// hijriStarts has the first days of the months since Muharram 1356.
var hijriStarts = sync.OnceValue(func() []time.Time {
	r := refUmalqura()
	day := time.Unix(r.Start*86400, 0).UTC()
	list := []time.Time{day}
	for _, y := range r.Years {
		for _, m := range y {
			day = day.AddDate(0, 0, 28+int(m-'0'))
			list = append(list, day)
		}
	}
	return list
})

func hijriDim(y, m int) int {
	return 28 + int(refUmalqura().Years[y-1356][m-1]-'0')
}

func hijriToGregorian(y, m, d int) time.Time {
	return hijriStarts()[(y-1356)*12+m-1].AddDate(0, 0, d-1)
}

func gregorianToHijri(t time.Time) YMD {
	t = time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
	i := 0
	for starts := hijriStarts(); i+1 < len(starts) && !starts[i+1].After(t); {
		i++
	}
	return YMD{1356 + i/12, 1 + i%12, 1 + int(t.Sub(hijriStarts()[i]).Hours())/24}
}

func genOutOfScope(hijri bool) func(g *G) Calendar {
	return func(g *G) Calendar {
		c := Calendar{Hijri: hijri, Cfg: g.calendarCfg()}
		lo, hi := 1, 1355
		if g.P(50) {
			lo, hi = 1501, 9999
		}
		if !hijri {
			lo, hi = 3178, 9999
		}
		y := g.Range(lo, hi)
		switch g.N(5) {
		case 0:
			y = lo
		case 1:
			y = hi
		}
		c.Text = fmt.Sprintf("%02d/%02d/%04d", g.Range(1, 29), g.Range(1, 12), y)
		if g.P(30) {
			c.Text += fmt.Sprintf(" %02d:%02d", g.N(24), g.N(60))
		}
		c.Text = g.otherDigits(c.Text)
		return c
	}
}

func checkOutOfScope(c Calendar) Result {
	if d, err := c.parse(); err == nil {
		return bad("%q: want an error, got %s", c.Text, d.Time.Format(time.RFC3339Nano))
	}
	return ok("refused")
}

func genHijri(g *G) Calendar {
	c := Calendar{Hijri: true, Cfg: g.calendarCfg()}
	y, m := g.Range(1356, 1500), g.Range(1, 12)
	if g.P(40) {
		y = g.Range(1420, 1450)
	}
	d := g.Range(1, hijriDim(y, m))
	switch g.N(5) {
	case 0:
		d = hijriDim(y, m)
	case 1:
		d = 1
	}
	written := d
	if d == 29 && hijriDim(y, m) == 29 && g.P(40) {
		written = 30 // clamped to the last day of the month
	}
	c.Class = "full year"
	c.Text = g.numericOrder(&c.Cfg, y, m, written)
	t := hijriToGregorian(y, m, d)
	if y >= 1390 && y <= 1489 && g.P(20) {
		c.Class = "short year"
		c.Cfg.Order, c.Cfg.Source = "", 0
		c.Text = fmt.Sprintf("%02d-%02d-%02d", written, m, y%100)
	}
	if g.P(50) {
		c.Text += pick(g, []string{" هـ", " هـ,", ","})
	}
	c.Period = date.Day.String()
	if g.P(60) {
		h, mi, s := g.N(24), g.N(60), g.N(60)
		p := date.Second
		if g.P(30) {
			c.Text += fmt.Sprintf(" %02d:%02d:%02d", h, mi, s)
		} else {
			s, p = 0, date.Minute
			half, hh := []string{" صباحا", " صباحاً", " am", "am"}, h%12
			if h >= 12 {
				half = []string{" مساء", " مساءً", " pm", "PM"}
			}
			if hh == 0 {
				hh = 12
			}
			c.Text += fmt.Sprintf(" %02d:%02d%s", hh, mi, pick(g, half))
		}
		t = t.Add(time.Duration(h*3600+mi*60+s) * time.Second)
		if c.Cfg.TimePeriod {
			c.Period = p.String()
		}
		c.Class += ", time"
	}
	if g.P(20) {
		c.Text = pick(g, []string{" ", "  "}) + c.Text
	}
	c.Text = g.otherDigits(c.Text)
	c.Want = wall(t)
	c.zone()
	g.zoneText(&c)
	return c
}

// calendar is a model of dates that miss some parts.
type calendar struct {
	dim    func(y, m int) int
	toG    func(y, m, d int) time.Time
	fromG  func(t time.Time) YMD
	lo, hi int
}

var (
	jalaliCal = calendar{jalaliDim, jalaliToGregorian, gregorianToJalali, -60, 3176}
	hijriCal  = calendar{hijriDim, hijriToGregorian, gregorianToHijri, 1356, 1500}
)

func (k calendar) leap(y int) bool { return k.dim(y, 12) == 30 }

func (k calendar) leapAround(y, source int) int {
	find := func(step int) int {
		for i := y + step; i >= k.lo && i <= k.hi; i += step {
			if k.leap(i) {
				return i
			}
		}
		return y
	}
	prev, next := find(-1), find(1)
	switch {
	case source == 1:
		return prev
	case source == 2:
		return next
	case next-y < y-prev:
		return next
	}
	return prev
}

// CalendarPart is a date of another calendar that misses some parts.
type CalendarPart struct {
	Cfg     Cfg
	Hijri   bool `json:",omitempty"`
	Text    string
	Y, M, D int    // zero when missing
	Short   bool   `json:",omitempty"`
	Clock   string `json:",omitempty"`
	Form    string
}

func (c CalendarPart) cal() calendar {
	if c.Hijri {
		return hijriCal
	}
	return jalaliCal
}

func (c CalendarPart) expect() (time.Time, date.Period) {
	k := c.cal()
	loc := zone(c.Cfg.NowZone)
	if c.Cfg.DefTZ != "" {
		loc = zone(c.Cfg.DefTZ)
	}
	now := c.Cfg.now()
	n := k.fromG(now)
	var h, mi, s int
	if c.Clock != "" {
		fmt.Sscanf(c.Clock, "%d:%d:%d", &h, &mi, &s)
	}
	onlyTime := c.Clock != "" && c.Y == 0 && c.M == 0 && c.D == 0

	y, m, d := c.Y, c.M, c.D
	if y == 0 {
		y = n.Y
	}
	if m == 0 {
		m = n.M
		if !onlyTime {
			m = []int{n.M, 1, 12}[c.Cfg.MonthPref]
		}
	}
	if d == 0 {
		d = n.D
		if c.Clock == "" {
			d = []int{n.D, 1, 31}[c.Cfg.DayPref]
		}
	}
	create := func(y int) (time.Time, bool) {
		if y < k.lo || y > k.hi {
			return time.Time{}, false
		}
		if d == 30 && m == 12 && c.D > 0 && c.Y == 0 && !k.leap(y) {
			y = k.leapAround(y, c.Cfg.Source)
		}
		g := k.toG(y, m, min(d, k.dim(y, m)))
		return time.Date(g.Year(), g.Month(), g.Day(), h, mi, s, 0, loc), true
	}
	t, _ := create(y)

	step := 0
	switch {
	case c.M > 0 && c.Y == 0:
		step = 1
	case c.Short:
		step = 100
	case onlyTime:
		for c.Cfg.Source == 1 && t.After(now) {
			t = t.AddDate(0, 0, -1)
		}
		for c.Cfg.Source == 2 && t.Before(now) {
			t = t.AddDate(0, 0, 1)
		}
	}
	if step > 0 {
		moved, ok := time.Time{}, false
		switch {
		case c.Cfg.Source == 1 && t.After(now):
			moved, ok = create(y - step)
		case c.Cfg.Source == 2 && !t.After(now):
			moved, ok = create(y + step)
		}
		if ok {
			t = moved
		}
	}

	p := date.Day
	switch {
	case c.D > 0:
	case c.M > 0:
		p = date.Month
	case c.Y > 0:
		p = date.Year
	}
	if c.Clock != "" && c.Cfg.TimePeriod {
		p = date.Second
	}
	return t, p
}

func genCalendarPart(hijri bool) func(g *G) CalendarPart {
	return func(g *G) CalendarPart {
		c := CalendarPart{Hijri: hijri}
		k := c.cal()
		c.Cfg = g.calendarCfg()
		c.Cfg.Strict, c.Cfg.Required = false, nil
		setNow(&c.Cfg, g.Now(1950, 2070))
		y, m := g.Range(1356, 1500), g.Range(1, 12)
		if g.P(60) {
			y = k.fromG(c.Cfg.now()).Y + g.Range(-2, 2)
		}
		if g.P(15) {
			m = 12
		}
		d := g.Range(1, k.dim(y, m))
		if m == 12 && g.P(60) {
			d = 30
		}
		if g.P(10) { // around now
			n := k.fromG(c.Cfg.now())
			m, d = n.M, n.D
		}
		monthText := pick(g, jalaliMonths[m-1])
		forms := []string{"y", "d", "d m", "d m", "time", "d m short"}
		if !hijri {
			forms = append(forms, "m y", "m y", "m")
		}
		dm := func() string {
			if hijri {
				return fmt.Sprintf("%02d-%02d", d, m)
			}
			return fmt.Sprint(d) + " " + monthText
		}
		switch c.Form = pick(g, forms); c.Form {
		case "y":
			c.Y, c.Text = y, fmt.Sprintf("%04d", y)
		case "d":
			d = g.Range(1, 29)
			c.D, c.Text = d, fmt.Sprintf("%02d", d)
		case "d m":
			c.D, c.M, c.Text = d, m, dm()
		case "m y":
			c.M, c.Y, c.Text = m, y, monthText+" "+fmt.Sprintf("%04d", y)
		case "m":
			c.M, c.Text = m, monthText
		case "d m short":
			y = 1390 + g.N(60)
			d = min(d, k.dim(y, m))
			c.D, c.M, c.Y, c.Short = d, m, y, true
			c.Text = dm() + map[bool]string{true: "-", false: " "}[hijri] + fmt.Sprintf("%02d", y%100)
		}
		if c.Form == "time" || g.P(25) {
			c.Clock = fmt.Sprintf("%02d:%02d:%02d", g.N(24), g.N(60), g.N(60))
			if g.P(15) {
				c.Clock = c.Cfg.now().Format("15:04:05")
			}
			c.Text += " " + c.Clock
			c.Form += " time"
		}
		return c
	}
}

func checkCalendarPart(c CalendarPart) Result {
	var d date.Date
	var err error
	if c.Hijri {
		d, err = dps.ParseHijri(c.Cfg.build(), c.Text)
	} else {
		d, err = dps.ParseJalali(c.Cfg.build(), c.Text)
	}
	want, period := c.expect()
	return verdict(expectWall(fmt.Sprintf("%q now %s", c.Text, c.Cfg.now()), d, err, want, period), c.Form)
}

func init() {
	Register("P20", "complete dates", 60000, 600000, genHijri, checkCalendar)
	Register("P20", "missing parts", 40000, 400000, genCalendarPart(true), checkCalendarPart)
	Register("P20", "out of scope", 20000, 200000, genOutOfScope(true), checkOutOfScope)
	Register("P19", "out of scope", 20000, 200000, genOutOfScope(false), checkOutOfScope)
	Register("P19", "missing parts", 40000, 400000, genCalendarPart(false), checkCalendarPart)
}

func genHijriText(g *G) string {
	return fmt.Sprintf("%d/%d/%d", 1+g.N(31), 1+g.N(13), g.Range(1350, 1510))
}

func genJalaliText(g *G) string {
	return fmt.Sprintf("%d/%d/%d", 1+g.N(32), 1+g.N(13), g.Range(1, 3200))
}
