package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/markusmobius/go-dateparser/date"
)

// Partial is an English date where some parts are missing. The expected result comes from
// the documentation: README section 10 and the comments of Configuration.
type Partial struct {
	Cfg     Cfg
	Text    string
	Y, M, D int // zero when missing
	TwoYear bool
	WD      int // -1 when missing
	Clock   *Clock
	Form    string
	Zone    string `json:",omitempty"` // explicit timezone, with its offset
	Secs    int    `json:",omitempty"`
}

// loc is where the wall clock of the result is put.
func (p Partial) loc() *time.Location {
	switch {
	case p.Zone != "":
		return time.FixedZone(p.Zone, p.Secs)
	case p.Cfg.DefTZ != "":
		return zone(p.Cfg.DefTZ)
	}
	return p.Cfg.now().Location()
}

type Clock struct {
	H, M, S, NS int
	Period      date.Period
}

func leapAround(y, source int) int {
	next, prev := y+1, y-1
	for !isLeap(next) {
		next++
	}
	for !isLeap(prev) {
		prev--
	}
	switch source {
	case 1:
		return prev
	case 2:
		return next
	}
	if next-y < y-prev {
		return next
	}
	return prev
}

// expect computes the result of a partial date: wall clock in the zone of the current time.
func (p Partial) expect() (want time.Time, period date.Period) {
	now := p.Cfg.now()
	nY, nMo, nD := now.Date()
	nM := int(nMo)
	src := p.Cfg.Source
	var c Clock
	if p.Clock != nil {
		c = *p.Clock
	}
	at := func(y, m, d int) time.Time {
		return time.Date(y, time.Month(m), d, c.H, c.M, c.S, c.NS, p.loc())
	}
	prefDay := func(y, m int) int {
		switch p.Cfg.DayPref {
		case 1:
			return 1
		case 2:
			return dim(y, m)
		}
		return min(nD, dim(y, m))
	}

	defer func() {
		switch {
		case p.D > 0:
			period = date.Day
		case p.M > 0:
			period = date.Month
		case p.Y > 0:
			period = date.Year
		default:
			period = date.Day
		}
		if p.Clock != nil && p.Cfg.TimePeriod {
			period = c.Period
		}
	}()

	switch {
	case p.Y == 0 && p.M == 0 && p.D == 0 && p.WD >= 0:
		// The closest weekday
		diff := (int(now.Weekday()) - p.WD + 7) % 7
		switch {
		case src == 0:
			return at(nY, nM, nD-diff), 0
		case src == 1 && diff == 0:
			return at(nY, nM, nD-7), 0
		case src == 1:
			return at(nY, nM, nD-diff), 0
		default:
			return at(nY, nM, nD+7-diff), 0
		}

	case p.Y == 0 && p.M == 0 && p.D == 0:
		// Only time
		t := at(nY, nM, nD)
		for i := 1; src == 1 && t.After(now); i++ {
			t = at(nY, nM, nD-i)
		}
		for i := 1; src == 2 && t.Before(now); i++ {
			t = at(nY, nM, nD+i)
		}
		return t, 0

	case p.M > 0 && p.Y == 0:
		y, d := nY, p.D
		if d == 0 {
			d = min(nD, dim(y, p.M))
		} else if d == 29 && p.M == 2 && !isLeap(y) {
			y = leapAround(y, src)
		}
		t := at(y, p.M, d)
		if src == 1 && t.After(now) {
			y--
		} else if src == 2 && !t.After(now) {
			y++
		}
		if p.D == 29 && p.M == 2 && !isLeap(y) {
			y = leapAround(y, src)
		}
		switch {
		case p.D > 0:
			d = p.D
		case p.Clock != nil: // the current day is used when there is a time
			d = min(d, dim(y, p.M))
		default:
			d = prefDay(y, p.M)
		}
		return at(y, p.M, d), 0

	default:
		m := p.M
		if m == 0 {
			m = [...]int{nM, 1, 12}[p.Cfg.MonthPref]
		}
		y := p.Y
		if y == 0 {
			y = nY
		}
		d := p.D
		if d == 0 {
			d = prefDay(y, m)
			if p.Clock != nil {
				d = min(nD, dim(y, m))
			}
		} else {
			d = min(d, dim(y, m))
		}
		if p.TwoYear {
			t := at(y, m, d)
			if src == 1 && t.After(now) {
				y -= 100
			} else if src == 2 && !t.After(now) {
				y += 100
			}
		}
		return at(y, m, d), 0
	}
}

func ordinal(d int) string {
	switch {
	case d%10 == 1 && d != 11:
		return fmt.Sprintf("%dst", d)
	case d%10 == 2 && d != 12:
		return fmt.Sprintf("%dnd", d)
	case d%10 == 3 && d != 13:
		return fmt.Sprintf("%drd", d)
	}
	return fmt.Sprintf("%dth", d)
}

// genPartial draws a partial date. The form says which parts it has.
func genPartial(g *G, forms []string, clockPct int) Partial {
	p := Partial{WD: -1, Form: pick(g, forms)}
	p.Cfg = Cfg{Languages: []string{"en"}, DayPref: g.N(3), MonthPref: g.N(3)}
	now := g.Now(1600, 2300)
	setNow(&p.Cfg, now)
	p.Cfg.TimePeriod = g.P(40)
	p.Cfg.PreserveEOM = g.P(10)

	c := g.YMD(1500, 2600)
	if g.P(20) { // around now
		n := now.AddDate(0, 0, g.Range(-2, 2))
		c = YMD{n.Year(), int(n.Month()), n.Day()}
	}
	if g.P(8) {
		c.M, c.D = 2, 29
		if !isLeap(c.Y) {
			c.Y = leapAround(c.Y, 0)
		}
	}
	p.WD = -1
	mon := pick(g, []string{monthsLong[c.M-1], monthsLong[c.M-1][:3]})
	day := pick(g, []string{fmt.Sprint(c.D), fmt.Sprintf("%02d", c.D), ordinal(c.D)})
	year := fmt.Sprintf("%04d", c.Y)
	wd := g.N(7)
	wds := pick(g, []string{weekdaysLong[wd], weekdaysLong[wd][:3]})
	var choices []string
	switch p.Form {
	case "month":
		p.M = c.M
		choices = []string{mon, mon}
	case "month year":
		p.M, p.Y = c.M, c.Y
		choices = []string{mon + " " + year, mon + ", " + year, year + " " + mon, fmt.Sprintf("%02d/%04d", c.M, c.Y), fmt.Sprintf("%04d-%02d", c.Y, c.M)}
	case "year":
		p.Y = c.Y
		choices = []string{year}
	case "day month":
		p.D, p.M = c.D, c.M
		choices = []string{day + " " + mon, mon + " " + day, day + " of " + mon, fmt.Sprintf("%d/%d", c.M, c.D), fmt.Sprintf("%02d/%02d", c.M, c.D)}
	case "day":
		// A number which isn't a month
		c.D = g.Range(13, 31)
		c.D = min(c.D, dim(now.Year(), int(now.Month())))
		p.D = c.D
		choices = []string{fmt.Sprint(c.D), ordinal(c.D), "the " + ordinal(c.D)}
	case "day year":
		c.D = g.Range(13, 31)
		c.D = min(c.D, dim(c.Y, int(now.Month())))
		p.D, p.Y = c.D, c.Y
		choices = []string{fmt.Sprintf("%d %s", c.D, year), ordinal(c.D) + ", " + year}
	case "weekday":
		p.WD = wd
		choices = []string{wds}
	case "weekday day month":
		p.WD, p.D, p.M = wd, c.D, c.M
		choices = []string{wds + ", " + day + " " + mon, wds + " " + mon + " " + day}
	case "time":
		clockPct = 100
		choices = []string{""}
	case "two-digit year":
		c.Y = g.Range(1969, 2068)
		c.D = min(c.D, dim(c.Y, c.M))
		if c.M == 2 && c.D == 29 {
			c.D = 28
		}
		p.Y, p.M, p.D, p.TwoYear = c.Y, c.M, c.D, true
		choices = []string{fmt.Sprintf("%d/%d/%02d", c.M, c.D, c.Y%100), fmt.Sprintf("%02d-%02d-%02d", c.M, c.D, c.Y%100), fmt.Sprintf("%s %d, %02d", mon, c.D, c.Y%100)}
	case "complete":
		p.Y, p.M, p.D = c.Y, c.M, c.D
		choices = []string{day + " " + mon + " " + year, mon + " " + day + ", " + year, fmt.Sprintf("%04d-%02d-%02d", c.Y, c.M, c.D), fmt.Sprintf("%d/%d/%04d", c.M, c.D, c.Y)}
	}
	p.Text = pick(g, choices)
	if (p.Form == "two-digit year" || p.Form == "complete") && g.P(30) {
		p.Text = wds + pick(g, []string{", ", " "}) + p.Text // right or wrong, it says nothing new
	}
	if g.P(clockPct) {
		text, h, m, s, ns, per := g.clockText()
		p.Clock = &Clock{h, m, s, ns, per}
		if p.Form == "time" || !g.P(20) {
			p.Text = strings.TrimSpace(p.Text + pick(g, []string{" ", " at "}) + text)
		} else {
			p.Text = text + " " + p.Text
		}
		// With time the missing day always comes from the current one
		if p.D == 0 && p.WD < 0 {
			p.Cfg.DayPref = 0
			if p.M == 0 {
				p.Cfg.MonthPref = 0
			}
		}
	}
	return p
}

func checkPartial(p Partial) Result {
	want, period := p.expect()
	d, err := parseFresh(p.Cfg, p.Text)
	if f := expectWall(fmt.Sprintf("%q now %s source %d day %d month %d", p.Text, p.Cfg.Now, p.Cfg.Source, p.Cfg.DayPref, p.Cfg.MonthPref), d, err, want, period); f != "" {
		return bad("%s", f)
	}
	if d.Locale != "en" {
		return bad("%q: locale %q", p.Text, d.Locale)
	}
	class := p.Form
	if p.Clock != nil && p.Form != "time" {
		class += " +time"
	}
	return ok(class)
}

var missingForms = []string{"month", "month year", "year", "day month", "day", "day year", "weekday", "weekday day month", "time"}

// sourceCase: the same dates, with the past or the future preferred.
func genSource(g *G) Partial {
	p := genPartial(g, []string{"month", "day month", "day month", "weekday", "weekday day month", "time", "two-digit year", "complete", "month year"}, 35)
	p.Cfg.Source = g.Range(1, 2)
	now := p.Cfg.now()
	if p.Form == "month" && p.M == int(now.Month()) {
		p.Cfg.DayPref = 0 // whether this month is past depends on the day, which isn't known yet
	}
	if p.Form == "two-digit year" && p.D == 29 && p.M == 2 {
		p.D = 28
	}
	return p
}

func checkSource(p Partial) Result {
	res := checkPartial(p)
	if res.Fail != "" {
		return res
	}
	res.Class = []string{"", "past ", "future "}[p.Cfg.Source] + res.Class
	if p.Form == "complete" || p.Form == "month year" {
		return trivial(res.Class)
	}

	// What the preference means, independent of how the date is filled
	d, _ := parseFresh(p.Cfg, p.Text)
	now := p.Cfg.now()
	today := time.Date(now.Year(), now.Month(), now.Day(), 0, 0, 0, 0, now.Location())
	if p.TwoYear && (now.Year() < 1970 || now.Year() > 2067) {
		return res // a century isn't enough
	}
	switch {
	case p.Cfg.Source == 1 && p.Clock != nil && d.Time.After(now):
		return bad("%q: past is preferred, but %s is after now %s", p.Text, d.Time, now)
	case p.Cfg.Source == 2 && p.WD < 0 && p.Clock != nil && d.Time.Before(now):
		return bad("%q: future is preferred, but %s is before now %s", p.Text, d.Time, now)
	case p.Cfg.Source == 1 && d.Time.After(now) && !(p.Form == "month"):
		return bad("%q: past is preferred, but %s is after now %s", p.Text, d.Time, now)
	case p.Cfg.Source == 2 && d.Time.Before(today) && !(p.Form == "month"):
		return bad("%q: future is preferred, but %s is before today %s", p.Text, d.Time, now)
	}
	return res
}

var zonesIANA = []string{"America/New_York", "America/Los_Angeles", "Europe/London", "Europe/Berlin", "Asia/Kolkata", "Asia/Kathmandu",
	"Asia/Tokyo", "Australia/Lord_Howe", "Pacific/Apia", "Pacific/Kiritimati", "America/St_Johns", "Africa/Monrovia", "America/Sao_Paulo"}

func (g *G) zoneAny() string {
	if g.P(30) {
		return fmt.Sprintf("%s%02d%02d", pick(g, []string{"+", "-"}), g.N(13), pick(g, []int{0, 0, 30, 45}))
	}
	return pick(g, zonesIANA)
}

// wallExists tells that the wall clock of t is the one that was asked for (not in a gap).
func wallExists(y, m, d, h, mi, s, ns int, loc *time.Location) bool {
	t := time.Date(y, time.Month(m), d, h, mi, s, ns, loc)
	return wall(t) == wall(time.Date(y, time.Month(m), d, h, mi, s, ns, time.UTC))
}

// genSourceZone: like genSource, in other timezones than the one of the current time.
func genSourceZone(g *G) Partial {
	p := genSource(g)
	for p.Form == "month" || p.Form == "two-digit year" {
		p = genSource(g)
	}
	now := p.Cfg.now()
	p.Cfg.NowZone = g.zoneAny()
	if l := p.Cfg.now(); l.Day() != now.Day() { // the parts come from the current time in its own zone
		p.Cfg.NowZone = ""
	}
	if p.Clock == nil || g.P(40) {
		if g.P(60) {
			p.Cfg.DefTZ = g.zoneAny()
		}
	}
	if p.Clock != nil && g.P(40) {
		r := pick(g, tzList(refTz().Offsets))
		p.Zone, p.Secs = r.Name, r.Secs
		t, _ := g.offsetText(r.Secs)
		for !strings.HasPrefix(t, "UTC") && !strings.HasPrefix(t, "GMT") {
			t, _ = g.offsetText(r.Secs)
		}
		p.Text += " " + t
	}
	return p
}

func checkSourceZone(p Partial) Result {
	want, period := p.expect()
	src, now := p.Cfg.Source, p.Cfg.now()
	asked := want.In(p.loc())
	var c Clock
	if p.Clock != nil {
		c = *p.Clock
	}
	// Skip wall clocks that don't exist, and the days next to them where the comparison may need one
	y, m, dd := asked.Date()
	for i := -1; i <= 1; i++ {
		if !wallExists(y, int(m), dd+i, c.H, c.M, c.S, c.NS, p.loc()) {
			return Result{Skip: true}
		}
	}
	if asked.Hour() != c.H || asked.Minute() != c.M {
		return Result{Skip: true}
	}
	d, err := parseFresh(p.Cfg, p.Text)
	what := fmt.Sprintf("%q now %s default %s source %d", p.Text, now.Format(time.RFC3339Nano), p.Cfg.DefTZ, src)
	if f := expectWall(what, d, err, want, period); f != "" {
		return bad("%s", f)
	}
	class := []string{"", "past ", "future "}[src] + p.Form + map[bool]string{true: " explicit zone"}[p.Zone != ""] + map[bool]string{true: " default zone"}[p.Cfg.DefTZ != ""]
	switch p.Form {
	case "time":
		if src == 1 && d.Time.After(now) || src == 2 && d.Time.Before(now) {
			return bad("%s: got %s, on the wrong side of now", what, d.Time.Format(time.RFC3339Nano))
		}
		if gap := d.Time.Sub(now).Abs(); gap > 48*time.Hour {
			return bad("%s: got %s, which isn't close to now", what, d.Time.Format(time.RFC3339Nano))
		}
	case "day month", "weekday day month":
		if src == 1 && d.Time.After(now) {
			return bad("%s: got %s, after now", what, d.Time.Format(time.RFC3339Nano))
		}
	case "complete", "month year":
		return trivial(class)
	}
	return ok(class)
}

// StrictCase: what strict parsing and required parts accept.
type StrictCase struct {
	Partial  Partial
	Strict   bool
	Required []string
}

func genStrict(g *G) StrictCase {
	// A bare number is left to the heuristics of dates without spaces
	s := StrictCase{Partial: genPartial(g, []string{"month", "month year", "day month", "day year", "weekday", "weekday day month", "time", "complete", "two-digit year", "complete"}, 30)}
	p := &s.Partial
	if p.Form == "two-digit year" {
		p.Cfg.Source = 0
	} else if p.Y > 0 {
		p.Cfg.Source = g.N(3)
	}
	s.Strict = g.P(50)
	if !s.Strict || g.P(20) {
		parts := []string{"day", "month", "year", "Day", "MONTH", "Year"}
		n := g.Range(1, 3)
		for i := 0; i < n; i++ {
			s.Required = append(s.Required, pick(g, parts))
		}
	}
	p.Cfg.Strict, p.Cfg.Required = s.Strict, s.Required
	return s
}

func checkStrict(s StrictCase) Result {
	p := s.Partial
	has := map[string]bool{"day": p.D > 0, "month": p.M > 0, "year": p.Y > 0}
	complete := p.D > 0 && p.M > 0 && p.Y > 0
	reject := s.Strict && !complete
	for _, r := range s.Required {
		if !has[strings.ToLower(r)] {
			reject = true
		}
	}
	class := p.Form + map[bool]string{true: " strict", false: " required"}[s.Strict] + map[bool]string{true: " rejected", false: " accepted"}[reject]
	if reject {
		d, err := parseFresh(p.Cfg, p.Text)
		if err == nil {
			return bad("%q strict=%v required=%v: want an error, got %s", p.Text, s.Strict, s.Required, d.Time)
		}
		if !d.IsZero() || !d.Time.IsZero() {
			return bad("%q: error with a date %s", p.Text, d.Time)
		}
		// The same text is accepted once the restriction is lifted
		p.Cfg.Strict, p.Cfg.Required = false, nil
		if res := checkPartial(p); res.Fail != "" {
			return res
		}
		return ok(class)
	}
	res := checkPartial(p)
	if res.Fail != "" {
		return res
	}
	return ok(class)
}

// InvalidDay is a day that doesn't exist.
type InvalidDay struct {
	Cfg  Cfg
	Text string
	Kind string
}

func genInvalidDay(g *G) InvalidDay {
	c := InvalidDay{Cfg: Cfg{Languages: []string{"en"}}}
	g.anyPrefs(&c.Cfg)
	y := g.Range(1500, 2600)
	var m, d int
	switch g.N(3) {
	case 0:
		c.Kind = "29 February"
		for isLeap(y) {
			y++
		}
		m, d = 2, 29
	case 1:
		c.Kind = "30-31 February"
		m, d = 2, g.Range(30, 31)
	default:
		c.Kind = "day 31"
		m, d = pick(g, []int{4, 6, 9, 11}), 31
	}
	mon := pick(g, []string{monthsLong[m-1], monthsLong[m-1][:3]})
	c.Text = pick(g, []string{
		fmt.Sprintf("%d %s %d", d, mon, y), fmt.Sprintf("%s %d, %d", mon, d, y),
		fmt.Sprintf("%s %s %d", mon, ordinal(d), y), fmt.Sprintf("%02d/%02d/%d", m, d, y),
		fmt.Sprintf("%d-%02d-%02d", y, m, d), fmt.Sprintf("%d/%02d/%02d", y, m, d),
	})
	if g.P(30) {
		ct, _, _, _, _, _ := g.clockText()
		c.Text += " " + ct
	}
	return c
}

func checkInvalidDay(c InvalidDay) Result {
	d, err := parseFresh(c.Cfg, c.Text)
	if err == nil {
		return bad("%q: there is no such day, got %s", c.Text, d.Time)
	}
	return ok(c.Kind)
}

func init() {
	Register("P02", "invalid day", 2000, 40000, genInvalidDay, checkInvalidDay)
	Register("P07", "missing parts", 10000, 200000, func(g *G) Partial { return genPartial(g, missingForms, 25) }, checkPartial)
	Register("P08", "other timezones", 8000, 80000, genSourceZone, checkSourceZone)
	Register("P08", "source", 10000, 200000, genSource, checkSource)
	Register("P09", "strict", 8000, 150000, genStrict, checkStrict)
}
