package main

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/markusmobius/go-dateparser/date"
)

// Amount is a count of one unit, written as decimal text.
type Amount struct {
	Num  string // "3", "2.5", "1,25"
	Unit string
}

// Relative is a relative date in English, or in another language through its reference.
type Relative struct {
	Cfg     Cfg
	Text    string
	Amounts []Amount
	Dir     int // -1 ago, +1 in, 0 not said
	Clock   *Clock
	Class   string
}

func daysFromCivil(y, m, d int) int64 {
	// Howard Hinnant's algorithm
	if m <= 2 {
		y--
	}
	era := y / 400
	if y < 0 {
		era = (y - 399) / 400
	}
	yoe := y - era*400
	mp := (m + 9) % 12
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return int64(era)*146097 + int64(doe) - 719468
}

func civilFromDays(z int64) (y, m, d int) {
	z += 719468
	era := z / 146097
	if z < 0 {
		era = (z - 146096) / 146097
	}
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = int(doy - (153*mp+2)/5 + 1)
	m = int(mp + 3)
	if mp >= 10 {
		m = int(mp - 9)
	}
	y = int(yoe + era*400)
	if m <= 2 {
		y++
	}
	return
}

func floorDiv(a, b int) int {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// addCalendar moves the date in the calendar. The clock stays the same.
func addCalendar(t time.Time, years, months, days int, clamp bool) time.Time {
	if years == 0 && months == 0 && days == 0 {
		return t // also when its clock happens twice
	}
	y, mo, d := t.Date()
	total := y*12 + int(mo) - 1 + years*12 + months
	ny := floorDiv(total, 12)
	nm := total - ny*12 + 1
	if clamp {
		d = min(d, dim(ny, nm))
	}
	ry, rm, rd := civilFromDays(daysFromCivil(ny, nm, 1) + int64(d-1+days))
	return time.Date(ry, time.Month(rm), rd, t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), t.Location())
}

// parts turns the amounts to whole numbers of each unit. The last result is false when a
// fraction is so close to a whole number that binary floating point could decide either way.
func (r Relative) parts() (years, months, days int, dur time.Duration, period date.Period, sharp bool) {
	sharp = true
	v := map[string]*big.Rat{}
	add := func(u string, x *big.Rat) {
		if v[u] == nil {
			v[u] = new(big.Rat)
		}
		v[u].Add(v[u], x)
	}
	for _, a := range r.Amounts {
		x, good := new(big.Rat).SetString(strings.TrimSuffix(strings.Replace(a.Num, ",", ".", 1), "."))
		if !good {
			panic(a.Num)
		}
		switch a.Unit {
		case "decade":
			add("year", new(big.Rat).Mul(x, big.NewRat(10, 1)))
		case "week":
			add("day", new(big.Rat).Mul(x, big.NewRat(7, 1)))
		default:
			add(a.Unit, x)
		}
	}

	// whole cuts the fraction and returns what is left
	whole := func(x *big.Rat) (int64, *big.Rat) {
		i := new(big.Int).Quo(x.Num(), x.Denom()).Int64()
		rest := new(big.Rat).Sub(x, big.NewRat(i, 1))
		f, _ := rest.Float64()
		if !x.IsInt() && (f < 1e-6 || f > 1-1e-6) {
			sharp = false // may be off by an ulp in floating point
		}
		return i, rest
	}

	got := map[string]int64{}
	chain := []struct {
		unit string
		mul  int64
	}{{"year", 12}, {"month", 30}, {"day", 24}, {"hour", 60}, {"minute", 60}, {"second", 0}}
	for i, c := range chain {
		x, exist := v[c.unit]
		if !exist {
			continue
		}
		if c.unit == "second" {
			// Rounded to the closest
			half := new(big.Rat).Add(x, big.NewRat(1, 2))
			n, rest := whole(half)
			if !x.IsInt() && rest.Sign() == 0 {
				sharp = false
			}
			got["second"] += n
			continue
		}
		n, rest := whole(x)
		got[c.unit] += n
		// The rest is spread over the smaller units
		for j := i; rest.Sign() != 0 && j+1 < len(chain); j++ {
			rest = new(big.Rat).Mul(rest, big.NewRat(chain[j].mul, 1))
			if rest.IsInt() {
				sharp = false // e.g. 0.1 hour is 6 minutes, or 5 minutes and 59.99 seconds
			}
			n, left := whole(rest)
			rest = left
			if n != 0 {
				// later units are whole already or get their own fraction later
				u := chain[j+1].unit
				if v[u] != nil && !v[u].IsInt() {
					sharp = false
				}
				got[u] += n
			}
		}
	}

	if r.exact() {
		sharp = true
	}
	smallest := date.None
	for _, u := range []struct {
		unit string
		p    date.Period
	}{{"second", date.Second}, {"minute", date.Minute}, {"hour", date.Hour}, {"day", date.Day}, {"month", date.Month}, {"year", date.Year}} {
		_, a := got[u.unit]
		_, b := v[u.unit]
		if a || b {
			smallest = u.p
			break
		}
	}
	dur = time.Duration(got["hour"])*time.Hour + time.Duration(got["minute"])*time.Minute + time.Duration(got["second"])*time.Second
	return int(got["year"]), int(got["month"]), int(got["day"]), dur, smallest, sharp
}

// exact is true when every amount is a binary fraction, for which floating point is exact.
func (r Relative) exact() bool {
	for _, a := range r.Amounts {
		x, _ := new(big.Rat).SetString(strings.Replace(a.Num, ",", ".", 1))
		if d := x.Denom().Int64(); d&(d-1) != 0 {
			return false
		}
	}
	return true
}

func (r Relative) expect() (want time.Time, period date.Period, sharp bool) {
	base := r.Cfg.now()
	if r.Cfg.DefTZ != "" {
		base = base.In(zone(r.Cfg.DefTZ))
	}
	y, m, d, dur, period, sharp := r.parts()
	sign := -1
	if r.Dir > 0 || r.Dir == 0 && r.Cfg.Source == 2 {
		sign = 1
	}
	want = addCalendar(base, sign*y, sign*m, sign*d, r.Cfg.PreserveEOM).Add(time.Duration(sign) * dur)
	if r.Clock != nil {
		wy, wm, wd := want.Date()
		want = time.Date(wy, wm, wd, r.Clock.H, r.Clock.M, r.Clock.S, r.Clock.NS, want.Location())
		period = min(period, r.Clock.Period)
	}
	if !r.Cfg.TimePeriod && period < date.Day {
		period = date.Day
	}
	return
}

func checkRelative(r Relative) Result {
	want, period, sharp := r.expect()
	if !sharp || want.Year() < 1 || want.Year() > 9999 {
		return Result{Skip: true}
	}
	d, err := parseFresh(r.Cfg, r.Text)
	if f := expectWall(fmt.Sprintf("%q now %s", r.Text, r.Cfg.now().Format(time.RFC3339Nano)), d, err, want, period); f != "" {
		return bad("%s", f)
	}
	if len(r.Cfg.Locales) == 1 && d.Locale != r.Cfg.Locales[0] {
		return bad("%q: locale %s", r.Text, d.Locale)
	}
	return ok(r.Class)
}

var relUnits = []string{"decade", "year", "month", "week", "day", "hour", "minute", "second"}

// relMax keeps every result within four digit years and exact durations.
var relMax = map[string]int{"decade": 30, "year": 300, "month": 3000, "week": 9000, "day": 60000,
	"hour": 400000, "minute": 9000000, "second": 900000000}

var relShort = map[string][]string{
	"decade": {"decade", "decades"}, "year": {"year", "years", "yr"}, "month": {"month", "months", "mo"},
	"week": {"week", "weeks", "wk"}, "day": {"day", "days"}, "hour": {"hour", "hours", "hr"},
	"minute": {"minute", "minutes", "min"}, "second": {"second", "seconds", "sec"},
}

var smallNumbers = []string{"", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "eleven", "twelve"}

func (g *G) relCfg() Cfg {
	c := Cfg{Languages: []string{"en"}, Source: g.N(3), PreserveEOM: g.P(35), TimePeriod: g.P(40)}
	setNow(&c, g.Now(1800, 2200))
	c.NowZone = pick(g, []string{"", "", "+0530", "-0800", "America/New_York", "Europe/Berlin", "Australia/Lord_Howe", "Asia/Kathmandu"})
	if g.P(25) {
		c.DefTZ = pick(g, []string{"UTC", "+0900", "America/Los_Angeles", "Europe/London", "Pacific/Apia"})
	}
	c.DayPref, c.MonthPref = g.N(3), g.N(3)
	return c
}

func (g *G) amountText(a Amount) string {
	unit := pick(g, relShort[a.Unit])
	num := a.Num
	if len(num) <= 2 && !strings.ContainsAny(num, ".,") {
		var n int
		fmt.Sscan(num, &n)
		if n >= 1 && n <= 12 && g.P(20) {
			num = smallNumbers[n]
		} else if n == 1 && g.P(30) {
			num = "a"
			if a.Unit == "hour" {
				num = "an"
			}
		}
	}
	return num + " " + unit
}

func (g *G) direction(body string) (string, int) {
	switch g.N(6) {
	case 0, 1:
		return body + " ago", -1
	case 2, 3:
		return "in " + body, 1
	case 4:
		return body + " from now", 1
	default:
		return body, 0
	}
}

func genRelative(g *G) Relative {
	r := Relative{Cfg: g.relCfg()}
	n := 1
	if g.P(55) {
		n = g.Range(2, 5)
	}
	from := g.N(len(relUnits))
	var words []string
	for i := from; i < len(relUnits) && len(r.Amounts) < n; i++ {
		if len(r.Amounts) > 0 && g.P(40) {
			continue
		}
		u := relUnits[i]
		a := Amount{Num: fmt.Sprint(g.Small(relMax[u] / n)), Unit: u}
		r.Amounts = append(r.Amounts, a)
		words = append(words, g.amountText(a))
	}
	if g.P(15) { // the order of units doesn't matter
		for i := len(words) - 1; i > 0; i-- {
			j := g.N(i + 1)
			words[i], words[j] = words[j], words[i]
		}
	}
	text := strings.Join(words, pick(g, []string{" ", ", ", " and ", ", and "}))
	r.Text, r.Dir = g.direction(text)
	r.Text = g.Case(r.Text)
	r.Class = fmt.Sprintf("%d units dir %d", len(r.Amounts), r.Dir)
	if r.Dir == 0 && r.Cfg.Source == 2 {
		r.Class += " future"
	}
	return r
}

// genFraction draws amounts with a fraction.
func genFraction(g *G) Relative {
	r := Relative{Cfg: g.relCfg()}
	i := g.N(len(relUnits))
	u := relUnits[i]
	frac := fmt.Sprintf("%03d", g.N(1000))
	if g.P(60) { // exact in binary
		frac = pick(g, []string{"5", "25", "75", "125", "375", "50", "0"})
	}
	a := Amount{Num: fmt.Sprint(g.Small(relMax[u]/2)) + "." + frac, Unit: u}
	r.Amounts = []Amount{a}
	text := g.amountText(a)
	if g.P(30) && i+1 < len(relUnits) { // a smaller whole unit
		b := Amount{Num: fmt.Sprint(g.Small(40)), Unit: relUnits[g.Range(i+1, len(relUnits)-1)]}
		r.Amounts = append(r.Amounts, b)
		text += " " + g.amountText(b)
	}
	r.Text, r.Dir = g.direction(text)
	if len(r.Amounts) == 1 && g.P(30) { // the comma needs the complete phrase
		num := strings.Replace(a.Num, ".", ",", 1)
		r.Amounts[0].Num = num
		r.Dir = -1
		r.Text = num + " " + pick(g, relShort[u]) + " ago"
		if g.Bool() {
			r.Text, r.Dir = "in "+num+" "+pick(g, relShort[u]), 1
		}
	}
	r.Class = "fraction of " + u
	return r
}

// genRelClock draws a relative day with a clock time.
func genRelClock(g *G) Relative {
	r := Relative{Cfg: g.relCfg()}
	ct, h, m, s, ns, p := g.clockText()
	r.Clock = &Clock{h, m, s, ns, p}
	words := []struct {
		text string
		a    Amount
		dir  int
	}{
		{"today", Amount{"0", "day"}, -1}, {"yesterday", Amount{"1", "day"}, -1}, {"tomorrow", Amount{"1", "day"}, 1},
		{"day before yesterday", Amount{"2", "day"}, -1}, {"day after tomorrow", Amount{"2", "day"}, 1},
	}
	if g.P(50) {
		w := pick(g, words)
		r.Text, r.Amounts, r.Dir = w.text, []Amount{w.a}, w.dir
		r.Class = w.text
	} else {
		u := pick(g, []string{"day", "week", "month", "year"})
		a := Amount{Num: fmt.Sprint(g.Small(60)), Unit: u}
		r.Amounts = []Amount{a}
		if g.Bool() {
			r.Text, r.Dir = a.Num+" "+pick(g, relShort[u])+" ago", -1
		} else {
			r.Text, r.Dir = "in "+a.Num+" "+pick(g, relShort[u]), 1
		}
		r.Class = u
	}
	if g.P(30) {
		r.Text = ct + pick(g, []string{" ", ", "}) + r.Text
	} else {
		r.Text += pick(g, []string{" ", " at ", ", ", ", at "}) + ct
	}
	return r
}

func init() {
	Register("P05", "arithmetic", 16000, 200000, genRelative, checkRelative)
	Register("P05", "fractions", 6000, 60000, genFraction, checkRelative)
	Register("P05", "with a clock", 6000, 60000, genRelClock, checkRelative)
}
