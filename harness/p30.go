package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"
	"unicode"

	"github.com/markusmobius/go-dateparser/date"
	"golang.org/x/text/unicode/norm"
)

// Form is a standard form of dates of a locale, by CLDR. Months and days without a name are
// written with a word the library doesn't know, or which means something else as well.
type Form struct {
	Style, Pattern, Digits string
	Months, Days, AmPm     []string
	Two, TwoHours          bool   // numbers have two digits
	Cycle                  string // of hours
}

// LocalDate is a date in the form of a locale.
type LocalDate struct {
	Locale, Style  string
	Y, M, D        int
	Hour, Min, Sec int  `json:",omitempty"`
	Upper, Listed  bool `json:",omitempty"`
	Cfg            Cfg
}

func (w LocalDate) form() Form {
	for _, f := range refForms()[w.Locale] {
		if f.Style == w.Style {
			return f
		}
	}
	panic("no form " + w.Locale + " " + w.Style)
}

func (w LocalDate) weekday() time.Weekday {
	return time.Date(w.Y, time.Month(w.M), w.D, 0, 0, 0, 0, time.UTC).Weekday()
}

func (w LocalDate) text() string {
	f := w.form()
	digits := []rune(f.Digits)
	num := func(n int, two bool) string {
		s := strconv.Itoa(n)
		if two && n < 10 {
			s = "0" + s
		}
		if f.Digits == "" {
			return s
		}
		var sb strings.Builder
		for _, c := range s {
			sb.WriteRune(digits[c-'0'])
		}
		return sb.String()
	}
	day := ""
	if f.Days != nil {
		day = f.Days[w.weekday()]
	}
	hour, half := w.Hour, ""
	if f.Cycle == "h12" {
		hour = (hour+11)%12 + 1
	}
	if f.AmPm != nil {
		half = f.AmPm[w.Hour/12]
	}
	s := strings.NewReplacer("{weekday}", day, "{month}", f.Months[w.M-1], "{year}", num(w.Y, f.Two), "{day}", num(w.D, f.Two),
		"{hour}", num(hour, f.TwoHours), "{minute}", num(w.Min, true), "{second}", num(w.Sec, true), "{dayPeriod}", half).Replace(f.Pattern)
	if w.Upper {
		s = upper(s)
	}
	return s
}

// hard tells that the month has a name that differs from another month's only in marks, which
// the library drops, or that the date is numbers to it. Those are checked by a list.
func (w LocalDate) hard() bool {
	names := w.form().Months
	n := 0
	for _, m := range names {
		if m != "" && unmarked(m) == unmarked(names[w.M-1]) {
			n++
		}
	}
	return n > 1 || w.Locale == "ja" && w.Style == "month day"
}

func unmarked(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.Is(unicode.Mn, r) {
			return -1
		}
		return r
	}, norm.NFKD.String(s))
}

func checkLocalDate(w LocalDate) Result {
	if w.hard() && !w.Listed {
		return Result{Skip: true}
	}
	if f := w.form(); f.Months[w.M-1] == "" || f.Days != nil && f.Days[w.weekday()] == "" {
		return Result{Skip: true}
	}
	cfg := w.Cfg
	cfg.Locales = []string{w.Locale}
	text := w.text()
	want, period := time.Date(w.Y, time.Month(w.M), w.D, 0, 0, 0, 0, time.UTC), date.Day
	if strings.HasSuffix(w.Style, "clock") {
		want = want.Add(time.Duration(w.Hour*3600+w.Min*60) * time.Second)
		clock := date.Minute
		if strings.Contains(w.form().Pattern, "second") {
			clock = date.Second
			want = want.Add(time.Duration(w.Sec) * time.Second)
		}
		if cfg.TimePeriod {
			period = clock
		}
	}
	if strings.HasPrefix(w.Style, "month") {
		cfg.Strict, cfg.Required = false, nil
	}
	switch w.Style {
	case "month day":
		cfg.Source = 0
		want = time.Date(cfg.now().Year(), want.Month(), w.D, 0, 0, 0, 0, time.UTC)
		order := refOrders()[w.Locale]
		yearFirst := strings.Index(order, "Y") < strings.Index(order, "D") && strings.HasSuffix(strings.Trim(w.form().Pattern, "."), "}")
		if want.Day() != w.D || yearFirst { // or the number is a year
			return Result{Skip: true}
		}
	case "month year":
		cfg.DayPref, period = 1, date.Month
		want = time.Date(w.Y, want.Month(), 1, 0, 0, 0, 0, time.UTC)
	}
	d, err := parseFresh(cfg, text)
	if f := expectWall(fmt.Sprintf("%s %s %q now %s", w.Locale, w.Style, text, cfg.Now), d, err, want, period); f != "" {
		return bad("%s", f)
	}
	return ok(w.Style)
}

func listLocalDate() (out []LocalDate) {
	i := 0
	for _, l := range sortedKeys(refForms()) {
		for _, f := range refForms()[l] {
			for m := 1; m <= 12; m++ {
				i++
				w := LocalDate{Locale: l, Style: f.Style, Y: 1950 + i*7%150, M: m, D: 1 + i*5%28, Hour: i * 7 % 24, Min: i * 13 % 60, Sec: i * 11 % 60}
				setNow(&w.Cfg, time.Date(2021, 3, 15, 10, 0, 0, 0, time.UTC))
				out = append(out, w)
			}
		}
	}
	return
}

func listHardDates() (out []LocalDate) {
	for _, l := range sortedKeys(refForms()) {
		for _, f := range refForms()[l] {
			for m := 1; m <= 12; m++ {
				w := LocalDate{Locale: l, Style: f.Style, Y: 2018, M: m, D: 20, Listed: true}
				setNow(&w.Cfg, time.Date(2021, 3, 15, 10, 0, 0, 0, time.UTC))
				if w.hard() && f.Cycle == "" && (l != "ja" || m == 2 || m == 10) {
					out = append(out, w)
				}
			}
		}
	}
	return
}

func genLocalDate(g *G) LocalDate {
	w := LocalDate{Locale: pick(g, sortedKeys(refForms()))}
	w.Style = pick(g, refForms()[w.Locale]).Style
	c := g.YMD(1600, 2400)
	w.Y, w.M, w.D = c.Y, c.M, c.D
	w.Upper = g.P(20)
	w.Hour, w.Min, w.Sec = g.N(24), g.N(60), g.N(60)
	g.anyPrefs(&w.Cfg)
	return w
}

func init() {
	RegisterList("P30", "every form", 1, listLocalDate, checkLocalDate)
	RegisterList("P30", "names that differ in marks", 1, listHardDates, checkLocalDate)
	Register("P30", "forms", 12000, 150000, genLocalDate, checkLocalDate)
}
