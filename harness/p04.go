package main

import (
	"fmt"
	"strings"
	"time"
	"unicode"

	"github.com/markusmobius/go-dateparser/date"
)

// NameCase is a date which uses a localized name of month or weekday.
type NameCase struct {
	Locale, Word, English string
	Y, M, D               int
	Form                  int
	Upper                 bool
	Now                   string
}

func monthIndex(name string) int {
	for i, m := range monthsLong {
		if strings.EqualFold(m, name) {
			return i + 1
		}
	}
	return 0
}

func weekdayIndex(name string) int {
	for i, m := range weekdaysLong {
		if strings.EqualFold(m, name) {
			return i
		}
	}
	return -1
}

type nameRef struct{ locale, word, english string }

func nameRefs() (out []nameRef) {
	for _, l := range refLocales() {
		names := refNames()[l]
		for _, w := range sortedKeys(names) {
			out = append(out, nameRef{l, w, names[w]})
		}
	}
	return
}

// listNames enumerates every name, with a date derived from its position.
func listNames() (out []NameCase) {
	for i, r := range nameRefs() {
		c := NameCase{Locale: r.locale, Word: r.word, English: r.english, Form: i % 3, Upper: i%5 == 4}
		c.Y = 1970 + i*7%80
		c.M = monthIndex(r.english)
		c.D = 1 + i*11%28
		c.Now = time.Date(2000+i%50, time.Month(1+i%12), 1+i%28, 10, 0, 0, 0, time.UTC).Format(time.RFC3339)
		out = append(out, c)
	}
	return
}

func genName(g *G) NameCase {
	l := pick(g, refLocales())
	names := refNames()[l]
	c := NameCase{Locale: l, Form: g.N(3), Upper: g.P(25)}
	keys := sortedKeys(names)
	c.Word = pick(g, keys)
	c.English = names[c.Word]
	c.M = monthIndex(c.English)
	d := g.YMD(1500, 2600)
	c.Y, c.D = d.Y, d.D
	if c.M > 0 {
		c.D = min(d.D, dim(d.Y, c.M))
	}
	c.Now = g.Now(1900, 2100).Format(time.RFC3339)
	return c
}

// upper changes the case, as long as the lower case of the result is the original.
func upper(s string) string {
	u := strings.ToUpper(s)
	if strings.ToLower(u) == s {
		return u
	}
	return s
}

// isAmbiguousName tells whether the word has a second meaning in its language, which the
// specification doesn't settle: "now" (the English fallback), "next month" (Vietnamese),
// "year month" and "today" (Vietnamese and Lao, without their marks).
func isAmbiguousName(word string) bool {
	switch word {
	case "now", "thang sau", "thang nam", "ມນ":
		return true
	}
	return false
}

func checkName(c NameCase) Result {
	if isAmbiguousName(c.Word) {
		return Result{Skip: true}
	}
	cfg := Cfg{Locales: []string{c.Locale}, Now: c.Now}
	word := c.Word
	if c.Upper {
		word = upper(word)
	}
	for _, r := range word {
		if unicode.IsDigit(r) {
			return Result{Skip: true} // e.g. "1月": the number is parsed by itself
		}
	}
	if c.M > 0 {
		// The name can be anywhere, but the numbers are in the order of the locale
		order := strings.ReplaceAll(refOrders()[c.Locale], "M", "")
		nums := strings.Split(arrange(order, fmt.Sprintf("%04d", c.Y), "", fmt.Sprint(c.D), "|"), "|")
		text := [...]string{
			nums[0] + " " + word + " " + nums[1],
			word + " " + nums[0] + " " + nums[1],
			word + " " + nums[0] + ", " + nums[1],
		}[c.Form]
		want := time.Date(c.Y, time.Month(c.M), c.D, 0, 0, 0, 0, time.UTC)
		d, err := parseFresh(cfg, text)
		if f := expectWall(fmt.Sprintf("%s %q (%s)", c.Locale, text, c.English), d, err, want, date.Day); f != "" {
			return bad("%s", f)
		}
		if d.Locale != c.Locale {
			return bad("%s %q: locale %s", c.Locale, text, d.Locale)
		}
		return ok("month")
	}

	p := Partial{Cfg: cfg, WD: weekdayIndex(c.English)}
	text := word
	switch c.Form {
	case 1:
		p.Cfg.Source = 1
	case 2:
		p.Cfg.Source = 2
	}
	want, period := p.expect()
	d, err := parseFresh(p.Cfg, text)
	if f := expectWall(fmt.Sprintf("%s %q (%s) now %s", c.Locale, text, c.English, c.Now), d, err, want, period); f != "" {
		return bad("%s", f)
	}
	return ok("weekday")
}

func init() {
	RegisterList("P04", "every name", 1, listNames, checkName)
	Register("P04", "names", 12000, 150000, genName, checkName)
}
