package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/markusmobius/go-dateparser/date"
)

// Digits is a date and maybe its clock written as one number.
type Digits struct {
	Cfg   Cfg
	Text  string
	Order string // effective order
	Want  string
	Class string
}

// readDigits reads the number in one order. The clock has the digits that are left.
func readDigits(order, s string) (t time.Time, good bool) {
	var y, m, d, h, mi, sec int
	i := 0
	take := func(n int) int {
		v := 0
		for ; n > 0; n-- {
			v = v*10 + int(s[i]-'0')
			i++
		}
		return v
	}
	for _, r := range order {
		switch r {
		case 'Y':
			y = take(4)
		case 'M':
			m = take(2)
		case 'D':
			d = take(2)
		}
	}
	for _, v := range []*int{&h, &mi, &sec} {
		if i < len(s) {
			*v = take(2)
		}
	}
	if y < 1000 || m < 1 || m > 12 || d < 1 || d > dim(y, m) || h > 23 || mi > 59 || sec > 59 {
		return
	}
	return time.Date(y, time.Month(m), d, h, mi, sec, 0, time.UTC), true
}

func genDigits(g *G) Digits {
	n := Digits{}
	g.anyPrefs(&n.Cfg)
	if g.P(40) {
		l := pick(g, refLocales())
		n.Cfg.Locales = []string{l}
		n.Order = refOrders()[l]
	} else {
		n.Cfg.Languages = []string{"en"}
		n.Order = "MDY"
	}
	if g.P(65) {
		n.Order = pick(g, sixOrders)
		n.Cfg.Order = n.Order
		if g.P(25) {
			n.Cfg.Order = strings.ToLower(n.Order)
		}
	}
	n.Cfg.TimePeriod = g.P(30)
	c := g.YMD(1000, 9999)
	h, m, s := g.N(24), g.N(60), g.N(60)
	clock := fmt.Sprintf("%02d%02d%02d", h, m, s)
	size := pick(g, []int{8, 8, 8, 14, 14, 12})
	if size == 12 && n.Order != "MDY" {
		size = 14
	}
	written := pick(g, []string{n.Order, n.Order, "YMD", pick(g, sixOrders)})
	if size == 12 {
		written = "YMD"
	}
	body := arrange(written, fmt.Sprintf("%04d", c.Y), fmt.Sprintf("%02d", c.M), fmt.Sprintf("%02d", c.D), "")
	n.Text = (body + clock)[:size]
	if g.P(20) {
		n.Text = g.digits(size)
	}

	// What the documentation asks: the configured order first
	var orders []string
	switch {
	case size == 8:
		orders = []string{n.Order, "YMD"}
	case size == 12:
		orders = []string{"YMD"}
	case n.Order == "MDY": // the default order prefers a leading year
		orders = []string{"YMD", "MDY", "YDM", "MYD", "DYM", "DMY"}
	default:
		orders = []string{n.Order, "YMD", "YDM", "MYD", "MDY", "DYM", "DMY"}
	}
	for i, o := range orders {
		if t, good := readDigits(o, n.Text); good {
			n.Want = wall(t)
			n.Class = fmt.Sprintf("%d digits", size)
			if i == 0 {
				n.Class += " first order"
			} else {
				n.Class += " fallback"
			}
			break
		}
	}
	if size > 8 && g.P(30) {
		n.Text = n.Text[:8] + ":" + n.Text[8:10] + ":" + n.Text[10:]
		if size == 14 {
			n.Text = n.Text[:14] + ":" + n.Text[14:]
		}
		n.Class += " colons"
	}
	return n
}

func checkDigits(n Digits) Result {
	if n.Want == "" {
		return Result{Skip: true}
	}
	d, err := parseFresh(n.Cfg, n.Text)
	if err != nil {
		return bad("%q order %s: want %s, got error %v", n.Text, n.Order, n.Want, err)
	}
	if wall(d.Time) != n.Want {
		return bad("%q order %s: want %s, got %s", n.Text, n.Order, n.Want, wall(d.Time))
	}
	if d.Period != date.Day {
		return bad("%q: want period day, got %s", n.Text, d.Period)
	}
	if len(n.Cfg.Locales) == 1 && d.Locale != n.Cfg.Locales[0] {
		return bad("%q: locale %q of %v", n.Text, d.Locale, n.Cfg.Locales)
	}
	return ok(n.Class)
}

func init() {
	Register("P13", "digits", 16000, 200000, genDigits, checkDigits)
}
