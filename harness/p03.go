package main

import (
	"fmt"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

var sixOrders = []string{"YMD", "YDM", "MDY", "MYD", "DMY", "DYM"}

// arrange writes the parts of a date in the specified order.
func arrange(order, y, m, d, sep string) string {
	var parts []string
	for _, r := range order {
		switch r {
		case 'Y':
			parts = append(parts, y)
		case 'M':
			parts = append(parts, m)
		case 'D':
			parts = append(parts, d)
		}
	}
	return strings.Join(parts, sep)
}

func fullYear2(yy int) int {
	if yy >= 69 {
		return 1900 + yy
	}
	return 2000 + yy
}

// Numeric is a date written as three numbers.
type Numeric struct {
	Cfg       Cfg
	Via       string            // how the order reaches the parser
	PerLocale map[string]string `json:",omitempty"`
	Text      string
	Y, M, D   int
	Locale    string
}

// numericText writes a date so that the only ambiguity is the order of its parts.
func (g *G) numericText(order string, c YMD, fourYear bool) string {
	ys := fmt.Sprintf("%04d", c.Y)
	if !fourYear {
		ys = fmt.Sprintf("%02d", c.Y%100)
	}
	ms, ds := fmt.Sprint(c.M), fmt.Sprint(c.D)
	if g.Bool() {
		ms, ds = fmt.Sprintf("%02d", c.M), fmt.Sprintf("%02d", c.D)
	}
	sep := pick(g, []string{"/", "-", " ", ", ", "/", "-"})
	if order[2] == 'Y' && fourYear && c.Y < 1500 {
		sep = "/" // four digits after a dash can be an UTC offset
	}
	return arrange(order, ys, ms, ds, sep)
}

func genNumeric(g *G) Numeric {
	n := Numeric{Locale: "en"}
	n.Cfg.Languages = []string{"en"}
	g.anyPrefs(&n.Cfg)
	order := pick(g, sixOrders)
	four := g.P(50)
	c := g.YMD(1000, 9999)
	if g.P(60) && c.D > 12 { // the ambiguous ones are the interesting ones
		c.D = g.Range(1, 12)
	}
	if !four {
		c.Y = g.Range(1969, 2068)
		c.D = min(c.D, dim(c.Y, c.M))
		n.Cfg.Source = 0 // a two-digit year moves a century with the other sources
		// Two-digit date is a fallback for day or month too, so keep it out of their range
		// when the year isn't the first one that tries a number.
	}
	n.Via = pick(g, []string{"fixed", "function", "lower case", "default order", "builtin"})
	switch n.Via {
	case "fixed":
		n.Cfg.Order = order
	case "lower case":
		n.Cfg.Order = strings.ToLower(order)
	case "builtin":
		n.Cfg.Order = order
	case "function":
		n.PerLocale = map[string]string{"en": order}
		for _, o := range []string{"fr", "ja", "", "en-GB"} {
			n.PerLocale[o] = pick(g, sixOrders)
		}
	case "default order":
		// An invalid order falls back to the one of the locale
		loc := pick(g, refLocales())
		order = refOrders()[loc]
		if strings.Contains(loc, "-") && g.Bool() {
			loc = pick(g, []string{"en", "en-001", "fr", "de", "zh-Hans", "hu", "en-ZA", "en-GB"})
			if refOrders()[loc] == "" {
				loc = "en"
			}
			order = refOrders()[loc]
		}
		n.Cfg.Languages, n.Cfg.Locales = nil, []string{loc}
		n.Locale = loc
		n.Cfg.Order = pick(g, []string{"", "XYZ", "YM", "YYY", "DMYD", "YMM", "Y-M", "MD", "DMX"})
	}
	n.Y, n.M, n.D = c.Y, c.M, c.D
	n.Text = g.numericText(order, c, four)
	return n
}

var builtinOrders = map[string]func(string) string{
	"YMD": dps.YMD, "YDM": dps.YDM, "MDY": dps.MDY, "MYD": dps.MYD, "DMY": dps.DMY, "DYM": dps.DYM,
}

func checkNumeric(n Numeric) Result {
	cfg := n.Cfg.build()
	switch n.Via {
	case "function":
		cfg.DateOrder = func(l string) string { return n.PerLocale[l] }
	case "builtin":
		cfg.DateOrder = builtinOrders[n.Cfg.Order]
	case "default order":
		if n.Cfg.Order == "" {
			cfg.DateOrder = nil
		}
	}
	d, err := (&dps.Parser{}).Parse(cfg, n.Text)
	want := time.Date(n.Y, time.Month(n.M), n.D, 0, 0, 0, 0, time.UTC)
	if f := expectWall(fmt.Sprintf("%q order %s (%s)", n.Text, n.Cfg.Order, n.Via), d, err, want, date.Day); f != "" {
		return bad("%s", f)
	}
	if d.Locale != n.Locale {
		return bad("%q: want locale %s, got %s", n.Text, n.Locale, d.Locale)
	}
	if n.D <= 12 && n.D != n.M {
		return ok(n.Via + ", ambiguous")
	}
	return trivial(n.Via + ", unambiguous")
}

// LocaleOrder checks the recorded date order of a locale.
type LocaleOrder struct{ Locale, Order string }

func listLocaleOrders() (out []LocaleOrder) {
	for _, l := range refLocales() {
		out = append(out, LocaleOrder{l, refOrders()[l]})
	}
	return
}

func checkLocaleOrder(l LocaleOrder) Result {
	if got := dps.DefaultDateOrder(l.Locale); got != l.Order {
		return bad("DefaultDateOrder(%q) = %q, want %q", l.Locale, got, l.Order)
	}
	text := arrange(l.Order, "2003", "04", "05", "/")
	now := time.Date(2001, 6, 15, 0, 0, 0, 0, time.UTC)
	for _, order := range []dps.DateOrder{nil, dps.DefaultDateOrder} {
		cfg := &dps.Configuration{Locales: []string{l.Locale}, CurrentTime: now, DateOrder: order}
		d, err := (&dps.Parser{}).Parse(cfg, text)
		if f := expectWall(fmt.Sprintf("%s %q", l.Locale, text), d, err, time.Date(2003, 4, 5, 0, 0, 0, 0, time.UTC), date.Day); f != "" {
			return bad("%s", f)
		}
	}
	return ok(l.Order)
}

func init() {
	Register("P03", "orders", 6000, 100000, genNumeric, checkNumeric)
	RegisterList("P03", "locales", 1, listLocaleOrders, checkLocaleOrder)
}
