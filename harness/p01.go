package main

import (
	"fmt"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"

	dps "github.com/markusmobius/go-dateparser"
)

// Any is an arbitrary call.
type Any struct {
	Calls []Call
	Class string
}

var junkRunes = []rune("0123456789 :/.-+,;'\"()[]{}|\\<>@#%&*_=~^$!?¡¿…–—―،؟。、\t\n\r\u00a0\u200b\u200e\u202f\u3000\ufeff\u0000\u0301٣۵५๓２Ⅻ½²ßıİſKÅﬁ年月日時분년월일ابقАяЖñéüõ")

var junkWords = []string{"am", "pm", "AM", "utc", "UTC", "GMT", "EST", "Z", "z", "+02:00", "-0530", "GMT+3", "UTC-10:30", "T", "ago", "in", "next", "last", "this", "now", "today", "tomorrow", "yesterday", "noon", "midnight", "and", "of", "the", "at", "a", "an", "one", "st", "nd", "th", "1st", "2nd", "31st", "of", "week", "weeks", "decade", "year", "years", "month", "day", "days", "hour", "hrs", "min", "sec", "jan", "feb", "may", "MAR", "sept", "mon", "tue", "wednesday", "0", "00", "1", "12", "13", "24", "29", "30", "31", "32", "60", "99", "100", "1000", "1969", "1970", "2000", "2024", "9999", "10000", "99999999999999999999", "0.5", "1,5", "12:30", "24:00", "23:59:60", "12:30:45.123456789", "1:2:3", "20210315", "202103151230", "20210315123045", "1615800000", "-1615800000", "1615800000123", "1615800000123456", "0000-00-00", "2021-02-30", "30/02/2021", "1/1/1", "99/99/99", "12.30", "1.1.2020", "BC", "AD", "before", "after", "from", "1ч", "Ⅻ", "½", "d1", "y2k"}

// junk draws text without a meaning, from characters or words which the parser looks at.
func (g *G) junk() (string, string) {
	sb := strings.Builder{}
	locale := pick(g, refLocales())
	switch g.N(9) {
	case 0: // characters
		for i := g.Range(0, 30); i > 0; i-- {
			sb.WriteRune(pick(g, junkRunes))
		}
		return sb.String(), "characters"
	case 1: // any characters
		for i := g.Range(1, 12); i > 0; i-- {
			r := rune(g.N(0x3100))
			switch g.N(4) {
			case 0:
				r = rune(g.N(0x80))
			case 1:
				r = rune(g.N(0x10ffff))
			}
			sb.WriteRune(r)
		}
		return sb.String(), "any characters"
	case 2: // bytes
		bt := make([]byte, g.Range(1, 20))
		for i := range bt {
			bt[i] = byte(g.N(256))
			if g.P(60) {
				bt[i] = "0123456789 :/-.,amp"[g.N(19)]
			}
		}
		return string(bt), "bytes"
	case 3, 4: // words
		for i := g.Range(1, 9); i > 0; i-- {
			sb.WriteString(pick(g, junkWords))
			sb.WriteString(pick(g, []string{" ", " ", " ", "", "-", "/", ":", ", ", ".", "\n", "  ", " - "}))
		}
		return sb.String(), "words"
	case 5: // words of a locale
		names, rel := sortedKeys(refNames()[locale]), sortedKeys(refRel()[locale])
		for i := g.Range(1, 7); i > 0; i-- {
			switch {
			case g.P(35):
				sb.WriteString(pick(g, names))
			case len(rel) > 0 && g.P(40):
				sb.WriteString(pick(g, rel))
			default:
				sb.WriteString(pick(g, junkWords))
			}
			sb.WriteString(pick(g, []string{" ", " ", " ", "", "-", ", ", ". ", "! ", "\n", " ¿", " ("}))
		}
		return sb.String(), "words of a locale"
	case 6: // a mutated date
		s, _ := g.localText(locale)
		if g.Bool() {
			s = genAbsolute(g).Text
		}
		rs := []rune(s)
		for i := g.Range(1, 4); i > 0 && len(rs) > 0; i-- {
			p := g.N(len(rs))
			switch g.N(5) {
			case 0:
				rs[p] = pick(g, junkRunes)
			case 1:
				rs = append(rs[:p:p], rs[p+1:]...)
			case 2:
				rs = append(rs[:p:p], append([]rune{pick(g, junkRunes)}, rs[p:]...)...)
			case 3:
				j := g.N(len(rs))
				rs[p], rs[j] = rs[j], rs[p]
			default:
				rs = append(rs[:p:p], append([]rune(pick(g, junkWords)), rs[p:]...)...)
			}
		}
		return string(rs), "mutated date"
	case 7: // repetition
		w := pick(g, junkWords)
		if g.Bool() {
			w = string(pick(g, junkRunes))
		}
		if g.P(30) {
			w += pick(g, junkWords)
		}
		return strings.Repeat(w+pick(g, []string{"", " ", ":", "-", ".", ","}), g.Range(2, 40+g.N(2)*g.N(100))), "repetition"
	default:
		s, _ := g.localText(locale)
		return s, "date"
	}
}

var junkFormats = []string{"2006-01-02", "02/01/06", "January 2", "Jan _2 15:04", "15:04:05.000", "Monday", "MST 2006", "-0700 2006", "2006", "", "x", "06", "2", "3:04PM", "2006-002", "01", "Jan", "  ", "2006年1月2日", "2 January 2006 г."}

func (g *G) anyCfg() Cfg {
	c := Cfg{}
	if g.P(85) {
		setNow(&c, g.Now(1, 9999))
		c.NowZone = pick(g, []string{"", "", "+1400", "-1200", "America/New_York", "Asia/Kathmandu", "Europe/London"})
	}
	switch g.N(24) {
	case 0, 3, 4:
		c.Languages = []string{pick(g, someLangs), pick(g, someLangs)}
		c.Region = pick(g, []string{"", "US", "XX"})
	case 1:
		c.Languages = []string{pick(g, []string{"xx", "", "EN"})}
	case 2: // all
	default:
		c.Locales = []string{pick(g, refLocales())}
	}
	if g.P(30) {
		c.Order = pick(g, append([]string{"DMYX", "zzz", "ydm"}, sixOrders...))
	}
	if g.P(30) {
		c.DefTZ = pick(g, []string{"UTC", "+1400", "-0930", "America/New_York", "Asia/Tokyo"})
	}
	c.DayPref, c.MonthPref, c.Source = g.N(3), g.N(3), g.N(3)
	if g.P(5) {
		c.DayPref, c.MonthPref, c.Source = g.N(5), g.N(5), g.N(5)
	}
	c.Strict = g.P(15)
	if g.P(15) {
		c.Required = pick(g, [][]string{{"day"}, {"Month"}, {"year", "DAY"}, {"week"}, {""}})
	}
	if g.P(15) {
		c.Skip = pick(g, [][]string{{"t"}, {""}, {"foo"}, {"1"}, {"may", "am"}, {" "}, {"("}, {`\`}, {"[a", "(?"}, {"2020"}})
	}
	if g.P(15) {
		c.DefaultLangs = pick(g, [][]string{{"en"}, {"fr", "de"}, {"xx"}, {""}})
	}
	c.TimePeriod, c.PreserveEOM = g.P(25), g.P(25)
	c.TryPrevious, c.GivenOrder = g.P(20), g.P(20)
	return c
}

func (g *G) anyCall() (Call, string) {
	c := Call{Cfg: g.anyCfg()}
	var class string
	c.Text, class = g.junk()
	if g.P(8) {
		t, _ := g.junk()
		c.Text += pick(g, []string{" ", "", "\n", ". "}) + t
	}
	c.Op = pick(g, []string{"parse", "parse", "parse", "parse", "parse", "search", "searchlang", "searchlang", "jalali", "hijri", "poptz"})
	switch c.Op {
	case "parse":
		if g.P(25) {
			for i := g.Range(1, 3); i > 0; i-- {
				c.Formats = append(c.Formats, pick(g, junkFormats))
			}
		}
		if g.P(15) {
			for i := g.Range(1, 4); i > 0; i-- {
				c.Types = append(c.Types, g.N(7))
			}
		}
	case "searchlang":
		c.Lang = pick(g, refLocales())
		if g.P(5) {
			c.Lang = pick(g, []string{"", "xx", "EN"})
		}
	case "jalali", "hijri":
		if g.Bool() {
			c.Text = pick(g, []string{genHijriText(g), genJalaliText(g)})
		}
		if g.P(50) { // without year, at the limits of the calendars
			d, m := pick(g, []int{1, 29, 30, 31}), pick(g, []string{"فروردین", "محرم", "ذو الحجة"})
			y := pick(g, []int{1, 622, 1937, 2077, 9990})
			if g.P(60) { // the leap day
				d, m, y = 30, "اسفند", pick(g, []int{1, 560, 3798})
			}
			c.Text = fmt.Sprintf("%d %s", d, m)
			c.Cfg.Source = g.N(3)
			setNow(&c.Cfg, g.Now(max(1, y-9), y+9))
		}
	}
	if !utf8.ValidString(c.Text) {
		c.Raw, c.Text = []byte(c.Text), ""
	}
	return c, c.Op + ", " + class
}

func genAny(g *G) Any {
	c, class := g.anyCall()
	return Any{[]Call{c}, class}
}

// checkAny is the contract of every call: a date or an error.
func checkAny(a Any) Result {
	for _, c := range a.Calls {
		if f := contract(c); f != "" {
			return bad("%s", f)
		}
	}
	return ok(a.Class)
}

func contract(c Call) string {
	cfg := c.Cfg.build()
	p := &dps.Parser{}
	for _, t := range c.Types {
		p.ParserTypes = append(p.ParserTypes, dps.ParserType(t))
	}
	text := c.text()
	switch c.Op {
	case "parse":
		d, err := p.Parse(cfg, text, c.Formats...)
		if err != nil && !reflect.ValueOf(d).IsZero() {
			return fmt.Sprintf("%q: date %v together with error %v", text, d, err)
		}
		if err == nil && d.Time.IsZero() {
			return fmt.Sprintf("%q: neither a date nor an error", text)
		}
		if err == nil && (d.Period < 1 || d.Period.String() == "") {
			return fmt.Sprintf("%q: date %v has no period", text, d)
		}
		if _, known := refOrders()[d.Locale]; err == nil && !known && (d.Locale != "" || len(c.Formats) == 0) {
			return fmt.Sprintf("%q: result has locale %q", text, d.Locale)
		}
	case "jalali", "hijri":
		f := dps.ParseJalali
		if c.Op == "hijri" {
			f = dps.ParseHijri
		}
		d, err := f(cfg, text)
		if (err == nil) == d.Time.IsZero() {
			return fmt.Sprintf("%s %q: %v, %v", c.Op, text, d, err)
		}
	case "search":
		lang, res, err := p.Search(cfg, text)
		if err != nil && (len(res) > 0) {
			return fmt.Sprintf("search %q: results %v together with error %v", text, res, err)
		}
		if _, known := refOrders()[lang]; err == nil && !known {
			return fmt.Sprintf("search %q: language %q", text, lang)
		}
		return searchContract(lang, text, res)
	case "searchlang":
		res, err := p.SearchWithLanguage(cfg, c.Lang, text)
		if err != nil && (len(res) > 0) {
			return fmt.Sprintf("search %q: results %v together with error %v", text, res, err)
		}
		return searchContract(c.Lang, text, res)
	case "poptz":
		s, name, off := dps.PopTzOffset(text)
		if name == "" && (off != 0 || strings.TrimSpace(s) != strings.TrimSpace(text)) {
			return fmt.Sprintf("PopTzOffset(%q) = %q, %q, %d", text, s, name, off)
		}
	}
	return ""
}

func squeeze(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, s)
}

// searchContract: results have a date and a text that is found in the input.
func searchContract(lang, text string, res []dps.SearchResult) string {
	all := squeeze(text)
	for i, r := range res {
		if r.Date.Time.IsZero() || r.Date.Period < 1 {
			return fmt.Sprintf("search %s %q: result %d (%q) has no date: %v", lang, text, i, r.Text, r.Date)
		}
		if r.Date.Locale != lang {
			return fmt.Sprintf("search %s %q: result %q has locale %q", lang, text, r.Text, r.Date.Locale)
		}
		part := squeeze(r.Text)
		if part == "" {
			return fmt.Sprintf("search %s %q: result %d has no text", lang, text, i)
		}
		if !strings.Contains(all, part) && !(noWordSpacing[lang] && isSubsequence(part, all)) {
			return fmt.Sprintf("search %s %q: result %q isn't in the text", lang, text, r.Text)
		}
	}
	return ""
}

// isSubsequence is true if the characters of part are in s in the same order. Languages without
// spaces between words drop unknown words which are in the middle of a found text.
func isSubsequence(part, s string) bool {
	rs := []rune(part)
	for _, r := range s {
		if len(rs) > 0 && rs[0] == r {
			rs = rs[1:]
		}
	}
	return len(rs) == 0
}

// Growth is a repeated text, whose cost must not explode.
type Growth struct {
	Word, Locale, Op string
}

func genGrowth(g *G) Growth {
	w := pick(g, junkWords)
	switch g.N(4) {
	case 0:
		w = string(pick(g, junkRunes))
	case 1:
		w += pick(g, junkWords)
	case 2:
		for i := g.Range(1, 5); i > 0; i-- {
			w += string(pick(g, junkRunes))
		}
	}
	l := "en"
	if g.P(60) {
		l = pick(g, refLocales())
		if g.P(40) {
			w = pick(g, sortedKeys(refNames()[l]))
		}
	}
	return Growth{w + pick(g, []string{"", " ", ":", "-", "/", ", ", "."}), l, pick(g, []string{"parse", "searchlang"})}
}

// checkGrowth compares the processor time for a text and another that is 16 times longer.
// Linear cost means 16 times more, quadratic 256 times.
func checkGrowth(c Growth) Result {
	cost := func(n int) float64 {
		call := Call{Op: c.Op, Lang: c.Locale, Text: strings.Repeat(c.Word, n), Cfg: Cfg{Locales: []string{c.Locale}, Now: "2020-01-01T00:00:00Z"}}
		start := cpuNow()
		call.fresh()
		return float64(cpuNow()-start) / 1e9
	}
	n := max(2, 256/len(c.Word))
	if c.Op == "searchlang" {
		n = max(2, 80/len(c.Word))
	}
	long := cost(n * 16)
	if long < 4 {
		return ok("cheap")
	}
	short := cost(n)
	if long > 120*short { // the measures are noisy
		short = max(short, cost(n))
		long = min(long, cost(n*16))
	}
	if long > 4 && long > 120*short {
		return bad("%s %s %q: %.2fs for %d repetitions, %.2fs for %d", c.Op, c.Locale, c.Word, short, n, long, n*16)
	}
	return ok("linear")
}

// Dateless is a text without any part of a date.
type Dateless struct {
	Cfg  Cfg
	Text string
}

func genDateless(g *G) Dateless {
	d := Dateless{Cfg: g.anyCfg()}
	d.Cfg.Skip = nil
	if g.P(40) {
		d.Cfg.DefaultLangs = []string{pick(g, []string{"en", "de", "ru", "zh"})}
	}
	units := []string{"year", "hour", "minute", "years", "hours", "minutes"}
	english := g.P(40)
	if english {
		d.Cfg.Languages, d.Cfg.Locales, d.Cfg.Region, d.Cfg.DefaultLangs = nil, []string{"en"}, "", nil
	}
	for i := g.Range(1, 6); i > 0; i-- {
		switch {
		case english && g.P(50):
			d.Text += pick(g, units)
		case g.P(30):
			d.Text += pick(g, madeUp)
		default:
			d.Text += pick(g, []string{".", ",", ":", ";", "-", "/", "!", "?", "(", ")", "[", "]", "|", "…", "#", "\"", "&", "+"})
		}
		d.Text += pick(g, []string{"", " ", " "})
		if l := len(d.Text); d.Text[l-1]&0xc0 == 0x40 {
			d.Text += " "
		}
	}
	return d
}

func checkDateless(d Dateless) Result {
	p := &dps.Parser{}
	dt, err := p.Parse(d.Cfg.build(), d.Text)
	if err == nil || !dt.IsZero() {
		return bad("parse %q: %v %v", d.Text, toOut(dt, nil), err)
	}
	if strings.ContainsAny(d.Text, "abcdefghijklmnopqrstuvwxyz") {
		return ok("words")
	}
	return ok("punctuation")
}

func init() {
	Register("P01", "no date", 8000, 120000, genDateless, checkDateless)
	Register("P01", "any call", 24000, 300000, genAny, checkAny)
	Register("P01", "long texts", 400, 6000, genGrowth, checkGrowth)
}
