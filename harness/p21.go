package main

import (
	"fmt"
	"regexp"
	"slices"
	"strings"
	"unicode"

	dps "github.com/markusmobius/go-dateparser"
	"golang.org/x/text/unicode/norm"
)

// Written is a date in two spellings that only differ in how characters are encoded.
type Written struct {
	Cfg   Cfg
	Op    string
	Text  string
	Other string
	How   string
	Class string
}

// The zeros of every script that Unicode 15 has decimal digits for.
var zeros = func() (list []rune) {
	for _, r := range unicode.Nd.R16 {
		for z := rune(r.Lo); z < rune(r.Hi); z += 10 {
			list = append(list, z)
		}
	}
	for _, r := range unicode.Nd.R32 {
		for z := rune(r.Lo); z < rune(r.Hi); z += 10 {
			list = append(list, z)
		}
	}
	return
}()

var spaces = []string{"\u00a0", "  ", "\t", "\n", "\r\n", "\u2009", "\u202f", "\u3000", "\u2003", " \u00a0 ", "\u200e ", " \u200f"}

func (g *G) respell(s, how string) string {
	switch how {
	case "digits":
		return digitsIn(s, pick(g, zeros))
	case "mixed digits":
		return strings.Map(func(r rune) rune {
			if r >= '0' && r <= '9' {
				return pick(g, zeros) + r - '0'
			}
			return r
		}, s)
	case "spaces":
		var sb strings.Builder
		for _, r := range s {
			if r == ' ' && g.P(70) {
				sb.WriteString(pick(g, spaces))
			} else {
				sb.WriteRune(r)
			}
		}
		return sb.String()
	case "margins":
		return pick(g, append(spaces, "")) + s + pick(g, append(spaces, ":", ": ", ""))
	case "upper":
		return strings.ToUpper(s)
	case "lower":
		return strings.ToLower(s)
	case "title":
		first := true
		return strings.Map(func(r rune) rune {
			f := first
			first = r == ' '
			if f {
				return unicode.ToUpper(r)
			}
			return unicode.ToLower(r)
		}, s)
	case "NFC":
		return norm.NFC.String(s)
	case "NFD":
		return norm.NFD.String(s)
	case "NFKC":
		return norm.NFKC.String(s)
	case "fullwidth":
		return strings.Map(func(r rune) rune {
			if r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' {
				return r + 0xfee0
			}
			return r
		}, s)
	case "apostrophe":
		return strings.ReplaceAll(s, "'", pick(g, []string{"’", "ʼ", "ʻ", "′", "＇"}))
	case "vowel marks":
		var sb strings.Builder
		for _, r := range s {
			sb.WriteRune(r)
			if unicode.Is(unicode.Arabic, r) && unicode.IsLetter(r) && g.P(40) {
				sb.WriteRune(pick(g, []rune("\u064b\u064c\u064d\u064e\u064f\u0650\u0651\u0652\u0670")))
			}
			if unicode.Is(unicode.Hebrew, r) && unicode.IsLetter(r) && g.P(40) {
				sb.WriteRune(pick(g, []rune("\u05b0\u05b4\u05b7\u05b8\u05bc\u05c1")))
			}
		}
		return sb.String()
	}
	panic(how)
}

var spellings = []string{"digits", "mixed digits", "spaces", "margins", "upper", "lower", "title", "NFC", "NFD", "NFKC", "fullwidth", "apostrophe", "vowel marks"}

// markedLocales are usually written without their vowel marks.
var markedLocales = []string{"ar", "ar-EG", "fa", "fa-AF", "he", "ur", "ks", "pa-Arab", "ckb", "ug", "uz-Arab", "mzn", "lrc", "ps", "yi"}

// sameLetters is true if the change of case is undone by lowering it.
func sameLetters(a, b string) bool {
	fold := func(s string) string { return norm.NFKC.String(strings.ToLower(norm.NFKD.String(s))) }
	return fold(a) == fold(b)
}

func genWritten(g *G) Written {
	c := Written{Op: "parse"}
	g.anyPrefs(&c.Cfg)
	setNow(&c.Cfg, g.Now(1990, 2060))
	c.Cfg.TimePeriod = g.P(30)
	if g.P(30) {
		c.Cfg.DefTZ = pick(g, []string{"UTC", "+0330", "America/New_York"})
	}
	switch g.N(6) {
	case 0:
		j := genJalali(g)
		c.Op, c.Cfg, c.Text, c.Class = "jalali", j.Cfg, j.Text, "Jalali"
	case 1:
		c.Cfg.Locales, c.Text, c.Class = []string{"en"}, genAbsolute(g).Text, "English"
		if g.P(40) {
			c.Text, c.Class = genRelative(g).Text, "English relative"
		}
	case 2:
		c.Cfg.Locales, c.Class = []string{pick(g, refLocales())}, "numbers"
		switch g.N(4) {
		case 0:
			c.Text = genStamp(g).Text
		case 1:
			c.Text = genDigits(g).Text
		default:
			d := g.YMD(1900, 2100)
			c.Text = g.numericText(pick(g, sixOrders), d, g.P(70))
			if g.Bool() {
				t, _, _, _, _, _ := g.clockText()
				c.Text += " " + t
			}
		}
	default:
		l := pick(g, refLocales())
		if g.P(15) {
			l = pick(g, markedLocales)
		}
		var kind string
		c.Text, kind = g.localText(l)
		c.Class = "local " + kind
		switch g.N(5) {
		case 0:
			c.Cfg.Languages = []string{langOf(l), pick(g, someLangs)}
		default:
			c.Cfg.Locales = []string{l}
		}
		if g.P(30) {
			c.Text += fmt.Sprintf(" %02d:%02d", g.N(24), g.N(60))
		}
	}
	for i := 0; i < 4; i++ {
		c.How = pick(g, spellings)
		if i == 0 && len(c.Cfg.Locales) == 1 && slices.Contains(markedLocales, c.Cfg.Locales[0]) {
			c.How = "vowel marks"
		}
		if c.Other = g.respell(c.Text, c.How); c.Other != c.Text {
			break
		}
	}
	return c
}

func checkWritten(c Written) Result {
	if c.Other == c.Text {
		return Result{Skip: true}
	}
	if !sameLetters(c.Text, c.Other) && (c.How == "upper" || c.How == "lower" || c.How == "title") {
		return Result{Skip: true}
	}
	call := Call{Op: c.Op, Cfg: c.Cfg, Text: c.Text}
	a := call.fresh()
	call.Text = c.Other
	b := call.fresh()
	a.ErrText, b.ErrText = "", ""
	if a.key() != b.key() {
		return bad("%q gives %s, but %q (%s) gives %s", c.Text, a.Out, c.Other, c.How, b.Out)
	}
	if a.Out.Err {
		return trivial("no date")
	}
	return ok(c.Class + ", " + c.How)
}

var rxZoneWord = regexp.MustCompile(`(\d|[AaPp][Mm]) [A-Z]{2,5}\b`)

// genWrittenSearch spells the dates of a text to search in two ways.
func genWrittenSearch(g *G) Written {
	p := genPlanted(g)
	if g.P(60) {
		p = genPlantedLocal(g)
	}
	c := Written{Op: p.Lang, Cfg: p.Cfg, Text: p.Text, Class: "search"}
	for i := 0; i < 4; i++ {
		c.How = pick(g, []string{"digits", "mixed digits", "upper", "lower", "NFC", "NFD", "NFKC", "vowel marks"})
		if c.How == "lower" && rxZoneWord.MatchString(c.Text) {
			continue // only timezones in upper case count in search, since some of them are words
		}
		if c.Other = g.respell(c.Text, c.How); c.Other != c.Text {
			break
		}
	}
	return c
}

func checkWrittenSearch(c Written) Result {
	if c.Other == c.Text || !sameLetters(c.Text, c.Other) && (c.How == "upper" || c.How == "lower") {
		return Result{Skip: true}
	}
	var outs [2]string
	n := 0
	for i, text := range []string{c.Text, c.Other} {
		res, err := (&dps.Parser{}).SearchWithLanguage(c.Cfg.build(), c.Op, text)
		if err != nil {
			return bad("%q: %v", text, err)
		}
		n = len(res)
		for _, r := range res {
			outs[i] += fmt.Sprintf("%s; ", toOut(r.Date, nil))
		}
	}
	if outs[0] != outs[1] {
		return bad("%q gives %s, but %q (%s) gives %s", c.Text, outs[0], c.Other, c.How, outs[1])
	}
	if n == 0 {
		return trivial("no date")
	}
	return ok(c.How)
}

func init() {
	Register("P21", "spelling", 20000, 200000, genWritten, checkWritten)
	Register("P21", "search spelling", 4000, 40000, genWrittenSearch, checkWrittenSearch)
}
