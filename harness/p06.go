package main

import (
	"fmt"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/markusmobius/go-dateparser/date"
)

// Phrase is a relative phrase of a locale and its meaning in English.
type Phrase struct {
	Locale, Pattern, English string
	Num                      string // for patterns with a number
	Alt                      int
	Upper                    bool
	Cfg                      Cfg
}

var phraseList = sync.OnceValue(func() (out []Phrase) {
	for _, l := range refLocales() {
		rel := refRel()[l]
		for _, w := range sortedKeys(rel) {
			out = append(out, Phrase{Locale: l, Pattern: w, English: rel[w]})
		}
		for _, rx := range refRelRx()[l] {
			out = append(out, Phrase{Locale: l, Pattern: rx[0], English: rx[1], Num: "1"})
		}
	}
	return
})

var rxAmount = regexp.MustCompile(`(\d+(?:\.\d+)?) (decade|year|month|week|day|hour|minute|second)`)

const numGroup = `(\d+[.,]?\d*)`

var rxCacheMu sync.Mutex
var rxCache = map[string]*regexp.Regexp{}

func cachedRx(p string) *regexp.Regexp {
	rxCacheMu.Lock()
	defer rxCacheMu.Unlock()
	rx := rxCache[p]
	if rx == nil {
		rx = regexp.MustCompile(p)
		rxCache[p] = rx
	}
	return rx
}

// meanings lists the distinct English meanings the tables of the locale give to the text.
func meanings(locale, text string) map[string]bool {
	out := map[string]bool{}
	if m, exist := refRel()[locale][text]; exist {
		out[m] = true
	}
	for _, r := range refRelRx()[locale] {
		rx := cachedRx("^(?:" + r[0] + ")$")
		if m := rx.FindStringSubmatch(text); m != nil {
			s := strings.ReplaceAll(strings.ReplaceAll(r[1], "${1}", "$1"), "$1", m[1])
			out[s] = true
		}
	}
	return out
}

func (p Phrase) text() (string, string) {
	english := strings.ReplaceAll(strings.ReplaceAll(p.English, "${1}", "$1"), "$1", strings.Replace(p.Num, ",", ".", 1))
	text := p.Pattern
	if p.Num != "" {
		text = strings.TrimPrefix(text, "(?i)")
		text = strings.Replace(text, numGroup, p.Num, 1)
		text = strings.ReplaceAll(text, `\s*`, []string{" ", ""}[p.Alt])
		text = strings.ReplaceAll(text, `decades?`, []string{"decades", "decade"}[p.Alt])
	}
	return text, english
}

// isYearNumber tells that it's a year instead, as this form is only used with 1, 21, 31, and a
// number with four digits in front of it is always a year.
func (p Phrase) isYearNumber() bool {
	return strings.HasPrefix(p.Locale, "ru") && strings.Contains(p.Pattern, "год") && !strings.Contains(p.Pattern, "года") &&
		(!strings.HasSuffix(p.Num, "1") || len(p.Num) > 3)
}

func checkPhrase(p Phrase) Result {
	text, english := p.text()
	if m := meanings(p.Locale, text); len(m) > 1 || !rxAmount.MatchString(english) {
		return Result{Skip: true}
	}
	if p.isYearNumber() {
		return Result{Skip: true}
	}
	cfg := p.Cfg
	cfg.Locales = []string{p.Locale}
	r := Relative{Cfg: cfg, Text: text, Class: "phrase"}
	if p.Num != "" {
		r.Class = "amount"
	}
	if p.Upper {
		r.Text = upper(text)
		r.Class += " upper"
	}
	for _, m := range rxAmount.FindAllStringSubmatch(english, -1) {
		r.Amounts = append(r.Amounts, Amount{m[1], m[2]})
	}
	switch {
	case strings.HasPrefix(english, "in "):
		r.Dir = 1
	case strings.HasSuffix(english, " ago"):
		r.Dir = -1
	}
	res := checkRelative(r)
	if res.Fail != "" {
		res.Fail = p.Locale + " (" + english + "): " + res.Fail
	}
	return res
}

func listPhrases() (out []Phrase) {
	for i, p := range phraseList() {
		p.Cfg.TimePeriod = i%2 == 0
		now := time.Date(1990+i%60, time.Month(1+i%12), 1+i%31, i%24, i%60, i*7%60, 0, time.UTC)
		setNow(&p.Cfg, now)
		if p.Num != "" {
			p.Num = fmt.Sprint(1 + i*13%59)
			p.Alt = i % 2
		}
		p.Upper = i%7 == 3
		out = append(out, p)
	}
	return
}

func genPhrase(g *G) Phrase {
	all := phraseList()
	p := all[g.N(len(all))]
	setNow(&p.Cfg, g.Now(1800, 2200))
	p.Cfg.TimePeriod, p.Cfg.PreserveEOM, p.Cfg.Source = g.P(40), g.P(40), g.N(3)
	if p.Num != "" {
		p.Alt = g.N(2)
		p.Num = fmt.Sprint(g.Small(2000))
		if g.P(20) {
			p.Num += pick(g, []string{".5", ".25", ",5"})
		}
	}
	if p.Locale == "fi" { // its words are reordered, which loses the decimal comma
		p.Num = strings.Replace(p.Num, ",", ".", 1)
	}
	p.Upper = g.P(25)
	return p
}

// PhraseClock is a relative phrase of a locale with a clock, maybe with a word for am or pm.
type PhraseClock struct {
	Phrase      Phrase
	H, M, S     int
	Parts       int
	Word        string
	First, Fore bool // the clock before the phrase, the word before the clock
}

func genPhraseClock(g *G) PhraseClock {
	for {
		c := PhraseClock{Phrase: genPhrase(g)}
		_, english := c.Phrase.text()
		if m := rxAmount.FindStringSubmatch(english); m == nil || !strings.Contains("year month week day", m[2]) {
			continue
		}
		c.Phrase.Upper = false
		if strings.ContainsAny(c.Phrase.Num, ".,") {
			c.Phrase.Num = fmt.Sprint(g.Range(1, 400))
		}
		c.H, c.M, c.S, c.Parts, c.First = g.N(24), g.N(60), g.N(60), g.Range(2, 3), g.P(30)
		if words := refAmPm()[c.Phrase.Locale]; len(words) > 0 && g.P(40) {
			c.Word, c.Fore = pick(g, sortedKeys(words)), g.P(30)
			c.H = g.Range(1, 12)
		}
		return c
	}
}

func checkPhraseClock(c PhraseClock) Result {
	p := c.Phrase
	text, english := p.text()
	if len(meanings(p.Locale, text)) > 1 || !rxAmount.MatchString(english) || p.isYearNumber() {
		return Result{Skip: true}
	}
	if c.Word != "" && len(meanings(p.Locale, c.Word)) > 0 {
		return Result{Skip: true} // also is the word for tomorrow
	}
	clock := fmt.Sprintf("%d:%02d", c.H, c.M)
	k := Clock{c.H, c.M, 0, 0, date.Minute}
	if c.Parts > 2 {
		clock += fmt.Sprintf(":%02d", c.S)
		k.S, k.Period = c.S, date.Second
	}
	class := "24-hour clock"
	if c.Word != "" {
		class = "12-hour clock"
		k.H %= 12
		if refAmPm()[p.Locale][c.Word] == "pm" {
			k.H += 12
		}
		if c.Fore {
			clock = c.Word + " " + clock
		} else {
			clock += " " + c.Word
		}
	}
	cfg := p.Cfg
	cfg.Locales = []string{p.Locale}
	r := Relative{Cfg: cfg, Text: text + " " + clock, Class: class, Clock: &k}
	if c.First {
		r.Text = clock + " " + text
	}
	for _, m := range rxAmount.FindAllStringSubmatch(english, -1) {
		r.Amounts = append(r.Amounts, Amount{m[1], m[2]})
	}
	switch {
	case strings.HasPrefix(english, "in "):
		r.Dir = 1
	case strings.HasSuffix(english, " ago"):
		r.Dir = -1
	}
	res := checkRelative(r)
	if res.Fail != "" {
		res.Fail = p.Locale + " (" + english + "): " + res.Fail
	}
	return res
}

func init() {
	Register("P06", "with a clock", 12000, 120000, genPhraseClock, checkPhraseClock)
	RegisterList("P06", "every phrase", 1, listPhrases, checkPhrase)
	Register("P06", "phrases", 12000, 150000, genPhrase, checkPhrase)
}
