package main

import (
	"fmt"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/markusmobius/go-dateparser/date"
)

// Worded is a relative phrase whose number is written as a word.
type Worded struct {
	Phrase
	Word string
}

var wordedList = sync.OnceValue(func() (out []Worded) {
	for _, p := range phraseList() {
		words := refNumWords()[langOf(p.Locale)]
		if p.Num == "" || !strings.Contains(p.Pattern, " "+numGroup+" ") && !strings.HasPrefix(strings.TrimPrefix(p.Pattern, "(?i)"), numGroup+" ") {
			continue
		}
		for _, n := range sortedKeys(words) {
			for _, w := range words[n] {
				p.Num = n
				out = append(out, Worded{p, w})
			}
		}
	}
	return
})

var rxFullUnit = regexp.MustCompile(`(?i) (ans?|ann[ée]es?|mois|semaines?|jours?|heures?|minutes?|secondes?)$`)

func checkWorded(w Worded) Result {
	text, _ := w.text()
	if meant := meanings(w.Locale, text); len(meant) != 1 || w.isYearNumber() {
		return Result{Skip: true}
	}
	if w.Word == "sept" && !rxFullUnit.MatchString(text) {
		return Result{Skip: true} // also short for September
	}
	p := w.Phrase
	p.Pattern = strings.Replace(p.Pattern, numGroup, w.Word, 1)
	p.English = strings.ReplaceAll(strings.ReplaceAll(p.English, "${1}", "$1"), "$1", p.Num)
	p.Num = ""
	p.Pattern, _ = Phrase{Pattern: p.Pattern, Num: "x", Alt: p.Alt}.text()
	return checkPhrase(p)
}

func listWorded() (out []Worded) {
	for i, w := range wordedList() {
		w.Cfg.TimePeriod = i%2 == 0
		setNow(&w.Cfg, time.Date(1990+i%60, time.Month(1+i%12), 1+i%31, i%24, i%60, i*7%60, 0, time.UTC))
		w.Alt = i % 2
		w.Upper = i%7 == 3
		out = append(out, w)
	}
	return
}

func genWorded(g *G) Worded {
	w := pick(g, wordedList())
	setNow(&w.Cfg, g.Now(1800, 2200))
	w.Cfg.PreserveEOM = g.P(30)
	w.Cfg.Source = g.N(3)
	w.Alt = g.N(2)
	w.Upper = g.P(20)
	return w
}

// spoken are phrases with an amount that is no number, and what they mean.
var spoken = map[string][][2]string{
	"en": {
		{"from now 3 days", "in 3 day"}, {"two days from now", "in 2 day"}, {"3 hours from now", "in 3 hour"},
		{"an hour from now", "in 1 hour"}, {"a year from now", "in 1 year"}, {"two weeks later", "in 2 week"},
		{"5 minutes later", "in 5 minute"}, {"1 month later", "in 1 month"}, {"a decade later", "in 1 decade"},
		{"less than 1 minute ago", "45 second ago"}, {"less than a minute ago", "45 second ago"},
		{"an hour ago", "1 hour ago"}, {"a week ago", "1 week ago"}, {"a year and a month ago", "1 year 1 month ago"},
		{"two years, three months and a day ago", "2 year 3 month 1 day ago"},
	},
	"fr": {
		{"il y a moins d'une minute", "1 minute ago"}, {"moins de 5 minutes", "5 minute ago"}, {"il y a moins de 30 s", "30 second ago"},
		{"il y a moins de 30 m", "30 minute ago"}, {"il y a moins de 2 h", "2 hour ago"}, {"il y a un an et deux mois", "1 year 2 month ago"},
		{"dans une heure", "in 1 hour"}, {"il y a un jour", "1 day ago"},
	},
	"de": {
		{"vor einer stunde", "1 hour ago"}, {"vor einem jahr und zwei monaten", "1 year 2 month ago"}, {"vor drei tagen", "3 day ago"},
		{"in zwölf stunden", "in 12 hour"}, {"in fünf wochen", "in 5 week"},
	},
	"ru": {
		{"полчаса назад", "30 minute ago"}, {"через полчаса", "in 30 minute"}, {"полгода назад", "6 month ago"}, {"через полгода", "in 6 month"},
		{"полтора часа назад", "90 minute ago"}, {"через полтора часа", "in 90 minute"}, {"полтора года назад", "18 month ago"},
		{"через полтора года", "in 18 month"}, {"несколько секунд назад", "44 second ago"}, {"через несколько секунд", "in 44 second"},
		{"через секунду", "in 1 second"}, {"через минуту", "in 1 minute"}, {"через час", "in 1 hour"}, {"через день", "in 1 day"},
		{"через сутки", "in 1 day"}, {"через неделю", "in 1 week"}, {"через месяц", "in 1 month"}, {"через год", "in 1 year"},
		{"спустя час", "in 1 hour"}, {"спустя неделю", "in 1 week"}, {"секунду назад", "1 second ago"}, {"минуту назад", "1 minute ago"},
		{"час назад", "1 hour ago"}, {"день назад", "1 day ago"}, {"сутки назад", "1 day ago"}, {"неделю назад", "1 week ago"},
		{"месяц назад", "1 month ago"}, {"год назад", "1 year ago"}, {"пару минут назад", "2 minute ago"}, {"пару недель назад", "2 week ago"},
		{"две недели назад", "2 week ago"}, {"пятнадцать минут назад", "15 minute ago"}, {"через двадцать минут", "in 20 minute"},
		{"тридцать секунд назад", "30 second ago"}, {"сорок дней назад", "40 day ago"}, {"пятьдесят лет назад", "50 year ago"},
	},
	"uk": {
		{"півгодини тому", "30 minute ago"}, {"через півгодини", "in 30 minute"}, {"пів години тому", "30 minute ago"},
		{"півроку тому", "6 month ago"}, {"через пів року", "in 6 month"}, {"півтори години тому", "90 minute ago"},
		{"півтора року тому", "18 month ago"}, {"через півтора року", "in 18 month"}, {"кілька секунд тому", "44 second ago"},
		{"кілька хвилин тому", "2 minute ago"}, {"годину тому", "1 hour ago"}, {"хвилину тому", "1 minute ago"},
		{"секунду тому", "1 second ago"}, {"п'ять хвилин тому", "5 minute ago"}, {"двадцять хвилин тому", "20 minute ago"},
		{"через тридцять днів", "in 30 day"},
	},
	"he": {
		{"לפני שנתיים", "2 year ago"}, {"לפני חודשיים", "2 month ago"}, {"לפני שבועיים", "2 week ago"}, {"לפני יומיים", "2 day ago"},
		{"לפני שעתיים", "2 hour ago"}, {"בעוד שנתיים", "in 2 year"}, {"בעוד יומיים", "in 2 day"}, {"בעוד שעתיים", "in 2 hour"},
		{"שלשום", "2 day ago"}, {"מחר", "in 1 day"},
	},
	"sk": {
		{"pred sekundou", "1 second ago"}, {"pred minútou", "1 minute ago"}, {"pred hodinou", "1 hour ago"}, {"pred týždňom", "1 week ago"},
		{"pred mesiacom", "1 month ago"}, {"pred rokom", "1 year ago"}, {"pred pol rokom", "6 month ago"}, {"o sekundu", "in 1 second"},
		{"o minútu", "in 1 minute"}, {"o hodinu", "in 1 hour"}, {"o týždeň", "in 1 week"}, {"o mesiac", "in 1 month"}, {"o rok", "in 1 year"},
		{"o pol roka", "in 6 month"},
	},
	"pl": {
		{"dziś", "0 day ago"}, {"dzisiaj", "0 day ago"}, {"onegdaj", "2 day ago"}, {"przedwczoraj", "2 day ago"}, {"jutro", "in 1 day"},
		{"pojutrze", "in 2 day"},
	},
	"cs": {{"teď", "0 second ago"}},
	"tl": {{"kahapon", "1 day ago"}, {"ngayon", "0 second ago"}, {"isang araw nakalipas", "1 day ago"}, {"isang araw nakaraan", "1 day ago"}},
	"zh": {{"半小时前", "30 minute ago"}},
	"da": {{"for 3 hrs siden", "3 hour ago"}, {"for 5 mins siden", "5 minute ago"}, {"for en time siden", "1 hour ago"}},
	"pt": {{"alguns segundos atrás", "44 second ago"}, {"há uma hora", "1 hour ago"}, {"há um ano e um mês", "1 year 1 month ago"}},
	"es": {{"hace una hora", "1 hour ago"}, {"hace un año y un mes", "1 year 1 month ago"}, {"en un día", "in 1 day"}},
	"sv": {{"för en timme sedan", "1 hour ago"}, {"för två timmar sedan", "2 hour ago"}, {"om en vecka", "in 1 week"}},
	"fi": {
		{"3 päivän päästä", "in 3 day"}, {"2 viikon kuluttua", "in 2 week"}, {"10 minuutin päästä", "in 10 minute"}, {"5 tunnin kuluttua", "in 5 hour"},
		{"4 kuukauden päästä", "in 4 month"}, {"6 vuoden kuluttua", "in 6 year"}, {"30 sekunnin päästä", "in 30 second"},
	},
	"hu": {{"egy órája", "1 hour ago"}},
	"th": {{"วันนี้", "0 day ago"}, {"เมื่อวานนี้", "1 day ago"}, {"เมื่อวานซืน", "2 day ago"}},
}

// Spoken is one of them, in a locale of the language.
type Spoken struct {
	Phrase
}

var spokenList = sync.OnceValue(func() (out []Spoken) {
	for _, l := range refLocales() {
		for _, s := range spoken[langOf(l)] {
			out = append(out, Spoken{Phrase: Phrase{Locale: l, Pattern: s[0], English: s[1]}})
		}
	}
	return
})

func checkSpoken(s Spoken) Result {
	return checkPhrase(s.Phrase)
}

func listSpoken() (out []Spoken) {
	for i, w := range spokenList() {
		w.Cfg.TimePeriod = i%2 == 0
		setNow(&w.Cfg, time.Date(1990+i%60, time.Month(1+i%12), 1+i%31, i%24, i%60, i*7%60, 0, time.UTC))
		out = append(out, w)
	}
	return
}

func genSpoken(g *G) Spoken {
	w := pick(g, spokenList())
	setNow(&w.Cfg, g.Now(1800, 2200))
	w.Cfg.PreserveEOM = g.P(30)
	w.Upper = g.P(20)
	return w
}

func init() {
	RegisterList("P31", "every number word", 1, listWorded, checkWorded)
	Register("P31", "number words", 4000, 60000, genWorded, checkWorded)
	RegisterList("P31", "every spoken phrase", 1, listSpoken, checkSpoken)
	Register("P31", "spoken phrases", 3000, 40000, genSpoken, checkSpoken)
}

// spokenClocks are words for noon and midnight.
var spokenClocks = map[string]map[string]int{
	"en": {"noon": 12, "12 noon": 12, "midnight": 0, "12 midnight": 0},
	"da": {"middag": 12, "midnat": 0},
	"hr": {"podne": 12, "ponoć": 0},
	"bn": {"মধ্যাহ্ন": 12, "মধ্যরাত": 0},
	"he": {"חצות": 0},
	"zh": {"中午": 12},
}

// SpokenClock is such a word, alone or next to a date.
type SpokenClock struct {
	Locale, Word string
	Day          string // empty for today
	Date         [3]int
	Upper        bool
	Cfg          Cfg
}

func checkSpokenClock(c SpokenClock) Result {
	cfg := c.Cfg
	cfg.Locales = []string{c.Locale}
	now := cfg.now()
	y, m, d := now.Date()
	text, class := c.Word, "alone"
	if c.Day != "" {
		y, m, d = c.Date[0], time.Month(c.Date[1]), c.Date[2]
		text, class = c.Day+" "+text, "after a date"
	}
	if c.Upper {
		text = upper(text)
	}
	want := time.Date(y, m, d, spokenClocks[langOf(c.Locale)][c.Word], 0, 0, 0, now.Location())
	got, err := parseFresh(cfg, text)
	if f := expectWall(fmt.Sprintf("%s: %q now %s", c.Locale, text, now.Format(time.RFC3339)), got, err, want, date.Day); f != "" {
		return bad("%s", f)
	}
	return ok(class)
}

func genSpokenClock(g *G) (c SpokenClock) {
	for {
		c.Locale = pick(g, refLocales())
		if words := sortedKeys(spokenClocks[langOf(c.Locale)]); len(words) > 0 {
			c.Word = pick(g, words)
			break
		}
	}
	setNow(&c.Cfg, g.Now(1800, 2200))
	c.Upper = g.P(20)
	if g.P(60) {
		t := g.Now(1000, 2500)
		c.Date = [3]int{t.Year(), int(t.Month()), t.Day()}
		c.Day = t.Format(map[string]string{"DMY": "02/01/2006", "MDY": "01/02/2006"}[refOrders()[c.Locale]])
		if c.Day == "" {
			c.Day = t.Format("2006/01/02")
		}
	}
	return
}

func init() {
	Register("P31", "noon and midnight", 2000, 20000, genSpokenClock, checkSpokenClock)
}
