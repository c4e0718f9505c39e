package main

import (
	"fmt"
	"regexp"
	"strings"
	"time"
	"unicode"

	dps "github.com/markusmobius/go-dateparser"
)

// Planted is a text with dates between words that have no meaning for the parser.
type Planted struct {
	Cfg   Cfg
	Lang  string
	Text  string
	Dates []PlantedDate
	Class string
	// NoDetection is set when the text has no word of the language
	NoDetection bool `json:",omitempty"`
}

type PlantedDate struct {
	Text, Want string
	Zone       string `json:",omitempty"` // offset of the written timezone
}

var fillers = []string{"Alice", "visited", "Boston", "meeting", "xylophone", "customers", "contract", "was", "signed", "deadline", "Bob", "released", "party", "which", "celebrated", "everybody", "went", "back", "home", "stock", "price", "nobody", "knows", "why"}

func (g *G) filler(words []string) string {
	n := g.Range(1, 6)
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, pick(g, words))
	}
	if g.P(15) {
		for i := range out {
			out[i] = strings.ToUpper(out[i])
		}
	}
	s := strings.Join(out, " ")
	switch g.N(6) {
	case 0:
		i := g.N(n)
		out[i] += ","
		s = strings.Join(out, " ")
	case 1:
		s = "(" + s + ")"
	case 2:
		s = `"` + s + `"`
	}
	return s
}

// plant joins the texts of dates with words between them.
func (g *G) plant(p *Planted, words []string) {
	sb := strings.Builder{}
	seps := []string{" ", " ", ". ", "\n", "! ", ", ", "; ", ": "}
	before := g.P(80)
	if before {
		sb.WriteString(g.filler(words) + " ")
	}
	for i, d := range p.Dates {
		if i > 0 {
			sb.WriteString(g.filler(words) + " ")
		}
		switch g.N(10) {
		case 0:
			sb.WriteString("(" + d.Text + ")")
		case 2:
			sb.WriteString("“" + d.Text + "”")
		case 3:
			sb.WriteString("«" + d.Text + "»")
		case 1:
			sb.WriteString("[" + d.Text + "]")
		default:
			sb.WriteString(d.Text)
		}
		sb.WriteString(pick(g, seps))
	}
	// The language of a text without words can't be detected
	if g.P(80) || !before {
		sb.WriteString(g.filler(words))
	}
	p.Text = sb.String()
}

// many is a small number, or sometimes a large one.
func (g *G) many(n int) int {
	if g.P(4) {
		return g.Range(n, 40)
	}
	return g.Range(1, n)
}

func genPlanted(g *G) Planted {
	p := Planted{Lang: "en"}
	g.anyPrefs(&p.Cfg)
	n := g.many(4)
	for i := 0; i < n; i++ {
		c := g.YMD(1500, 9999)
		text, _ := g.englishDate(c)
		var h, mi, s int
		if g.P(35) {
			h, mi = g.N(24), g.N(60)
			switch g.N(3) {
			case 0:
				text += fmt.Sprintf(" %02d:%02d", h, mi)
			case 1:
				s = g.N(60)
				text += fmt.Sprintf(" %02d:%02d:%02d", h, mi, s)
			default:
				hh, ap := h%12, "am"
				if hh == 0 {
					hh = 12
				}
				if h >= 12 {
					ap = "pm"
				}
				text += fmt.Sprintf("%s%d:%02d%s%s", pick(g, []string{" ", " at "}), hh, mi, pick(g, []string{"", " "}), ap)
			}
		}
		d := PlantedDate{Want: wall(time.Date(c.Y, time.Month(c.M), c.D, h, mi, s, 0, time.UTC))}
		if strings.Contains(text, ":") && g.P(25) {
			z := pick(g, searchZones)
			text += " " + z[0]
			d.Zone = z[1]
		}
		d.Text = text
		p.Dates = append(p.Dates, d)
	}
	g.plant(&p, fillers)
	return p
}

func checkPlanted(p Planted) Result {
	if len(p.Dates) == 0 {
		return Result{Skip: true}
	}
	for _, mode := range []string{"search with language", "search"} {
		cfg := p.Cfg.build()
		var res []dps.SearchResult
		var err error
		lang := p.Lang
		if mode == "search" && p.NoDetection {
			continue
		} else if mode == "search" {
			cfg.Languages = []string{p.Lang}
			lang, res, err = (&dps.Parser{}).Search(cfg, p.Text)
		} else {
			res, err = (&dps.Parser{}).SearchWithLanguage(cfg, p.Lang, p.Text)
		}
		if err != nil || lang != p.Lang {
			return bad("%s %s: error %v, language %s", mode, p.Lang, err, lang)
		}
		var got, want []string
		for i, r := range res {
			found := strings.TrimRight(strings.TrimLeft(r.Text, "“«"), ");:]!”» ") + " = " + wall(r.Date.Time)
			if i < len(p.Dates) && p.Dates[i].Zone != "" {
				found += r.Date.Time.Format("-0700")
			}
			got = append(got, found)
			if r.Date.Locale != p.Lang {
				return bad("%s %s: locale of %q is %q", mode, p.Lang, r.Text, r.Date.Locale)
			}
		}
		for _, d := range p.Dates {
			want = append(want, d.Text+" = "+d.Want+d.Zone)
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			return bad("%s %s in %q: want %q, got %q", mode, p.Lang, p.Text, want, got)
		}
	}
	return ok(p.Class + fmt.Sprintf("%d dates", min(len(p.Dates), 10)))
}

var searchZones = [][2]string{{"UTC", "+0000"}, {"EST", "-0500"}, {"PST", "-0800"}, {"CEST", "+0200"}, {"GMT", "+0000"}, {"UTC+3", "+0300"}, {"+05:30", "+0530"}, {"-0800", "-0800"}}

// genPlantedClock plants clocks without a date.
func genPlantedClock(g *G) Planted {
	p := Planted{Lang: "en", Class: "clocks, "}
	now := g.Now(1900, 2100)
	setNow(&p.Cfg, now)
	n := g.many(4)
	for i := 0; i < n; i++ {
		h, mi, s := g.N(24), g.N(60), 0
		text := fmt.Sprintf("%02d:%02d", h, mi)
		switch g.N(3) {
		case 0:
			s = g.N(60)
			text += fmt.Sprintf(":%02d", s)
		case 1:
			text = fmt.Sprintf("%d:%02d%s%s", (h+11)%12+1, mi, pick(g, []string{"", " "}), []string{"am", "pm"}[h/12])
		}
		d := PlantedDate{Text: text, Want: wall(time.Date(now.Year(), now.Month(), now.Day(), h, mi, s, 0, time.UTC))}
		if g.P(50) {
			z := pick(g, searchZones)
			d.Text, d.Zone = text+" "+z[0], z[1]
		}
		p.Dates = append(p.Dates, d)
	}
	g.plant(&p, fillers)
	return p
}

// genPlantedRelative plants relative dates.
func genPlantedRelative(g *G) Planted {
	p := Planted{Lang: "en", Class: "relative, "}
	r := Relative{Cfg: g.relCfg()}
	p.Cfg = r.Cfg
	p.Cfg.Languages = nil
	n := g.many(4)
	for i := 0; i < n; i++ {
		r := Relative{Cfg: r.Cfg}
		u := pick(g, relUnits)
		a := Amount{Num: fmt.Sprint(1 + g.Small(relMax[u]/4)), Unit: u}
		r.Amounts = []Amount{a}
		w := relShort[u][g.N(2)]
		switch g.N(5) {
		case 0, 1:
			r.Text, r.Dir = a.Num+" "+w+" ago", -1
		case 2, 3:
			r.Text, r.Dir = "in "+a.Num+" "+w, 1
		default:
			d := g.N(3)
			r.Text = []string{"yesterday", "today", "tomorrow"}[d]
			r.Dir = d - 1
			r.Amounts = []Amount{{fmt.Sprint(max(r.Dir, -r.Dir)), "day"}}
		}
		if g.P(20) {
			r.Text = strings.ToUpper(r.Text[:1]) + r.Text[1:]
		}
		want, _, sharp := r.expect()
		if !sharp || want.Year() < 1 || want.Year() > 9999 {
			continue
		}
		p.Dates = append(p.Dates, PlantedDate{r.Text, wall(want), ""})
	}
	g.plant(&p, fillers)
	return p
}

// genPlantedBase plants absolute and relative dates without a configured current time: the
// relative ones start from the last absolute date before them.
func genPlantedBase(g *G) Planted {
	p := Planted{Lang: "en", Class: "relative to the text, "}
	p.Cfg.PreserveEOM = g.P(30)
	base := ""
	n := g.many(5)
	for i := 0; i < n; i++ {
		if base == "" || g.P(30) {
			c := g.YMD(1500, 2900)
			t := time.Date(c.Y, time.Month(c.M), c.D, 0, 0, 0, 0, time.UTC)
			text, _ := g.englishDate(c)
			base = t.Format(time.RFC3339)
			p.Dates = append(p.Dates, PlantedDate{text, wall(t), ""})
			continue
		}
		u := pick(g, relUnits)
		r := Relative{Cfg: Cfg{Now: base, PreserveEOM: p.Cfg.PreserveEOM}}
		a := Amount{Num: fmt.Sprint(1 + g.Small(50)), Unit: u}
		w := relShort[u][g.N(2)]
		r.Amounts = []Amount{a}
		switch g.N(3) {
		case 0:
			r.Text, r.Dir = a.Num+" "+w+" ago", -1
		case 1:
			r.Text, r.Dir = "in "+a.Num+" "+w, 1
		default:
			r.Text, r.Dir = "tomorrow", 1
			r.Amounts = []Amount{{"1", "day"}}
			if g.Bool() {
				r.Text, r.Dir = "yesterday", -1
			}
		}
		want, _, _ := r.expect()
		p.Dates = append(p.Dates, PlantedDate{r.Text, wall(want), ""})
	}
	g.plant(&p, fillers)
	return p
}

var noWordSpacing = map[string]bool{"zh": true, "zh-Hans": true, "zh-Hant": true, "yue": true, "ja": true}

var madeUp = []string{"xqz", "qqzx", "zzxq", "wxqz", "xxqq"}

// genPlantedLocal plants dates in other languages.
func genPlantedLocal(g *G) Planted {
	p := Planted{}
	langs := sortedKeys(refRanks().Languages)
	for p.Lang == "" || noWordSpacing[p.Lang] {
		p.Lang = pick(g, langs)
		if g.P(30) {
			p.Lang = pick(g, someLangs)
		}
	}
	if g.P(25) { // regional variants too
		for l := pick(g, refLocales()); ; l = pick(g, refLocales()) {
			if !noWordSpacing[langOf(l)] {
				p.Lang, p.NoDetection = l, true
				break
			}
		}
	}
	setNow(&p.Cfg, g.Now(1900, 2100))
	p.Cfg.Strict = g.P(20)
	names := refNames()[p.Lang]
	keys := sortedKeys(names)
	order := refOrders()[p.Lang]
	if g.P(40) {
		order = pick(g, sixOrders)
		p.Cfg.Order = order
	}
	p.Class = "names, "
	numeric := g.P(30)
	if numeric {
		p.Class, p.NoDetection = "numbers, ", true
	}
	n := g.many(3)
	for i := 0; i < n; i++ {
		w := pick(g, keys)
		m := monthIndex(names[w])
		c := g.YMD(1900, 2100)
		want := time.Date(c.Y, time.Month(c.M), c.D, 0, 0, 0, 0, time.UTC)
		if numeric {
			sep := pick(g, []string{"/", "-"})
			p.Dates = append(p.Dates, PlantedDate{arrange(order, fmt.Sprintf("%04d", c.Y), fmt.Sprintf("%02d", c.M), fmt.Sprintf("%02d", c.D), sep), wall(want), ""})
			continue
		}
		if m == 0 || isAmbiguousName(w) || strings.Count(w, " ") > 1 || strings.ContainsFunc(w, unicode.IsDigit) {
			continue
		}
		c.D = min(c.D, dim(c.Y, m))
		want = time.Date(c.Y, time.Month(m), c.D, 0, 0, 0, 0, time.UTC)
		nums := strings.Split(arrange(strings.ReplaceAll(order, "M", ""), fmt.Sprintf("%04d", c.Y), "", fmt.Sprint(c.D), "|"), "|")
		p.Dates = append(p.Dates, PlantedDate{nums[0] + " " + w + " " + nums[1], wall(want), ""})
	}
	g.plant(&p, madeUp)
	return p
}

var scriptCache = map[string]string{}

// scriptOf returns the script of the names in the language.
func scriptOf(lang string) string {
	if s, exist := scriptCache[lang]; exist {
		return s
	}
	count := map[string]int{}
	for w := range refNames()[lang] {
		for _, r := range w {
			for name, table := range unicode.Scripts {
				if unicode.IsLetter(r) && unicode.Is(table, r) {
					count[name]++
				}
			}
		}
	}
	best := ""
	for _, name := range sortedKeys(count) {
		if best == "" || count[name] > count[best] {
			best = name
		}
	}
	scriptCache[lang] = best
	return best
}

// Detect is a text with a localized date and the languages to choose from.
type Detect struct {
	Planted
	Languages []string
}

var rxWord = regexp.MustCompile(`\pL{4}`)

func genDetect(g *G) Detect {
	d := Detect{Planted: genPlantedLocal(g)}
	if scriptOf(d.Lang) == "Latin" && g.P(70) {
		d.Planted = genPlantedLocal(g)
	}
	// Made up words would be letters of other languages
	var texts []string
	for _, p := range d.Dates {
		texts = append(texts, p.Text)
	}
	d.Text = strings.Join(texts, pick(g, []string{", ", ". ", " / ", " - "}))
	d.Languages = []string{d.Lang}
	for i := g.Range(1, 4); i > 0; i-- {
		if l := pick(g, someLangs); scriptOf(l) != scriptOf(d.Lang) {
			d.Languages = append(d.Languages, l)
		}
	}
	for i := len(d.Languages) - 1; i > 0; i-- {
		j := g.N(i + 1)
		d.Languages[i], d.Languages[j] = d.Languages[j], d.Languages[i]
	}
	d.Cfg.GivenOrder = g.Bool()
	return d
}

func checkDetect(d Detect) Result {
	if len(d.Dates) == 0 || d.NoDetection || len(d.Languages) == 1 || !rxWord.MatchString(d.Text) {
		return Result{Skip: true}
	}
	// Only the script is a sure sign: languages of the same script share words
	for _, l := range d.Languages {
		if l != d.Lang && (scriptOf(l) == scriptOf(d.Lang)) {
			return Result{Skip: true}
		}
	}
	cfg := d.Cfg.build()
	cfg.Languages = d.Languages
	lang, _, err := (&dps.Parser{}).Search(cfg, d.Text)
	if err != nil || lang != d.Lang {
		return bad("%q with %v: want %s, got %s %v", d.Text, d.Languages, d.Lang, lang, err)
	}
	return ok("detected")
}

func init() {
	Register("P18", "detection", 4000, 60000, genDetect, checkDetect)
	Register("P18", "english", 4000, 60000, genPlanted, checkPlanted)
	Register("P18", "relative", 4000, 60000, genPlantedRelative, checkPlanted)
	Register("P18", "relative to the text", 4000, 60000, genPlantedBase, checkPlanted)
	Register("P18", "clocks", 3000, 45000, genPlantedClock, checkPlanted)
	Register("P18", "forms", 4000, 60000, genPlantedForm, checkPlanted)
	Register("P18", "languages", 4000, 60000, genPlantedLocal, checkPlanted)
}

var plainSpaces = strings.NewReplacer("\u202f", " ", "\u00a0", " ")

// genPlantedForm plants dates in the written forms of languages.
func genPlantedForm(g *G) Planted {
	p := Planted{Class: "forms, "}
	forms := refForms()
	for p.Lang == "" || noWordSpacing[langOf(p.Lang)] || langOf(p.Lang) == "ko" || len(forms[p.Lang]) == 0 {
		p.Lang = pick(g, sortedKeys(forms))
	}
	p.NoDetection = g.P(50) || p.Lang != langOf(p.Lang)
	setNow(&p.Cfg, g.Now(1900, 2100))
	p.Cfg.Strict = g.P(20)
	n := g.many(3)
	for i := 0; i < n; i++ {
		w := LocalDate{Locale: p.Lang, Style: pick(g, forms[p.Lang]).Style}
		c := g.YMD(1900, 2100)
		w.Y, w.M, w.D = c.Y, c.M, c.D
		w.Hour, w.Min, w.Sec = g.N(24), g.N(60), g.N(60)
		f := w.form()
		if w.hard() || strings.HasPrefix(w.Style, "month") || f.Months[w.M-1] == "" || f.Days != nil && f.Days[w.weekday()] == "" {
			continue
		}
		text, words := w.text(), f.Months[w.M-1]
		if f.Days != nil {
			words += "," + f.Days[w.weekday()]
		}
		if f.AmPm != nil {
			words += "," + f.AmPm[w.Hour/12]
		}
		// A point ends the sentence, and words are found as they stand between spaces
		halfFirst := f.AmPm != nil && strings.Index(f.Pattern, "{dayPeriod}") < strings.Index(f.Pattern, "{hour}")
		if strings.ContainsAny(text, ".-") || strings.ContainsAny(words, " \u00a0\u202f’") || halfFirst {
			continue
		}
		want := time.Date(w.Y, time.Month(w.M), w.D, 0, 0, 0, 0, time.UTC)
		if strings.HasSuffix(w.Style, "clock") {
			want = want.Add(time.Duration(w.Hour*3600+w.Min*60) * time.Second)
			if strings.Contains(f.Pattern, "second") {
				want = want.Add(time.Duration(w.Sec) * time.Second)
			}
		}
		p.Dates = append(p.Dates, PlantedDate{plainSpaces.Replace(text), wall(want), ""})
	}
	g.plant(&p, madeUp)
	return p
}
