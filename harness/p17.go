package main

import (
	"fmt"
	"slices"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
)

// SearchCase is a search whose language is chosen by the configuration.
type SearchCase struct {
	Cfg       Cfg
	Text      string
	Detect    []string `json:",omitempty"`
	HasDetect bool     `json:",omitempty"`
}

// searchText mixes dates of some languages with words.
func (g *G) searchText(locale string) string {
	sb := strings.Builder{}
	for i := g.Range(1, 6); i > 0; i-- {
		switch g.N(6) {
		case 0:
			sb.WriteString(g.filler(fillers))
		case 1:
			sb.WriteString(pick(g, junkWords))
		case 2:
			sb.WriteString(genAbsolute(g).Text)
		default:
			s, _ := g.localText(locale)
			sb.WriteString(s)
		}
		sb.WriteString(pick(g, []string{" ", " ", ", ", ". ", "\n", "! ", "; ", " - ", " ¿", "。"}))
	}
	return sb.String()
}

func genSearchCase(g *G) SearchCase {
	s := SearchCase{}
	setNow(&s.Cfg, g.Now(1900, 2100))
	locale := pick(g, refLocales())
	if g.P(40) {
		locale = pick(g, someLangs)
	}
	s.Text = g.searchText(locale)
	n := g.Range(1, 4)
	switch g.N(8) {
	case 0, 1:
		for i := 0; i < n; i++ {
			s.Cfg.Locales = append(s.Cfg.Locales, pick(g, []string{locale, pick(g, refLocales()), pick(g, someLangs)}))
		}
	case 2, 3, 4, 5:
		for i := 0; i < n; i++ {
			s.Cfg.Languages = append(s.Cfg.Languages, pick(g, []string{langOf(locale), langOf(locale), pick(g, sortedKeys(refRanks().Languages)), pick(g, someLangs)}))
		}
	default:
		s.HasDetect = true
		for i := 0; i < n; i++ {
			s.Detect = append(s.Detect, pick(g, []string{langOf(locale), pick(g, someLangs)}))
		}
	}
	if g.P(6) {
		s.Cfg.Languages = append(s.Cfg.Languages, pick(g, []string{"xx", "", "EN"}))
	}
	if g.P(6) {
		s.Cfg.Locales = append(s.Cfg.Locales, pick(g, []string{"xx", "en-XX", "EN"}))
	}
	if g.P(20) {
		s.Cfg.DefaultLangs = []string{pick(g, someLangs)}
	}
	if g.P(15) {
		s.HasDetect = true
		s.Detect = []string{"fr"}
	}
	s.Cfg.GivenOrder = g.Bool()
	s.Cfg.Strict = g.P(15)
	s.Cfg.Source = g.N(3)
	return s
}

func checkSearchCase(s SearchCase) Result {
	p := &dps.Parser{}
	if s.HasDetect {
		p.DetectLanguagesFunction = func(string) []string { return slices.Clone(s.Detect) }
	}
	lang, res, err := p.Search(s.Cfg.build(), s.Text)

	allowed := slices.Clone(s.Cfg.Languages)
	if len(allowed) == 0 && s.HasDetect {
		allowed = s.Detect
	}
	if len(s.Cfg.Locales) > 0 {
		allowed = nil
		for _, l := range s.Cfg.Locales {
			allowed = append(allowed, langOf(l))
		}
	}
	for _, l := range s.Cfg.Locales {
		if _, known := refOrders()[l]; !known {
			return unknownSearch("locale", l, s, err)
		}
	}
	if len(s.Cfg.Locales) == 0 {
		for _, l := range allowed {
			if _, known := refRanks().Languages[l]; !known {
				return unknownSearch("language", l, s, err)
			}
		}
	}
	if err != nil {
		if len(res) > 0 {
			return bad("search %q: %d results together with error %v", s.Text, len(res), err)
		}
		if len(s.Cfg.DefaultLangs) > 0 {
			return bad("search %q: want default language %v, got error %v", s.Text, s.Cfg.DefaultLangs, err)
		}
		return trivial("language not detected")
	}
	if !slices.Contains(allowed, lang) && !(len(s.Cfg.DefaultLangs) > 0 && lang == s.Cfg.DefaultLangs[0]) {
		return bad("search %q: language %s isn't one of %v", s.Text, lang, allowed)
	}
	if f := searchContract(lang, s.Text, res); f != "" {
		return bad("%s", f)
	}

	// The same as the search in this language
	want, err := (&dps.Parser{}).SearchWithLanguage(s.Cfg.build(), lang, s.Text)
	if err != nil {
		return bad("search in %s %q: %v", lang, s.Text, err)
	}
	if a, b := searchOuts(res), searchOuts(want); a != b {
		return bad("search %q: found %s, but in language %s %s", s.Text, a, lang, b)
	}
	if len(res) == 0 {
		return trivial("nothing found")
	}
	return ok("found")
}

func unknownSearch(what, l string, s SearchCase, err error) Result {
	if err == nil {
		return bad("search %q with unknown %s %q has no error", s.Text, what, l)
	}
	return ok("unknown " + what)
}

func searchOuts(res []dps.SearchResult) string {
	sb := strings.Builder{}
	for _, r := range res {
		fmt.Fprintf(&sb, "[%q %s]", r.Text, toOut(r.Date, nil))
	}
	return sb.String()
}

// Parts are texts that are searched one by one and together.
type Parts struct {
	Cfg   Cfg
	Lang  string
	Texts []string
}

func genParts(g *G) Parts {
	p := Parts{Lang: "en"}
	setNow(&p.Cfg, g.Now(1900, 2100))
	p.Cfg.Source, p.Cfg.DayPref = g.N(3), g.N(3)
	p.Cfg.Strict = g.P(10)
	if g.P(70) {
		p.Lang = pick(g, refLocales())
	}
	for i := g.Range(2, 4); i > 0; i-- {
		// A sentence isn't ended by a number or an abbreviation
		p.Texts = append(p.Texts, g.searchText(p.Lang)+" xqz")
	}
	return p
}

func checkParts(p Parts) Result {
	var want []dps.SearchResult
	for _, t := range p.Texts {
		res, err := (&dps.Parser{}).SearchWithLanguage(p.Cfg.build(), p.Lang, t)
		if err != nil {
			return bad("search %s %q: %v", p.Lang, t, err)
		}
		want = append(want, res...)
	}
	text := strings.Join(p.Texts, "\n\n")
	got, err := (&dps.Parser{}).SearchWithLanguage(p.Cfg.build(), p.Lang, text)
	if err != nil {
		return bad("search %s %q: %v", p.Lang, text, err)
	}
	if a, b := searchOuts(got), searchOuts(want); a != b {
		return bad("search %s %q: found %s, but in its paragraphs %s", p.Lang, text, a, b)
	}
	if len(got) == 0 {
		return trivial("nothing found")
	}
	return ok("found")
}

// NoDates is a text without any date.
type NoDates struct {
	Cfg        Cfg
	Lang, Text string
}

func genNoDates(g *G) NoDates {
	n := NoDates{Lang: "en"}
	words := fillers
	if g.P(50) {
		n.Lang, words = pick(g, refLocales()), madeUp
	}
	setNow(&n.Cfg, g.Now(1900, 2100))
	var parts []string
	for i := g.Range(1, 6); i > 0; i-- {
		parts = append(parts, g.filler(words))
	}
	n.Text = strings.Join(parts, pick(g, []string{". ", "! ", "\n", ", ", " - "}))
	return n
}

func checkNoDates(n NoDates) Result {
	res, err := (&dps.Parser{}).SearchWithLanguage(n.Cfg.build(), n.Lang, n.Text)
	if err != nil || len(res) > 0 {
		return bad("search %s %q: %v %v", n.Lang, n.Text, searchOuts(res), err)
	}
	return ok("nothing found")
}

// Incomplete is a text with complete and incomplete dates, for the strict search.
type Incomplete struct {
	Planted
	Required []string
	Strict   bool
}

func genIncomplete(g *G) Incomplete {
	c := Incomplete{Planted: Planted{Lang: "en"}, Strict: g.P(50)}
	setNow(&c.Cfg, g.Now(1900, 2100))
	if !c.Strict || g.P(50) {
		c.Required = pick(g, [][]string{{"day"}, {"year"}, {"month"}, {"day", "year"}, {"Day", "MONTH", "Year"}})
	}
	needs := func(part string) bool {
		return c.Strict || slices.ContainsFunc(c.Required, func(r string) bool { return strings.EqualFold(r, part) })
	}
	sb := strings.Builder{}
	for i := g.Range(1, 4); i > 0; i-- {
		d := g.YMD(1500, 2900)
		mon := monthsLong[d.M-1]
		sb.WriteString(g.filler(fillers) + " ")
		text, want := "", time.Date(d.Y, time.Month(d.M), d.D, 0, 0, 0, 0, time.UTC)
		switch g.N(3) {
		case 0:
			text = fmt.Sprintf("%d %s %d", d.D, mon, d.Y)
		case 1: // no day
			text = fmt.Sprintf("%s %d", mon, d.Y)
			if needs("day") {
				sb.WriteString(text + ". ")
				continue
			}
			want = time.Date(d.Y, time.Month(d.M), min(c.Cfg.now().Day(), dim(d.Y, d.M)), 0, 0, 0, 0, time.UTC)
		default: // no year
			d.D = min(d.D, 28)
			text = fmt.Sprintf("%d %s", d.D, mon)
			if needs("year") {
				sb.WriteString(text + ". ")
				continue
			}
			want = time.Date(c.Cfg.now().Year(), time.Month(d.M), d.D, 0, 0, 0, 0, time.UTC)
		}
		sb.WriteString(text + ". ")
		c.Dates = append(c.Dates, PlantedDate{text, wall(want), ""})
	}
	c.Text = sb.String() + g.filler(fillers)
	c.Cfg.Strict, c.Cfg.Required = c.Strict, c.Required
	return c
}

func checkIncomplete(c Incomplete) Result {
	// Without the dates without spaces: the year of a rejected date can be one of them
	res, err := (&dps.Parser{ParserTypes: []dps.ParserType{dps.RelativeTime, dps.AbsoluteTime}}).SearchWithLanguage(c.Cfg.build(), c.Lang, c.Text)
	if err != nil {
		return bad("search %q: %v", c.Text, err)
	}
	var got, want []string
	for _, r := range res {
		got = append(got, r.Text+" = "+wall(r.Date.Time))
	}
	for _, d := range c.Dates {
		want = append(want, d.Text+" = "+d.Want)
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		return bad("search %q required %v strict %v: want %q, got %q", c.Text, c.Required, c.Strict, want, got)
	}
	return ok(fmt.Sprintf("%d complete", len(want)))
}

func init() {
	Register("P17", "language", 8000, 120000, genSearchCase, checkSearchCase)
	Register("P17", "paragraphs", 5000, 80000, genParts, checkParts)
	Register("P17", "no dates", 4000, 60000, genNoDates, checkNoDates)
	Register("P17", "required parts", 4000, 60000, genIncomplete, checkIncomplete)
}
