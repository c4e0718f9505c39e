package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

// Selection is a parse whose locale is chosen by the configuration.
type Selection struct {
	Cfg       Cfg
	Text      string
	Detect    []string          `json:",omitempty"` // result of the detection function
	HasDetect bool              `json:",omitempty"`
	PerLocale map[string]string `json:",omitempty"` // date order of each locale
	Kind      string
}

func langOf(locale string) string {
	parts := strings.Split(locale, "-")
	last := parts[len(parts)-1]
	if len(parts) > 1 && strings.ToUpper(last) == last {
		return strings.Join(parts[:len(parts)-1], "-")
	}
	return locale
}

// localText writes a date in the language of a locale.
func (g *G) localText(locale string) (string, string) {
	c := g.YMD(1900, 2100)
	switch g.N(6) {
	case 0:
		return fmt.Sprintf("%02d/%02d/%d", 1+g.N(12), 1+g.N(12), c.Y), "numeric"
	case 1:
		rel := refRel()[locale]
		if len(rel) > 0 {
			return pick(g, sortedKeys(rel)), "relative"
		}
	case 2:
		rx := refRelRx()[locale]
		if len(rx) > 0 {
			r := pick(g, rx)
			p := Phrase{Locale: locale, Pattern: r[0], English: r[1], Num: fmt.Sprint(1 + g.Small(99)), Alt: g.N(2)}
			s, _ := p.text()
			return s, "amount"
		}
	case 3:
		w := pick(g, sortedKeys(refNames()[locale]))
		if weekdayIndex(refNames()[locale][w]) >= 0 {
			return w, "weekday"
		}
		return fmt.Sprintf("%s %d", w, c.Y), "month year"
	}
	w := pick(g, sortedKeys(refNames()[locale]))
	if monthIndex(refNames()[locale][w]) > 0 {
		if g.Bool() {
			return fmt.Sprintf("%d %s %d", c.D, w, c.Y), "date"
		}
		return fmt.Sprintf("%s %d, %d", w, c.D, c.Y), "date"
	}
	return fmt.Sprintf("%s %d %s %d", w, c.D, pick(g, sortedKeys(refNames()[locale])), c.Y), "weekday date"
}

var someLangs = []string{"en", "es", "de", "ja", "fr", "pt", "ru", "it", "nl", "pl", "zh", "ar", "sv", "vi", "hu", "fi", "ko", "th", "uk", "bg", "sr", "sr-Latn", "zh-Hant", "uz", "uz-Cyrl", "az", "hr", "da", "nb", "fil"}

func genSelection(g *G) Selection {
	s := Selection{}
	locale := pick(g, refLocales())
	if g.P(40) {
		locale = pick(g, someLangs)
	}
	s.Text, s.Kind = g.localText(locale)
	if g.P(5) {
		s.Text, s.Kind = pick(g, []string{"qqq 12 zzz", "hello world", "12th of never", "----", "a", "1 2"}), "junk"
	}
	s.Cfg.Now = g.Now(1990, 2040).Format(time.RFC3339)
	s.Cfg.GivenOrder = g.Bool()
	langs := sortedKeys(refRanks().Languages)
	lang := func() string {
		switch g.N(4) {
		case 0:
			return pick(g, langs)
		case 1, 2:
			return langOf(locale)
		default:
			return pick(g, someLangs)
		}
	}

	n := g.Range(1, 5)
	switch g.N(10) {
	case 0, 1, 2, 3: // locales
		for i := 0; i < n; i++ {
			switch g.N(6) {
			case 0, 1:
				s.Cfg.Locales = append(s.Cfg.Locales, locale)
			case 3:
				s.Cfg.Locales = append(s.Cfg.Locales, lang())
			default:
				s.Cfg.Locales = append(s.Cfg.Locales, pick(g, refLocales()))
			}
		}
		if g.P(10) {
			s.Cfg.Locales = append(s.Cfg.Locales, pick(g, []string{"xx", "en-XX", "EN", "", "en_US", "fr-fr"}))
		}
		if g.P(20) { // ignored, because there are locales
			s.Cfg.Languages, s.Cfg.Region = []string{pick(g, langs)}, "US"
		}
	case 4, 5, 6, 7: // languages
		for i := 0; i < n; i++ {
			s.Cfg.Languages = append(s.Cfg.Languages, lang())
		}
		if g.P(8) {
			s.Cfg.Languages = append(s.Cfg.Languages, pick(g, []string{"xx", "EN", "", "en-US"}))
		}
		if g.P(50) {
			s.Cfg.Region = pick(g, []string{"US", "gb", " CH", "be", "FR", "XX", "AF", "ca ", "BR", "001", "IN", "ZA"})
			if i := strings.LastIndex(locale, "-"); i > 0 && g.P(60) {
				s.Cfg.Region = locale[i+1:]
			}
		}
	default: // detected languages
		s.HasDetect = true
		for i := 0; i < n; i++ {
			s.Detect = append(s.Detect, lang())
		}
		if g.P(8) {
			s.Detect = append(s.Detect, "xx")
		}
		if g.P(30) {
			s.Cfg.Region = pick(g, []string{"US", "GB", "CH", "FR"})
		}
	}
	if g.P(20) && !s.HasDetect {
		s.HasDetect = true // not used
		s.Detect = []string{pick(g, langs)}
	}
	if g.P(25) {
		s.Cfg.DefaultLangs = []string{pick(g, someLangs)}
		if g.P(40) {
			s.Cfg.DefaultLangs = append(s.Cfg.DefaultLangs, pick(g, langs))
		}
	}
	if g.P(50) {
		s.PerLocale = map[string]string{"en": pick(g, sixOrders), locale: pick(g, sixOrders)}
	}
	return s
}

// genAllLanguages leaves the choice to the order of all languages.
func genAllLanguages(g *G) Selection {
	s := Selection{}
	locale := pick(g, refLocales())
	s.Text, s.Kind = g.localText(locale)
	s.Cfg.Now = g.Now(1990, 2040).Format(time.RFC3339)
	if g.P(30) {
		s.Cfg.Region = pick(g, []string{"US", "gb", "CH", "FR", "DZ", "001", "XX"})
		if i := strings.LastIndex(locale, "-"); i > 0 {
			s.Cfg.Region = locale[i+1:]
		}
	}
	if g.P(30) {
		s.HasDetect = true // nothing is detected
	}
	return s
}

func (s Selection) build() *dps.Configuration {
	cfg := s.Cfg.build()
	if s.PerLocale != nil {
		cfg.DateOrder = func(l string) string { return s.PerLocale[l] }
	}
	return cfg
}

// selected is the model: the locales that a configuration stands for, in their order.
func selected(locales, languages []string, region string, given bool) ([]string, error) {
	ranks := refRanks()
	var out []string
	add := func(l string) {
		if !slices.Contains(out, l) {
			out = append(out, l)
		}
	}
	if len(locales) > 0 {
		used := map[string]string{}
		for _, l := range locales {
			if _, known := refOrders()[l]; !known {
				return nil, fmt.Errorf("unknown locale")
			}
			if prev, exist := used[langOf(l)]; exist && prev != l {
				return nil, fmt.Errorf("conflicting locales")
			}
			used[langOf(l)] = l
			add(l)
		}
	} else {
		if len(languages) == 0 {
			languages = sortedKeys(ranks.Languages)
			sort.SliceStable(languages, func(i, j int) bool { return ranks.Languages[languages[i]] < ranks.Languages[languages[j]] })
		}
		region = strings.ToUpper(strings.TrimSpace(region))
		for _, l := range languages {
			if _, known := ranks.Languages[l]; !known {
				return nil, fmt.Errorf("unknown language")
			}
			if region != "" {
				l += "-" + region
			}
			if _, known := refOrders()[l]; known {
				add(l)
			}
		}
	}
	if !given {
		sort.SliceStable(out, func(i, j int) bool {
			a, b := ranks.Locales[out[i]], ranks.Locales[out[j]]
			if a != b {
				return a < b
			}
			return out[i] < out[j]
		})
	}
	return out, nil
}

// single parses the text with one locale only.
func (s Selection) single(locale string) (date.Date, error) {
	cfg := s.build()
	cfg.Locales, cfg.Languages, cfg.Region = []string{locale}, nil, ""
	cfg.DefaultLanguages, cfg.TryPreviousLocales, cfg.UseGivenOrder = nil, false, false
	return (&dps.Parser{}).Parse(cfg, s.Text)
}

func checkSelection(s Selection) Result {
	p := &dps.Parser{}
	calls := 0
	if s.HasDetect {
		p.DetectLanguagesFunction = func(string) []string { calls++; return s.Detect }
	}
	d, err := p.Parse(s.build(), s.Text)

	languages := s.Cfg.Languages
	detects := s.HasDetect && len(s.Cfg.Locales) == 0 && len(languages) == 0
	if detects {
		languages = s.Detect
	}
	if (calls > 0) != detects {
		return bad("detection function called %d times, want detection: %v", calls, detects)
	}
	locales, selErr := selected(s.Cfg.Locales, languages, s.Cfg.Region, s.Cfg.GivenOrder)
	if selErr != nil {
		if err == nil {
			return bad("%q: want error because of %v, got %s", s.Text, selErr, d.Time)
		}
		return ok(selErr.Error())
	}

	for i, l := range locales {
		want, wantErr := s.single(l)
		if wantErr != nil {
			continue
		}
		if want.Locale != l {
			return bad("%q with locale %s: result has locale %q", s.Text, l, want.Locale)
		}
		if got := toOut(d, err); got != toOut(want, nil) {
			return bad("%q with %v: want %s, got %s (%v)", s.Text, locales[:min(len(locales), 30)], toOut(want, nil), got, err)
		}
		if len(locales) > 1 {
			if i > 0 {
				return ok(s.Kind + ", later locale")
			}
			return ok(s.Kind + ", first locale")
		}
		return trivial(s.Kind + ", only locale")
	}

	if len(s.Cfg.DefaultLangs) > 0 {
		// They are tried at last, even though their vocabulary doesn't have every word
		defaults, defErr := selected(nil, s.Cfg.DefaultLangs, s.Cfg.Region, s.Cfg.GivenOrder)
		if defErr != nil {
			return Result{Skip: true}
		}
		if err == nil {
			if !slices.Contains(defaults, d.Locale) {
				return bad("%q: locale %s is none of %v or the default %v", s.Text, d.Locale, locales, defaults)
			}
			if want, wantErr := s.single(d.Locale); wantErr == nil && toOut(want, nil) != toOut(d, nil) {
				return bad("%q with default %s: want %s, got %s", s.Text, d.Locale, toOut(want, nil), toOut(d, err))
			}
		}
		for _, l := range defaults {
			if want, wantErr := s.single(l); wantErr == nil {
				if err != nil {
					return bad("%q with default %v: want %s, got error %v", s.Text, defaults, toOut(want, nil), err)
				}
				if l == defaults[0] && toOut(want, nil) != toOut(d, err) {
					return bad("%q with default %v: want %s, got %s", s.Text, defaults, toOut(want, nil), toOut(d, err))
				}
				return ok(s.Kind + ", default language")
			}
		}
		return trivial("not parsed, default language")
	}
	if err == nil {
		return bad("%q with %v: want error, got %s", s.Text, locales[:min(len(locales), 30)], toOut(d, nil))
	}
	return trivial("not parsed")
}

// KnownCase is a code that may or may not be one of a locale.
type KnownCase struct{ Code string }

func genKnown(g *G) KnownCase {
	l := pick(g, refLocales())
	switch g.N(6) {
	case 0:
		return KnownCase{l}
	case 1:
		return KnownCase{pick(g, sortedKeys(refRanks().Languages))}
	case 2:
		return KnownCase{langOf(l) + "-" + pick(g, []string{"US", "GB", "FR", "XX", "001", "CH"})}
	case 3:
		return KnownCase{strings.ToLower(l)}
	case 4:
		return KnownCase{strings.ReplaceAll(l, "-", "_")}
	default:
		return KnownCase{pick(g, []string{" " + l, l + "-", l + "x", l[:1], strings.ToUpper(l), ""})}
	}
}

func checkKnown(k KnownCase) Result {
	_, want := refOrders()[k.Code]
	if got := dps.IsKnownLocale(k.Code); got != want {
		return bad("IsKnownLocale(%q) = %v", k.Code, got)
	}
	cfg := &dps.Configuration{Locales: []string{k.Code}, CurrentTime: time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)}
	_, err := dps.Parse(cfg, "2015-10-10")
	if (err == nil) != want {
		return bad("Parse with locale %q: %v", k.Code, err)
	}
	_, isLang := refRanks().Languages[k.Code]
	_, err = dps.Parse(&dps.Configuration{Languages: []string{k.Code}}, "2015-10-10")
	if (err == nil) != isLang {
		return bad("Parse with language %q: %v", k.Code, err)
	}
	if want {
		return ok("known")
	}
	return ok("unknown")
}

func listKnown() (out []KnownCase) {
	for _, l := range refLocales() {
		out = append(out, KnownCase{l})
	}
	return
}

func init() {
	Register("P15", "selection", 60000, 600000, genSelection, checkSelection)
	Register("P15", "all languages", 4000, 40000, genAllLanguages, checkSelection)
	Register("P15", "known", 6000, 40000, genKnown, checkKnown)
	RegisterList("P15", "every locale", 1, listKnown, checkKnown)
}
