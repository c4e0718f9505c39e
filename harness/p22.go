package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"slices"
	"time"

	dps "github.com/markusmobius/go-dateparser"
)

const sentinel = "\x00spare"

// spare copies a list into a bigger array whose spare places are marked, so that anything that
// writes beyond the list is noticed.
func spare(list []string) []string {
	if list == nil {
		return nil
	}
	out := make([]string, len(list), len(list)+4)
	copy(out, list)
	full := out[:cap(out)]
	for i := len(list); i < len(full); i++ {
		full[i] = sentinel
	}
	return out
}

func lists(cfg *dps.Configuration, formats []string) map[string][]string {
	return map[string][]string{"Locales": cfg.Locales, "Languages": cfg.Languages, "DefaultLanguages": cfg.DefaultLanguages,
		"RequiredParts": cfg.RequiredParts, "SkipTokens": cfg.SkipTokens, "formats": formats}
}

// image describes every field of a configuration, with the spare places of its lists.
func image(cfg *dps.Configuration, formats []string) string {
	all := map[string]any{"formats": formats[:cap(formats)]}
	v := reflect.ValueOf(*cfg)
	for i := 0; i < v.NumField(); i++ {
		f, name := v.Field(i), v.Type().Field(i).Name
		switch x := f.Interface().(type) {
		case []string:
			all[name] = []any{len(x), x == nil, x[:cap(x)]}
		case time.Time:
			all[name] = x.Format(time.RFC3339Nano) + x.Location().String()
		case *time.Location:
			all[name] = fmt.Sprintf("%p", x)
		default:
			if f.Kind() == reflect.Func {
				all[name] = f.Pointer()
			} else {
				all[name] = x
			}
		}
	}
	bt, err := json.Marshal(all)
	must(err)
	return string(bt)
}

// Pure is a call that is repeated with the same arguments.
type Pure struct {
	Call  Call
	Class string
}

func (g *G) validCall() (Call, string) {
	c, class := g.anyCall()
	c.Cfg.DayPref, c.Cfg.MonthPref, c.Cfg.Source = c.Cfg.DayPref%3, c.Cfg.MonthPref%3, c.Cfg.Source%3
	if g.P(85) && c.Cfg.Required != nil {
		c.Cfg.Required = [][]string{{"day"}, {"Month"}, {"year", "DAY"}}[g.N(3)]
	}
	// Mostly dates, since other texts don't get far
	if g.P(70) && c.Op != "poptz" {
		l := pick(g, refLocales())
		if len(c.Cfg.Locales) == 1 {
			l = c.Cfg.Locales[0]
			if g.P(20) {
				c.Cfg.Locales = append(c.Cfg.Locales, pick(g, refLocales()))
			}
		}
		c.Raw = nil
		c.Text, class = g.localText(l)
		if c.Op == "searchlang" {
			c.Lang = l
		}
		if g.P(20) {
			c.Text, class = genAbsolute(g).Text, "English"
		}
		if g.P(20) {
			c.Text += pick(g, []string{" 10:30", " EST", " 10:30 +0300", " 5 pm"})
		}
		class = c.Op + ", " + class
	}
	return c, class
}

func genPure(g *G) Pure {
	c, class := g.validCall()
	if g.P(30) {
		c.Cfg.DefaultLangs = []string{pick(g, someLangs), pick(g, someLangs)}
	}
	if g.P(30) && c.Cfg.Skip == nil {
		c.Cfg.Skip = []string{"t", "of", "le"}
	}
	return Pure{c, class}
}

func checkPure(p Pure) Result {
	cfg := p.Call.Cfg.build()
	for _, l := range []*[]string{&cfg.Locales, &cfg.Languages, &cfg.DefaultLanguages, &cfg.RequiredParts, &cfg.SkipTokens, &p.Call.Formats} {
		*l = spare(*l)
	}
	before := image(cfg, p.Call.Formats)
	parser := &dps.Parser{}
	for _, t := range p.Call.Types {
		parser.ParserTypes = append(parser.ParserTypes, dps.ParserType(t))
	}
	types := slices.Clone(parser.ParserTypes)
	first := p.Call.onCfg(parser, cfg)
	if after := image(cfg, p.Call.Formats); after != before {
		return bad("%s %q changed its arguments from %s to %s", p.Call.Op, p.Call.text(), before, after)
	}
	if len(types) > 0 && !slices.Equal(types, parser.ParserTypes) {
		return bad("%s %q changed the parser types from %v to %v", p.Call.Op, p.Call.text(), types, parser.ParserTypes)
	}
	// The same objects give the same result again, also when the caller reuses its lists for other things in between
	second := p.Call.onCfg(parser, cfg)
	for name, l := range lists(cfg, p.Call.Formats) {
		_ = name
		for i := range l {
			l[i] = "xx"
		}
	}
	third := p.Call.onCfg(parser, p.Call.Cfg.build())
	if !p.Call.Cfg.now().IsZero() || first.Out.Err {
		if first.key() != second.key() {
			return bad("%s %q gives %s first and %s then", p.Call.Op, p.Call.text(), first.key(), second.key())
		}
		if len(p.Call.Formats) == 0 && first.key() != third.key() {
			return bad("%s %q gives %s first and %s after its lists are changed", p.Call.Op, p.Call.text(), first.key(), third.key())
		}
	}
	if first.Out.Err || first.Texts == nil && first.Out.Time == "" {
		return trivial("no date")
	}
	return ok(p.Class)
}

// CloneCase is a configuration to clone.
type CloneCase struct {
	Cfg  Cfg
	Text string
}

func genClone(g *G) CloneCase {
	c := CloneCase{}
	l := pick(g, refLocales())
	c.Cfg = g.anyCfg()
	c.Text, _ = g.localText(l)
	if g.Bool() {
		c.Cfg.Locales = []string{l}
	}
	if g.Bool() {
		c.Cfg.Skip, c.Cfg.Required, c.Cfg.DefaultLangs = []string{"t", "x"}, []string{"day"}, []string{"en"}
	}
	return c
}

func checkClone(c CloneCase) Result {
	cfg := c.Cfg.build()
	before := image(cfg, nil)
	clone := cfg.Clone()
	if clone == cfg {
		return bad("the clone is the same object")
	}
	va, vb := reflect.ValueOf(*cfg), reflect.ValueOf(*clone)
	set := 0
	for i := 0; i < va.NumField(); i++ {
		a, b, name := va.Field(i), vb.Field(i), va.Type().Field(i).Name
		if !a.IsZero() {
			set++
		}
		if a.Kind() == reflect.Func {
			if a.IsNil() != b.IsNil() || !a.IsNil() && a.Pointer() != b.Pointer() {
				return bad("clone has other %s", name)
			}
			continue
		}
		if !reflect.DeepEqual(a.Interface(), b.Interface()) && !(a.Kind() == reflect.Slice && a.Len() == 0 && b.Len() == 0) {
			return bad("clone has %s %v, want %v", name, b.Interface(), a.Interface())
		}
	}
	if !c.Cfg.now().IsZero() {
		x := toOut((&dps.Parser{}).Parse(cfg, c.Text))
		y := toOut((&dps.Parser{}).Parse(clone, c.Text))
		if x != y {
			return bad("%q gives %s, but %s with a clone", c.Text, x, y)
		}
	}
	for _, l := range lists(clone, nil) {
		for i := range l {
			l[i] = "changed"
		}
	}
	*clone = dps.Configuration{}
	if after := image(cfg, nil); after != before {
		return bad("changing the clone changes the original from %s to %s", before, after)
	}
	return ok(fmt.Sprintf("%d fields", set))
}

func init() {
	Register("P22", "arguments", 8000, 80000, genPure, checkPure)
	Register("P22", "clone", 10000, 100000, genClone, checkClone)
}
