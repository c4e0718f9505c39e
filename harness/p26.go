package main

import (
	"fmt"
	"strings"
	"time"
	"unicode"

	"github.com/markusmobius/go-dateparser/date"
)

// ClockCase is a clock written by the words of a locale for the halves of a day.
type ClockCase struct {
	Locale, Word string
	PM           bool
	H, M, S      int // H is 1-12
	Parts        int // written parts of the clock
	Day          string
	Month        string // name to use in place of the number
	First        bool   // the clock is before the day
	Before       bool   // the word is before the clock
	Tight        bool   // no space between the word and the clock
	DayPeriod    bool   // without ReturnTimeAsPeriod
	Upper        bool
	Now          string
	Class        string
}

func (g *G) clock(c *ClockCase) {
	c.H, c.M, c.S = g.Range(1, 12), g.N(60), g.N(60)
	c.Parts = g.Range(1, 3)
	if g.P(70) {
		d := g.YMD(1600, 2400)
		c.Day = fmt.Sprintf("%04d-%02d-%02d", d.Y, d.M, d.D)
	}
	c.Upper, c.First, c.Tight, c.DayPeriod = g.P(25), g.P(40), g.P(25), g.P(30)
	c.Before = c.Parts > 1 && g.P(30)
	if g.P(30) && c.Day != "" {
		names := refNames()[c.Locale]
		if w := pick(g, sortedKeys(names)); monthIndex(names[w]) > 0 {
			c.Month = w
		}
	}
	c.Now = g.Now(1900, 2100).Format(time.RFC3339)
}

func listClocks() (out []ClockCase) {
	i := 0
	for _, l := range refLocales() {
		words := refAmPm()[l]
		for _, w := range sortedKeys(words) {
			for parts := 1; parts <= 3; parts++ {
				i++
				c := ClockCase{Locale: l, Word: w, PM: words[w] == "pm", H: 1 + i*5%12, M: i * 7 % 60, S: i * 11 % 60, Parts: parts}
				if i%3 > 0 {
					c.Day = fmt.Sprintf("%04d-%02d-%02d", 1970+i%80, 1+i%12, 1+i%28)
				}
				c.Now = "2024-05-17T09:30:12Z"
				out = append(out, c)
				if c.Before = parts > 1; c.Before {
					out = append(out, c)
				}
			}
		}
	}
	return
}

func genClock(g *G) ClockCase {
	var c ClockCase
	for {
		c.Locale = pick(g, refLocales())
		words := refAmPm()[c.Locale]
		if len(words) == 0 {
			continue
		}
		c.Word = pick(g, sortedKeys(words))
		c.PM = words[c.Word] == "pm"
		g.clock(&c)
		return c
	}
}

func checkClock(c ClockCase) Result {
	// Words that also are the word for tomorrow, or hold a number that is parsed by itself
	for _, w := range sortedKeys(refRel()[c.Locale]) {
		if w == c.Word {
			return Result{Skip: true}
		}
	}
	if strings.ContainsFunc(c.Word+c.Month, unicode.IsDigit) || isAmbiguousName(c.Month) {
		return Result{Skip: true}
	}
	word := c.Word
	if c.Upper {
		word = upper(word)
	}
	clock := fmt.Sprintf("%d:%02d:%02d", c.H, c.M, c.S)
	period := date.Second
	h, m, s := c.H%12, c.M, c.S
	switch c.Parts {
	case 2:
		clock, s, period = fmt.Sprintf("%d:%02d", c.H, c.M), 0, date.Minute
	case 1:
		clock, m, s, period = fmt.Sprint(c.H), 0, 0, date.Hour
	}
	if c.PM {
		h += 12
	}
	space := " "
	if c.Tight {
		space = ""
	}
	if c.Before {
		clock = word + space + clock
	} else {
		clock += space + word
	}
	now, err := time.Parse(time.RFC3339, c.Now)
	must(err)
	day := now
	if c.Day != "" {
		day, err = time.Parse("2006-01-02", c.Day)
		must(err)
		if c.Month != "" {
			m := monthIndex(refNames()[c.Locale][c.Month])
			day = time.Date(day.Year(), time.Month(m), min(day.Day(), 28), 0, 0, 0, 0, time.UTC)
		}
	}
	written := c.Day
	if c.Month != "" {
		written = fmt.Sprintf("%04d %s %d", day.Year(), c.Month, day.Day())
	}
	text := written + " " + clock
	if c.First {
		text = clock + " " + written
	}
	text = strings.TrimSpace(text)
	want := time.Date(day.Year(), day.Month(), day.Day(), h, m, s, 0, time.UTC)
	if c.DayPeriod {
		period = date.Day
	}
	d, err := parseFresh(Cfg{Locales: []string{c.Locale}, Order: "YMD", Now: c.Now, TimePeriod: !c.DayPeriod}, text)
	if f := expectWall(fmt.Sprintf("%s %q now %s", c.Locale, text, c.Now), d, err, want, period); f != "" {
		return bad("%s", f)
	}
	class := fmt.Sprintf("%d parts", c.Parts)
	if c.Before {
		class += ", before the clock"
	}
	return ok(class)
}

func init() {
	RegisterList("P26", "every word", 1, listClocks, checkClock)
	Register("P26", "words", 12000, 150000, genClock, checkClock)
}
