package main

import (
	"fmt"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

// Stamp is a Unix timestamp.
type Stamp struct {
	Cfg     Cfg
	Text    string
	Types   []int
	Seconds int64
	Nanos   int64
	Valid   bool
	Class   string
}

func (g *G) digits(n int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteByte(byte('0' + g.N(10)))
	}
	return sb.String()
}

func genStamp(g *G) Stamp {
	s := Stamp{Valid: true}
	setNow(&s.Cfg, g.Now(1900, 2200))
	s.Cfg.NowZone = g.zoneAny()
	if g.P(40) {
		s.Cfg.DefTZ = g.zoneAny()
	}
	s.Cfg.TimePeriod = g.P(40)
	s.Cfg.Source, s.Cfg.DayPref, s.Cfg.MonthPref = g.N(3), g.N(3), g.N(3)
	s.Cfg.Strict = g.P(20)
	switch g.N(3) {
	case 0:
		s.Cfg.Locales = []string{pick(g, refLocales())}
	case 1:
		s.Cfg.Languages = []string{"en"}
	default:
		s.Cfg.Languages = []string{pick(g, []string{"fr", "ru", "zh", "ar", "th"}), pick(g, []string{"de", "es", "hi"})}
	}
	sec := g.digits(10)
	if g.P(40) {
		sec = fmt.Sprintf("%010d", 1_000_000_000+g.N(1_000_000_000))
	}
	fmt.Sscan(strings.TrimLeft(sec, "0")+" ", &s.Seconds)
	s.Text, s.Class = sec, "seconds"
	switch g.N(3) {
	case 0:
		ms := g.digits(3)
		var n int64
		fmt.Sscanf(ms, "%d", &n)
		s.Nanos = n * 1_000_000
		s.Text, s.Class = sec+ms, "milliseconds"
	case 1:
		us := g.digits(6)
		var n int64
		fmt.Sscanf(us, "%d", &n)
		s.Nanos = n * 1000
		s.Text, s.Class = sec+us, "microseconds"
	}
	if g.P(25) && s.Nanos == 0 {
		s.Text = "-" + s.Text
		s.Seconds = -s.Seconds
		s.Class = "negative " + s.Class
	}
	if g.P(10) {
		s.Text += "." + g.digits(g.N(3)) // a fraction is cut
		s.Class += " fraction"
	}
	if g.P(25) {
		s.Types = []int{int(dps.Timestamp), int(dps.NegativeTimestamp)}
	}
	return s
}

// genNotStamp draws numbers of other lengths, with only the timestamp parsers enabled.
func genNotStamp(g *G) Stamp {
	s := Stamp{Cfg: Cfg{Languages: []string{"en"}}, Class: "not a timestamp"}
	setNow(&s.Cfg, g.Now(1900, 2200))
	s.Types = []int{int(dps.Timestamp), int(dps.NegativeTimestamp)}
	switch g.N(4) {
	case 0:
		n := g.Range(1, 22)
		for n == 10 || n == 13 || n == 16 {
			n = g.Range(1, 22)
		}
		s.Text = pick(g, []string{"", "-"}) + g.digits(n)
	case 1: // each parser only takes its own sign
		if g.Bool() {
			s.Text, s.Types = g.digits(10), []int{int(dps.NegativeTimestamp)}
		} else {
			s.Text, s.Types = "-"+g.digits(10), []int{int(dps.Timestamp)}
		}
	case 2: // in the middle of other text
		s.Text = pick(g, []string{"at ", "12 ", "x", "+", "1-"}) + g.digits(10)
	default:
		s.Text = g.digits(10) + pick(g, []string{"th", "-", ":00", "pm", "/1"})
	}
	return s
}

func checkStamp(s Stamp) Result {
	p := &dps.Parser{}
	for _, t := range s.Types {
		p.ParserTypes = append(p.ParserTypes, dps.ParserType(t))
	}
	d, err := p.Parse(s.Cfg.build(), s.Text)
	if !s.Valid {
		if err == nil {
			return bad("%q with types %v isn't a timestamp, got %s", s.Text, s.Types, d.Time.UTC())
		}
		return ok(s.Class)
	}
	want := time.Unix(s.Seconds, s.Nanos)
	if err != nil {
		return bad("%q: want %s, got error %v", s.Text, want.UTC(), err)
	}
	if !d.Time.Equal(want) {
		return bad("%q: want %s, got %s", s.Text, want.UTC().Format(time.RFC3339Nano), d.Time.UTC().Format(time.RFC3339Nano))
	}
	period := date.Day
	if s.Cfg.TimePeriod {
		period = date.Second
	}
	if d.Period != period {
		return bad("%q: want period %s, got %s", s.Text, period, d.Period)
	}
	if len(s.Cfg.Locales) == 1 && d.Locale != s.Cfg.Locales[0] {
		return bad("%q: locale %q of %v", s.Text, d.Locale, s.Cfg.Locales)
	}
	return ok(s.Class)
}

func init() {
	Register("P12", "timestamps", 16000, 200000, genStamp, checkStamp)
	Register("P12", "not timestamps", 6000, 60000, genNotStamp, checkStamp)
}
