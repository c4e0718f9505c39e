package main

import (
	"fmt"
	"strings"
	"sync"
	"time"
	_ "time/tzdata"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

// Cfg is a serializable description of a dateparser configuration.
type Cfg struct {
	Locales      []string `json:",omitempty"`
	Languages    []string `json:",omitempty"`
	Region       string   `json:",omitempty"`
	TryPrevious  bool     `json:",omitempty"`
	GivenOrder   bool     `json:",omitempty"`
	DefaultLangs []string `json:",omitempty"`
	Order        string   `json:",omitempty"`
	Now          string   `json:",omitempty"` // RFC3339Nano wall clock
	NowZone      string   `json:",omitempty"` // IANA name, or "+HHMM"
	DefTZ        string   `json:",omitempty"`
	DayPref      int      `json:",omitempty"`
	MonthPref    int      `json:",omitempty"`
	Source       int      `json:",omitempty"`
	Strict       bool     `json:",omitempty"`
	Required     []string `json:",omitempty"`
	Skip         []string `json:",omitempty"`
	TimePeriod   bool     `json:",omitempty"`
	PreserveEOM  bool     `json:",omitempty"`
}

var locCache sync.Map

func zone(name string) *time.Location {
	if name == "" || name == "UTC" {
		return time.UTC
	}
	if name[0] == '+' || name[0] == '-' {
		var h, m int
		fmt.Sscanf(name[1:], "%02d%02d", &h, &m)
		off := h*3600 + m*60
		if name[0] == '-' {
			off = -off
		}
		return time.FixedZone("X"+name, off)
	}
	if l, exist := locCache.Load(name); exist {
		return l.(*time.Location)
	}
	l, err := time.LoadLocation(name)
	must(err)
	locCache.Store(name, l)
	return l
}

func (c Cfg) now() time.Time {
	if c.Now == "" {
		return time.Time{}
	}
	t, err := time.Parse(time.RFC3339Nano, c.Now)
	must(err)
	return t.In(zone(c.NowZone))
}

func setNow(c *Cfg, t time.Time) { c.Now = t.UTC().Format(time.RFC3339Nano) }

func fixedOrder(o string) dps.DateOrder { return func(string) string { return o } }

func (c Cfg) build() *dps.Configuration {
	cfg := &dps.Configuration{
		Locales:              c.Locales,
		Languages:            c.Languages,
		Region:               c.Region,
		TryPreviousLocales:   c.TryPrevious,
		UseGivenOrder:        c.GivenOrder,
		DefaultLanguages:     c.DefaultLangs,
		CurrentTime:          c.now(),
		PreferredDayOfMonth:  dps.PreferredDayOfMonth(c.DayPref),
		PreferredMonthOfYear: dps.PreferredMonthOfYear(c.MonthPref),
		PreferredDateSource:  dps.PreferredDateSource(c.Source),
		StrictParsing:        c.Strict,
		RequiredParts:        c.Required,
		SkipTokens:           c.Skip,
		ReturnTimeAsPeriod:   c.TimePeriod,
		PreserveEndOfMonth:   c.PreserveEOM,
	}
	if c.DefTZ != "" {
		cfg.DefaultTimezone = zone(c.DefTZ)
	}
	if c.Order != "" {
		cfg.DateOrder = fixedOrder(c.Order)
	}
	return cfg
}

// Out is the observable outcome of a parse.
type Out struct {
	Err    bool
	Time   string
	Zone   string
	Offset int
	Period string
	Locale string
}

func toOut(d date.Date, err error) Out {
	if err != nil {
		return Out{Err: true}
	}
	name, off := d.Time.Zone()
	return Out{Time: d.Time.Format("2006-01-02T15:04:05.999999999"), Zone: name, Offset: off, Period: d.Period.String(), Locale: d.Locale}
}

func (o Out) String() string {
	if o.Err {
		return "error"
	}
	return fmt.Sprintf("%s %s(%+d) period=%s locale=%s", o.Time, o.Zone, o.Offset, o.Period, o.Locale)
}

func parseFresh(c Cfg, s string, formats ...string) (date.Date, error) {
	p := &dps.Parser{}
	return p.Parse(c.build(), s, formats...)
}

const wallFmt = "2006-01-02 15:04:05.999999999"

func wall(t time.Time) string { return t.Format(wallFmt) }

// expectWall compares the wall clock, the offset and the period.
func expectWall(what string, d date.Date, err error, want time.Time, period date.Period) string {
	if err != nil {
		return fmt.Sprintf("%s: want %s, got error %v", what, want.Format(time.RFC3339Nano), err)
	}
	_, wo := want.Zone()
	_, go_ := d.Time.Zone()
	if wall(d.Time) != wall(want) || wo != go_ {
		return fmt.Sprintf("%s: want %s, got %s", what, want.Format(time.RFC3339Nano), d.Time.Format(time.RFC3339Nano))
	}
	if period != date.None && d.Period != period {
		return fmt.Sprintf("%s: want period %s, got %s", what, period, d.Period)
	}
	return ""
}

func verdict(fail, class string) Result {
	if fail != "" {
		return bad("%s", fail)
	}
	return ok(class)
}

func q(s string) string { return fmt.Sprintf("%q", s) }

func join(parts ...string) string { return strings.Join(parts, "") }
