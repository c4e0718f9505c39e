package main

import (
	"fmt"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

// jalaliYear gives the Gregorian day of the first day of a Jalali year, from the leap year cycles
// of Borkowski that agree with the observed calendar.
func jalaliYear(y int) time.Time {
	breaks := []int{-61, 9, 38, 199, 426, 686, 756, 818, 1111, 1181, 1210, 1635, 2060, 2097, 2192, 2262, 2324, 2394, 2456, 3178}
	leaps, prev, jump := -14, breaks[0], 0
	for _, b := range breaks[1:] {
		jump = b - prev
		if y < b {
			break
		}
		leaps += jump/33*8 + jump%33/4
		prev = b
	}
	n := y - prev
	leaps += n/33*8 + (n%33+3)/4
	if jump%33 == 4 && jump-n == 4 {
		leaps++
	}
	gy := y + 621
	march := 20 + leaps - (gy/4 - (gy/100+1)*3/4 - 150)
	return time.Date(gy, 3, march, 0, 0, 0, 0, time.UTC)
}

func jalaliDim(y, m int) int {
	leap := jalaliYear(y+1).Sub(jalaliYear(y)) > 365*24*time.Hour
	switch {
	case m <= 6:
		return 31
	case m < 12 || leap:
		return 30
	}
	return 29
}

func jalaliToGregorian(y, m, d int) time.Time {
	start := jalaliYear(y)
	days := d - 1
	for i := 1; i < m; i++ {
		days += jalaliDim(y, i)
	}
	return start.AddDate(0, 0, days)
}

func gregorianToJalali(t time.Time) YMD {
	t = time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
	y := t.Year() - 621
	start := jalaliYear(y)
	if t.Before(start) {
		y--
		start = jalaliYear(y)
	}
	d := int(t.Sub(start).Hours()) / 24
	m := 1
	for d >= jalaliDim(y, m) {
		d -= jalaliDim(y, m)
		m++
	}
	return YMD{y, m, d + 1}
}

var jalaliMonths = [][]string{{"فروردین"}, {"اردیبهشت"}, {"خرداد"}, {"تیر"}, {"مرداد", "امرداد"}, {"شهریور", "شهريور"}, {"مهر"}, {"آبان"}, {"آذر"}, {"دی"}, {"بهمن"}, {"اسفند"}}

// from Saturday
var jalaliWeekdays = [][]string{{"شنبه"}, {"یکشنبه"}, {"دوشنبه"}, {"سه شنبه", "سهشنبه"}, {"چهارشنبه", "چهار شنبه"}, {"پنجشنبه", "پنج شنبه"}, {"جمعه"}}

// ordinals of the days of a month
var jalaliDays = []string{"", "اول", "دوم", "سوم", "چهارم", "پنجم", "ششم", "هفتم", "هشتم", "نهم", "دهم", "یازدهم", "دوازدهم", "سیزدهم", "چهاردهم", "پانزدهم", "شانزدهم", "هفدهم", "هجدهم", "نوزدهم", "بیستم",
	"بیست و یکم", "بیست و دوم", "بیست و سوم", "بیست و چهارم", "بیست و پنجم", "بیست و ششم", "بیست و هفتم", "بیست و هشتم", "بیست و نهم", "سی ام", "سی و یکم"}

// Calendar is a date of a calendar other than the Gregorian one.
type Calendar struct {
	Cfg    Cfg
	Hijri  bool `json:",omitempty"`
	Text   string
	Want   string
	Period string
	Offset int
	Class  string
}

// digitsIn writes the digits of a text in another script.
func digitsIn(s string, zero rune) string {
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return zero + r - '0'
		}
		return r
	}, s)
}

// numericOrder writes a numeric date in the date order of the configuration, which is DMY by default.
func (g *G) numericOrder(c *Cfg, y, m, d int) string {
	order := "DMY"
	switch {
	case g.P(40):
		c.Order = g.Case(pick(g, []string{"DMY", "MDY", "YMD", "YDM", "DYM", "MYD"}))
		order = strings.ToUpper(c.Order)
	case g.P(10):
		c.Order = pick(g, []string{"DD", "DMYY", "XYZ", "DDM"})
	}
	sep := pick(g, []string{"/", "-", ".", " ", "/"})
	if sep == "-" && y < 1300 { // could be an UTC offset
		sep = "/"
	}
	var parts []string
	for _, r := range order {
		switch r {
		case 'D':
			parts = append(parts, fmt.Sprintf(pick(g, []string{"%02d", "%d"}), d))
		case 'M':
			parts = append(parts, fmt.Sprintf(pick(g, []string{"%02d", "%d"}), m))
		default:
			parts = append(parts, fmt.Sprintf("%04d", y))
		}
	}
	return strings.Join(parts, sep)
}

func (g *G) calendarCfg() Cfg {
	c := Cfg{}
	g.anyPrefs(&c)
	setNow(&c, g.Now(1940, 2076))
	c.TimePeriod = g.P(30)
	if g.P(30) {
		c.DefTZ = pick(g, []string{"UTC", "+0330", "-0800", "+1400"})
	}
	if g.P(30) {
		c.NowZone = pick(g, []string{"+0330", "-0800", "+1400"})
	}
	return c
}

func (c *Calendar) zone() {
	c.Offset = 0
	loc := zone(c.Cfg.NowZone)
	if c.Cfg.DefTZ != "" {
		loc = zone(c.Cfg.DefTZ)
	}
	_, c.Offset = time.Date(2000, 1, 1, 0, 0, 0, 0, loc).Zone()
}

// zoneText adds a timezone to a text with time.
func (g *G) zoneText(c *Calendar) {
	if strings.Contains(c.Class, "time") && g.P(20) {
		z := pick(g, []struct {
			text   string
			offset int
		}{{" UTC", 0}, {" +03:30", 12600}, {" UTC+3", 10800}, {" -0500", -18000}, {" EST", -18000}, {" Z", 0}})
		c.Text += z.text
		c.Offset = z.offset
		c.Class += ", zone"
	}
}

func genJalali(g *G) Calendar {
	c := Calendar{Cfg: g.calendarCfg()}
	y := g.Range(1178, 1502)
	switch g.N(5) {
	case 0:
		y = g.Range(1000, 3170)
	case 1, 2:
		y = g.Range(1300, 1460)
	}
	m := g.Range(1, 12)
	d := g.Range(1, jalaliDim(y, m))
	if g.P(15) {
		m, d = 12, jalaliDim(y, 12)
	}
	if g.P(10) {
		m, d = 1, 1
	}
	written := d
	if g.P(5) { // clamped to the last day of the month
		d, written = jalaliDim(y, m), 31
	}
	day := jalaliToGregorian(y, m, d)

	yt := fmt.Sprintf("%04d", y)
	if g.P(30) {
		c.Text, c.Class = g.numericOrder(&c.Cfg, y, m, written), "numeric"
	} else {
		if y >= 1361 && y <= 1460 && g.P(40) {
			yt = fmt.Sprintf("%02d", y%100)
			c.Cfg.Source = 0
			c.Class = "short year, "
		}
		dt := fmt.Sprint(written)
		if g.P(40) {
			dt = jalaliDays[written]
			c.Class += "words"
		} else {
			c.Class += "digits"
		}
		c.Text = dt + " " + pick(g, jalaliMonths[m-1]) + " " + yt
		if g.P(50) {
			c.Text = pick(g, jalaliWeekdays[(int(day.Weekday())+1)%7]) + " " + c.Text
		}
	}
	c.Period = date.Day.String()
	t := day
	if g.P(50) {
		h, mi, s := g.N(24), g.N(60), g.N(60)
		p := date.Second
		switch g.N(4) {
		case 0:
			c.Text += fmt.Sprintf(" %02d:%02d:%02d", h, mi, s)
		case 1:
			c.Text += fmt.Sprintf(" ساعت %d:%02d", h, mi)
			s, p = 0, date.Minute
		case 2:
			c.Text += fmt.Sprintf(" ساعت %02d و %02d دقیقه و %02d ثانیه", h, mi, s)
		default:
			c.Text += fmt.Sprintf(" ساعت %02d و %02d دقیقه", h, mi)
			s, p = 0, date.Minute
		}
		t = t.Add(time.Duration(h*3600+mi*60+s) * time.Second)
		if c.Cfg.TimePeriod {
			c.Period = p.String()
		}
		c.Class += ", time"
	}
	c.Text = g.otherDigits(c.Text)
	c.Want = wall(t)
	c.zone()
	g.zoneText(&c)
	return c
}

func (g *G) otherDigits(s string) string {
	switch g.N(4) {
	case 0:
		return digitsIn(s, '۰')
	case 1:
		return digitsIn(s, '٠')
	}
	return s
}

func (c Calendar) parse() (date.Date, error) {
	if c.Hijri {
		return dps.ParseHijri(c.Cfg.build(), c.Text)
	}
	return dps.ParseJalali(c.Cfg.build(), c.Text)
}

func checkCalendar(c Calendar) Result {
	d, err := c.parse()
	if err != nil {
		return bad("%q: want %s, got error %v", c.Text, c.Want, err)
	}
	if _, off := d.Time.Zone(); wall(d.Time) != c.Want || off != c.Offset {
		return bad("%q: want %s %+d, got %s", c.Text, c.Want, c.Offset, d.Time.Format(time.RFC3339Nano))
	}
	if d.Period.String() != c.Period {
		return bad("%q: want period %s, got %s", c.Text, c.Period, d.Period)
	}
	return ok(c.Class)
}

func init() {
	Register("P19", "complete dates", 60000, 600000, genJalali, checkCalendar)
}
