package main

import (
	"strings"
	"time"

	"pgregory.net/rapid"
)

// G draws every random choice from rapid, with uniform distribution where it matters:
// rapid's own integer generators prefer small values and boundaries.
type G struct{ *rapid.T }

var (
	boolGen = rapid.Bool()
	u64Gen  = rapid.Uint64()
)

// N draws a uniform integer from [0, n). Zero is the simplest value.
func (g *G) N(n int) int {
	if n <= 1 {
		return 0
	}
	bits := 0
	for v := n - 1; v > 0; v >>= 1 {
		bits++
	}
	bits += 6 // keeps the bias of the multiply-shift below 2%
	var x uint64
	for i := 0; i < bits; i++ {
		x <<= 1
		if boolGen.Draw(g.T, "b") {
			x |= 1
		}
	}
	return int(x * uint64(n) >> bits)
}

func (g *G) Range(lo, hi int) int { return lo + g.N(hi-lo+1) }
func (g *G) Bool() bool           { return boolGen.Draw(g.T, "b") }

// P is true with probability of n percents.
func (g *G) P(n int) bool { return g.N(100) >= 100-n }

func pick[T any](g *G, list []T) T { return list[g.N(len(list))] }

// Small draws mostly small numbers and sometimes bigger ones.
func (g *G) Small(max int) int {
	switch g.N(4) {
	case 0, 1:
		return g.N(min(max, 12) + 1)
	case 2:
		return g.N(min(max, 100) + 1)
	default:
		return g.N(max + 1)
	}
}

func isLeap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

var mdays = [...]int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}

func dim(y, m int) int {
	if m == 2 && isLeap(y) {
		return 29
	}
	return mdays[m-1]
}

// Day is a Gregorian calendar date.
type YMD struct{ Y, M, D int }

func (g *G) YMD(lo, hi int) YMD {
	y := g.Range(lo, hi)
	if g.P(30) { // around the present
		y = g.Range(max(lo, 1990), min(hi, 2035))
	}
	m := g.Range(1, 12)
	if g.P(10) {
		m = 2
	}
	d := g.Range(1, dim(y, m))
	switch g.N(10) {
	case 8:
		d = dim(y, m)
	case 9:
		d = 1
	}
	return YMD{y, m, d}
}

// Now draws the current time of a case, preferring the edges of days, months and years.
func (g *G) Now(lo, hi int) time.Time {
	c := g.YMD(lo, hi)
	h, mi, s, ns := g.N(24), g.N(60), g.N(60), 0
	switch g.N(8) {
	case 0:
		h, mi, s = 0, 0, 0
	case 1:
		h, mi, s = 23, 59, 59
	case 2:
		ns = g.N(1_000_000) * 1000
	}
	return time.Date(c.Y, time.Month(c.M), c.D, h, mi, s, ns, time.UTC)
}

var monthsLong = []string{"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"}
var weekdaysLong = []string{"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}

// Case changes the case of ASCII text only.
func (g *G) Case(s string) string {
	switch g.N(5) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	default:
		return s
	}
}
