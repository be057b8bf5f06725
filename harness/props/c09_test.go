package props

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"

	"verif/harness/kit"
)

// daysFromCivil is the number of days from 1970-01-01 in the proleptic Gregorian calendar, by counting.
func daysFromCivil(y, m, d int) int64 {
	leap := func(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }
	// Days before year y, counted from year 0.
	before := func(y int) int64 {
		if y == 0 {
			return 0
		}
		k := int64(y - 1) // years 0..y-1: leap ones are 0, 4, ... without most hundreds
		return int64(y)*365 + k/4 + 1 - (k/100 + 1) + k/400 + 1
	}
	n := before(y) - before(1970)
	for i := 1; i < m; i++ {
		n += int64(monthDays(y, i, leap(y)))
	}
	return n + int64(d) - 1
}

func monthDays(_, m int, leap bool) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if leap {
			return 29
		}
		return 28
	}
	return 31
}

func isLeap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

var yearStart = func() []int64 {
	s := make([]int64, 10001)
	for y := range s {
		s[y] = daysFromCivil(y, 1, 1)
	}
	return s
}()

// refDateTime formats an instant in milliseconds since the epoch.
func refDateTime(ms int64) string {
	floorDiv := func(a, b int64) (int64, int64) {
		q, r := a/b, a%b
		if r < 0 {
			q, r = q-1, r+b
		}
		return q, r
	}
	sec, milli := floorDiv(ms, 1000)
	days, sod := floorDiv(sec, 86400)
	lo, hi := 0, 10000
	for hi-lo > 1 {
		mid := (lo + hi) / 2
		if yearStart[mid] <= days {
			lo = mid
		} else {
			hi = mid
		}
	}
	y, doy := lo, int(days-yearStart[lo])
	m := 1
	for doy >= monthDays(y, m, isLeap(y)) {
		doy -= monthDays(y, m, isLeap(y))
		m++
	}
	f := ""
	if milli != 0 {
		f = "." + strings.TrimRight(fmt.Sprintf("%03d", milli), "0")
	}
	return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d%sZ", y, m, doy+1, sod/3600, sod/60%60, sod%60, f)
}

var (
	minSec = daysFromCivil(0, 1, 1) * 86400
	maxSec = daysFromCivil(9999, 12, 31)*86400 + 86399
)

func drawSec(r kit.R) int64 {
	var s int64
	switch r.N(6) {
	case 0:
		s = minSec + int64(r.U64()%uint64(maxSec-minSec+1))
	case 1:
		s = r.SInt(34)
	case 2: // around midnights at month and year ends
		y := r.N(10000)
		m := r.In(1, 12)
		if r.B() {
			m = 3
		}
		s = daysFromCivil(y, m, 1)*86400 + int64(r.N(5)) - 2
	case 3:
		s = int64(r.N(2_000_000_000))
	case 4:
		s = []int64{0, -1, 1, minSec, maxSec, -62135596800, 253402300799, 951782400, 4107542400, -9223372037, 9223372036, -9223372036, 9223372037}[r.N(13)] + int64(r.N(3)-1)
	default:
		s = int64(r.N(200001)) - 100000
	}
	return min(max(s, minSec), maxSec)
}

func closeTo(got float64, want *big.Rat) bool {
	g := new(big.Rat)
	if g.SetFloat64(got) == nil {
		return false
	}
	w, _ := want.Float64()
	tol := new(big.Rat).SetFloat64((math.Abs(w) + 1) * 4.5e-16 * 2)
	d := g.Sub(g, want)
	return d.Abs(d).Cmp(tol) <= 0
}

// TestC09 converts instants to strings and back.
func TestC09(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		sec := drawSec(r)
		back := func(dt mpd.DateTime, want *big.Rat, what string) {
			got, err := dt.ConvertToSeconds()
			if err != nil || !closeTo(got, want) {
				r.Fatalf("%s: %q converts back to %v (%v), want %s", what, dt, got, err, want.FloatString(9))
			}
		}
		ms := min(max(sec*1000+int64(r.N(1000)), minSec*1000), maxSec*1000+999)
		if r.N(3) == 0 {
			ms = sec * 1000
		}
		if got, want := string(mpd.ConvertToDateTimeS(sec)), refDateTime(sec*1000); got != want {
			r.Fatalf("ConvertToDateTimeS(%d) = %s, want %s", sec, got, want)
		}
		back(mpd.ConvertToDateTimeS(sec), new(big.Rat).SetInt64(sec), "seconds")
		if got, want := string(mpd.ConvertToDateTimeMS(ms)), refDateTime(ms); got != want {
			r.Fatalf("ConvertToDateTimeMS(%d) = %s, want %s", ms, got, want)
		}
		back(mpd.ConvertToDateTimeMS(ms), big.NewRat(ms, 1000), "milliseconds")
		if got, want := mpd.ConvertToDateTime(float64(sec)), mpd.ConvertToDateTimeS(sec); got != want {
			r.Fatalf("ConvertToDateTime(%d) = %s, but for the integer it is %s", sec, got, want)
		}
		// Fractions.
		var f float64
		switch r.N(4) {
		case 0:
			f = float64(ms) / 1000
		case 1:
			f = float64(sec) + float64(r.N(1<<20))/(1<<20)
		case 2:
			f = math.Nextafter(float64(ms)/1000, float64(r.N(2))*2e12-1e12)
		case 3:
			f = float64(int64(r.Bits(40))-1<<39) / float64(int64(1)<<r.N(40))
		}
		if f >= float64(minSec) && f < float64(maxSec+1) {
			x := new(big.Rat).SetFloat64(f)
			got := string(mpd.ConvertToDateTime(f))
			mil := new(big.Rat).Mul(x, big.NewRat(1000, 1))
			eps := big.NewRat(3, 1_000_000)
			lo, hi := floorRat(new(big.Rat).Sub(mil, eps)), floorRat(new(big.Rat).Add(mil, eps))
			ok := false
			for k := lo; k <= hi; k++ {
				ok = ok || k >= minSec*1000 && got == refDateTime(k)
			}
			if !ok {
				r.Fatalf("ConvertToDateTime(%v) = %s, want %s", f, got, refDateTime(hi))
			}
			g, err := mpd.DateTime(got).ConvertToSeconds()
			if err != nil || math.Abs(g-f) > 0.001001+math.Abs(f)*1e-15 {
				r.Fatalf("ConvertToDateTime(%v) = %s, which converts back to %v (%v)", f, got, g, err)
			}
		}
		c.Key(fmt.Sprint(ms))
		c.NonTrivial(true)
		c.Label("century:%s", refDateTime(ms)[:2])
		c.Sample(func() string { return fmt.Sprintf("%d ms -> %s; %v s", ms, refDateTime(ms), f) })
	})
}

func floorRat(x *big.Rat) int64 {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(x.Num(), x.Denom(), m)
	return q.Int64()
}

// TestC09_strings converts strings with any zone and fraction, and spoiled ones.
func TestC09_strings(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		y, mo := r.N(10000), r.In(1, 12)
		if r.B() {
			y = 1900 + r.N(300)
		}
		md := monthDays(y, mo, isLeap(y))
		d := r.In(1, md)
		if r.N(3) == 2 {
			d = md
		}
		h, mi, s := r.N(24), r.N(60), r.N(60)
		frac := ""
		if r.B() {
			k := r.In(1, 9)
			frac = "." + fmt.Sprintf("%09d", r.N(1_000_000_000))[:k]
			if r.N(6) == 5 {
				frac += fmt.Sprintf("%0*d", 9, r.N(1000))
			}
		}
		off := 0
		zone := "Z"
		if r.B() {
			oh, om := r.N(24), r.N(60)
			if r.B() {
				om = 15 * r.N(4)
			}
			off = oh*3600 + om*60
			zone = fmt.Sprintf("+%02d:%02d", oh, om)
			if r.B() {
				off = -off
				zone = "-" + zone[1:]
			}
		}
		str := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d%s%s", y, mo, d, h, mi, s, frac, zone)
		want := new(big.Rat).SetInt64(daysFromCivil(y, mo, d)*86400 + int64(h*3600+mi*60+s-off))
		if frac != "" {
			fr, _ := new(big.Rat).SetString("0" + frac)
			want.Add(want, fr)
		}
		got, err := mpd.DateTime(str).ConvertToSeconds()
		if err != nil {
			r.Fatalf("%q rejected: %v", str, err)
		}
		if !closeTo(got, want) {
			w, _ := want.Float64()
			if !(len(frac) > 10 && math.Abs(got-w) < 1e-8+math.Abs(w)*1e-15) {
				r.Fatalf("%q converts to %v, want %s", str, got, want.FloatString(9))
			}
		}
		// As AvailabilityStartTime it gives the absolute start of a period.
		st := r.Dur()
		m := &mpd.MPD{Type: mpd.Ptr("dynamic"), AvailabilityStartTime: mpd.DateTime(str)}
		p := mpd.NewPeriod()
		p.Start = &st
		m.AppendPeriod(p)
		abs, err := p.AbsoluteStart(m)
		wabs := new(big.Rat).Add(want, big.NewRat(int64(st), 1_000_000_000))
		wf, _ := wabs.Float64()
		if err != nil || math.Abs(abs-wf) > 1e-8+(math.Abs(wf)+math.Abs(got)+st.Seconds())*1e-15 {
			r.Fatalf("AbsoluteStart with %q and start %d ns is %v (%v), want %v", str, st, abs, err, wf)
		}
		bad := ""
		switch r.N(12) {
		case 0:
			bad = fmt.Sprintf("%04d-%02d-%02dT00:00:00Z", y, mo, md+1)
		case 1:
			bad = fmt.Sprintf("%04d-%02d-01T00:00:00Z", y, []int{0, 13, 99}[r.N(3)])
		case 2:
			bad = fmt.Sprintf("%04d-%02d-00T00:00:00Z", y, mo)
		case 3:
			bad = fmt.Sprintf("%04d-01-01T%02d:00:00Z", y, []int{24, 25, 60, 99}[r.N(4)])
		case 4:
			bad = fmt.Sprintf("%04d-01-01T00:%02d:00Z", y, r.In(60, 99))
		case 5:
			bad = fmt.Sprintf("%04d-01-01T00:00:%02dZ", y, r.In(61, 99))
		case 6:
			bad = str + r.Pick("Z", "x", " ", "+00:00", "\n", "1")
		case 7:
			bad = r.Pick("x", " ", "-", "T") + str
		case 8:
			bad = strings.Replace(str, "T", r.Pick(" ", "", "-", "TT"), 1)
		case 9:
			bad = r.Pick("", "now", "PT1S", "2024", "2024-01-01", "12:00:00Z", "1700000000", "Z", "2024-01-01T", "T00:00:00Z")
		case 10:
			bad = strings.Replace(str, "-", r.Pick("", "/", "."), 1)
		case 11:
			bad = r.RawStr()
		}
		if g, err := mpd.DateTime(bad).ConvertToSeconds(); err == nil {
			r.Fatalf("%q is not a date-time, but converts to %v", bad, g)
		}
		m.AvailabilityStartTime = mpd.DateTime(bad)
		if g, err := p.AbsoluteStart(m); err == nil {
			r.Fatalf("AbsoluteStart with availabilityStartTime %q is %v", bad, g)
		}
		c.Key(str, bad)
		c.NonTrivial(true)
		c.Label("zone offset:%v fraction:%v", zone != "Z", len(frac))
		c.Sample(func() string { return fmt.Sprintf("%s -> %v; spoiled %q", str, got, bad) })
	})
}
