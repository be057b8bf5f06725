package props

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"testing"
	"time"

	"github.com/Eyevinn/dash-mpd/mpd"

	"verif/harness/kit"
)

// refDurString gives the canonical strings for a number of nanoseconds (two at an exact rounding tie).
func refDurString(ns int64) []string {
	if ns == 0 {
		return []string{"PT0S"}
	}
	sign := ""
	a := new(big.Int).SetInt64(ns)
	if a.Sign() < 0 {
		sign = "-"
		a.Neg(a)
	}
	frac := func(v uint64, digits int) string {
		return strings.TrimRight(strings.TrimRight(fmt.Sprintf("%0*d", digits, v), "0"), ".")
	}
	fine := func() string {
		return sign + "PT0." + frac(a.Uint64(), 9) + "S"
	}
	coarse := func(ms uint64) string {
		f := frac(ms%1000, 3)
		if f != "" {
			f = "." + f
		}
		s := ms / 1000
		h, m, s := s/3600, s/60%60, s%60
		out := sign + "PT"
		if h > 0 {
			out += fmt.Sprintf("%dH", h)
		}
		if h > 0 && (m > 0 || s > 0 || f != "") || m > 0 {
			out += fmt.Sprintf("%dM", m)
		}
		if s > 0 || f != "" {
			out += fmt.Sprintf("%d%sS", s, f)
		}
		return out
	}
	u := a.Uint64() // fits: at most 2^63
	switch {
	case u < 500_000:
		return []string{fine()}
	case u == 500_000:
		return []string{fine(), coarse(1)}
	}
	q, rem := u/1_000_000, u%1_000_000
	switch {
	case rem < 500_000:
		return []string{coarse(q)}
	case rem > 500_000:
		return []string{coarse(q + 1)}
	}
	return []string{coarse(q), coarse(q + 1)}
}

func ratFloat(x *big.Rat) float64 {
	f, _ := x.Float64()
	return f
}

func checkDurString(r failer, ns int64) string {
	d := mpd.Duration(ns)
	s := d.String()
	want := refDurString(ns)
	if s != want[0] && s != want[len(want)-1] {
		r.Fatalf("duration of %d ns is written %q, want %q", ns, s, want)
	}
	if int64(d) != ns {
		r.Fatalf("String changed the duration %d to %d", ns, int64(d))
	}
	if f, want := d.Seconds(), new(big.Rat).SetFrac64(ns, 1e9); math.Abs(f-ratFloat(want)) > math.Abs(f)*1e-15 {
		r.Fatalf("Seconds of %d ns is %v", ns, f)
	}
	if ns < 0 {
		return s
	}
	back, err := mpd.ParseDuration(s)
	if err != nil {
		// Rounding up to a whole millisecond may leave the range.
		if ns > math.MaxInt64-1_000_000 {
			return s
		}
		r.Fatalf("written duration %q (%d ns) cannot be parsed: %v", s, ns, err)
	}
	val, _ := refDuration(s)
	if val == nil || val.Cmp(new(big.Rat).SetInt64(int64(back))) != 0 {
		r.Fatalf("written duration %q is parsed as %d ns", s, int64(back))
	}
	d2 := mpd.Duration(back)
	if s2 := d2.String(); s2 != s {
		r.Fatalf("%q is written as %q the second time", s, s2)
	}
	return s
}

// TestC08 compares Duration.String with a reference over all int64.
func TestC08(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		var ns int64
		units := []int64{1, 1000, 1_000_000, 1_000_000_000, 60_000_000_000, 3600_000_000_000, 86400_000_000_000}
		switch r.N(5) {
		case 0:
			ns = r.SInt(64)
		case 1: // near a multiple of a unit
			u := units[r.N(len(units))]
			k := int64(r.Bits(20))
			if k > math.MaxInt64/u-1 {
				k = math.MaxInt64/u - 1
			}
			ns = k*u + int64(r.N(2000)) - 1000
		case 2: // just around half a unit below a carry
			u := units[r.In(3, 5)]
			k := int64(r.N(200))
			ns = k*u - int64([]int{0, 1, 499_999, 500_000, 500_001, 999_999, 1_000_000, 1_500_000}[r.N(8)])
		case 3:
			h, m, s := int64(r.Bits(21)), int64(r.N(60)), int64(r.N(60))
			ns = (h*3600+m*60+s)*1e9 + int64(r.N(1000))*1e6
		default:
			ns = int64(r.N(100_000)) * int64(math.Pow10(r.N(12)))
		}
		if r.N(8) == 7 {
			ns = -ns
		}
		s := checkDurString(r, ns)
		c.Key(fmt.Sprint(ns))
		c.NonTrivial(ns != 0)
		c.Sample(func() string { return fmt.Sprintf("%d ns -> %s", ns, s) })
		c.Label("digits:%d", len(fmt.Sprint(ns)))
		if r.N(4) == 3 {
			m := mpd.MPD{MediaPresentationDuration: (*mpd.Duration)(&ns), MinBufferTime: mpd.Ptr(mpd.Duration(time.Second))}
			out := mustParse(r, mustWrite(r, &m, "", false))
			if v, ok := out.Attr("", "mediaPresentationDuration"); !ok || v != s {
				r.Fatalf("attribute is %q, want %q", v, s)
			}
		}
	})
}

// TestC08_sweep enumerates ranges of values around every carry of a few hours.
func TestC08_sweep(t *testing.T) {
	const block = 500
	kit.Enum(t, 4000, func(t *testing.T, i int, c *kit.Case) {
		r := t
		for j := range block {
			k := int64(i*block + j)
			checkDurString(r, k*7_000_003)        // about every 7 ms up to four hours
			checkDurString(r, k)                  // every nanosecond up to 2 ms
			checkDurString(r, 999_000_000+k)      // around a second
			checkDurString(r, 59_999_000_000+k)   // around a minute
			checkDurString(r, 3599_999_000_000+k) // around an hour
			checkDurString(r, math.MaxInt64-k)
			checkDurString(r, math.MinInt64+k)
		}
		c.Key("sweep", fmt.Sprint(i))
		c.NonTrivial(true)
		c.Label("sweep of %d values", 7*block)
	})
}
