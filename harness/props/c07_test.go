package props

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"testing"
	"time"

	"github.com/Eyevinn/dash-mpd/mpd"

	"verif/harness/kit"
)

// refDuration is an independent reading of P[nD][T[nH][nM][nS]]; val is in nanoseconds.
func refDuration(s string) (val *big.Rat, ok bool) {
	rest, found := strings.CutPrefix(s, "P")
	if !found {
		return nil, false
	}
	date, tim, hasT := strings.Cut(rest, "T")
	val = new(big.Rat)
	n := 0
	part := func(s string, unit string, sec int64, frac bool) (string, bool) {
		i := strings.Index(s, unit)
		if i < 0 {
			return s, true
		}
		num := s[:i]
		whole, fr, dot := strings.Cut(num, ".")
		if whole == "" || dot && (fr == "" || !frac) {
			return "", false
		}
		for _, c := range whole + fr {
			if c < '0' || c > '9' {
				return "", false
			}
		}
		r, good := new(big.Rat).SetString(num)
		if !good {
			return "", false
		}
		val.Add(val, r.Mul(r, new(big.Rat).SetInt64(sec*1e9)))
		n++
		return s[i+1:], true
	}
	if date, ok = part(date, "D", 86400, false); !ok || date != "" {
		return nil, false
	}
	if hasT {
		before := n
		for _, u := range []struct {
			u string
			s int64
			f bool
		}{{"H", 3600, false}, {"M", 60, false}, {"S", 1, true}} {
			if tim, ok = part(tim, u.u, u.s, u.f); !ok {
				return nil, false
			}
		}
		if tim != "" || n == before {
			return nil, false
		}
	}
	return val, n > 0
}

var maxNs = new(big.Rat).SetInt64(math.MaxInt64)

func checkDuration(r failer, s string) (class string) {
	val, ok := refDuration(s)
	d, err := mpd.ParseDuration(s)
	if !ok {
		if err == nil {
			r.Fatalf("ParseDuration(%q) = %d, but this is not a duration of the form P[nD][T[nH][nM][nS]]", s, int64(d))
		}
		return "malformed"
	}
	long := false
	if i := strings.IndexByte(s, '.'); i >= 0 {
		long = len(strings.TrimRight(s[i+1:len(s)-1], "0")) > 9
	}
	if val.Cmp(maxNs) > 0 {
		over := new(big.Rat).Sub(val, maxNs)
		if err == nil && !(long && over.Cmp(big.NewRat(1, 1)) < 0) {
			r.Fatalf("ParseDuration(%q) = %d, but the value does not fit", s, int64(d))
		}
		return "overflow"
	}
	if err != nil {
		if long && new(big.Rat).Sub(maxNs, val).Cmp(big.NewRat(1, 1)) < 0 {
			return "overflow"
		}
		r.Fatalf("ParseDuration(%q) failed: %v", s, err)
	}
	diff := new(big.Rat).Sub(val, new(big.Rat).SetInt64(int64(d)))
	if diff.Sign() != 0 && !(long && diff.Abs(diff).Cmp(big.NewRat(1, 1)) <= 0) {
		r.Fatalf("ParseDuration(%q) = %d ns, want %s", s, int64(d), val.FloatString(3))
	}
	return "valid"
}

func durNumber(r kit.R, unitNs int64) string {
	switch r.N(7) {
	case 0:
		return fmt.Sprint(r.N(4))
	case 1:
		return fmt.Sprint(r.N(100))
	case 2:
		return fmt.Sprintf("%0*d", r.In(1, 25), r.N(1000))
	case 3: // around the limit
		b := new(big.Int).SetInt64(math.MaxInt64 / unitNs)
		return b.Add(b, big.NewInt(int64(r.N(5)-2))).Abs(b).String()
	case 4:
		return fmt.Sprint(r.U64() >> r.N(64))
	case 5: // around multiples of 2^64 / unit
		b := new(big.Int).Lsh(big.NewInt(1), uint(r.In(60, 70)))
		b.Div(b, big.NewInt(unitNs))
		return b.Add(b, big.NewInt(int64(r.N(7)-3))).Abs(b).String()
	}
	return strings.Repeat(r.Pick("9", "1", "0", "5"), r.In(1, 30))
}

func durString(r kit.R) string {
	var sb strings.Builder
	sb.WriteString("P")
	mask := r.N(16)
	if mask == 0 {
		mask = 8
	}
	if mask&1 != 0 {
		sb.WriteString(durNumber(r, int64(24*time.Hour)) + "D")
	}
	if mask&14 != 0 {
		sb.WriteString("T")
	}
	if mask&2 != 0 {
		sb.WriteString(durNumber(r, int64(time.Hour)) + "H")
	}
	if mask&4 != 0 {
		sb.WriteString(durNumber(r, int64(time.Minute)) + "M")
	}
	if mask&8 != 0 {
		if r.N(6) == 5 { // seconds exactly at the limit
			sb.WriteString(r.Pick("9223372036", "9223372035", "9223372037") + r.Pick(".854775807", ".854775808", ".8547758079", ".854775806", ".85477580", ".999999999", ""))
		} else {
			sb.WriteString(durNumber(r, int64(time.Second)))
			if r.B() {
				sb.WriteString("." + fmt.Sprintf("%0*d", r.In(1, 14), r.U64()%uint64(math.Pow10(r.N(10)))))
			}
		}
		sb.WriteString("S")
	}
	return sb.String()
}

func mutateStr(r kit.R, s string, alphabet []string) string {
	for range r.In(1, 2) {
		i := r.N(len(s) + 1)
		switch r.N(4) {
		case 0:
			s = s[:i] + alphabet[r.N(len(alphabet))] + s[i:]
		case 1:
			if i < len(s) {
				s = s[:i] + s[i+1:]
			}
		case 2:
			if i < len(s) {
				s = s[:i] + alphabet[r.N(len(alphabet))] + s[i+1:]
			}
		case 3:
			j := r.N(len(s) + 1)
			if i > j {
				i, j = j, i
			}
			s = s[:i] + s[i:j] + s[i:] // duplicate a part
		}
	}
	return s
}

var durAlphabet = []string{"P", "T", "D", "H", "M", "S", "0", "1", "5", "9", ".", "-", "+", "Y", "W", " ", "\n", "e", "x", "٣", ",", "p", "t", "\x00", "_", "s", "1D", "T1S", "PT1S"}

// TestC07 compares ParseDuration with exact arithmetic.
func TestC07(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		var s, how string
		switch r.N(6) {
		case 0, 1:
			s, how = durString(r), "grammar"
		case 2, 3:
			s, how = mutateStr(r, durString(r), durAlphabet), "mutation"
		case 4:
			how = "alphabet"
			for range r.N(9) {
				s += durAlphabet[r.N(len(durAlphabet))]
			}
		default:
			how = "anything"
			s = r.Pick("P", "", "PT") + r.RawStr() + r.Pick("", "S", "D")
		}
		c.Input(s)
		class := checkDuration(r, s)
		c.Key(s)
		c.NonTrivial(len(s) > 2)
		c.Label("%s %s", how, class)
		c.Sample(func() string { return fmt.Sprintf("%q (%s)", s, class) })
		if r.N(4) != 0 || kit.Sanitize(s) != s {
			return
		}
		// The same through an attribute of an MPD, where white space around the value does not count.
		if r.N(4) == 3 {
			s = r.Pick(" ", "", "\n\t") + s + r.Pick(" ", "", "\r")
		}
		want, werr := mpd.ParseDuration(strings.Trim(s, " \t\r\n"))
		attr := r.Pick("mediaPresentationDuration", "minBufferTime", "timeShiftBufferDepth", "maxSegmentDuration", "minimumUpdatePeriod")
		m, err := mpd.ReadFromString(fmt.Sprintf(`<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" %s="%s"></MPD>`, attr, xmlEscape(s)))
		if (err != nil) != (werr != nil) {
			r.Fatalf("ParseDuration(%q): %v, but reading %s: %v", s, werr, attr, err)
		}
		if err == nil {
			got := map[string]*mpd.Duration{"mediaPresentationDuration": m.MediaPresentationDuration, "minBufferTime": m.MinBufferTime,
				"timeShiftBufferDepth": m.TimeShiftBufferDepth, "maxSegmentDuration": m.MaxSegmentDuration, "minimumUpdatePeriod": m.MinimumUpdatePeriod}
			for k, v := range got {
				if k != attr && v != nil || k == attr && (v == nil || time.Duration(*v) != want) {
					r.Fatalf("%s=%q: %s is read as %v", attr, s, k, v)
				}
			}
		}
	})
}

func xmlEscape(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", "\"", "&quot;", "\t", "&#9;", "\n", "&#10;", "\r", "&#13;").Replace(s)
}

// TestC07_edits enumerates all single edits of a few durations.
func TestC07_edits(t *testing.T) {
	bases := []string{"PT1S", "P1D", "PT1H", "PT1M", "P1DT2H3M4.5S", "PT0.5S", "PT10H59M59.999S", "P0D"}
	var all []string
	for _, b := range bases {
		for i := range len(b) + 1 {
			for _, a := range durAlphabet {
				all = append(all, b[:i]+a+b[i:])
				if i < len(b) {
					all = append(all, b[:i]+a+b[i+1:])
				}
			}
			if i < len(b) {
				all = append(all, b[:i]+b[i+1:], b[:i], b[i:])
			}
		}
	}
	units := []string{"", "1D", "1H", "1M", "1S", "1.5S", "T", "1Y", "1.5H", "2", "."}
	for i := range 11 * 11 * 11 {
		all = append(all, "P"+units[i%11]+units[i/11%11]+units[i/121], "PT"+units[i%11]+units[i/11%11]+units[i/121])
	}
	kit.Enum(t, len(all), func(t *testing.T, i int, c *kit.Case) {
		c.Key("edit", all[i])
		c.NonTrivial(true)
		c.Label("enumerated %s", checkDuration(t, all[i]))
	})
}
