package props

import (
	"fmt"
	"math/big"
	"slices"
	"strconv"
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"

	"verif/harness/kit"
	"verif/harness/schema"
	"verif/harness/xt"
)

var typedKinds = map[string]int{"u8": 8, "u16": 16, "u32": 32, "u64": 64, "i32": 32, "i64": 64, "f32": 1, "f64": 1, "finf": 1, "b": 1, "dur": 1}

func slotKind(s schema.Slot) string {
	switch {
	case s.Attr != nil:
		return s.Attr.Kind
	case s.Text:
		return s.T.Text
	case s.Kid != nil && s.Kid.Type == nil:
		return s.Kid.Kind
	}
	return ""
}

// Literals of Go's floating-point syntax only.
var goFloats = map[string]bool{"0x1p4": true, "0X1.8P-2": true, "-0x1p+1": true, "infinity": true, "-Infinity": true, "+Inf": true, "inf": true, "1_0": true}

// floatAt gives the values of a slot in a document.
func floatAt(root *xt.Node, f schema.Slot) []float64 {
	var out []float64
	for _, p := range kit.Places(root) {
		if p.T == f.T && f.Attr != nil {
			for _, a := range p.N.Attrs {
				if v, err := strconv.ParseFloat(a.Value, 64); err == nil && a.Local == f.Attr.Local && a.Space == f.Attr.Space() {
					out = append(out, v)
				}
			}
		}
	}
	return out
}

// drawLiteral gives a literal for a kind and whether it is legal.
func drawLiteral(r kit.R, kind string) (string, bool) {
	junk := func() string {
		return r.Pick("abc", "-", "+", "1 2", "0x10", "1,5", "--1", "1-", "true1", "NaN1", "١", "½", "1;", "null", "1.2.3", "e5", "1e", "$Number$", ".", "0b1", "1__0", "१२")
	}
	pow := func(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }
	switch kind {
	case "u8", "u16", "u32", "u64", "i32", "i64":
		bits := typedKinds[kind]
		lo, hi := new(big.Int), pow(bits)
		if kind[0] == 'i' {
			lo, hi = new(big.Int).Neg(pow(bits-1)), pow(bits-1)
		}
		var v *big.Int
		switch r.N(8) {
		case 0:
			return junk(), false
		case 1:
			return r.Pick("1.5", "1.0", "1e3", "1E0", "0.0", "INF", "true", "PT1S", "1_000", "0x1", "1f"), false
		case 2: // around the upper bound
			v = new(big.Int).Add(hi, big.NewInt(int64(r.N(5)-3)))
		case 3: // around the lower bound
			v = new(big.Int).Add(lo, big.NewInt(int64(r.N(5)-2)))
		case 4: // around other sizes
			v = new(big.Int).Add(pow([]int{7, 8, 15, 16, 31, 32, 53, 63, 64, 65, 96, 128}[r.N(12)]), big.NewInt(int64(r.N(5)-2)))
			if r.B() {
				v.Neg(v)
			}
		case 5:
			v = new(big.Int).Add(lo, new(big.Int).Rand(bigRand(r), new(big.Int).Sub(hi, lo)))
		case 6:
			v = big.NewInt(int64(r.N(1000)) - 200)
		case 7: // far too long
			v, _ = new(big.Int).SetString(r.Pick("", "-")+"1"+strings.Repeat(r.Pick("0", "9", "8"), r.In(18, 60)), 10)
		}
		s := v.String()
		if s != "0" && s[0] != '-' && r.N(6) == 5 {
			s = strings.Repeat("0", r.In(1, 30)) + s
		}
		return pad(r, s), v.Cmp(lo) >= 0 && v.Cmp(hi) < 0
	case "b":
		if r.N(3) == 0 {
			return pad(r, r.Pick("true", "false", "1", "0")), true
		}
		if r.B() {
			return junk(), false
		}
		return r.Pick("yes", "no", "2", "-1", "on", "tru", "falsee", "true false", "00", "01", "10", "1.0", "y"), false
	case "f32", "f64", "finf":
		bits := 64
		if kind == "f32" {
			bits = 32
		}
		switch r.N(5) {
		case 0:
			return junk(), false
		case 1:
			return r.Pick("1e400", "-1e400", "9"+strings.Repeat("9", 400), "1.5.2", "1e1e1", "1e+", "0..1", "1,000.0", "12 .5", "1.5 x", "--1.5", "1e5.5"), false
		}
		if kind == "f32" && r.N(5) == 0 {
			return r.Pick("1e39", "-3.5e38", "1e300"), false
		}
		if r.N(12) == 11 {
			return r.Pick("0x1p4", "0X1.8P-2", "-0x1p+1", "infinity", "-Infinity", "+Inf", "inf", "1_0"), false
		}
		if r.N(5) == 4 {
			return pad(r, r.Pick("INF", "-INF")), true
		}
		return pad(r, r.FloatLex(bits)), true
	case "dur":
		s := durString(r)
		if r.N(3) != 0 {
			s = mutateStr(r, s, durAlphabet)
		}
		s = strings.NewReplacer("\x00", "0").Replace(s)
		v, ok := refDuration(strings.Trim(s, " \t\r\n"))
		if ok && v.Cmp(maxNs) > 0 {
			ok = false
		}
		if s == "" {
			s = "P"
		}
		if r.N(12) == 11 { // white space elsewhere than in XML
			sp := r.Pick("\u00a0", "\u0085", "\u2003", "\u2028", "\u3000", "\ufeff")
			if r.B() {
				return sp + s, false
			}
			return s + sp, false
		}
		return pad(r, s), ok
	}
	panic(kind)
}

func pad(r kit.R, s string) string {
	switch r.N(10) {
	case 8:
		return " " + s
	case 9:
		return s + r.Pick(" ", "\n", "\t ", "\r\n")
	}
	return s
}

// TestC28 puts legal and illegal literals into typed attributes and elements.
func TestC28(t *testing.T) {
	slots := kit.FocusSlots("typed", func(s schema.Slot) bool { return typedKinds[slotKind(s)] > 0 })
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		f := slots[r.N(len(slots))]
		kind := slotKind(f)
		d := kit.GenDoc(r, f, kit.DocOpts{Budget: []int{3, 10, 40}[r.N(3)]})
		lit, legal := drawLiteral(r, kind)
		if kind == "dur" {
			// The last millisecond of the range cannot be written back exactly.
			if v, ok := refDuration(strings.Trim(lit, " \t\r\n")); ok {
				v.Sub(maxNs, v)
				if v.Abs(v).Cmp(big.NewRat(1_000_000, 1)) < 0 {
					lit, legal = "PTS", false
				}
			}
		}
		// Put it into one of the places of that kind.
		var places []func()
		for _, p := range kit.Places(d.Root) {
			if p.T != f.T {
				continue
			}
			n := p.N
			switch {
			case f.Attr != nil:
				for i := range n.Attrs {
					if n.Attrs[i].Local == f.Attr.Local && n.Attrs[i].Space == f.Attr.Space() {
						places = append(places, func() { n.Attrs[i].Value = lit })
					}
				}
			case f.Text:
				places = append(places, func() {
					var kids []xt.Kid
					for _, k := range n.Kids {
						if k.Elem != nil {
							kids = append(kids, k)
						}
					}
					n.Kids = append([]xt.Kid{{Text: lit}}, kids...)
				})
			default:
				for _, e := range n.Elems() {
					if e.Local == f.Kid.Local {
						places = append(places, func() { e.Kids = []xt.Kid{{Text: lit}} })
					}
				}
			}
		}
		if len(places) == 0 {
			r.Fatalf("harness: no place for %s", f)
		}
		places[r.N(len(places))]()
		src := plain(d)
		c.Input(src)
		m, err := mpd.ReadFromString(src)
		switch {
		case legal && err != nil:
			r.Fatalf("%s: legal %s %q rejected: %v\n%s", f, kind, lit, err, src)
		case !legal && err == nil && goFloats[lit] && kind[0] == 'f':
			// Known finding: these are accepted, with the value that Go gives them.
			want, _ := strconv.ParseFloat(lit, 64)
			if got := floatAt(mustParse(r, mustWrite(r, m, "", false)), f); want != 0 && !slices.Contains(got, want) {
				r.Fatalf("%s: %q is read as %v\n%s", f, lit, got, src)
			}
		case !legal && err == nil:
			r.Fatalf("%s: illegal %s %q accepted\n%s\nread as %s", f, kind, lit, src, mustWrite(r, m, "", false))
		case legal:
			out := mustWrite(r, m, "", false)
			if err := kit.CompareDocs(d.Root, mustParse(r, out), kit.CompareOpts{}); err != nil {
				r.Fatalf("%s = %q: %v\n%s\n%s", f, lit, err, src, out)
			}
		}
		c.Key(f.String(), lit)
		c.NonTrivial(true)
		c.Label("%s legal:%v", kind, legal)
		c.Label("slot:%s", f)
		c.Sample(func() string { return fmt.Sprintf("%s = %q legal:%v", f, lit, legal) })
	})
}
