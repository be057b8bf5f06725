package kit

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"verif/harness/schema"
	"verif/harness/xt"
)

// DurNs is an independent, exact reader of duration literals P[nD][T[nH][nM][nS]]; ok is false for other strings.
func DurNs(s string) (ns *big.Rat, ok bool) {
	if !strings.HasPrefix(s, "P") {
		return nil, false
	}
	s = s[1:]
	total := new(big.Rat)
	n := 0
	take := func(unit byte, mul int64, frac bool) bool {
		i := 0
		for i < len(s) && (s[i] >= '0' && s[i] <= '9') {
			i++
		}
		j := i
		if frac && j < len(s) && s[j] == '.' {
			j++
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
		}
		if i == 0 || j == i+1 || j >= len(s) || s[j] != unit {
			return false
		}
		v, good := new(big.Rat).SetString(s[:j])
		if !good {
			return false
		}
		total.Add(total, v.Mul(v, new(big.Rat).SetInt64(mul)))
		s = s[j+1:]
		n++
		return true
	}
	take('D', 86400e9, false)
	if strings.HasPrefix(s, "T") {
		s = s[1:]
		m := n
		take('H', 3600e9, false)
		take('M', 60e9, false)
		take('S', 1e9, true)
		if n == m {
			return nil, false
		}
	}
	if s != "" || n == 0 {
		return nil, false
	}
	return total, true
}

// DurClose reports whether an output duration literal denotes the input's value up to the documented precision.
func DurClose(in, out string) bool {
	a, ok1 := DurNs(in)
	b, ok2 := DurNs(out)
	if !ok1 || !ok2 {
		return false
	}
	d := new(big.Rat).Sub(a, b)
	d.Abs(d)
	lim := new(big.Rat).SetInt64(501000) // half a millisecond plus float rounding
	if a.Cmp(new(big.Rat).SetInt64(400000)) < 0 {
		lim.SetInt64(1)
	}
	return d.Cmp(lim) <= 0
}

// SameValue compares two literals of a kind by value.
func SameValue(kind, a, b string) bool {
	if a == b {
		return true
	}
	ta, tb := strings.TrimSpace(a), strings.TrimSpace(b)
	switch kind {
	case "b":
		v := func(s string) int {
			switch s {
			case "true", "1":
				return 1
			case "false", "0":
				return 0
			}
			return -1
		}
		return v(ta) >= 0 && v(ta) == v(tb)
	case "u8", "u16", "u32", "u64", "i32", "i64":
		x, ok1 := new(big.Int).SetString(ta, 10)
		y, ok2 := new(big.Int).SetString(tb, 10)
		return ok1 && ok2 && x.Cmp(y) == 0
	case "f32":
		x, e1 := strconv.ParseFloat(ta, 32)
		y, e2 := strconv.ParseFloat(tb, 32)
		return e1 == nil && e2 == nil && x == y
	case "f64", "finf":
		if strings.Contains(tb, "nf") && (kind == "finf" || tb != "+Inf" && tb != "-Inf") {
			return false // the XML Schema name is INF; that other attributes get +Inf or -Inf is a known finding
		}
		x, e1 := strconv.ParseFloat(ta, 64)
		y, e2 := strconv.ParseFloat(tb, 64)
		return e1 == nil && e2 == nil && x == y
	case "dur":
		return DurClose(ta, tb)
	case "tokens", "uints":
		return strings.Join(strings.Fields(a), " ") == strings.Join(strings.Fields(b), " ")
	}
	return false
}

// IsZero reports whether a literal denotes the zero value of its kind.
func IsZero(kind, v string) bool {
	switch kind {
	case "s", "uri", "dt", "tokens", "uints":
		return v == ""
	case "b":
		return SameValue("b", v, "false")
	case "dur":
		d, ok := DurNs(strings.TrimSpace(v))
		return ok && d.Cmp(big.NewRat(1, 1)) < 0
	}
	return SameValue(kind, v, "0")
}

// CompareOpts tunes Compare.
type CompareOpts struct {
	Indented bool // the output was written with indentation
	Trim     bool // leading/trailing white space of mixed text may differ
}

// CompareDocs checks that out carries the information of in, both MPD documents.
func CompareDocs(in, out *xt.Node, o CompareOpts) error {
	return compare(in, out, schema.Root, "MPD", o)
}

func compare(in, out *xt.Node, t *schema.Type, path string, o CompareOpts) error {
	if in.Name != out.Name {
		return fmt.Errorf("%s: element {%s}%s written as {%s}%s", path, in.Space, in.Local, out.Space, out.Local)
	}
	seen := map[xt.Name]bool{}
	for _, a := range in.Attrs {
		seen[a.Name] = true
		v, ok := out.Attr(a.Space, a.Local)
		sa := t.FindAttr(a.Space, a.Local)
		switch {
		case sa == nil && t.AnyAttr:
			if !ok || v != a.Value {
				return fmt.Errorf("%s: extra attribute {%s}%s=%q became %q (present: %v)", path, a.Space, a.Local, a.Value, v, ok)
			}
		case sa == nil:
			if ok {
				return fmt.Errorf("%s: unknown attribute {%s}%s kept", path, a.Space, a.Local)
			}
		case !ok:
			if sa.Flag == schema.Zero && IsZero(sa.Kind, a.Value) || sa.Flag == schema.Default && SameValue(sa.Kind, a.Value, sa.Def) {
				continue
			}
			return fmt.Errorf("%s: attribute %s=%q lost", path, a.Local, a.Value)
		default:
			if !SameValue(sa.Kind, a.Value, v) {
				return fmt.Errorf("%s: attribute %s=%q became %q", path, a.Local, a.Value, v)
			}
		}
	}
	for _, a := range out.Attrs {
		if seen[a.Name] {
			continue
		}
		sa := t.FindAttr(a.Space, a.Local)
		if sa != nil && sa.Flag == schema.Default && SameValue(sa.Kind, a.Value, sa.Def) {
			continue
		}
		return fmt.Errorf("%s: attribute {%s}%s=%q appeared", path, a.Space, a.Local, a.Value)
	}
	if t.Inner {
		a, b := *in, *out
		a.Attrs, b.Attrs = nil, nil
		if !xt.Equal(&a, &b) {
			return fmt.Errorf("%s: content changed:\n%s\n-- became --\n%s", path, xt.Dump(&a), xt.Dump(&b))
		}
		return nil
	}
	ti, to := in.Text(), out.Text()
	if t.Text == "" {
		if strings.TrimSpace(to) != "" {
			return fmt.Errorf("%s: text %q appeared", path, to)
		}
	} else {
		mixed := len(out.Elems()) > 0
		if mixed && (o.Indented || o.Trim) {
			ti, to = strings.TrimSpace(ti), strings.TrimSpace(to)
		}
		if !SameValue(t.Text, ti, to) {
			return fmt.Errorf("%s: text %q became %q", path, ti, to)
		}
	}
	// children
	gi := make([][]*xt.Node, len(t.Kids))
	gout := make([][]*xt.Node, len(t.Kids))
	for _, e := range in.Elems() {
		i := childIndex(t, e)
		if i < 0 {
			continue // unknown content
		}
		if t.Kids[i].Zero && len(e.Kids) == 0 {
			continue
		}
		gi[i] = append(gi[i], e)
	}
	last := -1
	for _, e := range out.Elems() {
		i := childIndex(t, e)
		if i < 0 {
			return fmt.Errorf("%s: unexpected element {%s}%s in output", path, e.Space, e.Local)
		}
		// Elements of other namespaces match wildcards of the schema: any order is valid.
		if other := t.Kids[i].Prefix != "" && t.Kids[i].Prefix != "scte35"; other {
			i = last
		} else if i < last {
			return fmt.Errorf("%s: element %s written after %s: not in schema order", path, e.Local, t.Kids[last].Local)
		}
		last = i
		i = childIndex(t, e)
		if t.Kids[i].Zero && len(e.Kids) == 0 {
			continue
		}
		gout[i] = append(gout[i], e)
	}
	for i, c := range t.Kids {
		if len(gi[i]) != len(gout[i]) {
			return fmt.Errorf("%s: %d %s elements became %d", path, len(gi[i]), c.Local, len(gout[i]))
		}
		for j := range gi[i] {
			p := fmt.Sprintf("%s/%s[%d]", path, c.Local, j)
			a, b := gi[i][j], gout[i][j]
			if c.Type != nil {
				if err := compare(a, b, c.Type, p, o); err != nil {
					return err
				}
				continue
			}
			if a.Name != b.Name {
				return fmt.Errorf("%s: written as {%s}%s", p, b.Space, b.Local)
			}
			if len(b.Attrs) > 0 || len(b.Elems()) > 0 {
				return fmt.Errorf("%s: structure appeared", p)
			}
			if !SameValue(c.Kind, a.Text(), b.Text()) {
				return fmt.Errorf("%s: %q became %q", p, a.Text(), b.Text())
			}
		}
	}
	return nil
}
