package props

import (
	"encoding/xml"
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/Eyevinn/dash-mpd/mpd"
	fork "github.com/Eyevinn/dash-mpd/xml"

	"verif/harness/kit"
	"verif/harness/xt"
)

// allNames are the names of all elements and attributes of the schema.
var allNames, allAttrs = func() (e, a []xt.Name) {
	seen := map[string]bool{}
	for _, s := range kit.FocusSlots("all", nil) {
		switch {
		case s.Kid != nil:
			n := xt.Name{Space: s.Kid.Space(mpd.SCTE35Namespace), Local: s.Kid.Local}
			if k := "e" + fmt.Sprint(n); !seen[k] {
				seen[k] = true
				e = append(e, n)
			}
		case s.Attr != nil:
			n := xt.Name{Space: s.Attr.Space(), Local: s.Attr.Local}
			if k := "a" + fmt.Sprint(n); !seen[k] {
				seen[k] = true
				a = append(a, n)
			}
		}
	}
	return e, a
}()

var allKinds = func() (k []string) {
	seen := map[string]bool{}
	for _, s := range kit.FocusSlots("all", nil) {
		if s.Attr != nil && !seen[s.Attr.Kind] {
			seen[s.Attr.Kind] = true
			k = append(k, s.Attr.Kind)
		}
	}
	return k
}()

func oddValue(r kit.R) string {
	switch r.N(4) {
	case 0:
		return r.Pick("", " ", "0", "-1", "true", "PT", "PT1S", "-PT1S", "P1D", "1.5", "INF", "NaN", "1/1", "2020-01-01T00:00:00Z", "a b  c", "4294967296", "18446744073709551615", "$Number$", "%", "\n", "é")
	case 1:
		return r.Lex(r.Pick(allKinds...))
	}
	return r.Str()
}

// oddTree changes a document in a drawn way that keeps it well-formed.
func oddTree(r kit.R, root *xt.Node) {
	var nodes []*xt.Node
	up := map[*xt.Node]*xt.Node{}
	root.Walk(func(n *xt.Node) {
		nodes = append(nodes, n)
		for _, k := range n.Elems() {
			up[k] = n
		}
	})
	n := nodes[r.N(len(nodes))]
	o := nodes[r.N(len(nodes))]
	below := func(n, o *xt.Node) bool { // n is o or inside of o
		for ; n != nil; n = up[n] {
			if n == o {
				return true
			}
		}
		return false
	}
	switch r.N(14) {
	case 0: // without attributes
		n.Attrs = nil
	case 1: // empty
		n.Kids = nil
	case 2:
		if len(n.Kids) > 0 {
			i := r.N(len(n.Kids))
			n.Kids = append(n.Kids[:i:i], n.Kids[i+1:]...)
		}
	case 3: // the same once more
		if len(n.Kids) > 0 {
			k := n.Kids[r.N(len(n.Kids))]
			if k.Elem != nil {
				k.Elem = kit.Clone(k.Elem)
			}
			n.Kids = append(n.Kids, k)
		}
	case 4: // another order
		for i := range n.Kids {
			j := r.N(len(n.Kids))
			n.Kids[i], n.Kids[j] = n.Kids[j], n.Kids[i]
		}
	case 5: // elsewhere
		if !below(n, o) && n != root {
			o.Kids = append(o.Kids, xt.Kid{Elem: kit.Clone(n)})
		}
	case 6: // another name
		if n != root {
			n.Name = allNames[r.N(len(allNames))]
		}
	case 7: // text where there was none
		n.Kids = append(n.Kids, xt.Kid{Text: oddValue(r)})
	case 8, 9: // another value
		if len(n.Attrs) > 0 {
			n.Attrs[r.N(len(n.Attrs))].Value = oddValue(r)
		}
	case 10, 11: // one more attribute
		a := allAttrs[r.N(len(allAttrs))]
		if _, ok := n.Attr(a.Space, a.Local); !ok {
			n.Attrs = append(n.Attrs, xt.Attr{Name: a, Value: oddValue(r)})
		}
	case 12: // one more element
		e := &xt.Node{Name: allNames[r.N(len(allNames))]}
		if r.B() {
			e.Kids = []xt.Kid{{Text: oddValue(r)}}
		}
		i := r.N(len(n.Kids) + 1)
		n.Kids = append(n.Kids[:i:i], append([]xt.Kid{{Elem: e}}, n.Kids[i:]...)...)
	case 13: // another namespace
		sp := r.Pick("", "urn:x", allNames[r.N(len(allNames))].Space)
		n.Walk(func(x *xt.Node) {
			if r.N(4) != 0 {
				x.Name.Space = sp
			}
		})
	}
}

// oddDoc draws a text close to an MPD; ok tells whether it is well-formed.
func oddDoc(r kit.R) (s, how string, events []xt.Event) {
	d := drawDoc(r, "all", nil, kit.DocOpts{Foreign: true})
	kind := r.N(12)
	if kind >= 3 && kind < 10 {
		for range r.In(1, 5) {
			oddTree(r, d.Root)
		}
		how = "odd tree"
	}
	st := kit.WildStyle(r, d.Root)
	if r.N(3) == 2 {
		st = kit.XMLStyle(r)
	}
	s = xt.Write(d.Root, st)
	if !utf8.ValidString(s) {
		r.Fatalf("generator: %q", s)
	}
	switch kind {
	case 0, 1, 2:
		return mutateBytes(r, s), "mutated bytes", nil
	case 10:
		return r.RawStr(), "random bytes", nil
	case 11:
		d, err := xt.ParseString(s)
		if err != nil {
			r.Fatalf("generator: %v\n%s", err, s)
		}
		b, _, what := breakDoc(r, s, d.Events)
		return b, "broken: " + what, d.Events
	}
	if at := declRE.FindAllStringSubmatchIndex(s, -1); at != nil && r.N(4) == 3 {
		// A namespace is also declared for what cannot be a prefix.
		m := at[r.N(len(at))]
		bad := " xmlns:" + r.Pick("1x", "-y", ".z", "1", "-", "\u00b7q", "1:2", "-xml") + "=" + s[m[2]:m[3]]
		i := m[r.N(2)]
		s, how = s[:i]+bad+s[i:], "no prefix"
	}
	return s, how, nil
}

var declRE = regexp.MustCompile(`\sxmlns(?::[^\s=:]+)?=("[^"<]+"|'[^'<]+')`)

// stdOutcome tells whether encoding/xml finds an MPD element, and whether it finds its end.
func stdOutcome(s string) error {
	d := xml.NewDecoder(strings.NewReader(s))
	for {
		t, err := d.Token()
		if err != nil {
			return err
		}
		if st, ok := t.(xml.StartElement); ok {
			if st.Name.Local != "MPD" {
				return errors.New("root element " + st.Name.Local)
			}
			return d.Skip()
		}
	}
}

// TestC04 reads arbitrary texts, and writes and reads what is accepted.
func TestC04(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		s, how, _ := oddDoc(r)
		c.Input(s)
		m, err := mpd.ReadFromString(s)
		ref := stdOutcome(s)
		c.Label("how:%s", strings.ToValidUTF8(how[:min(len(how), 30)], "?"))
		c.Key(s)
		c.NonTrivial(len(s) > 20)
		c.Sample(func() string { return how + ": " + s })
		if err != nil {
			if m != nil {
				r.Fatalf("an MPD together with error %v", err)
			}
			var se *fork.SyntaxError
			if errors.As(err, &se) && ref == nil && !colonQuirk.MatchString(s) {
				r.Fatalf("syntax error for a well-formed text: %v\n%q", err, s)
			}
			c.Label("rejected:%v", ref != nil)
			return
		}
		if m == nil {
			r.Fatalf("neither MPD nor error\n%q", s)
		}
		if ref != nil {
			r.Fatalf("accepted although it is not one well-formed MPD element: %v\n%q", ref, s)
		}
		c.Label("accepted:%s", strings.SplitN(how, ":", 2)[0])
		for _, ind := range []string{"", r.Pick(" ", "  ", "\t")} {
			out, err := m.WriteToString(ind, r.B())
			if err != nil {
				r.Fatalf("an accepted MPD cannot be written: %v\n%q", err, s)
			}
			if _, err := mpd.ReadFromString(out); err != nil {
				r.Fatalf("what was written cannot be read: %v\n%q\nfrom %q", err, out, s)
			}
		}
		// Queries on odd documents must not panic either.
		callAll(reflect.ValueOf(m), map[uintptr]bool{})
	})
}

// TestC04_broken reads MPD documents that are certainly not well-formed.
func TestC04_broken(t *testing.T) {
	kit.Check(t, 0.5, func(r kit.R, c *kit.Case) {
		d := drawDoc(r, "all", nil, kit.DocOpts{Foreign: true})
		s := xt.Write(d.Root, kit.WildStyle(r, d.Root))
		doc, err := xt.ParseString(s)
		if err != nil {
			r.Fatalf("generator: %v\n%s", err, s)
		}
		b, at, what := breakDoc(r, s, doc.Events)
		if _, err := xt.ParseOpts(b, xt.Opts{NoNS: true}); err == nil && !strings.HasPrefix(what, "undeclaring") || at >= doc.Events[rootEnd(doc.Events)].E {
			c.Label("still well-formed")
			return
		}
		c.Input(b)
		if _, err := mpd.ReadFromString(b); err == nil {
			r.Fatalf("accepted although it is not well-formed (%s at %d)\n%q", what, at, b)
		}
		c.Key(b)
		c.NonTrivial(true)
		c.Label("broken:%s", strings.ToValidUTF8(what, "?"))
		c.Sample(func() string { return what + ": " + b })
	})
}

// callAll calls all methods without arguments of everything below v.
func callAll(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		for i := range v.NumMethod() {
			n := v.Type().Method(i).Name
			if v.Method(i).Type().NumIn() == 0 && !strings.HasPrefix(n, "Set") {
				v.Method(i).Call(nil)
			}
		}
		callAll(v.Elem(), seen)
	case reflect.Slice:
		_, periods := v.Interface().([]*mpd.Period)
		for i := range v.Len() {
			if periods && !looked(i, v.Len()) {
				continue // the time of a query grows with the place in the list
			}
			if e := v.Index(i); e.Kind() == reflect.Struct {
				callAll(e.Addr(), seen)
			} else {
				callAll(e, seen)
			}
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			return
		}
		for i := range v.NumField() {
			if v.Type().Field(i).IsExported() {
				if f := v.Field(i); f.Kind() == reflect.Struct {
					callAll(f.Addr(), seen)
				} else {
					callAll(f, seen)
				}
			}
		}
	}
}

func rootEnd(ev []xt.Event) int {
	for i := len(ev) - 1; ; i-- {
		if ev[i].Kind == xt.End {
			return i
		}
	}
}
