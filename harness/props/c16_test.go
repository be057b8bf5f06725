package props

import (
	"testing"

	"verif/harness/kit"
	"verif/harness/schema"
	"verif/harness/xt"
)

func extAttr(a *schema.Attr) bool { return a.Prefix != "" }
func extChild(c *schema.Child) bool {
	return c.Prefix != "" && c.Prefix != "scte35" && c.Space("") != schema.DASH
}

func extSlot(s schema.Slot) bool {
	return s.Attr != nil && extAttr(s.Attr) || s.Kid != nil && extChild(s.Kid)
}

var decoyNS = func() []string {
	l := []string{"", "urn:vendor:x", schema.DASH, "urn:mpeg:cenc:2014", "urn:microsoft:playready2", "http://www.w3.org/1999/xlink/", "HTTP://www.w3.org/1999/xlink", "xlink", "cenc", "mspr", "urn:mpeg:cenc:201", "x"}
	for _, u := range schema.NS {
		l = append(l, u)
		if len(u) > 3 {
			l = append(l, u[:len(u)-1], u+"x")
		}
	}
	return l
}()

// addDecoys adds elements and attributes which have the name of an extension's, but not its namespace.
func addDecoys(r kit.R, root *xt.Node) int {
	type slot struct {
		n *xt.Node
		t *schema.Type
		a *schema.Attr
		c *schema.Child
	}
	var slots []slot
	for _, p := range kit.Places(root) {
		if p.T == nil {
			continue
		}
		for _, a := range p.T.Attrs {
			if extAttr(a) && !p.T.AnyAttr {
				slots = append(slots, slot{p.N, p.T, a, nil})
			}
		}
		for _, c := range p.T.Kids {
			if extChild(c) {
				slots = append(slots, slot{p.N, p.T, nil, c})
			}
		}
	}
	if len(slots) == 0 {
		return 0
	}
	cnt := 0
	for range r.In(1, 3) {
		s := slots[r.N(len(slots))]
		ns := decoyNS[r.N(len(decoyNS))]
		if s.a != nil {
			name := xt.Name{Space: ns, Local: s.a.Local}
			bad := false
			for _, a := range s.t.Attrs {
				// An attribute of that name without namespace is another one.
				bad = bad || a.Local == name.Local && (a.Space() == name.Space || a.Prefix == "")
			}
			for _, a := range s.n.Attrs {
				bad = bad || a.Name == name
			}
			if !bad {
				at := r.N(len(s.n.Attrs) + 1)
				s.n.Attrs = append(s.n.Attrs[:at:at], append([]xt.Attr{{Name: name, Value: r.Pick("decoy", "", "x y", "-1", "true")}}, s.n.Attrs[at:]...)...)
				cnt++
			}
			continue
		}
		name := xt.Name{Space: ns, Local: s.c.Local}
		bad := false
		for _, c := range s.t.Kids {
			bad = bad || c.Local == name.Local && (c.Space("") == name.Space || c.Prefix == "" || c.Prefix == "scte35")
		}
		if bad {
			continue
		}
		e := &xt.Node{Name: name}
		// With the content of a genuine one at times.
		for _, k := range s.n.Elems() {
			if k.Local == name.Local && r.B() {
				e = kit.Clone(k)
				e.Name = name
			}
		}
		if len(e.Kids) == 0 {
			e.Kids = []xt.Kid{{Text: r.Pick("decoy", "AAAA", "")}}
		}
		at := r.N(len(s.n.Kids) + 1)
		s.n.Kids = append(s.n.Kids[:at:at], append([]xt.Kid{{Elem: e}}, s.n.Kids[at:]...)...)
		cnt++
	}
	return cnt
}

// TestC16 reads and writes documents with extension content under any prefixes, and with decoys.
func TestC16(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		d := drawDoc(r, "ext", extSlot, kit.DocOpts{NoScte: r.N(4) != 3})
		src := xt.Write(d.Root, kit.WildStyle(r, d.Root))
		c.Input(src)
		m := mustRead(r, src)
		ind := drawIndent(r)
		out := mustWrite(r, m, ind, r.B())
		o := mustParse(r, out)
		if err := kit.CompareDocs(d.Root, o, kit.CompareOpts{Indented: ind != "", Trim: true}); err != nil {
			r.Fatalf("focus %s: %v\ninput:  %s\noutput: %s", d.Focus, err, src, out)
		}
		with := kit.Clone(d.Root)
		n := addDecoys(r, with)
		if n > 0 {
			src2 := xt.Write(with, kit.WildStyle(r, with))
			c.Input(src2)
			m2 := mustRead(r, src2)
			if x := kit.Diff(m, m2, kit.EqOpts{Names: true, TrimMix: true}); x != "" {
				r.Fatalf("names of extensions in other namespaces change %s\nwithout: %s\nwith: %s", x, src, src2)
			}
		}
		c.Key(src)
		c.NonTrivial(n > 0 || d.Elems > 1)
		c.Label("focus:%s", d.Focus.String())
		c.Label("decoys:%d", n)
		c.Sample(func() string { return src })
	})
}
