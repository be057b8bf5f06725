package kit

import (
	"strings"

	"verif/harness/schema"
	"verif/harness/xt"
)

// Place is an element of a document the schema defines; T is nil for one that only holds text.
type Place struct {
	N *xt.Node
	T *schema.Type
}

// Places returns all elements of a document that the schema defines, without the content of islands.
func Places(root *xt.Node) []Place {
	var out []Place
	tm := TypeOf(root)
	root.Walk(func(n *xt.Node) {
		t := tm[n]
		if t == nil || t.Inner {
			return
		}
		out = append(out, Place{n, t})
		for _, k := range n.Kids {
			if k.Elem != nil {
				if c := findChild(t, k.Elem); c != nil && c.Type == nil {
					out = append(out, Place{k.Elem, nil})
				}
			}
		}
	})
	return out
}

// Clone copies a tree.
func Clone(n *xt.Node) *xt.Node {
	c := *n
	c.Attrs = append([]xt.Attr(nil), n.Attrs...)
	c.Kids = make([]xt.Kid, len(n.Kids))
	for i, k := range n.Kids {
		if k.Elem != nil {
			k.Elem = Clone(k.Elem)
		}
		c.Kids[i] = k
	}
	return &c
}

var foreignNS = []string{"urn:vendor:x", "urn:ext:a", "", schema.DASH, "urn:mpeg:cenc:2013", "http://www.w3.org/1999/xlink", "http://www.scte.org/schemas/35", "urn:mpeg:dash:schema:mpd:2018", "http://www.w3.org/2001/XMLSchema-instance", "http://www.w3.org/XML/1998/namespace"}
var foreignLocals = []string{"Period", "BaseURL", "AdaptationSet", "Representation", "MPD", "SegmentTemplate", "pssh", "Foo", "x", "SpliceInfoSection", "Binary", "é", "_a.b-c", "Ext", "S", "id", "href", "value", "Event", "start", "lang", "vendorAttr"}

// Foreign draws a subtree; ok decides whether its root may have that name.
func Foreign(r R, ok func(xt.Name) bool, depth int) *xt.Node {
	n := &xt.Node{}
	for try := 0; ; try++ {
		n.Name = xt.Name{Space: foreignNS[r.N(len(foreignNS)-1)], Local: foreignLocals[r.N(len(foreignLocals))]}
		if ok == nil || ok(n.Name) {
			break
		}
		if try > 20 {
			n.Name = xt.Name{Space: "urn:vendor:x", Local: "UnknownThing"}
			break
		}
	}
	seen := map[xt.Name]bool{}
	for range r.N(4) {
		a := xt.Name{Space: foreignNS[r.N(len(foreignNS))], Local: foreignLocals[r.N(len(foreignLocals))]}
		if !seen[a] {
			seen[a] = true
			n.Attrs = append(n.Attrs, xt.Attr{Name: a, Value: r.Str()})
		}
	}
	for range r.N(4) {
		switch {
		case r.N(3) == 2:
			if s := r.Str(); s != "" {
				n.Kids = append(n.Kids, xt.Kid{Text: s})
			}
		case depth > 0:
			n.Kids = append(n.Kids, xt.Kid{Elem: Foreign(r, nil, depth-1)})
		}
	}
	return n
}

// almost gives a name that is nearly s.
func almost(r R, s string) string {
	switch r.N(7) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s[:1]) + s[1:]
	case 3:
		return strings.ToUpper(s[:1]) + s[1:]
	case 4:
		return s + r.Pick("s", "_", "1", "-", "Type", "Attr", ".")
	case 5:
		return s[:max(1, len(s)-1)]
	}
	return "_" + s
}

// decoy draws a small element of the document other than its root.
func decoy(r R, ps []Place, root *xt.Node) *xt.Node {
	for range 5 {
		if p := ps[r.N(len(ps))]; p.N != root {
			return p.N
		}
	}
	return &xt.Node{Name: xt.Name{Space: root.Name.Space, Local: "Period"}}
}

// extreme makes the content of an element very deep, long or wide, in front of what it has.
func extreme(r R, e *xt.Node) {
	count := func() int {
		if r.N(8) == 7 {
			return []int{5000, 9999, 10000, 10001, 33000}[r.N(5)]
		}
		return []int{100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000}[r.N(17)]
	}
	name := xt.Name{Space: e.Name.Space, Local: foreignLocals[r.N(len(foreignLocals))]}
	var k xt.Kid
	switch r.N(4) {
	case 0, 1:
		n := &xt.Node{Name: name}
		for range count() {
			n = &xt.Node{Name: name, Kids: []xt.Kid{{Elem: n}}}
		}
		k.Elem = n
	case 2:
		n := &xt.Node{Name: name}
		for range count() {
			n.Kids = append(n.Kids, xt.Kid{Elem: &xt.Node{Name: name}})
		}
		k.Elem = n
	default:
		k.Text = strings.Repeat(r.Pick("x", "é ", "<a>&", "]]>"), 10*count())
	}
	e.Kids = append([]xt.Kid{k}, e.Kids...)
}

// AddUnknown inserts unknown elements and attributes at drawn places of a document; it returns their number.
func AddUnknown(r R, root *xt.Node) int {
	ps := Places(root)
	cnt := 0
	for range r.In(1, 4) {
		p := ps[r.N(len(ps))]
		n := p.N
		if r.N(3) == 0 && (p.T == nil || !p.T.AnyAttr) {
			for try := 0; try < 20; try++ {
				a := xt.Name{Space: foreignNS[r.N(len(foreignNS))], Local: foreignLocals[r.N(len(foreignLocals))]}
				if p.T != nil && len(p.T.Attrs) > 0 && r.P(30) {
					a.Local = almost(r, p.T.Attrs[r.N(len(p.T.Attrs))].Local)
				}
				bad := false
				if p.T != nil {
					for _, x := range p.T.Attrs {
						bad = bad || x.Local == a.Local
					}
				}
				for _, x := range n.Attrs {
					bad = bad || x.Name == a
				}
				if bad {
					continue
				}
				at := r.N(len(n.Attrs) + 1)
				n.Attrs = append(n.Attrs[:at:at], append([]xt.Attr{{Name: a, Value: r.Str()}}, n.Attrs[at:]...)...)
				cnt++
				break
			}
			continue
		}
		ok := func(x xt.Name) bool {
			if p.T != nil {
				for _, c := range p.T.Kids {
					if c.Local == x.Local {
						return false
					}
				}
			}
			return true
		}
		e := Foreign(r, ok, r.N(5))
		if p.T != nil && len(p.T.Kids) > 0 && r.P(20) {
			x := xt.Name{Space: e.Name.Space, Local: almost(r, p.T.Kids[r.N(len(p.T.Kids))].Local)}
			if r.B() {
				x.Space = n.Name.Space
			}
			if ok(x) {
				e.Name = x
			}
		}
		if r.N(3) == 2 {
			// known content, but not in its place
			e.Kids = append(e.Kids, xt.Kid{Elem: Clone(decoy(r, ps, root))})
		}
		if r.N(12) == 11 {
			extreme(r, e)
		}
		at := r.N(len(n.Kids) + 1)
		n.Kids = append(n.Kids[:at:at], append([]xt.Kid{{Elem: e}}, n.Kids[at:]...)...)
		cnt++
	}
	return cnt
}
