package kit

import (
	"strconv"

	"verif/harness/schema"
	"verif/harness/xt"
)

// DocOpts shapes generated documents.
type DocOpts struct {
	Focus   func(schema.Slot) bool // slots to draw the focus from; nil: all
	Budget  int                    // approximate number of elements; 0: drawn
	NoScte  bool
	Foreign bool // extra foreign attributes on AnyAttr types
	Plain   bool // only simple string values
}

type docgen struct {
	R
	o      DocOpts
	budget int
	dens   int
}

// Doc is a generated document.
type Doc struct {
	Root  *xt.Node
	Focus schema.Slot
	Elems int
	Bulk  int // number of copies of an element, 0: none
}

var focusCache = map[string][]schema.Slot{}

// FocusSlots returns the slots a predicate selects, cached under key.
func FocusSlots(key string, f func(schema.Slot) bool) []schema.Slot {
	if s, ok := focusCache[key]; ok {
		return s
	}
	var r []schema.Slot
	for _, s := range schema.Slots {
		if f == nil || f(s) {
			r = append(r, s)
		}
	}
	focusCache[key] = r
	return r
}

// PathTo draws a path of child slots from MPD to the type.
func PathTo(r R, t *schema.Type) []schema.Slot {
	var rev []schema.Slot
	for t != schema.Root {
		ws := schema.Ways[t]
		w := ws[r.N(len(ws))]
		if len(rev) > 6 {
			for _, x := range ws {
				if schema.Depth[x.T] < schema.Depth[t] {
					w = x
				}
			}
		}
		rev = append(rev, w)
		t = w.T
	}
	out := make([]schema.Slot, len(rev))
	for i, w := range rev {
		out[len(rev)-1-i] = w
	}
	return out
}

// GenDoc draws a document with a given focus slot forced to be present.
func GenDoc(r R, focus schema.Slot, o DocOpts) *Doc {
	g := &docgen{R: r, o: o}
	g.budget = o.Budget
	if g.budget == 0 {
		g.budget = []int{4, 12, 12, 30, 30, 80, 200}[r.N(7)]
	}
	g.dens = []int{0, 10, 30, 60, 100}[r.N(5)]
	path := PathTo(r, focus.T)
	root := g.elem(schema.Root, schema.DASH, "MPD", path, focus, scteURI(r), true)
	bulk := 0
	if g.N(50) == 49 {
		bulk = g.bulk(root)
	}
	n := 0
	root.Walk(func(*xt.Node) { n++ })
	return &Doc{Root: root, Focus: focus, Elems: n, Bulk: bulk}
}

// bulk repeats one repeatable element very often and returns how often.
func (g *docgen) bulk(root *xt.Node) int {
	type spot struct {
		parent *xt.Node
		at     int
		c      *schema.Child
		size   int
	}
	var spots []spot
	for _, p := range Places(root) {
		if p.T == nil {
			continue
		}
		for i, k := range p.N.Kids {
			if k.Elem == nil {
				continue
			}
			if c := findChild(p.T, k.Elem); c != nil && c.Card == '*' {
				size := 0
				k.Elem.Walk(func(*xt.Node) { size++ })
				if size <= 12 {
					spots = append(spots, spot{p.N, i, c, size})
				}
			}
		}
	}
	if len(spots) == 0 {
		return 0
	}
	s := spots[g.N(len(spots))]
	n := []int{33, 66, 130, 260, 520, 1030}[g.N(6)] + g.N(3)
	if s.size == 1 && g.N(10) == 9 {
		n = 5000
	}
	if s.size > 4 {
		n = min(n, 262)
	}
	orig := s.parent.Kids[s.at]
	many := make([]xt.Kid, 0, n)
	many = append(many, orig)
	for i := range n {
		k := Clone(orig.Elem)
		number(s.c, k, i)
		many = append(many, xt.Kid{Elem: k})
	}
	kids := append([]xt.Kid(nil), s.parent.Kids[:s.at]...)
	kids = append(kids, many...)
	s.parent.Kids = append(kids, s.parent.Kids[s.at+1:]...)
	return n
}

// number makes a copy of an element different from the others.
func number(c *schema.Child, n *xt.Node, i int) {
	vary := func(kind, v string) (string, bool) {
		switch kind {
		case "s", "uri":
			return v + "#" + strconv.Itoa(i), true
		case "u8":
			return strconv.Itoa(i % 256), true
		case "u16", "u32", "u64", "i32", "i64":
			return strconv.Itoa(i), true
		}
		return v, false
	}
	if c.Type == nil || c.Type.Text != "" {
		kind, v := c.Kind, ""
		if c.Type != nil {
			kind = c.Type.Text
		}
		if len(n.Kids) > 0 {
			v = n.Kids[0].Text
		}
		if v, ok := vary(kind, v); ok && len(n.Kids) <= 1 {
			n.Kids = []xt.Kid{{Text: v}}
		}
		if c.Type == nil {
			return
		}
	}
	for j := range n.Attrs {
		for _, a := range c.Type.Attrs {
			if a.Space() == n.Attrs[j].Space && a.Local == n.Attrs[j].Local {
				var ok bool
				if n.Attrs[j].Value, ok = vary(a.Kind, n.Attrs[j].Value); ok {
					return
				}
			}
		}
	}
	for _, a := range c.Type.Attrs {
		has := false
		for _, x := range n.Attrs {
			has = has || a.Space() == x.Space && a.Local == x.Local
		}
		if v, ok := vary(a.Kind, "v"); ok && !has {
			n.Attrs = append(n.Attrs, xt.Attr{Name: xt.Name{Space: a.Space(), Local: a.Local}, Value: v})
			return
		}
	}
}

func scteURI(r R) string {
	if r.B() {
		return schema.SCTE35Legacy
	}
	return schema.NS["scte35"]
}

func (g *docgen) attr(kind, name string) string {
	if !g.o.Plain && (kind == "s" || kind == "uri") {
		if w, ok := g.Word(name); ok {
			return w
		}
	}
	return g.lex(kind)
}

func (g *docgen) lex(kind string) string {
	if g.o.Plain && (kind == "s" || kind == "uri") {
		return g.Pick("a", "video", "urn:x:y", "text 1", "b&c")
	}
	return g.Lex(kind)
}

// elem generates an element of type t; on is true as long as path/focus apply.
func (g *docgen) elem(t *schema.Type, space, local string, path []schema.Slot, focus schema.Slot, scte string, on bool) *xt.Node {
	g.budget--
	n := &xt.Node{Name: xt.Name{Space: space, Local: local}}
	atFocus := on && len(path) == 0
	dens := g.dens
	for _, a := range t.Attrs {
		if a.Flag == schema.Req || atFocus && focus.Attr == a || dens > 0 && g.P(dens) {
			n.Attrs = append(n.Attrs, xt.Attr{Name: xt.Name{Space: a.Space(), Local: a.Local}, Value: g.attr(a.Kind, a.Local)})
		}
	}
	if t.AnyAttr && g.P(15) {
		n.Attrs = append(n.Attrs, g.foreignAttr(0))
		if g.B() {
			n.Attrs = append(n.Attrs, g.foreignAttr(1))
		}
	}
	if t.Inner {
		g.inner(n)
		return n
	}
	if t.Text != "" && (atFocus && focus.Text || g.N(4) != 0) {
		if v := g.lex(t.Text); v != "" {
			n.Kids = append(n.Kids, xt.Kid{Text: v})
		}
	}
	for _, c := range t.Kids {
		force := on && (len(path) > 0 && path[0].Kid == c || atFocus && focus.Kid == c)
		if c.Prefix == "scte35" && g.o.NoScte && !force {
			continue
		}
		cnt := 0
		if force {
			cnt = 1
			if c.Card == '*' && g.B() {
				cnt = g.In(1, 4)
			}
		} else if g.budget > 0 && g.P(12+dens/8) {
			cnt = 1
			if c.Card == '*' {
				cnt = g.In(1, 3)
			}
		}
		main := 0
		if cnt > 1 {
			main = g.N(cnt)
		}
		for i := range cnt {
			if c.Type == nil {
				v := g.lex(c.Kind)
				k := &xt.Node{Name: xt.Name{Space: c.Space(scte), Local: c.Local}}
				if v != "" {
					k.Kids = []xt.Kid{{Text: v}}
				}
				g.budget--
				n.Kids = append(n.Kids, xt.Kid{Elem: k})
				continue
			}
			s := scte
			if c.Prefix == "scte35" {
				if !t.Scte {
					s = scteURI(g.R)
				} else if g.N(20) == 19 {
					s = scteURI(g.R)
				}
			}
			childOn := force && i == main && len(path) > 0
			var p []schema.Slot
			if childOn {
				p = path[1:]
			}
			n.Kids = append(n.Kids, xt.Kid{Elem: g.elem(c.Type, c.Space(s), c.Local, p, focus, s, childOn)})
		}
	}
	return n
}

func (g *docgen) foreignAttr(i int) xt.Attr {
	sp := g.Pick("urn:vendor:one", "urn:vendor:two", "http://www.w3.org/1999/xlink")
	if g.N(6) == 5 {
		sp = g.WildURI()
	}
	return xt.Attr{Name: xt.Name{Space: sp, Local: []string{"vendorAttr", "extra"}[i]}, Value: g.lex("s")}
}

// inner fills an Ext element with arbitrary content of foreign namespaces.
func (g *docgen) inner(n *xt.Node) {
	for range g.N(3) {
		n.Kids = append(n.Kids, xt.Kid{Elem: g.foreignElem(0)})
		if g.N(4) == 3 {
			n.Kids = append(n.Kids, xt.Kid{Text: "\n  "})
		}
	}
}

func (g *docgen) foreignElem(d int) *xt.Node {
	e := &xt.Node{Name: xt.Name{Space: g.Pick("urn:ext:a", "urn:ext:b", "", schema.NS["scte35"], schema.DASH), Local: g.Pick("Thing", "Data", "Period", "x", "Ext")}}
	if g.B() {
		e.Attrs = append(e.Attrs, xt.Attr{Name: xt.Name{Local: "k"}, Value: g.lex("s")})
	}
	if g.N(3) == 2 {
		e.Attrs = append(e.Attrs, xt.Attr{Name: xt.Name{Space: "urn:ext:b", Local: "k"}, Value: "v"})
	}
	if v := g.lex("s"); v != "" && g.B() {
		e.Kids = append(e.Kids, xt.Kid{Text: v})
	}
	if d < 3 {
		for range g.N(3) {
			e.Kids = append(e.Kids, xt.Kid{Elem: g.foreignElem(d + 1)})
		}
	}
	return e
}

// Prefer is the conventional choice of prefixes.
var Prefer = func() map[string]string {
	m := map[string]string{schema.SCTE35Legacy: "scte35", "urn:vendor:one": "v1", "urn:vendor:two": "v2", "urn:ext:a": "exta", "urn:ext:b": "extb"}
	for p, u := range schema.NS {
		if p == "up14" || p == "up16" {
			p = "up"
		}
		m[u] = p
	}
	return m
}()

// TypeOf finds the type of each element of a document (nil for unknown content).
func TypeOf(root *xt.Node) map[*xt.Node]*schema.Type {
	m := map[*xt.Node]*schema.Type{}
	var rec func(n *xt.Node, t *schema.Type)
	rec = func(n *xt.Node, t *schema.Type) {
		m[n] = t
		if t == nil || t.Inner {
			return
		}
		for _, k := range n.Kids {
			if k.Elem == nil {
				continue
			}
			if c := findChild(t, k.Elem); c != nil && c.Type != nil {
				rec(k.Elem, c.Type)
			}
		}
	}
	rec(root, schema.Root)
	return m
}

func findChild(t *schema.Type, e *xt.Node) *schema.Child {
	if c, _ := t.Find(e.Space, e.Local, schema.NS["scte35"]); c != nil {
		return c
	}
	c, _ := t.Find(e.Space, e.Local, schema.SCTE35Legacy)
	return c
}

func childIndex(t *schema.Type, e *xt.Node) int {
	if _, i := t.Find(e.Space, e.Local, schema.NS["scte35"]); i >= 0 {
		return i
	}
	_, i := t.Find(e.Space, e.Local, schema.SCTE35Legacy)
	return i
}

// PlainStyle is the usual spelling: DASH as default namespace, other prefixes declared where used.
func PlainStyle() *xt.Style { return &xt.Style{Prefer: Prefer} }

// StyleFor returns a style whose white-space freedom respects the document's types.
func StyleFor(root *xt.Node, s xt.Style) *xt.Style {
	tm := TypeOf(root)
	s.Prefer = Prefer
	s.ElementOnly = func(n *xt.Node) bool {
		t := tm[n]
		return t != nil && t.Text == "" && !t.Inner
	}
	s.Island = func(n *xt.Node) bool {
		t := tm[n]
		return t != nil && t.Inner
	}
	return &s
}

// WildStyle draws a spelling.
func WildStyle(r R, root *xt.Node) *xt.Style {
	s := xt.Style{C: r}
	f := r.N(512)
	all := f == 0 && r.B() || f >= 256
	bit := func(i int) bool { return all || f>>i&1 == 1 }
	s.Prefixes, s.AttrOrder, s.Quotes, s.Refs = bit(0), bit(1), bit(2), bit(3)
	s.CDATA, s.Comments, s.Space, s.Prolog = bit(4), bit(5), bit(6), bit(7)
	s.EmptyForm = bit(0) || bit(6)
	return StyleFor(root, s)
}

// PlainStyleFor is PlainStyle with the document's islands respected.
func PlainStyleFor(root *xt.Node) *xt.Style { return StyleFor(root, xt.Style{}) }
