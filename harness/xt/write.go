package xt

import (
	"fmt"
	"sort"
	"strings"
)

// Chooser supplies choices: N returns a value in 0..n-1; 0 is the plainest choice.
type Chooser interface{ N(n int) int }

// Style is a spelling of a document. The zero value is the plain one.
type Style struct {
	C Chooser
	// Each feature is used only if its flag is set (and C is not nil).
	Prefixes, AttrOrder, Quotes, Refs, CDATA, Comments, Space, Prolog, EmptyForm bool
	// Plain prefix conventions: namespace URI -> preferred prefix ("" = default namespace).
	Prefer map[string]string
	// HoistAll declares every namespace on the root element (plain mode only).
	HoistAll bool
	// KeepExtLocal keeps subtrees marked Island self-contained (all their namespaces declared inside).
	// ElementOnly reports whether white space may be added inside n.
	ElementOnly func(n *Node) bool
	// Island reports that the content of n must be spelled plainly with declarations of its own.
	Island func(n *Node) bool
}

func (s *Style) n(on bool, k int) int {
	if !on || s.C == nil {
		return 0
	}
	return s.C.N(k)
}

type writer struct {
	*Style
	b strings.Builder
}

// Write serializes the tree.
func Write(root *Node, st *Style) string {
	w := &writer{Style: st}
	if st.C == nil || !st.Prolog {
		// no prolog
	} else {
		switch st.C.N(5) {
		case 1:
			w.b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
		case 2:
			w.b.WriteString("<?xml version='1.0'?>")
		case 3:
			w.b.WriteString("<?xml version=\"1.0\" encoding='utf-8' standalone=\"yes\" ?>\r\n")
		case 4:
			w.b.WriteString("<?xml version=\"1.0\"?>\n<!-- a comment with <MPD> & \"quotes\" -->\n<?target data?>\n")
		}
		if st.C.N(8) == 7 {
			w.b.WriteString("<!DOCTYPE MPD>\n")
		}
	}
	w.elem(root, map[string]string{}, true, false)
	if st.C != nil && st.Prolog {
		switch st.C.N(4) {
		case 1:
			w.b.WriteString("\n")
		case 2:
			w.b.WriteString("\n<!-- trailer -->\n")
		case 3:
			w.b.WriteString("<?pi end?>")
		}
	}
	return w.b.String()
}

var prefixPool = []string{"a", "b", "mpd", "cenc", "xlink", "ns1", "p0", "scte35", "x-y", "é", "_", "A.b", "dash", "xsi", "up",
	"id", "start", "value", "type", "duration", "lang", "schemeIdUri", "t"}

func allNS(n *Node, m map[string]bool) {
	m[n.Space] = true
	for _, a := range n.Attrs {
		m[a.Space] = true
	}
	for _, k := range n.Kids {
		if k.Elem != nil {
			allNS(k.Elem, m)
		}
	}
}

func sortedKeys(m map[string]string) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (w *writer) elem(n *Node, outer map[string]string, root, island bool) {
	scope := make(map[string]string, len(outer)+2)
	for k, v := range outer {
		scope[k] = v
	}
	decl := map[string]string{}
	var declOrder []string
	used := map[string]string{}
	wild := w.Prefixes && !island
	declare := func(p, u string) {
		decl[p] = u
		scope[p] = u
		declOrder = append(declOrder, p)
	}
	free := func(p, u string) bool {
		if p == "xml" || p == "xmlns" {
			return false
		}
		if v, ok := decl[p]; ok && v != u {
			return false
		}
		if v, ok := used[p]; ok && v != u {
			return false
		}
		return true
	}
	if root {
		m := map[string]bool{}
		allNS(n, m)
		var us []string
		for u := range m {
			if u != "" && u != xmlNS {
				us = append(us, u)
			}
		}
		sort.Strings(us)
		for _, u := range us {
			hoist := false
			if wild {
				hoist = w.C != nil && w.C.N(2) == 1
			} else {
				hoist = w.HoistAll
			}
			if hoist {
				p, ok := w.Prefer[u]
				if wild && w.C.N(3) == 2 || !ok {
					p = prefixPool[w.n(wild, len(prefixPool))]
				}
				if p != "" && free(p, u) && decl[p] == "" {
					declare(p, u)
				}
			}
		}
	}
	get := func(u string, isAttr bool) string {
		if u == xmlNS {
			return "xml"
		}
		if isAttr && u == "" {
			return ""
		}
		if u == "" { // element in no namespace
			if scope[""] != "" {
				if _, ok := decl[""]; !ok {
					declare("", "")
				} // free by construction: element name is resolved first
			}
			used[""] = ""
			return ""
		}
		var cands []string
		for _, p := range sortedKeys(scope) {
			if scope[p] == u && !(isAttr && p == "") {
				cands = append(cands, p)
			}
		}
		if len(cands) > 0 && !(wild && w.C != nil && w.C.N(4) == 3) {
			p := cands[w.n(wild, len(cands))]
			used[p] = u
			return p
		}
		// new declaration
		var p string
		if wild && w.C != nil {
			for try := 0; ; try++ {
				k := w.C.N(len(prefixPool) + 6)
				switch {
				case k < 3 && !isAttr:
					p = ""
				case k < 6:
					p = w.Prefer[u]
					if p == "" && isAttr {
						p = "q"
					}
				default:
					p = prefixPool[k-6]
				}
				if free(p, u) {
					break
				}
				if try > 5 {
					for i := 0; ; i++ {
						p = fmt.Sprintf("z%d", i)
						if free(p, u) {
							break
						}
					}
					break
				}
			}
		} else {
			pp, ok := w.Prefer[u]
			p = pp
			if !ok || isAttr && p == "" {
				p = "g"
			}
			for i := 0; !free(p, u); i++ {
				p = fmt.Sprintf("g%d", i)
			}
		}
		if _, ok := decl[p]; !ok {
			declare(p, u)
		}
		used[p] = u
		return p
	}
	qn := func(p, l string) string {
		if p == "" {
			return l
		}
		return p + ":" + l
	}
	name := qn(get(n.Space, false), n.Local)
	type at struct{ q, v string }
	var ats []at
	for _, a := range n.Attrs {
		ats = append(ats, at{qn(get(a.Space, true), a.Local), a.Value})
	}
	if wild && w.C != nil && w.C.N(12) == 11 { // unused declaration
		p := prefixPool[w.C.N(len(prefixPool))]
		if _, ok := used[p]; !ok && decl[p] == "" {
			declare(p, "urn:unused:"+p)
		}
	}
	var ds []at
	for _, p := range declOrder {
		if p == "" {
			ds = append(ds, at{"xmlns", decl[p]})
		} else {
			ds = append(ds, at{"xmlns:" + p, decl[p]})
		}
	}
	ats = append(ds, ats...)
	if w.AttrOrder && w.C != nil && !island {
		for i := len(ats) - 1; i > 0; i-- {
			j := i - w.C.N(i+1)
			ats[i], ats[j] = ats[j], ats[i]
		}
	}
	w.b.WriteString("<" + name)
	sp := func() {
		w.b.WriteString([]string{" ", "\n", "\t ", "  ", "\r\n"}[w.n(w.Space && !island, 5)])
	}
	for _, a := range ats {
		sp()
		w.b.WriteString(a.q)
		w.b.WriteString([]string{"=", " =", "= ", "\n= "}[w.n(w.Space && !island, 4)])
		w.attr(a.v, island)
	}
	if w.Space && !island && w.n(true, 6) == 5 {
		w.b.WriteString(" ")
	}
	isl := island || w.Island != nil && w.Island(n)
	eo := !isl && (w.ElementOnly == nil || w.ElementOnly(n))
	if len(n.Kids) == 0 {
		k := w.n(w.EmptyForm && !island, 3)
		if k == 2 && !eo {
			k = 1
		}
		switch k {
		case 0:
			w.b.WriteString("/>")
			return
		case 1:
			w.b.WriteString("></" + name + ">")
			return
		default:
			w.b.WriteString(">")
			w.filler(eo)
			w.b.WriteString("</" + name + ">")
			return
		}
	}
	w.b.WriteString(">")
	childScope := scope
	if isl && !island {
		childScope = map[string]string{"": "\x00hidden"}
		for p := range scope {
			childScope[p] = "\x00hidden"
		}
	}
	for _, k := range n.Kids {
		if !isl {
			w.filler(eo)
		}
		if k.Elem != nil {
			w.elem(k.Elem, childScope, false, isl)
		} else {
			w.text(k.Text, isl)
		}
	}
	if !isl {
		w.filler(eo)
	}
	w.b.WriteString("</" + name)
	if w.Space && !island && w.n(true, 8) == 7 {
		w.b.WriteString("\n ")
	}
	w.b.WriteString(">")
}

func (w *writer) filler(eo bool) {
	if eo && w.Space && w.C != nil {
		w.b.WriteString([]string{"", "\n  ", " ", "\r\n\t"}[w.C.N(4)])
	}
	if w.Comments && w.C != nil {
		switch w.C.N(10) {
		case 7:
			w.b.WriteString("<!-- c <a b='1'>&unknown; -->")
		case 8:
			w.b.WriteString("<?proc some data > ?>")
		case 9:
			w.b.WriteString("<!---->")
		}
	}
}

func (w *writer) charRef(r rune) string {
	return fmt.Sprintf([]string{"&#%d;", "&#x%X;", "&#x%x;", "&#0%d;"}[w.n(true, 4)], r)
}

func (w *writer) attr(v string, island bool) {
	q := "\""
	if w.n(w.Quotes && !island, 2) == 1 {
		q = "'"
	}
	w.b.WriteString(q)
	refs := w.Refs && !island && w.C != nil && w.C.N(2) == 1
	for _, r := range v {
		switch {
		case r == '<':
			w.b.WriteString("&lt;")
		case r == '&':
			w.b.WriteString("&amp;")
		case r == '"' && q == "\"":
			w.b.WriteString("&quot;")
		case r == '\'' && q == "'":
			w.b.WriteString("&apos;")
		case r == '\t' || r == '\n' || r == '\r':
			fmt.Fprintf(&w.b, "&#%d;", r)
		case refs && w.C.N(4) == 3:
			if r == '>' && w.C.N(2) == 1 {
				w.b.WriteString("&gt;")
			} else {
				w.b.WriteString(w.charRef(r))
			}
		default:
			w.b.WriteRune(r)
		}
	}
	w.b.WriteString(q)
}

func (w *writer) text(t string, island bool) {
	mode := 0
	if !island && w.C != nil {
		if w.CDATA {
			mode = w.C.N(3)
		}
	}
	if mode == 2 && !strings.ContainsRune(t, '\r') && t != "" {
		// split in CDATA sections and text
		rs := []rune(t)
		cut := w.C.N(len(rs) + 1)
		w.plainText(string(rs[:cut]), island)
		rest := string(rs[cut:])
		rest = strings.ReplaceAll(rest, "]]>", "]]]]><![CDATA[>")
		w.b.WriteString("<![CDATA[" + rest + "]]>")
		return
	}
	w.plainText(t, island)
}

func (w *writer) plainText(t string, island bool) {
	refs := w.Refs && !island && w.C != nil && w.C.N(2) == 1
	comments := w.Comments && !island && w.C != nil && w.C.N(6) == 5
	for _, r := range t {
		if comments && w.C.N(8) == 7 {
			w.b.WriteString("<!--x-->")
		}
		switch {
		case r == '<':
			w.b.WriteString("&lt;")
		case r == '&':
			w.b.WriteString("&amp;")
		case r == '>' && !island && w.Refs && w.C != nil && !strings.HasSuffix(w.b.String(), "]]") && w.C.N(2) == 1:
			w.b.WriteByte('>')
		case r == '>':
			w.b.WriteString("&gt;")
		case r == '\n' && refs && w.C.N(4) == 3:
			w.b.WriteString("\r\n")
		case r == '\r':
			w.b.WriteString("&#xD;")
		case refs && w.C.N(4) == 3:
			w.b.WriteString(w.charRef(r))
		default:
			w.b.WriteRune(r)
		}
	}
}
