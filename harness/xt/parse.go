// Package xt is an XML toolkit written independently of encoding/xml and of the code under test: a strict
// XML 1.0 + Namespaces 1.0 parser (well-formedness checker), a tree, and a serializer with free choice of spelling.
package xt

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"
)

// Name is an expanded name.
type Name struct{ Space, Local string }

// Attr is an attribute; namespace declarations are kept apart.
type Attr struct {
	Name
	Prefix, Value string
}

// Kid is a child: an element, or text if Elem is nil.
type Kid struct {
	Elem *Node
	Text string
}

// Node is an element.
type Node struct {
	Name
	Prefix  string
	Attrs   []Attr
	Decls   []Decl // namespace declarations on this element
	Kids    []Kid
	Start   int // offset of '<' of the start tag
	InnerS  int // offsets of content
	InnerE  int
	SelfEnd bool
}

// Decl is a namespace declaration.
type Decl struct{ Prefix, URI string }

// Text returns the concatenated direct text.
func (n *Node) Text() string {
	var sb strings.Builder
	for _, k := range n.Kids {
		if k.Elem == nil {
			sb.WriteString(k.Text)
		}
	}
	return sb.String()
}

// Elems returns the child elements.
func (n *Node) Elems() []*Node {
	var r []*Node
	for _, k := range n.Kids {
		if k.Elem != nil {
			r = append(r, k.Elem)
		}
	}
	return r
}

// Attr returns the value of an attribute.
func (n *Node) Attr(space, local string) (string, bool) {
	for _, a := range n.Attrs {
		if a.Space == space && a.Local == local {
			return a.Value, true
		}
	}
	return "", false
}

// Walk visits n and all descendants.
func (n *Node) Walk(f func(*Node)) {
	f(n)
	for _, k := range n.Kids {
		if k.Elem != nil {
			k.Elem.Walk(f)
		}
	}
}

// EventKind is the kind of an Event.
type EventKind int

// Kinds of events.
const (
	Start EventKind = iota
	End
	Text
	Comment
	PI
	Directive
)

// RawAttr is an attribute as written.
type RawAttr struct{ Prefix, Local, Space, Value string }

// Event is a token.
type Event struct {
	Kind   EventKind
	Prefix string
	Name   Name
	Attrs  []RawAttr // Start only; includes namespace declarations
	Data   string
	S, E   int // byte offsets
}

// Doc is a parsed document.
type Doc struct {
	Root   *Node
	Events []Event
}

const xmlNS = "http://www.w3.org/XML/1998/namespace"
const xmlnsNS = "http://www.w3.org/2000/xmlns/"

type parser struct {
	s      string
	i      int
	ev     []Event
	scopes []map[string]string
	opts   Opts
}

// Opts relaxes checks.
type Opts struct {
	NoNS bool // do not enforce namespace well-formedness
}

type perr struct{ error }

func (p *parser) fail(f string, a ...any) {
	panic(perr{fmt.Errorf("offset %d: %s", p.i, fmt.Sprintf(f, a...))})
}

// IsChar reports whether r is an XML 1.0 Char.
func IsChar(r rune) bool {
	return r == 9 || r == 10 || r == 13 || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF
}

func isNameStart(r rune) bool {
	switch {
	case r == ':' || r == '_' || r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z':
		return true
	case r < 0xC0:
		return false
	}
	return r != 0xD7 && r != 0xF7 && r <= 0x2FF || r >= 0x370 && r <= 0x1FFF && r != 0x37E || r == 0x200C || r == 0x200D ||
		r >= 0x2070 && r <= 0x218F || r >= 0x2C00 && r <= 0x2FEF || r >= 0x3001 && r <= 0xD7FF ||
		r >= 0xF900 && r <= 0xFDCF || r >= 0xFDF0 && r <= 0xFFFD || r >= 0x10000 && r <= 0xEFFFF
}

func isNameChar(r rune) bool {
	return isNameStart(r) || r == '-' || r == '.' || r >= '0' && r <= '9' || r == 0xB7 || r >= 0x300 && r <= 0x36F || r == 0x203F || r == 0x2040
}

// IsNCName reports whether s is a valid unprefixed name.
func IsNCName(s string) bool {
	if s == "" || !utf8.ValidString(s) {
		return false
	}
	for i, r := range s {
		if r == ':' || i == 0 && !isNameStart(r) || !isNameChar(r) {
			return false
		}
	}
	return true
}

// Parse parses a complete document.
func Parse(data []byte) (*Doc, error) { return ParseOpts(string(data), Opts{}) }

// ParseString parses a complete document.
func ParseString(s string) (*Doc, error) { return ParseOpts(s, Opts{}) }

// ParseOpts parses a complete document.
func ParseOpts(s string, o Opts) (d *Doc, err error) {
	p := &parser{s: s, opts: o}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(perr); ok {
				d, err = nil, e.error
				return
			}
			panic(r)
		}
	}()
	p.document()
	root := build(p.ev)
	return &Doc{Root: root, Events: p.ev}, nil
}

func build(ev []Event) *Node {
	var root *Node
	var st []*Node
	for _, e := range ev {
		switch e.Kind {
		case Start:
			n := &Node{Name: e.Name, Prefix: e.Prefix, Start: e.S, InnerS: e.E}
			for _, a := range e.Attrs {
				if a.Prefix == "xmlns" {
					n.Decls = append(n.Decls, Decl{a.Local, a.Value})
				} else if a.Prefix == "" && a.Local == "xmlns" {
					n.Decls = append(n.Decls, Decl{"", a.Value})
				} else {
					n.Attrs = append(n.Attrs, Attr{Name{a.Space, a.Local}, a.Prefix, a.Value})
				}
			}
			if len(st) == 0 {
				root = n
			} else {
				t := st[len(st)-1]
				t.Kids = append(t.Kids, Kid{Elem: n})
			}
			st = append(st, n)
		case End:
			t := st[len(st)-1]
			t.InnerE = e.S
			t.SelfEnd = e.S == e.E
			st = st[:len(st)-1]
		case Text:
			if len(st) > 0 {
				t := st[len(st)-1]
				if k := len(t.Kids); k > 0 && t.Kids[k-1].Elem == nil {
					t.Kids[k-1].Text += e.Data
				} else {
					t.Kids = append(t.Kids, Kid{Text: e.Data})
				}
			}
		}
	}
	return root
}

func (p *parser) has(pre string) bool { return strings.HasPrefix(p.s[p.i:], pre) }

func (p *parser) peek() (rune, int) {
	if p.i >= len(p.s) {
		p.fail("unexpected end")
	}
	r, n := utf8.DecodeRuneInString(p.s[p.i:])
	if r == utf8.RuneError && n == 1 {
		p.fail("invalid UTF-8")
	}
	if !IsChar(r) {
		p.fail("illegal character U+%04X", r)
	}
	return r, n
}

func isSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func (p *parser) space() bool {
	s := p.i
	for p.i < len(p.s) && isSpace(p.s[p.i]) {
		p.i++
	}
	return p.i > s
}

func (p *parser) name() string {
	s := p.i
	r, n := p.peek()
	if !isNameStart(r) {
		p.fail("name expected")
	}
	p.i += n
	for p.i < len(p.s) {
		r, n := p.peek()
		if !isNameChar(r) {
			break
		}
		p.i += n
	}
	return p.s[s:p.i]
}

func (p *parser) split(q string) (string, string) {
	c := strings.Count(q, ":")
	if c == 0 {
		return "", q
	}
	if c > 1 {
		if p.opts.NoNS {
			return "", q
		}
		p.fail("bad qname %q", q)
	}
	i := strings.IndexByte(q, ':')
	a, b := q[:i], q[i+1:]
	if !IsNCName(a) || !IsNCName(b) {
		if p.opts.NoNS {
			return "", q
		}
		p.fail("bad qname %q", q)
	}
	return a, b
}

func (p *parser) document() {
	if p.has("<?xml") && len(p.s) > 5 && isSpace(p.s[5]) {
		p.xmlDecl()
	}
	seenRoot, seenDT := false, false
	for p.i < len(p.s) {
		switch {
		case isSpace(p.s[p.i]):
			s := p.i
			p.space()
			p.ev = append(p.ev, Event{Kind: Text, Data: norm(p.s[s:p.i]), S: s, E: p.i})
		case p.has("<!--"):
			p.comment()
		case p.has("<?"):
			p.pi()
		case p.has("<!DOCTYPE"):
			if seenRoot || seenDT {
				p.fail("misplaced doctype")
			}
			seenDT = true
			p.doctype()
		case p.has("<"):
			if seenRoot {
				p.fail("second root")
			}
			seenRoot = true
			p.element()
		default:
			p.fail("content outside root")
		}
	}
	if !seenRoot {
		p.fail("no root")
	}
}

func (p *parser) xmlDecl() {
	s := p.i
	e := strings.Index(p.s, "?>")
	if e < 0 {
		p.fail("unterminated xml declaration")
	}
	body := p.s[p.i+5 : e]
	// version required, then optional encoding, standalone
	rest := body
	take := func(key string, ok func(string) bool) bool {
		t := strings.TrimLeft(rest, " \t\r\n")
		if len(t) == len(rest) || !strings.HasPrefix(t, key) {
			return false
		}
		t = strings.TrimLeft(t[len(key):], " \t\r\n")
		if !strings.HasPrefix(t, "=") {
			return false
		}
		t = strings.TrimLeft(t[1:], " \t\r\n")
		if t == "" || t[0] != '"' && t[0] != '\'' {
			return false
		}
		q := t[0]
		t = t[1:]
		j := strings.IndexByte(t, q)
		if j < 0 || !ok(t[:j]) {
			return false
		}
		rest = t[j+1:]
		return true
	}
	if !take("version", func(v string) bool { return v == "1.0" }) {
		p.fail("bad xml declaration")
	}
	take("encoding", func(v string) bool { return strings.EqualFold(v, "utf-8") })
	take("standalone", func(v string) bool { return v == "yes" || v == "no" })
	if strings.Trim(rest, " \t\r\n") != "" {
		p.fail("bad xml declaration")
	}
	p.i = e + 2
	p.ev = append(p.ev, Event{Kind: PI, Name: Name{"", "xml"}, Data: norm(strings.TrimLeft(body, " \t\r\n")), S: s, E: p.i})
}

func norm(s string) string {
	if strings.IndexByte(s, '\r') < 0 {
		return s
	}
	return strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
}

func (p *parser) chars(s string, at int) {
	for j, r := range s {
		if r == utf8.RuneError {
			if _, n := utf8.DecodeRuneInString(s[j:]); n == 1 {
				p.i = at + j
				p.fail("invalid UTF-8")
			}
		}
		if !IsChar(r) {
			p.i = at + j
			p.fail("illegal character U+%04X", r)
		}
	}
}

func (p *parser) comment() {
	s := p.i
	j := strings.Index(p.s[p.i+4:], "--")
	if j < 0 {
		p.fail("unterminated comment")
	}
	d := p.s[p.i+4 : p.i+4+j]
	p.chars(d, p.i+4)
	e := p.i + 4 + j
	if !strings.HasPrefix(p.s[e:], "-->") {
		p.fail("-- in comment")
	}
	p.i = e + 3
	p.ev = append(p.ev, Event{Kind: Comment, Data: norm(d), S: s, E: p.i})
}

func (p *parser) pi() {
	s := p.i
	p.i += 2
	t := p.name()
	if strings.EqualFold(t, "xml") {
		p.fail("reserved PI target")
	}
	if strings.Contains(t, ":") && !p.opts.NoNS {
		p.fail("colon in PI target")
	}
	e := strings.Index(p.s[p.i:], "?>")
	if e < 0 {
		p.fail("unterminated PI")
	}
	d := p.s[p.i : p.i+e]
	if d != "" && !isSpace(d[0]) {
		p.fail("bad PI")
	}
	p.chars(d, p.i)
	p.i += e + 2
	p.ev = append(p.ev, Event{Kind: PI, Name: Name{"", t}, Data: norm(strings.TrimLeft(d, " \t\r\n")), S: s, E: p.i})
}

func (p *parser) doctype() {
	s := p.i
	p.i += 2
	ds := p.i
	data := ""
	depth := 1
	for depth > 0 {
		r, n := p.peek()
		switch {
		case r == '"' || r == '\'':
			j := strings.IndexRune(p.s[p.i+1:], r)
			if j < 0 {
				p.fail("unterminated literal")
			}
			p.chars(p.s[p.i+1:p.i+1+j], p.i+1)
			p.i += j + 2
			continue
		case p.has("<!--"):
			e := strings.Index(p.s[p.i+4:], "-->")
			if e < 0 {
				p.fail("unterminated comment")
			}
			// A comment counts as one space.
			data += p.s[ds:p.i] + " "
			p.chars(p.s[p.i+4:p.i+4+e], p.i+4)
			p.i += 4 + e + 3
			ds = p.i
			continue
		case r == '<':
			depth++
		case r == '>':
			depth--
		}
		p.i += n
	}
	p.ev = append(p.ev, Event{Kind: Directive, Data: data + p.s[ds:p.i-1], S: s, E: p.i})
}

func (p *parser) lookup(prefix string, attr bool) (string, bool) {
	switch prefix {
	case "xml":
		return xmlNS, true
	case "xmlns":
		return xmlnsNS, false
	}
	if attr && prefix == "" {
		return "", true
	}
	for i := len(p.scopes) - 1; i >= 0; i-- {
		if u, ok := p.scopes[i][prefix]; ok {
			return u, u != "" || prefix == ""
		}
	}
	return "", prefix == ""
}

func (p *parser) ref(inAttr bool) string {
	// at '&'
	j := strings.IndexByte(p.s[p.i:], ';')
	if j < 0 {
		p.fail("bad reference")
	}
	name := p.s[p.i+1 : p.i+j]
	var out string
	switch name {
	case "lt":
		out = "<"
	case "gt":
		out = ">"
	case "amp":
		out = "&"
	case "quot":
		out = "\""
	case "apos":
		out = "'"
	default:
		if len(name) < 2 || name[0] != '#' {
			p.fail("unknown entity %q", name)
		}
		d, base := name[1:], 10
		if d[0] == 'x' {
			d, base = d[1:], 16
		}
		if d == "" {
			p.fail("bad char ref")
		}
		v := 0
		for _, c := range []byte(d) {
			k := 99
			switch {
			case c >= '0' && c <= '9':
				k = int(c - '0')
			case c >= 'a' && c <= 'f':
				k = int(c-'a') + 10
			case c >= 'A' && c <= 'F':
				k = int(c-'A') + 10
			}
			if k >= base {
				p.fail("bad char ref %q", name)
			}
			v = v*base + k
			if v > 0x10FFFF {
				p.fail("char ref out of range")
			}
		}
		if !IsChar(rune(v)) {
			p.fail("char ref to illegal character")
		}
		out = string(rune(v))
	}
	p.i += j + 1
	return out
}

func (p *parser) element() {
	type open struct {
		q    string
		n    Name
		pref string
	}
	var stack []open
	var txt strings.Builder
	txtS := -1
	flush := func() {
		if txtS >= 0 {
			p.ev = append(p.ev, Event{Kind: Text, Data: txt.String(), S: txtS, E: p.i})
			txt.Reset()
			txtS = -1
		}
	}
	for {
		if len(stack) > 0 && p.i >= len(p.s) {
			p.fail("unexpected end inside %s", stack[len(stack)-1].q)
		}
		switch {
		case p.has("<!--") && len(stack) > 0:
			flush()
			p.comment()
		case p.has("<![CDATA["):
			if len(stack) == 0 {
				p.fail("CDATA outside")
			}
			flush()
			s := p.i
			j := strings.Index(p.s[p.i+9:], "]]>")
			if j < 0 {
				p.fail("unterminated CDATA")
			}
			d := p.s[p.i+9 : p.i+9+j]
			p.chars(d, p.i+9)
			p.i += 9 + j + 3
			p.ev = append(p.ev, Event{Kind: Text, Data: norm(d), S: s, E: p.i})
		case p.has("<?"):
			flush()
			p.pi()
		case p.has("</"):
			flush()
			s := p.i
			p.i += 2
			q := p.name()
			p.space()
			if !p.has(">") {
				p.fail("bad end tag")
			}
			p.i++
			o := stack[len(stack)-1]
			if q != o.q {
				p.fail("end tag %q does not match %q", q, o.q)
			}
			p.ev = append(p.ev, Event{Kind: End, Name: o.n, Prefix: o.pref, S: s, E: p.i})
			stack = stack[:len(stack)-1]
			p.scopes = p.scopes[:len(p.scopes)-1]
			if len(stack) == 0 {
				return
			}
		case p.has("<"):
			flush()
			s := p.i
			p.i++
			q := p.name()
			var raw []RawAttr
			self := false
			seen := map[string]bool{}
			for {
				sp := p.space()
				if p.has("/>") {
					p.i += 2
					self = true
					break
				}
				if p.has(">") {
					p.i++
					break
				}
				if !sp {
					p.fail("space expected in tag %s", q)
				}
				an := p.name()
				p.space()
				if !p.has("=") {
					p.fail("= expected")
				}
				p.i++
				p.space()
				v := p.attrValue()
				if seen[an] {
					p.fail("duplicate attribute %s", an)
				}
				seen[an] = true
				pre, loc := p.split(an)
				raw = append(raw, RawAttr{Prefix: pre, Local: loc, Value: v})
			}
			scope := map[string]string{}
			for _, a := range raw {
				if a.Prefix == "xmlns" {
					if !p.opts.NoNS {
						if a.Value == "" {
							p.fail("empty prefix binding %s", a.Local)
						}
						if a.Local == "xmlns" || (a.Local == "xml") != (a.Value == xmlNS) || a.Value == xmlnsNS {
							p.fail("illegal namespace binding %s=%q", a.Local, a.Value)
						}
					}
					scope[a.Local] = a.Value
				} else if a.Prefix == "" && a.Local == "xmlns" {
					if !p.opts.NoNS && (a.Value == xmlNS || a.Value == xmlnsNS) {
						p.fail("illegal default namespace %q", a.Value)
					}
					scope[""] = a.Value
				}
			}
			p.scopes = append(p.scopes, scope)
			exp := map[Name]bool{}
			for i := range raw {
				a := &raw[i]
				if a.Prefix == "xmlns" || a.Prefix == "" && a.Local == "xmlns" {
					continue
				}
				u, ok := p.lookup(a.Prefix, true)
				if !ok {
					if !p.opts.NoNS {
						p.fail("unbound prefix %q on attribute", a.Prefix)
					}
					u = a.Prefix
				}
				a.Space = u
				n := Name{u, a.Local}
				if exp[n] && !p.opts.NoNS {
					p.fail("duplicate attribute {%s}%s", u, a.Local)
				}
				exp[n] = true
			}
			pre, loc := p.split(q)
			u, ok := p.lookup(pre, false)
			if !ok {
				if !p.opts.NoNS {
					p.fail("unbound prefix %q on element", pre)
				}
				u = pre
			}
			nm := Name{u, loc}
			p.ev = append(p.ev, Event{Kind: Start, Prefix: pre, Name: nm, Attrs: raw, S: s, E: p.i})
			if self {
				p.ev = append(p.ev, Event{Kind: End, Prefix: pre, Name: nm, S: p.i, E: p.i})
				p.scopes = p.scopes[:len(p.scopes)-1]
				if len(stack) == 0 {
					return
				}
			} else {
				stack = append(stack, open{q, nm, pre})
			}
		case p.has("&"):
			if txtS < 0 {
				txtS = p.i
			}
			txt.WriteString(p.ref(false))
		default:
			if p.has("]]>") {
				p.fail("]]> in text")
			}
			r, n := p.peek()
			if txtS < 0 {
				txtS = p.i
			}
			if r == '\r' {
				if strings.HasPrefix(p.s[p.i+1:], "\n") {
					n = 2
				}
				r = '\n'
			}
			txt.WriteRune(r)
			p.i += n
		}
	}
}

func (p *parser) attrValue() string {
	r, _ := p.peek()
	if r != '"' && r != '\'' {
		p.fail("quote expected")
	}
	p.i++
	q := byte(r)
	var sb strings.Builder
	for {
		r, n := p.peek()
		switch {
		case n == 1 && p.s[p.i] == q:
			p.i++
			return sb.String()
		case r == '<':
			p.fail("< in attribute value")
		case r == '&':
			sb.WriteString(p.ref(true))
		case r == '\r' || r == '\n' || r == '\t':
			if r == '\r' && strings.HasPrefix(p.s[p.i+1:], "\n") {
				p.i++
			}
			sb.WriteByte(' ')
			p.i++
		default:
			sb.WriteString(p.s[p.i : p.i+n])
			p.i += n
		}
	}
}

// Dump renders a tree in a canonical, readable way (attributes sorted).
func Dump(n *Node) string {
	var sb strings.Builder
	dump(&sb, n, 0)
	return sb.String()
}

func dump(sb *strings.Builder, n *Node, d int) {
	fmt.Fprintf(sb, "%s{%s}%s", strings.Repeat(" ", d), n.Space, n.Local)
	as := append([]Attr(nil), n.Attrs...)
	sort.Slice(as, func(i, j int) bool {
		if as[i].Space != as[j].Space {
			return as[i].Space < as[j].Space
		}
		return as[i].Local < as[j].Local
	})
	for _, a := range as {
		fmt.Fprintf(sb, " {%s}%s=%q", a.Space, a.Local, a.Value)
	}
	sb.WriteByte('\n')
	for _, k := range n.Kids {
		if k.Elem != nil {
			dump(sb, k.Elem, d+1)
		} else {
			fmt.Fprintf(sb, "%s%q\n", strings.Repeat(" ", d+1), k.Text)
		}
	}
}

// Equal compares two trees by expanded names, attribute sets, text and order.
func Equal(a, b *Node) bool { return Dump(a) == Dump(b) }
