package props

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"strings"
	"testing"

	fork "github.com/Eyevinn/dash-mpd/xml"

	"verif/harness/kit"
	"verif/harness/xt"
)

type usimple31 struct {
	A string `xml:"a,attr"`
	T string `xml:",chardata"`
	K []int  `xml:"uk"`
}

// step31 is one call on both encoders.
type step31 struct {
	show string
	f    func(e *fork.Encoder) error
	s    func(e *xml.Encoder) error
}

// step31s draws calls; open is what is open after them if nothing is refused.
func step31s(r kit.R, ns bool) []step31 {
	uris := []string{"", "urn:a", "urn:b"}
	if !ns {
		uris = uris[:1]
	}
	var open []xml.Name
	var out []step31
	tok := func(show string, f fork.Token, s xml.Token) {
		out = append(out, step31{show, func(e *fork.Encoder) error { return e.EncodeToken(f) }, func(e *xml.Encoder) error { return e.EncodeToken(s) }})
	}
	name := func() xml.Name {
		n := xml.Name{Space: uris[r.N(len(uris))], Local: r.Pick("a", "b", "c", "é", "a-b")}
		if ns && n.Space == "" {
			n.Local = "u" + n.Local // takes the namespace around it
		}
		return n
	}
	start := func() (fork.StartElement, xml.StartElement) {
		n := name()
		if r.N(25) == 24 {
			n.Local = ""
		}
		f, s := fork.StartElement{Name: fork.Name(n)}, xml.StartElement{Name: n}
		seen := map[xml.Name]bool{}
		for range r.Size(3) {
			a, v := name(), r.RawStr()
			if r.N(12) == 11 {
				a.Local = ""
			}
			if !seen[a] {
				seen[a] = true
				f.Attr = append(f.Attr, fork.Attr{Name: fork.Name(a), Value: v})
				s.Attr = append(s.Attr, xml.Attr{Name: a, Value: v})
			}
		}
		return f, s
	}
	for range r.In(1, 16) {
		switch r.N(15) {
		case 0, 1, 2, 3:
			f, s := start()
			tok(fmt.Sprintf("%q", s), f, s)
			if s.Name.Local != "" {
				open = append(open, s.Name)
			}
		case 4, 5, 6:
			n := name()
			if len(open) > 0 {
				n = open[len(open)-1]
			}
			switch r.N(10) {
			case 7:
				n.Local = r.Pick("a", "b", "zz", "")
			case 8:
				n.Space = r.Pick("", "urn:a", "urn:b", "urn:zz")
			case 9:
				if len(open) > 0 {
					n = open[r.N(len(open))]
				}
			}
			if len(open) > 0 && n == open[len(open)-1] {
				open = open[:len(open)-1]
			}
			tok(fmt.Sprintf("end %q", n), fork.EndElement{Name: fork.Name(n)}, xml.EndElement{Name: n})
		case 7:
			v := r.RawStr()
			tok(fmt.Sprintf("text %q", v), fork.CharData(v), xml.CharData(v))
		case 8:
			v := r.Pick("c", " c ", "", "-->", "a-->b", "a->b", "a-- >b", "<x>", "é", "&", "<!--", "->")
			tok(fmt.Sprintf("comment %q", v), fork.Comment(v), xml.Comment(v))
		case 9:
			target := r.Pick("xml", "xml", "x", "target", "", "1", "a b", "é", "xml-stylesheet", "?", "XML", "-a", "a\xff")
			inst := r.Pick("", "version=\"1.0\"", "?>", "a?>b", "? >", "?", ">", "version=\"1.0\" encoding=\"UTF-8\"")
			if ns {
				inst = "i"
			}
			tok(fmt.Sprintf("inst %q %q", target, inst), fork.ProcInst{Target: target, Inst: []byte(inst)}, xml.ProcInst{Target: target, Inst: []byte(inst)})
		case 10:
			var sb strings.Builder
			for range r.In(0, 6) {
				sb.WriteString(r.Pick("DOCTYPE a", "<", ">", "<", ">", "'", "\"", "<!--", "-->", "-", "<!-->", " ", "x", "!", "--", "<!ENTITY e 'v>'>", "<!--'-->", "é"))
			}
			v := sb.String()
			if ns { // the output is parsed
				v = r.Pick("DOCTYPE a", "<", ">")
			}
			tok(fmt.Sprintf("directive %q", v), fork.Directive(v), xml.Directive(v))
		case 11:
			switch r.N(5) {
			case 0:
				tok("nil", nil, nil)
			case 1:
				tok("string", "x", "x")
			case 2:
				tok("pointer", &fork.StartElement{Name: fork.Name{Local: "p"}}, &xml.StartElement{Name: xml.Name{Local: "p"}})
			case 3:
				tok("bytes", []byte("x"), []byte("x"))
			default:
				tok("name", fork.Name{Local: "x"}, xml.Name{Local: "x"})
			}
		case 12:
			if r.N(4) == 3 {
				out = append(out, step31{"close", func(e *fork.Encoder) error { return e.Close() }, func(e *xml.Encoder) error { return e.Close() }})
			} else {
				out = append(out, step31{"flush", func(e *fork.Encoder) error { return e.Flush() }, func(e *xml.Encoder) error { return e.Flush() }})
			}
		default:
			v := []any{usimple31{A: r.RawStr(), T: r.RawStr(), K: make([]int, r.N(3))}, "text", 7, nil, []int{1, 2}, &usimple31{}, (*usimple31)(nil), make(chan int), map[string]int{}, func() {}, struct {
				X complex64 `xml:"uX"`
			}{}}[r.N(11)]
			show := fmt.Sprintf("encode %T", v)
			if r.B() {
				out = append(out, step31{show, func(e *fork.Encoder) error { return e.Encode(v) }, func(e *xml.Encoder) error { return e.Encode(v) }})
				break
			}
			f, s := start()
			out = append(out, step31{fmt.Sprintf("%s as %q", show, s), func(e *fork.Encoder) error { return e.EncodeElement(v, f) }, func(e *xml.Encoder) error { return e.EncodeElement(v, s) }})
		}
	}
	return out
}

// bare31 tells that a name was given without namespace.
func bare31(n xml.Name) bool {
	return strings.HasPrefix(n.Local, "u") || n.Local == "int" || n.Local == "string"
}

// shape31 gives the tokens of a text without namespace declarations, as far as it can be read.
func shape31(b []byte) string {
	var sb strings.Builder
	d := xml.NewDecoder(bytes.NewReader(b))
	d.Strict = false
	for {
		t, err := d.Token()
		if err != nil {
			if err != io.EOF {
				sb.WriteString("error")
			}
			return sb.String()
		}
		if s, ok := t.(xml.StartElement); ok {
			var as []xml.Attr
			for _, a := range s.Attr {
				if a.Name.Space != "xmlns" && a.Name.Local != "xmlns" {
					as = append(as, a)
				}
			}
			s.Attr = as
			if bare31(s.Name) {
				s.Name.Space = ""
			}
			t = s
		}
		if e, ok := t.(xml.EndElement); ok && bare31(e.Name) {
			e.Name.Space = ""
			t = e
		}
		fmt.Fprintf(&sb, "%T%q\n", t, t)
	}
}

// Character references that may be used or not; the checks of C22 are about these.
var refs31 = strings.NewReplacer("&#x9;", "\t", "&#xA;", "\n", "&#34;", "\"", "&#39;", "'")

// TestC31 makes the same calls on an Encoder and on that of encoding/xml.
func TestC31(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		ns := r.N(3) == 2
		steps := step31s(r, ns)
		prefix, ind := "", drawIndent(r)
		if ind != "" && r.N(4) == 3 {
			prefix = r.Pick(" ", "\t")
		}
		var fb, sb bytes.Buffer
		f, s := fork.NewEncoder(&fb), xml.NewEncoder(&sb)
		pooled := r.B()
		if pooled {
			f = fork.AcquireEncoder(&fb)
		}
		f.Indent(prefix, ind)
		s.Indent(prefix, ind)
		show := ""
		refused := 0
		// Whether an XML declaration is refused after other tokens depends on what the buffer holds, so on its
		// size; all is a third encoder that is flushed after each call and tells how much was written.
		var all bytes.Buffer
		sized := xml.NewEncoder(&all)
		sized.Indent(prefix, ind)
		since := 0
		for i, st := range steps {
			show += st.show + "\n"
			c.Input(show)
			errF, errS := st.f(f), st.s(s)
			decl := strings.HasPrefix(st.show, `inst "xml"`)
			if decl && (errF == nil) != (errS == nil) && since >= 64 {
				c.Label("declaration far in the output")
				return
			}
			before := all.Len()
			_ = outcome(func() error { return st.s(sized) })
			_ = outcome(sized.Flush)
			if since += all.Len() - before; st.show == "flush" || st.show == "close" {
				since = 0
			}
			if (errF == nil) != (errS == nil) {
				r.Fatalf("call %d: error %v, encoding/xml gives %v\nindent %q\n%s", i+1, errF, errS, ind, show)
			}
			if errF != nil {
				refused++
			}
			// Encode, EncodeElement, Flush and Close leave nothing in the buffer.
			flushed := st.show == "flush" || st.show == "close" || strings.HasPrefix(st.show, "encode ") && errS == nil
			if flushed && !ns && refs31.Replace(fb.String()) != refs31.Replace(sb.String()) {
				r.Fatalf("call %d: written %q, encoding/xml writes %q\n%s", i+1, fb.Bytes(), sb.Bytes(), show)
			}
		}
		if errF, errS := f.Flush(), s.Flush(); (errF == nil) != (errS == nil) {
			r.Fatalf("Flush: error %v, encoding/xml gives %v\n%s", errF, errS, show)
		}
		if !ns {
			if refs31.Replace(fb.String()) != refs31.Replace(sb.String()) {
				r.Fatalf("written %q, encoding/xml writes %q\n%s", fb.Bytes(), sb.Bytes(), show)
			}
		} else if x, y := shape31(sb.Bytes()), shape31(fb.Bytes()); x != y {
			r.Fatalf("written differently than by encoding/xml\n%s\n%q\n%q\n%s", firstDiff(x, y), fb.Bytes(), sb.Bytes(), show)
		}
		if pooled {
			fork.ReleaseEncoder(f)
		}
		c.Key(show)
		c.NonTrivial(len(steps) > 1)
		c.Label("refused:%v", refused > 0)
		c.Sample(func() string { return show })
	})
}

// TestC31_prefix closes elements of drawn namespaces and prefixes with right and wrong end elements.
func TestC31_prefix(t *testing.T) {
	kit.Check(t, 0.5, func(r kit.R, c *kit.Case) {
		type el struct {
			node            *xt.Node
			preferred, used string
		}
		var b bytes.Buffer
		e := fork.NewEncoder(&b)
		e.Indent("", r.Pick("", "", " "))
		var open []el
		var root *xt.Node
		show := ""
		refused := 0
		call := func(tok fork.Token, why string) {
			show += fmt.Sprintf("%T%q\n", tok, tok)
			c.Input(show)
			before := b.String()
			err := e.EncodeToken(tok)
			if ferr := e.Flush(); ferr != nil {
				r.Fatalf("Flush: %v\n%s", ferr, show)
			}
			if why == "" && err != nil {
				r.Fatalf("refused: %v\nwritten %q\n%s", err, b.String(), show)
			}
			if why != "" {
				refused++
				if err == nil {
					r.Fatalf("accepted though %s\nwritten %q\n%s", why, b.String(), show)
				}
				if b.String() != before {
					r.Fatalf("refused with %v, but wrote %q\n%s", err, strings.TrimPrefix(b.String(), before), show)
				}
			}
		}
		uris := []string{"urn:a", "urn:b", "http://example.com/p"}
		end := func() {
			top := open[len(open)-1]
			name := fork.Name{Space: top.node.Space, Local: top.node.Local}
			for range r.N(3) {
				n, p, why := name, r.Pick("", "", top.preferred, top.used), ""
				switch r.N(5) {
				case 0:
					n.Local = r.Pick("a", "b", "zz", "a-b")
				case 1:
					n.Space = r.Pick("", "urn:a", "urn:b", "urn:zz")
				default:
					p = r.Pick("p", "q", "r", "zz", top.preferred, top.used)
				}
				if p != "" {
					n.Local = p + ":" + n.Local
				}
				switch {
				case p != "" && top.used != "" && p != top.used && p != top.preferred:
					why = "the prefix is another one"
				case n.Space != name.Space:
					why = "the namespace is another one"
				case n.Local != name.Local && n.Local != p+":"+name.Local:
					why = "the name is another one"
				}
				call(fork.EndElement{Name: n}, why)
				if why == "" {
					open = open[:len(open)-1]
					return
				}
			}
			if r.B() && top.preferred != "" {
				name.Local = top.preferred + ":" + name.Local
			}
			call(fork.EndElement{Name: name}, "")
			open = open[:len(open)-1]
		}
		for range r.In(1, 12) {
			switch {
			case r.B() && (root == nil || len(open) > 0):
				n := &xt.Node{Name: xt.Name{Space: uris[r.N(len(uris))], Local: r.Pick("a", "b")}}
				s := fork.StartElement{Name: fork.Name{Space: n.Space, Local: n.Local}}
				x := el{node: n}
				if r.B() {
					x.preferred = r.Pick("p", "q", "r")
					s.Name.Local = x.preferred + ":" + n.Local
				}
				if r.N(3) == 2 {
					s.Attr = append(s.Attr, fork.Attr{Name: fork.Name{Space: xmlnsURI, Local: r.Pick("p", "q", "r")}, Value: uris[r.N(len(uris))]})
				}
				if r.N(3) == 2 {
					a := xt.Name{Space: uris[r.N(len(uris))], Local: "x"}
					n.Attrs = append(n.Attrs, xt.Attr{Name: a, Value: "v"})
					s.Attr = append(s.Attr, fork.Attr{Name: fork.Name{Space: a.Space, Local: r.Pick("", "p:", "q:", "s:") + "x"}, Value: "v"})
				}
				call(s, "")
				tag := b.String()
				tag = tag[strings.LastIndexByte(tag, '<')+1:]
				tag = tag[:strings.IndexAny(tag, " >")]
				if p, _, ok := strings.Cut(tag, ":"); ok {
					x.used = p
				}
				if root == nil {
					root = n
				} else {
					top := open[len(open)-1].node
					top.Kids = append(top.Kids, xt.Kid{Elem: n})
				}
				open = append(open, x)
			case len(open) == 0:
				call(fork.EndElement{Name: fork.Name{Space: r.Pick("", "urn:a"), Local: r.Pick("a", "p:a")}}, "nothing is open")
			default:
				end()
			}
		}
		if root == nil {
			return
		}
		for len(open) > 0 {
			end()
		}
		if err := e.Close(); err != nil {
			r.Fatalf("Close: %v\n%s", err, show)
		}
		doc, err := xt.ParseString(b.String())
		if err != nil {
			r.Fatalf("written text is not well-formed: %v\n%q\n%s", err, b.String(), show)
		}
		doc.Root.Walk(func(n *xt.Node) {
			var k []xt.Kid
			for _, x := range n.Kids {
				if x.Elem != nil {
					k = append(k, x)
				}
			}
			n.Kids = k
		})
		if x, y := xt.Dump(root), xt.Dump(doc.Root); x != y {
			r.Fatalf("written differently: %s\n%q\n%s", firstDiff(x, y), b.String(), show)
		}
		c.Key(show)
		c.NonTrivial(refused > 0)
		c.Label("refused:%v", refused > 0)
		c.Sample(func() string { return show })
	})
}
