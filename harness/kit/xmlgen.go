package kit

import (
	"fmt"
	"strings"

	"verif/harness/xt"
)

// XMLOpts steers GenXML.
type XMLOpts struct {
	Big    bool // also documents that are large in one dimension
	Values func(r R) string
}

var xmlLocals = []string{"a", "b", "MPD", "x-y", "ns.1", "_", "é", "Period", "c", "xmlish", "A1", "długie", "loooooooooooooooooooooooooooooooooooooooooooooooooooooong", "d"}
var xmlSpaces = []string{"", "", "urn:a", "urn:b", "http://example.com/x/y#z", "urn:mpeg:dash:schema:mpd:2011", "a", "http://www.w3.org/1999/xlink", "x y&z<", "urn:é"}

const xmlURI = "http://www.w3.org/XML/1998/namespace"

// GenXML draws an XML tree that has nothing to do with DASH.
func GenXML(r R, o XMLOpts) *xt.Node {
	if o.Values == nil {
		o.Values = func(r R) string { return r.Str() }
	}
	kind := 0
	if o.Big && r.N(25) == 24 {
		kind = r.In(1, 5)
	}
	count := 0
	budget := r.In(1, 30)
	var elem func(depth int) *xt.Node
	local := func() string {
		count++
		if kind == 1 {
			return fmt.Sprintf("n%d", count)
		}
		return xmlLocals[r.N(len(xmlLocals))]
	}
	elem = func(depth int) *xt.Node {
		budget--
		n := &xt.Node{Name: xt.Name{Space: xmlSpaces[r.N(len(xmlSpaces))], Local: local()}}
		if r.N(30) == 29 {
			n.Space = r.WildURI()
		}
		seen := map[xt.Name]bool{}
		na := r.Size(3)
		for range na {
			a := xt.Name{Space: xmlSpaces[r.N(len(xmlSpaces))], Local: local()}
			if r.N(20) == 19 {
				a.Space = r.WildURI()
			}
			if r.N(8) == 7 {
				a = xt.Name{Space: xmlURI, Local: r.Pick("lang", "space", "base", "id")}
			}
			if !seen[a] {
				seen[a] = true
				n.Attrs = append(n.Attrs, xt.Attr{Name: a, Value: o.Values(r)})
			}
		}
		for range r.Size(4) {
			if budget > 0 && depth < 12 && r.N(3) != 0 {
				n.Kids = append(n.Kids, xt.Kid{Elem: elem(depth + 1)})
			} else if s := o.Values(r); s != "" {
				n.Kids = append(n.Kids, xt.Kid{Text: s})
			}
		}
		return n
	}
	root := elem(0)
	switch kind {
	case 1: // very many names
		for range r.In(900, 2500) {
			n := &xt.Node{Name: xt.Name{Space: root.Space, Local: local()}}
			if r.N(2) == 1 {
				n.Attrs = append(n.Attrs, xt.Attr{Name: xt.Name{Local: local()}, Value: "v"})
			}
			root.Kids = append(root.Kids, xt.Kid{Elem: n})
		}
		root.Kids = append(root.Kids, xt.Kid{Elem: elem(1)})
	case 2: // deep
		n := root
		for range r.In(100, 4000) {
			k := &xt.Node{Name: xt.Name{Space: n.Space, Local: xmlLocals[r.N(3)]}}
			n.Kids = append(n.Kids, xt.Kid{Elem: k})
			n = k
		}
		n.Kids = append(n.Kids, xt.Kid{Text: "deep"})
	case 3: // long values
		s := strings.Repeat(r.Pick("a", "é", "\U0001F600", "ab ", "<", "&", "]]>"), r.In(1000, 9000))
		root.Attrs = append(root.Attrs, xt.Attr{Name: xt.Name{Local: "long"}, Value: s})
		root.Kids = append(root.Kids, xt.Kid{Text: s + "x"})
	case 4: // many attributes
		for i := range r.In(50, 600) {
			root.Attrs = append(root.Attrs, xt.Attr{Name: xt.Name{Local: fmt.Sprintf("at%d", i)}, Value: fmt.Sprint(i)})
		}
	case 5: // many namespaces
		for i := range r.In(50, 400) {
			u := fmt.Sprintf("urn:many:%d", i)
			n := &xt.Node{Name: xt.Name{Space: u, Local: "m"}}
			n.Attrs = append(n.Attrs, xt.Attr{Name: xt.Name{Space: fmt.Sprintf("urn:attr:%d", i), Local: "m"}, Value: "1"})
			root.Kids = append(root.Kids, xt.Kid{Elem: n})
		}
	}
	return root
}

// XMLStyle draws a spelling for a tree of GenXML.
func XMLStyle(r R) *xt.Style {
	s := &xt.Style{C: r, ElementOnly: func(*xt.Node) bool { return false }}
	f := r.N(256)
	bit := func(i int) bool { return f >= 128 || f>>i&1 == 1 }
	s.Prefixes, s.AttrOrder, s.Quotes, s.Refs = bit(0), bit(1), bit(2), bit(3)
	s.CDATA, s.Comments, s.Space, s.EmptyForm = bit(4), bit(5), bit(6), true
	return s
}

// XMLText draws a document with prolog and epilog.
func XMLText(r R, root *xt.Node) string {
	var sb strings.Builder
	sb.WriteString(r.Pick("", "", "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml  version = '1.0' encoding='utf-8' standalone=\"yes\" ?>\r\n"))
	misc := func() {
		for range r.Size(2) {
			sb.WriteString(r.Pick("\n", " ", "\r\n\t", "<!-- <a> & \"c\" ]]> -->", "<!---->", "<?p?>", "<?p-i  some > data = \"<x>\" ? ?>", "<!-- - -->"))
		}
	}
	misc()
	if r.N(5) == 4 {
		sb.WriteString(Doctype(r))
		misc()
	}
	sb.WriteString(xt.Write(root, XMLStyle(r)))
	misc()
	return sb.String()
}

// Doctype draws a document type declaration.
func Doctype(r R) string {
	if r.B() {
		return r.Pick("<!DOCTYPE a>", "<!DOCTYPE a SYSTEM \"x>y.dtd\">", "<!DOCTYPE a PUBLIC '-//x' \"y'z\">", "<!DOCTYPE a [\n<!ELEMENT a (b)>\n<!ATTLIST a b CDATA #IMPLIED>]>", "<!DOCTYPE a [<!ENTITY e '>'>]>")
	}
	var sb strings.Builder
	sb.WriteString("<!DOCTYPE " + r.Pick("a", "é", "p:a", "MPD"))
	sb.WriteString(r.Pick("", " SYSTEM 's'", " PUBLIC \"p\" '<!--'", " SYSTEM '\"-->'"))
	sb.WriteString(r.Pick(" [", "["))
	for range r.Size(5) {
		sb.WriteString(r.Pick("\n", " ", "<!ELEMENT a ANY>", "<!ELEMENT b (#PCDATA|c)*>", "<!ATTLIST a b CDATA \"<!-- -->\">", "<!ENTITY e \"'<x>'\">", "<!ENTITY % p '%%\"'>", "%p;", "<!NOTATION n SYSTEM \"]]>\">",
			"<!---->", "<!-- it's > < \" <!ELEMENT -->", "<!-- - -> -->", "<!--<-->", "<!--\n-->", "<!-- "+r.Pick("é", "]>", "'", "&x;", "?>")+" -->"))
	}
	sb.WriteString("]" + r.Pick("", " ", "\n") + ">")
	return sb.String()
}
