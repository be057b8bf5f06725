package props

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"testing"

	fork "github.com/Eyevinn/dash-mpd/xml"

	"verif/harness/kit"
	"verif/harness/xt"
)

const xmlURI = "http://www.w3.org/XML/1998/namespace"

var c21URIs = []string{"urn:a", "urn:b", "urn:c", "http://example.com/p", "http://example.com/q/", "http://example.com/xml", "http://x/1", "a", "urn:&", xmlURI}
var c21Prefixes = []string{"p", "q", "p", "q", "r", "_", "p_1", "xml", "xmlns", "XMLish", "é", "1x", "a.b-c", "urn"}

// tag21 is a name of a struct tag.
type tag21 struct{ uri, prefix, local string }

func (t tag21) String() string {
	s := t.local
	if t.prefix != "" {
		s = t.prefix + ":" + s
	}
	if t.uri != "" {
		s = t.uri + " " + s
	}
	return s
}

type field21 struct {
	tag  tag21
	kind string // attr, attrs, text, any, elem, elems, struct, structs
	num  bool
	omit bool
	sub  *type21
}

type type21 struct {
	name   *tag21 // of XMLName
	fields []field21
	typ    reflect.Type
}

func drawTag21(r kit.R, local string, attr bool) tag21 {
	t := tag21{local: local}
	if r.N(6) != 5 {
		t.uri = c21URIs[r.N(len(c21URIs)-r.N(2))]
		if t.uri == xmlURI && !attr {
			t.uri = "urn:d"
		}
		if r.N(5) != 4 {
			t.prefix = c21Prefixes[r.N(len(c21Prefixes))]
		}
	}
	return t
}

var fork21Name = reflect.TypeOf(fork.Name{})

func drawType21(r kit.R, depth int, named bool) *type21 {
	t := &type21{}
	var fs []reflect.StructField
	add := func(name string, typ reflect.Type, tag string) {
		fs = append(fs, reflect.StructField{Name: name, Type: typ, Tag: reflect.StructTag(fmt.Sprintf(`xml:"%s"`, tag))})
	}
	if named {
		n := drawTag21(r, r.Pick("root", "x"), false)
		t.name = &n
		add("XMLName", fork21Name, n.String())
	}
	used := map[string]string{} // local -> "", or "ns" if all fields of the name have a namespace
	elems := map[tag21]bool{}
	for i := range r.In(1, 6) {
		f := field21{kind: r.Pick("attr", "attr", "attr", "elem", "elem", "elems", "struct", "struct", "structs", "any", "text"), num: r.N(4) == 3}
		if f.sub = nil; depth <= 0 && strings.HasPrefix(f.kind, "struct") {
			f.kind = "elem"
		}
		attr := f.kind == "attr"
		f.tag = drawTag21(r, r.Pick("a", "b", "c", "d"), attr)
		if f.tag.uri == "" && !attr {
			f.tag.local = "u" + f.tag.local // its namespace is not fixed
		}
		tag := f.tag.String()
		var typ reflect.Type = reflect.TypeOf("")
		if f.num {
			typ = reflect.TypeOf(int32(0))
		}
		switch f.kind {
		case "any", "text":
			if used[f.kind] != "" {
				continue
			}
			used[f.kind] = "x"
			tag = ",any,attr"
			typ = reflect.TypeOf([]fork.Attr{})
			if f.kind == "text" {
				tag, typ, f.num = ",chardata", reflect.TypeOf(""), false
			}
			t.fields = append(t.fields, f)
			add(fmt.Sprintf("F%d", i), typ, tag)
			continue
		case "elems":
			typ = reflect.SliceOf(typ)
		case "struct", "structs":
			own := r.N(4) == 3
			f.sub = drawType21(r, depth-1, own)
			if own {
				f.tag = *f.sub.name
				if f.tag.uri == "" {
					f.sub.name.local = "u" + f.tag.local
					f.tag = *f.sub.name
					f.sub.retag()
				}
				tag = ""
				if f.kind == "structs" { // the name of an element type is not looked up
					tag = f.tag.String()
				}
			}
			typ = f.sub.typ
			if f.kind == "structs" {
				typ = reflect.SliceOf(typ)
			} else if r.B() {
				typ = reflect.PointerTo(typ)
			}
		}
		// Fields of one name differ in their namespaces.
		key := fmt.Sprint(attr, f.tag.local)
		if attr && used[key] != "" || !attr && used[key] == "plain" || !attr && used[key] != "" && f.tag.uri == "" {
			continue
		}
		id := tag21{uri: f.tag.uri, local: key}
		if elems[id] {
			continue
		}
		elems[id] = true
		used[key] = "ns"
		if f.tag.uri == "" {
			used[key] = "plain"
		}
		if attr {
			tag += ",attr"
		}
		if f.sub == nil && r.N(4) == 3 {
			tag += ",omitempty"
			f.omit = true
		}
		t.fields = append(t.fields, f)
		add(fmt.Sprintf("F%d", i), typ, tag)
	}
	t.typ = reflect.StructOf(fs)
	return t
}

// retag builds the type again after its name has changed.
func (t *type21) retag() {
	var fs []reflect.StructField
	for i := range t.typ.NumField() {
		f := t.typ.Field(i)
		if f.Name == "XMLName" {
			f.Tag = reflect.StructTag(fmt.Sprintf(`xml:"%s"`, t.name))
		}
		f.Offset, f.Index = 0, nil
		fs = append(fs, f)
	}
	t.typ = reflect.StructOf(fs)
}

// fill draws a value.
func (t *type21) fill(r kit.R, v reflect.Value) {
	i := 0
	if t.name != nil {
		i = 1
	}
	scalar := func(v reflect.Value) {
		if r.N(4) == 0 {
			return
		}
		if v.Kind() == reflect.String {
			v.SetString(r.Str())
		} else {
			v.SetInt(r.SInt(32))
		}
	}
	for k, f := range t.fields {
		fv := v.Field(i + k)
		switch f.kind {
		case "attr", "elem":
			scalar(fv)
		case "text":
			fv.SetString(r.Str())
		case "elems":
			n := r.N(3)
			fv.Set(reflect.MakeSlice(fv.Type(), n, n))
			for j := range n {
				scalar(fv.Index(j))
			}
		case "structs":
			n := r.N(3)
			fv.Set(reflect.MakeSlice(fv.Type(), n, n))
			for j := range n {
				f.sub.fill(r, fv.Index(j))
			}
		case "struct":
			if fv.Kind() == reflect.Pointer {
				if r.N(4) == 3 {
					continue
				}
				fv.Set(reflect.New(f.sub.typ))
				fv = fv.Elem()
			}
			f.sub.fill(r, fv)
		case "any":
			seen := map[fork.Name]bool{}
			var as []fork.Attr
			for range r.N(4) {
				n := fork.Name{Space: r.Pick("", "urn:a", "urn:b", "urn:any", "http://example.com/p", xmlURI), Local: r.Pick("any1", "any2", "any3")}
				if r.N(6) == 5 {
					n.Space = r.WildURI()
				}
				val := r.Str()
				if r.N(5) == 4 {
					n = fork.Name{Space: xmlnsURI, Local: r.Pick("p", "q", "z", "_")}
					val = r.Pick("urn:a", "urn:b", "urn:z")
				}
				if !seen[n] {
					seen[n] = true
					as = append(as, fork.Attr{Name: n, Value: val})
				}
			}
			if len(as) > 0 {
				fv.Set(reflect.ValueOf(as))
			}
		}
	}
}

// tree gives the element a value stands for.
func (t *type21) tree(v reflect.Value, name tag21) *xt.Node {
	n := &xt.Node{Name: xt.Name{Space: name.uri, Local: name.local}}
	i := 0
	if t.name != nil {
		i = 1
	}
	scalar := func(v reflect.Value) string { return fmt.Sprint(v.Interface()) }
	leaf := func(f field21, v reflect.Value) {
		k := &xt.Node{Name: xt.Name{Space: f.tag.uri, Local: f.tag.local}}
		if s := scalar(v); s != "" {
			k.Kids = []xt.Kid{{Text: s}}
		}
		n.Kids = append(n.Kids, xt.Kid{Elem: k})
	}
	for k, f := range t.fields {
		fv := v.Field(i + k)
		switch f.kind {
		case "attr":
			if !(f.omit && fv.IsZero()) {
				n.Attrs = append(n.Attrs, xt.Attr{Name: xt.Name{Space: f.tag.uri, Local: f.tag.local}, Value: scalar(fv)})
			}
		case "any":
			for _, a := range fv.Interface().([]fork.Attr) {
				if a.Name.Space != xmlnsURI && a.Name != (fork.Name{Local: "xmlns"}) {
					n.Attrs = append(n.Attrs, xt.Attr{Name: xt.Name{Space: a.Name.Space, Local: a.Name.Local}, Value: a.Value})
				}
			}
		case "text":
			if s := fv.String(); s != "" {
				n.Kids = append(n.Kids, xt.Kid{Text: s})
			}
		case "elem":
			if !(f.omit && fv.IsZero()) {
				leaf(f, fv)
			}
		case "elems":
			for j := range fv.Len() {
				if !(f.omit && fv.Index(j).IsZero()) {
					leaf(f, fv.Index(j))
				}
			}
		case "structs":
			for j := range fv.Len() {
				n.Kids = append(n.Kids, xt.Kid{Elem: f.sub.tree(fv.Index(j), f.tag)})
			}
		case "struct":
			if fv.Kind() == reflect.Pointer {
				if fv.IsNil() {
					continue
				}
				fv = fv.Elem()
			}
			n.Kids = append(n.Kids, xt.Kid{Elem: f.sub.tree(fv, f.tag)})
		}
	}
	return n
}

// unfixed removes the namespace of the elements that have none of their own.
func unfixed(n *xt.Node) *xt.Node {
	n.Walk(func(e *xt.Node) {
		if strings.HasPrefix(e.Local, "u") {
			e.Space = ""
		}
	})
	return n
}

// TestC21_types writes and reads struct types with prefixed names.
func TestC21_types(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		ty := drawType21(r, 2, true)
		if ty.name.uri == "" {
			ty.name.local = "u" + ty.name.local
			ty.retag()
		}
		v := reflect.New(ty.typ)
		ty.fill(r, v.Elem())
		c.Input(fmt.Sprintf("%v %+v", ty.typ, v.Elem()))
		ind := drawIndent(r)
		if ind != "" {
			for _, f := range ty.fields {
				if f.kind == "text" {
					ind = ""
				}
			}
			if strings.Contains(fmt.Sprint(ty.typ), "chardata") {
				ind = ""
			}
		}
		b, err := fork.MarshalIndent(v.Interface(), "", ind)
		if err != nil {
			r.Fatalf("Marshal: %v\n%v", err, ty.typ)
		}
		doc, err := xt.ParseString(string(b))
		if err != nil {
			r.Fatalf("written form is not well-formed: %v\n%v\n%s", err, ty.typ, b)
		}
		want := unfixed(ty.tree(v.Elem(), *ty.name))
		if ind != "" {
			doc.Root.Walk(func(n *xt.Node) {
				if len(n.Elems()) > 0 {
					var ks []xt.Kid
					for _, k := range n.Kids {
						if k.Elem != nil {
							ks = append(ks, k)
						}
					}
					n.Kids = ks
				}
			})
		}
		x, y := xt.Dump(merged(want)), xt.Dump(unfixed(doc.Root))
		if x != y {
			r.Fatalf("written form differs\n%s\ntype %v\n%s", firstDiff(x, y), ty.typ, b)
		}
		v2 := reflect.New(ty.typ)
		if err := fork.Unmarshal(b, v2.Interface()); err != nil {
			r.Fatalf("cannot be read back: %v\n%v\n%s", err, ty.typ, b)
		}
		if z := xt.Dump(merged(unfixed(ty.tree(v2.Elem(), *ty.name)))); z != x {
			r.Fatalf("read back differs\n%s\ntype %v\n%s", firstDiff(x, z), ty.typ, b)
		}
		n := 0
		want.Walk(func(e *xt.Node) {
			if e.Space != "" {
				n++
			}
			n += len(e.Attrs)
		})
		c.Key(fmt.Sprint(ty.typ), string(b))
		c.NonTrivial(n > 1)
		c.Label("types")
		c.Sample(func() string { return fmt.Sprintf("%v\n%s", ty.typ, b) })
	})
}

// merged joins neighbouring texts.
func merged(n *xt.Node) *xt.Node {
	n.Walk(func(e *xt.Node) {
		var ks []xt.Kid
		for _, k := range e.Kids {
			if k.Elem == nil && len(ks) > 0 && ks[len(ks)-1].Elem == nil {
				ks[len(ks)-1].Text += k.Text
				continue
			}
			ks = append(ks, k)
		}
		e.Kids = ks
	})
	return n
}

// loose removes from b the namespace of each element that has none in a: an element without a namespace takes the default
// namespace around it, which the encoder may have declared when the prefix of an outer element was hidden.
func loose(a, b *xt.Node) {
	if a.Space == "" {
		b.Space = ""
	}
	x, y := a.Elems(), b.Elems()
	for i := range min(len(x), len(y)) {
		loose(x[i], y[i])
	}
}

// TestC21_pipe decodes documents to tokens and encodes these.
func TestC21_pipe(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		src := kit.XMLText(r, kit.GenXML(r, kit.XMLOpts{Big: true}))
		c.Input(src)
		in := mustParse(r, src)
		var b bytes.Buffer
		e := fork.NewEncoder(&b)
		var rest, rest2 []string
		other := func(l []string, t fork.Token) []string {
			switch t := t.(type) {
			case fork.Comment:
				return append(l, "comment "+string(t))
			case fork.ProcInst:
				return append(l, "inst "+t.Target+" "+string(t.Inst))
			case fork.Directive:
				return append(l, "directive "+string(t))
			}
			return l
		}
		for _, tok := range forkTokens(r, []byte(src)) {
			rest = other(rest, tok)
			if err := e.EncodeToken(tok); err != nil {
				r.Fatalf("EncodeToken of %T %v: %v\n%q", tok, tok, err, src)
			}
		}
		if err := e.Close(); err != nil {
			r.Fatalf("Close: %v\n%q", err, src)
		}
		out := mustParse(r, b.String())
		loose(in, out)
		if x, y := xt.Dump(in), xt.Dump(out); x != y {
			r.Fatalf("encoded tokens differ\n%s\nfrom %q\nto %q", firstDiff(x, y), src, b.String())
		}
		for _, tok := range forkTokens(r, b.Bytes()) {
			rest2 = other(rest2, tok)
		}
		if x, y := strings.Join(rest, "\n"), strings.Join(rest2, "\n"); x != y {
			r.Fatalf("comments and instructions differ\n%s\nfrom %q\nto %q", firstDiff(x, y), src, b.String())
		}
		c.Key(src)
		c.NonTrivial(len(in.Attrs) > 0 || len(in.Elems()) > 0)
		c.Label("pipe")
		c.Sample(func() string { return src })
	})
}

// TestC21_tokens encodes trees of tokens made by hand.
func TestC21_tokens(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		var toks []fork.Token
		budget := r.In(1, 14)
		uris := []string{"", "urn:a", "urn:b", "http://example.com/p", "http://example.com/xml/", "urn:c"}
		if r.N(4) == 3 {
			uris = append(uris, r.WildURI(), r.WildURI())
		}
		var elem func(depth int) *xt.Node
		elem = func(depth int) *xt.Node {
			budget--
			n := &xt.Node{Name: xt.Name{Space: uris[r.N(len(uris))], Local: r.Pick("a", "b", "c")}}
			if n.Space == "" {
				n.Local = "u" + n.Local
			}
			s := fork.StartElement{Name: fork.Name{Space: n.Space, Local: n.Local}}
			end := s.Name
			if n.Space != "" && r.N(3) == 2 {
				s.Name.Local = r.Pick("p", "q", "xml", "xmlns", "_") + ":" + n.Local
				if r.B() {
					end = s.Name
				}
			}
			seen := map[fork.Name]bool{}
			for range r.N(5) {
				a := fork.Name{Space: r.Pick("", "urn:a", "urn:b", "http://example.com/p", xmlURI, "urn:z"), Local: r.Pick("a", "b", "c")}
				if r.N(6) == 5 {
					a.Space = r.WildURI()
				}
				val := r.Str()
				pre := a.Local
				decl := false
				switch r.N(6) {
				case 5:
					a = fork.Name{Space: xmlnsURI, Local: r.Pick("p", "q", "r")}
					pre, val, decl = a.Local, r.Pick("urn:a", "urn:b", "urn:z"), true
				case 4:
					if a.Space != "" {
						pre = r.Pick("p", "q", "xml", "x y", "_") + ":" + a.Local
					}
				case 3:
					if r.N(3) == 2 {
						a = fork.Name{Local: "xmlns"}
						pre, val, decl = "xmlns", r.Pick("", "urn:a", "urn:b", n.Space), true
					}
				}
				if seen[a] {
					continue
				}
				seen[a] = true
				s.Attr = append(s.Attr, fork.Attr{Name: fork.Name{Space: a.Space, Local: pre}, Value: val})
				if !decl {
					n.Attrs = append(n.Attrs, xt.Attr{Name: xt.Name{Space: a.Space, Local: a.Local}, Value: val})
				}
			}
			if r.N(10) == 9 { // many namespaces which ask for the same few prefixes
				segs := []string{r.Pick("p", "q", "_", "xml", "1"), r.Pick("p", "p_1", "q_2", "___1", "a")}
				for i := range r.In(2, 40) {
					ns, val := fmt.Sprintf("urn:%d/%s", i, segs[r.N(2)]), r.Str()
					s.Attr = append(s.Attr, fork.Attr{Name: fork.Name{Space: ns, Local: "w"}, Value: val})
					n.Attrs = append(n.Attrs, xt.Attr{Name: xt.Name{Space: ns, Local: "w"}, Value: val})
				}
			}
			toks = append(toks, s)
			for range r.Size(4) {
				if budget > 0 && depth < 8 && r.N(3) != 0 {
					n.Kids = append(n.Kids, xt.Kid{Elem: elem(depth + 1)})
				} else if v := r.Str(); v != "" {
					n.Kids = append(n.Kids, xt.Kid{Text: v})
					toks = append(toks, fork.CharData(v))
				}
			}
			toks = append(toks, fork.EndElement{Name: end})
			return n
		}
		want := elem(0)
		var b bytes.Buffer
		e := fork.NewEncoder(&b)
		show := fmt.Sprintf("%q", toks)
		c.Input(show)
		for _, tok := range toks {
			if err := e.EncodeToken(tok); err != nil {
				r.Fatalf("EncodeToken of %q: %v\n%s", tok, err, show)
			}
		}
		if err := e.Close(); err != nil {
			r.Fatalf("Close: %v\n%s", err, show)
		}
		doc, err := xt.ParseString(b.String())
		if err != nil {
			r.Fatalf("not well-formed: %v\n%s\n%s", err, b.String(), show)
		}
		if x, y := xt.Dump(merged(unfixed(want))), xt.Dump(unfixed(doc.Root)); x != y {
			r.Fatalf("encoded tokens differ\n%s\n%s\n%s", firstDiff(x, y), b.String(), show)
		}
		c.Key(show)
		c.NonTrivial(len(toks) > 2)
		c.Label("tokens")
		c.Sample(func() string { return show })
	})
}
