package props

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"net/url"
	"reflect"
	"regexp"
	"strings"
	"testing"
	"time"

	fork "github.com/Eyevinn/dash-mpd/xml"

	"verif/harness/kit"
	"verif/harness/xt"
)

// refText is a text unmarshaler and marshaler by value that keeps its text behind a pointer.
type refText struct{ P *string }

func (t refText) MarshalText() ([]byte, error) {
	if t.P == nil {
		return nil, errInjected
	}
	return []byte("&" + *t.P), nil
}
func (t refText) UnmarshalText(b []byte) error {
	if t.P == nil || len(b) == 0 {
		return errInjected
	}
	*t.P = strings.TrimPrefix(string(b), "&")
	return nil
}

type textMap map[string]int

func (t textMap) UnmarshalText(b []byte) error {
	if t == nil {
		return errInjected
	}
	t[string(b)]++
	return nil
}

type boolText bool

func (t boolText) MarshalText() ([]byte, error) { return nil, nil }

type sliceText []int

func (t *sliceText) UnmarshalText(b []byte) error { *t = append(*t, len(b)); return nil }
func (t sliceText) MarshalText() ([]byte, error)  { return []byte(fmt.Sprint([]int(t))), nil }

// bytesText has its text methods on the pointer, and could be written as bytes.
type bytesText []byte

func (t *bytesText) MarshalText() ([]byte, error) { return append([]byte("<"), *t...), nil }
func (t *bytesText) UnmarshalText(b []byte) error {
	*t = append(append((*t)[:0:0], b...), '.')
	return nil
}

// Attribute methods by value.
type forkRefAttr struct{ P *string }
type stdRefAttr struct{ P *string }

func (t forkRefAttr) UnmarshalXMLAttr(a fork.Attr) error {
	if t.P == nil {
		return errInjected
	}
	*t.P = a.Value + a.Name.Local
	return nil
}
func (t stdRefAttr) UnmarshalXMLAttr(a xml.Attr) error {
	if t.P == nil {
		return errInjected
	}
	*t.P = a.Value + a.Name.Local
	return nil
}
func (t *forkRefAttr) MarshalXMLAttr(n fork.Name) (fork.Attr, error) {
	if t == nil || t.P == nil {
		return fork.Attr{}, errInjected
	}
	return fork.Attr{Name: fork.Name{Space: "urn:r", Local: n.Local}, Value: *t.P}, nil
}
func (t *stdRefAttr) MarshalXMLAttr(n xml.Name) (xml.Attr, error) {
	if t == nil || t.P == nil {
		return xml.Attr{}, errInjected
	}
	return xml.Attr{Name: xml.Name{Space: "urn:r", Local: n.Local}, Value: *t.P}, nil
}

// Element methods by value, some of which leave elements open or close too many.
type forkRefElem struct{ P *string }
type stdRefElem struct{ P *string }

func (t forkRefElem) UnmarshalXML(d *fork.Decoder, start fork.StartElement) error {
	if t.P == nil {
		return errInjected
	}
	*t.P = start.Name.Local
	if len(start.Attr) > 0 {
		return nil // does not read to the end
	}
	return d.Skip()
}
func (t stdRefElem) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	if t.P == nil {
		return errInjected
	}
	*t.P = start.Name.Local
	if len(start.Attr) > 0 {
		return nil
	}
	return d.Skip()
}
func (t *forkRefElem) MarshalXML(e *fork.Encoder, start fork.StartElement) error {
	switch {
	case t == nil || t.P == nil:
		return errInjected
	case *t.P == "open":
		return e.EncodeToken(start)
	case *t.P == "end":
		return e.EncodeToken(start.End())
	case *t.P == "text":
		return e.EncodeToken(fork.CharData("<t"))
	}
	start.Name.Local = *t.P
	if err := e.EncodeToken(start); err != nil {
		return err
	}
	return e.EncodeToken(start.End())
}
func (t *stdRefElem) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	switch {
	case t == nil || t.P == nil:
		return errInjected
	case *t.P == "open":
		return e.EncodeToken(start)
	case *t.P == "end":
		return e.EncodeToken(start.End())
	case *t.P == "text":
		return e.EncodeToken(xml.CharData("<t"))
	}
	start.Name.Local = *t.P
	if err := e.EncodeToken(start); err != nil {
		return err
	}
	return e.EncodeToken(start.End())
}

type hidden struct {
	H1 int `xml:"h1"`
	H2 int `xml:"h2,attr"`
}
type Holder struct {
	hidden
	A string `xml:"a"`
}
type HolderPtr struct {
	*hidden
	A string `xml:"a"`
}
type Self struct {
	V    string `xml:"v,attr,omitempty"`
	Next *Self  `xml:"a"`
	List []Self `xml:"w>b"`
}
type BadInner struct {
	X int `xml:"a,attr,chardata"`
}
type HoldsBad struct{ BadInner }
type HoldsBad2 struct{ B BadInner }
type HoldsBad3 struct{ L []*BadInner }
type NameString struct {
	XMLName string `xml:"a"`
	V       int
}
type DeepA struct{ C1 string }
type DeepB struct{ C1 string }
type Ambig struct {
	DeepA
	DeepB
}
type Shadow struct {
	DeepA
	C1 int
}
type Shadow2 struct {
	C1 int
	DeepA
}
type Box[T any] struct {
	V T `xml:"v"`
}
type LongNames struct {
	XMLName struct{} `xml:"a"`
}

var (
	refElems = twin{reflect.TypeOf(forkRefElem{}), reflect.TypeOf(stdRefElem{})}
	refAttrs = twin{reflect.TypeOf(forkRefAttr{}), reflect.TypeOf(stdRefAttr{})}
	oddTypes = []twin{same(refText{}), same(textMap{}), same(boolText(false)), same(sliceText{}), same(bytesText{}), refElems, refAttrs,
		same([3]byte{}), same([0]byte{}), same([2]int{}), same(map[string]int{}), same(make(chan int)), same(func() {}),
		same(complex64(0)), same(complex128(0)), same(uintptr(0)), same([]any{}).elem(), same([]fmt.Stringer{}).elem(), same([]error{}).elem(),
		same([][]string{}), same([][]byte{}), same([]any{}), tName, tAttr, sliceOf(tName), same(Holder{}), same(HolderPtr{}), same(Self{}), same(BadInner{}),
		same(HoldsBad{}), same(HoldsBad2{}), same(HoldsBad3{}), same(NameString{}), same(Ambig{}), same(Shadow{}), same(Shadow2{}), same(Box[int]{}), same(Box[Deep]{}),
		same(struct{}{}), same([]struct{}{}), same(time.Duration(0)), same(url.URL{}), same(LongNames{}), same(struct{ a int }{}), elems[0], elems[1], attrs[0], same(textVal{}), same(textPtr("")),
		same(Plain{}), same(Deep{}), tEmb}
)

func oddType(r kit.R) twin {
	var t twin
	if r.N(3) == 0 {
		t = scalar[r.N(len(scalar))]
	} else {
		t = oddTypes[r.N(len(oddTypes))]
	}
	for range r.Size(3) {
		switch r.N(5) {
		case 0, 1:
			t = ptrTo(t)
		case 2, 3:
			t = sliceOf(t)
		default:
			t = arrayOf(r.N(3), t)
		}
	}
	return t
}

// oddTag draws a tag of any form, valid or not, without prefixes.
func oddTag(r kit.R) string {
	if r.N(12) == 11 {
		return r.Pick("\x00", "", "-", ",", ">", "a>", ">a", "a>>b", "urn:a ", "urn:a ,attr", " a", "a,,", "-,", ",omitempty", "a,string", "a b c", "F1", "F0", "a>-")
	}
	tag := ""
	if r.N(4) == 3 {
		tag = r.Pick("urn:a ", "urn:b ", "urn:c ")
	}
	if r.N(5) != 4 {
		tag += r.Pick("a", "b", "c", "w", "F0", "F1", "D1", "d1", "emb", "v")
		for range r.Size(3) {
			tag += ">" + r.Pick("a", "b", "c", "w", "v")
		}
	}
	for range r.Size(2) {
		tag += "," + r.Pick("attr", "attr", "attr", "chardata", "cdata", "comment", "innerxml", "any", "omitempty", "omitempty", "attr,any", "any,attr")
	}
	return tag
}

func oddStruct(r kit.R, depth int) twin {
	var ff, sf []reflect.StructField
	n := r.In(1, 4)
	names := map[string]bool{}
	for i := range n {
		t := oddType(r)
		if depth > 0 && r.N(4) == 3 {
			t = oddStruct(r, depth-1)
			switch r.N(4) {
			case 0:
				t = ptrTo(t)
			case 1:
				t = sliceOf(t)
			}
		}
		name := fmt.Sprintf("F%d", i)
		anon := false
		if r.N(8) == 7 {
			name, t = "XMLName", tName
			if r.N(6) == 5 {
				t = []twin{same(""), ptrTo(tName), same(0), sliceOf(tName), same([]any{}).elem()}[r.N(5)]
			}
		} else if r.N(6) == 5 {
			k := []struct {
				n string
				t twin
			}{{"Plain", same(Plain{})}, {"Deep", ptrTo(same(Deep{}))}, {"Emb", tEmb}, {"Holder", same(Holder{})}, {"HoldsBad", same(HoldsBad{})},
				{"Self", ptrTo(same(Self{}))}, {"Ambig", same(Ambig{})}, {"Shadow", same(Shadow{})}, {"NameString", same(NameString{})}, {"DeepA", same(DeepA{})}, {"DeepB", same(DeepB{})}}[r.N(11)]
			name, t, anon = k.n, k.t, true
		}
		if names[name] {
			continue
		}
		names[name] = true
		tag := oddTag(r)
		if name == "XMLName" {
			tag = strings.ReplaceAll(tag, ">", "") // would be written as part of the name
		}
		if anon && r.N(3) != 0 {
			tag = "\x00"
		}
		st := reflect.StructTag("")
		if tag != "\x00" {
			st = reflect.StructTag(fmt.Sprintf("xml:%q", tag))
		}
		ff = append(ff, reflect.StructField{Name: name, Type: t.f, Tag: st, Anonymous: anon})
		sf = append(sf, reflect.StructField{Name: name, Type: t.s, Tag: st, Anonymous: anon})
	}
	return twin{reflect.StructOf(ff), reflect.StructOf(sf)}
}

// fillOdd fills a value of the fork's type that may hold kinds which cannot be written.
func fillOdd(r kit.R, v reflect.Value, depth int) {
	if !v.CanSet() {
		return
	}
	if depth > 5 {
		return
	}
	switch x := v.Addr().Interface().(type) {
	case *refText, *forkRefAttr, *forkRefElem:
		if r.N(8) != 7 {
			s := r.Pick("p", "open", "end", "text", "a<b", "p", "p", "")
			v.Field(0).Set(reflect.ValueOf(&s))
		}
		return
	case *time.Time, *textVal, *forkElem, *fork.Name, *fork.Attr:
		fill20(r, v, depth)
		return
	case *url.URL:
		*x = url.URL{Path: "/p"}
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := range v.NumField() {
			fillOdd(r, v.Field(i), depth+1)
		}
	case reflect.Map:
		switch x := v.Addr().Interface().(type) {
		case *map[string]int:
			*x = map[string]int{"a": 1}
		case *textMap:
			*x = textMap{}
		}
	case reflect.Chan, reflect.Func, reflect.Complex64, reflect.Complex128:
		if v.Kind() == reflect.Complex128 && r.B() {
			v.SetComplex(1i)
		}
	case reflect.Uintptr:
		v.SetUint(uint64(r.N(100)))
	case reflect.Interface:
		switch v.Addr().Interface().(type) {
		case *any:
			if r.N(3) != 0 {
				e := reflect.New(oddShared[r.N(len(oddShared))])
				fillOdd(r, e.Elem(), depth+1)
				if r.B() {
					v.Set(e.Elem())
				} else {
					v.Set(e)
				}
			}
		case *fmt.Stringer:
			if r.B() {
				v.Set(reflect.ValueOf(time.Duration(5)))
			}
		case *error:
			if r.B() {
				v.Set(reflect.ValueOf(errInjected))
			}
		}
	case reflect.Pointer:
		if r.N(4) != 0 {
			v.Set(reflect.New(v.Type().Elem()))
			fillOdd(r, v.Elem(), depth+1)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fill20(r, v, depth)
			return
		}
		n := r.Size(3)
		for range n {
			e := reflect.New(v.Type().Elem()).Elem()
			fillOdd(r, e, depth+1)
			v.Set(reflect.Append(v, e))
		}
	case reflect.Array:
		for i := range v.Len() {
			fillOdd(r, v.Index(i), depth+1)
		}
	default:
		fill20(r, v, depth)
	}
}

// oddShared are the types which are the same for both packages.
var oddShared = func() []reflect.Type {
	var out []reflect.Type
	for _, l := range [][]twin{scalar, oddTypes, {same(Plain{}), same(Deep{}), same(Self{})}} {
		for _, t := range l {
			if t.f == t.s {
				out = append(out, t.f)
			}
		}
	}
	return out
}()

// deepCopy copies a value without sharing memory that can be written to.
func deepCopy(dst, src reflect.Value) {
	if !dst.CanSet() {
		return
	}
	switch src.Kind() {
	case reflect.Pointer:
		if !src.IsNil() {
			dst.Set(reflect.New(src.Type().Elem()))
			deepCopy(dst.Elem(), src.Elem())
		}
	case reflect.Slice:
		if !src.IsNil() {
			dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()))
			for i := range src.Len() {
				deepCopy(dst.Index(i), src.Index(i))
			}
		}
	case reflect.Array:
		for i := range src.Len() {
			deepCopy(dst.Index(i), src.Index(i))
		}
	case reflect.Map:
		if !src.IsNil() {
			dst.Set(reflect.MakeMap(src.Type()))
			for _, k := range src.MapKeys() {
				dst.SetMapIndex(k, src.MapIndex(k))
			}
		}
	case reflect.Struct:
		if _, ok := src.Interface().(time.Time); ok {
			dst.Set(src)
			return
		}
		for i := range src.NumField() {
			deepCopy(dst.Field(i), src.Field(i))
		}
	case reflect.Interface:
		if !src.IsNil() {
			e := reflect.New(src.Elem().Type()).Elem()
			deepCopy(e, src.Elem())
			dst.Set(e)
		}
	default:
		dst.Set(src)
	}
}

// errKind gives the kind of an error that is part of the interface.
func errKind(err error) string {
	switch err.(type) {
	case nil:
		return "none"
	case *fork.UnsupportedTypeError, *xml.UnsupportedTypeError:
		return "unsupported type"
	case *fork.TagPathError, *xml.TagPathError:
		return "tag path"
	case *fork.SyntaxError, *xml.SyntaxError:
		return "syntax"
	case fork.UnmarshalError, xml.UnmarshalError:
		return "unmarshal"
	}
	return fmt.Sprintf("%T", err)
}

func odd20Doc(r kit.R, depth int) *xt.Node {
	n := &xt.Node{Name: xt.Name{Space: r.Pick("", "", "", "urn:a", "urn:b"), Local: r.Pick("a", "b", "c", "w", "v", "F0", "F1", "F2", "D1", "d1", "emb", "C1", "h1", "BadInner", "XMLName")}}
	val := func() string {
		return r.Pick("", "1", "0", "-1", " 7 ", "x", "true", "300", "1e3", "99999999999999999999", "a|b", "&p", "2020-01-02T03:04:05Z", r.Str())
	}
	for range r.Size(3) {
		a := xt.Name{Space: r.Pick("", "", "", "urn:a", "urn:r"), Local: r.Pick("a", "b", "c", "w", "v", "F0", "F1", "D1", "h2")}
		if _, ok := n.Attr(a.Space, a.Local); !ok {
			n.Attrs = append(n.Attrs, xt.Attr{Name: a, Value: val()})
		}
	}
	for range r.Size(4) {
		switch {
		case depth > 0 && r.N(3) != 0:
			n.Kids = append(n.Kids, xt.Kid{Elem: odd20Doc(r, depth-1)})
		default:
			n.Kids = append(n.Kids, xt.Kid{Text: val()})
		}
	}
	return n
}

// forkNames matches the elements named after the types of one package only.
var forkNames = regexp.MustCompile(`(</?)fork((?:Ref)?(?:Elem|Attr))`)

// TestC20_odd does the same with types and tags that are wrong in many ways, and with any kind of value at the top:
// both packages must accept the same types and values, with the same result and the same kind of error.
// sameLocal reports whether a struct within t has two attributes of one
// local name of which one has a namespace and the other none.
func sameLocal(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen == nil {
		seen = map[reflect.Type]bool{}
	}
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Map:
		return sameLocal(t.Elem(), seen)
	case reflect.Struct:
	default:
		return false
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	names := map[string]int{}
	attrLocals(t, names, 0)
	for _, n := range names {
		if n == 3 {
			return true
		}
	}
	for i := range t.NumField() {
		if sameLocal(t.Field(i).Type, seen) {
			return true
		}
	}
	return false
}

func attrLocals(t reflect.Type, names map[string]int, depth int) {
	for i := range t.NumField() {
		f := t.Field(i)
		if ft := f.Type; f.Anonymous && depth < 5 {
			if ft.Kind() == reflect.Pointer {
				ft = ft.Elem()
			}
			if ft.Kind() == reflect.Struct {
				attrLocals(ft, names, depth+1)
			}
		}
		name, opts, ok := strings.Cut(f.Tag.Get("xml"), ",")
		if !ok || !strings.Contains(opts, "attr") {
			continue
		}
		bit := 1
		if _, local, ok := strings.Cut(name, " "); ok {
			name, bit = local, 2
		}
		if name == "" {
			name = f.Name
		}
		names[name] |= bit
	}
}

func TestC20_odd(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		var tw twin
		if r.N(5) == 4 {
			tw = oddType(r)
		} else {
			tw = oddStruct(r, 2)
		}
		fv := reflect.New(tw.f)
		fillOdd(r, fv.Elem(), 0)
		sv := reflect.New(tw.s)
		if tw.f == tw.s {
			sv = fv
		} else if _, p := try(func() error { copyTwin(sv.Elem(), fv.Elem()); return nil }); p != nil {
			c.Label("not copied")
			return
		}
		c.Input(fmt.Sprintf("%v %+v", tw.s, sv.Elem()))
		var fo, so bytes.Buffer
		fe, se := fork.NewEncoder(&fo), xml.NewEncoder(&so)
		fin, sin := fv.Interface(), sv.Interface()
		if r.B() {
			fin, sin = fv.Elem().Interface(), sv.Elem().Interface()
		}
		fm, sm := func() error { return fe.Encode(fin) }, func() error { return se.Encode(sin) }
		if r.N(3) == 2 {
			fm = func() error {
				return fe.EncodeElement(fin, fork.StartElement{Name: fork.Name{Local: "given"}, Attr: []fork.Attr{{Name: fork.Name{Local: "ga"}, Value: "1"}}})
			}
			sm = func() error {
				return se.EncodeElement(sin, xml.StartElement{Name: xml.Name{Local: "given"}, Attr: []xml.Attr{{Name: xml.Name{Local: "ga"}, Value: "1"}}})
			}
		}
		serr, sp := try(sm)
		ferr, fp := try(fm)
		show := func() string {
			return fmt.Sprintf("type %v\nvalue %+v\nfork: %q\nencoding/xml: %q", tw.s, sv.Elem(), fo.String(), so.String())
		}
		if (fp == nil) != (sp == nil) && sp == nil {
			r.Fatalf("marshalling panics: %v\n%s", fp, show())
		}
		if sp == nil && errKind(ferr) != errKind(serr) {
			r.Fatalf("marshalling: error %v, encoding/xml %v\n%s", ferr, serr, show())
		}
		var doc *xt.Node
		if sp == nil && serr == nil {
			fe.Flush()
			se.Flush()
			// Several elements may be written, or none.
			out := forkNames.ReplaceAllString(fo.String(), "${1}std$2")
			a, errA := xt.ParseOpts("<R>"+out+"</R>", xt.Opts{NoNS: true})
			b, errB := xt.ParseOpts("<R>"+so.String()+"</R>", xt.Opts{NoNS: true})
			if errB == nil && errA != nil {
				r.Fatalf("marshalled text is not well-formed: %v\n%s", errA, show())
			}
			if errB == nil {
				if x, y := dumpOwn(a.Root, "<R>"+out+"</R>", b.Root, "<R>"+so.String()+"</R>"); x != y {
					r.Fatalf("marshalled differently\n%s\n-- encoding/xml --\n%s\n%s", x, y, show())
				}
				if d, err := xt.ParseString(so.String()); err == nil {
					doc = d.Root
				}
			}
			c.Label("marshalled:%v", errB == nil)
		} else {
			c.Label("marshal:%v", errKind(serr))
		}
		if doc == nil || r.N(3) == 2 {
			doc = odd20Doc(r, 3)
			if r.N(3) != 0 {
				doc.Name.Space = ""
			}
		}
		for range r.Size(4) {
			mutTree(r, doc)
		}
		text := xt.Write(doc, &xt.Style{})
		if r.N(16) == 15 && len(text) > 3 {
			text = text[:r.N(len(text))]
		}
		c.Input(fmt.Sprintf("%v\n%s", tw.s, text))
		fv2, sv2 := reflect.New(tw.f), reflect.New(tw.s)
		if r.B() {
			// The value that is read into is not empty.
			fillOdd(r, fv2.Elem(), 0)
			tmp := reflect.New(tw.f)
			deepCopy(tmp.Elem(), fv2.Elem())
			if tw.f == tw.s {
				sv2 = tmp
			} else if _, p := try(func() error { copyTwin(sv2.Elem(), tmp.Elem()); return nil }); p != nil {
				fv2, sv2 = reflect.New(tw.f), reflect.New(tw.s)
			}
		}
		var fa, sa any = fv2.Interface(), sv2.Interface()
		switch r.N(24) {
		case 0:
			fa, sa = nil, nil
		case 1:
			fa, sa = fv2.Elem().Interface(), sv2.Elem().Interface()
		case 2:
			fa, sa = reflect.Zero(fv2.Type()).Interface(), reflect.Zero(sv2.Type()).Interface()
		case 3:
			fa, sa = &fa, &sa
		}
		if sameLocal(tw.s, nil) {
			// An attribute of the namespace goes to the field with the
			// namespace alone in the fork, and to both in encoding/xml.
			c.Label("attribute with and without namespace")
			return
		}
		serr, sp = try(func() error { return xml.Unmarshal([]byte(text), sa) })
		ferr, fp = try(func() error { return fork.Unmarshal([]byte(text), fa) })
		if sp != nil {
			c.Label("encoding/xml panics")
			return
		}
		if fp != nil {
			r.Fatalf("unmarshalling panics: %v\ntype %v\n%q", fp, tw.s, text)
		}
		if errKind(serr) != errKind(ferr) {
			r.Fatalf("unmarshalling: error %v, encoding/xml %v\ntype %v\n%q", ferr, serr, tw.s, text)
		}
		var x string
		if _, p := try(func() error { x = diffTwin(fv2.Elem(), sv2.Elem(), ""); return nil }); p != nil {
			x = ""
			c.Label("not compared")
		}
		if x != "" && serr == nil {
			r.Fatalf("unmarshalled differently at %s\ntype %v\n%q", x, tw.s, text)
		}
		c.Label("unmarshal:%v", errKind(serr))
		c.Key(tw.s.String(), text)
		c.NonTrivial(true)
		c.Sample(func() string { return fmt.Sprintf("%v\n%s", tw.s, text) })
	})
}
