package props

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"regexp"
	"strings"
	"testing"
	"time"

	fork "github.com/Eyevinn/dash-mpd/xml"

	"verif/harness/kit"
	"verif/harness/xt"
)

// The same struct type is built twice, for the fork and for encoding/xml.
type twin struct{ f, s reflect.Type }

func same(v any) twin { t := reflect.TypeOf(v); return twin{t, t} }

// Types with methods that do not depend on the package.
type textVal struct{ A, B string }

func (t textVal) MarshalText() ([]byte, error) {
	if t.A == "fail" {
		return nil, errInjected
	}
	return []byte(t.A + "|" + t.B), nil
}
func (t *textVal) UnmarshalText(b []byte) error {
	a, bb, ok := strings.Cut(string(b), "|")
	if !ok {
		return errors.New("no bar")
	}
	t.A, t.B = a, bb
	return nil
}

type textPtr string

func (t *textPtr) MarshalText() ([]byte, error) {
	if *t == "fail" {
		return nil, errInjected
	}
	return []byte("<" + string(*t) + ">"), nil
}
func (t *textPtr) UnmarshalText(b []byte) error {
	if len(b) == 3 {
		return errInjected
	}
	*t = textPtr(strings.Trim(string(b), "<>"))
	return nil
}

type namedInt int32
type namedStr string
type namedBytes []byte

// Types with methods of each package.
type forkElem struct{ V string }
type stdElem struct{ V string }

func (v forkElem) MarshalXML(e *fork.Encoder, start fork.StartElement) error {
	if v.V == "fail" {
		if err := e.EncodeToken(start); err != nil {
			return err
		}
		return errInjected
	}
	if v.V == "open" {
		return e.EncodeToken(start)
	}
	if v.V == "early" {
		return errInjected
	}
	if v.V == "tokens" {
		for _, t := range []fork.Token{start, fork.CharData("x"), fork.StartElement{Name: fork.Name{Space: "urn:in", Local: "in"}}, fork.Comment("c"), fork.EndElement{Name: fork.Name{Space: "urn:in", Local: "in"}}, start.End()} {
			if err := e.EncodeToken(t); err != nil {
				return err
			}
		}
		return nil
	}
	if v.V == "nothing" {
		return nil
	}
	start.Attr = append(start.Attr, fork.Attr{Name: fork.Name{Local: "m"}, Value: v.V})
	return e.EncodeElement(v.V, start)
}
func (v stdElem) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	if v.V == "fail" {
		if err := e.EncodeToken(start); err != nil {
			return err
		}
		return errInjected
	}
	if v.V == "open" {
		return e.EncodeToken(start)
	}
	if v.V == "early" {
		return errInjected
	}
	if v.V == "tokens" {
		for _, t := range []xml.Token{start, xml.CharData("x"), xml.StartElement{Name: xml.Name{Space: "urn:in", Local: "in"}}, xml.Comment("c"), xml.EndElement{Name: xml.Name{Space: "urn:in", Local: "in"}}, start.End()} {
			if err := e.EncodeToken(t); err != nil {
				return err
			}
		}
		return nil
	}
	if v.V == "nothing" {
		return nil
	}
	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Local: "m"}, Value: v.V})
	return e.EncodeElement(v.V, start)
}
func (v *forkElem) UnmarshalXML(d *fork.Decoder, start fork.StartElement) error {
	n := 0
	for {
		t, err := d.Token()
		if err == io.EOF {
			v.V = fmt.Sprint(n, len(start.Attr))
			return nil
		}
		if err != nil {
			return err
		}
		if x, ok := t.(fork.StartElement); ok && x.Name.Local == "skip" {
			if err := d.Skip(); err != nil {
				return err
			}
		}
		n++
	}
}
func (v *stdElem) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	n := 0
	for {
		t, err := d.Token()
		if err == io.EOF {
			v.V = fmt.Sprint(n, len(start.Attr))
			return nil
		}
		if err != nil {
			return err
		}
		if x, ok := t.(xml.StartElement); ok && x.Name.Local == "skip" {
			if err := d.Skip(); err != nil {
				return err
			}
		}
		n++
	}
}

type forkElem2 struct{ V string }
type stdElem2 struct{ V string }

func (v *forkElem2) MarshalXML(e *fork.Encoder, start fork.StartElement) error {
	return e.EncodeElement(struct {
		A string `xml:"a,attr"`
		B string `xml:"urn:b b"`
	}{v.V, v.V}, start)
}
func (v *stdElem2) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement(struct {
		A string `xml:"a,attr"`
		B string `xml:"urn:b b"`
	}{v.V, v.V}, start)
}
func (v *forkElem2) UnmarshalXML(d *fork.Decoder, start fork.StartElement) error {
	var x struct {
		A string `xml:"a,attr"`
		B string `xml:"urn:b b"`
	}
	if err := d.DecodeElement(&x, &start); err != nil {
		return err
	}
	v.V = x.A + x.B
	return nil
}
func (v *stdElem2) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var x struct {
		A string `xml:"a,attr"`
		B string `xml:"urn:b b"`
	}
	if err := d.DecodeElement(&x, &start); err != nil {
		return err
	}
	v.V = x.A + x.B
	return nil
}

type forkAttr struct{ V string }
type stdAttr struct{ V string }

func (v forkAttr) MarshalXMLAttr(n fork.Name) (fork.Attr, error) {
	if v.V == "fail" {
		return fork.Attr{Name: n}, errInjected
	}
	if v.V == "" {
		return fork.Attr{}, nil
	}
	return fork.Attr{Name: n, Value: "[" + v.V + "]"}, nil
}
func (v stdAttr) MarshalXMLAttr(n xml.Name) (xml.Attr, error) {
	if v.V == "fail" {
		return xml.Attr{Name: n}, errInjected
	}
	if v.V == "" {
		return xml.Attr{}, nil
	}
	return xml.Attr{Name: n, Value: "[" + v.V + "]"}, nil
}
func (v *forkAttr) UnmarshalXMLAttr(a fork.Attr) error {
	if len(a.Value) < 2 {
		return errInjected
	}
	v.V = a.Name.Local + a.Value[1:len(a.Value)-1]
	return nil
}
func (v *stdAttr) UnmarshalXMLAttr(a xml.Attr) error {
	if len(a.Value) < 2 {
		return errInjected
	}
	v.V = a.Name.Local + a.Value[1:len(a.Value)-1]
	return nil
}

// The methods have value receivers.
type forkByVal struct{ V *string }
type stdByVal struct{ V *string }

func (v forkByVal) MarshalXMLAttr(n fork.Name) (fork.Attr, error) {
	if v.V == nil {
		return fork.Attr{}, nil
	}
	return fork.Attr{Name: n, Value: *v.V}, nil
}
func (v stdByVal) MarshalXMLAttr(n xml.Name) (xml.Attr, error) {
	if v.V == nil {
		return xml.Attr{}, nil
	}
	return xml.Attr{Name: n, Value: *v.V}, nil
}
func (v forkByVal) UnmarshalXMLAttr(a fork.Attr) error {
	if len(a.Value) < 2 {
		return errInjected
	}
	return nil
}
func (v stdByVal) UnmarshalXMLAttr(a xml.Attr) error {
	if len(a.Value) < 2 {
		return errInjected
	}
	return nil
}

// The text methods have value receivers.
type textRef struct{ V *string }

func (t textRef) MarshalText() ([]byte, error) {
	if t.V == nil {
		return nil, nil
	}
	return []byte(*t.V), nil
}
func (t textRef) UnmarshalText(b []byte) error {
	if len(b) > 3 {
		return errInjected
	}
	return nil
}

// Named types with promoted names.
type Emb[N any] struct {
	XMLName N      `xml:"urn:emb emb"`
	EmbA    string `xml:"emba,attr"`
	EmbE    int    `xml:"embe"`
}
type Plain struct {
	P1 string `xml:"p1,attr,omitempty"`
	P2 []int  `xml:"w>p2"`
	P3 *Deep
}
type Deep struct {
	D1 string `xml:"d1"`
	D2 *bool  `xml:"d2,attr"`
}

var (
	tName  = twin{reflect.TypeOf(fork.Name{}), reflect.TypeOf(xml.Name{})}
	tAttr  = twin{reflect.TypeOf(fork.Attr{}), reflect.TypeOf(xml.Attr{})}
	tEmb   = twin{reflect.TypeOf(Emb[fork.Name]{}), reflect.TypeOf(Emb[xml.Name]{})}
	scalar = []twin{same(""), same(""), same(0), same(int8(0)), same(int16(0)), same(int64(0)), same(uint(0)), same(uint8(0)), same(uint32(0)), same(uint64(0)), same(float32(0)), same(float64(0)),
		same(false), same([]byte{}), same(namedInt(0)), same(namedStr("")), same(namedBytes{}), same(time.Time{}), same(textVal{}), same(textPtr("")), same(textRef{})}
	elems = []twin{{reflect.TypeOf(forkElem{}), reflect.TypeOf(stdElem{})}, {reflect.TypeOf(forkElem2{}), reflect.TypeOf(stdElem2{})}, same(Plain{}), same(Deep{}), tEmb}
	attrs = []twin{{reflect.TypeOf(forkAttr{}), reflect.TypeOf(stdAttr{})}, {reflect.TypeOf(forkByVal{}), reflect.TypeOf(stdByVal{})}}
)

func ptrTo(t twin) twin   { return twin{reflect.PointerTo(t.f), reflect.PointerTo(t.s)} }
func sliceOf(t twin) twin { return twin{reflect.SliceOf(t.f), reflect.SliceOf(t.s)} }
func arrayOf(n int, t twin) twin {
	return twin{reflect.ArrayOf(n, t.f), reflect.ArrayOf(n, t.s)}
}

var c20Names = []string{"a", "b", "c", "d", "e", "f"}
var c20Spaces = []string{"", "", "", "", "urn:a", "urn:b"}

func withSpace(r kit.R, n string) string {
	if s := c20Spaces[r.N(len(c20Spaces))]; s != "" {
		return s + " " + n
	}
	return n
}

// drawStruct draws a struct type.
func drawStruct(r kit.R, depth int, top bool) twin {
	var ff, sf []reflect.StructField
	add := func(name string, t twin, tag string, anon bool) {
		st := reflect.StructTag("")
		if tag != "\x00" {
			st = reflect.StructTag(fmt.Sprintf(`xml:"%s"`, tag))
		}
		ff = append(ff, reflect.StructField{Name: name, Type: t.f, Tag: st, Anonymous: anon})
		sf = append(sf, reflect.StructField{Name: name, Type: t.s, Tag: st, Anonymous: anon})
	}
	if top || r.N(4) == 3 {
		switch r.N(4) {
		case 0:
			add("XMLName", tName, "\x00", false)
		default:
			add("XMLName", tName, withSpace(r, r.Pick("root", "a", "x")), false)
		}
	}
	special := map[string]bool{}
	used := map[string]bool{}
	attrName := map[string]string{}
	pick := func(pre string) string {
		n := c20Names[r.N(len(c20Names))]
		if used[pre+n] && r.N(40) != 39 {
			for _, x := range c20Names {
				if !used[pre+x] {
					n = x
					break
				}
			}
		}
		used[pre+n] = true
		return n
	}
	nf := r.Size(6)
	for i := range nf {
		name := fmt.Sprintf("F%d", i)
		omit := ""
		if r.N(4) == 3 {
			omit = ",omitempty"
		}
		switch r.N(12) {
		case 0, 1, 2: // attribute
			t := scalar[r.N(len(scalar))]
			if r.N(6) == 5 {
				t = attrs[r.N(len(attrs))]
			}
			switch r.N(8) {
			case 6:
				t = ptrTo(t)
			case 7:
				if r.N(3) == 2 {
					t = sliceOf(t)
				}
			}
			if r.N(16) == 15 {
				add(name, same([]any{}).elem(), ",attr"+omit, false)
				continue
			}
			n := pick("@")
			// Fields of the same local name in different namespaces: the fork prefers the exact one by design.
			if attrName[n] == "" {
				attrName[n] = withSpace(r, n)
			}
			n = attrName[n]
			if r.N(8) == 7 {
				n = ""
			}
			add(name, t, n+",attr"+omit, false)
		case 3, 4, 5, 6: // element
			var t twin
			switch r.N(3) {
			case 0:
				t = elems[r.N(len(elems))]
			case 1:
				if depth > 0 {
					t = drawStruct(r, depth-1, false)
					break
				}
				fallthrough
			default:
				t = scalar[r.N(len(scalar))]
			}
			switch r.N(6) {
			case 3:
				t = ptrTo(t)
			case 4:
				t = sliceOf(t)
			case 5:
				switch r.N(4) {
				case 0:
					t = sliceOf(ptrTo(t))
				case 1:
					t = ptrTo(ptrTo(t))
				case 2:
					t = arrayOf(r.In(1, 3), t)
				case 3:
					t = same([]any{}).elem()
				}
			}
			path := pick("e")
			for range r.N(3) {
				if r.N(2) == 1 {
					path = r.Pick("w", "v") + ">" + path
				}
			}
			if r.N(10) == 9 {
				add(name, t, "\x00", false)
				continue
			}
			add(name, t, withSpace(r, path)+omit, false)
		case 7:
			if !special["chardata"] {
				special["chardata"] = true
				t := scalar[r.N(len(scalar))]
				switch r.N(6) {
				case 4:
					t = ptrTo(t)
				case 5:
					t = []twin{same([]any{}).elem(), sliceOf(t), ptrTo(ptrTo(t)), elems[0], attrs[0], arrayOf(2, same(byte(0)))}[r.N(6)]
				}
				add(name, t, r.Pick(",chardata", ",chardata", ",cdata")+r.Pick("", "", ",omitempty"), false)
			}
		case 8:
			if !special["x"] {
				special["x"] = true
				switch r.N(3) {
				case 0:
					add(name, []twin{same(""), same([]byte{})}[r.N(2)], ",innerxml", false)
				case 1:
					add(name, []twin{same(""), same([]byte{})}[r.N(2)], ",comment", false)
				case 2:
					add(name, []twin{sliceOf(tAttr), tAttr, ptrTo(tAttr), same([]string{})}[r.N(4)], ",any,attr", false)
				}
			}
		case 9:
			if !special["any"] {
				special["any"] = true
				t := []twin{elems[0], elems[2], same("")}[r.N(3)]
				if depth > 0 && r.N(2) == 1 {
					t = drawStruct(r, depth-1, false)
				}
				add(name, []twin{t, sliceOf(t), ptrTo(t), sliceOf(ptrTo(t))}[r.N(4)], ",any", false)
			}
		case 10: // embedded
			switch k := r.N(5); {
			case k == 0 && !special["Plain"]:
				special["Plain"] = true
				add("Plain", same(Plain{}), "\x00", true)
			case k == 1 && !special["Deep"]:
				special["Deep"] = true
				add("Deep", ptrTo(same(Deep{})), "\x00", true)
			case k == 2 && !special["Emb"]:
				special["Emb"] = true
				add("Emb", tEmb, "\x00", true)
			case k == 3 && !special["Deep"]:
				special["Deep"] = true
				add("Deep", same(Deep{}), withSpace(r, pick("e")), true)
			}
		case 11:
			add(name, scalar[r.N(len(scalar))], "-", false)
		}
	}
	return twin{reflect.StructOf(ff), reflect.StructOf(sf)}
}

func (t twin) elem() twin { return twin{t.f.Elem(), t.s.Elem()} }

// fill20 fills a value of the fork's type.
func fill20(r kit.R, v reflect.Value, depth int) {
	switch x := v.Addr().Interface().(type) {
	case *time.Time:
		*x = time.Unix(r.SInt(33), int64(r.N(1e9))).UTC()
		if r.N(8) == 7 {
			*x = time.Time{}
		}
		return
	case *textVal:
		*x = textVal{r.Chars(4), r.Pick("", "b", "<")}
		if r.N(60) == 59 {
			x.A = "fail"
			return
		}
		x.A = strings.ReplaceAll(x.A, "|", "")
		return
	case *forkElem:
		x.V = r.Pick("", "v", "tokens", "nothing", "a<b")
		if r.N(20) == 19 {
			x.V = r.Pick("fail", "open", "early")
		}
		return
	case *forkAttr, *textPtr:
		if r.N(20) == 19 {
			switch x := x.(type) {
			case *forkAttr:
				x.V = "fail"
			case *textPtr:
				*x = "fail"
			}
			return
		}
	case *fork.Name:
		if r.N(3) != 0 {
			*x = fork.Name{Space: r.Pick("", "", "urn:a", "urn:x"), Local: r.Pick("", "n", "a", "m")}
			if x.Local == "" {
				x.Space = ""
			}
		}
		return
	case *fork.Attr:
		*x = fork.Attr{Name: fork.Name{Space: r.Pick("", "", "urn:a", "urn:x"), Local: r.Pick("q1", "q2", "q3", "q4", "q5")}, Value: r.Str()}
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(r.Str())
	case reflect.Bool:
		v.SetBool(r.B())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(r.SInt(v.Type().Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(r.Bits(v.Type().Bits()))
	case reflect.Float32, reflect.Float64:
		f := r.Float(v.Type().Bits())
		if math.IsNaN(f) {
			f = 1
		}
		v.SetFloat(f)
	case reflect.Pointer:
		if r.N(4) != 0 && depth < 8 {
			v.Set(reflect.New(v.Type().Elem()))
			fill20(r, v.Elem(), depth+1)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if r.N(4) != 0 {
				v.SetBytes([]byte(r.Str()))
			}
			return
		}
		n := r.Size(3)
		for range n {
			e := reflect.New(v.Type().Elem()).Elem()
			fill20(r, e, depth+1)
			v.Set(reflect.Append(v, e))
		}
		// Attributes of the same name twice are not well-formed.
		if as, ok := v.Interface().([]fork.Attr); ok {
			seen := map[fork.Name]bool{}
			var out []fork.Attr
			for _, a := range as {
				if !seen[a.Name] {
					seen[a.Name] = true
					out = append(out, a)
				}
			}
			v.Set(reflect.ValueOf(out))
		}
	case reflect.Array:
		for i := range v.Len() {
			fill20(r, v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := range v.NumField() {
			f := v.Type().Field(i)
			if f.Tag.Get("xml") == ",innerxml" {
				s := r.Pick("", "<in>x</in>", "t&amp;", "<i a='1'/>t<!--c-->")
				if v.Field(i).Kind() == reflect.String {
					v.Field(i).SetString(s)
				} else {
					v.Field(i).SetBytes([]byte(s))
				}
				continue
			}
			if f.Tag.Get("xml") == ",comment" {
				s := strings.ReplaceAll(kit.Sanitize(r.Str()), "\r", "")
				if r.N(20) != 19 {
					s = strings.ReplaceAll(s, "-", "")
				}
				switch r.N(16) {
				case 14:
					s += "-"
				case 15:
					s += r.Pick("--", "->", " - ", "-->", "-x")
				}
				if v.Field(i).Kind() == reflect.String {
					v.Field(i).SetString(s)
				} else {
					v.Field(i).SetBytes([]byte(s))
				}
				continue
			}
			fill20(r, v.Field(i), depth+1)
		}
	case reflect.Interface:
		if r.N(3) != 0 {
			s := scalar[r.N(len(scalar)-4)]
			e := reflect.New(s.f).Elem()
			fill20(r, e, depth+1)
			v.Set(e)
		}
	}
}

// copyTwin copies a value of the fork's type into one of the standard type.
func copyTwin(dst, src reflect.Value) {
	if dst.Type() == src.Type() {
		dst.Set(src)
		return
	}
	switch src.Kind() {
	case reflect.Pointer:
		if !src.IsNil() {
			dst.Set(reflect.New(dst.Type().Elem()))
			copyTwin(dst.Elem(), src.Elem())
		}
	case reflect.Slice:
		if !src.IsNil() {
			dst.Set(reflect.MakeSlice(dst.Type(), src.Len(), src.Len()))
			for i := range src.Len() {
				copyTwin(dst.Index(i), src.Index(i))
			}
		}
	case reflect.Array:
		for i := range src.Len() {
			copyTwin(dst.Index(i), src.Index(i))
		}
	case reflect.Struct:
		for i := range src.NumField() {
			copyTwin(dst.Field(i), src.Field(i))
		}
	case reflect.Interface:
		if !src.IsNil() {
			dst.Set(src.Elem())
		}
	default:
		dst.Set(src.Convert(dst.Type()))
	}
}

// diffTwin compares values of the two types.
func diffTwin(a, b reflect.Value, path string) string {
	if x, ok := a.Interface().(time.Time); ok {
		if y := b.Interface().(time.Time); !x.Equal(y) {
			return fmt.Sprintf("%s: %v / %v", path, x, y)
		}
		return ""
	}
	if x, ok := a.Interface().(fork.Name); ok {
		y := b.Interface().(xml.Name)
		if y.Space == "xmlns" {
			y.Space = xmlnsURI
		}
		if x.Space != y.Space || x.Local != y.Local {
			return fmt.Sprintf("%s: %v / %v", path, x, y)
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: nil %v / %v", path, a.IsNil(), b.IsNil())
			}
			return ""
		}
		return diffTwin(a.Elem(), b.Elem(), path)
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() || a.Kind() == reflect.Slice && a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: %v / %v", path, a, b)
		}
		for i := range a.Len() {
			if x := diffTwin(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); x != "" {
				return x
			}
		}
		return ""
	case reflect.Struct:
		for i := range a.NumField() {
			if p, q := a.Field(i), b.Field(i); a.Type().Field(i).Anonymous && p.Kind() == reflect.Pointer && p.IsNil() != q.IsNil() {
				// encoding/xml allocates an embedded struct for any attribute.
				if p.IsNil() && q.Elem().IsZero() || q.IsNil() && p.Elem().IsZero() {
					continue
				}
			}
			if x := diffTwin(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); x != "" {
				return x
			}
		}
		return ""
	case reflect.Float32, reflect.Float64:
		if x, y := a.Float(), b.Float(); x != y && !(math.IsNaN(x) && math.IsNaN(y)) {
			return fmt.Sprintf("%s: %v / %v", path, x, y)
		}
		return ""
	}
	if x, y := fmt.Sprintf("%#v", a), fmt.Sprintf("%#v", b); x != y {
		return fmt.Sprintf("%s: %s / %s", path, x, y)
	}
	return ""
}

func try(f func() error) (err error, panicked any) {
	defer func() { panicked = recover() }()
	return f(), nil
}

// dumpOwn dumps two trees without the namespaces which elements of the second inherit: encoding/xml writes an
// element without namespace inside another's default namespace, the fork may have used a prefix there.
func dumpOwn(a *xt.Node, as string, b *xt.Node, bs string) (string, string) {
	var an, bn []*xt.Node
	a.Walk(func(n *xt.Node) { an = append(an, n) })
	b.Walk(func(n *xt.Node) { bn = append(bn, n) })
	inherits := func(n *xt.Node, s string) bool {
		for _, d := range n.Decls {
			if d.Prefix == "" {
				return false
			}
		}
		tag := s[n.Start:]
		return !strings.Contains(tag[:strings.IndexAny(tag, " />\t\n")], ":")
	}
	if len(an) == len(bn) {
		old := make([]string, len(an))
		olb := make([]string, len(bn))
		for i := range an {
			old[i], olb[i] = an[i].Name.Space, bn[i].Name.Space
			if inherits(bn[i], bs) && inherits(an[i], as) {
				an[i].Name.Space, bn[i].Name.Space = "", ""
			}
		}
		x, y := xt.Dump(a), xt.Dump(b)
		for i := range an {
			an[i].Name.Space, bn[i].Name.Space = old[i], olb[i]
		}
		return x, y
	}
	return xt.Dump(a), xt.Dump(b)
}

// mutTree changes a tree a little.
func mutTree(r kit.R, root *xt.Node) {
	var nodes []*xt.Node
	root.Walk(func(n *xt.Node) { nodes = append(nodes, n) })
	n := nodes[r.N(len(nodes))]
	name := func() xt.Name {
		return xt.Name{Space: r.Pick("", "urn:a", "urn:b", "urn:x"), Local: r.Pick("a", "b", "c", "d", "e", "f", "w", "v", "root", "x", "F1", "skip", "p2", "P3", "embe")}
	}
	val := func() string {
		return r.Pick("", "1", "-1", " 7 ", "x", "true", "300", "1e3", "NaN", "0x10", "99999999999999999999", "+5", "\n", "a|b", "2020-01-02T03:04:05Z", r.Str())
	}
	switch r.N(8) {
	case 0:
		if len(n.Kids) > 0 {
			i := r.N(len(n.Kids))
			n.Kids = append(n.Kids[:i:i], n.Kids[i+1:]...)
		}
	case 1:
		if len(n.Kids) > 0 {
			i, j := r.N(len(n.Kids)), r.N(len(n.Kids))
			n.Kids = append(n.Kids, n.Kids[i])
			n.Kids[i], n.Kids[j] = n.Kids[j], n.Kids[i]
		}
	case 2:
		if n != root || r.N(6) == 5 {
			n.Name = name()
		}
	case 3:
		n.Kids = append(n.Kids, xt.Kid{Text: val()})
	case 4:
		n.Kids = []xt.Kid{{Text: val()}}
	case 5:
		n.Kids = append(n.Kids, xt.Kid{Elem: &xt.Node{Name: name(), Kids: []xt.Kid{{Text: val()}}}})
	case 6:
		a := name()
		if _, ok := n.Attr(a.Space, a.Local); !ok {
			n.Attrs = append(n.Attrs, xt.Attr{Name: a, Value: val()})
		}
	case 7:
		if len(n.Attrs) > 0 {
			n.Attrs[r.N(len(n.Attrs))].Value = val()
		}
	}
}

// TestC20 marshals and unmarshals values of drawn types with the fork and with encoding/xml.
var prefixLikeAttr = regexp.MustCompile(`xmlns:[a-f]\b`)

func TestC20(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		tw := drawStruct(r, 2, true)
		fv := reflect.New(tw.f)
		fill20(r, fv.Elem(), 0)
		sv := reflect.New(tw.s)
		copyTwin(sv.Elem(), fv.Elem())
		c.Input(fmt.Sprintf("%v %+v", tw.s, sv.Elem()))
		var fo, so bytes.Buffer
		ind, pre := "", ""
		if r.N(3) == 2 {
			ind, pre = r.Pick(" ", "\t", "  "), r.Pick("", " ")
		}
		fe, se := fork.NewEncoder(&fo), xml.NewEncoder(&so)
		fe.Indent(pre, ind)
		se.Indent(pre, ind)
		how := r.N(4)
		var fin, sin any = fv.Interface(), sv.Interface()
		if how == 3 {
			fin, sin = fv.Elem().Interface(), sv.Elem().Interface()
		}
		fm := func() error { return fe.Encode(fin) }
		sm := func() error { return se.Encode(sin) }
		if how == 2 {
			fm = func() error {
				return fe.EncodeElement(fin, fork.StartElement{Name: fork.Name{Local: "given"}, Attr: []fork.Attr{{Name: fork.Name{Local: "ga"}, Value: "1"}}})
			}
			sm = func() error {
				return se.EncodeElement(sin, xml.StartElement{Name: xml.Name{Local: "given"}, Attr: []xml.Attr{{Name: xml.Name{Local: "ga"}, Value: "1"}}})
			}
		}
		serr, sp := try(sm)
		ferr, fp := try(fm)
		show := func() string {
			return fmt.Sprintf("type %v\nvalue %+v\nfork: %q\nencoding/xml: %q", tw.s, sv.Elem(), fo.String(), so.String())
		}
		if sp != nil {
			c.Label("encoding/xml panics")
			return
		}
		if fp != nil {
			r.Fatalf("marshalling panics: %v\n%s", fp, show())
		}
		if (serr == nil) != (ferr == nil) {
			r.Fatalf("marshalling: error %v, encoding/xml %v\n%s", ferr, serr, show())
		}
		if how != 2 {
			var b []byte
			err, _ := try(func() (err error) {
				if ind == "" && pre == "" {
					b, err = fork.Marshal(fin)
				} else {
					b, err = fork.MarshalIndent(fin, pre, ind)
				}
				return err
			})
			if (err == nil) != (ferr == nil) || err == nil && string(b) != fo.String() || err != nil && b != nil {
				r.Fatalf("Marshal gives %q, %v; the encoder's error is %v\n%s", b, err, ferr, show())
			}
		}
		var doc *xt.Node
		if serr == nil {
			a, errA := xt.ParseOpts(fo.String(), xt.Opts{NoNS: true})
			b, errB := xt.ParseOpts(so.String(), xt.Opts{NoNS: true})
			if errB == nil && errA != nil {
				r.Fatalf("marshalled text is not well-formed: %v\n%s", errA, show())
			}
			if errB == nil {
				if x, y := dumpOwn(a.Root, fo.String(), b.Root, so.String()); x != y {
					r.Fatalf("marshalled differently\n%s\n-- encoding/xml --\n%s\n%s", x, y, show())
				}
				doc = b.Root
			}
			c.Label("marshalled:%v", errB == nil)
		} else {
			c.Label("marshal error")
		}
		text := so.String()
		if doc == nil {
			text = "<root a='1'><a>1</a></root>"
			if d, err := xt.ParseString(text); err == nil {
				doc = d.Root
			}
		} else if _, err := xt.ParseString(text); err != nil {
			c.Label("namespace trouble in encoding/xml")
			return
		}
		muts := r.Size(4)
		for range muts {
			mutTree(r, doc)
		}
		if muts > 0 || r.B() {
			text = xt.Write(doc, kit.XMLStyle(r))
			if prefixLikeAttr.MatchString(text) {
				// encoding/xml takes xmlns:a="uri" for an attribute a, the fork does not.
				text = xt.Write(doc, &xt.Style{})
			}
		}
		fv2, sv2 := reflect.New(tw.f), reflect.New(tw.s)
		if r.N(4) == 3 { // into a value that is not empty
			copyTwin(sv2.Elem(), fv.Elem())
			fv2 = reflect.New(tw.f)
			copyTwin(fv2.Elem(), fv.Elem())
			if aliased(tw.f) {
				fv2, sv2 = reflect.New(tw.f), reflect.New(tw.s)
			}
		}
		c.Input(text)
		serr, sp = try(func() error { return xml.Unmarshal([]byte(text), sv2.Interface()) })
		ferr, fp = try(func() error { return fork.Unmarshal([]byte(text), fv2.Interface()) })
		if sp != nil {
			c.Label("encoding/xml panics")
			return
		}
		if fp != nil {
			r.Fatalf("unmarshalling panics: %v\ntype %v\n%q", fp, tw.s, text)
		}
		if (serr == nil) != (ferr == nil) {
			r.Fatalf("unmarshalling: error %v, encoding/xml %v\ntype %v\n%q", ferr, serr, tw.s, text)
		}
		if serr == nil {
			if x := diffTwin(fv2.Elem(), sv2.Elem(), ""); x != "" {
				r.Fatalf("unmarshalled differently at %s\ntype %v\n%q", x, tw.s, text)
			}
			c.Label("unmarshalled")
		} else {
			c.Label("unmarshal error")
		}
		c.Key(tw.s.String(), text)
		c.NonTrivial(tw.s.NumField() > 1)
		c.Sample(func() string { return fmt.Sprintf("%v\n%s", tw.s, text) })
	})
}

// aliased reports whether values of the type may share memory after copyTwin.
func aliased(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Interface:
		return true
	case reflect.Array:
		return aliased(t.Elem())
	case reflect.Struct:
		for i := range t.NumField() {
			if aliased(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}
