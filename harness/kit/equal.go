package kit

import (
	"fmt"
	"reflect"

	"github.com/Eyevinn/dash-mpd/xml"
)

// EqOpts tunes Diff.
type EqOpts struct {
	Names   bool // compare tagged XMLName fields as well
	TrimMix bool // white space around the text of events with child elements may differ
	Str     func(a, b string) bool
	Decls   bool // compare xmlns attributes in AnyAttrs
}

const xmlnsURL = "http://www.w3.org/2000/xmlns/"

func realAttrs(as []xml.Attr) []xml.Attr {
	var out []xml.Attr
	for _, a := range as {
		if a.Name.Space == xmlnsURL || a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" {
			continue
		}
		out = append(out, a)
	}
	return out
}

// Diff compares two values of the same type field by field; it returns where they differ, or "".
// Nil and empty lists are equal, as are a nil pointer to character data and one to no characters.
func Diff(a, b any, o EqOpts) string {
	return diff(reflect.ValueOf(a), reflect.ValueOf(b), "", "", o)
}

func diff(a, b reflect.Value, path, flags string, o EqOpts) string {
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: types %s and %s", path, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Pointer:
		if a.IsNil() != b.IsNil() {
			x := a
			if a.IsNil() {
				x = b
			}
			if flags == "chardata" && x.Elem().Kind() == reflect.String && x.Elem().Len() == 0 {
				return ""
			}
			if flags == "embedded" && x.Elem().IsZero() {
				return ""
			}
			return fmt.Sprintf("%s: one is nil: %v and %v", path, show(a), show(b))
		}
		if a.IsNil() {
			return ""
		}
		return diff(a.Elem(), b.Elem(), path, flags, o)
	case reflect.Slice:
		if a.Type() == tAttrs {
			return diffAttrs(a.Interface().([]xml.Attr), b.Interface().([]xml.Attr), path, o)
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d and %d items", path, a.Len(), b.Len())
		}
		for i := range a.Len() {
			if d := diff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i), "", o); d != "" {
				return d
			}
		}
		return ""
	case reflect.Struct:
		t := a.Type()
		trim := false
		if t == tEvent && o.TrimMix {
			for i := range t.NumField() {
				f := a.Field(i)
				if f.Kind() == reflect.Pointer && !f.IsNil() && f.Elem().Kind() == reflect.Struct || f.Kind() == reflect.Slice && f.Len() > 0 {
					trim = true
				}
			}
		}
		for i := range t.NumField() {
			f := t.Field(i)
			if f.PkgPath != "" {
				continue
			}
			tag := f.Tag.Get("xml")
			if f.Type == tName && tag != "" && !o.Names {
				continue
			}
			fl := ""
			if tag == ",chardata" {
				fl = "chardata"
				if trim {
					if trimSpace(a.Field(i).String()) == trimSpace(b.Field(i).String()) {
						continue
					}
				}
			} else if f.Anonymous {
				fl = "embedded"
			}
			if d := diff(a.Field(i), b.Field(i), path+"."+f.Name, fl, o); d != "" {
				return d
			}
		}
		return ""
	case reflect.String:
		if a.String() == b.String() || o.Str != nil && o.Str(a.String(), b.String()) {
			return ""
		}
		return fmt.Sprintf("%s: %q and %q", path, a.String(), b.String())
	}
	if !reflect.DeepEqual(a.Interface(), b.Interface()) {
		return fmt.Sprintf("%s: %v and %v", path, a.Interface(), b.Interface())
	}
	return ""
}

func trimSpace(s string) string {
	i, j := 0, len(s)
	ws := func(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }
	for i < j && ws(s[i]) {
		i++
	}
	for i < j && ws(s[j-1]) {
		j--
	}
	return s[i:j]
}

func diffAttrs(a, b []xml.Attr, path string, o EqOpts) string {
	if !o.Decls {
		a, b = realAttrs(a), realAttrs(b)
	}
	if len(a) != len(b) {
		return fmt.Sprintf("%s: attributes %v and %v", path, a, b)
	}
	for _, x := range a {
		found := false
		for _, y := range b {
			if x.Name == y.Name {
				found = x.Value == y.Value || o.Str != nil && o.Str(x.Value, y.Value)
			}
		}
		if !found {
			return fmt.Sprintf("%s: attributes %v and %v", path, a, b)
		}
	}
	return ""
}

func show(v reflect.Value) string {
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return "nil"
		}
		return fmt.Sprintf("&%v", v.Elem())
	}
	return fmt.Sprint(v)
}

// Dump renders every exported field of a value; equal dumps mean equal values (nil and empty lists differ).
func Dump(v any) string {
	var b []byte
	b = dump(b, reflect.ValueOf(v))
	return string(b)
}

func dump(b []byte, v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Invalid:
		return append(b, "nil"...)
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return append(b, "nil"...)
		}
		b = append(b, '&')
		return dump(b, v.Elem())
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return append(b, "nil"...)
		}
		b = append(b, '[')
		for i := range v.Len() {
			b = dump(b, v.Index(i))
			b = append(b, ' ')
		}
		return append(b, ']')
	case reflect.Map:
		return fmt.Appendf(b, "%v", v.Interface())
	case reflect.Struct:
		t := v.Type()
		b = append(b, '{')
		for i := range t.NumField() {
			if t.Field(i).PkgPath != "" {
				continue
			}
			f := v.Field(i)
			if f.IsZero() {
				continue
			}
			b = append(b, t.Field(i).Name...)
			b = append(b, ':')
			b = dump(b, f)
			b = append(b, ' ')
		}
		return append(b, '}')
	case reflect.String:
		return fmt.Appendf(b, "%q", v.String())
	case reflect.Float32, reflect.Float64:
		return fmt.Appendf(b, "%x", v.Float())
	}
	if v.CanInterface() {
		return fmt.Appendf(b, "%v", v.Interface())
	}
	return fmt.Appendf(b, "%v", v)
}
