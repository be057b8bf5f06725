package props

import (
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"

	"verif/harness/kit"
	"verif/harness/xt"
)

var tokRE = regexp.MustCompile(`tok(\d+)x`)

// substitute replaces the tokens in all strings of an object tree, except raw inner XML.
func substitute(v reflect.Value, f func(string) string) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			substitute(v.Elem(), f)
		}
	case reflect.Slice:
		for i := range v.Len() {
			substitute(v.Index(i), f)
		}
	case reflect.Struct:
		t := v.Type()
		for i := range t.NumField() {
			if t.Field(i).PkgPath == "" && t.Field(i).Tag.Get("xml") != ",innerxml" && t.Field(i).Type.Name() != "Name" {
				substitute(v.Field(i), f)
			}
		}
	case reflect.String:
		if s := v.String(); strings.Contains(s, "tok") {
			v.SetString(f(s))
		}
	}
}

// sameShape checks that a is b with the tokens in values replaced.
func sameShape(a, b *xt.Node, f func(string) string) error {
	if a.Name != b.Name {
		return fmt.Errorf("element %v instead of %v", a.Name, b.Name)
	}
	if len(a.Attrs) != len(b.Attrs) {
		return fmt.Errorf("%v: %d attributes instead of %d", a.Name, len(a.Attrs), len(b.Attrs))
	}
	for _, x := range b.Attrs {
		v, ok := a.Attr(x.Space, x.Local)
		if !ok {
			return fmt.Errorf("%v: attribute %v disappeared", a.Name, x.Name)
		}
		if w := f(x.Value); v != w {
			return fmt.Errorf("%v: attribute %v is %q instead of %q", a.Name, x.Name, v, w)
		}
	}
	ea, eb := a.Elems(), b.Elems()
	if len(ea) != len(eb) {
		return fmt.Errorf("%v: %d child elements instead of %d", a.Name, len(ea), len(eb))
	}
	if v, w := a.Text(), f(b.Text()); v != w {
		return fmt.Errorf("%v: text %q instead of %q", a.Name, v, w)
	}
	for i := range ea {
		if err := sameShape(ea[i], eb[i], f); err != nil {
			return err
		}
	}
	return nil
}

// TestC03 writes object trees with arbitrary strings; the reference is the same tree with harmless strings.
func TestC03(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		var strs []string
		o := kit.ModelOpts{Str: func(r kit.R) string {
			strs = append(strs, r.RawStr())
			return fmt.Sprintf("tok%dx", len(strs)-1)
		}}
		m, target := kit.GenMPD(r, o)
		ind, hdr := drawIndent(r), r.B()
		ref := mustParse(r, mustWrite(r, m, ind, hdr))
		repl := func(g func(string) string) func(string) string {
			return func(s string) string {
				return tokRE.ReplaceAllStringFunc(s, func(x string) string {
					i, _ := strconv.Atoi(tokRE.FindStringSubmatch(x)[1])
					return g(strs[i])
				})
			}
		}
		substitute(reflect.ValueOf(m), repl(func(s string) string { return s }))
		out, err := m.WriteToString(ind, hdr)
		if err != nil {
			c.Label("error")
			return
		}
		c.Input(out)
		doc, err := xt.ParseString(out)
		if err != nil {
			r.Fatalf("not well-formed: %v\n%q", err, out)
		}
		if err := sameShape(doc.Root, ref, repl(kit.Sanitize)); err != nil {
			r.Fatalf("target %s: %v\n%q", target, err, out)
		}
		if m2, err := mpd.ReadFromString(out); err != nil || m2 == nil {
			// Typed attributes never hold free strings, so reading must succeed.
			r.Fatalf("cannot be read back: %v\n%q", err, out)
		}
		c.Key(out)
		c.NonTrivial(len(strs) > 0)
		c.Label("target:%s", target)
		c.Sample(func() string { return out })
	})
}
