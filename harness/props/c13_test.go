package props

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"

	"verif/harness/kit"
)

// spot is a place in an object tree that can be changed.
type spot struct {
	path string
	set  func()
}

// walkRefs visits every pointer and non-empty slice reachable through exported fields.
func walkRefs(v reflect.Value, path string, f func(addr uintptr, typ reflect.Type, path string)) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			if v.Elem().Type().Size() > 0 {
				f(v.Pointer(), v.Type(), path)
			}
			walkRefs(v.Elem(), path, f)
		}
	case reflect.Slice:
		if v.Cap() > 0 && v.Len() > 0 {
			f(v.Pointer(), v.Type(), path)
		}
		for i := range v.Len() {
			walkRefs(v.Index(i), fmt.Sprintf("%s[%d]", path, i), f)
		}
	case reflect.Struct:
		for i := range v.NumField() {
			if v.Type().Field(i).PkgPath == "" {
				walkRefs(v.Field(i), path+"."+v.Type().Field(i).Name, f)
			}
		}
	case reflect.Interface:
		if !v.IsNil() {
			walkRefs(v.Elem(), path, f)
		}
	}
}

// spots lists the changeable places of a tree.
func spots(v reflect.Value, path string, out *[]spot) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			if v.CanSet() {
				*out = append(*out, spot{path + " = nil", func() { v.Set(reflect.Zero(v.Type())) }})
			}
			spots(v.Elem(), path, out)
		} else if v.CanSet() {
			*out = append(*out, spot{path + " = new", func() { v.Set(reflect.New(v.Type().Elem())) }})
		}
	case reflect.Slice:
		if v.Len() > 0 {
			*out = append(*out, spot{path + " truncated", func() { v.SetLen(v.Len() - 1) }},
				spot{path + "[0] zeroed", func() { v.Index(0).Set(reflect.Zero(v.Type().Elem())) }},
				spot{path + " reversed", func() {
					for i, j := 0, v.Len()-1; i < j; i, j = i+1, j-1 {
						a, b := v.Index(i).Interface(), v.Index(j).Interface()
						v.Index(i).Set(reflect.ValueOf(b))
						v.Index(j).Set(reflect.ValueOf(a))
					}
				}})
		}
		if v.CanSet() {
			*out = append(*out, spot{path + " appended", func() {
				e := reflect.New(v.Type().Elem()).Elem()
				if e.Kind() == reflect.Pointer {
					e.Set(reflect.New(e.Type().Elem()))
				}
				v.Set(reflect.Append(v, e))
			}})
		}
		for i := range v.Len() {
			spots(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Struct:
		for i := range v.NumField() {
			if v.Type().Field(i).PkgPath == "" {
				spots(v.Field(i), path+"."+v.Type().Field(i).Name, out)
			}
		}
	case reflect.String:
		*out = append(*out, spot{path + " changed", func() { v.SetString(v.String() + "changed") }})
	case reflect.Bool:
		*out = append(*out, spot{path + " changed", func() { v.SetBool(!v.Bool()) }})
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		*out = append(*out, spot{path + " changed", func() { v.SetInt(v.Int() ^ 1) }})
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		*out = append(*out, spot{path + " changed", func() { v.SetUint(v.Uint() ^ 1) }})
	case reflect.Float32, reflect.Float64:
		*out = append(*out, spot{path + " changed", func() {
			if v.Float() == 7 {
				v.SetFloat(8)
			} else {
				v.SetFloat(7)
			}
		}})
	}
}

// TestC13 clones MPDs, periods and adaptation sets and changes either copy.
func TestC13(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		var m *mpd.MPD
		if r.B() {
			m, _ = kit.GenMPD(r, kit.ModelOpts{})
		} else {
			d := drawDoc(r, "all", nil, kit.DocOpts{})
			m = mustRead(r, plain(d))
		}
		var orig, clone any
		what := "MPD"
		switch k := r.N(3); {
		case k == 1 && len(m.Periods) > 0:
			p := m.Periods[r.N(len(m.Periods))]
			orig, clone, what = p, p.Clone(), "Period"
		case k == 2 && len(m.Periods) > 0:
			p := m.Periods[r.N(len(m.Periods))]
			if len(p.AdaptationSets) > 0 {
				a := p.AdaptationSets[r.N(len(p.AdaptationSets))]
				orig, clone, what = a, a.Clone(), "AdaptationSet"
				break
			}
			orig, clone, what = p, p.Clone(), "Period"
		default:
			orig, clone = m, mpd.Clone(m)
		}
		whole := kit.Dump(m)
		if d := kit.Diff(orig, clone, kit.EqOpts{Names: true, Decls: true}); d != "" {
			r.Fatalf("clone of %s differs at %s", what, d)
		}
		if kit.Dump(m) != whole {
			r.Fatalf("cloning changed the original")
		}
		xo, xc := writeAny(r, orig), writeAny(r, clone)
		if xo != xc {
			r.Fatalf("clone of %s is written differently\n%s\n%s", what, xo, xc)
		}
		if parentOf(clone) != nil {
			r.Fatalf("the clone of a %s has a parent: %p (the original's is %p)", what, parentOf(clone), parentOf(orig))
		}
		l := newLinks()
		l.add(clone, nil, true)
		l.log = []string{"clone of " + what}
		l.check(r)
		if _, top := orig.(*mpd.MPD); !top {
			if p := parentOf(orig); p == nil {
				r.Fatalf("cloning detached the original %s", what)
			}
		}
		l = newLinks()
		l.add(m, nil, true)
		l.log = []string{"original after cloning " + what}
		l.check(r)
		// No memory is shared.
		seen := map[uintptr]string{}
		walkRefs(reflect.ValueOf(m), "", func(a uintptr, _ reflect.Type, p string) { seen[a] = p })
		walkRefs(reflect.ValueOf(clone), "", func(a uintptr, t reflect.Type, p string) {
			if q, ok := seen[a]; ok {
				r.Fatalf("clone of %s shares %s (%v) with %s of the original", what, p, t, q)
			}
		})
		// Changes stay on their side.
		a, b := any(m), clone
		if r.B() {
			a, b = clone, m
		}
		changed := a
		if a == any(m) {
			changed = orig
		}
		var ss []spot
		before, xb := kit.Dump(b), writeAny(r, b)
		for range r.In(1, 6) {
			ss = ss[:0]
			spots(reflect.ValueOf(changed), "", &ss)
			s := ss[r.N(len(ss))]
			s.set()
			if kit.Dump(b) != before {
				r.Fatalf("change %s of one copy of a %s shows in the other", s.path, what)
			}
		}
		if writeAny(r, b) != xb {
			r.Fatalf("a change of one copy of a %s shows in what is written of the other", what)
		}
		c.Key(whole, what)
		c.NonTrivial(len(ss) > 5)
		c.Label("%s", what)
		c.Sample(func() string { return what + " " + xo })
	})
}

func writeAny(r kit.R, x any) string {
	var sb sbuf
	if _, err := mpd.WriteXML(x, &sb, "", false); err != nil {
		r.Fatalf("write failed: %v", err)
	}
	return sb.String()
}
