package props

import (
	"fmt"
	"reflect"
	"regexp"
	"slices"
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"
	fork "github.com/Eyevinn/dash-mpd/xml"

	"verif/harness/kit"
	"verif/harness/xt"
)

// TestC29 reads and writes again what was written.
func TestC29(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		var s, how string
		if r.B() {
			s, how, _ = oddDoc(r)
			how = strings.SplitN(how, ":", 2)[0]
		} else {
			d := drawDoc(r, "all", nil, kit.DocOpts{Foreign: r.B()})
			s, how = xt.Write(d.Root, kit.WildStyle(r, d.Root)), "valid"
		}
		c.Input(s)
		m, err := mpd.ReadFromString(s)
		if err != nil {
			if how == "valid" {
				r.Fatalf("rejected: %v\n%q", err, s)
			}
			return
		}
		if bareScte(m) {
			// An SCTE-35 element without namespace is written in that of its parent, as documented.
			c.Label("bare SCTE-35 element")
			return
		}
		ind, hdr := drawIndent(r), r.B()
		drift := ind != "" && trimEvents(m)
		first := mustWrite(r, m, ind, hdr)
		prev := first
		for i := range r.In(1, 3) {
			m2 := mustRead(r, prev)
			if r.B() {
				m2 = mpd.Clone(m2)
			}
			if ind != "" {
				trimEvents(m2)
			}
			next := mustWrite(r, m2, ind, hdr)
			same := next == prev
			if !same && i == 0 && keptDecls(m2) {
				// A namespace declaration of the first form is kept as an arbitrary attribute, in its place among these,
				// and an attribute of its namespace uses it.
				same = bareNames(next) == bareNames(prev)
				a, err1 := xt.ParseString(prev)
				b, err2 := xt.ParseString(next)
				if err1 == nil && err2 == nil { // content of Ext can use prefixes not declared (a known finding)
					same = same && xt.Equal(a.Root, b.Root)
				}
				c.Label("declarations kept")
			}
			if !same {
				r.Fatalf("cycle %d changes the written form\n%s\nfrom %q\n1: %q\n2: %q", i+1, firstDiff(prev, next), s, prev, next)
			}
			prev = next
		}
		c.Key(s, ind)
		c.NonTrivial(len(first) > 60)
		c.Label("how:%s", how)
		c.Label("known drift avoided:%v", drift)
		c.Label("indent:%q", ind)
		c.Sample(func() string { return s })
	})
}

// trimEvents removes the white space around the text of events with child elements: indentation adds some on each
// cycle (a known finding).
func trimEvents(m *mpd.MPD) (found bool) {
	eachPtr(reflect.ValueOf(m), func(x any) {
		e, ok := x.(*mpd.EventType)
		if ok && (e.SelectionInfo != nil || e.ServiceDescription != nil || e.InsertPresentation != nil || e.ReplacePresentation != nil || e.Signal != nil ||
			e.SpliceInfoSection != nil || len(e.SupplementalProperty)+len(e.EssentialProperty) > 0) {
			found = true
			e.Value = strings.Trim(e.Value, " \t\r\n")
		}
	})
	return found
}

// eachPtr calls f for pointers to all structs below v.
func eachPtr(v reflect.Value, f func(any)) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			eachPtr(v.Elem(), f)
		}
	case reflect.Slice:
		for i := range v.Len() {
			eachPtr(v.Index(i), f)
		}
	case reflect.Struct:
		f(v.Addr().Interface())
		for i := range v.NumField() {
			if v.Type().Field(i).IsExported() {
				eachPtr(v.Field(i), f)
			}
		}
	}
}

// keptDecls tells whether namespace declarations are kept as arbitrary attributes.
func keptDecls(m *mpd.MPD) (found bool) {
	eachPtr(reflect.ValueOf(m), func(x any) {
		v := reflect.ValueOf(x).Elem()
		for i := range v.NumField() {
			if !v.Type().Field(i).IsExported() {
				continue
			}
			if as, ok := v.Field(i).Interface().([]fork.Attr); ok {
				for _, a := range as {
					found = found || a.Name.Space == xmlnsURI || a.Name.Space == "xmlns" || a.Name.Local == "xmlns"
				}
			}
		}
	})
	return found
}

var tagRE = regexp.MustCompile(`<[^!?][^>]*>`)
var attrRE = regexp.MustCompile(` [^ =]+="[^"]*"`)
var prefixRE = regexp.MustCompile(`([ </])[^ =/:>"]+:([^ =:>"]+)`)

// bareNames removes declarations and prefixes from the tags of a written document and sorts their attributes.
func bareNames(s string) string {
	return tagRE.ReplaceAllStringFunc(s, func(t string) string {
		var as []string
		t = attrRE.ReplaceAllStringFunc(t, func(a string) string {
			if !strings.HasPrefix(a, " xmlns") {
				i := strings.IndexByte(a, '=')
				n, p, ok := strings.Cut(a[1:i], ":")
				if ok {
					n = p
				}
				as = append(as, " "+n+a[i:])
			}
			return ""
		})
		slices.Sort(as)
		t = prefixRE.ReplaceAllString(t, "$1$2")
		return t + strings.Join(as, "")
	})
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-80)
	return fmt.Sprintf("at byte %d:\n%q\n%q", i, a[lo:min(len(a), i+80)], b[lo:min(len(b), i+80)])
}

func bareScte(m *mpd.MPD) (found bool) {
	eachPtr(reflect.ValueOf(m), func(x any) {
		if e, ok := x.(*mpd.EventType); ok {
			found = found || e.Signal != nil && e.Signal.XMLName.Space == "" || e.SpliceInfoSection != nil && e.SpliceInfoSection.XMLName.Space == ""
		}
	})
	return found
}
