package props

import (
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"

	"verif/harness/kit"
	"verif/harness/schema"
	"verif/harness/xt"
)

// drawDoc draws a document with a uniformly chosen focus slot.
func drawDoc(r kit.R, key string, f func(schema.Slot) bool, o kit.DocOpts) *kit.Doc {
	slots := kit.FocusSlots(key, f)
	return kit.GenDoc(r, slots[r.N(len(slots))], o)
}

func drawIndent(r kit.R) string {
	if r.N(12) == 11 {
		return r.Pick("    ", "\t\t", " \t", "\n", strings.Repeat(" ", r.In(5, 300)))
	}
	return r.Pick("", "", "  ", "\t", " ")
}

func mustRead(r kit.R, src string) *mpd.MPD {
	m, err := mpd.ReadFromString(src)
	if err != nil {
		r.Fatalf("valid document rejected: %v\n%s", err, src)
	}
	return m
}

func mustWrite(r kit.R, m *mpd.MPD, indent string, header bool) string {
	s, err := m.WriteToString(indent, header)
	if err != nil {
		r.Fatalf("write failed: %v", err)
	}
	return s
}

func mustParse(r kit.R, s string) *xt.Node {
	d, err := xt.ParseString(s)
	if err != nil {
		r.Fatalf("output is not well-formed: %v\n%s", err, s)
	}
	return d.Root
}

// TestC01 reads generated documents and compares what is written with the input.
func TestC01(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		d := drawDoc(r, "all", nil, kit.DocOpts{})
		src := xt.Write(d.Root, kit.PlainStyleFor(d.Root))
		c.Input(src)
		m := mustRead(r, src)
		ind := drawIndent(r)
		out := mustWrite(r, m, ind, r.B())
		o := mustParse(r, out)
		if err := kit.CompareDocs(d.Root, o, kit.CompareOpts{Indented: ind != ""}); err != nil {
			r.Fatalf("focus %s: %v\ninput:  %s\noutput: %s", d.Focus, err, src, out)
		}
		c.Key(src)
		c.NonTrivial(d.Elems >= 2)
		c.Label("focus:%s", d.Focus.T.Name)
		if d.Bulk > 0 {
			c.Label("copies of one element:%d", d.Bulk/10*10)
		}
		c.Sample(func() string { return src })
	})
}

func plain(d *kit.Doc) string { return xt.Write(d.Root, kit.PlainStyleFor(d.Root)) }
