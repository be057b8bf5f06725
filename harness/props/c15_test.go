package props

import (
	"fmt"
	"math/big"
	"reflect"
	"slices"
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"

	"verif/harness/kit"
	"verif/harness/schema"
	"verif/harness/xt"
)

func scteSlot(s schema.Slot) bool {
	return s.T.Scte || s.Kid != nil && s.Kid.Prefix == "scte35"
}

// rawInner returns the text between the tags of all elements that keep their content verbatim.
func rawInner(src string, root *xt.Node) []string {
	tm := kit.TypeOf(root)
	var out []string
	root.Walk(func(n *xt.Node) {
		if t := tm[n]; t != nil && t.Inner {
			out = append(out, src[n.InnerS:n.InnerE])
		}
	})
	slices.Sort(out)
	return out
}

// TestC15 reads and writes documents with SCTE-35 content.
func TestC15(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		d := drawDoc(r, "scte", scteSlot, kit.DocOpts{Foreign: r.B()})
		src := xt.Write(d.Root, kit.WildStyle(r, d.Root))
		c.Input(src)
		in := mustParse(r, src)
		m := mustRead(r, src)
		ind := drawIndent(r)
		out := mustWrite(r, m, ind, r.B())
		o := mustParse(r, out)
		if err := kit.CompareDocs(d.Root, o, kit.CompareOpts{Indented: ind != "", Trim: true}); err != nil {
			r.Fatalf("focus %s: %v\ninput:  %s\noutput: %s", d.Focus, err, src, out)
		}
		// Ext is kept to the byte.
		var ext []string
		eachPtr(reflect.ValueOf(m), func(x any) {
			if e, ok := x.(*mpd.ExtType); ok {
				ext = append(ext, e.InnerXML)
			}
		})
		slices.Sort(ext)
		want := rawInner(src, in)
		if !slices.Equal(ext, want) {
			r.Fatalf("content of Ext read as %q, it is %q\n%s", ext, want, src)
		}
		if got := rawInner(out, o); !slices.Equal(got, want) {
			r.Fatalf("content of Ext written as %q, it was %q\n%s", got, want, src)
		}
		// The accessor, in document order.
		type info struct {
			direct, wrapped *xt.Node
		}
		var infos []info
		tm := kit.TypeOf(d.Root)
		tEv := schema.Types["EventType"]
		d.Root.Walk(func(n *xt.Node) {
			if tm[n] != tEv || tEv == nil {
				return
			}
			var i info
			for _, k := range n.Elems() {
				switch k.Local {
				case "SpliceInfoSection":
					i.direct = k
				case "Signal":
					for _, s := range k.Elems() {
						if s.Local == "SpliceInfoSection" {
							i.wrapped = s
						}
					}
				}
			}
			infos = append(infos, i)
		})
		var evs []*mpd.EventType
		eachPtr(reflect.ValueOf(m), func(x any) {
			if e, ok := x.(*mpd.EventType); ok {
				evs = append(evs, e)
			}
		})
		if len(evs) != len(infos) {
			r.Fatalf("%d events instead of %d\n%s", len(evs), len(infos), src)
		}
		cnt := map[string]int{}
		for i := range evs {
			w := infos[i].wrapped
			if w == nil {
				w = infos[i].direct
			}
			if w != nil {
				v, _ := w.Attr("", "ptsAdjustment")
				n, _ := new(big.Int).SetString("0"+strings.TrimPrefix(strings.TrimSpace(v), "+"), 10)
				cnt[fmt.Sprint(w.Space, " ", n)]++
			}
			if s := evs[i].SpliceInfo(); s != nil {
				cnt[fmt.Sprint(s.XMLName.Space, " ", s.PtsAdjustment)]--
			}
		}
		for k, n := range cnt {
			if n != 0 {
				r.Fatalf("the accessor returns too few or too many (%d) sections like %s\n%s", -n, k, src)
			}
		}
		c.Key(src)
		c.NonTrivial(len(infos) > 0)
		c.Label("focus:%s", d.Focus.T.Name)
		c.Label("Ext:%v", len(want) > 0)
		c.Sample(func() string { return src })
	})
}
