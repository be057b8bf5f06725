package props

import (
	"bytes"
	"reflect"
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"
	fork "github.com/Eyevinn/dash-mpd/xml"

	"verif/harness/kit"
	"verif/harness/schema"
	"verif/harness/xt"
)

// indented is the compact form src, indented by the rule of Encoder.Indent: each element begins on a new line, and its end
// tag too if something but text is within. Content kept verbatim is left alone.
func indented(src string, root *xt.Node, verbatim func(*xt.Node) bool, prefix, indent string) string {
	var sb strings.Builder
	line := func(depth int, first bool) {
		if prefix == "" && indent == "" {
			return
		}
		if !first {
			sb.WriteByte('\n')
		}
		sb.WriteString(prefix)
		sb.WriteString(strings.Repeat(indent, depth))
	}
	var rec func(n *xt.Node, depth int)
	rec = func(n *xt.Node, depth int) {
		line(depth, depth == 0)
		sb.WriteString(src[n.Start:n.InnerS])
		pos := n.InnerS
		if verbatim(n) {
			sb.WriteString(src[n.InnerS:n.InnerE])
			pos = n.InnerE
		} else {
			kids := n.Elems()
			for _, k := range kids {
				sb.WriteString(src[pos:k.Start])
				rec(k, depth+1)
				pos = endOf(src, k)
			}
			sb.WriteString(src[pos:n.InnerE])
			pos = n.InnerE
			if len(kids) > 0 {
				line(depth, false)
			}
		}
		sb.WriteString(src[pos:endOf(src, n)])
	}
	rec(root, 0)
	return sb.String()
}

// endOf is the offset after the end tag of n.
func endOf(src string, n *xt.Node) int {
	return n.InnerE + strings.IndexByte(src[n.InnerE:], '>') + 1
}

// respace moves all names of one namespace to another.
func respace(n *xt.Node, from, to string) {
	n.Walk(func(e *xt.Node) {
		if e.Space == from {
			e.Space = to
		}
	})
}

// TestC27 writes each object in all ways.
func TestC27(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		var m *mpd.MPD
		if r.P(30) {
			d := drawDoc(r, "all", nil, kit.DocOpts{Foreign: r.B()})
			m = mustRead(r, xt.Write(d.Root, kit.WildStyle(r, d.Root)))
			c.Label("from a document")
		} else {
			m, _ = kit.GenMPD(r, kit.ModelOpts{})
		}
		ind := r.Pick("", " ", "  ", "\t", "    ", "\t ", "\n")
		prefix := r.Pick("", "", " ", "\t\t")
		const header = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"
		same := func(what, got string, err error, want string) {
			if err != nil {
				r.Fatalf("%s failed: %v", what, err)
			}
			if got != want {
				r.Fatalf("%s differs\n%s", what, firstDiff(want, got))
			}
		}
		raw, err := fork.Marshal(m)
		if err != nil {
			r.Fatalf("Marshal: %v", err)
		}
		compact := string(raw)
		c.Input(compact)
		forms := func(x any, what, want, prefix, ind string) {
			var b bytes.Buffer
			b0, err := fork.MarshalIndent(x, prefix, ind)
			same("MarshalIndent of "+what, string(b0), err, want)
			e := fork.NewEncoder(&b)
			e.Indent(prefix, ind)
			err = e.Encode(x)
			same("Encoder for "+what, b.String(), err, want)
			b.Reset()
			e = fork.AcquireEncoder(&b)
			e.Indent(prefix, ind)
			err = e.Encode(x)
			fork.ReleaseEncoder(e)
			same("pooled Encoder for "+what, b.String(), err, want)
			if prefix != "" {
				return
			}
			for _, hdr := range []bool{false, true} {
				want := want
				if hdr {
					want = header + want
				}
				b.Reset()
				n, err := mpd.WriteXML(x, &b, ind, hdr)
				same("WriteXML of "+what, b.String(), err, want)
				if n != len(want) {
					r.Fatalf("WriteXML of %s returned %d for %d bytes", what, n, len(want))
				}
				switch x := x.(type) {
				case *mpd.MPD:
					b.Reset()
					n, err := x.Write(&b, ind, hdr)
					same("MPD.Write", b.String(), err, want)
					if n != len(want) {
						r.Fatalf("MPD.Write returned %d for %d bytes", n, len(want))
					}
					s, err := x.WriteToString(ind, hdr)
					same("MPD.WriteToString", s, err, want)
				case *mpd.Period:
					if hdr {
						continue
					}
					b.Reset()
					n, err := x.Write(&b, ind)
					same("Period.Write", b.String(), err, want)
					if n != len(want) {
						r.Fatalf("Period.Write returned %d for %d bytes", n, len(want))
					}
					s, err := x.WriteToString(ind)
					same("Period.WriteToString", s, err, want)
				}
			}
		}
		root := mustParse(r, compact)
		tm := kit.TypeOf(root)
		verbatim := func(n *xt.Node) bool { return tm[n] != nil && tm[n].Inner }
		forms(m, "the MPD, compact", compact, "", "")
		if ind != "" || prefix != "" {
			forms(m, "the MPD, indented", indented(compact, root, verbatim, prefix, ind), prefix, ind)
		}
		raw, err = fork.Marshal(*m)
		same("Marshal by value", string(raw), err, compact)

		// Parts on their own.
		var ps []*xt.Node
		for _, k := range root.Elems() {
			if k.Local == "Period" && k.Space == root.Space {
				ps = append(ps, k)
			}
		}
		if len(ps) != len(m.Periods) {
			r.Fatalf("%d periods written of %d\n%s", len(ps), len(m.Periods), compact)
		}
		if len(ps) > 0 {
			i := r.N(len(ps))
			p := m.Periods[i]
			raw, err := fork.Marshal(p)
			if err != nil {
				r.Fatalf("Marshal of a period: %v", err)
			}
			alone := string(raw)
			pr := mustParse(r, alone)
			forms(p, "a period, compact", alone, "", "")
			in2 := mustParse(r, alone)
			respace(in2, "", schema.DASH)
			ptm := kit.TypeOf(&xt.Node{Name: xt.Name{Space: schema.DASH, Local: "MPD"}, Kids: []xt.Kid{{Elem: in2}}})
			pv := func(n *xt.Node) bool { return ptm[n] != nil && ptm[n].Inner }
			forms(p, "a period, indented", indented(alone, in2, pv, prefix, ind), prefix, ind)
			respace(pr, root.Space, "")
			in := kit.Clone(ps[i])
			respace(in, root.Space, "")
			if a, b := xt.Dump(in), xt.Dump(pr); a != b {
				r.Fatalf("the period on its own differs from that in the MPD\n%s", firstDiff(a, b))
			}
		}
		// Any other element.
		var all []any
		eachPtr(reflect.ValueOf(m), func(x any) { all = append(all, x) })
		x := all[r.N(len(all))]
		if raw, err := fork.Marshal(x); err == nil {
			forms(x, reflect.TypeOf(x).String(), string(raw), "", "")
			raw, err := fork.MarshalIndent(x, prefix, ind)
			same("MarshalIndent", "", err, "")
			forms(x, reflect.TypeOf(x).String()+" indented", string(raw), prefix, ind)
			c.Label("part written")
		}
		c.Key(compact, ind, prefix)
		c.NonTrivial(len(root.Elems()) > 0)
		c.Label("indent:%q", ind)
		c.Label("periods:%v", len(ps) > 0)
		c.Sample(func() string { return compact })
	})
}
