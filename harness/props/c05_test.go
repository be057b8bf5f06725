package props

import (
	"strings"
	"testing"

	"verif/harness/kit"
	"verif/harness/xt"
)

// TestC05 reads the same document in different spellings.
func TestC05(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		d := drawDoc(r, "all", nil, kit.DocOpts{})
		a := xt.Write(d.Root, kit.PlainStyleFor(d.Root))
		if r.N(3) == 2 {
			a = xt.Write(d.Root, kit.WildStyle(r, d.Root))
		}
		other := d.Root
		if r.N(4) == 3 {
			var did bool
			if other, did = padValues(r, d.Root); did {
				c.Label("white space in values")
			}
		}
		b := xt.Write(other, kit.WildStyle(r, other))
		if r.N(6) == 5 { // a byte order mark is not part of the document
			b = "\ufeff" + b
			c.Label("byte order mark")
		}
		c.Input(b)
		ma, mb := mustRead(r, a), mustRead(r, b)
		if diff := kit.Diff(ma, mb, kit.EqOpts{Names: true}); diff != "" {
			r.Fatalf("read differently at %s\nA: %s\nB: %s", diff, a, b)
		}
		ind, hdr := drawIndent(r), r.B()
		oa, ob := mustWrite(r, ma, ind, hdr), mustWrite(r, mb, ind, hdr)
		same := oa == ob
		if !same && kit.Dump(ma) != kit.Dump(mb) {
			// Arbitrary attributes are kept in their order, and with them namespace declarations.
			same = xt.Equal(mustParse(r, oa), mustParse(r, ob))
			c.Label("compared as trees")
		}
		if !same {
			r.Fatalf("written differently\nA: %s\nB: %s\nfrom A: %s\nfrom B: %s", oa, ob, a, b)
		}
		c.Key(a, b)
		c.NonTrivial(a != b)
		c.Label("focus:%s", d.Focus.T.Name)
		c.Sample(func() string { return "A: " + a + "\nB: " + b })
	})
}

// padValues returns a copy with other white space in lists and around numbers and booleans, where it has no meaning.
func padValues(r kit.R, root *xt.Node) (*xt.Node, bool) {
	root = kit.Clone(root)
	did := false
	ws := func() string { return r.Pick(" ", "\n", "\t", "\r", "  ", "\r\n", " \t ") }
	for _, p := range kit.Places(root) {
		if p.T == nil {
			continue
		}
		spell := func(name, kind, v string) string {
			if v == "" || !r.B() {
				return v
			}
			switch kind {
			case "tokens", "uints":
				if name != "includeInRequests" && name != "keys" {
					return v // kept as it is, in one string
				}
				var sb strings.Builder
				for i, x := range strings.Fields(v) {
					if i > 0 || r.N(4) == 3 {
						sb.WriteString(ws())
					}
					sb.WriteString(x)
				}
				did = true
				return sb.String() + r.Pick("", "", ws())
			case "u8", "u16", "u32", "u64", "i32", "i64", "b", "f32", "f64", "finf", "dur":
				did = true
				return r.Pick("", ws()) + v + r.Pick("", ws())
			}
			return v
		}
		for i, a := range p.N.Attrs {
			if at := p.T.FindAttr(a.Space, a.Local); at != nil {
				p.N.Attrs[i].Value = spell(a.Local, at.Kind, a.Value)
			}
		}
		if p.T.Text != "" && len(p.N.Kids) == 1 && p.N.Kids[0].Elem == nil {
			p.N.Kids[0].Text = spell("", p.T.Text, p.N.Kids[0].Text)
		}
	}
	return root, did
}
