package props

import (
	"testing"

	"verif/harness/kit"
)

// TestC02 writes generated object trees and compares what is read back.
func TestC02(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		m, target := kit.GenMPD(r, kit.ModelOpts{})
		if r.N(16) == 15 {
			m.XMLNs = ""
		}
		before := kit.Dump(m)
		ind := drawIndent(r)
		hdr := r.B()
		out := mustWrite(r, m, ind, hdr)
		c.Input(out)
		if after := kit.Dump(m); after != before {
			r.Fatalf("writing changed the object tree:\n%s\n-- became --\n%s", before, after)
		}
		got := mustRead(r, out)
		if d := kit.Diff(m, got, kit.EqOpts{TrimMix: ind != ""}); d != "" {
			r.Fatalf("target %s: read back different at %s\n%s", target, d, out)
		}
		c.Key(before)
		c.NonTrivial(len(before) > 40)
		c.Label("target:%s", target)
		c.Sample(func() string { return out })
	})
}
