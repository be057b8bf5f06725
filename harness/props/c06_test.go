package props

import (
	"testing"

	"verif/harness/kit"
	"verif/harness/xt"
)

// TestC06 adds unknown content to a document.
func TestC06(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		d := drawDoc(r, "all", nil, kit.DocOpts{})
		src := xt.Write(d.Root, kit.PlainStyleFor(d.Root))
		big := kit.Clone(d.Root)
		n := kit.AddUnknown(r, big)
		st := kit.PlainStyleFor(big)
		if r.B() {
			st = kit.WildStyle(r, big)
		}
		with := xt.Write(big, st)
		c.Input(with)
		ma, mb := mustRead(r, src), mustRead(r, with)
		if diff := kit.Diff(ma, mb, kit.EqOpts{Names: true}); diff != "" {
			r.Fatalf("unknown content changed what is read at %s\nwithout: %s\nwith: %s", diff, src, with)
		}
		oa, ob := mustWrite(r, ma, "", false), mustWrite(r, mb, "", false)
		if oa != ob && !xt.Equal(mustParse(r, oa), mustParse(r, ob)) {
			r.Fatalf("unknown content changed what is written\nwithout: %s\nwith: %s\ninput: %s", oa, ob, with)
		}
		c.Key(with)
		c.NonTrivial(n > 0)
		c.Label("focus:%s", d.Focus.T.Name)
		c.Sample(func() string { return with })
	})
}
