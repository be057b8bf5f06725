package props

import (
	"fmt"
	"io"
	"reflect"
	"slices"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"
	fork "github.com/Eyevinn/dash-mpd/xml"

	"verif/harness/kit"
	"verif/harness/xt"
)

// image shows all of a tree: addresses, unexported fields and memory behind the length of slices as well.
func image(v reflect.Value, seen map[uintptr]bool, out *[]byte) {
	switch v.Kind() {
	case reflect.Pointer:
		*out = fmt.Appendf(*out, "*%x", v.Pointer())
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		image(v.Elem(), seen, out)
	case reflect.Interface:
		if !v.IsNil() {
			image(v.Elem(), seen, out)
		}
	case reflect.Struct:
		*out = append(*out, '{')
		for i := range v.NumField() {
			image(v.Field(i), seen, out)
			*out = append(*out, ' ')
		}
		*out = append(*out, '}')
	case reflect.Slice:
		*out = fmt.Appendf(*out, "[%x %d %d:", v.Pointer(), v.Len(), v.Cap())
		if v.Cap() > v.Len() {
			v = v.Slice(0, v.Cap())
		}
		fallthrough
	case reflect.Array:
		for i := range v.Len() {
			image(v.Index(i), seen, out)
			*out = append(*out, ' ')
		}
		*out = append(*out, ']')
	case reflect.String:
		*out = fmt.Appendf(*out, "%q", v.String())
	case reflect.Bool:
		*out = fmt.Appendf(*out, "%v", v.Bool())
	case reflect.Float32, reflect.Float64:
		*out = fmt.Appendf(*out, "%x", v.Float())
	case reflect.Map:
		*out = fmt.Appendf(*out, "map%d", v.Len())
	default:
		if v.CanInt() {
			*out = fmt.Appendf(*out, "%d", v.Int())
		} else if v.CanUint() {
			*out = fmt.Appendf(*out, "%d", v.Uint())
		}
	}
}

func imageOf(v any) string {
	var b []byte
	image(reflect.ValueOf(v), map[uintptr]bool{}, &b)
	return string(b)
}

// inheriting draws an MPD with values on several levels, in lists which have room for more.
func inheriting(r kit.R) *mpd.MPD {
	protections := func(v inh) []*mpd.ContentProtectionType {
		l := slices.Grow(v.protections(r), r.N(4))
		if r.B() {
			for i := range l[len(l):cap(l)] {
				l[len(l):cap(l)][i] = mpd.NewContentProtection()
			}
		}
		return l
	}
	m := mpd.NewMPD(r.Pick("static", "dynamic"))
	for range r.In(1, 3) {
		p := wear(r, mpd.NewPeriod())
		p.Start, p.Duration = durPtr(drawOpt(r, 30)), durPtr(drawOpt(r, 50))
		m.AppendPeriod(p)
		for range r.In(0, 2) {
			a, v := wear(r, mpd.NewAdaptationSet()), drawInh(r)
			a.MimeType, a.Codecs, a.SegmentTemplate, a.ContentProtections = v.mime, v.codecs, v.template(r), protections(v)
			p.AppendAdaptationSet(a)
			for range r.In(1, 3) {
				rep, v := wear(r, mpd.NewRepresentation()), drawInh(r)
				rep.MimeType, rep.Codecs, rep.SegmentTemplate, rep.ContentProtections = v.mime, v.codecs, v.template(r), protections(v)
				a.AppendRepresentation(rep)
			}
		}
	}
	return m
}

// unlink removes or misleads some or all of the parent links.
func unlink(r kit.R, m *mpd.MPD) {
	all := r.B()
	other := r.B()
	cut := func() bool { return all || r.B() }
	for _, p := range m.Periods {
		if cut() {
			p.SetParent(nil)
		}
		for _, a := range append(slices.Clone(p.AdaptationSets), p.EmptyAdaptationSets...) {
			if cut() {
				a.SetParent(nil)
			}
			if other && r.P(20) {
				a.SetParent(m.Periods[r.N(len(m.Periods))])
			}
			for _, rep := range a.Representations {
				if cut() {
					rep.SetParent(nil)
				}
				for _, s := range rep.SubRepresentations {
					if cut() {
						s.SetParent(nil)
					}
				}
			}
		}
	}
}

// TestC33 makes queries, writes and clones and looks for changes in the objects.
func TestC33(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		var m *mpd.MPD
		form := r.N(4)
		switch form {
		case 0:
			d := drawDoc(r, "all", nil, kit.DocOpts{})
			m = mustRead(r, xt.Write(d.Root, kit.WildStyle(r, d.Root)))
		case 1:
			m, _ = kit.GenMPD(r, kit.ModelOpts{})
			unlink(r, m)
		case 2:
			m = inheriting(r)
		default:
			m, _ = kit.GenMPD(r, kit.ModelOpts{})
			m.SetParents()
		}
		before := imageOf(m)
		hist := fmt.Sprintf("form %d: ", form)
		for range r.In(1, 4) {
			what := ""
			func() {
				defer func() {
					if p := recover(); p != nil && form == 1 {
						what += " (panic without parents)"
					} else if p != nil {
						panic(p)
					}
				}()
				switch r.N(7) {
				case 0:
					what = "queries"
					_ = answers(m)
				case 1:
					what = "WriteToString"
					_, _ = m.WriteToString(drawIndent(r), r.B())
				case 2:
					what = "failing Write"
					_, _ = m.Write(&faultWriter{limit: r.N(2000)}, drawIndent(r), r.B())
				case 3:
					what = "Marshal"
					_, _ = fork.Marshal(m)
				case 4:
					what = "Clone"
					_ = mpd.Clone(m)
					for _, p := range m.Periods {
						_ = p.Clone()
						for _, a := range p.AdaptationSets {
							_ = a.Clone()
						}
					}
				case 5:
					what = "Period.Write"
					for _, p := range m.Periods {
						_, _ = p.Write(io.Discard, drawIndent(r))
					}
				default:
					what = "period queries"
					for i, p := range m.Periods {
						if n := len(m.Periods); n > 60 && i != 20 && i != n/2 && i != n-1 {
							continue
						}
						_, _ = p.GetStart()
						_, _ = p.GetDuration()
						_, _ = p.GetType()
						_, _ = p.GetIndex()
						_, _ = p.AbsoluteStart(m)
					}
				}
			}()
			hist += what + "; "
			c.Input(hist)
			if after := imageOf(m); after != before {
				r.Fatalf("%s changes the MPD\n%s", what, firstDiff(before, after))
			}
		}
		c.Key(kit.Dump(m), hist)
		c.NonTrivial(len(m.Periods) > 0)
		c.Label("form:%d", form)
		c.Sample(func() string { return hist + kit.Dump(m) })
	})
}
