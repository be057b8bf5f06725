package props

import (
	"fmt"
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"

	"verif/harness/kit"
)

func drawTemplate(r kit.R) []string {
	var out []string
	for range r.N(6) {
		out = append(out, r.Pick("$RepresentationID$", "$RepresentationID$", "$Bandwidth$", "$Bandwidth$", "$Number$", "$Time$", "$Number%05d$", "$SubNumber$",
			"/", "seg-", ".m4s", "init", "?a=b&c=%20", "é", "Representation ID", "bandwidth", "\\1", "%s", "%!d", "{id}"))
	}
	return out
}

func expand(parts []string, id string, bw uint32) string {
	var sb strings.Builder
	for _, p := range parts {
		switch p {
		case "$RepresentationID$":
			sb.WriteString(id)
		case "$Bandwidth$":
			fmt.Fprintf(&sb, "%d", bw)
		default:
			sb.WriteString(p)
		}
	}
	return sb.String()
}

// inh holds the values one level gives.
type inh struct {
	mime, codecs string
	tmpl         bool
	init, media  []string
	cps          []string
}

func drawInh(r kit.R) inh {
	var v inh
	if r.B() {
		v.mime = r.Pick("video/mp4", "audio/mp4", "application/mp4", "text/vtt", " ", "x", "\n", "application/octet-stream")
	}
	if r.B() {
		v.codecs = r.Pick("avc1.64001f", "mp4a.40.2", "stpp,wvtt", "x", " ", "\t", "\u00a0")
	}
	if r.B() {
		v.tmpl = true
		v.init, v.media = drawTemplate(r), drawTemplate(r)
	}
	if r.B() {
		for i := range r.N(4) {
			v.cps = append(v.cps, fmt.Sprintf("urn:uuid:%d-%d", i, r.N(10)))
		}
	}
	return v
}

func (v inh) template(r kit.R) *mpd.SegmentTemplateType {
	if !v.tmpl {
		return nil
	}
	st := mpd.NewSegmentTemplate()
	if r.P(25) {
		kit.Dress(r, st)
	}
	st.Initialization, st.Media = strings.Join(v.init, ""), strings.Join(v.media, "")
	return st
}

func (v inh) protections(r kit.R) []*mpd.ContentProtectionType {
	var out []*mpd.ContentProtectionType
	for _, s := range v.cps {
		cp := mpd.NewContentProtection()
		if r.P(25) {
			kit.Dress(r, cp)
		}
		cp.SchemeIdUri = mpd.AnyURI(s)
		out = append(out, cp)
	}
	return out
}

type repModel struct {
	inh
	id string
	bw uint32
}

func checkRep(r kit.R, rep *mpd.RepresentationType, m repModel, up *inh, as *mpd.AdaptationSetType) {
	eff := m.inh
	tmplOwner := rep.SegmentTemplate
	cps := rep.ContentProtections
	if up != nil {
		if eff.mime == "" {
			eff.mime = up.mime
		}
		if eff.codecs == "" {
			eff.codecs = up.codecs
		}
		if !eff.tmpl {
			eff.tmpl, eff.init, eff.media = up.tmpl, up.init, up.media
			tmplOwner = as.SegmentTemplate
		}
		if len(eff.cps) == 0 {
			eff.cps = up.cps
			cps = as.ContentProtections
		}
	}
	if g := rep.GetMimeType(); g != eff.mime {
		r.Fatalf("GetMimeType is %q, want %q", g, eff.mime)
	}
	if g := rep.GetCodecs(); g != eff.codecs {
		r.Fatalf("GetCodecs is %q, want %q", g, eff.codecs)
	}
	g := rep.GetContentProtections()
	if len(g) != len(eff.cps) {
		r.Fatalf("GetContentProtections gives %d items, want %d", len(g), len(eff.cps))
	}
	for i := range g {
		if g[i] != cps[i] || string(g[i].SchemeIdUri) != eff.cps[i] {
			r.Fatalf("GetContentProtections: item %d is %v, want %s", i, g[i].SchemeIdUri, eff.cps[i])
		}
	}
	if g := rep.GetSegmentTemplate(); g != tmplOwner || (g != nil) != eff.tmpl {
		r.Fatalf("GetSegmentTemplate is %p, want %p", g, tmplOwner)
	}
	for _, x := range []struct {
		name  string
		parts []string
		f     func() (string, error)
	}{{"GetInit", eff.init, rep.GetInit}, {"GetMedia", eff.media, rep.GetMedia}} {
		got, err := x.f()
		if up == nil {
			// Outside an adaptation set: an error, or the value of the own template.
			if err == nil && (!eff.tmpl || got != expand(x.parts, m.id, m.bw)) {
				r.Fatalf("%s without parent is %q", x.name, got)
			}
			continue
		}
		if !eff.tmpl {
			if err == nil {
				r.Fatalf("%s without template is %q", x.name, got)
			}
			continue
		}
		if want := expand(x.parts, m.id, m.bw); err != nil || got != want {
			r.Fatalf("%s of template %q, id %q, bandwidth %d is %q (%v), want %q", x.name, strings.Join(x.parts, ""), m.id, m.bw, got, err, want)
		}
	}
}

// TestC14 compares the effective values of representations with a model, also after edits.
func TestC14(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		up := drawInh(r)
		as := mpd.NewAdaptationSet()
		dressed := r.P(30)
		if dressed {
			kit.Dress(r, as, "Representations")
		}
		set := func() {
			as.MimeType, as.Codecs, as.SegmentTemplate, as.ContentProtections = up.mime, up.codecs, up.template(r), up.protections(r)
		}
		set()
		var ms []repModel
		setRep := func(rep *mpd.RepresentationType, m repModel) {
			rep.Id, rep.Bandwidth = m.id, m.bw
			rep.MimeType, rep.Codecs, rep.SegmentTemplate, rep.ContentProtections = m.mime, m.codecs, m.template(r), m.protections(r)
		}
		nr := r.In(1, 4)
		if r.N(200) == 199 {
			nr = r.Pick2(r.In(30, 70), r.In(125, 270))
		}
		for range nr {
			m := repModel{inh: drawInh(r), bw: uint32(r.Bits(32))}
			m.id = r.Pick("1", "video", "v-1.2", "a.*b(x)[", "\\1", "%d%s", "RepresentationID", "Bandwidth", "", "ä", "{0}", "a/b", "&amp;", " ", "Number", "$Bandwidth$", "a$b", "$", "$RepresentationID$", "$$")
			ms = append(ms, m)
			rep := mpd.NewRepresentation()
			if dressed && len(ms) < 5 {
				kit.Dress(r, rep)
			}
			setRep(rep, m)
			as.AppendRepresentation(rep)
		}
		x := mpd.NewMPD("static")
		p := mpd.NewPeriod()
		x.AppendPeriod(p)
		p.AppendAdaptationSet(as)
		// A template and protections on other levels play no role.
		if r.B() {
			p.SegmentTemplate = &mpd.SegmentTemplateType{Initialization: "period"}
			x.ContentProtection = []*mpd.ContentProtectionType{mpd.NewContentProtection()}
		}
		how := r.Pick("built", "cloned", "read", "adaptation set clone")
		switch how {
		case "cloned":
			x = mpd.Clone(x)
			as = x.Periods[0].AdaptationSets[0]
		case "read":
			x = mustRead(r, mustWrite(r, x, "", false))
			as = x.Periods[0].AdaptationSets[0]
		case "adaptation set clone":
			as = as.Clone()
			p2 := mpd.NewPeriod()
			p2.AppendAdaptationSet(as)
			x.AppendPeriod(p2)
		}
		check := func() {
			before := kit.Dump(x)
			if as.GetMimeType() != up.mime || as.GetCodecs() != up.codecs || as.GetSegmentTemplate() != as.SegmentTemplate || len(as.GetContentProtections()) != len(up.cps) {
				r.Fatalf("adaptation set values are wrong")
			}
			for i, rep := range as.Representations {
				checkRep(r, rep, ms[i], &up, as)
			}
			if kit.Dump(x) != before {
				r.Fatalf("a query changed the MPD")
			}
		}
		check()
		check()
		for range r.N(4) { // edits
			if r.B() {
				up = drawInh(r)
				set()
			} else {
				i := r.N(len(ms))
				ms[i].inh = drawInh(r)
				if r.B() {
					ms[i].id, ms[i].bw = "edited", uint32(r.Bits(32))
				}
				setRep(as.Representations[i], ms[i])
			}
			check()
		}
		// Alone.
		m := ms[0]
		rep := mpd.NewRepresentation()
		setRep(rep, m)
		checkRep(r, rep, m, nil, nil)
		key := fmt.Sprint(up, ms)
		c.Key(key)
		c.NonTrivial(true)
		c.Label("%s, %d representations", how, len(ms))
		c.Sample(func() string { return key })
	})
}
