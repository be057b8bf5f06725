package props

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"

	"verif/harness/kit"
)

// ctor is a constructor call: what it must return, and a place in an MPD to write it at.
type ctor struct {
	name string
	call func() any
	want any
	put  func(m *mpd.MPD, x any)
	get  func(m *mpd.MPD) any
}

func scteName(local string) xml.Name {
	return xml.Name{Space: "http://www.scte.org/schemas/35", Local: local}
}

func firstPeriod(m *mpd.MPD) *mpd.Period {
	if len(m.Periods) == 0 {
		m.Periods = []*mpd.Period{{}}
	}
	return m.Periods[0]
}

func firstSet(m *mpd.MPD) *mpd.AdaptationSetType {
	p := firstPeriod(m)
	if len(p.AdaptationSets) == 0 {
		p.AdaptationSets = []*mpd.AdaptationSetType{{}}
	}
	return p.AdaptationSets[0]
}

func firstRep(m *mpd.MPD) *mpd.RepresentationType {
	a := firstSet(m)
	if len(a.Representations) == 0 {
		a.Representations = []*mpd.RepresentationType{{}}
	}
	return a.Representations[0]
}

func firstEvent(m *mpd.MPD) *mpd.EventType {
	p := firstPeriod(m)
	if len(p.EventStreams) == 0 {
		p.EventStreams = []*mpd.EventStreamType{{Events: []*mpd.EventType{{}}}}
	}
	return p.EventStreams[0].Events[0]
}

func firstSection(m *mpd.MPD) *mpd.SpliceInfoSectionType {
	e := firstEvent(m)
	if e.SpliceInfoSection == nil {
		e.SpliceInfoSection = &mpd.SpliceInfoSectionType{XMLName: scteName("SpliceInfoSection")}
	}
	return e.SpliceInfoSection
}

func drawCtor(r kit.R) ctor {
	s1, s2, s3, s4 := r.Str(), r.Str(), r.Str(), r.Str()
	u1 := uint32(r.Bits(32))
	i1, i2, i3 := int(r.Bits(32)), int(r.Bits(32)), int(r.Bits(32))
	b := r.B()
	u64 := r.Bits(64)
	desc := func(m *mpd.MPD, x any) {
		m.EssentialProperties = append(m.EssentialProperties, x.(*mpd.DescriptorType))
	}
	getDesc := func(m *mpd.MPD) any { return m.EssentialProperties[0] }
	rep := func(m *mpd.MPD, x any) {
		firstSet(m).Representations = []*mpd.RepresentationType{x.(*mpd.RepresentationType)}
	}
	getRep := func(m *mpd.MPD) any { return firstRep(m) }
	mkRep := func() *mpd.RepresentationType {
		return &mpd.RepresentationType{Id: s1, Bandwidth: uint32(i1), RepresentationBaseType: mpd.RepresentationBaseType{Codecs: s2, MimeType: s3}}
	}
	all := []func() ctor{
		func() ctor {
			return ctor{"NewMPD", func() any { return mpd.NewMPD(s1) }, &mpd.MPD{Type: &s1, XMLNs: "urn:mpeg:dash:schema:mpd:2011"},
				func(m *mpd.MPD, x any) { *m = *x.(*mpd.MPD) }, func(m *mpd.MPD) any { return m }}
		},
		func() ctor {
			return ctor{"NewPeriod", func() any { return mpd.NewPeriod() }, &mpd.Period{},
				func(m *mpd.MPD, x any) { m.Periods = []*mpd.Period{x.(*mpd.Period)} }, func(m *mpd.MPD) any { return m.Periods[0] }}
		},
		func() ctor {
			return ctor{"NewAdaptationSet", func() any { return mpd.NewAdaptationSet() }, &mpd.AdaptationSetType{},
				func(m *mpd.MPD, x any) {
					firstPeriod(m).AdaptationSets = []*mpd.AdaptationSetType{x.(*mpd.AdaptationSetType)}
				}, func(m *mpd.MPD) any { return firstSet(m) }}
		},
		func() ctor {
			return ctor{"NewAdaptationSetWithParams", func() any { return mpd.NewAdaptationSetWithParams(s1, s2, b, u1) },
				&mpd.AdaptationSetType{ContentType: mpd.RFC6838ContentTypeType(s1), SegmentAlignment: b, RepresentationBaseType: mpd.RepresentationBaseType{MimeType: s2, StartWithSAP: u1}},
				func(m *mpd.MPD, x any) {
					firstPeriod(m).AdaptationSets = []*mpd.AdaptationSetType{x.(*mpd.AdaptationSetType)}
				}, func(m *mpd.MPD) any { return firstSet(m) }}
		},
		func() ctor {
			return ctor{"NewRepresentation", func() any { return mpd.NewRepresentation() }, &mpd.RepresentationType{}, rep, getRep}
		},
		func() ctor {
			return ctor{"NewRepresentationWithID", func() any { return mpd.NewRepresentationWithID(s1, s2, s3, i1) }, mkRep(), rep, getRep}
		},
		func() ctor {
			w := mkRep()
			a := mpd.UIntVectorType(fmt.Sprint(i2))
			w.AudioSamplingRate = &a
			return ctor{"NewAudioRepresentation", func() any { return mpd.NewAudioRepresentation(s1, s2, s3, i1, i2) }, w, rep, getRep}
		},
		func() ctor {
			w := mkRep()
			w.FrameRate, w.Width, w.Height = mpd.FrameRateType(s4), uint32(i2), uint32(i3)
			return ctor{"NewVideoRepresentation", func() any { return mpd.NewVideoRepresentation(s1, s2, s3, s4, i1, i2, i3) }, w, rep, getRep}
		},
		func() ctor {
			return ctor{"NewSubRepresentation", func() any { return mpd.NewSubRepresentation() }, &mpd.SubRepresentationType{},
				func(m *mpd.MPD, x any) {
					firstRep(m).SubRepresentations = []*mpd.SubRepresentationType{x.(*mpd.SubRepresentationType)}
				},
				func(m *mpd.MPD) any { return firstRep(m).SubRepresentations[0] }}
		},
		func() ctor {
			return ctor{"NewSegmentTemplate", func() any { return mpd.NewSegmentTemplate() }, &mpd.SegmentTemplateType{},
				func(m *mpd.MPD, x any) { firstSet(m).SegmentTemplate = x.(*mpd.SegmentTemplateType) }, func(m *mpd.MPD) any { return firstSet(m).SegmentTemplate }}
		},
		func() ctor {
			return ctor{"NewSegmentList", func() any { return mpd.NewSegmentList() }, &mpd.SegmentListType{},
				func(m *mpd.MPD, x any) { firstSet(m).SegmentList = x.(*mpd.SegmentListType) }, func(m *mpd.MPD) any { return firstSet(m).SegmentList }}
		},
		func() ctor {
			return ctor{"NewSegmentTimeline", func() any { return mpd.NewSegmentTimeline() }, &mpd.SegmentTimelineType{},
				func(m *mpd.MPD, x any) {
					firstSet(m).SegmentTemplate = &mpd.SegmentTemplateType{}
					firstSet(m).SegmentTemplate.SegmentTimeline = x.(*mpd.SegmentTimelineType)
				}, func(m *mpd.MPD) any { return firstSet(m).SegmentTemplate.SegmentTimeline }}
		},
		func() ctor {
			return ctor{"NewInitializationSet", func() any { return mpd.NewInitializationSet() }, &mpd.InitializationSetType{},
				func(m *mpd.MPD, x any) {
					m.InitializationSet = []*mpd.InitializationSetType{x.(*mpd.InitializationSetType)}
				}, func(m *mpd.MPD) any { return m.InitializationSet[0] }}
		},
		func() ctor {
			return ctor{"NewPreselection", func() any { return mpd.NewPreselection() }, &mpd.PreselectionType{},
				func(m *mpd.MPD, x any) {
					firstPeriod(m).Preselections = []*mpd.PreselectionType{x.(*mpd.PreselectionType)}
				}, func(m *mpd.MPD) any { return firstPeriod(m).Preselections[0] }}
		},
		func() ctor {
			return ctor{"NewContentProtection", func() any { return mpd.NewContentProtection() }, &mpd.ContentProtectionType{},
				func(m *mpd.MPD, x any) {
					m.ContentProtection = []*mpd.ContentProtectionType{x.(*mpd.ContentProtectionType)}
				}, func(m *mpd.MPD) any { return m.ContentProtection[0] }}
		},
		func() ctor {
			return ctor{"NewProducerReferenceTime", func() any { return mpd.NewProducerReferenceTime() }, &mpd.ProducerReferenceTimeType{},
				func(m *mpd.MPD, x any) {
					firstSet(m).ProducerReferenceTimes = []*mpd.ProducerReferenceTimeType{x.(*mpd.ProducerReferenceTimeType)}
				},
				func(m *mpd.MPD) any { return firstSet(m).ProducerReferenceTimes[0] }}
		},
		func() ctor {
			return ctor{"NewUIntVWithID", func() any { return mpd.NewUIntVWithID() }, &mpd.UIntVWithIDType{},
				func(m *mpd.MPD, x any) { m.InitializationGroup = []*mpd.UIntVWithIDType{x.(*mpd.UIntVWithIDType)} }, func(m *mpd.MPD) any { return m.InitializationGroup[0] }}
		},
		func() ctor {
			return ctor{"NewBaseURL", func() any { return mpd.NewBaseURL(s1) }, &mpd.BaseURLType{Value: mpd.AnyURI(s1)},
				func(m *mpd.MPD, x any) { m.BaseURL = []*mpd.BaseURLType{x.(*mpd.BaseURLType)} }, func(m *mpd.MPD) any { return m.BaseURL[0] }}
		},
		func() ctor {
			return ctor{"NewDescriptor", func() any { return mpd.NewDescriptor(s1, s2, s3) }, &mpd.DescriptorType{SchemeIdUri: mpd.AnyURI(s1), Value: s2, Id: s3}, desc, getDesc}
		},
		func() ctor {
			return ctor{"NewRole", func() any { return mpd.NewRole(s1) }, &mpd.DescriptorType{SchemeIdUri: "urn:mpeg:dash:role:2011", Value: s1}, desc, getDesc}
		},
		func() ctor {
			return ctor{"NewSCTE214ContentIdentifier", func() any { return mpd.NewSCTE214ContentIdentifier(s1, s2) }, &mpd.SCTE214ContentIdentifierType{Type: s1, Value: s2},
				func(m *mpd.MPD, x any) {
					m.EssentialProperties = []*mpd.DescriptorType{{SCTE214ContentIdentifiers: []*mpd.SCTE214ContentIdentifierType{x.(*mpd.SCTE214ContentIdentifierType)}}}
				}, func(m *mpd.MPD) any { return m.EssentialProperties[0].SCTE214ContentIdentifiers[0] }}
		},
		func() ctor {
			return ctor{"NewSignal", func() any { return mpd.NewSignal() }, &mpd.SignalType{XMLName: scteName("Signal")},
				func(m *mpd.MPD, x any) { firstEvent(m).Signal = x.(*mpd.SignalType) }, func(m *mpd.MPD) any { return firstEvent(m).Signal }}
		},
		func() ctor {
			return ctor{"NewSpliceInfoSection", func() any { return mpd.NewSpliceInfoSection() }, &mpd.SpliceInfoSectionType{XMLName: scteName("SpliceInfoSection")},
				func(m *mpd.MPD, x any) { firstEvent(m).SpliceInfoSection = x.(*mpd.SpliceInfoSectionType) }, func(m *mpd.MPD) any { return firstEvent(m).SpliceInfoSection }}
		},
		func() ctor {
			return ctor{"NewBinary", func() any { return mpd.NewBinary(s1) }, &mpd.BinaryType{XMLName: scteName("Binary"), Value: s1},
				func(m *mpd.MPD, x any) {
					firstEvent(m).Signal = &mpd.SignalType{XMLName: scteName("Signal"), Binary: x.(*mpd.BinaryType)}
				}, func(m *mpd.MPD) any { return firstEvent(m).Signal.Binary }}
		},
		func() ctor {
			return ctor{"NewSpliceNull", func() any { return mpd.NewSpliceNull() }, &mpd.SpliceNullType{XMLName: scteName("SpliceNull")},
				func(m *mpd.MPD, x any) { firstSection(m).SpliceNull = x.(*mpd.SpliceNullType) }, func(m *mpd.MPD) any { return firstSection(m).SpliceNull }}
		},
		func() ctor {
			return ctor{"NewSpliceSchedule", func() any { return mpd.NewSpliceSchedule() }, &mpd.SpliceScheduleType{XMLName: scteName("SpliceSchedule")},
				func(m *mpd.MPD, x any) { firstSection(m).SpliceSchedule = x.(*mpd.SpliceScheduleType) }, func(m *mpd.MPD) any { return firstSection(m).SpliceSchedule }}
		},
		func() ctor {
			return ctor{"NewSpliceInsert", func() any { return mpd.NewSpliceInsert() }, &mpd.SpliceInsertType{XMLName: scteName("SpliceInsert")},
				func(m *mpd.MPD, x any) { firstSection(m).SpliceInsert = x.(*mpd.SpliceInsertType) }, func(m *mpd.MPD) any { return firstSection(m).SpliceInsert }}
		},
		func() ctor {
			return ctor{"NewTimeSignal", func() any { return mpd.NewTimeSignal() }, &mpd.TimeSignalType{XMLName: scteName("TimeSignal")},
				func(m *mpd.MPD, x any) { firstSection(m).TimeSignal = x.(*mpd.TimeSignalType) }, func(m *mpd.MPD) any { return firstSection(m).TimeSignal }}
		},
		func() ctor {
			return ctor{"NewBandwidthReservation", func() any { return mpd.NewBandwidthReservation() }, &mpd.BandwidthReservationType{XMLName: scteName("BandwidthReservation")},
				func(m *mpd.MPD, x any) { firstSection(m).BandwidthReservation = x.(*mpd.BandwidthReservationType) }, func(m *mpd.MPD) any { return firstSection(m).BandwidthReservation }}
		},
		func() ctor {
			return ctor{"NewPrivateCommand", func() any { return mpd.NewPrivateCommand(u1) }, &mpd.PrivateCommandType{XMLName: scteName("PrivateCommand"), Identifier: u1},
				func(m *mpd.MPD, x any) { firstSection(m).PrivateCommand = x.(*mpd.PrivateCommandType) }, func(m *mpd.MPD) any { return firstSection(m).PrivateCommand }}
		},
		func() ctor {
			return ctor{"NewSpliceTime", func() any { return mpd.NewSpliceTime() }, &mpd.SpliceTimeType{XMLName: scteName("SpliceTime")},
				func(m *mpd.MPD, x any) {
					firstSection(m).TimeSignal = &mpd.TimeSignalType{XMLName: scteName("TimeSignal"), SpliceTime: x.(*mpd.SpliceTimeType)}
				}, func(m *mpd.MPD) any { return firstSection(m).TimeSignal.SpliceTime }}
		},
		func() ctor {
			return ctor{"NewBreakDuration", func() any { return mpd.NewBreakDuration(b, u64) }, &mpd.BreakDurationType{XMLName: scteName("BreakDuration"), AutoReturn: b, Duration: u64},
				func(m *mpd.MPD, x any) {
					firstSection(m).SpliceInsert = &mpd.SpliceInsertType{XMLName: scteName("SpliceInsert"), BreakDuration: x.(*mpd.BreakDurationType)}
				}, func(m *mpd.MPD) any { return firstSection(m).SpliceInsert.BreakDuration }}
		},
		func() ctor {
			return ctor{"NewSegmentationDescriptor", func() any { return mpd.NewSegmentationDescriptor() }, &mpd.SegmentationDescriptorType{XMLName: scteName("SegmentationDescriptor")},
				func(m *mpd.MPD, x any) {
					firstSection(m).SegmentationDescriptors = []*mpd.SegmentationDescriptorType{x.(*mpd.SegmentationDescriptorType)}
				},
				func(m *mpd.MPD) any { return firstSection(m).SegmentationDescriptors[0] }}
		},
		func() ctor {
			return ctor{"NewSegmentationUpid", func() any { return mpd.NewSegmentationUpid(s1) }, &mpd.SegmentationUpidType{XMLName: scteName("SegmentationUpid"), Value: s1},
				func(m *mpd.MPD, x any) {
					firstSection(m).SegmentationDescriptors = []*mpd.SegmentationDescriptorType{{XMLName: scteName("SegmentationDescriptor"), SegmentationUpids: []*mpd.SegmentationUpidType{x.(*mpd.SegmentationUpidType)}}}
				}, func(m *mpd.MPD) any { return firstSection(m).SegmentationDescriptors[0].SegmentationUpids[0] }}
		},
	}
	return all[r.N(len(all))]()
}

// TestC23 calls the constructors.
func TestC23(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		k := drawCtor(r)
		x, y := k.call(), k.call()
		if d := kit.Dump(x); d != kit.Dump(k.want) {
			r.Fatalf("%s returns %s, want %s", k.name, d, kit.Dump(k.want))
		}
		if parentOf(x) != nil {
			r.Fatalf("%s returns an object with a parent", k.name)
		}
		seen := map[uintptr]bool{}
		walkRefs(reflect.ValueOf(x), "", func(a uintptr, _ reflect.Type, _ string) { seen[a] = true })
		walkRefs(reflect.ValueOf(y), "", func(a uintptr, _ reflect.Type, p string) {
			if seen[a] {
				r.Fatalf("two results of %s share %s", k.name, p)
			}
		})
		// Changing one result does not show in the next.
		var ss []spot
		spots(reflect.ValueOf(y), "", &ss)
		ss[r.N(len(ss))].set()
		if d := kit.Dump(k.call()); d != kit.Dump(k.want) {
			r.Fatalf("%s returns %s after a change of an earlier result, want %s", k.name, d, kit.Dump(k.want))
		}
		if d := kit.Dump(x); d != kit.Dump(k.want) {
			r.Fatalf("%s: a result changed with another one to %s", k.name, d)
		}
		m := mpd.NewMPD("static")
		k.put(m, x)
		out := mustWrite(r, m, "", false)
		back := k.get(mustRead(r, out))
		if d := kit.Diff(k.want, back, kit.EqOpts{}); d != "" {
			r.Fatalf("%s read back differs at %s\n%s", k.name, d, out)
		}
		c.Key(k.name, out)
		c.NonTrivial(true)
		c.Label("%s", k.name)
		c.Sample(func() string { return k.name + ": " + out })
	})
}

// TestC23_helpers checks setters, lists and duration pointers.
func TestC23_helpers(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		// Profiles.
		var l mpd.ListOfProfilesType
		var model []string
		if r.B() {
			model = []string{"urn:mpeg:dash:profile:isoff-live:2011", "urn:x"}[:r.In(1, 2)]
			l = mpd.ListOfProfilesType(strings.Join(model, ","))
		}
		for range r.Pick2(r.N(8), r.N(25)) {
			p := r.Pick("urn:"+string(rune('a'+r.N(20))), "urn:mpeg:dash:profile:isoff-live:2011", "urn:mpeg:dash:profile:isoff-live:201", "urn:x", "urn:x:y", "rn:x", "urn", "URN:X", "a b", "a", "é", "urn:x ", "y")
			old := l
			nl := l.AddProfile(p)
			if l != old {
				r.Fatalf("AddProfile changed its receiver")
			}
			l = nl
			found := false
			for _, q := range model {
				found = found || q == p
			}
			if !found {
				model = append(model, p)
			}
			if want := strings.Join(model, ","); string(l) != want {
				r.Fatalf("AddProfile(%q) to %q gives %q, want %q", p, old, l, want)
			}
		}
		// Segment base.
		init := uint32(r.Bits(31))
		sidx := uint32(r.Bits(31))
		init, sidx = max(init, 1), max(sidx, 1)
		rep := mpd.NewRepresentationWithID("i", "c", "m", 7)
		exact := r.B()
		if r.B() { // set twice: the last one counts
			rep.SetSegmentBase(5, 6, !exact)
		}
		rep.SetSegmentBase(init, sidx, exact)
		wantRep := &mpd.RepresentationType{Id: "i", Bandwidth: 7, RepresentationBaseType: mpd.RepresentationBaseType{Codecs: "c", MimeType: "m"},
			SegmentBase: &mpd.SegmentBaseType{IndexRange: fmt.Sprintf("%d-%d", init, uint64(init)+uint64(sidx)-1), IndexRangeExact: exact,
				Initialization: &mpd.URLType{Range: fmt.Sprintf("0-%d", init-1)}}}
		if d := kit.Dump(rep); d != kit.Dump(wantRep) {
			r.Fatalf("SetSegmentBase(%d, %d, %v) gives %s, want %s", init, sidx, exact, d, kit.Dump(wantRep))
		}
		// What else a representation holds stays.
		if r.P(30) {
			rep := mpd.NewRepresentation()
			kit.Dress(r, rep, "SegmentBase")
			before := kit.Dump(rep)
			rep.SetSegmentBase(init, sidx, exact)
			if d := kit.Dump(rep.SegmentBase); d != kit.Dump(wantRep.SegmentBase) {
				r.Fatalf("SetSegmentBase(%d, %d, %v) gives %s, want %s", init, sidx, exact, d, kit.Dump(wantRep.SegmentBase))
			}
			rep.SegmentBase = nil
			if kit.Dump(rep) != before {
				r.Fatalf("SetSegmentBase changed something else")
			}
			x := mpd.NewSegmentTemplate()
			kit.Dress(r, x, "Timescale")
			before = kit.Dump(x)
			x.SetTimescale(init)
			if x.GetTimescale() != init {
				r.Fatalf("time scale %d is %d", init, x.GetTimescale())
			}
			x.Timescale = nil
			if kit.Dump(x) != before || x.GetTimescale() != 1 {
				r.Fatalf("SetTimescale changed something else")
			}
		}
		// Time scale.
		var sb mpd.SegmentBaseType
		if sb.GetTimescale() != 1 {
			r.Fatalf("default time scale is %d", sb.GetTimescale())
		}
		var st mpd.SegmentTemplateType
		for range r.In(1, 3) {
			ts := uint32(r.Bits(32))
			if r.N(3) == 0 {
				ts = 1
			}
			sb.SetTimescale(ts)
			st.SetTimescale(ts)
			if sb.GetTimescale() != ts || st.GetTimescale() != ts {
				r.Fatalf("time scale %d is %d, %d", ts, sb.GetTimescale(), st.GetTimescale())
			}
		}
		// Duration pointers.
		s := int(r.SInt(33))
		p, q := mpd.Seconds2DurPtr(s), mpd.Seconds2DurPtr(s)
		if p == q || int64(*p) != int64(s)*1e9 {
			r.Fatalf("Seconds2DurPtr(%d) is %d", s, *p)
		}
		f := float64(s)
		switch r.N(4) {
		case 0:
			f += float64(r.N(1000)) / 1000
		case 1:
			f += float64(r.N(1<<30)) / (1 << 30)
		case 2:
			f = float64(r.N(2000000)) / 1e6
		}
		g := mpd.Seconds2DurPtrFloat64(f)
		// Rounded to microseconds.
		if int64(*g)%1000 != 0 || math.Abs(float64(*g)-f*1e9) > 501+math.Abs(f)*1e9*1e-15 {
			r.Fatalf("Seconds2DurPtrFloat64(%v) is %d ns", f, *g)
		}
		if a := g.Seconds(); math.Abs(a-f) > 1e-6+math.Abs(f)*1e-15 {
			r.Fatalf("Seconds of %d ns is %v", *g, a)
		}
		v := r.U64()
		if pv := mpd.Ptr(v); *pv != v || pv == mpd.Ptr(v) {
			r.Fatalf("Ptr is wrong")
		}
		// MPD type.
		m := &mpd.MPD{}
		if m.GetType() != "static" {
			r.Fatalf("default type is %q", m.GetType())
		}
		for _, ty := range []string{"static", "dynamic"} {
			if g := mpd.NewMPD(ty).GetType(); g != ty {
				r.Fatalf("type %q is %q", ty, g)
			}
		}
		c.Key(string(l), fmt.Sprint(init, sidx, exact, s, f))
		c.NonTrivial(true)
		c.Label("helpers")
		c.Sample(func() string { return fmt.Sprintf("%q %d %d %v %d %v", l, init, sidx, exact, s, f) })
	})
}
