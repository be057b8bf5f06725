package props

import (
	"fmt"
	"math"
	"strings"
	"testing"
	"time"

	"github.com/Eyevinn/dash-mpd/mpd"

	"verif/harness/kit"
)

// tl is the reference model of a timeline.
type tl struct {
	dynamic, mup bool
	mpdDur       *int64
	ast          string
	p            []tlp
}

type tlp struct{ start, dur *int64 }

func (m *tl) start(i int) (int64, bool) {
	switch {
	case m.p[i].start != nil:
		return *m.p[i].start, true
	case i > 0:
		if m.p[i-1].dur == nil {
			return 0, false
		}
		s, ok := m.start(i - 1)
		if d := *m.p[i-1].dur; s > math.MaxInt64-d {
			return 0, false // fits in no Duration
		}
		return s + *m.p[i-1].dur, ok
	}
	return 0, !m.dynamic
}

// duration gives the duration of a period; loose if the given end lies before the start.
func (m *tl) duration(i int) (v int64, ok, loose bool) {
	if d := m.p[i].dur; d != nil {
		return *d, true, false
	}
	var end *int64
	if i+1 < len(m.p) {
		end = m.p[i+1].start
	} else if !m.dynamic {
		end = m.mpdDur
	}
	s, known := m.start(i)
	if end == nil || !known {
		return 0, false, false
	}
	return *end - s, true, *end < s
}

// kind gives the types a period may be reported as; nil if the rules do not decide.
func (m *tl) kind(i int) []mpd.PeriodType {
	p := m.p[i]
	prevDur := i > 0 && m.p[i-1].dur != nil
	term := p.dur != nil && (m.mup || i+1 < len(m.p) && m.p[i+1].start != nil)
	switch {
	case p.start != nil && term, p.start == nil && prevDur && term:
		return []mpd.PeriodType{mpd.PTEarlyTerminated}
	case p.start != nil:
		return []mpd.PeriodType{mpd.PTRegular}
	case prevDur:
		return []mpd.PeriodType{mpd.PTRegularOrEarlyTerminated}
	case m.dynamic:
		return []mpd.PeriodType{mpd.PTEarlyAvailable}
	case i == 0:
		return []mpd.PeriodType{mpd.PTRegular}
	}
	return nil
}

func (m *tl) String() string {
	var sb strings.Builder
	o := func(p *int64) string {
		if p == nil {
			return "-"
		}
		return time.Duration(*p).String()
	}
	fmt.Fprintf(&sb, "dynamic=%v mup=%v mpdDur=%s ast=%q:", m.dynamic, m.mup, o(m.mpdDur), m.ast)
	for _, p := range m.p {
		fmt.Fprintf(&sb, " [start %s dur %s]", o(p.start), o(p.dur))
	}
	return sb.String()
}

func drawNs(r kit.R) *int64 {
	var v int64
	switch r.N(5) {
	case 0:
		v = int64(r.N(5)) * 1e9
	case 1:
		v = int64(r.N(1000)) * 1e6
	case 2:
		v = int64(r.N(100)) * 36e11
	case 3:
		v = int64(r.Bits(52))
	case 4:
		v = int64(r.N(300)) * 1e9
		if r.N(20) == 19 { // for ever
			v = math.MaxInt64/1e6*1e6 - int64(r.Bits(r.In(0, 62)))/1e6*1e6
		}
	}
	return &v
}

func drawOpt(r kit.R, pct int) *int64 {
	if r.P(pct) {
		return drawNs(r)
	}
	return nil
}

func drawTimeline(r kit.R) *tl {
	m := &tl{dynamic: r.B(), mup: r.B(), mpdDur: drawOpt(r, 50)}
	if r.B() {
		m.ast = r.Pick("1970-01-01T00:00:00Z", "2024-02-29T12:00:00.5Z", "2030-01-01T00:00:00+02:00")
	}
	n := r.In(1, 5)
	if r.N(10) == 9 {
		n = r.In(6, 40)
		if r.N(20) == 19 {
			n = r.Pick2(r.In(125, 135), r.In(253, 270), r.In(500, 1100))
		}
	}
	ps, pd := r.N(5)*25, r.N(5)*25
	t := int64(0)
	for range n {
		p := tlp{drawOpt(r, ps), drawOpt(r, pd)}
		if p.start != nil && r.P(70) { // mostly increasing
			if d := *drawNs(r); d < math.MaxInt64-t {
				t += d
			}
			v := t
			p.start = &v
		}
		m.p = append(m.p, p)
	}
	return m
}

func durPtr(v *int64) *mpd.Duration {
	if v == nil {
		return nil
	}
	d := mpd.Duration(*v)
	return &d
}

func (m *tl) build(r kit.R) *mpd.MPD {
	x := mpd.NewMPD(mpd.STATIC_TYPE)
	dressed := len(m.p) <= 8 && r.P(35)
	if dressed {
		kit.Dress(r, x, "XMLNs", "Type", "AvailabilityStartTime", "MediaPresentationDuration", "MinimumUpdatePeriod", "Periods")
	}
	m.setHead(r, x)
	for _, p := range m.p {
		q := mpd.NewPeriod()
		if dressed && r.B() {
			kit.Dress(r, q, "Start", "Duration")
		}
		drawID(r, q)
		q.Start, q.Duration = durPtr(p.start), durPtr(p.dur)
		x.AppendPeriod(q)
	}
	x.SetParents()
	return x
}

// drawID gives a period an identifier, which other periods may have too.
func drawID(r kit.R, p *mpd.Period) {
	if r.P(40) {
		p.Id = r.Pick("1", "p", "P0")
	}
}

func (m *tl) setHead(r kit.R, x *mpd.MPD) {
	switch {
	case m.dynamic:
		x.Type = mpd.Ptr(mpd.DYNAMIC_TYPE)
	case r.B():
		x.Type = mpd.Ptr(mpd.STATIC_TYPE)
	default:
		x.Type = nil
	}
	x.MediaPresentationDuration = durPtr(m.mpdDur)
	x.MinimumUpdatePeriod = nil
	if m.mup {
		x.MinimumUpdatePeriod = mpd.Seconds2DurPtr(r.N(3))
	}
	x.AvailabilityStartTime = mpd.DateTime(m.ast)
}

// change edits model and object in the same way.
func (m *tl) change(r kit.R, x *mpd.MPD) string {
	i := r.N(len(m.p))
	switch r.N(8) {
	case 0:
		m.p[i].start = drawOpt(r, 60)
		x.Periods[i].Start = durPtr(m.p[i].start)
		return "set start"
	case 1:
		m.p[i].dur = drawOpt(r, 60)
		x.Periods[i].Duration = durPtr(m.p[i].dur)
		return "set duration"
	case 2:
		p := tlp{drawOpt(r, 50), drawOpt(r, 50)}
		m.p = append(m.p, p)
		q := &mpd.Period{Start: durPtr(p.start), Duration: durPtr(p.dur)}
		drawID(r, q)
		x.AppendPeriod(q)
		return "append"
	case 3:
		if len(m.p) > 1 {
			m.p = append(m.p[:i:i], m.p[i+1:]...)
			x.Periods = append(x.Periods[:i:i], x.Periods[i+1:]...)
		}
		return "remove"
	case 4:
		j := r.N(len(m.p))
		m.p[i], m.p[j] = m.p[j], m.p[i]
		x.Periods[i], x.Periods[j] = x.Periods[j], x.Periods[i]
		return "swap"
	case 5:
		p := tlp{drawOpt(r, 50), drawOpt(r, 50)}
		m.p = append(m.p[:i:i], append([]tlp{p}, m.p[i:]...)...)
		q := &mpd.Period{Start: durPtr(p.start), Duration: durPtr(p.dur)}
		drawID(r, q)
		x.Periods = append(x.Periods[:i:i], append([]*mpd.Period{q}, x.Periods[i:]...)...)
		x.SetParents()
		return "insert"
	case 6:
		m.dynamic = !m.dynamic
		m.setHead(r, x)
		return "switch type"
	}
	m.mpdDur, m.mup = drawOpt(r, 60), r.B()
	m.setHead(r, x)
	return "set head"
}

// looked tells whether a period of a long list is looked at.
func looked(i, n int) bool {
	return n <= 60 || i < 3 || i >= n-2 || i%97 == 0 || i&(i-1) == 0 || (i+1)&i == 0
}

func checkTimes(r failer, m *tl, x *mpd.MPD) {
	ast := 0.0
	astOK := m.ast != ""
	if astOK {
		ast, _ = x.AvailabilityStartTime.ConvertToSeconds()
	}
	for i, p := range x.Periods {
		if !looked(i, len(m.p)) {
			continue
		}
		want, ok := m.start(i)
		got, err := p.GetStart()
		if ok != (err == nil) || ok && int64(got) != want {
			r.Fatalf("GetStart of period %d is %v (%v), want %v %v\n%v", i, time.Duration(got), err, time.Duration(want), ok, m)
		}
		abs, aerr := p.AbsoluteStart(x)
		if (aerr == nil) != (ok && astOK) {
			r.Fatalf("AbsoluteStart of period %d is %v (%v), start known: %v\n%v", i, abs, aerr, ok, m)
		}
		if w := ast + float64(want)/1e9; aerr == nil && math.Abs(abs-w) > 1e-5 {
			r.Fatalf("AbsoluteStart of period %d is %v, want %v\n%v", i, abs, w, m)
		}
		dw, dok, loose := m.duration(i)
		dg, derr := p.GetDuration()
		if loose {
			dok = derr == nil
		}
		if dok != (derr == nil) || dok && int64(dg) != dw {
			r.Fatalf("GetDuration of period %d is %v (%v), want %v %v\n%v", i, time.Duration(dg), derr, time.Duration(dw), dok, m)
		}
	}
}

func checkTypes(r failer, m *tl, x *mpd.MPD) {
	for i, p := range x.Periods {
		if g, err := p.GetIndex(); err != nil || g != i {
			r.Fatalf("GetIndex of period %d is %d (%v)", i, g, err)
		}
		k := m.kind(i)
		g, err := p.GetType()
		if err != nil {
			r.Fatalf("GetType of period %d failed: %v\n%v", i, err, m)
		}
		if k != nil && k[0] != g {
			r.Fatalf("GetType of period %d is %d (%v), want %d (%v)\n%v", i, g, g, k[0], k[0], m)
		}
		// The name of a type says the same.
		name := strings.ToLower(g.String())
		if early := g == mpd.PTEarlyAvailable || g == mpd.PTEarlyTerminated; strings.Contains(name, "available") != (g == mpd.PTEarlyAvailable) ||
			early && !strings.Contains(name, "early") || g == mpd.PTEarlyTerminated && !strings.Contains(name, "terminated") || g == mpd.PTRegular && name != "regular" {
			r.Fatalf("the name of type %d is %q", g, name)
		}
	}
}

func timelineCase(r kit.R, c *kit.Case, check func(failer, *tl, *mpd.MPD)) {
	m := drawTimeline(r)
	x := m.build(r)
	switch r.N(4) {
	case 2:
		x = mpd.Clone(x)
	case 3: // written durations are exact only in milliseconds
		for i := range m.p {
			for _, d := range []*int64{m.p[i].start, m.p[i].dur} {
				if d != nil {
					*d = *d / 1e6 * 1e6
				}
			}
		}
		if m.mpdDur != nil {
			*m.mpdDur = *m.mpdDur / 1e6 * 1e6
		}
		x = mustRead(r, mustWrite(r, m.build(r), "", false))
	}
	before := kit.Dump(x)
	check(r, m, x)
	check(r, m, x)
	if kit.Dump(x) != before {
		r.Fatalf("a query changed the MPD\n%v", m)
	}
	c.Key(m.String())
	c.NonTrivial(len(m.p) > 1)
	for range r.N(6) {
		what := m.change(r, x)
		check(r, m, x)
		c.Label("after %s", what)
	}
	c.Label("periods:%d dynamic:%v", min(len(m.p), 6), m.dynamic)
	if len(m.p) > 100 {
		c.Label("more than 100 periods")
	}
	c.Sample(m.String)
	// A period without a parent, or not in its parent, has no place on a timeline.
	p := &mpd.Period{}
	drawID(r, p)
	if r.B() {
		p.Duration = durPtr(drawOpt(r, 50))
		p.SetParent(x)
	}
	if i, err := p.GetIndex(); err == nil {
		r.Fatalf("a period that is not in its MPD has index %d", i)
	}
	if v, err := p.GetStart(); err == nil {
		r.Fatalf("a period that is not in its MPD starts at %v", v)
	}
	if v, err := p.GetDuration(); err == nil && p.Duration == nil {
		r.Fatalf("a period that is not in its MPD has duration %v", v)
	}
	if v, err := p.GetType(); err == nil {
		r.Fatalf("a period that is not in its MPD has type %v", v)
	}
}

// TestC10 compares start, duration and absolute start with the model, also after edits.
func TestC10(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) { timelineCase(r, c, checkTimes) })
}

// TestC10_patterns enumerates every presence pattern of start and duration for up to four periods.
func TestC10_patterns(t *testing.T) { patterns(t, checkTimes) }

// TestC11 compares index and type with the model, also after edits.
func TestC11(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) { timelineCase(r, c, checkTypes) })
}

// TestC11_patterns enumerates every presence pattern of start and duration for up to four periods.
func TestC11_patterns(t *testing.T) { patterns(t, checkTypes) }

func patterns(t *testing.T, check func(failer, *tl, *mpd.MPD)) {
	total := (4 + 16 + 64 + 256) * 16
	kit.Enum(t, total, func(t *testing.T, i int, c *kit.Case) {
		h, k := i%16, i/16
		n := 1
		for size := 4; k >= size; size *= 4 {
			k -= size
			n++
		}
		m := &tl{dynamic: h&1 != 0, mup: h&2 != 0}
		if h&4 != 0 {
			v := int64(1000e9)
			m.mpdDur = &v
		}
		if h&8 != 0 {
			m.ast = "1970-01-01T00:01:40Z"
		}
		for j := range n {
			var p tlp
			if k>>(2*j)&1 != 0 {
				v := int64(100e9)*int64(j) + 7e9
				p.start = &v
			}
			if k>>(2*j)&2 != 0 {
				v := int64(10e9) + int64(j)*1e9
				p.dur = &v
			}
			m.p = append(m.p, p)
		}
		x := mpd.NewMPD(map[bool]string{true: "dynamic", false: "static"}[m.dynamic])
		x.MediaPresentationDuration = durPtr(m.mpdDur)
		x.AvailabilityStartTime = mpd.DateTime(m.ast)
		if m.mup {
			x.MinimumUpdatePeriod = mpd.Seconds2DurPtr(2)
		}
		for _, p := range m.p {
			x.AppendPeriod(&mpd.Period{Start: durPtr(p.start), Duration: durPtr(p.dur)})
		}
		check(t, m, x)
		c.Key("pattern", fmt.Sprint(i))
		c.NonTrivial(n > 1)
		c.Label("enumerated pattern of %d", n)
	})
}
