package props

import (
	"fmt"
	"io"
	"runtime"
	"strings"
	"syscall"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"
	fork "github.com/Eyevinn/dash-mpd/xml"

	"verif/harness/kit"
	"verif/harness/xt"
)

type recPtr struct {
	V int     `xml:"v,attr"`
	T string  `xml:",chardata"`
	K *recPtr `xml:"k"`
}
type recSlice struct {
	V int        `xml:"v,attr"`
	K []recSlice `xml:"k"`
}
type recPath struct {
	V int        `xml:"v,attr"`
	K []*recPath `xml:"w>x>k"`
}
type recAny struct {
	V int       `xml:"v,attr"`
	K []*recAny `xml:",any"`
}
type recMixed struct {
	V int       `xml:"v,attr"`
	A *recMixed `xml:"a"`
	B []recPtr  `xml:"w>k"`
	K *recMixed `xml:"k"`
}

type recDecode struct {
	V int          `xml:"v,attr"`
	K []*recDecode `xml:"k"`
}

func (n *recDecode) UnmarshalXML(d *fork.Decoder, start fork.StartElement) error {
	type alias recDecode
	return d.DecodeElement((*alias)(n), &start)
}

type recManual struct {
	V int
	K *recManual
}

func (n *recManual) UnmarshalXML(d *fork.Decoder, start fork.StartElement) error {
	for _, a := range start.Attr {
		fmt.Sscan(a.Value, &n.V)
	}
	for {
		tok, err := d.Token()
		if err != nil {
			return err
		}
		switch t := tok.(type) {
		case fork.StartElement:
			if t.Name.Local != "k" {
				if err := d.Skip(); err != nil {
					return err
				}
				continue
			}
			n.K = &recManual{}
			if err := d.DecodeElement(n.K, &t); err != nil {
				return err
			}
		case fork.EndElement:
			return nil
		}
	}
}

type recBoth struct {
	V int      `xml:"v,attr"`
	K *recBoth `xml:"k"`
	H *recHop  `xml:"h"`
}
type recHop struct{ Body recBoth }

func (n *recHop) UnmarshalXML(d *fork.Decoder, start fork.StartElement) error {
	return d.DecodeElement(&n.Body, &start)
}

// levels counts the nested objects and gives the number in the last one.
func levels(x any) (n, last int) {
	for x != nil {
		n++
		switch p := x.(type) {
		case *recPtr:
			last, x = p.V, nil
			if p.K != nil {
				x = p.K
			}
		case *recSlice:
			last, x = p.V, nil
			if len(p.K) > 0 {
				x = &p.K[0]
			}
		case *recPath:
			last, x = p.V, nil
			if len(p.K) > 0 {
				x = p.K[0]
			}
		case *recAny:
			last, x = p.V, nil
			if len(p.K) > 0 {
				x = p.K[0]
			}
		case *recMixed:
			last, x = p.V, nil
			if p.K != nil {
				x = p.K
			}
		case *recDecode:
			last, x = p.V, nil
			if len(p.K) > 0 {
				x = p.K[0]
			}
		case *recManual:
			last, x = p.V, nil
			if p.K != nil {
				x = p.K
			}
		case *recBoth:
			last, x = p.V, nil
			if p.K != nil {
				x = p.K
			} else if p.H != nil {
				x = &p.H.Body
			}
		}
	}
	return
}

// TestC26_depth reads recursive types nested around the limit.
func TestC26_depth(t *testing.T) {
	const limit = 10000 // the documented one
	kit.Check(t, 0.5, func(r kit.R, c *kit.Case) {
		depth := limit + r.In(-3, 3)
		if r.N(3) == 2 {
			depth = r.Pick2(r.In(1, 300), r.In(1, limit-1), limit*r.In(2, 20))
		}
		v := []any{&recPtr{}, &recSlice{}, &recPath{}, &recAny{}, &recMixed{}, &recDecode{}, &recManual{}, &recBoth{}}[r.N(8)]
		open, shut, per := "<k v='%d'>", "</k>", 1
		_, isAny := v.(*recAny)
		if _, ok := v.(*recPath); ok {
			open, shut, per = "<w><x>"+open, shut+"</x></w>", 3
			depth = (depth + 2) / 3
		}
		hop := 0
		if _, ok := v.(*recBoth); ok {
			hop = r.In(1, 6000)
		}
		// Shallow and unknown content around does not count.
		noise := r.Pick("", "", "text", "<z><z><z/></z></z>", "<!-- c -->")
		var sb strings.Builder
		sb.WriteString("<r>")
		var shuts []string
		for i := 1; i < depth; i++ {
			if hop > 0 && i%hop == 0 {
				fmt.Fprintf(&sb, "<h v='%d'>", i)
				shuts = append(shuts, "</h>")
			} else {
				fmt.Fprintf(&sb, open, i)
				shuts = append(shuts, shut)
			}
			if i%100 == 0 && !isAny {
				sb.WriteString(noise)
			}
		}
		unknown := 0
		if !isAny && r.B() {
			unknown = r.In(1, 30000)
			sb.WriteString(strings.Repeat("<u>", unknown) + strings.Repeat("</u>", unknown))
		}
		for i := range shuts {
			sb.WriteString(shuts[len(shuts)-1-i])
		}
		sb.WriteString("</r>")
		what := fmt.Sprintf("%T, %d objects nested (hop %d), %d unknown elements below", v, depth, hop, unknown)
		c.Input(what)
		elems := 1 + per*(depth-1)
		err := fork.Unmarshal([]byte(sb.String()), v)
		c.Key("depth", what)
		c.NonTrivial(depth > 1)
		c.Label("accepted:%v", err == nil)
		c.Sample(func() string { return what })
		if (err == nil) != (elems <= limit) {
			r.Fatalf("%s, so elements nested %d deep: error %v", what, elems, err)
		}
		if err == nil {
			if n, last := levels(v); n != depth || last != depth-1 {
				r.Fatalf("%s: %d levels read, the last has %d", what, n, last)
			}
			if isAny || strings.Contains(what, "recManual") {
				return
			}
			b, err := fork.Marshal(v)
			if n := strings.Count(string(b), ` v="`); err != nil || n != depth {
				r.Fatalf("%s: is written as %d levels, %v", what, n, err)
			}
		}
	})
}

// TestC26_unknown nests unknown content and that of Ext deeply.
func TestC26_unknown(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		ext := r.N(3) == 2
		depth := r.Pick2(r.In(9990, 10010), r.In(1, 3000), r.In(20000, 200000))
		names := r.Pick("u", "Period", "MPD", "a:b", "Ext")
		attr := r.Pick("", "", " k='v'", " xmlns:q='urn:q'", " xmlns='urn:n'")
		if len(attr) > 8 && depth > 3000 {
			depth /= 10
		}
		inner := strings.Repeat("<"+names+attr+">", depth) + "deep" + strings.Repeat("</"+names+">", depth)
		if names == "a:b" {
			inner = "<a:w xmlns:a='urn:a'>" + inner + "</a:w>"
		} else {
			inner = "<w xmlns='urn:a'>" + inner + "</w>"
		}
		d := drawDoc(r, "all", nil, kit.DocOpts{Plain: true})
		src := plain(d)
		var with, what string
		if ext {
			what = "Ext"
			src = `<MPD xmlns="urn:mpeg:dash:schema:mpd:2011"><Period id="p"><EventStream schemeIdUri="s"><Event id="7"><SpliceInfoSection xmlns="http://www.scte.org/schemas/35" tier="1"><Ext></Ext></SpliceInfoSection></Event></EventStream></Period></MPD>`
			with = strings.Replace(src, "</Ext>", inner+"</Ext>", 1)
		} else {
			what = "unknown"
			var ends []int
			root := mustParse(r, src)
			types := kit.TypeOf(root)
			root.Walk(func(n *xt.Node) {
				if tt := types[n]; tt != nil && !tt.Inner && !n.SelfEnd && (len(n.Elems()) > 0 || n.Local == "MPD") {
					ends = append(ends, n.InnerE, n.InnerS)
				}
			})
			at := len("<MPD>")
			if len(ends) == 0 {
				src = `<MPD xmlns="urn:mpeg:dash:schema:mpd:2011"></MPD>`
				at = strings.Index(src, ">") + 1
			} else {
				at = ends[r.N(len(ends))]
			}
			with = src[:at] + inner + src[at:]
		}
		c.Input(fmt.Sprintf("%d nested %s in %s", depth, names, src))
		m1 := mustRead(r, src)
		m2, err := mpd.ReadFromString(with)
		if err != nil {
			r.Fatalf("%d nested elements <%s%s> in %s content: %v\n%s", depth, names, attr, what, err, src)
		}
		if ext {
			e := m2.Periods[0].EventStreams[0].Events[0].SpliceInfo().Ext
			if e == nil || e.InnerXML != inner {
				r.Fatalf("content of Ext, %d deep, is not kept", depth)
			}
			out := mustWrite(r, m2, "", false)
			if strings.Count(out, inner) != 1 {
				r.Fatalf("content of Ext, %d deep, is not written", depth)
			}
		} else if diff := kit.Diff(m1, m2, kit.EqOpts{Names: true, TrimMix: true}); diff != "" {
			r.Fatalf("%d nested elements <%s%s> change what is read at %s\n%s", depth, names, attr, diff, src)
		}
		c.Key(what, fmt.Sprint(depth, names, attr), src)
		c.NonTrivial(depth > 1)
		c.Label("nested:%s", what)
		c.Sample(func() string {
			return fmt.Sprintf("%d nested <%s%s> as %s content in %s", depth, names, attr, what, src)
		})
	})
}

// big26 gives a document that is large in one dimension, and a check of what is read.
func big26(r kit.R, kind, n int, unit string) (string, func(m *mpd.MPD) string) {
	head := `<MPD xmlns="urn:mpeg:dash:schema:mpd:2011"`
	per := `><Period id="last"/></MPD>`
	var sb strings.Builder
	last := func(m *mpd.MPD) string {
		if len(m.Periods) == 0 || m.Periods[len(m.Periods)-1].Id != "last" {
			return "the last period is missing"
		}
		return ""
	}
	switch kind {
	case 0: // segments
		sb.WriteString(head + `><Period><AdaptationSet><SegmentTemplate><SegmentTimeline>`)
		for i := range n {
			fmt.Fprintf(&sb, `<S t="%d" d="%d"/>`, i, i%7+1)
		}
		sb.WriteString(`</SegmentTimeline></SegmentTemplate></AdaptationSet></Period></MPD>`)
		return sb.String(), func(m *mpd.MPD) string {
			ss := m.Periods[0].AdaptationSets[0].SegmentTemplate.SegmentTimeline.S
			if len(ss) != n {
				return fmt.Sprintf("%d S elements of %d", len(ss), n)
			}
			for i, s := range ss {
				if s.T == nil || *s.T != uint64(i) || s.D != uint64(i%7+1) {
					return fmt.Sprintf("S element %d is wrong", i)
				}
			}
			return ""
		}
	case 1: // periods
		sb.WriteString(head + ">")
		for i := range n {
			fmt.Fprintf(&sb, `<Period id="%d"><AdaptationSet id="%d"/></Period>`, i, i)
		}
		sb.WriteString("</MPD>")
		return sb.String(), func(m *mpd.MPD) string {
			if len(m.Periods) != n {
				return fmt.Sprintf("%d periods of %d", len(m.Periods), n)
			}
			for i, p := range m.Periods {
				if p.Id != fmt.Sprint(i) || len(p.AdaptationSets) != 1 || *p.AdaptationSets[0].Id != uint32(i) || p.AdaptationSets[0].Parent() != p {
					return fmt.Sprintf("period %d is wrong", i)
				}
			}
			return ""
		}
	case 2: // attributes
		sb.WriteString(head)
		for i := range n {
			fmt.Fprintf(&sb, ` at%d="%d"`, i, i)
		}
		return sb.String() + ` id="x"` + per, func(m *mpd.MPD) string {
			if m.Id != "x" {
				return "the id is missing"
			}
			return last(m)
		}
	case 3: // names
		sb.WriteString(head + ">")
		for i := range n {
			fmt.Fprintf(&sb, `<n%d a%d="1"/>`, i, i)
		}
		return sb.String() + per[1:], last
	case 4: // namespaces
		sb.WriteString(head)
		for i := range n {
			fmt.Fprintf(&sb, ` xmlns:p%d="urn:n:%d"`, i, i)
		}
		return sb.String() + per, last
	case 5: // a long text
		s := strings.Repeat(unit, n)
		return head + "><Location>" + kit.EscapeXML(s) + "</Location" + per, func(m *mpd.MPD) string {
			if len(m.Location) != 1 || string(m.Location[0].Value) != s {
				return "the text is wrong"
			}
			return last(m)
		}
	case 6: // a long attribute value
		s := strings.Repeat(unit, n)
		return head + ` id="` + kit.EscapeXML(s) + `"` + per, func(m *mpd.MPD) string {
			if m.Id != s {
				return "the attribute value is wrong"
			}
			return last(m)
		}
	case 7: // long things that are skipped
		s := strings.Repeat("-x", n) + strings.Repeat("] ]", n)
		return "<!--x" + strings.ReplaceAll(s, "--", "- -") + "x--><?p " + s + "?><!DOCTYPE MPD [" + strings.Repeat("<!ENTITY e 'v'>", n) + "]>" +
			head + "><u><![CDATA[" + s + "]]></u" + per, last
	case 8: // descriptors with much white space
		sb.WriteString(head + ">")
		for range n {
			sb.WriteString("\n        \t    <BaseURL>\n  x </BaseURL>")
		}
		return sb.String() + per[1:], func(m *mpd.MPD) string {
			if len(m.BaseURL) != n {
				return fmt.Sprintf("%d base URLs of %d", len(m.BaseURL), n)
			}
			return last(m)
		}
	}
	// events with text
	sb.WriteString(head + `><Period id="last"><EventStream schemeIdUri="s">`)
	for i := range n {
		fmt.Fprintf(&sb, `<Event id="%d">%d<!-- c -->x</Event>`, i, i)
	}
	sb.WriteString("</EventStream></Period></MPD>")
	return sb.String(), func(m *mpd.MPD) string {
		es := m.Periods[0].EventStreams[0].Events
		if len(es) != n {
			return fmt.Sprintf("%d events of %d", len(es), n)
		}
		for i, e := range es {
			if string(e.Value) != fmt.Sprintf("%dx", i) {
				return fmt.Sprintf("event %d is wrong", i)
			}
		}
		return last(m)
	}
}

func cpuNow() int64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// TestC26_big reads and writes documents that are large in one dimension.
func TestC26_big(t *testing.T) {
	kit.Check(t, 0.4, func(r kit.R, c *kit.Case) {
		kind := r.N(10)
		n := r.In(20000, 100000)
		if kind == 2 || kind == 4 {
			n = r.In(2000, 40000)
		}
		unit := r.Pick("a", "é", "<", "&", "\U0001F600", "ab cd ", "]]>", "\"", "\n")
		if kind >= 5 && kind <= 7 {
			n *= r.Pick2(1, 6, 12)
		}
		what := fmt.Sprintf("kind %d, size %d, unit %q", kind, n, unit)
		c.Input(what)
		use := func(n int) (int64, string) {
			s, ok := big26(r, kind, n, unit)
			runtime.GC()
			t0 := cpuNow()
			m, err := mpd.ReadFromString(s)
			if err != nil {
				return 0, fmt.Sprintf("rejected: %v", err)
			}
			if msg := ok(m); msg != "" {
				return 0, msg
			}
			out, err := m.WriteToString("", false)
			if err != nil {
				return 0, fmt.Sprintf("cannot be written: %v", err)
			}
			cl := mpd.Clone(m)
			t1 := cpuNow()
			if msg := ok(cl); msg != "" {
				return 0, "clone: " + msg
			}
			m, err = mpd.ReadFromString(out)
			if err != nil {
				return 0, fmt.Sprintf("output rejected: %v", err)
			}
			if kind != 2 && kind < 9 {
				if msg := ok(m); msg != "" {
					return 0, "read back: " + msg
				}
			}
			return t1 - t0, ""
		}
		large, msg := use(n)
		if msg != "" {
			r.Fatalf("%s: %s", what, msg)
		}
		// Time stays in proportion: ten times the size must not take fifty times as long, on any of three tries.
		for try := 0; large > 2e9; try++ {
			small, _ := use(n / 10)
			again, _ := use(n)
			large = min(large, again)
			if large <= 50*max(small, 2e6) {
				break
			}
			if try == 2 {
				r.Fatalf("%s takes %.1f s, a tenth of it %.3f s", what, float64(large)/1e9, float64(small)/1e9)
			}
		}
		c.Key("big", what)
		c.NonTrivial(true)
		c.Label("big:%d", kind)
		c.Sample(func() string { return what })
	})
}

// TestC26_alloc compares what is allocated for a document and for one four times as large in one dimension.
func TestC26_alloc(t *testing.T) {
	kit.Check(t, 2, func(r kit.R, c *kit.Case) {
		kind := r.N(11)
		n := r.In(300, 3000)
		unit := r.Pick("a", "é", "<", "&", "\U0001F600", "ab cd ", "]]>", "\"", "\n")
		if kind >= 5 && kind <= 7 {
			n *= 20
		}
		if kind == 2 || kind == 4 {
			n = min(n, 1500)
		}
		if kind == 10 {
			n = min(n, 2400)
		}
		op := r.N(9)
		ops := []string{"read", "read from a reader", "write", "write indented", "clone", "tokens", "read into other types", "write other types", "answers"}
		what := fmt.Sprintf("%s, kind %d, size %d, unit %q", ops[op], kind, n, unit)
		c.Input(what)
		cost := func(n int) (bytes, count int64) {
			var s string
			if kind == 10 {
				name := []string{"u", "n:u", "Ext"}[len(unit)%3]
				s = `<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" xmlns:n="urn:n">` + strings.Repeat("<"+name+" a='1'>", n) + strings.Repeat("</"+name+">", n) + "</MPD>"
			} else {
				s, _ = big26(r, kind, n, unit)
			}
			m := mustRead(r, s)
			if op == 8 && kind == 1 {
				// The start of a late period is costly to work out.
				m.Periods = m.Periods[:min(100, len(m.Periods))]
			}
			var free freeStruct
			if op == 7 {
				if err := fork.Unmarshal([]byte(s), &free); err != nil {
					r.Fatalf("%s: %v", what, err)
				}
			}
			var before, after runtime.MemStats
			runtime.ReadMemStats(&before)
			var err error
			switch op {
			case 0:
				_, err = mpd.MPDFromBytes([]byte(s))
			case 1:
				err = fork.NewDecoder(strings.NewReader(s)).Decode(&mpd.MPD{})
			case 2, 3:
				_, err = m.WriteToString([]string{"", "  "}[op-2], op == 3)
			case 4:
				_ = mpd.Clone(m)
			case 5:
				d := fork.NewDecoder(strings.NewReader(s))
				for err == nil {
					_, err = d.Token()
				}
				if err == io.EOF {
					err = nil
				}
			case 6:
				err = fork.Unmarshal([]byte(s), &free)
			case 7:
				if kind == 4 {
					// A declaration of a prefix is no attribute to be written.
					free.Attrs = nil
				}
				_, err = fork.Marshal(&free)
			case 8:
				_ = answers(m)
			}
			runtime.ReadMemStats(&after)
			if err != nil {
				r.Fatalf("%s: %v", what, err)
			}
			return int64(after.TotalAlloc - before.TotalAlloc), int64(after.Mallocs - before.Mallocs)
		}
		b1, c1 := cost(n)
		b2, c2 := cost(4 * n)
		if b2 > 9*b1+300000 || c2 > 9*c1+3000 {
			b1, c1 = cost(n)
			b2, c2 = cost(4 * n)
			if b2 > 9*b1+300000 || c2 > 9*c1+3000 {
				r.Fatalf("%s: %d bytes in %d pieces are allocated, but for four times the size %d in %d", what, b1, c1, b2, c2)
			}
		}
		c.Key("alloc", what)
		c.NonTrivial(true)
		c.Label("allocation:%s", ops[op])
		c.Sample(func() string {
			return fmt.Sprintf("%s: %d bytes in %d pieces, for four times the size %d in %d", what, b1, c1, b2, c2)
		})
	})
}

// TestC26_long reads and writes single texts and attribute values just longer than round sizes.
func TestC26_long(t *testing.T) {
	sizes := []int{1<<12 + 1, 1<<15 + 1, 1<<16 + 1, 1<<20 + 1, 1<<22 + 1, 10_000_001}
	kit.Enum(t, 3*len(sizes), func(t *testing.T, i int, c *kit.Case) {
		kind, n := 5+i%3, sizes[i/3]
		what := fmt.Sprintf("kind %d, %d characters", kind, n)
		c.Input(what)
		if kind == 7 {
			n = min(n, 1<<20) // several constructs of that length
		}
		s, ok := big26(kit.R{}, kind, n, "x")
		m, err := mpd.ReadFromString(s)
		if err != nil {
			t.Fatalf("%s: rejected: %v", what, err)
		}
		if msg := ok(m); msg != "" {
			t.Fatalf("%s: %s", what, msg)
		}
		out, err := m.WriteToString("", false)
		if err != nil {
			t.Fatalf("%s: cannot be written: %v", what, err)
		}
		m, err = mpd.ReadFromString(out)
		if err != nil {
			t.Fatalf("%s: output rejected: %v", what, err)
		}
		if msg := ok(m); msg != "" {
			t.Fatalf("%s: read back: %s", what, msg)
		}
		c.Key("long", what)
		c.NonTrivial(true)
		c.Label("long:%d", kind)
		c.Sample(func() string { return what })
	})
}
