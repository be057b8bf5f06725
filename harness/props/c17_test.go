package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"
	fork "github.com/Eyevinn/dash-mpd/xml"

	"verif/harness/kit"
	"verif/harness/xt"
)

// Types whose writing goes wrong, in drawn depths and after drawn content.
type bad17 struct {
	XMLName struct{} `xml:"urn:bad b:Bad"`
	A       string   `xml:"urn:other o:a,attr"`
	Deep    *deep17  `xml:"urn:third c:Deep"`
}

type deep17 struct {
	K    string  `xml:"k,attr"`
	L    string  `xml:"L,omitempty"`
	Deep *deep17 `xml:"urn:third c:Deep"`
	End  any     `xml:"urn:bad e:End"`
}

var errMarshal = errors.New("marshalling fails")

type (
	chan17   struct{ C chan int }
	text17   struct{}
	attr17   struct{}
	attrIn17 struct {
		X attr17 `xml:"x,attr"`
	}
	open17    struct{ n int }
	fail17    struct{ n int }
	panic17   struct{ n int }
	close17   struct{}
	indent17  struct{}
	extra17   struct{}
	nested17  struct{ m *mpd.MPD }
	flushed17 struct{}
)

func (text17) MarshalText() ([]byte, error)                  { return nil, errMarshal }
func (attr17) MarshalXMLAttr(n fork.Name) (fork.Attr, error) { return fork.Attr{}, errMarshal }
func (v open17) MarshalXML(e *fork.Encoder, s fork.StartElement) error {
	for i := range v.n + 1 {
		if err := e.EncodeToken(fork.StartElement{Name: fork.Name{Space: fmt.Sprint("urn:o", i), Local: "Open"}}); err != nil {
			return err
		}
	}
	return nil
}
func (v fail17) MarshalXML(e *fork.Encoder, s fork.StartElement) error {
	_ = open17{v.n}.MarshalXML(e, s)
	_ = e.EncodeToken(fork.CharData("text"))
	return errMarshal
}
func (v panic17) MarshalXML(e *fork.Encoder, s fork.StartElement) error {
	_ = open17{v.n}.MarshalXML(e, s)
	panic(errMarshal)
}
func (close17) MarshalXML(e *fork.Encoder, s fork.StartElement) error {
	_ = e.EncodeToken(s)
	_ = e.EncodeToken(s.End())
	return e.Close()
}
func (indent17) MarshalXML(e *fork.Encoder, s fork.StartElement) error {
	e.Indent("##", "@@")
	_ = e.EncodeToken(s)
	return e.EncodeToken(s.End())
}
func (extra17) MarshalXML(e *fork.Encoder, s fork.StartElement) error {
	return e.EncodeToken(s.End())
}
func (v nested17) MarshalXML(e *fork.Encoder, s fork.StartElement) error {
	if err := e.EncodeToken(s); err != nil {
		return err
	}
	// Another write while this one is under way.
	str, err := v.m.WriteToString(" ", true)
	if err != nil {
		return err
	}
	if err := e.EncodeToken(fork.CharData(fmt.Sprint(len(str)))); err != nil {
		return err
	}
	return e.EncodeToken(s.End())
}
func (flushed17) MarshalXML(e *fork.Encoder, s fork.StartElement) error {
	_ = e.EncodeToken(s)
	_ = e.Flush()
	_ = e.EncodeToken(fork.CharData("after"))
	return e.EncodeToken(s.End())
}

// drawBad draws an object whose writing may go wrong.
func drawBad(r kit.R, m *mpd.MPD) (any, string) {
	var end any
	what := r.Pick("unsupported type", "MarshalText fails", "attribute fails", "left open", "MarshalXML fails", "panics", "closes", "indents", "ends too much",
		"nested write", "flushes", "fine")
	switch what {
	case "unsupported type":
		end = chan17{make(chan int)}
	case "MarshalText fails":
		end = text17{}
	case "attribute fails":
		end = attrIn17{}
	case "left open":
		end = open17{r.N(3)}
	case "MarshalXML fails":
		end = fail17{r.N(3)}
	case "panics":
		end = panic17{r.N(3)}
	case "closes":
		end = close17{}
	case "indents":
		end = indent17{}
	case "ends too much":
		end = extra17{}
	case "nested write":
		end = nested17{m}
	case "flushes":
		end = flushed17{}
	}
	b := &bad17{A: r.Str(), Deep: &deep17{K: "1"}}
	d := b.Deep
	for range r.N(4) {
		d.L = r.Pick("", "x")
		d.Deep = &deep17{K: "2"}
		d = d.Deep
	}
	d.End = end
	switch r.N(4) {
	case 0:
		return end, what + " at the top"
	case 1:
		return []any{m, b}, what + " after an MPD"
	}
	return b, what
}

// panicWriter panics with the write that goes past limit bytes.
type panicWriter struct {
	limit int
	got   []byte
}

func (w *panicWriter) Write(p []byte) (int, error) {
	if len(w.got)+len(p) > w.limit {
		panic(errInjected)
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

// reentrantWriter writes another MPD with each write.
type reentrantWriter struct {
	bytes.Buffer
	m     *mpd.MPD
	inner []string
}

func (w *reentrantWriter) Write(p []byte) (int, error) {
	n, err := w.Buffer.Write(p)
	s, err2 := w.m.WriteToString("\t", false)
	if err2 != nil {
		return n, err2
	}
	w.inner = append(w.inner, s)
	return n, err
}

// outcome is the error or panic of a call.
func outcome(f func() error) (s string) {
	defer func() {
		if p := recover(); p != nil {
			s = fmt.Sprintf("panic: %v", p)
		}
	}()
	if err := f(); err != nil {
		return "error: " + err.Error()
	}
	return "ok"
}

// fresh writes like WriteXML, with an encoder of its own.
func fresh(x any, w io.Writer, ind string, hdr bool) string {
	return outcome(func() error {
		if hdr {
			if _, err := io.WriteString(w, fork.Header); err != nil {
				return err
			}
		}
		e := fork.NewEncoder(w)
		e.Indent("", ind)
		return e.Encode(x)
	})
}

// freshAll is fresh into memory, with all that was produced, even before an error.
func freshAll(x any, ind string, hdr bool) (string, string) {
	var b bytes.Buffer
	if hdr {
		b.WriteString(fork.Header)
	}
	e := fork.NewEncoder(&b)
	e.Indent("", ind)
	o := outcome(func() error { return e.Encode(x) })
	_ = outcome(e.Flush)
	return o, b.String()
}

// script is a list of uses of an encoder.
type script struct {
	prefix, indent string
	toks           []fork.Token
	end            int
	obj            any
}

func drawScript(r kit.R, obj any) script {
	s := script{prefix: r.Pick("", "", "  ", "##"), indent: r.Pick("", " ", "\t"), end: r.N(4)}
	if r.B() {
		s.obj = obj
	}
	root := kit.GenXML(r, kit.XMLOpts{})
	s.toks = forkTokens(r, []byte(xt.Write(root, &xt.Style{})))
	if len(s.toks) > 0 {
		s.toks = s.toks[:r.N(len(s.toks)+1)]
	}
	if r.P(15) {
		s.toks = append(s.toks, fork.EndElement{Name: fork.Name{Local: "nothing"}})
	}
	return s
}

// step does the i-th use, and tells if that was the last.
func (s script) step(e *fork.Encoder, i int) (string, bool) {
	switch {
	case i == 0:
		e.Indent(s.prefix, s.indent)
		return "", false
	case i <= len(s.toks):
		return outcome(func() error { return e.EncodeToken(s.toks[i-1]) }), false
	case i == len(s.toks)+1 && s.obj != nil:
		return outcome(func() error { return e.Encode(s.obj) }), false
	}
	switch s.end {
	case 1:
		return outcome(e.Flush), true
	case 2:
		return outcome(e.Close), true
	case 3:
		return outcome(e.Close) + outcome(func() error { return e.EncodeToken(fork.CharData("x")) }), true
	}
	return "", true
}

var fixed17 = func() *mpd.MPD {
	m := mpd.NewMPD(mpd.STATIC_TYPE)
	m.Profiles = "urn:a"
	m.SchemaLocation = "urn:x y"
	p := mpd.NewPeriod()
	a := mpd.NewAdaptationSet()
	a.ContentProtections = []*mpd.ContentProtectionType{mpd.NewContentProtection()}
	p.AppendAdaptationSet(a)
	m.AppendPeriod(p)
	return m
}()

var fixed17out = func() string {
	s, err := fixed17.WriteToString("  ", true)
	if err != nil {
		panic(err)
	}
	return s
}()

// TestC17 runs histories of writes.
func TestC17(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		type ref struct {
			obj  any
			outs map[string]string
		}
		inds := []string{"", "  ", "\t"}
		var refs []*ref
		var ms []*mpd.MPD
		add := func(x any) {
			f := &ref{x, map[string]string{}}
			for _, ind := range inds {
				var b bytes.Buffer
				if o := fresh(x, &b, ind, false); o != "ok" {
					r.Fatalf("cannot be written: %s", o)
				}
				f.outs[ind] = b.String()
			}
			refs = append(refs, f)
		}
		for range r.In(1, 2) {
			m, _ := kit.GenMPD(r, kit.ModelOpts{})
			ms = append(ms, m)
			add(m)
			if len(m.Periods) > 0 {
				add(m.Periods[0])
			}
		}
		add(&bad17{A: "1", Deep: &deep17{K: "2", Deep: &deep17{End: "x"}}})
		anyM := func() *mpd.MPD { return ms[r.N(len(ms))] }
		var kept []*bytes.Buffer
		var keptWant []string
		history := ""
		verify := func() {
			f := refs[r.N(len(refs))]
			ind, hdr := inds[r.N(len(inds))], r.B()
			want := f.outs[ind]
			if hdr {
				want = fork.Header + want
			}
			b := &bytes.Buffer{}
			var err error
			how := r.Pick("WriteXML", "Write", "WriteToString", "AcquireEncoder")
			switch x := f.obj.(type) {
			case *mpd.MPD:
				switch how {
				case "Write":
					_, err = x.Write(b, ind, hdr)
				case "WriteToString":
					var s string
					s, err = x.WriteToString(ind, hdr)
					b.WriteString(s)
				}
			case *mpd.Period:
				switch how {
				case "Write":
					want = f.outs[ind]
					_, err = x.Write(b, ind)
				case "WriteToString":
					want = f.outs[ind]
					var s string
					s, err = x.WriteToString(ind)
					b.WriteString(s)
				}
			}
			if b.Len() == 0 && err == nil {
				if how == "AcquireEncoder" && ind == "" {
					want = f.outs[ind]
					// No Indent: a pooled encoder starts as a new one.
					e := fork.AcquireEncoder(b)
					err = e.Encode(f.obj)
					fork.ReleaseEncoder(e)
				} else {
					_, err = mpd.WriteXML(f.obj, b, ind, hdr)
				}
			}
			if err != nil || b.String() != want {
				r.Fatalf("after %s: %s of %T with indent %q gives %v\n%s", history, how, f.obj, ind, err, firstDiff(want, b.String()))
			}
			kept = append(kept, b)
			keptWant = append(keptWant, want)
		}
		steps := r.In(1, 8)
		for range steps {
			ind, hdr := inds[r.N(len(inds))], r.B()
			switch r.N(7) {
			case 0:
				history += "write; "
			case 1, 2:
				w1 := &faultWriter{limit: r.N(6000), kind: []int{0, 2, 3, 4, 5}[r.N(5)]} // a short write is reported by WriteXML only
				var x any = anyM()
				what := "failing writer"
				if r.B() {
					x, what = drawBad(r, anyM())
					if r.P(60) {
						w1.limit = 1 << 30
					}
				}
				history += fmt.Sprintf("%s (%s at %d); ", what, faultKinds[w1.kind], w1.limit)
				// How much of an incomplete output reaches the writer depends on the sizes of the buffers.
				o2, full := freshAll(x, ind, hdr)
				o1 := outcome(func() error { _, err := mpd.WriteXML(x, w1, ind, hdr); return err })
				if (o1 == "ok") != (o2 == "ok" && !w1.failed) || !w1.failed && o1 != o2 || !strings.HasPrefix(full, string(w1.got)) || o1 == "ok" && full != string(w1.got) {
					r.Fatalf("after %s: WriteXML gives %s and %q, a new encoder %s and %q", history, o1, w1.got, o2, full)
				}
			case 3:
				history += "panicking writer; "
				w := &panicWriter{limit: r.N(5000)}
				m := anyM()
				_ = outcome(func() error { _, err := m.Write(w, ind, hdr); return err })
			case 4, 5:
				// One or two encoders at work, with writes in between.
				n := r.In(1, 2)
				history += fmt.Sprintf("%d encoders; ", n)
				type run struct {
					script
					e       *fork.Encoder
					b1, b2  *bytes.Buffer
					o1, o2  string
					last    string
					i       int
					release bool
				}
				var runs []*run
				for range n {
					var obj any = anyM()
					if r.B() {
						obj, _ = drawBad(r, anyM())
					}
					u := &run{script: drawScript(r, obj), b1: &bytes.Buffer{}, b2: &bytes.Buffer{}}
					e := fork.NewEncoder(u.b2)
					for i := 0; ; i++ {
						o, end := u.step(e, i)
						u.o2 += o
						u.last = o
						if end {
							_ = outcome(e.Flush)
							break
						}
					}
					u.e = fork.AcquireEncoder(u.b1)
					runs = append(runs, u)
				}
				for left := n; left > 0; {
					u := runs[r.N(n)]
					if u.release {
						u = runs[0]
						if u.release {
							u = runs[1]
						}
					}
					for k := r.N(20); ; k-- {
						o, end := u.step(u.e, u.i)
						u.i++
						u.o1 += o
						if end {
							u.release = true
							left--
							fork.ReleaseEncoder(u.e)
							break
						}
						if k <= 0 {
							break
						}
					}
					if r.B() {
						verify()
					}
				}
				for _, u := range runs {
					flushed := u.end != 0 && strings.HasPrefix(u.last, "ok")
					if u.o1 != u.o2 || flushed && u.b1.String() != u.b2.String() || !strings.HasPrefix(u.b2.String(), u.b1.String()) {
						r.Fatalf("after %s: a pooled encoder gives %s %q, a new one %s %q", history, u.o1, u.b1, u.o2, u.b2)
					}
				}
			case 6:
				history += "write within a write; "
				w := &reentrantWriter{m: anyM()}
				f := refs[r.N(len(refs))]
				if _, err := mpd.WriteXML(f.obj, w, ind, false); err != nil || w.String() != f.outs[ind] {
					r.Fatalf("after %s: %v\n%s", history, err, firstDiff(f.outs[ind], w.String()))
				}
				for _, s := range w.inner {
					for _, g := range refs {
						if g.obj == any(w.m) && s != g.outs["\t"] {
							r.Fatalf("after %s: inner write\n%s", history, firstDiff(g.outs["\t"], s))
						}
					}
				}
			}
			verify()
		}
		for i, b := range kept {
			if b.String() != keptWant[i] {
				r.Fatalf("after %s: an earlier output has changed\n%s", history, firstDiff(keptWant[i], b.String()))
			}
		}
		for _, f := range refs {
			for ind, want := range f.outs {
				var b bytes.Buffer
				if o := fresh(f.obj, &b, ind, false); o != "ok" || b.String() != want {
					r.Fatalf("after %s: writing gives %s\n%s", history, o, firstDiff(want, b.String()))
				}
			}
		}
		if s, err := fixed17.WriteToString("  ", true); err != nil || s != fixed17out {
			r.Fatalf("after %s: the first write of this process is now %v\n%s", history, err, firstDiff(fixed17out, s))
		}
		c.Key(history, refs[0].outs[""])
		c.NonTrivial(history != "")
		c.Label("steps:%d", steps)
		c.Sample(func() string { return history })
	})
}
