package props

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"slices"
	"strings"
	"syscall"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"
	fork "github.com/Eyevinn/dash-mpd/xml"

	"verif/harness/kit"
)

// faultWriter fails in one of several ways with the write that goes past limit bytes.
type faultWriter struct {
	limit  int
	kind   int
	fault  error // errInjected if nil
	got    []byte
	failed bool
	sizes  []int
}

// passing is an error which says that it might pass.
type passing struct{}

func (passing) Error() string   { return "try again" }
func (passing) Timeout() bool   { return true }
func (passing) Temporary() bool { return true }

// faults are the errors writers fail with; some of them have a meaning elsewhere.
var faults = []error{errInjected, io.EOF, io.ErrShortWrite, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe, io.ErrShortBuffer,
	bufio.ErrBufferFull, passing{}, syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, os.ErrDeadlineExceeded, os.ErrClosed, context.Canceled}

func (w *faultWriter) err() error {
	if w.fault == nil {
		return errInjected
	}
	return w.fault
}

var faultKinds = []string{"hard", "short", "accepted with an error", "once in part", "refused", "refused once", "short once"}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.sizes = append(w.sizes, len(p))
	if w.failed {
		switch w.kind {
		case 0, 2, 4:
			return 0, w.err()
		case 1:
			return 0, nil
		}
		w.got = append(w.got, p...)
		return len(p), nil
	}
	k := w.limit - len(w.got)
	if len(p) <= k {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	w.failed = true
	switch w.kind {
	case 1, 6:
		w.got = append(w.got, p[:k]...)
		return k, nil
	case 2:
		w.got = append(w.got, p...)
		return len(p), w.err()
	case 4, 5:
		return 0, w.err()
	}
	w.got = append(w.got, p[:k]...)
	return k, w.err()
}

// expected tells whether err reports the failure of w.
func (w *faultWriter) reported(err error) bool {
	if w.kind == 1 || w.kind == 6 {
		return errors.Is(err, io.ErrShortWrite)
	}
	return errors.Is(err, w.err())
}

// drawOffset draws a place to fail in n bytes, with the ends and the buffer's boundaries preferred.
func drawOffset(r kit.R, n int) int {
	switch r.N(8) {
	case 0:
		return r.N(3)
	case 1:
		return max(0, n-r.N(3))
	case 2:
		return min(n, max(0, 4096*r.In(1, max(1, n/4096))+r.In(-2, 2)))
	case 3:
		return min(n, len(fork.Header)+r.In(-2, 2))
	case 4:
		return min(n, 4096*r.In(0, n/4096)+len(fork.Header)+r.In(-2, 2))
	}
	return r.N(n + 1)
}

// TestC24 writes to destinations that fail.
func TestC24(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		m, _ := kit.GenMPD(r, kit.ModelOpts{})
		if r.P(40) { // make it longer than the buffer
			for range r.In(1, 4) {
				switch r.N(3) {
				case 0:
					m.BaseURL = append(m.BaseURL, &mpd.BaseURLType{Value: mpd.AnyURI(strings.Repeat(r.Pick("x", "<", "é", "abc"), r.N(4200)))})
				case 1:
					m.Id = strings.Repeat(r.Pick("x", "\"", "\n"), r.N(9000))
				case 2:
					p := mpd.NewPeriod()
					for i := range r.N(60) {
						p.BaseURLs = append(p.BaseURLs, mpd.NewBaseURL(fmt.Sprintf("https://example.com/%d/", i)))
					}
					m.Periods = append(m.Periods, p)
				}
			}
		}
		ind, hdr := drawIndent(r), r.B()
		// The operation under test, to any writer.
		var op func(w io.Writer) (int, error)
		counts := true
		what := r.Pick("MPD.Write", "MPD.Write", "Period.Write", "WriteXML", "Encode", "EncodeElement", "EncodeToken")
		switch what {
		case "MPD.Write":
			op = func(w io.Writer) (int, error) { return m.Write(w, ind, hdr) }
		case "Period.Write":
			if len(m.Periods) == 0 {
				m.Periods = append(m.Periods, kit.GenPeriod(r, kit.ModelOpts{}))
			}
			p := m.Periods[r.N(len(m.Periods))]
			op = func(w io.Writer) (int, error) { return p.Write(w, ind) }
		case "WriteXML":
			var all []any
			eachPtr(reflect.ValueOf(m), func(x any) {
				if _, err := fork.Marshal(x); err == nil {
					all = append(all, x)
				}
			})
			x := all[r.N(len(all))]
			op = func(w io.Writer) (int, error) { return mpd.WriteXML(x, w, ind, hdr) }
		case "Encode", "EncodeElement":
			counts = false
			pooled := r.B()
			op = func(w io.Writer) (int, error) {
				var e *fork.Encoder
				if pooled {
					e = fork.AcquireEncoder(w)
					defer fork.ReleaseEncoder(e)
				} else {
					e = fork.NewEncoder(w)
				}
				e.Indent("", ind)
				if what == "EncodeElement" {
					return 0, e.EncodeElement(m, fork.StartElement{Name: fork.Name{Local: "MPD"}})
				}
				return 0, e.Encode(m)
			}
		case "EncodeToken":
			counts = false
			var full bytes.Buffer
			_, _ = m.Write(&full, ind, hdr)
			toks := forkTokens(r, full.Bytes())
			flush := r.N(20)
			closing := r.B()
			op = func(w io.Writer) (int, error) {
				e := fork.NewEncoder(w)
				var first error
				note := func(err error) {
					if first == nil {
						first = err
					}
				}
				for i, t := range toks {
					note(e.EncodeToken(t))
					if flush > 0 && i%flush == 0 {
						note(e.Flush())
					}
				}
				if closing {
					note(e.Close())
				} else {
					note(e.Flush())
				}
				return 0, first
			}
		}
		var full bytes.Buffer
		n, err := op(&full)
		if err != nil {
			r.Fatalf("%s failed: %v", what, err)
		}
		if counts && n != full.Len() {
			r.Fatalf("%s returned %d for %d bytes", what, n, full.Len())
		}
		want := full.Bytes()
		c.Input(full.String())
		var offs []int
		if len(want) < 2500 && r.N(12) == 0 {
			for i := range len(want) + 1 {
				offs = append(offs, i)
			}
			c.Label("all offsets")
		} else {
			for range 8 {
				offs = append(offs, drawOffset(r, len(want)))
			}
		}
		kind := r.N(len(faultKinds))
		if kind == 1 && !counts {
			kind = 6 // bufio tries a write that takes nothing without an error again and again
		}
		fault := errInjected
		if r.P(40) {
			fault = faults[r.N(len(faults))]
		}
		for _, off := range offs {
			w := &faultWriter{limit: off, kind: kind, fault: fault}
			n, err := op(w)
			calls, taken := len(w.sizes), len(w.got)
			at := fmt.Sprintf("%s with a writer failing (%s) at %d of %d bytes", what, faultKinds[kind], off, len(want))
			if counts && n != taken {
				r.Fatalf("%s returned %d, the writer took %d", at, n, taken)
			}
			if !bytes.HasPrefix(want, w.got) {
				r.Fatalf("%s: what was written is not a prefix of the output\n%q\n%q", at, w.got, want)
			}
			if w.failed && !w.reported(err) && !(kind == 6 && !counts && err == nil && taken == len(want)) {
				r.Fatalf("%s returned %v", at, err)
			}
			if !w.failed && (err != nil || taken != len(want)) {
				r.Fatalf("%s returned %v with %d bytes written", at, err, taken)
			}
			if !w.failed && off < len(want) {
				r.Fatalf("%s: the writer was not given all", at)
			}
			// The next write has nothing of this one and nothing goes to this writer any more.
			var again bytes.Buffer
			if _, err := op(&again); err != nil || !bytes.Equal(again.Bytes(), want) {
				r.Fatalf("%s: the next write gives %v\n%q\nnot\n%q", at, err, again.Bytes(), want)
			}
			if len(w.sizes) != calls {
				r.Fatalf("%s: the writer is used after the return", at)
			}
			if !w.failed {
				c.Label("not reached")
			}
			if len(w.sizes) > 1 {
				c.Label("several writes")
			}
		}
		c.Key(what, string(want), fmt.Sprint(offs, kind, fault))
		c.NonTrivial(len(want) > 0 && slices.Min(offs) < len(want))
		c.Label("op:%s", what)
		c.Label("kind:%s", faultKinds[kind])
		c.Label("fault:%v", fault)
		c.Label("longer than the buffer:%v", len(want) > 4096)
		c.Sample(func() string {
			return fmt.Sprintf("%s, %d bytes, %s at %v", what, len(want), faultKinds[kind], offs[:min(len(offs), 8)])
		})
	})
}

// forkTokens reads all tokens of b.
func forkTokens(r kit.R, b []byte) []fork.Token {
	d := fork.NewDecoder(bytes.NewReader(b))
	var out []fork.Token
	for {
		t, err := d.Token()
		if err == io.EOF {
			return out
		}
		if err != nil {
			r.Fatalf("reading tokens: %v\n%q", err, b)
		}
		out = append(out, fork.CopyToken(t))
	}
}

// TestC24_escape escapes to destinations that fail.
func TestC24_escape(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		s := strings.Repeat(r.RawStr(), r.In(1, 3))
		var full bytes.Buffer
		if err := fork.EscapeText(&full, []byte(s)); err != nil {
			r.Fatalf("EscapeText failed: %v", err)
		}
		w := &faultWriter{limit: r.N(full.Len() + 1), kind: r.N(2) * 4}
		err := fork.EscapeText(w, []byte(s))
		if w.failed && !errors.Is(err, errInjected) {
			r.Fatalf("EscapeText of %q to a writer failing at %d returned %v", s, w.limit, err)
		}
		if !w.failed && (err != nil || len(w.got) != full.Len()) {
			r.Fatalf("EscapeText of %q to a good writer returned %v", s, err)
		}
		if !bytes.HasPrefix(full.Bytes(), w.got) {
			r.Fatalf("EscapeText of %q wrote %q, not a prefix of %q", s, w.got, full.Bytes())
		}
		c.Key("esc", s, fmt.Sprint(w.limit))
		c.NonTrivial(w.failed)
		c.Label("op:EscapeText")
	})
}

// stretch makes some strings below v long.
func stretch(r kit.R, v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() && v.Kind() == reflect.Pointer {
			stretch(r, v.Elem())
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.Kind() == reflect.Slice && v.CanSet() && r.B() {
				v.SetBytes(bytes.Repeat([]byte("b"), r.N(6000)))
			}
			return
		}
		for i := range v.Len() {
			stretch(r, v.Index(i))
		}
	case reflect.Struct:
		for i := range v.NumField() {
			if v.Type().Field(i).Tag.Get("xml") != ",innerxml" && v.Field(i).CanSet() {
				stretch(r, v.Field(i))
			}
		}
	case reflect.String:
		if v.CanSet() && r.B() {
			v.SetString(strings.Repeat(r.Pick("x", "<", "é", "abc"), r.N(5000)))
		}
	}
}

// TestC24_types marshals values of drawn types (all kinds of fields, methods and tags) to destinations that fail.
func TestC24_types(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		var tw twin
		if r.N(4) == 3 {
			tw = oddStruct(r, 1)
		} else {
			tw = drawStruct(r, 2, true)
		}
		fv := reflect.New(tw.f)
		fillOdd(r, fv.Elem(), 0)
		stretch(r, fv.Elem())
		pre, ind := r.Pick("", "", " "), drawIndent(r)
		op := func(w io.Writer) error {
			e := fork.NewEncoder(w)
			e.Indent(pre, ind)
			if err := e.Encode(fv.Interface()); err != nil {
				return err
			}
			return e.Close()
		}
		var full bytes.Buffer
		if err, p := try(func() error { return op(&full) }); err != nil || p != nil {
			c.Label("not marshalled")
			return
		}
		want := full.Bytes()
		c.Input(fmt.Sprintf("%v\n%.3000s", tw.f, want))
		kind := []int{0, 2, 3, 4, 5, 6}[r.N(6)]
		for range 6 {
			w := &faultWriter{limit: drawOffset(r, len(want)), kind: kind}
			err, p := try(func() error { return op(w) })
			at := fmt.Sprintf("Encode of %v to a writer failing (%s) at %d of %d bytes", tw.f, faultKinds[kind], w.limit, len(want))
			if p != nil {
				r.Fatalf("%s panics: %v", at, p)
			}
			if !bytes.HasPrefix(want, w.got) {
				r.Fatalf("%s: what was written is not a prefix of the output\n%q\n%q", at, w.got, want)
			}
			if w.failed && !w.reported(err) && !(kind == 6 && err == nil && len(w.got) == len(want)) {
				r.Fatalf("%s returned %v", at, err)
			}
			if !w.failed && (err != nil || len(w.got) != len(want)) {
				r.Fatalf("%s returned %v with %d bytes written", at, err, len(w.got))
			}
			if !w.failed && w.limit < len(want) {
				r.Fatalf("%s: the writer was not given all", at)
			}
		}
		c.Key("types", tw.f.String(), string(want))
		c.NonTrivial(len(want) > 0)
		c.Label("op:types")
		c.Label("longer than the buffer:%v", len(want) > 4096)
	})
}
