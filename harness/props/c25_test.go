package props

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/Eyevinn/dash-mpd/mpd"
	fork "github.com/Eyevinn/dash-mpd/xml"

	"verif/harness/kit"
	"verif/harness/xt"
)

// chunks delivers a string in drawn pieces and ends with err.
type chunks struct {
	s     string
	r     kit.R
	mode  int // 0: one byte, 1: drawn, 2: all
	err   error
	zeros bool
	with  bool // deliver the error together with the last bytes
	given int
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	rest := c.s[c.given:]
	if rest == "" {
		return 0, c.err
	}
	if c.zeros && c.r.N(10) == 9 {
		return 0, nil
	}
	n := len(rest)
	switch c.mode {
	case 0:
		n = 1
	case 1:
		n = []int{1, 2, 3, 7, 64, 511, 512, 513, 4095, 4096, 4097}[c.r.N(11)]
	}
	n = min(n, len(rest), len(p))
	copy(p, rest[:n])
	c.given += n
	if c.with && c.given == len(c.s) {
		return n, c.err
	}
	return n, nil
}

// bytesOnly is an io.Reader that is also an io.ByteReader, without buffering.
type bytesOnly struct {
	s   string
	i   int
	err error
}

func (b *bytesOnly) Read(p []byte) (int, error) { panic("Read used although there is ReadByte") }
func (b *bytesOnly) ReadByte() (byte, error) {
	if b.i >= len(b.s) {
		return 0, b.err
	}
	b.i++
	return b.s[b.i-1], nil
}

// drawReader draws a way in which the bytes of s arrive, followed by err.
func drawReader(r kit.R, s string, err error) (io.Reader, string) {
	switch r.N(6) {
	case 0:
		return &bytesOnly{s: s, err: err}, "bytes"
	case 1:
		n := r.In(16, 5000)
		return bufio.NewReaderSize(&chunks{s: s, r: r, mode: 1, err: err}, n), "bufio"
	case 2:
		return &chunks{s: s, r: r, mode: 0, err: err, with: r.B()}, "one"
	case 3:
		return &chunks{s: s, r: r, mode: 2, err: err, with: r.B()}, "all"
	}
	return &chunks{s: s, r: r, mode: 1, err: err, with: r.B(), zeros: r.B()}, "chunks"
}

// tokenReader delivers stored tokens.
type tokenReader struct {
	t    []fork.Token
	i    int
	with bool
}

func (t *tokenReader) Token() (fork.Token, error) {
	if t.i >= len(t.t) {
		return nil, io.EOF
	}
	t.i++
	if t.with && t.i == len(t.t) {
		return t.t[t.i-1], io.EOF
	}
	return t.t[t.i-1], nil
}

// TestC25_Tokens decodes the same bytes arriving in different ways, and with read errors.
func TestC25_Tokens(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		s, _ := drawXML(r)
		c.Input(s)
		raw := r.N(3) == 2
		limit := 3*len(s) + 100
		d0 := fork.NewDecoder(strings.NewReader(s))
		want, err := readTokens(r, d0, forkNext(d0, raw), limit)
		if err != io.EOF {
			r.Fatalf("error %v\n%q", err, s)
		}
		rd, how := drawReader(r, s, io.EOF)
		d1 := fork.NewDecoder(rd)
		got, err := readTokens(r, d1, forkNext(d1, raw), limit)
		if err != io.EOF {
			r.Fatalf("%s: error %v\n%q", how, err, s)
		}
		if x := diffToks(got, want, true); x != "" {
			r.Fatalf("%s: %s\n%q", how, x, s)
		}
		checkPos(r, s, got)

		// A read error.
		k := r.N(len(s))
		rd, how2 := drawReader(r, s[:k], errInjected)
		d2 := fork.NewDecoder(rd)
		got, err = readTokens(r, d2, forkNext(d2, raw), limit)
		if !errors.Is(err, errInjected) {
			r.Fatalf("%s: read error after %d bytes is reported as %v\n%q", how2, k, err, s)
		}
		n := 0
		for n < len(want) && (want[n].end < k || want[n].end == k && want[n].kind != "text") {
			n++
		}
		if len(got) < n {
			r.Fatalf("%s: read error after %d bytes: %d instead of %d tokens\n%q", how2, k, len(got), n, s)
		}
		if x := diffToks(got[:n], want[:n], true); x != "" {
			r.Fatalf("%s: read error after %d bytes: %s\n%q", how2, k, x, s)
		}
		if len(got) > n {
			// Text may be reported as far as it was read.
			g := got[n]
			if len(got) > n+1 || g.kind != "text" || n >= len(want) || want[n].kind != "text" || !strings.HasPrefix(crlf(want[n].rest), strings.TrimSuffix(g.rest, "\n")) {
				r.Fatalf("%s: read error after %d bytes: invented token %v\n%q", how2, k, g, s)
			}
		}
		for range 2 {
			if x, err := d2.Token(); x != nil || !errors.Is(err, errInjected) {
				r.Fatalf("after the read error: %v, %v", x, err)
			}
		}

		// The same tokens from a source of tokens.
		d3 := fork.NewDecoder(strings.NewReader(s))
		tr := &tokenReader{with: r.B()}
		for {
			x, err := d3.RawToken()
			if err != nil {
				break
			}
			tr.t = append(tr.t, fork.CopyToken(x))
		}
		d4 := fork.NewTokenDecoder(tr)
		d5 := fork.NewDecoder(strings.NewReader(s))
		a, err := readTokens(r, d4, forkNext(d4, false), limit)
		b, err2 := readTokens(r, d5, forkNext(d5, false), limit)
		if err != err2 {
			r.Fatalf("token source ends with %v instead of %v\n%q", err, err2, s)
		}
		if x := diffToks(a, b, false); x != "" {
			r.Fatalf("token source: %s\n%q", x, s)
		}
		c.Key(s, how, fmt.Sprint(k))
		c.NonTrivial(len(want) > 2)
		c.Label("way:%s", how)
		c.Label("error way:%s", how2)
		c.Sample(func() string { return how + ": " + s })
	})
}

// throughPipe calls read with the path of a named pipe that delivers s.
func throughPipe(r kit.R, s string, read func(path string)) {
	path := filepath.Join(os.TempDir(), fmt.Sprintf("c25-%d.pipe", os.Getpid()))
	os.Remove(path)
	if err := syscall.Mkfifo(path, 0o600); err != nil {
		panic(err)
	}
	defer os.Remove(path)
	cut := r.N(len(s) + 1)
	done := make(chan struct{})
	go func() {
		defer close(done)
		w, err := os.OpenFile(path, os.O_WRONLY, 0)
		if err != nil {
			return
		}
		defer w.Close()
		for _, part := range []string{s[:cut], s[cut:]} {
			if _, err := io.WriteString(w, part); err != nil {
				return // the reader stopped
			}
		}
	}()
	read(path)
	// Let go the writer if nobody opened the pipe.
	if fd, err := syscall.Open(path, syscall.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
		for stop := false; !stop; {
			select {
			case <-done:
				stop = true
			case <-time.After(time.Second):
				// The writer waits for space in the pipe.
				buf := make([]byte, 1<<20)
				for {
					if n, err := syscall.Read(fd, buf); n <= 0 || err != nil {
						break
					}
				}
			}
		}
		syscall.Close(fd)
	}
}

// TestC25_MPD reads the same MPD in all ways there are.
func TestC25_MPD(t *testing.T) {
	kit.Check(t, 0.5, func(r kit.R, c *kit.Case) {
		d := drawDoc(r, "all", nil, kit.DocOpts{})
		s := xt.Write(d.Root, kit.WildStyle(r, d.Root))
		if r.N(20) == 19 {
			// long
			n := r.In(800, 3000)
			if r.N(5) == 4 {
				n = r.In(10_000, 2_000_000)
				c.Label("megabytes:%d", 5*n>>20)
			}
			s = strings.Replace(s, "</", "<!-- "+strings.Repeat("long ", n)+" --></", 1)
		}
		if r.N(10) == 9 {
			s = "\ufeff" + s
		}
		bad := r.N(6) == 5
		if bad {
			s = mutateBytes(r, s)
		}
		c.Input(s)
		m1, err1 := mpd.ReadFromString(s)
		buf := []byte(s)
		m2, err2 := mpd.MPDFromBytes(buf)
		if string(buf) != s {
			r.Fatalf("the bytes given to MPDFromBytes were changed")
		}
		// The MPD must not refer to the caller's buffer.
		for i := range buf {
			buf[i] = 'x'
		}
		f := filepath.Join(os.TempDir(), fmt.Sprintf("c25-%d.mpd", os.Getpid()))
		if err := os.WriteFile(f, []byte(s), 0o600); err != nil {
			panic(err)
		}
		m3, err3 := mpd.ReadFromFile(f)
		if r.N(4) == 3 {
			c.Label("named pipe")
			var mp *mpd.MPD
			var errp error
			throughPipe(r, s, func(path string) { mp, errp = mpd.ReadFromFile(path) })
			if (err3 == nil) != (errp == nil) || errp != nil && err3.Error() != errp.Error() {
				r.Fatalf("reading from a file gives error %v, from a named pipe %v\n%q", err3, errp, s)
			}
			m3 = mp
		}
		rd, how := drawReader(r, s, io.EOF)
		m4 := &mpd.MPD{}
		err4 := fork.NewDecoder(rd).Decode(m4)
		for i, err := range []error{err2, err3, err4} {
			if (err == nil) != (err1 == nil) || err != nil && err.Error() != err1.Error() {
				r.Fatalf("reading from string gives error %v, way %d gives %v\n%q", err1, i, err, s)
			}
		}
		if err1 == nil {
			for i, m := range []*mpd.MPD{m2, m3, m4} {
				if m == m4 {
					m.XMLNs = m.XMLName.Space
				}
				if x := kit.Diff(m1, m, kit.EqOpts{Names: true, Decls: true}); x != "" {
					r.Fatalf("reading from string and way %d (%s) differ at %s\n%q", i, how, x, s)
				}
			}
		} else {
			if m1 != nil || m2 != nil || m3 != nil {
				r.Fatalf("an MPD is returned together with error %v", err1)
			}
			c.Label("rejected")
		}
		// A read error is reported as such.
		k := r.N(len(s) + 1)
		if root := strings.LastIndex(s, "</"); !bad && k < root {
			rd, how = drawReader(r, s[:k], errInjected)
			if err := fork.NewDecoder(rd).Decode(&mpd.MPD{}); !errors.Is(err, errInjected) {
				r.Fatalf("%s: read error after %d bytes is reported as %v\n%q", how, k, err, s)
			}
		}
		if _, err := mpd.ReadFromFile(filepath.Join(os.TempDir(), "does-not-exist")); !errors.Is(err, os.ErrNotExist) {
			r.Fatalf("reading a missing file: %v", err)
		}
		c.Key(s)
		c.NonTrivial(!bad)
		c.Label("way:%s", how)
		c.Sample(func() string { return s })
	})
}
