package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"testing"
	"time"
	"weak"

	"github.com/Eyevinn/dash-mpd/mpd"
	fork "github.com/Eyevinn/dash-mpd/xml"

	"verif/harness/kit"
)

func heap() int64 {
	runtime.GC()
	runtime.GC() // what pools hold is gone after the second
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc)
}

// history produces documents in which nothing repeats but for the structure.
type history struct {
	rnd  *rand.Rand
	kind int
	size int // parts of a document
	n    int
}

var historyKinds = []string{"attribute values", "texts", "unknown names", "unknown attributes", "namespaces", "prefixes", "Ext content", "events", "mixed", "rejected", "comments"}

func (h *history) word() string {
	h.n++
	return fmt.Sprintf("w%x-%x", h.rnd.Uint64(), h.n)
}

// doc gives a document with h.size parts of about 100 bytes.
func (h *history) doc() string {
	var sb strings.Builder
	kind := h.kind
	sb.WriteString(`<MPD xmlns="urn:mpeg:dash:schema:mpd:2011"><Period id="p">`)
	shut := `</Period></MPD>`
	for range h.size {
		if h.kind == 8 {
			kind = h.rnd.Intn(8)
		}
		w, v := h.word(), h.word()
		switch kind {
		case 0, 9:
			fmt.Fprintf(&sb, `<AdaptationSet contentType="%s" mimeType="%s"><ContentProtection schemeIdUri="%s"/></AdaptationSet>`, w, v, w)
		case 1:
			fmt.Fprintf(&sb, `<BaseURL>%s&amp;%s</BaseURL>`, w, v)
		case 2:
			fmt.Fprintf(&sb, `<%s><%s/></%s>`, w, v, w)
		case 3:
			fmt.Fprintf(&sb, `<AdaptationSet %s="1" %s="2"/>`, w, v)
		case 4:
			fmt.Fprintf(&sb, `<x:u xmlns:x="urn:%s"><v xmlns="%s" x:a="1"/></x:u>`, w, v)
		case 5:
			fmt.Fprintf(&sb, `<%s:u xmlns:%s="urn:x" %s:k="1"><%s:v/></%s:u>`, w, w, w, w, w)
		case 6:
			fmt.Fprintf(&sb, `<EventStream schemeIdUri="s"><Event><SpliceInfoSection xmlns="http://www.scte.org/schemas/35"><Ext><%s k="%s"/></Ext></SpliceInfoSection></Event></EventStream>`, w, v)
		case 7:
			fmt.Fprintf(&sb, `<EventStream schemeIdUri="%s"><Event messageData="%s">%s</Event></EventStream>`, w, v, w)
		case 10:
			fmt.Fprintf(&sb, `<!-- %s --><?%s %s?>`, w, w, v)
		}
	}
	if h.kind == 9 {
		shut = []string{"", "</Period>", "</MPD>", "<", "&bad;" + shut, "</" + h.word() + ">", `<Period duration="` + h.word() + `"/>` + shut}[h.rnd.Intn(7)]
	}
	return sb.String() + shut
}

// freeStruct takes in any document.
type freeStruct struct {
	XMLName fork.Name
	Attrs   []fork.Attr  `xml:",any,attr"`
	Kids    []freeStruct `xml:",any"`
	Text    string       `xml:",chardata"`
}

// feed is a reader without an end.
type feed struct {
	h    *history
	rest string
	left int
}

func (f *feed) Read(p []byte) (int, error) {
	if f.rest == "" {
		if f.left == 0 {
			return 0, io.EOF
		}
		f.left--
		f.rest = f.h.doc()
	}
	n := copy(p, f.rest)
	f.rest = f.rest[n:]
	return n, nil
}

// TestC35_memory works through a history of documents in which no value
// comes twice, dropping each, and measures what stays.
func TestC35_memory(t *testing.T) {
	kit.Check(t, 0.3, func(r kit.R, c *kit.Case) {
		h := &history{rnd: rand.New(rand.NewSource(int64(r.Bits(32)))), kind: r.N(len(historyKinds)), size: r.Pick2(100, 10, 1)}
		use := r.N(7)
		if h.kind == 9 && use > 2 {
			use = r.N(3)
		}
		names := []string{"read", "read as tokens", "read into other types", "read, written and cloned", "written by one encoder", "read by one decoder", "values encoded"}
		batch := 2500 / h.size // documents
		what := fmt.Sprintf("%s: %s, %d a document", names[use], historyKinds[h.kind], h.size)
		c.Input(what)
		enc := fork.NewEncoder(io.Discard)
		pooled := r.B()
		var dec *fork.Decoder
		var in *feed
		bytesIn := int64(0)
		var failure string
		step := func() {
			s := ""
			if use != 5 {
				s = h.doc()
				bytesIn += int64(len(s))
			}
			switch use {
			case 0:
				m, err := mpd.ReadFromString(s)
				if h.kind != 9 && err != nil {
					failure = err.Error()
				}
				_ = m
			case 1:
				d := fork.NewDecoder(strings.NewReader(s))
				for {
					if _, err := d.Token(); err != nil {
						break
					}
				}
			case 2:
				var v freeStruct
				_ = fork.Unmarshal([]byte(s), &v)
			case 3, 4, 6:
				m, err := mpd.ReadFromString(s)
				if err != nil {
					failure = err.Error()
					return
				}
				if use == 3 {
					m = mpd.Clone(m)
					_, err = m.WriteToString("", pooled)
				} else if use == 4 {
					err = enc.Encode(m)
				} else {
					var v freeStruct
					_ = fork.Unmarshal([]byte(s), &v)
					e := enc
					if pooled {
						e = fork.AcquireEncoder(io.Discard)
						defer fork.ReleaseEncoder(e)
					}
					err = e.EncodeElement(&v, fork.StartElement{Name: fork.Name{Space: "urn:" + h.word(), Local: h.word()}, Attr: []fork.Attr{{Name: fork.Name{Space: "urn:" + h.word(), Local: "a"}, Value: "1"}}})
				}
				if err != nil {
					failure = err.Error()
				}
			case 5:
				if in == nil {
					in = &feed{h: h, left: 1 << 30}
					dec = fork.NewDecoder(in)
				}
				for depth := 0; ; {
					tok, err := dec.Token()
					if err != nil {
						failure = err.Error()
						return
					}
					switch tok.(type) {
					case fork.StartElement:
						depth++
					case fork.EndElement:
						depth--
						if depth == 0 {
							bytesIn += int64(150 + 100*h.size)
							return
						}
					}
				}
			}
		}
		run := func(n int) {
			for range n {
				step()
			}
		}
		run(2 * batch) // what is allowed to be kept is kept now
		if failure != "" {
			r.Fatalf("%s: %s", what, failure)
		}
		h0 := heap()
		bytesIn = 0
		run(batch)
		h1 := heap()
		grown := h1 - h0
		total := bytesIn
		// Growth must go on as long as the history does.
		for try := 0; try < 3 && grown > total/20; try++ {
			bytesIn = 0
			h0 = heap()
			run(4 * batch)
			grown, total = heap()-h0, bytesIn
		}
		runtime.KeepAlive(enc)
		runtime.KeepAlive(dec)
		runtime.KeepAlive(in)
		if failure != "" {
			r.Fatalf("%s: %s", what, failure)
		}
		if grown > total/20 {
			r.Fatalf("%s: after working through %d bytes of documents, all dropped, %d bytes more are in use", what, total, grown)
		}
		c.Key(what, fmt.Sprint(pooled, h.n, h.rnd.Int63()))
		c.NonTrivial(true)
		c.Label("history:%s", names[use])
		c.Label("of:%s", historyKinds[h.kind])
		c.Sample(func() string {
			return fmt.Sprintf("%s: %d bytes in the last batch, %d bytes more in use", what, total, grown)
		})
	})
}

// TestC35_kept reads large documents with little content and keeps the results.
func TestC35_kept(t *testing.T) {
	kit.Check(t, 0.3, func(r kit.R, c *kit.Case) {
		pad := strings.Repeat(r.Pick("x", "é", "- ", "&amp;", "<a/>", "\n"), r.In(20000, 100000))
		where := r.N(6)
		id := r.Pick("some id", "an id of some length that is kept", "x", "a&amp;b")
		ext := ""
		if r.B() {
			ext = `<EventStream schemeIdUri="s"><Event id="7">text<SpliceInfoSection xmlns="http://www.scte.org/schemas/35" tier="1"><Ext><e k="1">v</e></Ext></SpliceInfoSection></Event></EventStream>`
		}
		src := `<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" id="` + id + `"`
		end := `<Period id="` + id + `">` + ext + `<BaseURL>http://h/` + id + `</BaseURL></Period></MPD>`
		switch where {
		case 0:
			src += "><!-- " + strings.ReplaceAll(pad, "-", "") + "-->" + end
		case 1:
			src += "><unknown>" + pad + "</unknown>" + end
		case 2:
			src += ` unknown="` + strings.ReplaceAll(pad, "<a/>", "x") + `">` + end
		case 3:
			src += "><?pi " + pad + "?>" + end
		case 4:
			src += ">" + strings.ReplaceAll(pad, "<a/>", "x") + end
		case 5:
			src += ">" + end + "<!-- " + strings.ReplaceAll(pad, "-", "") + "-->"
		}
		c.Input(src)
		const n = 20
		kept := make([]any, n)
		how := r.N(4)
		h0 := heap()
		for i := range kept {
			switch how {
			case 0:
				kept[i] = mustRead(r, src)
			case 1:
				m, err := mpd.MPDFromBytes([]byte(src))
				if err != nil {
					r.Fatalf("rejected: %v\n%s", err, src)
				}
				kept[i] = mpd.Clone(m)
			case 2:
				v := &mpd.MPD{}
				if err := fork.NewDecoder(strings.NewReader(strings.Clone(src))).Decode(v); err != nil {
					r.Fatalf("rejected: %v\n%s", err, src)
				}
				kept[i] = v
			case 3:
				m := mustRead(r, src)
				if len(m.Periods[0].EventStreams) > 0 {
					kept[i] = m.Periods[0].EventStreams[0].Events[0].SpliceInfo()
				} else {
					kept[i] = []string{m.Id, string(m.Periods[0].BaseURLs[0].Value)}
				}
			}
		}
		grown := heap() - h0
		runtime.KeepAlive(kept)
		// What is kept has some kilobytes at most.
		if grown > int64(n*len(src)/4+100000) {
			r.Fatalf("%d small results of documents of %d bytes (padding at %d, kept as %d) hold %d bytes", n, len(src), where, how, grown)
		}
		c.Key(fmt.Sprint(where, how, len(src), id, ext != ""))
		c.NonTrivial(true)
		c.Label("results kept")
		c.Sample(func() string {
			return fmt.Sprintf("%d results of %d byte documents hold %d bytes", n, len(src), grown)
		})
	})
}

type heldWriter struct {
	buf  [64]byte
	left int
	err  error
	sb   strings.Builder
}

func (w *heldWriter) Write(p []byte) (int, error) {
	if w.left < len(p) {
		return 0, w.err
	}
	w.left -= len(p)
	return w.sb.Write(p)
}

type heldReader struct {
	buf [64]byte
	*strings.Reader
}

type heldValue struct {
	XMLName fork.Name `xml:"v"`
	A       string    `xml:"urn:a a,attr"`
	M       *mpd.MPD  `xml:"m"`
	S       []string  `xml:"s"`
}

var errHeld = errors.New("held")

// TestC35_collected drops what an operation was given and looks whether it is collected.
func TestC35_collected(t *testing.T) {
	kit.Check(t, 6, func(r kit.R, c *kit.Case) {
		d := drawDoc(r, "all", nil, kit.DocOpts{})
		src := plain(d)
		indent := drawIndent(r)
		header := r.B()
		limit := 1 << 30
		if r.N(3) == 2 {
			limit = r.N(2 * len(src))
		}
		op := r.N(8)
		ops := []string{"released encoder", "released encoder, tokens", "Write", "Period.Write", "Clone", "decoder", "Unmarshal of bytes", "Escape"}
		c.Input(ops[op] + "\n" + src)
		held := map[string]func() bool{}
		var keep any
		// All that is to be collected is local to this function.
		func() {
			w := &heldWriter{left: limit, err: errHeld}
			ww := weak.Make(w)
			held["writer"] = func() bool { return ww.Value() != nil }
			m := mustRead(r, src)
			mw := weak.Make(m)
			held["document"] = func() bool { return mw.Value() != nil }
			v := &heldValue{A: "x", M: m, S: []string{"a"}}
			vw := weak.Make(v)
			held["value"] = func() bool { return vw.Value() != nil }
			switch op {
			case 0, 1:
				enc := fork.AcquireEncoder(w)
				if r.B() {
					enc.Indent("", indent)
				}
				if op == 0 {
					_ = enc.Encode(v)
				} else {
					_ = enc.EncodeToken(fork.StartElement{Name: fork.Name{Space: "urn:q", Local: "q"}})
					_ = enc.EncodeToken(fork.CharData("text"))
					if r.B() {
						_ = enc.EncodeElement(v, fork.StartElement{Name: fork.Name{Local: "z"}})
					}
					if r.B() {
						_ = enc.Flush()
					}
					if r.B() {
						_ = enc.Close()
					}
				}
				fork.ReleaseEncoder(enc)
				keep = enc
			case 2:
				_, _ = m.Write(w, indent, header)
			case 3:
				for _, p := range m.Periods {
					_, _ = p.Write(w, indent)
				}
			case 4:
				keep = mpd.Clone(m)
			case 5:
				rd := &heldReader{Reader: strings.NewReader(src)}
				rw := weak.Make(rd)
				held["reader"] = func() bool { return rw.Value() != nil }
				m2 := &mpd.MPD{}
				_ = fork.NewDecoder(rd).Decode(m2)
				keep = m2
			case 6:
				b := []byte(src)
				if len(b) > 64 {
					bw := weak.Make(&b[0])
					held["bytes"] = func() bool { return bw.Value() != nil }
				}
				m2, _ := mpd.MPDFromBytes(b)
				keep = m2
			case 7:
				_ = fork.EscapeText(w, []byte(src))
				fork.Escape(w, []byte(src))
			}
			_ = answers(m)
		}()
		var still []string
		for try := 0; ; try++ {
			runtime.GC()
			still = nil
			for name, f := range held {
				if f() {
					still = append(still, name)
				}
			}
			if len(still) == 0 || try == 4 {
				break
			}
			if try > 0 {
				time.Sleep(time.Millisecond << try)
			}
		}
		runtime.KeepAlive(keep)
		if len(still) > 0 {
			r.Fatalf("%s: the %s still in use after all was dropped (limit %d)\n%s", ops[op], strings.Join(still, " and the "), limit, src)
		}
		c.Key(ops[op], src)
		c.NonTrivial(true)
		c.Label("dropped:%s", ops[op])
		c.Sample(func() string { return ops[op] + "\n" + src })
	})
}

// openFiles counts the descriptors below dir.
func openFiles(dir string) (n int, names []string) {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0, nil
	}
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && (l == dir || strings.HasPrefix(l, dir+"/")) {
			n++
			names = append(names, l)
		}
	}
	return
}

// TestC35_files reads files of all sorts and looks for what stays open.
func TestC35_files(t *testing.T) {
	dir := t.TempDir()
	if d, err := filepath.EvalSymlinks(dir); err == nil {
		dir = d
	}
	routines := runtime.NumGoroutine()
	kit.Check(t, 4, func(r kit.R, c *kit.Case) {
		d := drawDoc(r, "all", nil, kit.DocOpts{})
		src := plain(d)
		path := filepath.Join(dir, r.Pick("a.mpd", "b", "ü.xml"))
		what := ""
		switch r.N(8) {
		case 0:
			src, what = src[:r.N(len(src))], "cut off"
		case 1:
			src, what = "", "empty"
		case 2:
			src, what = mutateBytes(r, src), "damaged"
		case 3:
			src, what = src+strings.Repeat(" ", r.In(1, 300000)), "long"
		case 4:
			path, what = dir, "directory"
		case 5:
			path, what = filepath.Join(dir, "missing", "x"), "missing"
		case 6:
			src, what = strings.Repeat("\x00", r.In(1, 5000)), "zeros"
		default:
			what = "good"
		}
		c.Input(what + "\n" + src)
		if what != "directory" && what != "missing" {
			if err := os.WriteFile(path, []byte(src), 0o600); err != nil {
				t.Skip(err)
			}
		}
		// A file that is left open must not be closed by its finalizer.
		old := debug.SetGCPercent(-1)
		defer debug.SetGCPercent(old)
		n := r.In(1, 4)
		for range n {
			_, err := mpd.ReadFromFile(path)
			if what == "good" && err != nil {
				r.Fatalf("rejected: %v\n%s", err, src)
			}
			if (what == "directory" || what == "missing" || what == "empty" || what == "zeros") && err == nil {
				r.Fatalf("%s: accepted", what)
			}
		}
		if k, names := openFiles(dir); k > 0 {
			r.Fatalf("%s: after %d calls to ReadFromFile %d files are open: %q\n%s", what, n, k, names, src)
		}
		now := 0
		for try := range 8 {
			if now = runtime.NumGoroutine(); now <= routines {
				break
			}
			time.Sleep(time.Millisecond << try)
		}
		if now > routines {
			r.Fatalf("%s: there were %d goroutines, now there are %d", what, routines, now)
		}
		c.Key(what, src)
		c.NonTrivial(true)
		c.Label("file:%s", what)
		c.Sample(func() string { return what + "\n" + src })
	})
}

// TestC35_goroutines runs all sorts of operations and counts goroutines.
func TestC35_goroutines(t *testing.T) {
	routines := runtime.NumGoroutine()
	kit.Check(t, 4, func(r kit.R, c *kit.Case) {
		d := drawDoc(r, "all", nil, kit.DocOpts{})
		src := plain(d)
		c.Input(src)
		bad := src
		if r.B() {
			bad = mutateBytes(r, src)
		}
		for range 3 {
			m, err := mpd.ReadFromString(bad)
			dec := fork.NewDecoder(&chunks{s: bad, r: r, mode: 1 + r.N(2), err: errInjected})
			for range r.N(20) {
				if _, err := dec.Token(); err != nil {
					break
				}
			}
			_ = dec.Decode(&mpd.MPD{})
			if err != nil {
				continue
			}
			w := &heldWriter{left: r.Size(2 * len(src)), err: errHeld}
			_, _ = m.Write(w, drawIndent(r), r.B())
			_, _ = mpd.Clone(m).WriteToString("", false)
			_ = answers(m)
			b, _ := fork.MarshalIndent(m, "", " ")
			fork.Escape(io.Discard, b)
			_ = bytes.NewReader(b)
		}
		now := 0
		for try := range 9 {
			if now = runtime.NumGoroutine(); now <= routines {
				break
			}
			time.Sleep(time.Millisecond << try)
		}
		if now > routines {
			r.Fatalf("there were %d goroutines, now there are %d\n%s", routines, now, src)
		}
		c.Key("goroutines", bad)
		c.NonTrivial(true)
		c.Label("goroutines")
		c.Sample(func() string { return bad })
	})
}
