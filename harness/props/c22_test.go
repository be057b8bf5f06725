package props

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"

	"verif/harness/kit"
	"verif/harness/xt"
)

// unescape decodes the references of escaped text by the XML rules.
func unescape(r failer, s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); {
		if s[i] != '&' {
			sb.WriteByte(s[i])
			i++
			continue
		}
		j := strings.IndexByte(s[i:], ';')
		if j < 0 {
			r.Fatalf("stray & in %q", s)
		}
		ref := s[i+1 : i+j]
		i += j + 1
		switch ref {
		case "lt":
			sb.WriteByte('<')
		case "gt":
			sb.WriteByte('>')
		case "amp":
			sb.WriteByte('&')
		case "quot":
			sb.WriteByte('"')
		case "apos":
			sb.WriteByte('\'')
		default:
			var c rune
			var err error
			if strings.HasPrefix(ref, "#x") {
				_, err = fmt.Sscanf(ref[2:], "%x", &c)
			} else {
				_, err = fmt.Sscanf(ref, "#%d", &c)
			}
			if err != nil || !kit.Legal(c) {
				r.Fatalf("bad reference &%s; in %q", ref, s)
			}
			sb.WriteRune(c)
		}
	}
	return sb.String()
}

func checkEscape(r failer, s string) string {
	want := kit.Sanitize(s)
	var b bytes.Buffer
	if err := xml.EscapeText(&b, []byte(s)); err != nil {
		r.Fatalf("EscapeText failed: %v", err)
	}
	esc := b.String()
	if strings.ContainsAny(esc, "<>\"'\r") {
		r.Fatalf("escaped form %q of %q has a special character", esc, s)
	}
	if !utf8.ValidString(esc) {
		r.Fatalf("escaped form %q of %q is not UTF-8", esc, s)
	}
	if got := unescape(r, esc); got != want {
		r.Fatalf("escaped form %q of %q decodes to %q, want %q", esc, s, got, want)
	}
	var b2 bytes.Buffer
	xml.Escape(&b2, []byte(s))
	if b2.String() != esc {
		r.Fatalf("Escape gives %q, EscapeText gives %q", b2.String(), esc)
	}
	return esc
}

func checkInMPD(r failer, s string) {
	want := kit.Sanitize(s)
	m := &mpd.MPD{XMLNs: mpd.DASH_NAMESPACE, Id: "x" + s, Profiles: mpd.ListOfProfilesType(s), BaseURL: []*mpd.BaseURLType{{Value: mpd.AnyURI(s), ServiceLocation: s + "y"}},
		ProgramInformation: []*mpd.ProgramInformationType{{Title: s + "z"}}}
	out, err := m.WriteToString("", false)
	if err != nil {
		r.Fatalf("write failed: %v", err)
	}
	d, err := xt.ParseString(out)
	if err != nil {
		r.Fatalf("not well-formed with %q: %v", s, err)
	}
	n := d.Root
	chk := func(what, got, want string) {
		if got != want {
			r.Fatalf("%s of %q is written such that it parses as %q, want %q", what, s, got, want)
		}
	}
	id, _ := n.Attr("", "id")
	chk("MPD@id", id, "x"+want)
	pr, _ := n.Attr("", "profiles")
	chk("MPD@profiles", pr, want)
	es := n.Elems()
	if len(es) != 2 || es[1].Local != "BaseURL" {
		r.Fatalf("structure of MPD with %q: %s", s, out)
	}
	sl, _ := es[1].Attr("", "serviceLocation")
	chk("BaseURL@serviceLocation", sl, want+"y")
	chk("BaseURL", es[1].Text(), want)
	if ti := es[0].Elems(); len(ti) != 1 || ti[0].Text() != want+"z" {
		r.Fatalf("Title of %q is wrong: %s", s, out)
	}
	b, err := mpd.ReadFromString(out)
	if err != nil {
		r.Fatalf("cannot be read: %v\n%s", err, out)
	}
	chk("MPD@id read back", b.Id, "x"+want)
	chk("BaseURL read back", string(b.BaseURL[0].Value), want)
	chk("Title read back", b.ProgramInformation[0].Title, want+"z")
	chk("serviceLocation read back", b.BaseURL[0].ServiceLocation, want+"y")
}

// TestC22 escapes arbitrary strings.
func TestC22(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		s := r.RawStr()
		if r.N(10) == 9 { // across the writer's buffer
			s = strings.Repeat("p", r.In(3900, 4200)) + s + strings.Repeat("é", r.N(50))
		}
		if r.N(10) == 8 {
			s = r.Str()
		}
		c.Input(s)
		esc := checkEscape(r, s)
		checkInMPD(r, s)
		// Concatenation, except inside a broken character.
		if a := r.N(len(s) + 1); utf8.ValidString(s[:a]) {
			if got := checkEscape(r, s[:a]) + checkEscape(r, s[a:]); utf8.ValidString(s) && got != esc {
				r.Fatalf("%q escapes to %q as a whole, but to %q in parts", s, esc, got)
			}
		}
		// A writer that fails: the error is reported.
		k := r.N(len(esc) + 1)
		w := &failWriter{limit: k}
		if err := xml.EscapeText(w, []byte(s)); (err != nil) != (k < len(esc)) || string(w.got) != esc[:k] {
			r.Fatalf("EscapeText of %q to a writer that takes %d of %d bytes: %v, wrote %q", s, k, len(esc), err, w.got)
		}
		c.Key(s)
		c.NonTrivial(esc != s)
		c.Label("changed:%v", esc != s)
		c.Sample(func() string { return fmt.Sprintf("%q -> %q", s, esc) })
	})
}

// failWriter accepts limit bytes.
type failWriter struct {
	limit int
	got   []byte
}

func (w *failWriter) Write(p []byte) (int, error) {
	n := min(len(p), w.limit-len(w.got))
	w.got = append(w.got, p[:n]...)
	if n < len(p) {
		return n, errInjected
	}
	return n, nil
}

// TestC22_all covers every code point and every sequence of two bytes.
func TestC22_all(t *testing.T) {
	const block = 256
	nb := 0x110000/block + 8 + 256
	kit.Enum(t, nb, func(t *testing.T, i int, c *kit.Case) {
		var sb strings.Builder
		one := func(s string) {
			checkEscape(t, s)
			sb.WriteString("." + s)
		}
		if i < 0x110000/block+8 {
			for j := range block {
				c := rune(i*block + j)
				if c >= 0xd800 && c < 0xe000 || c > 0x10ffff { // also encoded surrogates and beyond the range
					one(string([]byte{0xe0 | byte(c>>12&15), 0x80 | byte(c>>6&63), 0x80 | byte(c&63)}))
					one(string([]byte{0xf0 | byte(c>>18&7), 0x80 | byte(c>>12&63), 0x80 | byte(c>>6&63), 0x80 | byte(c&63)}))
					continue
				}
				one(string(c))
			}
		} else {
			a := byte(i - 0x110000/block - 8)
			for b := range 256 {
				one(string([]byte{a, byte(b)}))
				one(string([]byte{a, byte(b), 0x80, 'x'}))
			}
		}
		checkInMPD(t, sb.String())
		c.Key("block", fmt.Sprint(i))
		c.NonTrivial(true)
		c.Label("exhaustive block")
	})
}
