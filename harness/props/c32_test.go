package props

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"
	fork "github.com/Eyevinn/dash-mpd/xml"

	"verif/harness/kit"
	"verif/harness/xt"
)

// reuse is a reader that overwrites what it gave before.
type reuse struct {
	s    []byte
	last []byte
	n    int
}

func (u *reuse) Read(p []byte) (int, error) {
	for i := range u.last {
		u.last[i] = '#'
	}
	if len(u.s) == 0 {
		return 0, io.EOF
	}
	n := copy(p, u.s[:min(u.n, len(u.s))])
	u.s = u.s[n:]
	u.last = p[:n]
	return n, nil
}

type own32 struct {
	XMLName fork.Name
	Attrs   []fork.Attr `xml:",any,attr"`
	Text    string      `xml:",chardata"`
	Comment string      `xml:",comment"`
	Inner   []byte      `xml:",innerxml"`
	Kids    []own32     `xml:",any"`
}

type own32b struct {
	XMLName fork.Name
	Attrs   []fork.Attr `xml:",any,attr"`
	Text    []byte      `xml:",chardata"`
	Comment []byte      `xml:",comment"`
	Inner   string      `xml:",innerxml"`
	Kids    []*own32b   `xml:",any"`
}

type leafB struct {
	Name    fork.Name `xml:"-"`
	A       []byte    `xml:"id,attr"`
	Text    []byte    `xml:",chardata"`
	Comment []byte    `xml:",comment"`
	Inner   []byte    `xml:",innerxml"`
}

type leafS struct {
	Name    fork.Name `xml:"-"`
	A       string    `xml:"id,attr"`
	Text    string    `xml:",chardata"`
	Comment string    `xml:",comment"`
	Inner   string    `xml:",innerxml"`
}

// nextStart reads up to the next start element.
func nextStart(d *fork.Decoder) (fork.StartElement, error) {
	for {
		tok, err := d.Token()
		if err != nil {
			return fork.StartElement{}, err
		}
		if st, ok := tok.(fork.StartElement); ok {
			return st.Copy(), nil
		}
	}
}

// TestC32 keeps results while the memory they came from is overwritten and other work is done.
func TestC32(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		type kept struct {
			what string
			now  func() string
			was  string
		}
		var all []kept
		keep := func(what string, now func() string) { all = append(all, kept{what, now, now()}) }
		check := func(after string) {
			for _, k := range all {
				if s := k.now(); s != k.was {
					r.Fatalf("%s changed by: %s\n%s", k.what, after, firstDiff(k.was, s))
				}
			}
		}
		var docs []string
		for range 2 {
			d := drawDoc(r, "all", nil, kit.DocOpts{Foreign: r.B()})
			docs = append(docs, xt.Write(d.Root, kit.WildStyle(r, d.Root)))
		}
		docs = append(docs, kit.XMLText(r, kit.GenXML(r, kit.XMLOpts{Big: r.N(6) == 5})))
		if r.N(6) == 5 {
			docs[2] = manyNames(r)
		}
		hist := ""
		objs := []*mpd.MPD{}
		step := func() {
			s := docs[r.N(len(docs))]
			what := ""
			switch r.N(13) {
			case 12: // elements read one by one into byte slices
				b := []byte(s)
				var in io.Reader = bytes.NewReader(b)
				if r.B() {
					in = &reuse{s: b, n: r.In(1, 60)}
				}
				var leaves []*leafB
				var want []*leafS
				byOne := r.B()
				if byOne {
					d := fork.NewDecoder(in)
					if _, err := nextStart(d); err != nil {
						r.Fatalf("cannot be read: %v\n%s", err, s)
					}
					for {
						st, err := nextStart(d)
						if err == io.EOF {
							break
						}
						if err != nil {
							r.Fatalf("cannot be read: %v\n%s", err, s)
						}
						if r.N(3) == 2 {
							continue // its children are read one by one
						}
						l := &leafB{}
						if err := d.DecodeElement(l, &st); err != nil {
							r.Fatalf("cannot be read: %v\n%s", err, s)
						}
						leaves = append(leaves, l)
						w := &leafS{Name: l.Name, Inner: string(l.Inner), Text: string(l.Text), Comment: string(l.Comment), A: string(l.A)}
						want = append(want, w)
					}
				} else {
					var v1 struct {
						Kids []*leafB `xml:",any"`
					}
					var v2 struct {
						Kids []*leafS `xml:",any"`
					}
					if err := fork.NewDecoder(in).Decode(&v1); err != nil {
						r.Fatalf("cannot be read: %v\n%s", err, s)
					}
					if err := fork.Unmarshal([]byte(s), &v2); err != nil {
						r.Fatalf("cannot be read: %v\n%s", err, s)
					}
					leaves, want = v1.Kids, v2.Kids
				}
				over(b)
				if len(leaves) != len(want) {
					r.Fatalf("%d elements read into byte slices and %d into strings\n%s", len(leaves), len(want), s)
				}
				for i, l := range leaves {
					w := want[i]
					if l.Name != w.Name || string(l.Inner) != w.Inner || string(l.Text) != w.Text || string(l.Comment) != w.Comment || string(l.A) != w.A {
						r.Fatalf("element %d read into byte slices (one by one: %v) has %q, was or should be %q\n%s", i, byOne, *l, *w, s)
					}
				}
				what = "elements"
				keep("the elements read into byte slices", func() string {
					var sb strings.Builder
					for _, l := range leaves {
						fmt.Fprintf(&sb, "%q\n", *l)
					}
					return sb.String()
				})
			case 0, 1: // an MPD from bytes that are overwritten
				s = docs[r.N(2)]
				b := []byte(s)
				m, err := mpd.MPDFromBytes(b)
				if err != nil {
					r.Fatalf("cannot be read: %v\n%s", err, s)
				}
				what = "MPDFromBytes"
				keep("the MPD read by "+what, func() string { return kit.Dump(m) })
				objs = append(objs, m)
				for i := range b {
					b[i] = '#'
				}
			case 2: // an object from a reader with reused memory
				m := &mpd.MPD{}
				if err := fork.NewDecoder(&reuse{s: []byte(docs[r.N(2)]), n: r.Pick2(1, r.In(2, 100), 5000)}).Decode(m); err != nil {
					r.Fatalf("cannot be read: %v", err)
				}
				what = "Decode"
				keep("the MPD read by "+what, func() string { return kit.Dump(m) })
				objs = append(objs, m)
			case 3: // values of own types
				var v any = &own32{}
				if r.B() {
					v = &own32b{}
				}
				b := []byte(s)
				if err := fork.Unmarshal(b, v); err != nil {
					r.Fatalf("cannot be read: %v\n%s", err, s)
				}
				what = fmt.Sprintf("Unmarshal to %T", v)
				keep("the value read by "+what, func() string { return deep32(v) })
				for i := range b {
					b[i] = '#'
				}
			case 4, 5: // copied tokens, and the names and attributes of all
				b := []byte(s)
				var in io.Reader = bytes.NewReader(b)
				if r.B() {
					in = &reuse{s: b, n: r.In(1, 60)}
				}
				d := fork.NewDecoder(in)
				raw := r.B()
				var toks []fork.Token
				var then []string
				var copies []fork.StartElement
				for {
					var tok fork.Token
					var err error
					if raw {
						tok, err = d.RawToken()
					} else {
						tok, err = d.Token()
					}
					if err == io.EOF {
						break
					}
					if err != nil {
						r.Fatalf("cannot be read: %v\n%s", err, s)
					}
					if st, ok := tok.(fork.StartElement); ok {
						copies = append(copies, st.Copy())
						if r.N(4) == 3 {
							for i := range st.Attr {
								st.Attr[i] = fork.Attr{Name: fork.Name{Local: "overwritten"}, Value: "overwritten"}
							}
						}
					}
					toks = append(toks, fork.CopyToken(tok))
					then = append(then, fmt.Sprintf("%q", toks[len(toks)-1]))
				}
				for i, tok := range toks {
					if now := fmt.Sprintf("%q", tok); now != then[i] {
						r.Fatalf("copied token %d was %s and is %s after reading on\n%q", i, then[i], now, s)
					}
				}
				what = "tokens"
				keep("the copied tokens", func() string { return fmt.Sprintf("%q", toks) })
				keep("the copied start elements", func() string { return fmt.Sprintf("%q", copies) })
				for i := range b {
					b[i] = '#'
				}
				// A copy does not share with the token it was made of.
				for _, tok := range toks {
					cp := fork.CopyToken(tok)
					str := fmt.Sprintf("%q", cp)
					switch x := tok.(type) {
					case fork.CharData:
						over(x)
					case fork.Comment:
						over(x)
					case fork.Directive:
						over(x)
					case fork.ProcInst:
						over(x.Inst)
					case fork.StartElement:
						for i := range x.Attr {
							x.Attr[i].Value = "overwritten"
						}
					}
					if str != fmt.Sprintf("%q", cp) {
						r.Fatalf("a copied %T shares memory with the token: %s", tok, str)
					}
				}
				all[len(all)-2].was = all[len(all)-2].now()
			case 6, 7: // written forms
				if len(objs) == 0 {
					return
				}
				m := objs[r.N(len(objs))]
				ind, hdr := drawIndent(r), r.B()
				switch r.N(4) {
				case 0:
					b, err := fork.MarshalIndent(m, "", ind)
					if err != nil {
						r.Fatalf("MarshalIndent: %v", err)
					}
					what = "MarshalIndent"
					keep("the result of "+what, func() string { return string(b) })
				case 1:
					b, err := fork.Marshal(m)
					if err != nil {
						r.Fatalf("Marshal: %v", err)
					}
					what = "Marshal"
					keep("the result of "+what, func() string { return string(b) })
				case 2:
					b, err := m.WriteToString(ind, hdr)
					if err != nil {
						r.Fatalf("WriteToString: %v", err)
					}
					what = "WriteToString"
					keep("the result of "+what, func() string { return string(append([]byte(nil), b...)) })
				default:
					var b bytes.Buffer
					if _, err := m.Write(&b, ind, hdr); err != nil {
						r.Fatalf("Write: %v", err)
					}
					what = "Write"
					keep("the result of "+what, func() string { return b.String() })
				}
			case 8: // clones and queries
				if len(objs) == 0 {
					return
				}
				m := objs[r.N(len(objs))]
				cl := mpd.Clone(m)
				what = "Clone"
				keep("the clone", func() string { return kit.Dump(cl) })
				_ = answers(m)
			case 9: // a pooled encoder keeps nothing of the values
				var b bytes.Buffer
				e := fork.AcquireEncoder(&b)
				text := []byte(r.Str())
				if err := e.EncodeToken(fork.StartElement{Name: fork.Name{Local: "a"}}); err != nil {
					r.Fatalf("EncodeToken: %v", err)
				}
				want := bytes.NewBufferString("<a>")
				_ = fork.EscapeText(want, text)
				if err := e.EncodeToken(fork.CharData(text)); err != nil {
					r.Fatalf("EncodeToken: %v", err)
				}
				over(text)
				_ = e.EncodeToken(fork.EndElement{Name: fork.Name{Local: "a"}})
				_ = e.Flush()
				fork.ReleaseEncoder(e)
				want.WriteString("</a>")
				if b.String() != want.String() {
					x, err := xt.ParseString(b.String())
					y, _ := xt.ParseString(want.String())
					if err != nil || xt.Dump(x.Root) != xt.Dump(y.Root) {
						r.Fatalf("written %q, not %q", b.String(), want.String())
					}
				}
				what = "EncodeToken"
				keep("the output of EncodeToken", func() string { return b.String() })
			case 10: // strings given by queries
				if len(objs) == 0 {
					return
				}
				m := objs[r.N(len(objs))]
				a := answers(m)
				what = "queries"
				keep("the answers", func() string { return string([]byte(a)) })
			default: // something that fails
				cut := s[:r.N(len(s))]
				_, _ = mpd.ReadFromString(cut)
				v := &own32{}
				_ = fork.Unmarshal([]byte(cut), v)
				what = "reading what is cut off"
				keep("the value of a failed read", func() string { return deep32(v) })
			}
			hist += what + "; "
			c.Input(hist)
			check(what)
		}
		for range r.In(2, 8) {
			step()
		}
		c.Key(strings.Join(docs, "\x00"), hist)
		c.NonTrivial(len(all) > 1)
		c.Label("kept results:%d", min(len(all), 5))
		c.Sample(func() string { return hist })
	})
}

func over(b []byte) {
	for i := range b {
		b[i] = '#'
	}
}

// deep32 shows a value with what its pointers lead to.
func deep32(v any) string {
	var sb strings.Builder
	deep32to(&sb, v, 0)
	return sb.String()
}

func deep32to(sb *strings.Builder, v any, depth int) {
	switch x := v.(type) {
	case *own32:
		fmt.Fprintf(sb, "(%q %q %q %q", x.XMLName, x.Attrs, x.Text, x.Comment)
		if depth < 3 {
			fmt.Fprintf(sb, " %q", x.Inner)
		}
		for i := range x.Kids {
			deep32to(sb, &x.Kids[i], depth+1)
		}
	case *own32b:
		fmt.Fprintf(sb, "(%q %q %q %q", x.XMLName, x.Attrs, x.Text, x.Comment)
		if depth < 3 {
			fmt.Fprintf(sb, " %q", x.Inner)
		}
		for _, k := range x.Kids {
			deep32to(sb, k, depth+1)
		}
	}
	sb.WriteByte(')')
}

// manyNames is a document with more different names than the decoder remembers.
func manyNames(r kit.R) string {
	var sb strings.Builder
	sb.WriteString("<root xmlns:p='urn:p'>")
	n, attrs := r.In(1000, 2500), r.B()
	for i := range n {
		if attrs && i%3 == 0 {
			fmt.Fprintf(&sb, "<e p:a%d='%d' b%d=''/>", i, i, n-i)
		} else {
			fmt.Fprintf(&sb, "<p:e%d>%d</p:e%d>", i, i, i)
		}
	}
	sb.WriteString("</root>")
	return sb.String()
}
