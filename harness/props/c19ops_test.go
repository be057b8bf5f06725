package props

import (
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"

	fork "github.com/Eyevinn/dash-mpd/xml"

	"verif/harness/kit"
)

type nodeF struct {
	XMLName fork.Name
	Attrs   []fork.Attr `xml:",any,attr"`
	Text    string      `xml:",chardata"`
	Note    string      `xml:",comment"`
	Kids    []*nodeF    `xml:",any"`
}
type nodeS struct {
	XMLName xml.Name
	Attrs   []xml.Attr `xml:",any,attr"`
	Text    string     `xml:",chardata"`
	Note    string     `xml:",comment"`
	Kids    []*nodeS   `xml:",any"`
}
type innerF struct {
	Inner string  `xml:",innerxml"`
	Kids  []nodeF `xml:",any"`
}
type innerS struct {
	Inner string  `xml:",innerxml"`
	Kids  []nodeS `xml:",any"`
}

// callF and callS are unmarshaled by further operations on the decoder.
type callF struct {
	log  []string
	plan []int
}
type callS struct {
	log  []string
	plan []int
}

func (x *callF) UnmarshalXML(d *fork.Decoder, start fork.StartElement) error {
	x.log = append(x.log, forkTok(start).String())
	for _, k := range x.plan {
		switch k {
		case 0, 1, 2:
			t, err := d.Token()
			if err != nil {
				return err
			}
			x.log = append(x.log, forkTok(t).String())
			if s, ok := t.(fork.StartElement); ok && k == 2 {
				var n nodeF
				if err := d.DecodeElement(&n, &s); err != nil {
					return err
				}
				x.log = append(x.log, "decoded "+n.XMLName.Local+n.Text)
			}
		case 3:
			if err := d.Skip(); err != nil {
				return err
			}
		case 4:
			_, err := d.RawToken()
			x.log = append(x.log, fmt.Sprint("raw ", err != nil))
		case 5:
			return errInjected
		case 6:
			var n nodeF
			if err := d.Decode(&n); err != nil {
				return err
			}
			x.log = append(x.log, "decoded "+n.XMLName.Local+n.Text)
		case 7:
			for {
				t, err := d.Token()
				if err != nil {
					return err
				}
				if e, ok := t.(fork.EndElement); ok && e.Name == start.Name {
					return nil
				}
			}
		}
	}
	return nil
}
func (x *callS) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	x.log = append(x.log, stdTok(start).String())
	for _, k := range x.plan {
		switch k {
		case 0, 1, 2:
			t, err := d.Token()
			if err != nil {
				return err
			}
			x.log = append(x.log, stdTok(t).String())
			if s, ok := t.(xml.StartElement); ok && k == 2 {
				var n nodeS
				if err := d.DecodeElement(&n, &s); err != nil {
					return err
				}
				x.log = append(x.log, "decoded "+n.XMLName.Local+n.Text)
			}
		case 3:
			if err := d.Skip(); err != nil {
				return err
			}
		case 4:
			_, err := d.RawToken()
			x.log = append(x.log, fmt.Sprint("raw ", err != nil))
		case 5:
			return errInjected
		case 6:
			var n nodeS
			if err := d.Decode(&n); err != nil {
				return err
			}
			x.log = append(x.log, "decoded "+n.XMLName.Local+n.Text)
		case 7:
			for {
				t, err := d.Token()
				if err != nil {
					return err
				}
				if e, ok := t.(xml.EndElement); ok && e.Name == start.Name {
					return nil
				}
			}
		}
	}
	return nil
}

// tokenList is a source of tokens with an end or an error, alone or together with the last token.
type tokenListF struct {
	t    []fork.Token
	i    int
	with bool
	err  error
}
type tokenListS struct {
	t    []xml.Token
	i    int
	with bool
	err  error
}

func (t *tokenListF) Token() (fork.Token, error) {
	if t.i >= len(t.t) {
		return nil, t.err
	}
	t.i++
	if t.with && t.i == len(t.t) {
		return t.t[t.i-1], t.err
	}
	return t.t[t.i-1], nil
}
func (t *tokenListS) Token() (xml.Token, error) {
	if t.i >= len(t.t) {
		return nil, t.err
	}
	t.i++
	if t.with && t.i == len(t.t) {
		return t.t[t.i-1], t.err
	}
	return t.t[t.i-1], nil
}

// drawTokens draws raw tokens which need not be balanced.
func drawTokens(r kit.R) ([]fork.Token, []xml.Token) {
	var f []fork.Token
	var s []xml.Token
	var open []xml.Name
	name := func() xml.Name {
		return xml.Name{Space: r.Pick("", "", "", "p", "q", "xml", "undeclared"), Local: r.Pick("a", "b", "c")}
	}
	n := r.Size(14)
	for range n {
		switch r.N(8) {
		case 0, 1, 2:
			st := xml.StartElement{Name: name()}
			seen := map[xml.Name]bool{}
			for range r.Size(3) {
				an := name()
				v := r.Pick("", "1", "v")
				switch r.N(4) {
				case 0:
					an, v = xml.Name{Local: "xmlns"}, r.Pick("urn:a", "urn:b", "")
				case 1:
					an, v = xml.Name{Space: "xmlns", Local: r.Pick("p", "q")}, r.Pick("urn:a", "urn:b")
				}
				if !seen[an] {
					seen[an] = true
					st.Attr = append(st.Attr, xml.Attr{Name: an, Value: v})
				}
			}
			open = append(open, st.Name)
			s = append(s, st)
		case 3, 4:
			if len(open) == 0 && r.N(4) != 3 {
				continue
			}
			e := name()
			if len(open) > 0 {
				if r.N(12) != 11 {
					e = open[len(open)-1]
				}
				open = open[:len(open)-1]
			}
			s = append(s, xml.EndElement{Name: e})
		case 5:
			s = append(s, xml.CharData(r.Str()))
		case 6:
			s = append(s, []xml.Token{xml.Comment("c"), xml.ProcInst{Target: "t", Inst: []byte("i")}, xml.Directive("D")}[r.N(3)])
		case 7:
			if r.N(6) == 5 {
				s = append(s, nil)
			}
		}
	}
	for r.N(5) != 4 && len(open) > 0 {
		s = append(s, xml.EndElement{Name: open[len(open)-1]})
		open = open[:len(open)-1]
	}
	for _, t := range s {
		switch x := t.(type) {
		case nil:
			f = append(f, nil)
		case xml.StartElement:
			y := fork.StartElement{Name: fork.Name(x.Name)}
			for _, a := range x.Attr {
				y.Attr = append(y.Attr, fork.Attr{Name: fork.Name(a.Name), Value: a.Value})
			}
			f = append(f, y)
		case xml.EndElement:
			f = append(f, fork.EndElement{Name: fork.Name(x.Name)})
		case xml.CharData:
			f = append(f, fork.CharData(x))
		case xml.Comment:
			f = append(f, fork.Comment(x))
		case xml.ProcInst:
			f = append(f, fork.ProcInst{Target: x.Target, Inst: x.Inst})
		case xml.Directive:
			f = append(f, fork.Directive(x))
		}
	}
	return f, s
}

// TestC19_ops runs the same history of decoder operations (tokens, raw tokens, skipping, decoding of elements, methods which
// do more of these) with the package and with encoding/xml, over text and over tokens.
func TestC19_ops(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		var d *fork.Decoder
		var e *xml.Decoder
		var in string
		intact := true
		if r.B() {
			in = kit.XMLText(r, kit.GenXML(r, kit.XMLOpts{}))
			if r.N(4) == 3 {
				in, intact = mutateBytes(r, in), false
			}
			if colonQuirk.MatchString(in) {
				c.Label("colons")
				return
			}
			d, e = fork.NewDecoder(strings.NewReader(in)), xml.NewDecoder(strings.NewReader(in))
			c.Label("text")
		} else {
			f, s := drawTokens(r)
			with, err := r.B(), []error{io.EOF, io.EOF, io.EOF, errInjected}[r.N(4)]
			d, e = fork.NewTokenDecoder(&tokenListF{t: f, with: with, err: err}), xml.NewTokenDecoder(&tokenListS{t: s, with: with, err: err})
			if r.N(8) == 7 {
				d, e = fork.NewTokenDecoder(d), xml.NewTokenDecoder(e)
			}
			in = fmt.Sprintf("%#v", s)
			c.Label("tokens")
		}
		// When not strict, a start tag may end with the input after an attribute; see C30 for that.
		if intact && r.N(6) == 5 {
			d.Strict, e.Strict = false, false
		}
		c.Input(in)
		var hist []string
		var lastF fork.Token
		var lastS xml.Token
		errs := 0
		for range r.In(1, 16) {
			var op string
			var err1, err2 error
			var p1, p2 any
			switch k := r.N(10); k {
			case 0, 1, 2, 3:
				op = "Token"
				err2, p2 = try(func() (err error) { lastS, err = e.Token(); return err })
				err1, p1 = try(func() (err error) { lastF, err = d.Token(); return err })
				if p1 == nil && p2 == nil && (lastF == nil) == (lastS == nil) && lastF != nil {
					lastF, lastS = fork.CopyToken(lastF), xml.CopyToken(lastS)
					a, b := forkTok(lastF), stdTok(lastS)
					b.name = strings.Replace(b.name, "{xmlns}", "{"+xmlnsURI+"}", 1)
					if a != b {
						r.Fatalf("after %v: token %v, encoding/xml %v\n%q", hist, a, b, in)
					}
				}
			case 4:
				op = "RawToken"
				var x fork.Token
				var y xml.Token
				err2, p2 = try(func() (err error) { y, err = e.RawToken(); return err })
				err1, p1 = try(func() (err error) { x, err = d.RawToken(); return err })
				if p1 == nil && p2 == nil && err1 == nil && err2 == nil && x != nil && y != nil {
					a, b := forkTok(x), stdTok(y)
					for _, t := range []*tok{&a, &b} {
						t.name = strings.Replace(t.name, "{xmlns}", "{"+xmlnsURI+"}", 1)
						t.rest = strings.ReplaceAll(t.rest, "{xmlns}", "{"+xmlnsURI+"}")
					}
					if a != b {
						r.Fatalf("after %v: raw token %v, encoding/xml %v\n%q", hist, a, b, in)
					}
				}
			case 5:
				op = "Skip"
				err2, p2 = try(e.Skip)
				err1, p1 = try(d.Skip)
			default:
				x, y := any(&nodeF{}), any(&nodeS{})
				op = "Decode"
				switch r.N(4) {
				case 0:
					x, y = &innerF{}, &innerS{}
					op += " inner"
				case 1:
					var plan []int
					for range r.Size(5) {
						plan = append(plan, r.N(8))
					}
					if r.B() {
						plan = append(plan, 7)
					}
					x, y = &callF{plan: plan}, &callS{plan: plan}
					op += fmt.Sprint(" calls ", plan)
				}
				var sf *fork.StartElement
				var ss *xml.StartElement
				if a, ok := lastF.(fork.StartElement); ok && r.B() {
					b, _ := lastS.(xml.StartElement)
					sf, ss = &a, &b
					op += " from start"
				}
				err2, p2 = try(func() error { return e.DecodeElement(y, ss) })
				err1, p1 = try(func() error { return d.DecodeElement(x, sf) })
				if p1 == nil && p2 == nil && err1 == nil && err2 == nil {
					if a, ok := x.(*callF); ok {
						b := y.(*callS)
						if g, w := fmt.Sprint(a.log), strings.ReplaceAll(fmt.Sprint(b.log), "{xmlns}", "{"+xmlnsURI+"}"); g != w {
							r.Fatalf("after %v %s: %s, encoding/xml %s\n%q", hist, op, g, w, in)
						}
					} else if df := diffTwin(reflect.ValueOf(x).Elem(), reflect.ValueOf(y).Elem(), ""); df != "" {
						r.Fatalf("after %v %s: %s\n%q", hist, op, df, in)
					}
				}
			}
			if p2 != nil {
				c.Label("encoding/xml panics")
				break
			}
			if p1 != nil {
				r.Fatalf("after %v: %s panics: %v\n%q", hist, op, p1, in)
			}
			if errKind(err1) != errKind(err2) || (err1 == io.EOF) != (err2 == io.EOF) || errors.Is(err1, errInjected) != errors.Is(err2, errInjected) {
				r.Fatalf("after %v: %s gives error %v, encoding/xml %v\n%q", hist, op, err1, err2, in)
			}
			if a, b := d.InputOffset(), e.InputOffset(); err1 == nil && a != b {
				r.Fatalf("after %v %s: at offset %d, encoding/xml at %d\n%q", hist, op, a, b, in)
			}
			a1, b1 := d.InputPos()
			a2, b2 := e.InputPos()
			if err1 == nil && (a1 != a2 || b1 != b2) {
				r.Fatalf("after %v %s: at %d:%d, encoding/xml at %d:%d\n%q", hist, op, a1, b1, a2, b2, in)
			}
			hist = append(hist, op)
			c.Label("op:%s", strings.Fields(op)[0])
			if err1 != nil {
				hist = append(hist, "failed")
				lastF, lastS = nil, nil
				if errs++; errs == 3 {
					break
				}
			}
		}
		c.Key(in, fmt.Sprint(hist))
		c.NonTrivial(len(hist) > 1)
		c.Sample(func() string { return fmt.Sprint(hist, "\n", in) })
	})
}
