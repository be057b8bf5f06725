package props

import (
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"regexp"
	"strings"
	"testing"
	"unicode/utf8"

	fork "github.com/Eyevinn/dash-mpd/xml"

	"verif/harness/kit"
	"verif/harness/xt"
)

// tok is a token in comparable form.
type tok struct {
	kind string
	name string
	rest string
	end  int // offset after the token
	line int
	col  int
}

func (t tok) String() string { return fmt.Sprintf("%s %s %.300q @%d", t.kind, t.name, t.rest, t.end) }

func attrStr(sb *strings.Builder, space, local, value string) {
	fmt.Fprintf(sb, "[{%s}%s=%s]", space, local, value)
}

const xmlnsURI = "http://www.w3.org/2000/xmlns/"

func crlf(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
}

// wantTokens turns the events of the own parser into tokens; raw keeps prefixes unresolved.
func wantTokens(ev []xt.Event, raw bool) []tok {
	var out []tok
	for _, e := range ev {
		t := tok{end: e.E}
		nm := func(n xt.Name, prefix string) string {
			if raw {
				return "{" + prefix + "}" + n.Local
			}
			return "{" + n.Space + "}" + n.Local
		}
		switch e.Kind {
		case xt.Start:
			t.kind, t.name = "start", nm(e.Name, e.Prefix)
			var sb strings.Builder
			for _, a := range e.Attrs {
				switch {
				case raw:
					attrStr(&sb, a.Prefix, a.Local, a.Value)
				case a.Prefix == "xmlns":
					attrStr(&sb, xmlnsURI, a.Local, a.Value)
				default:
					attrStr(&sb, a.Space, a.Local, a.Value)
				}
			}
			t.rest = sb.String()
		case xt.End:
			t.kind, t.name = "end", nm(e.Name, e.Prefix)
		case xt.Text:
			t.kind, t.rest = "text", e.Data
		case xt.Comment:
			t.kind, t.rest = "comment", e.Data
		case xt.PI:
			t.kind, t.name, t.rest = "pi", e.Name.Local, e.Data
		case xt.Directive:
			t.kind, t.rest = "directive", e.Data
		}
		out = append(out, t)
	}
	return out
}

// mergeText joins adjacent text tokens.
func mergeText(in []tok) []tok {
	var out []tok
	for _, t := range in {
		if k := len(out); t.kind == "text" && k > 0 && out[k-1].kind == "text" {
			out[k-1].rest += t.rest
			out[k-1].end, out[k-1].line, out[k-1].col = t.end, t.line, t.col
			continue
		}
		if t.kind == "text" && t.rest == "" {
			// An empty CDATA section has no text; its end may still matter to a following text.
			out = append(out, t)
			continue
		}
		out = append(out, t)
	}
	var res []tok
	for _, t := range out {
		if t.kind == "text" && t.rest == "" {
			continue
		}
		res = append(res, t)
	}
	return res
}

func forkTok(t fork.Token) tok {
	switch x := t.(type) {
	case fork.StartElement:
		var sb strings.Builder
		for _, a := range x.Attr {
			attrStr(&sb, a.Name.Space, a.Name.Local, a.Value)
		}
		return tok{kind: "start", name: "{" + x.Name.Space + "}" + x.Name.Local, rest: sb.String()}
	case fork.EndElement:
		return tok{kind: "end", name: "{" + x.Name.Space + "}" + x.Name.Local}
	case fork.CharData:
		return tok{kind: "text", rest: string(x)}
	case fork.Comment:
		return tok{kind: "comment", rest: string(x)}
	case fork.ProcInst:
		return tok{kind: "pi", name: x.Target, rest: string(x.Inst)}
	case fork.Directive:
		return tok{kind: "directive", rest: string(x)}
	}
	return tok{kind: fmt.Sprintf("%T", t)}
}

func stdTok(t xml.Token) tok {
	switch x := t.(type) {
	case xml.StartElement:
		// encoding/xml leaves the prefix xmlns as it is.
		if x.Name.Space == "xmlns" {
			x.Name.Space = xmlnsURI
		}
		var sb strings.Builder
		for _, a := range x.Attr {
			sp := a.Name.Space
			if sp == "xmlns" {
				sp = xmlnsURI
			}
			attrStr(&sb, sp, a.Name.Local, a.Value)
		}
		return tok{kind: "start", name: "{" + x.Name.Space + "}" + x.Name.Local, rest: sb.String()}
	case xml.EndElement:
		if x.Name.Space == "xmlns" {
			x.Name.Space = xmlnsURI
		}
		return tok{kind: "end", name: "{" + x.Name.Space + "}" + x.Name.Local}
	case xml.CharData:
		return tok{kind: "text", rest: string(x)}
	case xml.Comment:
		return tok{kind: "comment", rest: string(x)}
	case xml.ProcInst:
		return tok{kind: "pi", name: x.Target, rest: string(x.Inst)}
	case xml.Directive:
		return tok{kind: "directive", rest: string(x)}
	}
	return tok{kind: fmt.Sprintf("%T", t)}
}

type tokenSource interface {
	InputOffset() int64
	InputPos() (int, int)
}

// readTokens reads all tokens; next returns one in comparable form.
func readTokens(f failer, src tokenSource, next func() (tok, error), max int) ([]tok, error) {
	var out []tok
	for {
		t, err := next()
		if err != nil {
			return out, err
		}
		t.end = int(src.InputOffset())
		t.line, t.col = src.InputPos()
		out = append(out, t)
		if len(out) > max {
			f.Fatalf("more than %d tokens", max)
		}
	}
}

func forkNext(d *fork.Decoder, raw bool) func() (tok, error) {
	return func() (tok, error) {
		t, err := d.Token, error(nil)
		if raw {
			t = d.RawToken
		}
		x, err := t()
		if err != nil {
			if x != nil {
				return tok{}, fmt.Errorf("token %v together with error %v", x, err)
			}
			return tok{}, err
		}
		return forkTok(x), nil
	}
}

func diffToks(a, b []tok, pos bool) string {
	for i := range max(len(a), len(b)) {
		switch {
		case i >= len(a):
			return fmt.Sprintf("token %d missing: %v", i, b[i])
		case i >= len(b):
			return fmt.Sprintf("token %d is extra: %v", i, a[i])
		case a[i].kind != b[i].kind || a[i].name != b[i].name || crlf(a[i].rest) != crlf(b[i].rest):
			return fmt.Sprintf("token %d is %v instead of %v", i, a[i], b[i])
		case pos && a[i].end != b[i].end:
			return fmt.Sprintf("token %d %v ends at %d instead of %d", i, a[i], a[i].end, b[i].end)
		}
	}
	return ""
}

// checkPos compares line and column with the offset.
func checkPos(f failer, doc string, ts []tok) {
	line, last, at := 1, 0, 0
	for _, t := range ts {
		if t.end < at || t.end > len(doc) {
			f.Fatalf("offset %d after %d of %d", t.end, at, len(doc))
		}
		for ; at < t.end; at++ {
			if doc[at] == '\n' {
				line++
				last = at + 1
			}
		}
		if t.line != line || t.col != t.end-last+1 {
			f.Fatalf("position after %v is line %d column %d instead of %d, %d\n%q", t, t.line, t.col, line, t.end-last+1, doc)
		}
	}
}

func drawXML(r kit.R) (string, *xt.Doc) {
	for {
		s := kit.XMLText(r, kit.GenXML(r, kit.XMLOpts{Big: true}))
		d, err := xt.ParseString(s)
		if err != nil {
			r.Fatalf("the generator made a document that is not well-formed: %v\n%q", err, s)
		}
		return s, d
	}
}

// TestC19_Tokens compares the tokens of well-formed documents with those of the own parser.
func TestC19_Tokens(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		s, doc := drawXML(r)
		c.Input(s)
		for _, raw := range []bool{false, true} {
			want := wantTokens(doc.Events, raw)
			d := fork.NewDecoder(strings.NewReader(s))
			got, err := readTokens(r, d, forkNext(d, raw), 3*len(want)+len(s)+100)
			if err != io.EOF {
				r.Fatalf("raw=%v: error %v on a well-formed document\n%q", raw, err, s)
			}
			if x := diffToks(mergeText(got), mergeText(want), true); x != "" {
				r.Fatalf("raw=%v: %s\n%q", raw, x, s)
			}
			checkPos(r, s, got)
			for range 2 {
				if x, err := d.Token(); err != io.EOF || x != nil {
					r.Fatalf("after the end: %v, %v", x, err)
				}
			}
		}
		c.Key(s)
		c.NonTrivial(len(doc.Events) > 2)
		switch {
		case len(s) > 20000:
			c.Label("size:>20k")
		case len(s) > 4096:
			c.Label("size:4k-20k")
		default:
			c.Label("size:small")
		}
		c.Sample(func() string { return s })
	})
}

// TestC19_Kept reads tokens and keeps them (as copies) until the end, skipping some subtrees, with Token and RawToken mixed.
func TestC19_Skip(t *testing.T) {
	kit.Check(t, 0.5, func(r kit.R, c *kit.Case) {
		s, doc := drawXML(r)
		c.Input(s)
		want := wantTokens(doc.Events, false)
		d := fork.NewDecoder(strings.NewReader(s))
		var toks []fork.Token
		var exp []tok
		i, skips := 0, 0
		for {
			x, err := d.Token()
			if err == io.EOF {
				break
			}
			if err != nil {
				r.Fatalf("error %v\n%q", err, s)
			}
			x = fork.CopyToken(x)
			// The own parser and the decoder may cut text differently: follow by offset.
			off := int(d.InputOffset())
			if _, ok := x.(fork.CharData); ok {
				toks = append(toks, x)
				for i < len(want) && want[i].end <= off && want[i].kind == "text" {
					exp = append(exp, want[i])
					i++
				}
				continue
			}
			toks = append(toks, x)
			if i >= len(want) {
				r.Fatalf("extra token %v\n%q", x, s)
			}
			exp = append(exp, want[i])
			i++
			if _, ok := x.(fork.StartElement); ok && r.N(6) == 5 {
				if err := d.Skip(); err != nil {
					r.Fatalf("skip: %v\n%q", err, s)
				}
				skips++
				depth := 1
				for depth > 0 {
					switch want[i].kind {
					case "start":
						depth++
					case "end":
						depth--
					}
					i++
				}
				if off := int(d.InputOffset()); off != want[i-1].end {
					r.Fatalf("after skipping at offset %d instead of %d\n%q", off, want[i-1].end, s)
				}
			}
		}
		var got []tok
		for _, x := range toks {
			got = append(got, forkTok(x))
		}
		if x := diffToks(mergeText(got), mergeText(exp), false); x != "" {
			r.Fatalf("with %d skips: %s\n%q", skips, x, s)
		}
		c.Key(s, fmt.Sprint(skips))
		c.NonTrivial(skips > 0)
		c.Label("skip")
	})
}

// breakDoc makes a well-formed document ill-formed in a drawn way; at is the offset before which nothing has changed.
func breakDoc(r kit.R, s string, ev []xt.Event) (out string, at int, what string) {
	first, last := -1, -1
	for i, e := range ev {
		if e.Kind == xt.Start && first < 0 {
			first = i
		}
		if e.Kind == xt.End {
			last = i
		}
	}
	ins := func(p int, x string) (string, int) { return s[:p] + x + s[p:], p }
	// inside returns a place between two tokens inside the root element.
	inside := func() int {
		if last == first+1 && ev[last].S == ev[last].E {
			return -1 // an empty-element tag has no inside
		}
		for {
			i := r.In(first, last-1)
			if i < last && i+1 <= last && !(ev[i+1].Kind == xt.End && ev[i+1].S == ev[i+1].E) {
				return ev[i].E
			}
		}
	}
	tags := func(k xt.EventKind) []xt.Event {
		var l []xt.Event
		for _, e := range ev {
			if e.Kind == k && e.S < e.E {
				l = append(l, e)
			}
		}
		return l
	}
	switch k := r.N(9); k {
	case 0:
		lo, hi := ev[first].S+1, ev[last].E-1
		at = r.In(lo, hi)
		return s[:at], at, "truncated"
	case 1, 2, 3:
		ends := tags(xt.End)
		if len(ends) > 0 {
			e := ends[r.N(len(ends))]
			switch k {
			case 1:
				out, _ = ins(e.S+2, r.Pick("x", "x:", "_"))
				return out, e.S, "end tag renamed"
			case 2:
				return s[:e.S] + s[e.E:], e.S, "end tag missing"
			case 3:
				return s[:e.E] + s[e.S:], e.E, "end tag twice"
			}
		}
	case 4, 5:
		if p := inside(); p >= 0 {
			x := r.Pick("&nope;", "&;", "&amp ", "& ", "&#;", "&#x;", "&#xZZ;", "&#12a;", "&lt", "&quot x;", "&#x110000;", "&#99999999999999999999;", "&AMP;",
				"\x00", "\x01", "\x0b", "\x1f", "\xef\xbf\xbe", "\xef\xbf\xbf", "&#0;", "&#x1F;", "&#xFFFF;", "&#11;",
				"\xff", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe2\x82a", "\x80", "]]>", "a]]>", "]]]>",
				"<!-- a -- b -->", "<!-- a --->", "<!-x-->", "<![CDAT[x]]>", "<![cdata[x]]>", "<? x?>", "<?>", "<?1?>", "<![CDATA[\x00]]>", "<![CDATA[\xff]]>",
				"<1a/>", "< a/>", "<a:b:c/>", "<>", "</>", "<a/ >", "<a / >", "<-/>", "<a", "<a b", "<a b=", "<a b=\"", "</a b>", "<a/b>", "<a \"x\"/>", "<.a/>", "<a$/>")
			out, at = ins(p, x)
			return out, at, "bad content " + x
		}
	case 6, 7:
		starts := tags(xt.Start)
		e := starts[r.N(len(starts))]
		p := e.S + 1 + len(e.Name.Local)
		if e.Prefix != "" {
			p += len(e.Prefix) + 1
		}
		x := r.Pick(" bad", " bad=x", " bad=\"<\"", " bad='a<b'", " bad=\"&nope;\"", " bad='&'", " bad=\"\x01\"", " bad='\xff'", " bad=\"&#0;\"", " 1a=\"x\"", " -a=\"x\"", " =\"x\"",
			" a:b:c='x'", " \"x\"", " bad==\"x\"", " bad=\"\"\"\"", " bad='x''y'", " bad=&quot;x&quot;", " <b/>", " & ", " bad \"x\"", " bad=\"\xed\xa0\x80\"", " .=''", " a$=''", " xmlns:@=\"\"", " xmlns:@=''", " xmlns:@\n=\n\"\"")
		if strings.Contains(x, "@") {
			pre := []string{"undecl"}
			for _, t := range starts {
				if t.Prefix != "" && t.Prefix != "xml" {
					pre = append(pre, t.Prefix)
				}
			}
			x = strings.Replace(x, "@", pre[r.N(len(pre))], 1)
			out, _ = ins(p, x)
			return out, e.S, "undeclaring " + x
		}
		out, _ = ins(p, x)
		return out, e.S, "bad tag " + x
	case 8:
		out, at = ins(ev[last].E, r.Pick("</a>", "</MPD>", "<a>", "<a><b></a></b>", "&nope;", "\x01", "<!-- -- -->", "<a b=>"))
		return out, at, "bad after the root"
	}
	at = r.In(ev[first].S+1, ev[last].E-1)
	return s[:at], at, "truncated"
}

// TestC19_Broken feeds documents that are not well-formed.
func TestC19_Broken(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		s, doc := drawXML(r)
		b, at, what := breakDoc(r, s, doc.Events)
		if _, err := xt.ParseOpts(b, xt.Opts{NoNS: true}); err == nil && !strings.HasPrefix(what, "undeclaring") {
			c.Label("still well-formed")
			return
		}
		c.Input(b)
		want := wantTokens(doc.Events, false)
		d := fork.NewDecoder(strings.NewReader(b))
		got, err := readTokens(r, d, forkNext(d, false), 3*len(want)+len(b)+100)
		if err == io.EOF {
			r.Fatalf("no error although the document is not well-formed (%s at %d)\n%q", what, at, b)
		}
		// Everything complete before the fault is reported.
		n := 0
		for n < len(want) && want[n].end <= at && !(want[n].kind == "text" && want[n].end == at) {
			n++
		}
		for n > 0 && want[n-1].kind == "text" {
			n--
		}
		g := mergeText(got)
		w := mergeText(want[:n])
		if len(g) < len(w) {
			r.Fatalf("error %v too early (%s at %d): %d of %d tokens\n%q", err, what, at, len(g), len(w), b)
		}
		if x := diffToks(g[:len(w)], w, false); x != "" {
			r.Fatalf("before the fault (%s): %s\n%q", what, x, b)
		}
		if _, err2 := d.Token(); err2 == nil || err2 == io.EOF {
			r.Fatalf("after the error %v: %v\n%q", err, err2, b)
		}
		c.Key(b)
		c.NonTrivial(true)
		c.Label("broken:%s", strings.ToValidUTF8(what, "?"))
		c.Sample(func() string { return what + ": " + b })
	})
}

// colonQuirk finds names with a colon at an end and empty prefix bindings, which encoding/xml lets pass.
var colonQuirk = regexp.MustCompile(`[\s</:"'=]:|:[\s=/>:]|:$|=\s*(""|'')`)

func mutateBytes(r kit.R, s string) string {
	b := []byte(s)
	for range r.In(1, 4) {
		if len(b) == 0 {
			break
		}
		i := r.N(len(b))
		j := min(len(b), i+r.In(1, 8))
		switch r.N(6) {
		case 0:
			b = append(b[:i:i], b[j:]...)
		case 1:
			b = append(b[:i:i], append([]byte(kit.R(r).Pick("<", ">", "&", "\"", "'", "/", "=", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "</", "/>", "xmlns=", "xmlns:a=\"u\"", "<!", ";", "&amp;", "\x00", "\xff", "é", "\r", "\n", "a", " ", "<a>", "</a>", "#", "!", "[", "]", "-")), b[i:]...)...)
		case 2:
			b[i] = byte(r.N(256))
		case 3:
			b = append(b[:j:j], b[i:]...) // duplicate
		case 4:
			k := r.N(len(b))
			b[i], b[k] = b[k], b[i]
		case 5:
			b = b[:i]
		}
	}
	return string(b)
}

// diffStd compares with encoding/xml on any bytes.
func diffStd(r kit.R, s string, set func(*fork.Decoder, *xml.Decoder)) (tokens int, ok bool) {
	d, e := fork.NewDecoder(strings.NewReader(s)), xml.NewDecoder(strings.NewReader(s))
	set(d, e)
	got, err1 := readTokens(r, d, forkNext(d, false), 3*len(s)+100)
	want, err2 := readTokens(r, e, func() (tok, error) {
		t, err := e.Token()
		if err != nil {
			return tok{}, err
		}
		return stdTok(t), nil
	}, 3*len(s)+100)
	if (err1 == io.EOF) != (err2 == io.EOF) {
		if colonQuirk.MatchString(s) || err1 != nil && strings.Contains(err1.Error(), "empty namespace without prefix") && strings.Contains(s, "xmlns:") {
			return 0, false
		}
		r.Fatalf("ends with %v, encoding/xml with %v\n%q", err1, err2, s)
	}
	var s1 *fork.SyntaxError
	var s2 *xml.SyntaxError
	if errors.As(err1, &s1) && errors.As(err2, &s2) && s1.Msg == s2.Msg && s1.Line != s2.Line && !colonQuirk.MatchString(s) {
		r.Fatalf("error on line %d, with encoding/xml on line %d: %v\n%q", s1.Line, s2.Line, err1, s)
	}
	if err1 != io.EOF {
		// Where exactly an error is found is left open, but not what comes before.
		n := min(len(got), len(want))
		got, want = got[:n], want[:n]
		for n > 0 && (got[n-1].kind == "text" || want[n-1].kind == "text") {
			n--
		}
		got, want = got[:n], want[:n]
	}
	// encoding/xml cannot tell the prefix xmlns from a namespace of that name.
	for _, l := range [][]tok{got, want} {
		for i := range l {
			l[i].name = strings.Replace(l[i].name, "{xmlns}", "{"+xmlnsURI+"}", 1)
			l[i].rest = strings.ReplaceAll(l[i].rest, "{xmlns}", "{"+xmlnsURI+"}")
		}
	}
	if x := diffToks(mergeText(got), mergeText(want), err1 == io.EOF); x != "" {
		r.Fatalf("differs from encoding/xml: %s\n%q", x, s)
	}
	return len(got), err1 == io.EOF
}

// TestC19_Bytes feeds mutated documents and compares with encoding/xml.
func TestC19_Bytes(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		s := kit.XMLText(r, kit.GenXML(r, kit.XMLOpts{}))
		m := mutateBytes(r, s)
		c.Input(m)
		n, ok := diffStd(r, m, func(d *fork.Decoder, e *xml.Decoder) {
			if r.N(8) == 7 {
				d.DefaultSpace, e.DefaultSpace = "urn:default", "urn:default"
			}
			if r.N(8) == 7 {
				d.Entity, e.Entity = fork.HTMLEntity, xml.HTMLEntity
			}
		})
		c.Key(m)
		c.NonTrivial(n > 0)
		c.Label("accepted:%v", ok)
	})
}

func htmlish(r kit.R) string {
	var sb strings.Builder
	var open []string
	for range r.In(1, 25) {
		switch r.N(9) {
		case 0, 1, 2:
			n := r.Pick("p", "b", "br", "IMG", "input", "a", "td", "hr", "Div", "x:p", "x:br")
			sb.WriteString("<" + n)
			for range r.Size(3) {
				sb.WriteString(r.Pick(" ", "\n", "  ", "\t"))
				if r.N(12) == 11 {
					sb.WriteString(r.Pick(`xmlns:x="urn:x"`, `xmlns="urn:e"`, "xmlns=a:b", "xmlns:x=y", `xmlns=""`, `xmlns:x='a'`))
					continue
				}
				sb.WriteString(r.Pick("checked", "nowrap", "x:y", "a1", "b"))
				switch r.N(4) {
				case 0:
					sb.WriteString(r.Pick("=", " = ", "= ") + r.Pick("azAZ09:-_", "x", "1", "a:b", "_", "-1", "::", "1.5", "a/b", "#f", "100%", "é"))
				case 1:
					sb.WriteString(r.Pick("=", " =") + r.Pick("\"v\"", "'v'", "\"&nope;\"", "'a&b'", "\"a>b\"", "''", "'&lt;&nbsp;&x'", "\"&amp;&quot;\""))
				}
			}
			if r.N(4) == 3 {
				sb.WriteString(r.Pick("/>", " />"))
			} else {
				sb.WriteString(r.Pick(">", " >", "\n>"))
				open = append(open, n)
			}
		case 3, 4:
			if len(open) > 0 {
				i := len(open) - 1
				if r.N(4) == 3 {
					i = r.N(len(open))
				}
				sb.WriteString("</" + open[i] + r.Pick(">", " >"))
				open = open[:i]
			}
		case 5:
			sb.WriteString(r.Pick("&nbsp;", "&eacute;", "&nope;", "&", "&;", "&#xe9;", "&#junk", "& ", "&lt;", "&amp", "&a:b;", "&amp;", "&x;", "&quot;&gt;", "&é;", "&LT;", "&nbsp"))
		case 6:
			sb.WriteString(r.Pick("</nothing>", "<!DOCTYPE html>", "<!-- c -->", "<?x y?>", "<![CDATA[<]]>", "a>b", "]]", ">"))
		default:
			sb.WriteString(r.Pick("text", " ", "é", "a b", "\n"))
		}
	}
	for i := len(open) - 1; i >= 0 && r.N(8) != 0; i-- {
		sb.WriteString("</" + open[i] + ">")
	}
	return sb.String()
}

// TestC30 reads sloppy markup in non-strict mode and compares with encoding/xml.
// latin1 turns ISO 8859-1 into UTF-8.
type latin1 struct {
	in   io.Reader
	rest []byte
}

func (l *latin1) Read(p []byte) (int, error) {
	if len(l.rest) == 0 {
		b := make([]byte, 7)
		n, err := l.in.Read(b)
		if n == 0 {
			return 0, err
		}
		for _, c := range b[:n] {
			l.rest = utf8.AppendRune(l.rest, rune(c))
		}
	}
	n := copy(p, l.rest)
	l.rest = l.rest[n:]
	return n, nil
}

func TestC30(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		s := htmlish(r)
		if r.N(4) == 3 {
			s = mutateBytes(r, s)
		}
		c.Input(s)
		auto, ent := r.N(3), r.N(3)
		ownAuto, ownEnt := []string{}, map[string]string{}
		for range r.N(4) {
			ownAuto = append(ownAuto, r.Pick("p", "BR", "div", "img", "x", "TD", "", "x:br"))
		}
		for range r.N(5) {
			ownEnt[r.Pick("lt", "amp", "quot", "x", "nbsp", "nope", "é", "a:b", "LT", "gt")] =
				r.Pick("", "<", "&", "&lt;", "text", "\x01", "\xff", "]]>", "é", "\r\n", strings.Repeat("long", 300))
		}
		strict := r.N(5) == 4
		space := r.Pick("", "", "urn:d", "a")
		cs := r.N(4)
		if cs > 0 {
			s = `<?xml version="1.0" encoding=` + r.Pick(`"latin1"`, `'UTF-8'`, `"utf-8"`, `""`, `"none"`, `"latin1" standalone="yes"`) + `?>` + s
			c.Input(s)
		}
		charset := func(enc string, in io.Reader) (io.Reader, error) {
			if enc == "none" {
				return nil, errInjected
			}
			return &latin1{in: in}, nil
		}
		n, ok := diffStd(r, s, func(d *fork.Decoder, e *xml.Decoder) {
			d.Strict, e.Strict = strict, strict
			d.DefaultSpace, e.DefaultSpace = space, space
			if cs > 1 {
				d.CharsetReader, e.CharsetReader = charset, charset
			}
			switch auto {
			case 1:
				d.AutoClose, e.AutoClose = fork.HTMLAutoClose, xml.HTMLAutoClose
			case 2:
				d.AutoClose, e.AutoClose = ownAuto, ownAuto
			}
			switch ent {
			case 1:
				d.Entity, e.Entity = fork.HTMLEntity, xml.HTMLEntity
			case 2:
				d.Entity, e.Entity = ownEnt, ownEnt
			}
		})
		c.Key(s, fmt.Sprint(auto, ent, ownAuto, ownEnt, strict, space, cs))
		c.NonTrivial(n > 1)
		c.Label("accepted:%v", ok)
		c.Sample(func() string { return s })
	})
}

// TestC19_names uses every code point (of the last planes every 64th) at the start and inside of names, as encoding/xml does.
func TestC19_names(t *testing.T) {
	const block = 1024
	kit.Enum(t, 0x110000/block, func(t *testing.T, i int, c *kit.Case) {
		for j := range block {
			x := string(rune(i*block + j))
			if x == ":" || x == "\ufffd" && i*block+j != 0xfffd { // names with a colon at an end are refused by design
				continue
			}
			if i > 0x30000/block && j%64 != i%64 { // no names there
				continue
			}
			for _, s := range []string{"<" + x + "/>", "<a" + x + "b/>", "<a b" + x + "='1'/>", "<a " + x + "='1'/>", "<?a" + x + " b?><a/>", "<a>&" + x + ";</a>"} {
				ent := map[string]string{x: "v"}
				d := fork.NewDecoder(strings.NewReader(s))
				e := xml.NewDecoder(strings.NewReader(s))
				d.Entity, e.Entity = ent, ent
				for {
					a, errA := d.Token()
					b, errB := e.Token()
					if (errA == nil) != (errB == nil) || (errA == io.EOF) != (errB == io.EOF) {
						t.Fatalf("%q (U+%04X): error %v, encoding/xml gives %v", s, i*block+j, errA, errB)
					}
					if errA != nil {
						break
					}
					if x, y := fmt.Sprintf("%+v", a), fmt.Sprintf("%+v", b); x != y {
						t.Fatalf("%q (U+%04X): token %s, encoding/xml gives %s", s, i*block+j, x, y)
					}
				}
			}
		}
		c.Key("names", fmt.Sprint(i))
		c.NonTrivial(true)
		c.Label("names: exhaustive block")
	})
}

// TestC30_tables compares the tables for HTML with those of encoding/xml.
func TestC30_tables(t *testing.T) {
	kit.Enum(t, 1, func(t *testing.T, _ int, c *kit.Case) {
		for k, v := range xml.HTMLEntity {
			if fork.HTMLEntity[k] != v {
				t.Fatalf("entity %q is %q, encoding/xml has %q", k, fork.HTMLEntity[k], v)
			}
		}
		if len(fork.HTMLEntity) != len(xml.HTMLEntity) {
			t.Fatalf("%d entities, encoding/xml has %d", len(fork.HTMLEntity), len(xml.HTMLEntity))
		}
		if x, y := fmt.Sprint(fork.HTMLAutoClose), fmt.Sprint(xml.HTMLAutoClose); x != y {
			t.Fatalf("auto-closed elements are %s, encoding/xml has %s", x, y)
		}
		c.Key("tables")
		c.NonTrivial(true)
		c.Label("tables")
	})
}
