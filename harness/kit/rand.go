// Package kit holds what the property checks share: random choices on top of rapid, value and document generators,
// comparison of documents, statistics and evidence.
package kit

import (
	"fmt"
	"math"
	"strings"

	"pgregory.net/rapid"
)

// R makes choices with rapid; every choice is a rapid draw, so failures shrink and replay.
type R struct{ T *rapid.T }

var u64gen = rapid.Uint64()
var boolgen = rapid.Bool()

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

// N returns a (nearly uniform) value in 0..n-1; shrinks to 0.
func (r R) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(mix(u64gen.Draw(r.T, "n")) % uint64(n))
}

// U64 returns a 64-bit value with uniformly chosen bits; shrinks to 0.
func (r R) U64() uint64 { return mix(u64gen.Draw(r.T, "u")) }

// B flips a coin; shrinks to false.
func (r R) B() bool { return boolgen.Draw(r.T, "b") }

// P is true with probability pct percent; shrinks to false.
func (r R) P(pct int) bool { return r.N(100) >= 100-pct }

// In returns a value in lo..hi.
func (r R) In(lo, hi int) int { return lo + r.N(hi-lo+1) }

// Size returns a small-biased value in 0..max.
func (r R) Size(max int) int { return rapid.IntRange(0, max).Draw(r.T, "size") }

// Pick chooses one of the strings.
func (r R) Pick(xs ...string) string { return xs[r.N(len(xs))] }

// Bits returns a number of a uniformly chosen bit length up to n, often at a boundary.
func (r R) Bits(n int) uint64 {
	var max uint64 = math.MaxUint64
	if n < 64 {
		max = 1<<n - 1
	}
	switch r.N(8) {
	case 0:
		return uint64(r.N(4))
	case 1:
		return max - uint64(r.N(3))
	case 2: // power of two boundary
		k := r.N(n)
		return (uint64(1)<<k + uint64(r.N(3)) - 1) & max
	case 3:
		return uint64(r.N(100000)) & max
	}
	k := r.In(1, n)
	return r.U64() >> (64 - k)
}

// SInt returns a signed number of up to n bits.
func (r R) SInt(n int) int64 {
	v := int64(r.Bits(n - 1))
	if r.B() {
		v = -v
		if r.N(6) == 5 {
			v = -1 << (n - 1)
		}
	}
	return v
}

var interesting = []rune{'<', '>', '&', '"', '\'', '\t', '\n', '\r', ' ', ']', 'é', '€', '\U0001F600', '\u0085', '\u2028', '\u00a0', '\ud7ff', '\ue000', '\ufffd', '\U00010000', '\U0010FFFF', '#', ';', '=', '-', '!', '?', '/', ':', '%', '$', '{', '\u007f', '\u0080', '\ufeff', '\u0301'}

// Rune returns a legal XML character.
func (r R) Rune() rune {
	switch r.N(6) {
	case 0:
		return rune('a' + r.N(26))
	case 1:
		return rune(0x20 + r.N(0x5f))
	case 2, 3:
		return interesting[r.N(len(interesting))]
	case 4:
		return rune(0xa0 + r.N(0x3000))
	}
	switch r.N(3) {
	case 0:
		return rune(0x10000 + r.N(0x100000))
	case 1:
		return rune(0xe000 + r.N(0x1ffe))
	}
	return rune(0x3000 + r.N(0xd800-0x3000))
}

// Chars returns a string of legal XML characters.
func (r R) Chars(max int) string {
	n := r.Size(max)
	var sb strings.Builder
	for range n {
		sb.WriteRune(r.Rune())
	}
	return sb.String()
}

// Str returns a string value: realistic, special, or long; all characters are legal in XML.
func (r R) Str() string {
	switch r.N(10) {
	case 0:
		return ""
	case 1, 2, 3:
		return r.Chars(12)
	case 4:
		return r.Pick(" ", "  lead", "trail ", "a  b", "\t", "\n", "a\nb", "]]>", "<MPD>", "&amp;", "&#10;", "--", "<![CDATA[x]]>", "\r\n", "\"'\"")
	case 5:
		if r.N(12) == 11 {
			base := r.Chars(6) + "x"
			return strings.Repeat(base, r.In(1, 9000/len(base)+1))
		}
		return r.Chars(60)
	}
	return r.Pick("urn:mpeg:dash:role:2011", "video", "https://example.com/a?b=c&d=e", "1", "0", "2", "true", "avc1.64001f", "en", "$RepresentationID$/$Number$.m4s", "main", "und", "video/mp4", "x", "urn:mpeg:dash:profile:isoff-live:2011") + r.Pick("", "", fmt.Sprint(r.N(1000)))
}

// words are values which applications give to attributes.
var words = map[string][]string{
	"href":            {"urn:mpeg:dash:resolve-to-zero:2013", "https://ads.example.com/remote.xml"},
	"actuate":         {"onLoad", "onRequest"},
	"type":            {"simple", "static", "dynamic", "list"},
	"show":            {"embed"},
	"id":              {"1", "2", "a"},
	"contenttype":     {"video", "audio", "text", "image", "application", "font"},
	"mimetype":        {"video/mp4", "audio/mp4", "application/mp4", "text/vtt", "image/jpeg", "video/mp2t", "application/ttml+xml"},
	"codecs":          {"avc1.64001f", "mp4a.40.2", "stpp.ttml.im1t", "wvtt", "avc1.4d401f,mp4a.40.2", "hvc1.2.4.L123.B0", "ec-3"},
	"lang":            {"en", "sv", "und", "zh-Hant-TW"},
	"schemeiduri":     {"urn:mpeg:dash:mp4protection:2011", "urn:uuid:edef8ba9-79d6-4ace-a3c8-27dcd51d21ed", "urn:uuid:9a04f079-9840-4286-ab92-e65be0885f95", "urn:mpeg:dash:role:2011", "urn:mpeg:dash:event:2012", "urn:mpeg:dash:period-continuity:2015", "urn:mpeg:dash:period-connectivity:2015", "urn:mpeg:dash:utc:http-xsdate:2014", "urn:mpeg:dash:adaptation-set-switching:2016", "http://dashif.org/guidelines/trickmode", "http://dashif.org/guidelines/last-segment-number", "http://dashif.org/thumbnail_tile", "urn:mpeg:mpegB:cicp:ChannelConfiguration", "urn:scte:scte35:2013:xml", "urn:scte:scte35:2014:xml+bin", "urn:scte:scte35:2013:bin", "urn:scte:dash:asset-end", "urn:scte:dash:asset-id:upid:2015", "urn:mpeg:dash:event:alternativeMPD:insert:2025", "urn:mpeg:dash:event:alternativeMPD:replace:2025", "urn:mpeg:dash:event:callback:2015"},
	"value":           {"cenc", "cbcs", "main", "alternate", "dub", "1", "2", "6", "PT1S", "http://time.example.com"},
	"default_kid":     {"00000000-0000-0000-0000-000000000000", "34e5db32-8625-47cd-ba06-68fca0655a72"},
	"defaultkid":      {"00000000-0000-0000-0000-000000000000", "34e5db32-8625-47cd-ba06-68fca0655a72"},
	"ref":             {"1", "a"},
	"refid":           {"1", "a"},
	"contentencoding": {"base64"},
	"framerate":       {"25", "30000/1001", "50/1"},
	"sar":             {"1:1", "4:3"},
	"par":             {"16:9"},
	"scantype":        {"progressive", "interlaced", "unknown"},
	"initialization":  {"$RepresentationID$/init.mp4", "init-$Bandwidth$.mp4", "init.mp4"},
	"media":           {"$RepresentationID$/$Number$.m4s", "$RepresentationID$/$Time$.m4s", "seg-$Number%05d$.m4s"},
	"range":           {"0-862", "863-"},
	"indexrange":      {"863-1200"},
	"servicelocation": {"cdn-a", "beta"},
	"profiles":        {"urn:mpeg:dash:profile:isoff-live:2011", "urn:mpeg:dash:profile:isoff-live:2011,urn:mpeg:dash:profile:cmaf:2019", "urn:mpeg:dash:profile:isoff-on-demand:2011", "urn:mpeg:dash:profile:list:2024", "urn:mpeg:dash:profile:sps:2024"},
	"mode":            {"query", "header", "request", "response"},
	"schemalocation":  {"urn:mpeg:dash:schema:mpd:2011 DASH-MPD.xsd"},
}

// Word draws a value that is usual for the attribute or field of a name.
func (r R) Word(name string) (string, bool) {
	w := words[strings.TrimPrefix(strings.ToLower(name), "xlink")]
	if len(w) == 0 || !r.P(25) {
		return "", false
	}
	return w[r.N(len(w))], true
}

func (r R) list(item func() string) string {
	n := r.In(1, 4)
	if r.N(60) == 59 {
		n = r.In(20, 200)
	}
	xs := make([]string, n)
	for i := range xs {
		xs[i] = item()
	}
	if r.N(4) != 3 {
		return strings.Join(xs, " ")
	}
	// Any white space separates, and white space around the list does not count.
	var sb strings.Builder
	ws := func() string { return r.Pick(" ", "\n", "\t", "\r", "  ", "\r\n", " \t ") }
	if r.B() {
		sb.WriteString(ws())
	}
	for i, x := range xs {
		if i > 0 {
			sb.WriteString(ws())
		}
		sb.WriteString(x)
	}
	if r.B() {
		sb.WriteString(ws())
	}
	return sb.String()
}

// DurLex returns a duration literal that fits, and its value in nanoseconds.
func (r R) DurLex() string {
	var sb strings.Builder
	sb.WriteString("P")
	any := false
	if r.N(6) == 5 {
		fmt.Fprintf(&sb, "%dD", r.N(20000))
		any = true
	}
	h, m, s := r.N(3) == 2, r.N(3) == 2, r.N(4) != 3
	if !any && !h && !m {
		s = true
	}
	if h || m || s {
		sb.WriteString("T")
		if h {
			fmt.Fprintf(&sb, "%dH", []int{r.N(3), r.N(30), r.N(2000000)}[r.N(3)])
		}
		if m {
			fmt.Fprintf(&sb, "%dM", []int{r.N(3), r.N(60), r.N(100000)}[r.N(3)])
		}
		if s {
			fmt.Fprintf(&sb, "%d", []int{r.N(3), r.N(60), r.N(100000)}[r.N(3)])
			switch r.N(4) {
			case 2:
				fmt.Fprintf(&sb, ".%03d", r.N(1000))
			case 3:
				k := r.In(1, 9)
				f := fmt.Sprintf("%09d", r.N(1000000000))
				sb.WriteString("." + f[:k])
			}
			sb.WriteString("S")
		}
	}
	return sb.String()
}

// DateLex returns a date-time literal.
func (r R) DateLex() string {
	s := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", []int{1970, 2024, r.N(10000)}[r.N(3)], r.In(1, 12), r.In(1, 28), r.N(24), r.N(60), r.N(60))
	if r.B() {
		k := r.In(1, 9)
		s += "." + fmt.Sprintf("%09d", r.N(1000000000))[:k]
	}
	switch r.N(4) {
	case 0, 1:
		return s + "Z"
	case 2:
		return s // xs:dateTime without zone
	}
	return s + r.Pick("+", "-") + fmt.Sprintf("%02d:%02d", r.N(14), r.N(60))
}

// FloatLex returns a finite floating-point literal.
func (r R) FloatLex(bits int) string {
	switch r.N(5) {
	case 0:
		return fmt.Sprint(r.N(100))
	case 1:
		return fmt.Sprintf("%d.%d", r.N(1000), r.N(100000))
	case 2:
		return fmt.Sprintf("-%d.%03d", r.N(10), r.N(1000))
	case 3:
		return fmt.Sprintf("%d.%dE%s%d", r.In(1, 9), r.N(10000), r.Pick("", "-", "+"), r.N(30))
	}
	if bits == 32 {
		f := math.Float32frombits(uint32(r.U64()))
		if f != f || f > math.MaxFloat32 || f < -math.MaxFloat32 {
			f = 1.5
		}
		return fmt.Sprint(f)
	}
	f := math.Float64frombits(r.U64())
	if f != f || math.IsInf(f, 0) {
		f = 0.25
	}
	return fmt.Sprint(f)
}

// Lex returns a legal literal of a value kind of the schema.
func (r R) Lex(kind string) string {
	switch kind {
	case "s":
		return r.Str()
	case "uri":
		if r.N(3) == 2 {
			return r.Str()
		}
		return r.Pick("https://cdn.example.com/live/", "seg-$Number$.m4s?a=1&b=%20", "urn:x:y", "", "../a/b", "http://[::1]:80/ä")
	case "b":
		return r.Pick("true", "false", "1", "0")
	case "u8":
		return fmt.Sprint(r.Bits(8))
	case "u16":
		return fmt.Sprint(r.Bits(16))
	case "u32":
		return fmt.Sprint(r.Bits(32))
	case "u64":
		return fmt.Sprint(r.Bits(64))
	case "i32":
		return fmt.Sprint(r.SInt(32))
	case "i64":
		return fmt.Sprint(r.SInt(64))
	case "f32":
		return r.FloatLex(32)
	case "f64":
		return r.FloatLex(64)
	case "finf":
		if r.N(3) == 2 {
			return r.Pick("INF", "INF", "-INF")
		}
		return r.FloatLex(64)
	case "dur":
		return r.DurLex()
	case "dt":
		return r.DateLex()
	case "tokens":
		return r.list(func() string { return r.Pick("a", "id1", "mp41", "x-y", "ü", "v&w", "1<2") })
	case "uints":
		return r.list(func() string { return fmt.Sprint(r.Bits(32)) })
	}
	panic("kind " + kind)
}

// RawStr returns an arbitrary non-empty byte string: markup, control characters, broken UTF-8, long text.
func (r R) RawStr() string {
	n := r.In(1, 5)
	var sb strings.Builder
	for range n {
		switch r.N(9) {
		case 0:
			sb.WriteString(r.Pick("<", ">", "&", "\"", "'", "]]>", "<!--", "-->", "<?", "?>", "<![CDATA[", "/>", "</MPD>", "&#0;", "&amp;", "&lt;x", "\" onload=\"", "' x='", "<a b='c'>", "xmlns=\"", "%"))
		case 1:
			sb.WriteByte(byte(r.N(32)))
		case 2:
			sb.WriteByte(byte(128 + r.N(128)))
		case 3:
			sb.WriteString(r.Pick("\x00", "\x0b", "\x7f", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xef\xbf\xbe", "\xef\xbf\xbf", "\xef\xbb\xbf", "\xff", "\xe2\x82", "\xf0\x9f\x98", "\u0085", "\u2028", "\xf0\x9f\xbf\xbe"))
		case 4, 5:
			sb.WriteRune(r.Rune())
		case 6:
			if r.N(10) == 9 {
				x := r.Pick("<", "&", "a", "\xff", "é", "\"", "]]>", "\x01")
				sb.WriteString(strings.Repeat(x, r.In(1, 9000/len(x))))
			} else {
				sb.WriteString(r.Pick("\t", "\n", "\r", "\r\n", " ", "  "))
			}
		default:
			sb.WriteString(r.Pick("a", "video", "x1", "0", "urn:x"))
		}
	}
	return sb.String()
}

// Legal reports whether XML allows the character.
func Legal(c rune) bool {
	return c == 9 || c == 10 || c == 13 || c >= 0x20 && c <= 0xd7ff || c >= 0xe000 && c <= 0xfffd || c >= 0x10000 && c <= 0x10ffff
}

// Sanitize replaces every character that XML does not allow, and every broken byte, by U+FFFD.
func Sanitize(s string) string {
	var sb strings.Builder
	for len(s) > 0 {
		c, n := decode(s)
		if n == 0 {
			sb.WriteString("\ufffd")
			s = s[1:]
			continue
		}
		if !Legal(c) {
			c = 0xfffd
		}
		sb.WriteRune(c)
		s = s[n:]
	}
	return sb.String()
}

// decode reads one UTF-8 sequence by the table of the Unicode standard; n is 0 if it is broken.
func decode(s string) (c rune, n int) {
	b := s[0]
	lo, hi := byte(0x80), byte(0xbf)
	switch {
	case b < 0x80:
		return rune(b), 1
	case b >= 0xc2 && b <= 0xdf:
		n, c = 2, rune(b&0x1f)
	case b >= 0xe0 && b <= 0xef:
		n, c = 3, rune(b&0x0f)
		if b == 0xe0 {
			lo = 0xa0
		} else if b == 0xed {
			hi = 0x9f
		}
	case b >= 0xf0 && b <= 0xf4:
		n, c = 4, rune(b&0x07)
		if b == 0xf0 {
			lo = 0x90
		} else if b == 0xf4 {
			hi = 0x8f
		}
	default:
		return 0, 0
	}
	if len(s) < n {
		return 0, 0
	}
	for i := 1; i < n; i++ {
		if s[i] < lo || s[i] > hi {
			return 0, 0
		}
		c = c<<6 | rune(s[i]&0x3f)
		lo, hi = 0x80, 0xbf
	}
	return c, n
}

// Pick2 picks one of the numbers.
func (r R) Pick2(xs ...int) int { return xs[r.N(len(xs))] }

// EscapeXML escapes text for content and attribute values.
func EscapeXML(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\"", "&quot;", "\n", "&#10;", "\t", "&#9;", "\r", "&#13;").Replace(s)
}

// WildURI draws a namespace that ends in characters of all sorts.
func (r R) WildURI() string {
	const chars = "ab1.-_=;?#()&'\"<> é:,%~*!$[]{}|\\^`+@x\u00b7\u2160"
	rs := []rune(chars)
	var seg []rune
	for range r.In(1, 4) {
		seg = append(seg, rs[r.N(len(rs))])
	}
	s := string(seg)
	return r.Pick("urn:w/"+s, "http://h.example/p/"+s, s+"/", "u"+s, "urn:w:a="+s, "urn:w/xml"+s)
}
