package kit

import (
	"encoding/base64"
	"fmt"
	"math"
	"reflect"
	"slices"
	"strings"
	"time"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"

	"verif/harness/schema"
)

// ModelOpts shapes generated object trees.
type ModelOpts struct {
	Str     func(r R) string // free string values; nil: legal XML characters
	Strict  bool             // list and date strings are sensible values rather than Str
	Budget  int              // approximate number of structs; 0: drawn
	NoScte  bool
	NoAny   bool
	ScteURI string
}

type modelgen struct {
	R
	o      ModelOpts
	budget int
	dens   int
	scte   string
	N      int
}

var (
	tDur      = reflect.TypeFor[mpd.Duration]()
	tDate     = reflect.TypeFor[mpd.DateTime]()
	tInf      = reflect.TypeFor[mpd.FloatInf64]()
	tName     = reflect.TypeFor[xml.Name]()
	tAttrs    = reflect.TypeFor[[]xml.Attr]()
	tVec      = reflect.TypeFor[mpd.StringNoWhitespaceVectorType]()
	tEvent    = reflect.TypeFor[mpd.EventType]()
	tExt      = reflect.TypeFor[mpd.ExtType]()
	tUInts    = reflect.TypeFor[mpd.UIntVectorType]()
	tStrings  = reflect.TypeFor[mpd.StringVectorType]()
	tMPD      = reflect.TypeFor[mpd.MPD]()
	tProfiles = reflect.TypeFor[mpd.ListOfProfilesType]()
)

// Way is a field holding a struct (or a list of them), by which a type is reached.
type Way struct {
	T reflect.Type // the struct type that has the field
	I []int        // field index
}

var modelTypes []reflect.Type // struct types reachable from MPD, in breadth-first order
var modelWay = map[reflect.Type][]Way{}
var modelDepth = map[reflect.Type]int{}

func init() {
	queue := []reflect.Type{tMPD}
	modelDepth[tMPD] = 0
	for len(queue) > 0 {
		t := queue[0]
		queue = queue[1:]
		modelTypes = append(modelTypes, t)
		var fields func(ft reflect.Type, idx []int)
		fields = func(ft reflect.Type, idx []int) {
			for i := range ft.NumField() {
				f := ft.Field(i)
				if f.PkgPath != "" || f.Type == tName || f.Type == tAttrs {
					continue
				}
				ix := append(append([]int{}, idx...), i)
				e := f.Type
				for e.Kind() == reflect.Pointer || e.Kind() == reflect.Slice {
					e = e.Elem()
				}
				if e.Kind() != reflect.Struct {
					continue
				}
				if f.Anonymous {
					fields(e, ix)
					continue
				}
				modelWay[e] = append(modelWay[e], Way{t, ix})
				if _, ok := modelDepth[e]; !ok {
					modelDepth[e] = modelDepth[t] + 1
					queue = append(queue, e)
				}
			}
		}
		fields(t, nil)
	}
}

// GenMPD draws an MPD object tree; a uniformly drawn struct type is forced to be present.
func GenMPD(r R, o ModelOpts) (*mpd.MPD, string) {
	g := newModel(r, o)
	target := modelTypes[r.N(len(modelTypes))]
	if o.NoScte {
		for isScte(target) {
			target = modelTypes[r.N(len(modelTypes))]
		}
	}
	var path []Way
	for t := target; t != tMPD; {
		ws := modelWay[t]
		w := ws[r.N(len(ws))]
		if len(path) > 6 {
			for _, x := range ws {
				if modelDepth[x.T] < modelDepth[t] {
					w = x
				}
			}
		}
		path = append([]Way{w}, path...)
		t = w.T
	}
	m := &mpd.MPD{}
	g.fill(reflect.ValueOf(m).Elem(), path, target)
	m.XMLNs = mpd.DASH_NAMESPACE
	m.SetParents()
	return m, target.Name()
}

// GenPeriod draws a period object tree.
func GenPeriod(r R, o ModelOpts) *mpd.Period {
	g := newModel(r, o)
	p := &mpd.Period{}
	g.fill(reflect.ValueOf(p).Elem(), nil, nil)
	p.SetParents()
	return p
}

// GenStruct fills a zero struct value.
func GenStruct(r R, v reflect.Value, o ModelOpts) {
	newModel(r, o).fill(v, nil, nil)
}

// Dress fills the fields of a struct other than the named ones, also those of embedded structs.
func Dress(r R, ptr any, keep ...string) {
	v := reflect.ValueOf(ptr).Elem()
	x := reflect.New(v.Type()).Elem()
	GenStruct(r, x, ModelOpts{Budget: r.In(1, 5)})
	dress(v, x, keep)
}

func dress(v, x reflect.Value, keep []string) {
	for i := range v.NumField() {
		f := v.Type().Field(i)
		switch {
		case f.PkgPath != "" || f.Type == tName || slices.Contains(keep, f.Name):
		case f.Anonymous && f.Type.Kind() == reflect.Struct:
			dress(v.Field(i), x.Field(i), keep)
		default:
			v.Field(i).Set(x.Field(i))
		}
	}
}

func newModel(r R, o ModelOpts) *modelgen {
	g := &modelgen{R: r, o: o}
	g.budget = o.Budget
	if g.budget == 0 {
		g.budget = []int{2, 6, 12, 25, 60, 150}[r.In(0, 5)]
	}
	g.dens = []int{0, 10, 30, 60, 100}[r.In(0, 4)]
	g.scte = o.ScteURI
	if g.scte == "" {
		g.scte = scteURI(r)
	}
	return g
}

func isScte(t reflect.Type) bool {
	f, ok := t.FieldByName("XMLName")
	return ok && f.Type == tName && f.Tag.Get("xml") == ""
}

func (g *modelgen) str() string {
	if g.o.Str != nil {
		return g.o.Str(g.R)
	}
	return g.Str()
}

// fill sets the fields of a struct. path leads to a target type.
func (g *modelgen) fill(v reflect.Value, path []Way, target reflect.Type) {
	g.budget--
	if v.Type() == tExt {
		g.ext(v)
		return
	}
	if v.Type() == tEvent && g.N_(3) == 0 {
		ev := v.Addr().Interface().(*mpd.EventType)
		ev.Value = g.str()
		if g.B() {
			ev.ContentEncoding = "base64"
			ev.Value = base64.StdEncoding.EncodeToString([]byte(ev.Value))
		}
	}
	g.fields(v, v.Type(), nil, path, target)
}

func (g *modelgen) N_(n int) int { return g.R.N(n) }

func sameIndex(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (g *modelgen) fields(v reflect.Value, top reflect.Type, idx []int, path []Way, target reflect.Type) {
	t := v.Type()
	for i := range t.NumField() {
		f := t.Field(i)
		if f.PkgPath != "" || f.Type == tName {
			continue
		}
		fv := v.Field(i)
		ix := append(append([]int{}, idx...), i)
		force := len(path) > 0 && path[0].T == top && sameIndex(path[0].I, ix)
		under := len(path) > 0 && path[0].T == top && len(path[0].I) > len(ix) && sameIndex(path[0].I[:len(ix)], ix)
		tag := f.Tag.Get("xml")
		local := tag
		if k := strings.LastIndexByte(local, ' '); k >= 0 {
			local = local[k+1:]
		}
		local, flags, _ := strings.Cut(local, ",")
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			g.fields(fv, top, ix, path, target)
			continue
		}
		if f.Anonymous && f.Type.Kind() == reflect.Pointer && f.Type.Elem().Kind() == reflect.Struct {
			if under || g.P(g.dens) {
				fv.Set(reflect.New(f.Type.Elem()))
				g.fields(fv.Elem(), top, ix, path, target)
			}
			continue
		}
		if f.Type == tAttrs {
			if !g.o.NoAny && g.P(12) {
				fv.Set(reflect.ValueOf(g.anyAttrs()))
			}
			continue
		}
		e := f.Type
		for e.Kind() == reflect.Pointer || e.Kind() == reflect.Slice && e != tVec {
			e = e.Elem()
		}
		isStruct := e.Kind() == reflect.Struct
		if isStruct && isScte(e) && g.o.NoScte {
			continue
		}
		on := force
		if !on {
			switch {
			case isStruct:
				on = g.budget > 0 && g.P(8+g.dens/8)
			case strings.Contains(flags, "chardata"):
				on = g.R.N(4) != 0
			default:
				on = g.P(g.dens)
			}
		}
		if !on {
			continue
		}
		sub := func() reflect.Value {
			if isStruct {
				p := reflect.New(e)
				if n := p.Elem().FieldByName("XMLName"); n.IsValid() && isScte(e) {
					n.Set(reflect.ValueOf(xml.Name{Space: g.scte, Local: local}))
				}
				return p
			}
			p := reflect.New(e)
			g.value(p.Elem(), f.Name)
			return p
		}
		switch {
		case f.Type.Kind() == reflect.Slice && f.Type != tVec:
			n := 1
			if g.B() {
				n = g.In(1, 4)
			}
			if !isStruct && g.R.N(30) == 29 {
				n = g.In(1, 60)
			}
			main := 0
			if n > 1 {
				main = g.R.N(n)
			}
			for j := range n {
				p := sub()
				if isStruct {
					if force && j == main {
						g.fill(p.Elem(), path[1:], target)
					} else {
						g.fill(p.Elem(), nil, nil)
					}
				}
				if f.Type.Elem().Kind() == reflect.Pointer {
					fv.Set(reflect.Append(fv, p))
				} else {
					fv.Set(reflect.Append(fv, p.Elem()))
				}
			}
			if isStruct && g.R.N(150) == 149 {
				// Very many of them.
				n := []int{33, 66, 130, 260, 520, 1030, 3000}[g.R.N(7)] + g.R.N(3)
				for j := range n {
					p := reflect.New(e)
					if n := p.Elem().FieldByName("XMLName"); n.IsValid() && isScte(e) {
						n.Set(reflect.ValueOf(xml.Name{Space: g.scte, Local: local}))
					}
					numberStruct(p.Elem(), j)
					if f.Type.Elem().Kind() == reflect.Pointer {
						fv.Set(reflect.Append(fv, p))
					} else {
						fv.Set(reflect.Append(fv, p.Elem()))
					}
				}
			}
		default:
			p := sub()
			if isStruct {
				if force {
					g.fill(p.Elem(), path[1:], target)
				} else {
					g.fill(p.Elem(), nil, nil)
				}
			}
			if f.Type.Kind() == reflect.Pointer {
				fv.Set(p)
			} else {
				fv.Set(p.Elem())
			}
		}
	}
}

// numberStruct sets the first simple field of a struct.
func numberStruct(v reflect.Value, i int) bool {
	for j := range v.NumField() {
		f := v.Type().Field(j)
		x := v.Field(j)
		switch {
		case f.PkgPath != "":
		case f.Anonymous && x.Kind() == reflect.Struct:
			if numberStruct(x, i) {
				return true
			}
		case f.Type == tDur || f.Type == tDate || f.Type == tInf || f.Type == tUInts || strings.Contains(f.Tag.Get("xml"), "innerxml"):
		case x.Kind() == reflect.String:
			x.SetString(fmt.Sprint("n", i))
			return true
		case x.Kind() == reflect.Uint64 || x.Kind() == reflect.Uint32 || x.Kind() == reflect.Uint16:
			x.SetUint(uint64(i))
			return true
		}
	}
	return false
}

// value sets a simple value.
func (g *modelgen) value(v reflect.Value, name string) {
	switch v.Type() {
	case tDur:
		v.SetInt(int64(g.Dur()))
		return
	case tDate:
		if g.o.Strict || g.B() {
			v.SetString(g.DateLex())
		} else {
			v.SetString(g.str())
		}
		return
	case tInf:
		if g.R.N(4) == 3 {
			v.SetFloat(math.Inf(g.R.N(3) - 1))
		} else {
			v.SetFloat(g.Float(64))
		}
		return
	case tVec:
		n := g.In(0, 4)
		if g.R.N(20) == 19 {
			n = g.In(30, 300)
		}
		xs := make(mpd.StringNoWhitespaceVectorType, n)
		for i := range xs {
			xs[i] = strings.Join(strings.Fields(g.str()), "") + "k"
		}
		v.Set(reflect.ValueOf(xs))
		return
	case tUInts:
		if g.o.Strict || g.R.N(4) != 3 {
			v.SetString(g.Lex("uints"))
			return
		}
	}
	switch v.Kind() {
	case reflect.String:
		if g.o.Str == nil {
			if w, ok := g.Word(name); ok {
				v.SetString(w)
				return
			}
		}
		v.SetString(g.str())
	case reflect.Bool:
		v.SetBool(g.B())
	case reflect.Float32, reflect.Float64:
		v.SetFloat(g.Float(v.Type().Bits()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(g.SInt(v.Type().Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(g.Bits(v.Type().Bits()))
	default:
		panic(fmt.Sprintf("no generator for %s %s", name, v.Type()))
	}
}

// Dur returns a non-negative duration which is written exactly.
func (r R) Dur() mpd.Duration {
	switch r.N(5) {
	case 0:
		return mpd.Duration(time.Duration(r.N(100000)) * time.Second)
	case 1:
		return mpd.Duration(r.N(400000)) // below half a millisecond: nanosecond precision
	case 2:
		return mpd.Duration(time.Duration(r.N(10_000_000)) * time.Millisecond)
	case 3:
		return mpd.Duration(time.Duration(r.N(2_000_000)) * time.Hour)
	}
	return mpd.Duration(time.Duration(r.U64()%9_000_000_000_000) * time.Millisecond)
}

// Float returns a finite float.
func (r R) Float(bits int) float64 {
	switch r.N(4) {
	case 0:
		return float64(r.N(100))
	case 1:
		return float64(r.SInt(32)) / 1000
	}
	if bits == 32 {
		f := math.Float32frombits(uint32(r.U64()))
		if f != f || math.IsInf(float64(f), 0) {
			return 1.5
		}
		return float64(f)
	}
	f := math.Float64frombits(r.U64())
	if f != f || math.IsInf(f, 0) {
		return 0.25
	}
	return f
}

func (g *modelgen) anyAttrs() []xml.Attr {
	var out []xml.Attr
	names := []string{"vendorAttr", "extra", "k"}
	for i := range g.In(1, 3) {
		sp := g.Pick("urn:vendor:one", "urn:vendor:two", "http://www.w3.org/1999/xlink", "http://vendor.example/ns/")
		if g.R.N(4) == 3 {
			sp = g.WildURI()
		}
		out = append(out, xml.Attr{Name: xml.Name{Space: sp, Local: names[i]}, Value: g.str()})
	}
	if g.R.N(3) == 2 {
		out = append(out, xml.Attr{Name: xml.Name{Local: "plainVendorAttr"}, Value: g.str()})
	}
	return out
}

func (g *modelgen) ext(v reflect.Value) {
	e := v.Addr().Interface().(*mpd.ExtType)
	if !g.o.NoAny && g.R.N(3) == 2 {
		e.AnyAttrs = g.anyAttrs()
	}
	e.InnerXML = g.Pick("", "", `<x xmlns="urn:ext:a">text</x>`, `<p:y xmlns:p="urn:ext:b" p:k="v"><p:z/></p:y>`, `<a xmlns=""><![CDATA[<&>]]><!-- c --><?pi d?></a>`,
		"\n  <q xmlns='urn:ext:a' a = 'b'>&lt;&#65;</q>\n", "just text", `<Ext xmlns="`+schema.NS["scte35"]+`"/>`)
}
