// Package schema is an independent table of the MPD document schema: which attributes, text and children every
// element type has, with value kinds and namespaces. It was drafted from the DASH schema mapping and reviewed by hand;
// it is data, it does not look at the code under test.
package schema

import (
	_ "embed"
	"fmt"
	"strings"
)

//go:embed mpd.schema
var text string

// Namespaces by conventional prefix.
var NS = map[string]string{
	"":        "urn:mpeg:dash:schema:mpd:2011",
	"xsi":     "http://www.w3.org/2001/XMLSchema-instance",
	"xlink":   "http://www.w3.org/1999/xlink",
	"cenc":    "urn:mpeg:cenc:2013",
	"mspr":    "urn:microsoft:playready",
	"dashif":  "https://dashif.org/CPS",
	"mas":     "urn:marlin:mas:1-0:services:schemas:mpd",
	"up14":    "urn:mpeg:dash:schema:urlparam:2014",
	"up16":    "urn:mpeg:dash:schema:urlparam:2016",
	"scte214": "urn:scte:dash:scte214-extensions",
	"scte35":  "http://www.scte.org/schemas/35",
}

// SCTE35Legacy is the other SCTE-35 namespace.
const SCTE35Legacy = "http://www.scte.org/schemas/35/2016"

// DASH is the MPD namespace.
const DASH = "urn:mpeg:dash:schema:mpd:2011"

// Flag says how an attribute may differ between input and output.
type Flag int

// Flags.
const (
	Exact   Flag = iota // present iff present
	Req                 // always present
	Zero                // optional; may be dropped if it holds its zero value
	Default             // absent and Def mean the same
)

// Attr is an attribute of a type.
type Attr struct {
	Prefix, Local, Kind string
	Flag                Flag
	Def                 string
}

// Space is the namespace of the attribute.
func (a *Attr) Space() string {
	if a.Prefix == "" {
		return ""
	}
	return NS[a.Prefix]
}

// Child is a child element slot.
type Child struct {
	Prefix, Local string
	Type          *Type  // nil for simple content
	Kind          string // simple content kind
	Card          byte   // '*' '?' '1'
	Zero          bool   // an empty element may be dropped
	typeName      string
}

// Type is an element type.
type Type struct {
	Name     string
	Scte     bool
	Attrs    []*Attr
	Kids     []*Child
	Text     string // kind of text content, "" if none
	AnyAttr  bool
	Inner    bool
	include  map[int]string
	resolved bool
}

// Types holds all types.
var Types = map[string]*Type{}

// Root is the MPD type.
var Root *Type

// TypeOrder lists types in file order.
var TypeOrder []*Type

type item struct {
	attr *Attr
	kid  *Child
	inc  string
}

func init() {
	items := map[string][]item{}
	var cur *Type
	for ln, l := range strings.Split(text, "\n") {
		f := strings.Fields(l)
		if len(f) == 0 || strings.HasPrefix(f[0], "//") {
			continue
		}
		bad := func() { panic(fmt.Sprintf("mpd.schema:%d: %q", ln+1, l)) }
		switch {
		case f[0] == "type":
			cur = &Type{Name: f[1], Scte: len(f) > 2 && f[2] == "scte35"}
			if Types[f[1]] != nil {
				bad()
			}
			Types[f[1]] = cur
			TypeOrder = append(TypeOrder, cur)
		case f[0] == "include":
			items[cur.Name] = append(items[cur.Name], item{inc: f[1]})
		case f[0] == "#text":
			cur.Text = f[1]
		case f[0] == "#inner":
			cur.Inner = true
		case f[0] == "@*":
			cur.AnyAttr = true
		case f[0][0] == '@':
			a := &Attr{Kind: f[1]}
			a.Prefix, a.Local = split(f[0][1:])
			if len(f) > 2 {
				switch {
				case f[2] == "req":
					a.Flag = Req
				case f[2] == "z":
					a.Flag = Zero
				case f[2][0] == '=':
					a.Flag, a.Def = Default, f[2][1:]
				default:
					bad()
				}
			}
			items[cur.Name] = append(items[cur.Name], item{attr: a})
		case f[0][0] == '<':
			c := &Child{typeName: f[1], Card: f[2][0]}
			c.Prefix, c.Local = split(strings.Trim(f[0], "<>"))
			if f[1][0] == '=' {
				c.Kind = f[1][1:]
			}
			c.Zero = len(f) > 3 && f[3] == "z"
			if cur.Scte && c.Prefix == "" {
				c.Prefix = "scte35"
			}
			items[cur.Name] = append(items[cur.Name], item{kid: c})
		default:
			bad()
		}
	}
	var resolve func(t *Type)
	resolve = func(t *Type) {
		if t.resolved {
			return
		}
		t.resolved = true
		for _, it := range items[t.Name] {
			switch {
			case it.attr != nil:
				t.Attrs = append(t.Attrs, it.attr)
			case it.kid != nil:
				t.Kids = append(t.Kids, it.kid)
			default:
				b := Types[it.inc]
				if b == nil {
					panic("no type " + it.inc)
				}
				resolve(b)
				t.Attrs = append(t.Attrs, b.Attrs...)
				t.Kids = append(t.Kids, b.Kids...)
				if b.Text != "" {
					t.Text = b.Text
				}
			}
		}
	}
	for _, t := range TypeOrder {
		resolve(t)
	}
	for _, t := range TypeOrder {
		for _, c := range t.Kids {
			if c.Kind == "" {
				c.Type = Types[c.typeName]
				if c.Type == nil {
					panic("no type " + c.typeName)
				}
			}
		}
	}
	Root = Types["MPD"]
	paths()
}

func split(s string) (string, string) {
	if i := strings.IndexByte(s, ':'); i >= 0 {
		return s[:i], s[i+1:]
	}
	return "", s
}

// Space is the namespace of the child given the SCTE-35 URI in use.
func (c *Child) Space(scte string) string {
	if c.Prefix == "scte35" {
		return scte
	}
	return NS[c.Prefix]
}

// Find returns the child slot with the given name.
func (t *Type) Find(space, local, scte string) (*Child, int) {
	for i, c := range t.Kids {
		if c.Local == local && c.Space(scte) == space {
			return c, i
		}
	}
	return nil, -1
}

// FindAttr returns the attribute with the given name.
func (t *Type) FindAttr(space, local string) *Attr {
	for _, a := range t.Attrs {
		if a.Local == local && a.Space() == space {
			return a
		}
	}
	return nil
}

// Slot is a place in the schema: an attribute, the text, or a child of a type; Via is the shortest path to the type.
type Slot struct {
	T    *Type
	Attr *Attr
	Kid  *Child
	Text bool
}

func (s Slot) String() string {
	switch {
	case s.Attr != nil:
		return s.T.Name + "/@" + s.Attr.Local
	case s.Kid != nil:
		return s.T.Name + "/" + s.Kid.Local
	}
	return s.T.Name + "/#text"
}

// Slots lists all slots reachable from MPD.
var Slots []Slot

// Ways lists for each type the (parent, child) slots that lead to it.
var Ways = map[*Type][]Slot{}

// Depth is the distance of a type from the root.
var Depth = map[*Type]int{}

func paths() {
	Depth[Root] = 0
	q := []*Type{Root}
	for len(q) > 0 {
		t := q[0]
		q = q[1:]
		for _, a := range t.Attrs {
			Slots = append(Slots, Slot{T: t, Attr: a})
		}
		if t.Text != "" {
			Slots = append(Slots, Slot{T: t, Text: true})
		}
		for _, c := range t.Kids {
			Slots = append(Slots, Slot{T: t, Kid: c})
			if c.Type != nil {
				Ways[c.Type] = append(Ways[c.Type], Slot{T: t, Kid: c})
				if _, ok := Depth[c.Type]; !ok {
					Depth[c.Type] = Depth[t] + 1
					q = append(q, c.Type)
				}
			}
		}
	}
}
