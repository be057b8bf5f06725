package props

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"

	"verif/harness/kit"
)

// links is the reference model of containment and parent links.
type links struct {
	mpds  []*mpd.MPD
	pers  []*mpd.Period
	sets  []*mpd.AdaptationSetType
	reps  []*mpd.RepresentationType
	subs  []*mpd.SubRepresentationType
	kids  map[any][]any // children in list order; empty adaptation sets after the adaptation sets
	empty map[any]int   // period: number of empty adaptation sets at the end of kids
	par   map[any]any
	cand  map[any][]any // containers of an object in several places, any of which may have become its parent
	log   []string
}

func (l *links) own(x any) []any {
	var out []any
	switch v := x.(type) {
	case *mpd.MPD:
		for _, k := range v.Periods {
			out = append(out, k)
		}
	case *mpd.Period:
		for _, k := range v.AdaptationSets {
			out = append(out, k)
		}
		for _, k := range v.EmptyAdaptationSets {
			out = append(out, k)
		}
	case *mpd.AdaptationSetType:
		for _, k := range v.Representations {
			out = append(out, k)
		}
	case *mpd.RepresentationType:
		for _, k := range v.SubRepresentations {
			out = append(out, k)
		}
	}
	return out
}

func parentOf(x any) any {
	switch v := x.(type) {
	case *mpd.Period:
		if p := v.Parent(); p != nil {
			return p
		}
	case *mpd.AdaptationSetType:
		if p := v.Parent(); p != nil {
			return p
		}
	case *mpd.RepresentationType:
		if p := v.Parent(); p != nil {
			return p
		}
	case *mpd.SubRepresentationType:
		if p := v.Parent(); p != nil {
			return p
		}
	}
	return nil
}

func newLinks() *links {
	return &links{kids: map[any][]any{}, empty: map[any]int{}, par: map[any]any{}, cand: map[any][]any{}}
}

// add registers a tree in the model; linked tells whether its links must be set.
func (l *links) add(x any, parent any, linked bool) {
	switch v := x.(type) {
	case *mpd.MPD:
		l.mpds = append(l.mpds, v)
	case *mpd.Period:
		l.pers = append(l.pers, v)
		l.empty[x] = len(v.EmptyAdaptationSets)
	case *mpd.AdaptationSetType:
		l.sets = append(l.sets, v)
	case *mpd.RepresentationType:
		l.reps = append(l.reps, v)
	case *mpd.SubRepresentationType:
		l.subs = append(l.subs, v)
	}
	if linked {
		l.par[x] = parent
		l.cand[x] = append(l.cand[x], parent)
	}
	l.kids[x] = l.own(x)
	for _, k := range l.kids[x] {
		l.add(k, x, linked)
	}
}

func (l *links) setParents(x any) {
	for _, k := range l.kids[x] {
		l.par[k] = x
		l.cand[k] = append(l.cand[k], x)
		l.setParents(k)
	}
}

func (l *links) check(r kit.R) {
	for x, ps := range l.cand {
		if p := parentOf(x); slices.Contains(ps, p) {
			l.par[x] = p
		}
	}
	clear(l.cand)
	one := func(x any) {
		own, want := l.own(x), l.kids[x]
		if len(own) != len(want) {
			r.Fatalf("%T has %d children, want %d\n%s", x, len(own), len(want), strings.Join(l.log, "\n"))
		}
		for i := range own {
			if own[i] != want[i] {
				r.Fatalf("child %d of %T is another object\n%s", i, x, strings.Join(l.log, "\n"))
			}
		}
		if _, top := x.(*mpd.MPD); !top && parentOf(x) != l.par[x] {
			r.Fatalf("parent of %T is %p, want %p\n%s", x, parentOf(x), l.par[x], strings.Join(l.log, "\n"))
		}
	}
	for _, x := range l.mpds {
		one(x)
	}
	for _, x := range l.pers {
		one(x)
		if n := len(x.EmptyAdaptationSets); n != l.empty[any(x)] {
			r.Fatalf("period has %d empty adaptation sets, want %d\n%s", n, l.empty[any(x)], strings.Join(l.log, "\n"))
		}
	}
	for _, x := range l.sets {
		one(x)
	}
	for _, x := range l.reps {
		one(x)
	}
	for _, x := range l.subs {
		one(x)
	}
}

// insertKid adds a child at the end of the main list.
func (l *links) appendKid(parent, kid any) {
	ks := l.kids[parent]
	at := len(ks) - l.empty[parent]
	l.kids[parent] = append(ks[:at:at], append([]any{kid}, ks[at:]...)...)
	l.par[kid] = parent
}

// wear gives an object content other than its children.
func wear[T any](r kit.R, x *T) *T {
	if r.P(8) {
		kit.Dress(r, x, "AdaptationSets", "EmptyAdaptationSets", "Representations", "SubRepresentations")
	}
	switch v := any(x).(type) {
	case *mpd.Period:
		drawID(r, v)
	case *mpd.AdaptationSetType:
		if r.P(20) {
			v.Id = mpd.Ptr(uint32(r.N(2)))
		}
		if r.P(10) {
			v.XlinkHref = "urn:x"
		}
	}
	return x
}

// tree builds a tree of literals without links.
func literalSet(r kit.R) *mpd.AdaptationSetType {
	a := wear(r, &mpd.AdaptationSetType{})
	for range r.N(3) {
		rep := wear(r, &mpd.RepresentationType{Id: "r"})
		for range r.N(3) {
			rep.SubRepresentations = append(rep.SubRepresentations, wear(r, &mpd.SubRepresentationType{}))
		}
		a.Representations = append(a.Representations, rep)
	}
	return a
}

func literalPeriod(r kit.R) *mpd.Period {
	p := wear(r, &mpd.Period{})
	for range r.N(3) {
		p.AdaptationSets = append(p.AdaptationSets, literalSet(r))
	}
	for range r.N(3) {
		p.EmptyAdaptationSets = append(p.EmptyAdaptationSets, literalSet(r))
	}
	return p
}

// TestC12 runs histories of container operations against the model.
func TestC12(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		l := newLinks()
		l.add(mpd.NewMPD("dynamic"), nil, true)
		steps := r.In(3, 40)
		for range steps {
			op := r.N(14)
			if r.N(200) == 199 {
				op = 14
			}
			name := ""
			switch op {
			case 14: // very many appended
				n := r.Pick2(r.In(30, 70), r.In(125, 270), r.In(500, 1100))
				if l.size() > 1500 {
					continue
				}
				switch k := r.N(4); {
				case k == 1 && len(l.pers) > 0:
					p := l.pers[r.N(len(l.pers))]
					for range n {
						a := wear(r, mpd.NewAdaptationSet())
						l.add(a, nil, false)
						p.AppendAdaptationSet(a)
						l.appendKid(p, a)
					}
				case k == 2 && len(l.sets) > 0:
					a := l.sets[r.N(len(l.sets))]
					for range n {
						rep := wear(r, mpd.NewRepresentation())
						l.add(rep, nil, false)
						a.AppendRepresentation(rep)
						l.appendKid(a, rep)
					}
				case k == 3 && len(l.reps) > 0:
					rep := l.reps[r.N(len(l.reps))]
					for range n {
						s := wear(r, mpd.NewSubRepresentation())
						l.add(s, nil, false)
						rep.AppendSubRepresentation(s)
						l.appendKid(rep, s)
					}
				default:
					m := l.mpds[r.N(len(l.mpds))]
					for range n {
						p := wear(r, mpd.NewPeriod())
						l.add(p, nil, false)
						m.AppendPeriod(p)
						l.appendKid(m, p)
					}
				}
				name = fmt.Sprintf("append %d", n/100*100)
			case 0:
				m := mpd.NewMPD("static")
				for range r.N(3) {
					m.Periods = append(m.Periods, literalPeriod(r))
				}
				l.add(m, nil, false)
				name = "new MPD"
			case 1:
				l.add(literalPeriod(r), nil, false)
				name = "new Period"
			case 2:
				l.add(literalSet(r), nil, false)
				name = "new AdaptationSet"
			case 3:
				rep := mpd.NewRepresentationWithID("x", "c", "m", 1)
				l.add(rep, nil, false)
				sr := wear(r, mpd.NewSubRepresentation())
				l.add(sr, nil, false)
				name = "new Representation"
			case 4, 5:
				m := l.mpds[r.N(len(l.mpds))]
				p := wear(r, mpd.NewPeriod())
				if len(l.pers) > 0 && r.B() {
					p = l.pers[r.N(len(l.pers))]
				} else {
					l.add(p, nil, false)
				}
				m.AppendPeriod(p)
				l.appendKid(m, p)
				name = "AppendPeriod"
			case 6, 7:
				if len(l.pers) == 0 {
					continue
				}
				p := l.pers[r.N(len(l.pers))]
				a := wear(r, mpd.NewAdaptationSet())
				if len(l.sets) > 0 && r.B() {
					a = l.sets[r.N(len(l.sets))]
				} else {
					l.add(a, nil, false)
				}
				p.AppendAdaptationSet(a)
				l.appendKid(p, a)
				name = "AppendAdaptationSet"
			case 8, 9:
				if len(l.sets) == 0 {
					continue
				}
				a := l.sets[r.N(len(l.sets))]
				rep := wear(r, mpd.NewRepresentation())
				if len(l.reps) > 0 && r.B() {
					rep = l.reps[r.N(len(l.reps))]
				} else {
					l.add(rep, nil, false)
				}
				a.AppendRepresentation(rep)
				l.appendKid(a, rep)
				name = "AppendRepresentation"
			case 10:
				if len(l.reps) == 0 {
					continue
				}
				rep := l.reps[r.N(len(l.reps))]
				s := wear(r, mpd.NewSubRepresentation())
				if len(l.subs) > 0 && r.B() {
					s = l.subs[r.N(len(l.subs))]
				} else {
					l.add(s, nil, false)
				}
				rep.AppendSubRepresentation(s)
				l.appendKid(rep, s)
				name = "AppendSubRepresentation"
			case 11:
				switch k := r.N(4); {
				case k == 1 && len(l.pers) > 0:
					p := l.pers[r.N(len(l.pers))]
					p.SetParents()
					l.setParents(p)
				case k == 2 && len(l.sets) > 0:
					a := l.sets[r.N(len(l.sets))]
					a.SetParents()
					l.setParents(a)
				case k == 3 && len(l.reps) > 0:
					rep := l.reps[r.N(len(l.reps))]
					rep.SetParents()
					l.setParents(rep)
				default:
					m := l.mpds[r.N(len(l.mpds))]
					m.SetParents()
					l.setParents(m)
				}
				name = "SetParents"
			case 12: // clone something
				if l.size() > 400 {
					continue
				}
				switch k := r.N(3); {
				case k == 1 && len(l.pers) > 0:
					l.add(l.pers[r.N(len(l.pers))].Clone(), nil, true)
				case k == 2 && len(l.sets) > 0:
					l.add(l.sets[r.N(len(l.sets))].Clone(), nil, true)
				default:
					l.add(mpd.Clone(l.mpds[r.N(len(l.mpds))]), nil, true)
				}
				name = "clone"
			case 13: // write and read
				if l.size() > 400 {
					continue
				}
				m := l.mpds[r.N(len(l.mpds))]
				l.add(mustRead(r, mustWrite(r, m, drawIndent(r), r.B())), nil, true)
				name = "read"
			}
			l.log = append(l.log, name)
			c.Label("%s", name)
			l.check(r)
		}
		// Links do not show in what is written.
		m := l.mpds[r.N(len(l.mpds))]
		with := mustWrite(r, m, "", false)
		for _, x := range l.pers {
			x.SetParent(nil)
		}
		for _, x := range l.sets {
			x.SetParent(nil)
		}
		for _, x := range l.reps {
			x.SetParent(nil)
		}
		for _, x := range l.subs {
			x.SetParent(nil)
		}
		if out := mustWrite(r, m, "", false); out != with {
			r.Fatalf("written differently without parents:\n%s\n%s", with, out)
		}
		m.SetParents()
		if out := mustWrite(r, m, "", false); out != with {
			r.Fatalf("written differently after SetParents:\n%s\n%s", with, out)
		}
		c.Key(strings.Join(l.log, ","), fmt.Sprint(l.size()))
		c.NonTrivial(len(l.log) > 3)
		c.Sample(func() string { return strings.Join(l.log, ", ") })
	})
}

func (l *links) size() int {
	return len(l.mpds) + len(l.pers) + len(l.sets) + len(l.reps) + len(l.subs)
}

// TestC12_docs checks all links in documents as read.
func TestC12_docs(t *testing.T) {
	kit.Check(t, 0.3, func(r kit.R, c *kit.Case) {
		d := drawDoc(r, "all", nil, kit.DocOpts{})
		src := plain(d)
		m := mustRead(r, src)
		l := newLinks()
		l.add(m, nil, true)
		l.log = append(l.log, src)
		l.check(r)
		if len(l.pers)+len(l.sets)+len(l.reps) > 0 {
			c.NonTrivial(true)
		}
		c.Key(src)
		c.Label("document")
		c.Sample(func() string { return src })
	})
}

// cut gives n lists that lie one behind the other in one array, so that the spare capacity of each is the next.
func cut[T any](r kit.R, n int, make1 func() T) [][]T {
	var all []T
	ends := []int{0}
	for range n {
		for range r.N(4) {
			all = append(all, make1())
		}
		ends = append(ends, len(all))
	}
	var out [][]T
	for i := range n {
		out = append(out, all[ends[i]:ends[i+1]])
	}
	return out
}

// TestC12_array sets parents in trees whose lists share arrays.
func TestC12_array(t *testing.T) {
	kit.Check(t, 0.3, func(r kit.R, c *kit.Case) {
		subs := cut(r, 8, func() *mpd.SubRepresentationType { return wear(r, &mpd.SubRepresentationType{}) })
		reps := cut(r, 12, func() *mpd.RepresentationType {
			rep := wear(r, &mpd.RepresentationType{})
			if len(subs) > 0 && r.B() {
				rep.SubRepresentations, subs = subs[0], subs[1:]
			}
			return rep
		})
		sets := cut(r, 12, func() *mpd.AdaptationSetType {
			a := wear(r, &mpd.AdaptationSetType{})
			if len(reps) > 0 && r.B() {
				a.Representations, reps = reps[0], reps[1:]
			}
			return a
		})
		pers := cut(r, 2, func() *mpd.Period {
			p := wear(r, &mpd.Period{})
			if len(sets) > 1 {
				k := r.N(2)
				p.AdaptationSets, p.EmptyAdaptationSets, sets = sets[k], sets[1-k], sets[2:]
			}
			return p
		})
		l := newLinks()
		for _, ps := range pers {
			m := mpd.NewMPD("static")
			m.Periods = ps
			l.add(m, nil, false)
		}
		for range r.In(1, 4) {
			switch k := r.N(4); {
			case k == 1 && len(l.pers) > 0:
				p := l.pers[r.N(len(l.pers))]
				p.SetParents()
				l.setParents(p)
			case k == 2 && len(l.sets) > 0:
				a := l.sets[r.N(len(l.sets))]
				a.SetParents()
				l.setParents(a)
			case k == 3 && len(l.reps) > 0:
				rep := l.reps[r.N(len(l.reps))]
				rep.SetParents()
				l.setParents(rep)
			default:
				m := l.mpds[r.N(len(l.mpds))]
				m.SetParents()
				l.setParents(m)
			}
			l.check(r)
		}
		c.Key(fmt.Sprint(len(l.pers), len(l.sets), len(l.reps), len(l.subs), r.U64()))
		c.NonTrivial(len(l.sets) > 1)
		c.Label("lists in one array")
		c.Sample(func() string {
			return fmt.Sprintf("%d periods, %d sets, %d representations, %d sub-representations", len(l.pers), len(l.sets), len(l.reps), len(l.subs))
		})
	})
}
