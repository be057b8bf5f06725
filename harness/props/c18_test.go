package props

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Eyevinn/dash-mpd/mpd"
	fork "github.com/Eyevinn/dash-mpd/xml"

	"verif/harness/kit"
	"verif/harness/xt"
)

// answers calls all methods without arguments below v and renders their results.
func answers(v any) string {
	var sb strings.Builder
	seen := map[uintptr]bool{}
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			for i := range v.NumMethod() {
				n := v.Type().Method(i).Name
				if v.Method(i).Type().NumIn() == 0 && !strings.HasPrefix(n, "Set") && n != "Clone" {
					for _, o := range v.Method(i).Call(nil) {
						switch o.Kind() {
						case reflect.Pointer, reflect.Slice, reflect.Map:
							fmt.Fprintf(&sb, "%s=%v ", n, o.IsNil() || o.Kind() == reflect.Slice && o.Len() == 0)
						case reflect.Struct:
							fmt.Fprintf(&sb, "%s={} ", n)
						default:
							fmt.Fprintf(&sb, "%s=%v ", n, o.Interface())
						}
					}
				}
			}
			rec(v.Elem())
		case reflect.Slice:
			n := v.Len()
			for i := range n {
				// The start of a late period is costly to work out.
				if i >= 20 && i != n/2 && i != n-1 {
					continue
				}
				if e := v.Index(i); e.Kind() == reflect.Struct {
					rec(e.Addr())
				} else {
					rec(e)
				}
			}
		case reflect.Struct:
			if v.Type() == reflect.TypeOf(time.Time{}) {
				return
			}
			for i := range v.NumField() {
				if v.Type().Field(i).IsExported() {
					if f := v.Field(i); f.Kind() == reflect.Struct && f.CanAddr() {
						rec(f.Addr())
					} else {
						rec(f)
					}
				}
			}
		}
	}
	rec(reflect.ValueOf(v))
	if m, ok := v.(*mpd.MPD); ok {
		n := len(m.Periods)
		for i, p := range m.Periods {
			if i >= 20 && i != n/2 && i != n-1 {
				continue
			}
			s, err := p.AbsoluteStart(m)
			fmt.Fprint(&sb, s, err)
		}
	}
	return sb.String()
}

var serial18 atomic.Int64

// unseen gives a struct type no one has seen before.
func unseen(t reflect.Type) reflect.Type {
	var fs []reflect.StructField
	for i := range t.NumField() {
		fs = append(fs, t.Field(i))
	}
	return reflect.StructOf(append(fs, reflect.StructField{Name: fmt.Sprintf("Serial%d", serial18.Add(1)), Type: reflect.TypeOf(0), Tag: `xml:"-"`}))
}

// TestC18 runs operations concurrently and then one by one.
func TestC18(t *testing.T) {
	kit.Check(t, 1, func(r kit.R, c *kit.Case) {
		var ms []*mpd.MPD
		var docs [][]byte
		for range 2 {
			m, _ := kit.GenMPD(r, kit.ModelOpts{})
			m.SetParents()
			ms = append(ms, m)
			d := drawDoc(r, "all", nil, kit.DocOpts{Foreign: r.B()})
			docs = append(docs, []byte(xt.Write(d.Root, kit.WildStyle(r, d.Root))))
		}
		if r.B() {
			docs = append(docs, []byte(kit.XMLText(r, kit.GenXML(r, kit.XMLOpts{Big: true}))))
		}
		type op struct {
			name string
			f    func() string
		}
		anyDoc := func() []byte { return docs[r.N(len(docs))] }
		// Types seen by several goroutines for the first time.
		type newType struct {
			t    reflect.Type
			v    reflect.Value
			text []byte
		}
		var types []newType
		for range r.In(1, 3) {
			tw := drawStruct(r, 2, true)
			nt := newType{t: unseen(tw.f)}
			nt.v = reflect.New(nt.t)
			fill20(r, nt.v.Elem(), 0)
			old := reflect.New(tw.f) // the type without the extra field is written here
			for i := range tw.f.NumField() {
				if old.Elem().Field(i).CanSet() {
					old.Elem().Field(i).Set(nt.v.Elem().Field(i))
				}
			}
			_, _ = try(func() error { var err error; nt.text, err = fork.Marshal(old.Interface()); return err })
			types = append(types, nt)
		}
		catch := func(f func() string) func() string {
			return func() (s string) {
				defer func() {
					if p := recover(); p != nil {
						s = fmt.Sprintf("panic: %v", p)
					}
				}()
				return f()
			}
		}
		draw := func() op {
			m := ms[r.N(len(ms))]
			switch r.N(11) {
			case 0, 1:
				d := anyDoc()
				return op{"read", func() string {
					m, err := mpd.MPDFromBytes(d)
					if err != nil {
						return err.Error()
					}
					return kit.Dump(m) + answers(m)
				}}
			case 2, 3:
				ind, hdr := drawIndent(r), r.B()
				return op{"write shared", func() string {
					s, err := m.WriteToString(ind, hdr)
					return fmt.Sprint(s, err)
				}}
			case 4:
				x := r.N(3)
				return op{"clone", func() string {
					cl := mpd.Clone(m)
					before := kit.Dump(cl)
					switch x { // the copy is the goroutine's own
					case 0:
						cl.Profiles = "changed"
						cl.AppendPeriod(mpd.NewPeriod())
					case 1:
						eachPtr(reflect.ValueOf(cl), func(p any) {
							if e, ok := p.(*mpd.DescriptorType); ok {
								e.Value = "changed"
							}
						})
					}
					s, err := cl.WriteToString("", false)
					return before + fmt.Sprint(s, err)
				}}
			case 5:
				return op{"query", func() string { return answers(m) }}
			case 6, 7:
				nt := types[r.N(len(types))]
				return op{"marshal new type", catch(func() string {
					b, err := fork.Marshal(nt.v.Interface())
					return fmt.Sprint(string(b), err)
				})}
			case 8:
				nt := types[r.N(len(types))]
				return op{"unmarshal new type", catch(func() string {
					v := reflect.New(nt.t)
					err := fork.Unmarshal(nt.text, v.Interface())
					return kit.Dump(v.Interface()) + fmt.Sprint(err)
				})}
			case 9:
				d := anyDoc()
				return op{"tokens", func() string {
					dec := fork.NewDecoder(bytes.NewReader(d))
					var sb strings.Builder
					for {
						t, err := dec.Token()
						if err != nil {
							return sb.String() + err.Error()
						}
						fmt.Fprintf(&sb, "%T %v\n", t, t)
					}
				}}
			}
			lim, kind := r.N(3000), r.N(len(faultKinds))
			return op{"failing write", func() string {
				w := &faultWriter{limit: lim, kind: kind}
				n, err := m.Write(w, " ", true)
				return fmt.Sprint(n, err, string(w.got))
			}}
		}
		n := r.In(2, 8)
		plan := make([][]op, n)
		names := ""
		same := r.N(4) == 3 // all do the same
		for i := range plan {
			for range r.In(1, 4) {
				plan[i] = append(plan[i], draw())
			}
			if same && i > 0 {
				plan[i] = plan[0]
			}
			for _, o := range plan[i] {
				names += o.name + ","
				c.Label("op:%s", o.name)
			}
			names += "; "
		}
		c.Input(names)
		var before []string
		for _, m := range ms {
			before = append(before, kit.Dump(m))
		}
		got := make([][]string, n)
		var ready, done sync.WaitGroup
		start := make(chan struct{})
		for i := range plan {
			ready.Add(1)
			done.Add(1)
			go func() {
				defer done.Done()
				ready.Done()
				<-start
				for _, o := range plan[i] {
					got[i] = append(got[i], o.f())
					runtime.Gosched()
				}
			}()
		}
		ready.Wait()
		close(start)
		done.Wait()
		for i := range plan {
			for j, o := range plan[i] {
				if want := o.f(); got[i][j] != want {
					r.Fatalf("%s of goroutine %d (%s) differs from the same alone\n%s", o.name, i, names, firstDiff(want, got[i][j]))
				}
			}
		}
		for i, m := range ms {
			if s := kit.Dump(m); s != before[i] {
				r.Fatalf("a shared MPD has changed (%s)\n%s", names, firstDiff(before[i], s))
			}
		}
		c.Key(names, before[0], string(docs[0]))
		c.NonTrivial(n > 1)
		c.Label("goroutines:%d", n)
		c.Sample(func() string { return names })
	})
}
