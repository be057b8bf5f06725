package kit

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/metrics"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

type stats struct {
	mu      sync.Mutex
	evals   int64
	nontriv int64
	hashes  map[uint64]struct{}
	labels  map[string]int64
	samples []string
	nextS   int64
}

var st = &stats{hashes: map[uint64]struct{}{}, labels: map[string]int64{}}

// Case is one generated case.
type Case struct {
	key     uint64
	hasKey  bool
	nontriv bool
	labels  []string
	sample  func() string
	input   atomic.Pointer[string]
}

// Key identifies the case for counting distinct ones.
func (c *Case) Key(parts ...string) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	c.key, c.hasKey = h.Sum64(), true
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (c *Case) NonTrivial(b bool) { c.nontriv = c.nontriv || b }

// Label counts a class of cases.
func (c *Case) Label(f string, a ...any) {
	if len(a) > 0 {
		f = fmt.Sprintf(f, a...)
	}
	c.labels = append(c.labels, f)
}

// Sample gives the case in readable form.
func (c *Case) Sample(f func() string) { c.sample = f }

// Input remembers the input in progress, for the hang report.
func (c *Case) Input(s string) { c.input.Store(&s) }

func (c *Case) commit() {
	st.mu.Lock()
	defer st.mu.Unlock()
	st.evals++
	for _, l := range c.labels {
		st.labels[l]++
	}
	if c.nontriv {
		if c.hasKey {
			st.hashes[c.key] = struct{}{}
		}
		st.nontriv++
		if st.nontriv >= st.nextS && len(st.samples) < 4 && c.sample != nil {
			s := c.sample()
			if len(s) > 1500 {
				s = s[:1500] + "...(cut)"
			}
			st.samples = append(st.samples, strings.ToValidUTF8(s, "?"))
			st.nextS = st.nontriv*6 + 3
		}
	}
}

var baseChecks = -1

// Check runs prop as a rapid property with weight times the configured number of cases.
func Check(t *testing.T, weight float64, prop func(r R, c *Case)) {
	t.Helper()
	f := flag.Lookup("rapid.checks")
	if baseChecks < 0 {
		baseChecks, _ = strconv.Atoi(f.Value.String())
	}
	n := int(float64(baseChecks)*weight + 0.5)
	if n < 1 {
		n = 1
	}
	_ = f.Value.Set(strconv.Itoa(n))
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{}
		begin(c)
		prop(R{rt}, c)
		end()
		c.commit()
	})
	end()
}

// Enum runs a deterministic enumeration of n cases, split over the shards.
func Enum(t *testing.T, n int, prop func(t *testing.T, i int, c *Case)) {
	t.Helper()
	sh, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	ns, _ := strconv.Atoi(os.Getenv("VERIF_SHARDS"))
	if ns < 1 {
		ns = 1
	}
	for i := range n {
		if i%ns != sh {
			continue
		}
		c := &Case{}
		begin(c)
		prop(t, i, c)
		end()
		if t.Failed() {
			t.FailNow()
		}
		c.commit()
	}
}

// Watchdog: a case that burns a lot of CPU time or sleeps for minutes is reported as a hang with its input.
var current atomic.Pointer[Case]

func cpu() int64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func begin(c *Case) {
	current.Store(c)
}

func end() { current.Store(nil) }

func watchdog() {
	var last *Case
	var cpu0 int64
	var wall0 time.Time
	mem := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(200 * time.Millisecond)
		c := current.Load()
		if c == nil || c != last {
			last, cpu0, wall0 = c, cpu(), time.Now()
			continue
		}
		metrics.Read(mem)
		what := ""
		switch {
		case cpu()-cpu0 > 45e9 || time.Since(wall0) > 400*time.Second:
			what = "does not terminate"
		case mem[0].Value.Uint64() > 3<<30:
			what = "uses memory without bound"
		default:
			continue
		}
		in := "(not recorded)"
		if p := c.input.Load(); p != nil {
			in = *p
			if len(in) > 5000 {
				in = in[:5000] + "...(cut)"
			}
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Printf("VERIF-HANG: one case %s\ninput: %q\n%s\n", what, in, buf)
		os.Exit(3)
	}
}

// Main runs the tests and writes the statistics.
func Main(m *testing.M) {
	flag.Parse()
	go watchdog()
	code := m.Run()
	if p := os.Getenv("VERIF_STATS"); p != "" {
		out := map[string]any{"evaluations": st.evals, "nontrivial": st.nontriv, "labels": st.labels, "samples": st.samples}
		b, _ := json.Marshal(out)
		_ = os.WriteFile(p+".json", b, 0o644)
		hb := make([]byte, 0, 8*len(st.hashes))
		for h := range st.hashes {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
		_ = os.WriteFile(p+".hash", hb, 0o644)
	}
	os.Exit(code)
}

// Fatalf fails the case.
func (r R) Fatalf(f string, a ...any) { r.T.Helper(); r.T.Fatalf(f, a...) }
