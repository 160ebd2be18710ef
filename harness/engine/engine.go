// Package engine drives generated-input checks: it shards a property over worker
// processes, records what was generated, writes evidence and replay files, and turns
// crashes, hangs and memory blow-ups of the code under test into violations.
package engine

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"

	"pgregory.net/rapid"
)

// Str is a byte string that survives JSON encoding (Go-quoted inside a JSON string).
type Str string

func (s Str) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(s))) }
func (s *Str) UnmarshalJSON(b []byte) error {
	var q string
	if e := json.Unmarshal(b, &q); e != nil {
		return e
	}
	u, e := strconv.Unquote(q)
	if e != nil {
		return e
	}
	*s = Str(u)
	return nil
}

// Rec collects what one case was like.
type Rec struct {
	trivial bool
	classes []string
	skips   []string
	obs     map[string]int
}

// Trivial marks the case as trivial (does not count as non-trivial).
func (r *Rec) Trivial() { r.trivial = true }

// TrivialIf marks the case as trivial if cond is set.
func (r *Rec) TrivialIf(cond bool) {
	if cond {
		r.trivial = true
	}
}

// Class adds a label to the distribution report.
func (r *Rec) Class(l string) { r.classes = append(r.classes, l) }

// ClassIf adds a label if cond is set.
func (r *Rec) ClassIf(cond bool, l string) {
	if cond {
		r.classes = append(r.classes, l)
	}
}

// Count adds n to a counter in the evidence.
func (r *Rec) Count(l string, n int) {
	if r.obs == nil {
		r.obs = map[string]int{}
	}
	r.obs[l] += n
}

// Sub is one generated check of a property.
type Sub struct {
	Name            string
	Quick, Thorough int
	Race            bool
	gen             func(*rapid.T) any
	decode          func([]byte) (any, error)
	check           func(any, *Rec) error
}

// Probe is a fixed regression case for a known finding: returns a description if the finding is still there.
type Probe struct {
	ID  string
	Run func() error
}

// Prop is a property made of several generated checks.
type Prop struct {
	ID     string
	Rule   string
	Subs   []*Sub
	Probes []Probe
}

var (
	props   = map[string]*Prop{}
	propsMu sync.Mutex
)

// Define declares a property; rule says how cases are made and what is non-trivial.
func Define(id, rule string) {
	p := get(id)
	p.Rule = rule
}

func get(id string) *Prop {
	propsMu.Lock()
	defer propsMu.Unlock()
	p := props[id]
	if p == nil {
		p = &Prop{ID: id}
		props[id] = p
	}
	return p
}

// Props returns all the properties sorted by id.
func Props() []*Prop {
	var r []*Prop
	for _, p := range props {
		r = append(r, p)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// Register adds a generated check. gen draws a JSON-serialisable case, check decides it
// (it must be a pure function of the case and the code under test).
func Register[C any](id, name string, quick, thorough int, gen func(*rapid.T) C, check func(C, *Rec) error) *Sub {
	p := get(id)
	s := &Sub{
		Name: name, Quick: quick, Thorough: thorough,
		gen: func(t *rapid.T) any { return gen(t) },
		decode: func(b []byte) (any, error) {
			var c C
			e := json.Unmarshal(b, &c)
			return c, e
		},
		check: func(c any, r *Rec) error { return check(c.(C), r) },
	}
	p.Subs = append(p.Subs, s)
	return s
}

// RegisterProbe adds a known-finding probe.
func RegisterProbe(id, finding string, run func() error) {
	p := get(id)
	p.Probes = append(p.Probes, Probe{finding, run})
}

func safeCheck(s *Sub, c any, r *Rec) (e error) {
	defer func() {
		if p := recover(); p != nil {
			if inf, is := p.(Infra); is {
				panic(inf)
			}
			e = fmt.Errorf("panic: %v\n%s", p, debug.Stack())
		}
	}()
	return s.check(c, r)
}

// Infra is a panic value meaning that the harness (not the code under test) failed.
type Infra struct{ Msg string }

func (i Infra) Error() string { return i.Msg }

// InfraFail aborts the run with an infrastructure error.
func InfraFail(format string, args ...any) { panic(Infra{fmt.Sprintf(format, args...)}) }

type quietTB struct {
	name   string
	failed atomic.Bool
	log    []string
}

type tbStop struct{}

func (t *quietTB) Helper()      {}
func (t *quietTB) Name() string { return t.name }
func (t *quietTB) Logf(f string, a ...any) {
	if len(t.log) < 50 {
		t.log = append(t.log, fmt.Sprintf(f, a...))
	}
}
func (t *quietTB) Log(a ...any)              { t.Logf("%s", fmt.Sprint(a...)) }
func (t *quietTB) Skipf(f string, a ...any)  { t.Logf(f, a...) }
func (t *quietTB) Skip(a ...any)             {}
func (t *quietTB) SkipNow()                  {}
func (t *quietTB) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed.Store(true) }
func (t *quietTB) Error(a ...any)            { t.Log(a...); t.failed.Store(true) }
func (t *quietTB) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(tbStop{}) }
func (t *quietTB) Fatal(a ...any)            { t.Error(a...); panic(tbStop{}) }
func (t *quietTB) FailNow()                  { t.failed.Store(true); panic(tbStop{}) }
func (t *quietTB) Fail()                     { t.failed.Store(true) }
func (t *quietTB) Failed() bool              { return t.failed.Load() }

func hashBytes(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func mixSeed(parts ...uint64) uint64 {
	x := uint64(0x9E3779B97F4A7C15)
	for _, p := range parts {
		x ^= p + 0x9E3779B97F4A7C15 + (x << 6) + (x >> 2)
		x ^= x >> 30
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 27
		x *= 0x94D049BB133111EB
		x ^= x >> 31
	}
	if x == 0 {
		x = 1
	}
	return x
}

func envInt(name string, def int) int {
	if v := os.Getenv(name); v != "" {
		if n, e := strconv.Atoi(v); e == nil {
			return n
		}
	}
	return def
}
