package engine

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/metrics"
	"strconv"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Failure describes a violation found by a worker.
type Failure struct {
	Prop   string          `json:"property"`
	Sub    string          `json:"check"`
	Seed   uint64          `json:"seed"`
	Shrunk bool            `json:"shrunk"`
	Msg    string          `json:"message"`
	Case   json.RawMessage `json:"case"`
}

// Sample is a case written out.
type Sample struct {
	Sub     string          `json:"check"`
	Classes []string        `json:"classes,omitempty"`
	Case    json.RawMessage `json:"case"`
}

// WorkerResult is what a worker reports.
type WorkerResult struct {
	Done    bool
	Evals   map[string]int
	Nontriv map[string]int
	Hashes  []uint64
	Classes map[string]int
	Counts  map[string]int
	Samples []Sample
	Failure *Failure
	Infra   string
}

const (
	exitOK        = 0
	exitViolation = 1
	exitInfra     = 3
)

const maxCaseMem = 3 << 30

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

type watch struct {
	gen      atomic.Uint64 // odd: a check is running
	limit    time.Duration
	onStuck  func(reason string)
	finished atomic.Bool
}

func memInUse() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func (w *watch) run() {
	lastGen := uint64(0)
	var start time.Duration
	for !w.finished.Load() {
		time.Sleep(20 * time.Millisecond)
		g := w.gen.Load()
		if g%2 == 0 {
			lastGen = g
			continue
		}
		if g != lastGen {
			lastGen = g
			start = cpuTime()
			continue
		}
		if d := cpuTime() - start; d > w.limit {
			w.onStuck(fmt.Sprintf("no result after %v of processor time for one small case", d.Round(time.Second)))
		}
		if m := memInUse(); m > maxCaseMem {
			w.onStuck(fmt.Sprintf("%d MB of live memory for one small case", m>>20))
		}
	}
}

// Worker runs one shard of a property and writes its result as JSON.
func Worker(id string, tier string, seed uint64, shard, shards int, outPath, curPath string) int {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return exitInfra
	}
	res := &WorkerResult{Evals: map[string]int{}, Nontriv: map[string]int{}, Classes: map[string]int{}, Counts: map[string]int{}}
	seen := map[uint64]struct{}{}
	cur, e := os.OpenFile(curPath, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if e != nil {
		fmt.Fprintln(os.Stderr, e)
		return exitInfra
	}
	defer cur.Close()

	write := func() {
		for h := range seen {
			res.Hashes = append(res.Hashes, h)
		}
		b, e := json.Marshal(res)
		if e == nil {
			e = os.WriteFile(outPath, b, 0o644)
		}
		if e != nil {
			fmt.Fprintln(os.Stderr, e)
			os.Exit(exitInfra)
		}
	}

	limit := 20 * time.Second
	if tier == "thorough" {
		limit = 60 * time.Second
	}
	w := &watch{limit: limit}
	var lastCase atomic.Pointer[Failure]
	w.onStuck = func(reason string) {
		f := *lastCase.Load()
		f.Msg = reason
		// the main goroutine is stuck inside a check: its maps are not being changed
		res.Failure = &f
		write()
		buf := make([]byte, 1<<16)
		n := runtime.Stack(buf, true)
		os.Stderr.Write(buf[:n])
		os.Exit(exitViolation)
	}
	go w.run()
	defer w.finished.Store(true)

	must := func(e error) {
		if e != nil {
			fmt.Fprintln(os.Stderr, e)
			os.Exit(exitInfra)
		}
	}
	must(flag.Set("rapid.nofailfile", "true"))
	shrink := "20s"
	if tier == "thorough" {
		shrink = "60s"
	}
	must(flag.Set("rapid.shrinktime", shrink))

	only := os.Getenv("VERIF_ONLY")
	scale := 100
	scale = envInt("VERIF_SCALE", scale)
	for si, s := range p.Subs {
		if only != "" && only != s.Name {
			continue
		}
		total := s.Quick
		if tier == "thorough" {
			total = s.Thorough
		}
		total = total * scale / 100
		n := total / shards
		if shard < total%shards {
			n++
		}
		if n <= 0 {
			continue
		}
		sseed := mixSeed(seed, hashBytes([]byte(id)), uint64(si)+1, hashBytes([]byte(s.Name)), uint64(shard)+1)
		must(flag.Set("rapid.seed", strconv.FormatUint(sseed, 10)))
		must(flag.Set("rapid.checks", strconv.Itoa(n)))

		var last *Failure
		failed := false
		var infra string
		runOne := func(t *rapid.T) {
			// a death of the process while a case is being made is not a violation
			cur.WriteAt([]byte(fmt.Sprintf("%-20s %10d\n", s.Name, -1)), 0)
			c := s.gen(t)
			b, e := json.Marshal(c)
			if e != nil {
				panic(Infra{"cannot encode case: " + e.Error()})
			}
			f := &Failure{Prop: id, Sub: s.Name, Seed: seed, Case: b}
			lastCase.Store(f)
			hdr := fmt.Sprintf("%-20s %10d\n", s.Name, len(b))
			cur.WriteAt(append([]byte(hdr), b...), 0)
			rec := &Rec{}
			w.gen.Add(1)
			err := safeCheck(s, c, rec)
			w.gen.Add(1)
			if !failed {
				res.Evals[s.Name]++
				for _, l := range rec.classes {
					res.Classes[s.Name+": "+l]++
				}
				for k, v := range rec.obs {
					res.Counts[s.Name+": "+k] += v
				}
				if !rec.trivial {
					res.Nontriv[s.Name]++
					h := hashBytes(append([]byte(s.Name), b...))
					if _, has := seen[h]; !has {
						seen[h] = struct{}{}
						k := len(seen)
						if k <= 2 || k&(k-1) == 0 && len(b) < 4000 && shard == 0 {
							if len(res.Samples) < 12 {
								res.Samples = append(res.Samples, Sample{s.Name, rec.classes, b})
							}
						}
					}
				}
			}
			if err != nil {
				failed = true
				f.Msg = err.Error()
				f.Shrunk = last != nil
				last = f
				t.Fatalf("violation")
			}
		}
		tb := &quietTB{name: id + "-" + s.Name}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(tbStop); is {
						return
					}
					infra = fmt.Sprint(r)
				}
			}()
			rapid.Check(tb, func(t *rapid.T) {
				defer func() {
					if r := recover(); r != nil {
						if i, is := r.(Infra); is {
							infra = i.Msg
							fmt.Fprintln(os.Stderr, "harness error:", infra)
							os.Exit(exitInfra)
						}
						panic(r)
					}
				}()
				runOne(t)
			})
		}()
		if last != nil {
			res.Failure = last
			write()
			return exitViolation
		}
		if infra != "" || tb.Failed() {
			res.Infra = infra + fmt.Sprint(tb.log)
			fmt.Fprintln(os.Stderr, "harness error in", s.Name, res.Infra)
			write()
			return exitInfra
		}
	}
	res.Done = true
	write()
	return exitOK
}
