package engine

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Config is one run of a check.
type Config struct {
	ID       string
	Tier     string
	Seed     uint64
	Root     string // /verif
	WorkDir  string // scratch folder
	Shards   int
	Findings []Finding
}

// Finding is an entry of the known-findings file.
type Finding struct {
	Prop, ID, Text string
}

// LoadFindings reads KNOWN-FINDING entries: "KNOWN-FINDING: property=<id> finding=<fid> text".
func LoadFindings(path string) ([]Finding, error) {
	b, e := os.ReadFile(path)
	if e != nil {
		if os.IsNotExist(e) {
			return nil, nil
		}
		return nil, e
	}
	var r []Finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "KNOWN-FINDING:") {
			continue
		}
		f := strings.SplitN(strings.TrimSpace(strings.TrimPrefix(l, "KNOWN-FINDING:")), " ", 3)
		if len(f) != 3 || !strings.HasPrefix(f[0], "property=") || !strings.HasPrefix(f[1], "finding=") {
			return nil, fmt.Errorf("bad known-findings line: %s", l)
		}
		r = append(r, Finding{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "finding="), f[2]})
	}
	return r, nil
}

func (c *Config) replayPath(f *Failure) string {
	return filepath.Join(c.Root, "replays", fmt.Sprintf("%s-%s-%016x.json", c.ID, f.Sub, hashBytes(f.Case)))
}

func (c *Config) report(f *Failure) {
	path := c.replayPath(f)
	os.MkdirAll(filepath.Dir(path), 0o755)
	b, _ := json.MarshalIndent(f, "", " ")
	if e := os.WriteFile(path, append(b, '\n'), 0o644); e != nil {
		fmt.Println("cannot write replay:", e)
	}
	msg := f.Msg
	if len(msg) > 3000 {
		msg = msg[:3000] + "..."
	}
	fmt.Printf("check %s/%s failed: %s\ncase: %s\n", c.ID, f.Sub, msg, trunc(string(f.Case), 3000))
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Run runs the property and returns the exit code.
func Run(c *Config) int {
	start := time.Now()
	p := props[c.ID]
	if p == nil {
		fmt.Println("unknown property", c.ID)
		return 2
	}
	if c.Shards <= 0 {
		c.Shards = runtime.NumCPU()
	}
	exe, e := os.Executable()
	if e != nil {
		fmt.Println(e)
		return 2
	}

	type wres struct {
		res  *WorkerResult
		code int
		err  string
		sig  bool
		cur  *Failure
	}
	results := make([]wres, c.Shards)
	var wg sync.WaitGroup
	for i := 0; i < c.Shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(c.WorkDir, fmt.Sprintf("out%d.json", i))
			curf := filepath.Join(c.WorkDir, fmt.Sprintf("cur%d.txt", i))
			cmd := exec.Command(exe, "-worker", "-p", c.ID, "-tier", c.Tier, "-seed", strconv.FormatUint(c.Seed, 10),
				"-shard", strconv.Itoa(i), "-shards", strconv.Itoa(c.Shards), "-out", out, "-cur", curf)
			cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+filepath.Join(c.WorkDir, fmt.Sprintf("w%d", i)), "GOMAXPROCS=4", "GOTRACEBACK=single")
			var eb bytes.Buffer
			cmd.Stderr = &eb
			cmd.Stdout = &eb
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			runtime.LockOSThread()
			e := cmd.Run()
			runtime.UnlockOSThread()
			r := wres{err: eb.String()}
			if e != nil {
				r.code = -1
				if ee, is := e.(*exec.ExitError); is {
					r.code = ee.ExitCode()
					if ws, is := ee.Sys().(syscall.WaitStatus); is && ws.Signaled() {
						r.sig = true
					}
				}
			}
			if b, e := os.ReadFile(out); e == nil {
				wr := &WorkerResult{}
				if json.Unmarshal(b, wr) == nil {
					r.res = wr
				}
			}
			if r.res == nil || !r.res.Done {
				if b, e := os.ReadFile(curf); e == nil && len(b) > 32 {
					name := strings.TrimSpace(string(b[:20]))
					if n, e := strconv.Atoi(strings.TrimSpace(string(b[21:31]))); e == nil && n > 0 && 32+n <= len(b) {
						r.cur = &Failure{Prop: c.ID, Sub: name, Seed: c.Seed, Case: b[32 : 32+n]}
					}
				}
			}
			results[i] = r
		}(i)
	}
	wg.Wait()

	var failure *Failure
	infra := ""
	evals := map[string]int{}
	nontriv := map[string]int{}
	classes := map[string]int{}
	counts := map[string]int{}
	hashes := map[uint64]struct{}{}
	var samples []Sample
	for i, r := range results {
		if r.res != nil {
			for k, v := range r.res.Evals {
				evals[k] += v
			}
			for k, v := range r.res.Nontriv {
				nontriv[k] += v
			}
			for k, v := range r.res.Classes {
				classes[k] += v
			}
			for k, v := range r.res.Counts {
				counts[k] += v
			}
			for _, h := range r.res.Hashes {
				hashes[h] = struct{}{}
			}
			for _, s := range r.res.Samples {
				if len(samples) < 10 && len(s.Case) < 6000 {
					samples = append(samples, s)
				}
			}
			if r.res.Failure != nil && (failure == nil || len(r.res.Failure.Case) < len(failure.Case)) {
				failure = r.res.Failure
			}
		}
		switch {
		case r.code == exitOK && r.res != nil && r.res.Done:
		case r.code == exitViolation && r.res != nil && r.res.Failure != nil:
		case !r.sig && r.code != exitInfra && r.cur != nil && isRuntimeDeath(r.err):
			f := r.cur
			f.Msg = "the process died:\n" + trunc(r.err, 2500)
			if failure == nil {
				failure = f
			}
		default:
			infra = fmt.Sprintf("worker %d: exit code %d\n%s", i, r.code, trunc(r.err, 4000))
		}
	}

	known := map[string]Finding{}
	for _, f := range c.Findings {
		if f.Prop == c.ID {
			known[f.ID] = f
		}
	}
	var knownLines []string
	for _, pr := range p.Probes {
		e := runProbe(pr)
		if e == nil {
			continue
		}
		if f, has := known[pr.ID]; has {
			line := fmt.Sprintf("KNOWN-FINDING: property=%s %s (%s)", c.ID, f.Text, pr.ID)
			knownLines = append(knownLines, line)
			fmt.Println(line)
		} else if failure == nil {
			cs, _ := json.Marshal(map[string]string{"probe": pr.ID})
			failure = &Failure{Prop: c.ID, Sub: "probe", Seed: c.Seed, Msg: e.Error(), Case: cs}
		}
	}

	total, nt := 0, 0
	for _, v := range evals {
		total += v
	}
	for _, v := range nontriv {
		nt += v
	}
	viol := 0
	if failure != nil {
		viol = 1
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":          total,
			"distinct_nontrivial":  len(hashes),
			"rule":                 p.Rule,
			"samples":              samples,
			"per_check":            evals,
			"nontrivial_per_check": nontriv,
			"classes":              classes,
			"counters":             counts,
			"shards":               c.Shards,
			"known_findings":       knownLines,
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": viol,
	}
	if samples == nil {
		ev["coverage"].(map[string]any)["samples"] = []Sample{}
	}
	b, e := json.MarshalIndent(ev, "", " ")
	if e == nil {
		os.MkdirAll(filepath.Join(c.Root, "evidence"), 0o755)
		e = os.WriteFile(filepath.Join(c.Root, "evidence", c.ID+".json"), append(b, '\n'), 0o644)
	}
	if e != nil {
		fmt.Println("cannot write evidence:", e)
		return 2
	}

	if failure != nil {
		c.report(failure)
		return 1
	}
	if infra != "" {
		fmt.Println("check error:", infra)
		return 2
	}
	var cl []string
	for k, v := range classes {
		cl = append(cl, fmt.Sprintf("  %s = %d", k, v))
	}
	sort.Strings(cl)
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Println(strings.Join(cl, "\n"))
		for k, v := range counts {
			fmt.Println("  #", k, v)
		}
	}
	fmt.Printf("OK property=%s tier=%s seed=%d cases=%d nontrivial=%d distinct=%d wall=%.1fs\n", c.ID, c.Tier, c.Seed, total, nt, len(hashes), time.Since(start).Seconds())
	return 0
}

func runProbe(p Probe) (e error) {
	defer func() {
		if r := recover(); r != nil {
			e = fmt.Errorf("panic: %v", r)
		}
	}()
	return p.Run()
}

func isRuntimeDeath(s string) bool {
	return strings.Contains(s, "fatal error: ") || strings.Contains(s, "panic: ") || strings.Contains(s, "WARNING: DATA RACE") || strings.Contains(s, "goroutine ")
}

// Replay runs one saved case; exit code 1 if it still fails.
func Replay(path string) int {
	b, e := os.ReadFile(path)
	if e != nil {
		fmt.Println(e)
		return 2
	}
	f := &Failure{}
	if e = json.Unmarshal(b, f); e != nil {
		fmt.Println(e)
		return 2
	}
	p := props[f.Prop]
	if p == nil {
		fmt.Println("unknown property", f.Prop)
		return 2
	}
	if f.Sub == "probe" {
		var m map[string]string
		json.Unmarshal(f.Case, &m)
		for _, pr := range p.Probes {
			if pr.ID == m["probe"] {
				if e := runProbe(pr); e != nil {
					fmt.Println(e)
					fmt.Printf("VIOLATION property=%s replay=%s\n", f.Prop, path)
					return 1
				}
				return 0
			}
		}
	}
	for _, s := range p.Subs {
		if s.Name != f.Sub {
			continue
		}
		cs, e := s.decode(f.Case)
		if e != nil {
			fmt.Println(e)
			return 2
		}
		w := &watch{limit: 60 * time.Second}
		w.onStuck = func(reason string) {
			fmt.Println(reason)
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Prop, path)
			os.Exit(1)
		}
		w.gen.Store(1)
		go w.run()
		if e := safeCheck(s, cs, &Rec{}); e != nil {
			fmt.Println(e)
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Prop, path)
			return 1
		}
		fmt.Println("OK: the case does not fail")
		return 0
	}
	fmt.Println("unknown check", f.Sub)
	return 2
}
