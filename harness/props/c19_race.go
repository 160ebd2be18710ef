package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"github.com/ava12/llx/verifharness/engine"
	"pgregory.net/rapid"
)

// RunRace runs all parses of a case in parallel, a few times, with one parser.
// Meanwhile the description is compiled again.
func RunRace(in io.Reader) error {
	var c HistCase
	if e := json.NewDecoder(in).Decode(&c); e != nil {
		return e
	}
	_, p, e := compile(c.text())
	if e != nil {
		return e
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	spawn := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f()
		}()
	}
	for i := range c.Runs {
		spawn(func() { histRun(p, c.Runs[i]) })
		spawn(func() { histRun(p, c.Runs[i]) })
	}
	var es [2]error
	for i := range es {
		spawn(func() { _, _, es[i] = compile(c.text()) })
	}
	close(start)
	wg.Wait()
	return errors.Join(es[:]...)
}

func init() {
	engine.Register("C19", "race", 1500, 20000, func(t *rapid.T) HistCase { return genHist(t, 5) }, func(c HistCase, r *engine.Rec) error {
		b, e := json.Marshal(c)
		if e != nil {
			engine.InfraFail("cannot encode a case: %v", e)
		}
		ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
		defer cancel()
		cmd := exec.CommandContext(ctx, toolPath("race"))
		cmd.Stdin = bytes.NewReader(b)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=4")
		out, e := cmd.CombinedOutput()
		if e == nil {
			return nil
		}
		if ctx.Err() != nil {
			return violation("parallel parses do not end in a minute\n%s", c.text())
		}
		text := string(out)
		if i := strings.Index(text, "WARNING: DATA RACE"); i >= 0 {
			text = text[i:]
		}
		return violation("parallel parses: %v\n%s\n%s", e, text[:min(len(text), 2000)], c.text())
	})
}
