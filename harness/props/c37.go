package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

// MakeCase is a list of descriptions, each with a text to parse.
type MakeCase struct {
	Defs  []DefText
	Order []int // order of the second reading
}

// DefText is a description and a text for its parser.
type DefText struct{ Text, Src Str }

func dumpGrammar(g *grammar.Grammar) string { return fmt.Sprintf("%#v", g) }

// sameError tells all about an error; names in the message are listed in any order.
func sameError(e error) string {
	if e == nil {
		return "no error"
	}
	ws := strings.FieldsFunc(e.Error(), func(r rune) bool { return r == ' ' || r == ',' })
	sort.Strings(ws)
	le := asLlx(e)
	if le == nil {
		return fmt.Sprintf("%T %q", e, ws)
	}
	return fmt.Sprintf("error %d at %s %d:%d %q", le.Code, le.SourceName, le.Line, le.Col, ws)
}

// newOutcome makes a parser from a grammar and parses a text.
func newOutcome(g *grammar.Grammar, src string) string {
	p, e := parser.New(g)
	if e != nil {
		return "no parser: " + sameError(e)
	}
	tree, toks, e := parseTree(p, newQueue("src", src), 2000+20*len(src), parser.WithFullSource())
	res := sameError(e)
	for _, t := range toks {
		res += " " + tokStr(t)
	}
	if e == nil {
		res += " " + tree.String()
	}
	return res
}

// defOutcome reads a description, makes a parser, and uses it.
func defOutcome(d DefText) (*grammar.Grammar, string) {
	buf := append([]byte(d.Text), " # the end"...)
	g, e := langdef.ParseBytes("grammar", buf[:len(d.Text)])
	if string(buf) != string(d.Text)+" # the end" {
		return nil, "the text is changed"
	}
	if e != nil {
		return nil, sameError(e)
	}
	s := dumpGrammar(g)
	s += "\n" + newOutcome(g, string(d.Src))
	return g, s
}

func genMake(t *rapid.T) MakeCase {
	var c MakeCase
	for n := rapid.IntRange(1, 5).Draw(t, "defs"); n > 0; n-- {
		var d DefText
		switch {
		case len(c.Defs) > 0 && gram.Chance(t, 15, "again"):
			d = c.Defs[rapid.IntRange(0, len(c.Defs)-1).Draw(t, "which")]
		case gram.Chance(t, 30, "layers"):
			h := genHist(t, 2)
			d = DefText{Str(h.text()), h.Runs[0].Src}
		case gram.Chance(t, 25, "configured"):
			d = DefText{Str(genConf(t).text()), Str(rapid.SampledFrom([]string{"1+1+", "a", "1 + 1 - a", "", "1\n  +", "1(1) b", "!"}).Draw(t, "src"))}
		case gram.Chance(t, 25, "grammar"):
			pc := genParseCase(t, gram.Options{MaxNodes: 5, Depth: 3, LL1: true, Eoi: true}, 12, 10)
			d = DefText{Str(pc.Spec.Text()), pc.Src}
		case gram.Chance(t, 85, "doc"):
			ls := gram.GenDoc(t).Render(t, gram.Chance(t, 50, "wraps"))
			if gram.Chance(t, 30, "mutated") {
				for i := rapid.IntRange(1, 3).Draw(t, "mutations"); i > 0; i-- {
					ls, _ = mutateLex(t, ls)
				}
			}
			s, _ := LexCase{Lex: ls, Tail: drawTail(t)}.text()
			d = DefText{Str(s), Str(rapid.SampledFrom([]string{"", "a", "a b", "1 a", "+"}).Draw(t, "src"))}
		default:
			d = DefText{genDescText(t).Text, "a"}
		}
		c.Defs = append(c.Defs, d)
	}
	c.Order = rapid.SliceOfN(rapid.IntRange(0, len(c.Defs)-1), 1, 6).Draw(t, "order")
	return c
}

// runAll executes functions in parallel, panics are returned.
func runAll(fs []func()) error {
	var wg sync.WaitGroup
	start := make(chan struct{})
	es := make([]error, len(fs))
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					es[i] = fmt.Errorf("panic: %v", x)
				}
			}()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
	return errors.Join(es...)
}

func checkMake(c MakeCase, r *engine.Rec, parallel bool) error {
	gs := make([]*grammar.Grammar, len(c.Defs))
	want := make([]string, len(c.Defs))
	size := 0
	good := 0
	for i, d := range c.Defs {
		gs[i], want[i] = defOutcome(d)
		size += len(d.Text)
		if gs[i] != nil {
			good++
		}
	}
	r.TrivialIf(size < 60 || good == 0)
	r.Count("grammars", good)
	r.Count("rejected descriptions", len(c.Defs)-good)
	kept := func(when string) error {
		for i, g := range gs {
			if g != nil && dumpGrammar(g) != strings.SplitN(want[i], "\n", 2)[0] {
				return violation("grammar #%d is changed %s, was:\n%s\nis:\n%s", i, when, want[i], dumpGrammar(g))
			}
		}
		return nil
	}
	if e := kept("by other ones"); e != nil {
		return e
	}
	if !parallel {
		for _, i := range c.Order {
			if _, s := defOutcome(c.Defs[i]); s != want[i] {
				return violation("description #%d read again: %s\nfor the first time: %s\n%s", i, s, want[i], c.Defs[i].Text)
			}
			if gs[i] == nil {
				continue
			}
			if s := newOutcome(gs[i], string(c.Defs[i].Src)); s != strings.SplitN(want[i], "\n", 2)[1] {
				return violation("one more parser of grammar #%d: %s\nthe first one: %s\n%s", i, s, want[i], c.Defs[i].Text)
			}
		}
		return kept("by one more parser")
	}
	var fs []func()
	got := make([][2]string, len(c.Defs))
	for i, d := range c.Defs {
		fs = append(fs, func() { _, got[i][0] = defOutcome(d) })
		if gs[i] != nil {
			fs = append(fs, func() { got[i][1] = newOutcome(gs[i], string(d.Src)) }, func() { newOutcome(gs[i], string(d.Src)) })
		}
	}
	if e := runAll(fs); e != nil {
		return violation("reading in parallel: %v", e)
	}
	for i, g := range got {
		if g[0] != want[i] {
			return violation("description #%d read in parallel: %s\nalone: %s\n%s", i, g[0], want[i], c.Defs[i].Text)
		}
		if gs[i] != nil && g[1] != strings.SplitN(want[i], "\n", 2)[1] {
			return violation("a parser of grammar #%d made in parallel: %s\nalone: %s\n%s", i, g[1], want[i], c.Defs[i].Text)
		}
	}
	return kept("by parsers made in parallel")
}

// RunMakeRace reads descriptions and makes parsers in parallel.
func RunMakeRace(in io.Reader) error {
	var c MakeCase
	if e := json.NewDecoder(in).Decode(&c); e != nil {
		return e
	}
	var fs []func()
	for _, d := range c.Defs {
		g, _ := defOutcome(d)
		fs = append(fs, func() { defOutcome(d) })
		if g != nil {
			for range 2 {
				fs = append(fs, func() { newOutcome(g, string(d.Src)) })
			}
		}
	}
	fs = append(fs, func() { parser.RegisterHookLayer("race-test", &ownTpl{}) })
	return runAll(fs)
}

func init() {
	engine.Define("C37", "a case is 1-5 descriptions (correct, changed, any texts; some are repeated) with texts to parse; each is read, a parser is made and used; then they are read and used again in another order (sequence), or at once (parallel; race: in a process built with the race detector), all grammars are compared before and after; non-trivial: at least one is correct, 60 bytes in total")
	engine.Register("C37", "sequence", 30000, 500000, genMake, func(c MakeCase, r *engine.Rec) error { return checkMake(c, r, false) })
	engine.Register("C37", "parallel", 16000, 300000, genMake, func(c MakeCase, r *engine.Rec) error { return checkMake(c, r, true) })
	engine.Register("C37", "race", 500, 8000, genMake, func(c MakeCase, r *engine.Rec) error {
		b, e := json.Marshal(c)
		if e != nil {
			engine.InfraFail("cannot encode a case: %v", e)
		}
		ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
		defer cancel()
		cmd := exec.CommandContext(ctx, toolPath("race"), "make")
		cmd.Stdin = bytes.NewReader(b)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=4")
		out, e := cmd.CombinedOutput()
		if e == nil {
			return nil
		}
		if ctx.Err() != nil {
			return violation("reading in parallel does not end in a minute")
		}
		text := string(out)
		if i := strings.Index(text, "WARNING: DATA RACE"); i >= 0 {
			text = text[i:]
		}
		return violation("reading in parallel: %v\n%s", e, text[:min(len(text), 2000)])
	})
}
