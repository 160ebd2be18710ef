package props

import (
	"context"
	"fmt"
	"strconv"
	"strings"

	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

// SrcAct is what a hook does when it gets a directive.
type SrcAct struct {
	K string // inc, app, skip, seek, next, rep, sub
	N int    `json:",omitempty"` // number of a source, of bytes, or position
	S string `json:",omitempty"` // expected result of a nested parse
}

// SrcTok is an expected token.
type SrcTok struct {
	gram.Token
	Src int
	Pos int
}

// SrcCase is a set of sources with directives that change the queue.
type SrcCase struct {
	Spec   *gram.Spec
	LL1    bool
	Texts  []Str
	Queue  []int
	Acts   []SrcAct       // directive "%N;" is Acts[N]
	Eof    map[int]int    `json:",omitempty"` // sources to prepend at the end of others
	After  map[string]int `json:",omitempty"` // sources to prepend after tokens, by place
	Stream []SrcTok
	Fired  []int // expected directives, in order
	Flat   Str
	Offs   []int
	Layer  int    // the hook is set by a layer if > 0
	Over   bool   // there is another layer above it
	Key    string // how the hook is found: type, any, text
	Emit   bool
	Peek   int `json:",omitempty"` // number of tokens a hook looks at after a change
	Full   bool
}

const nestedDesc = `!side $sp; $sp = / +/; $n = /[0-9]+/; $o = /[{}@]/; s = '{', {s | $n}, '}', ['@'];`

type srcGen struct {
	t     *rapid.T
	k     *gram.Kit
	c     *SrcCase
	kinds []string
	apps  int // number of chunks to append at the end
	app   []int
	sub   bool // a nested parser may take what follows, to the next directive
}

func (g *srcGen) dir(a SrcAct) string {
	g.c.Acts = append(g.c.Acts, a)
	return "%" + strconv.Itoa(len(g.c.Acts)-1) + ";"
}

func (g *srcGen) source() int {
	g.c.Texts = append(g.c.Texts, "")
	return len(g.c.Texts) - 1
}

func (g *srcGen) nested(depth int) (text, tree string) {
	sp := func() {
		if gram.Chance(g.t, 20, "nestedSpace") {
			text += " "
		}
	}
	var b strings.Builder
	text = "{"
	b.WriteString("(s {")
	for n := rapid.IntRange(0, 3).Draw(g.t, "nestedItems"); n > 0; n-- {
		if depth < 2 && gram.Chance(g.t, 30, "nestedDeep") {
			sp()
			x, y := g.nested(depth + 1)
			text += x
			b.WriteString(" " + y)
		} else {
			text += " "
			x := strconv.Itoa(rapid.IntRange(0, 99).Draw(g.t, "nestedNum"))
			text += x
			b.WriteString(" " + x)
		}
	}
	sp()
	text += "}"
	b.WriteString(" }")
	if gram.Chance(g.t, 30, "nestedTail") {
		sp()
		text += "@"
		b.WriteString(" @")
	}
	b.WriteString(")")
	return text, b.String()
}

// fill makes the text of a source that gives all of toks.
func (g *srcGen) fill(src int, toks []gram.Token, depth int) {
	var b strings.Builder
	t := g.t
	var end []gram.Token
	if g.c.Eof != nil && depth < 3 && gram.Chance(t, 30, "epilogue") {
		n := rapid.IntRange(0, min(3, len(toks))).Draw(t, "epilogueLen")
		toks, end = toks[:len(toks)-n], toks[len(toks)-n:]
	}
	for i := 0; ; i++ {
		n := rapid.IntRange(0, min(len(toks), 4)).Draw(t, "run")
		if i >= 5 {
			n = len(toks)
		}
		text, offs := g.k.Render(t, toks[:n])
		start := len(g.c.Stream)
		base := b.Len()
		for j, o := range offs {
			g.c.Stream = append(g.c.Stream, SrcTok{toks[j], src, base + o})
		}
		b.WriteString(text)
		toks = toks[n:]
		if n > 0 {
			g.sub = false
		}
		if i > 5 || len(toks) == 0 && gram.Chance(t, 70, "end") {
			break
		}

		at, size := len(g.c.Acts), b.Len()
		switch k := rapid.SampledFrom(g.kinds).Draw(t, "directive"); k {
		case "inc":
			if depth >= 3 {
				break
			}
			m := rapid.IntRange(0, min(len(toks), 5)).Draw(t, "inc")
			kid := g.source()
			b.WriteString(g.dir(SrcAct{K: k, N: kid}))
			g.c.Fired = append(g.c.Fired, at)
			g.fill(kid, toks[:m], depth+1)
			toks = toks[m:]
		case "after":
			if n == 0 || depth >= 3 {
				break
			}
			m := rapid.IntRange(0, min(len(toks), 5)).Draw(t, "inc")
			kid := g.source()
			g.c.After[place(g.c.Stream[len(g.c.Stream)-1])] = kid
			g.fill(kid, toks[:m], depth+1)
			toks = toks[m:]
		case "skip", "seek":
			junk := rapid.StringOfN(rapid.SampledFrom([]rune("a1 %0;\x00{\n中")), 0, 6, -1).Draw(t, "junk")
			b.WriteString(g.dir(SrcAct{K: k, N: len(junk)}))
			b.WriteString(junk)
			g.c.Fired = append(g.c.Fired, at)
			g.sub = false
		case "next":
			if len(toks) > 0 || depth > 0 && g.c.Eof != nil || end != nil || len(g.app) < g.apps {
				break
			}
			b.WriteString(g.dir(SrcAct{K: k}))
			b.WriteString(rapid.SampledFrom([]string{"", "a", " b 1", "\x00", "%0;"}).Draw(t, "rest"))
			g.c.Fired = append(g.c.Fired, at)
			g.c.Texts[src] = Str(b.String())
			return
		case "rep":
			// the last tokens are read once more
			for m := 1; m <= n && m <= len(toks); m++ {
				if !leavesEqual(toks[:m], tokens(g.c.Stream[start+n-m:start+n])) {
					continue
				}
				b.WriteString(g.dir(SrcAct{K: k, N: g.c.Stream[start+n-m].Pos}))
				g.c.Fired = append(g.c.Fired, at, at)
				g.c.Stream = append(g.c.Stream, g.c.Stream[start+n-m:start+n]...)
				toks = toks[m:]
				break
			}
		case "sub":
			text, tree := g.nested(0)
			b.WriteString(g.dir(SrcAct{K: k, S: tree}))
			if gram.Chance(t, 30, "space") {
				b.WriteString(" ")
			}
			b.WriteString(text)
			g.c.Fired = append(g.c.Fired, at)
			g.sub = true
		case "app":
			if len(g.app) < g.apps {
				kid := g.source()
				g.app = append(g.app, kid)
				b.WriteString(g.dir(SrcAct{K: k, N: kid}))
				g.c.Fired = append(g.c.Fired, at)
				g.sub = false
			}
		}
		if b.Len() == size {
			b.WriteString(g.dir(SrcAct{K: "skip"}))
			g.c.Fired = append(g.c.Fired, len(g.c.Acts)-1)
			g.sub = false
		}
	}
	if depth == 0 && src == g.c.Queue[len(g.c.Queue)-1] {
		for len(g.app) < g.apps {
			kid := g.source()
			g.app = append(g.app, kid)
			g.c.Fired = append(g.c.Fired, len(g.c.Acts))
			b.WriteString(g.dir(SrcAct{K: "app", N: kid}))
			g.sub = false
		}
	}
	if end != nil && (g.sub || b.Len() == 0) {
		b.WriteString(g.dir(SrcAct{K: "skip"}))
		g.c.Fired = append(g.c.Fired, len(g.c.Acts)-1)
	}
	g.c.Texts[src] = Str(b.String())
	// a nested parser takes the end of the source
	if g.c.Eof != nil && (end != nil || depth < 3 && b.Len() > 0 && !g.sub && gram.Chance(t, 15, "emptyEpilogue")) {
		kid := g.source()
		g.c.Eof[src] = kid
		g.fill(kid, end, 3)
	}
}

func place(t SrcTok) string { return fmt.Sprintf("s%d:%d", t.Src, t.Pos) }

func tokens(s []SrcTok) []gram.Token {
	r := make([]gram.Token, len(s))
	for i, x := range s {
		r[i] = x.Token
	}
	return r
}

func genSrcCase(full bool) func(*rapid.T) SrcCase {
	return func(t *rapid.T) SrcCase {
		k := gram.GenKit(t)
		s, _ := gram.GenSpec(t, k, gram.Options{MaxNodes: 4, Depth: 2, LL1: true, Reserved: true})
		c := SrcCase{Spec: s, LL1: true, Full: full}
		if gram.Chance(t, 50, "choices") {
			gram.AddChoices(t, s, k, 2)
			c.LL1 = false
		}
		m := gram.Analyse(s)
		sm := gram.NewSampler(m, k)
		sm.Flat = !c.LL1
		var toks []gram.Token
		n := 1
		if !full {
			n = rapid.IntRange(1, 3).Draw(t, "sentences")
		}
		for ; n > 0; n-- {
			x := sm.Sized(t, 8)
			if gram.Chance(t, 20, "mutate") {
				x = sm.Mutate(t, x)
			}
			if gram.Chance(t, 10, "cut") && len(x) > 0 {
				x = x[:rapid.IntRange(0, len(x)-1).Draw(t, "len")]
			}
			toks = append(toks, x...)
		}
		s.Toks = append([]gram.TokDef{{Name: "dir", Re: `%[0-9]+;`, Side: true}}, s.Toks...)

		g := &srcGen{t: t, k: k, c: &c}
		g.kinds = []string{"inc", "skip", "seek", "sub", "inc", "next", "after"}
		c.After = map[string]int{}
		if full || c.LL1 {
			// after a longer lookahead the text is read again, these would be done twice
			g.kinds = append(g.kinds, "app", "rep", "rep")
			if gram.Chance(t, 40, "epilogues") {
				c.Eof = map[int]int{}
			}
			if gram.Chance(t, 40, "apps") {
				g.apps = rapid.IntRange(1, 2).Draw(t, "apps")
			}
		}
		parts := rapid.IntRange(1, 3).Draw(t, "parts")
		for i := 0; i < parts; i++ {
			c.Queue = append(c.Queue, g.source())
		}
		for i := 0; i < parts+g.apps; i++ {
			m := len(toks)
			if i < parts+g.apps-1 {
				m = rapid.IntRange(0, len(toks)).Draw(t, "part")
			}
			src := 0
			if i < parts {
				src = c.Queue[i]
			} else {
				src = g.app[i-parts]
			}
			g.fill(src, toks[:m], b2i(i >= parts))
			toks = toks[m:]
		}
		flat, offs := k.Render(t, tokens(c.Stream))
		c.Flat, c.Offs = Str(flat), offs
		c.Layer = rapid.IntRange(0, 2).Draw(t, "layer")
		c.Over = gram.Chance(t, 40, "over")
		c.Key = rapid.SampledFrom([]string{"type", "any", "text"}).Draw(t, "key")
		c.Emit = rapid.Bool().Draw(t, "emit")
		if gram.Chance(t, 30, "peeks") {
			c.Peek = rapid.IntRange(1, 4).Draw(t, "peek")
		}
		return c
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// srcRun executes directives.
type srcRun struct {
	c      *SrcCase
	nested *parser.Parser
	fired  []int
	subs   []string
	again  map[int]bool
}

func (r *srcRun) source(n int) *source.Source {
	return source.New("s"+strconv.Itoa(n), []byte(r.c.Texts[n]))
}

func (r *srcRun) queue() *source.Queue {
	q := source.NewQueue()
	for _, n := range r.c.Queue {
		q.Append(r.source(n))
	}
	return q
}

func (r *srcRun) act(ctx context.Context, n int, q *source.Queue) error {
	if n >= len(r.c.Acts) {
		return fmt.Errorf("unknown directive %d", n)
	}
	a := r.c.Acts[n]
	r.fired = append(r.fired, n)
	switch a.K {
	case "inc":
		q.Prepend(r.source(a.N))
	case "app":
		q.Append(r.source(a.N))
	case "skip":
		q.Skip(a.N)
	case "seek":
		q.Seek(q.Pos() + a.N)
	case "next":
		q.NextSource()
	case "rep":
		if !r.again[n] {
			q.Seek(a.N)
		}
		r.again[n] = !r.again[n]
	case "sub":
		t, _, e := parseTree(r.nested, q, 2000)
		if e != nil {
			return fmt.Errorf("nested parse of directive %d: %w", n, e)
		}
		var show func(t *gram.Tree) string
		show = func(t *gram.Tree) string {
			if t.Tok != nil {
				return t.Tok.Text
			}
			s := "(" + t.Node
			for _, k := range t.Kids {
				s += " " + show(k)
			}
			return s + ")"
		}
		got := show(t)
		if got != a.S {
			return fmt.Errorf("nested parse of directive %d gives %s, expected %s", n, got, a.S)
		}
	}
	return nil
}

func (r *srcRun) peek(tc *parser.TokenContext) {
	for n := r.c.Peek; n > 0; n-- {
		tc.PeekToken()
	}
}

func (r *srcRun) hooks() parser.Hooks {
	hook := func(ctx context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
		if t.TypeName() != "dir" {
			if kid, has := r.c.After[fmt.Sprintf("%s:%d", t.SourceName(), t.Pos().Pos())]; has && t.Text() != "" {
				tc.ParseContext().Sources().Prepend(r.source(kid))
				r.peek(tc)
			}
			return true, nil, nil
		}
		n, e := strconv.Atoi(strings.Trim(t.Text(), "%;"))
		if e == nil {
			e = r.act(ctx, n, tc.ParseContext().Sources())
			r.peek(tc)
		}
		return r.c.Emit, nil, e
	}
	h := parser.Hooks{Tokens: parser.TokenHooks{}, Literals: parser.TokenHooks{}}
	switch r.c.Key {
	case "type":
		h.Tokens["dir"] = hook
	case "any":
		h.Tokens[parser.AnyToken] = hook
	default:
		for n := range r.c.Acts {
			h.Literals["%"+strconv.Itoa(n)+";"] = hook
		}
	}
	if len(r.c.After) > 0 {
		h.Tokens[parser.AnyToken] = hook
	}
	if r.c.Eof != nil {
		h.Tokens[parser.EofToken] = func(_ context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
			n, _ := strconv.Atoi(strings.TrimPrefix(t.Source().Name(), "s"))
			if kid, has := r.c.Eof[n]; has {
				tc.ParseContext().Sources().Prepend(r.source(kid))
			}
			return true, nil, nil
		}
	}
	return h
}

// srcLayer sets hooks returned by a function.
type srcLayer struct{ h func() parser.Hooks }

func (l srcLayer) Setup([]grammar.LayerCommand, *parser.Parser) (parser.HookLayer, error) {
	return l, nil
}
func (l srcLayer) Init(context.Context, *parser.ParseContext) parser.Hooks { return l.h() }

// parser makes a parser of a description and user hooks.
func (r *srcRun) parser(desc string) (*parser.Parser, func(*[]*parser.Token) parser.Hooks, error) {
	pass := func() parser.Hooks {
		return parser.Hooks{Tokens: parser.TokenHooks{parser.AnyToken: func(context.Context, *parser.Token, *parser.TokenContext) (bool, []*parser.Token, error) {
			return true, nil, nil
		}}}
	}
	tpls := map[string]parser.HookLayerTemplate{"pass": srcLayer{pass}, "dirs": srcLayer{r.hooks}}
	for i := 1; i < r.c.Layer; i++ {
		desc += " @pass x();"
	}
	if r.c.Layer > 0 {
		desc += " @dirs x();"
	}
	if r.c.Over {
		desc += " @pass y();"
	}
	g, e := langdef.ParseString("grammar", desc)
	if e != nil {
		return nil, nil, e
	}
	p, e := parser.New(g, parser.WithLayerTemplates(tpls))
	return p, func(toks *[]*parser.Token) parser.Hooks {
		var h parser.Hooks
		if r.c.Layer == 0 {
			h = r.hooks()
		}
		h.Nodes = collectHooks(toks)
		return h
	}, e
}

func (r *srcRun) parse(p *parser.Parser, hooks func(*[]*parser.Token) parser.Hooks, q *source.Queue, opts ...parser.ParseOption) (*gram.Tree, []*parser.Token, error) {
	var toks []*parser.Token
	res, e := p.Parse(newLimit(8000), q, hooks(&toks), opts...)
	if e != nil {
		return nil, toks, e
	}
	t, is := res.(*gram.Tree)
	if !is {
		return nil, toks, fmt.Errorf("parse result is %v", res)
	}
	return t, toks, nil
}

// compare checks an outcome against the one of a plain source with the same tokens; from is the number of the first token.
func (r *srcRun) compare(tree *gram.Tree, toks []*parser.Token, e error, wantTree *gram.Tree, wantE error, from int) error {
	c := r.c
	if errCode(e) != errCode(wantE) {
		return violation("outcome is %v, expected %v as for a plain source", e, wantE)
	}
	for i, t := range toks {
		if i+from >= len(c.Stream) {
			return violation("extra token %s %q", t.TypeName(), t.Text())
		}
		x := c.Stream[i+from]
		if t.Text() != x.Text || t.SourceName() != "s"+strconv.Itoa(x.Src) || t.Pos().Pos() != x.Pos {
			return violation("token #%d is %q at %s:%d, expected %q at s%d:%d", i+from, t.Text(), t.SourceName(), t.Pos().Pos(), x.Text, x.Src, x.Pos)
		}
	}
	if e == nil {
		if tree.String() != wantTree.String() {
			return violation("tree %s\nexpected %s", tree, wantTree)
		}
		return nil
	}
	if errCode(e) == parser.UnexpectedEoiError {
		return nil
	}
	le, we := asLlx(e), asLlx(wantE)
	if le == nil || we == nil {
		return violation("error is %v", e)
	}
	src := source.New("flat", []byte(c.Flat))
	for i, o := range c.Offs {
		line, col := src.LineCol(o)
		if line != we.Line || col != we.Col {
			continue
		}
		x := c.Stream[i]
		wl, wc := r.source(x.Src).LineCol(x.Pos)
		if le.SourceName != "s"+strconv.Itoa(x.Src) || le.Line != wl || le.Col != wc {
			return violation("%v, expected at token #%d: s%d line %d col %d", e, i, x.Src, wl, wc)
		}
	}
	return nil
}

func init() {
	engine.Define("C34", "a case is a random grammar (LL(1), or with choices that need lookahead) and 1-3 sentences, whole, cut or mutated, spread over 1-3 sources and over sources which a token hook (user's or of a layer; by type, text, or any token) includes (nested up to 3 deep; in place of a directive, or after a token of a sentence), appends, or includes at the end of others; the hook also skips and seeks over text no lexer can take, drops the rest of a source, reads tokens again, runs another parser on the queue, and may look ahead after that; non-trivial: at least two directives are done and at least 3 tokens come from at least 2 sources")
	trivial := func(c *SrcCase, r *engine.Rec) {
		srcs := map[int]bool{}
		for _, x := range c.Stream {
			srcs[x.Src] = true
		}
		r.TrivialIf(len(c.Fired) < 2 || len(c.Stream) < 3 || len(srcs) < 2)
		for _, n := range c.Fired {
			r.Class(c.Acts[n].K)
		}
		r.ClassIf(len(c.Eof) > 0, "epilogue")
		r.ClassIf(c.Peek > 0, "hooks look ahead")
		r.ClassIf(len(c.After) > 0, "after a token")
	}
	engine.Register("C34", "whole", 60000, 1200000, genSrcCase(true), func(c SrcCase, r *engine.Rec) error {
		run := &srcRun{c: &c, again: map[int]bool{}}
		var e error
		_, run.nested, e = compile(nestedDesc)
		if e != nil {
			return violation("a correct description is rejected: %v", e)
		}
		_, plain, e := compile(c.Spec.Text())
		if e != nil {
			return violation("a correct description is rejected: %v\n%s", e, c.Spec.Text())
		}
		p, hooks, e := run.parser(c.Spec.Text())
		if e != nil {
			return violation("a correct description is rejected: %v\n%s", e, c.Spec.Text())
		}
		trivial(&c, r)
		wantTree, _, wantE := parseTree(plain, newQueue("flat", string(c.Flat)), 8000, parser.WithFullSource())
		tree, toks, e := run.parse(p, hooks, run.queue(), parser.WithFullSource())
		r.ClassIf(wantE == nil, "accepted")
		if v := run.compare(tree, toks, e, wantTree, wantE, 0); v != nil {
			return violation("%v\n%s", v, c.Spec.Text())
		}
		if len(run.fired) > len(c.Fired) || e == nil && len(run.fired) != len(c.Fired) {
			return violation("directives %v are done, expected %v (%v)", run.fired, c.Fired, e)
		}
		for i, n := range run.fired {
			if n != c.Fired[i] {
				return violation("directives %v are done, expected %v", run.fired, c.Fired)
			}
		}
		return nil
	})
	engine.Register("C34", "parts", 50000, 1000000, genSrcCase(false), func(c SrcCase, r *engine.Rec) error {
		run := &srcRun{c: &c, again: map[int]bool{}}
		var e error
		_, run.nested, e = compile(nestedDesc)
		if e != nil {
			return violation("a correct description is rejected: %v", e)
		}
		_, plain, e := compile(c.Spec.Text())
		if e != nil {
			return violation("a correct description is rejected: %v\n%s", e, c.Spec.Text())
		}
		p, hooks, e := run.parser(c.Spec.Text())
		if e != nil {
			return violation("a correct description is rejected: %v\n%s", e, c.Spec.Text())
		}
		every := acceptAllText(c.Spec)
		ap, allHooks, e := run.parser(every)
		if e != nil {
			return violation("a correct description is rejected: %v\n%s", e, every)
		}
		trivial(&c, r)
		flat := newQueue("flat", string(c.Flat))
		q := run.queue()
		from := 0
		for n := 0; ; n++ {
			wantTree, wantToks, wantE := parseTree(plain, flat, 8000)
			tree, toks, e := run.parse(p, hooks, q)
			if v := run.compare(tree, toks, e, wantTree, wantE, from); v != nil {
				return violation("parse #%d: %v\n%s", n, v, c.Spec.Text())
			}
			if e != nil {
				break
			}
			from += len(wantToks)
			r.ClassIf(from < len(c.Stream), "something is left")
			// look at the rest, then get back
			snap := q.Snapshot()
			saved, again := run.fired, map[int]bool{}
			for k, v := range run.again {
				again[k] = v
			}
			_, rest, e := run.parse(ap, allHooks, q, parser.WithFullSource())
			if e != nil {
				return violation("cannot read what is left after parse #%d: %v\n%s", n, e, c.Spec.Text())
			}
			q.Restore(snap)
			run.fired, run.again = saved, again
			if len(rest) != len(c.Stream)-from {
				return violation("%d tokens are left after parse #%d, expected %d\n%s", len(rest), n, len(c.Stream)-from, c.Spec.Text())
			}
			for i, t := range rest {
				x := c.Stream[from+i]
				if t.Text() != x.Text || t.SourceName() != "s"+strconv.Itoa(x.Src) || t.Pos().Pos() != x.Pos {
					return violation("token #%d, left after parse #%d, is %q at %s:%d, expected %q at s%d:%d\n%s", from+i, n, t.Text(), t.SourceName(), t.Pos().Pos(), x.Text, x.Src, x.Pos, c.Spec.Text())
				}
			}
			if len(wantToks) == 0 || len(rest) == 0 {
				break
			}
		}
		return nil
	})
}
