package props

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"sort"
	"strings"
	"sync"

	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

// FaultCase is a parse with one fault at a hook call.
type FaultCase struct {
	ParseCase
	At     []int // fault positions, taken modulo the number of calls
	Full   bool
	Sides  bool
	Layers int
}

var errInjected = errors.New("injected")

// faultRun counts hook calls and fails at one of them.
type faultRun struct {
	calls, failAt, after int
	cancel               context.CancelFunc
	log                  []string
	leaves               int // significant tokens handled by the user layer
	leavesAtFault        int
	fetched              int // token hook calls after the fault
}

func (f *faultRun) hit(what string) error {
	f.calls++
	f.log = append(f.log, what)
	if f.failAt > 0 && f.calls > f.failAt {
		f.after++
	}
	if f.calls == f.failAt {
		f.leavesAtFault = f.leaves
		if f.cancel != nil {
			f.cancel()
			return nil
		}
		return errInjected
	}
	return nil
}

type faultNode struct {
	f     *faultRun
	layer int
	name  string
}

func (n faultNode) NewNode(c string, _ *parser.Token) error {
	return n.f.hit(fmt.Sprintf("%d %s new %s", n.layer, n.name, c))
}
func (n faultNode) HandleNode(c string, _ any) error {
	return n.f.hit(fmt.Sprintf("%d %s node %s", n.layer, n.name, c))
}
func (n faultNode) HandleToken(t *parser.Token) error {
	if n.layer == 0 && t.TypeName() != "space" && t.TypeName() != "comment" {
		n.f.leaves++
	}
	return n.f.hit(fmt.Sprintf("%d %s token %s", n.layer, n.name, tokStr(t)))
}
func (n faultNode) EndNode() (any, error) {
	return n.name, n.f.hit(fmt.Sprintf("%d %s end", n.layer, n.name))
}

func (f *faultRun) hooks(layer int) parser.Hooks {
	h := func(what string) parser.TokenHook {
		return func(_ context.Context, t *parser.Token, _ *parser.TokenContext) (bool, []*parser.Token, error) {
			if f.failAt > 0 && f.calls >= f.failAt {
				f.fetched++
			}
			return true, nil, f.hit(fmt.Sprintf("%d %s hook %s", layer, what, tokStr(t)))
		}
	}
	return parser.Hooks{
		Tokens: parser.TokenHooks{parser.AnyToken: h("token"), parser.EofToken: h("eof")},
		Nodes: parser.NodeHooks{parser.AnyNode: func(_ context.Context, n string, _ *parser.Token, _ *parser.NodeContext) (parser.NodeHookInstance, error) {
			if e := f.hit(fmt.Sprintf("%d hook %s", layer, n)); e != nil {
				return nil, e
			}
			return faultNode{f, layer, n}, nil
		}},
	}
}

func (f *faultRun) run(ctx context.Context, c FaultCase, g *grammar.Grammar) (any, error) {
	tpl := map[string]parser.HookLayerTemplate{}
	for i := 1; i <= c.Layers; i++ {
		tpl[fmt.Sprint("script", i-1)] = layerTpl{func() parser.Hooks { return f.hooks(i) }}
	}
	p, e := parser.New(g, parser.WithLayerTemplates(tpl))
	if e != nil {
		return nil, e
	}
	var opts []parser.ParseOption
	if c.Full {
		opts = append(opts, parser.WithFullSource())
	}
	if c.Sides {
		opts = append(opts, parser.WithSides())
	}
	return p.Parse(ctx, newQueue("src", string(c.Src)), f.hooks(0), opts...)
}

// UnknownCase hooks something that is not in the grammar.
type UnknownCase struct {
	Name  string
	Node  bool
	Layer int // 0: user hooks, 1-3: a layer
	Bad   bool
}

// RestCase is a sequence of sentences of one grammar split over sources.
type RestCase struct {
	Spec  *gram.Spec
	Toks  []gram.Token
	Parts []Str // sources
	LL1   bool
	Junk  bool // the last source ends with a wrong character
}

func (c RestCase) queue() *source.Queue {
	q := source.NewQueue()
	for i, s := range c.Parts {
		q.Append(source.New(fmt.Sprint("s", i/2), []byte(s)))
	}
	return q
}

// MadeCase is a sentence, its end is made by a hook.
type MadeCase struct {
	ParseCase
	Made       []gram.Token
	Hook       string
	Emit, Full bool
}

// HistCase is a parser and a history of parses.
type HistCase struct {
	Spec   *gram.Spec
	Layers string
	Runs   []HistRun
}

// HistRun is one parse: Kind 0 plain, 1 full source, 2 with side tokens, 3 aborted by a hook at some call.
type HistRun struct {
	Src  Str
	Kind int
	At   int
	// token hooks: for literals (some may be absent in the grammar), types; no any-token hook if there are some of them
	Lits  []Str    `json:",omitempty"`
	Types []string `json:",omitempty"`
	Drop  bool     `json:",omitempty"` // literal hooks drop tokens
	Peek  bool     `json:",omitempty"` // literal hooks peek
	Nodes []string `json:",omitempty"` // hooked nodes, all if empty
}

func (c HistCase) text() string { return c.Layers + c.Spec.Text() }

func histRun(p *parser.Parser, h HistRun) string {
	f := &faultRun{}
	if h.Kind == 3 {
		f.failAt = h.At
	}
	var opts []parser.ParseOption
	switch h.Kind {
	case 1:
		opts = append(opts, parser.WithFullSource())
	case 2:
		opts = append(opts, parser.WithSides())
	}
	q := newQueue("src", string(h.Src))
	hs := f.hooks(0)
	if len(h.Lits)+len(h.Types) > 0 {
		any := hs.Tokens[parser.AnyToken]
		hs.Tokens = parser.TokenHooks{}
		for _, n := range h.Types {
			hs.Tokens[n] = any
		}
		if len(h.Types) == 0 {
			hs.Tokens[parser.AnyToken] = any
		}
		hs.Literals = parser.TokenHooks{}
		for _, l := range h.Lits {
			hs.Literals[string(l)] = func(_ context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
				what := "literal " + string(l)
				if h.Peek {
					next, e := tc.PeekToken()
					if e != nil {
						return false, nil, e
					}
					what += " before " + tokStr(next)
				}
				return !h.Drop, nil, f.hit(what)
			}
		}
	}
	if len(h.Nodes) > 0 {
		any := hs.Nodes[parser.AnyNode]
		hs.Nodes = parser.NodeHooks{}
		for _, n := range h.Nodes {
			hs.Nodes[n] = any
		}
	}
	r, e := p.Parse(newLimit(10000), q, hs, opts...)
	rest, pos := q.ContentPos()
	if e != nil {
		rest, pos = nil, 0
	}
	return fmt.Sprintf("result %v, error %v, rest %q\n%s", r, e, rest[pos:], strings.Join(f.log, "\n"))
}

// genLayers makes cnt definitions of standard layers.
func genLayers(t *rapid.T, cnt int, nodes, lits []string, space string) (text string) {
	for ; cnt > 0; cnt-- {
		switch x := rapid.IntRange(0, 2).Draw(t, "layer"); {
		case x == 0:
			from := rapid.SampledFrom(lits).Draw(t, "from")
			to := rapid.SampledFrom(lits).Draw(t, "to")
			text += layerText("convert", []Cmd{{"convert", []Str{Str(from), Str(to)}}, {Name: "save-position"}})
		case x == 1:
			text += layerText("restrict", []Cmd{{"node", []Str{Str(rapid.SampledFrom(nodes).Draw(t, "node"))}},
				{"forbid-in", []Str{Str(rapid.SampledFrom(nodes).Draw(t, "in"))}}})
		case space != "" && !strings.Contains(text, "indent"):
			text += "!extern $v-in $v-de;\n" + layerText("indent", []Cmd{{"space", []Str{Str(space)}}, {"on-indent", []Str{"v-in"}}, {"on-dedent", []Str{"v-de"}}})
		}
	}
	return text
}

func genHist(t *rapid.T, maxRuns int) HistCase {
	k := gram.GenKit(t)
	s, _ := gram.GenSpec(t, k, gram.Options{MaxNodes: 4, Depth: 2, LL1: true, Eoi: true, Reserved: true})
	if gram.Chance(t, 40, "choices") && !hasEoi(s) {
		gram.AddChoices(t, s, k, 2)
	}
	m := gram.Analyse(s)
	sm := gram.NewSampler(m, k)
	sm.Flat = true
	c := HistCase{Spec: s}
	var nodes []string
	for _, n := range s.Nodes {
		nodes = append(nodes, n.Name)
	}
	lits := append([]string{"", " ", "x1", "zz"}, k.Lits...)
	for _, l := range k.Texts {
		lits = append(lits, l...)
	}
	sort.Strings(lits)
	types := []string{parser.EofToken, parser.EoiToken, parser.AnyToken}
	space := ""
	for _, d := range s.Toks {
		if !d.Err {
			types = append(types, d.Name)
		}
		if d.Side {
			space = d.Name
		}
	}
	c.Layers = genLayers(t, rapid.IntRange(0, 2).Draw(t, "layers"), nodes, lits, space)
	for n := rapid.IntRange(2, maxRuns).Draw(t, "runs"); n > 0; n-- {
		toks := sm.Sized(t, 10)
		if gram.Chance(t, 30, "mutate") {
			toks = sm.Mutate(t, toks)
		}
		src, _ := k.Render(t, toks)
		h := HistRun{Src: Str(src), Kind: rapid.IntRange(0, 3).Draw(t, "kind")}
		if gram.Chance(t, 15, "junk") {
			h.Src += Str(rapid.SampledFrom([]string{"\x00", "\xff", "~~", " @ "}).Draw(t, "junk"))
		}
		if h.Kind == 3 {
			h.At = rapid.IntRange(1, 30).Draw(t, "at")
		}
		if gram.Chance(t, 40, "hooks") {
			h.Lits = rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) Str {
				return Str(rapid.SampledFrom(lits).Draw(t, "lit"))
			}), 0, 4, rapid.ID[Str]).Draw(t, "lits")
			h.Types = rapid.SliceOfNDistinct(rapid.SampledFrom(types), 0, 3, rapid.ID[string]).Draw(t, "types")
			h.Drop = gram.Chance(t, 20, "drop")
			h.Peek = gram.Chance(t, 40, "peek")
		}
		if gram.Chance(t, 30, "some nodes") {
			h.Nodes = rapid.SliceOfNDistinct(rapid.SampledFrom(nodes), 1, 2, rapid.ID[string]).Draw(t, "nodes")
		}
		c.Runs = append(c.Runs, h)
	}
	return c
}

func hasEoi(s *gram.Spec) bool {
	r := false
	for _, n := range s.Nodes {
		n.Body.Walk(func(a *gram.Atom) { r = r || a.K == gram.Eoi })
	}
	return r
}

func init() {
	engine.Define("C17", "a case is a sentence of a random grammar (lookahead included) parsed with hooks for all tokens and nodes in 0-2 layers and by the user; an error or a cancellation is injected at up to 4 of the recorded hook calls; non-trivial: at least 10 hook calls. Unknown hook names are tried for user hooks and for every layer")
	genFault := func(t *rapid.T) FaultCase {
		c := FaultCase{Full: rapid.Bool().Draw(t, "full"), Sides: rapid.Bool().Draw(t, "sides"), Layers: rapid.IntRange(0, 2).Draw(t, "layers")}
		if gram.Chance(t, 60, "choice") {
			c.ParseCase = genChoiceCase(t, 14)
		} else {
			c.ParseCase = genParseCase(t, gram.Options{MaxNodes: 5, Depth: 2, LL1: true, Eoi: true}, 14, 15)
		}
		c.At = rapid.SliceOfN(rapid.IntRange(0, gram.Scale(t, 300, 20)), 1, 4).Draw(t, "at")
		return c
	}
	prepare := func(c FaultCase) (*grammar.Grammar, *faultRun, any, error, error) {
		text := c.Spec.Text()
		for i := c.Layers - 1; i >= 0; i-- {
			text = fmt.Sprintf("@script%d;\n", i) + text
		}
		g, _, e := compileNoLayers(text)
		if e != nil {
			return nil, nil, nil, nil, violation("a correct description is rejected: %v\n%s", e, text)
		}
		base := &faultRun{}
		res, pe := base.run(newLimit(8000), c, g)
		return g, base, res, pe, nil
	}
	engine.Register("C17", "error", 60000, 600000, genFault, func(c FaultCase, r *engine.Rec) error {
		g, base, _, _, e := prepare(c)
		if e != nil {
			return e
		}
		r.TrivialIf(base.calls < 10)
		for _, at := range c.At {
			f := &faultRun{failAt: at%base.calls + 1}
			res, e := f.run(newLimit(8000), c, g)
			if e != errInjected {
				return violation("an error is returned at hook call #%d (%s), Parse returns %v, %v\n%s", f.failAt, f.log[f.failAt-1], res, e, c.Spec.Text())
			}
			if f.after > 0 {
				return violation("an error is returned at hook call #%d (%s), then hooks are called: %v\n%s", f.failAt, f.log[f.failAt-1], f.log[f.failAt:], c.Spec.Text())
			}
			if strings.Join(f.log, "\n") != strings.Join(base.log[:f.failAt], "\n") {
				return violation("calls before the error at call #%d differ from those of the same parse: %v, %v\n%s", f.failAt, f.log, base.log, c.Spec.Text())
			}
		}
		return nil
	})
	engine.Register("C17", "cancel", 40000, 400000, genFault, func(c FaultCase, r *engine.Rec) error {
		g, base, bres, be, e := prepare(c)
		if e != nil {
			return e
		}
		r.TrivialIf(base.calls < 10)
		for _, at := range c.At {
			f := &faultRun{failAt: at%base.calls + 1}
			ctx, cancel := context.WithCancel(context.Background())
			f.cancel = cancel
			res, e := f.run(ctx, c, g)
			cancel()
			// neither lookahead nor skipping of side tokens goes on
			if f.fetched > 3*(c.Layers+1) {
				return violation("the context is cancelled at hook call #%d (%s), then token hooks are called %d times\n%s", f.failAt, f.log[f.failAt-1], f.fetched, c.Spec.Text())
			}
			if errors.Is(e, context.Canceled) {
				if f.leaves > f.leavesAtFault+2 {
					return violation("the context is cancelled at hook call #%d (%s), then %d tokens are handled\n%s", f.failAt, f.log[f.failAt-1], f.leaves-f.leavesAtFault, c.Spec.Text())
				}
				continue
			}
			// it may be too late to notice
			if f.leavesAtFault+2 < base.leaves {
				return violation("the context is cancelled at hook call #%d (%s) before %d more tokens, Parse returns %v, %v\n%s", f.failAt, f.log[f.failAt-1], base.leaves-f.leavesAtFault, res, e, c.Spec.Text())
			}
			if fmt.Sprint(res, e) != fmt.Sprint(bres, be) {
				return violation("the context is cancelled at hook call #%d (%s), Parse returns %v, %v, without that %v, %v\n%s", f.failAt, f.log[f.failAt-1], res, e, bres, be, c.Spec.Text())
			}
		}
		return nil
	})
	engine.Register("C17", "unknown", 4000, 20000,
		func(t *rapid.T) UnknownCase {
			c := UnknownCase{Node: rapid.Bool().Draw(t, "node"), Layer: rapid.IntRange(0, 3).Draw(t, "layer"), Bad: gram.Chance(t, 70, "bad")}
			names := []string{"name", "ext", "space", parser.EofToken, parser.EoiToken, ""}
			switch {
			case c.Node && c.Bad:
				names = []string{"h", "name", "$name", "if", parser.EofToken, "G", " "}
			case c.Node:
				names = []string{"g", "k", ""}
			case c.Bad:
				names = []string{"nam", "g", "if", "$name", "bad", "Name", "-error-"}
			}
			c.Name = rapid.SampledFrom(names).Draw(t, "name")
			return c
		},
		func(c UnknownCase, r *engine.Rec) error {
			const text = "@one; @two; @three; !side $space; !extern $ext; !error $bad; $space=/ +/; $name=/[a-z]+/; $bad=/!/; g={k}; k='if'|$name|$ext;"
			calls := 0
			hook := parser.Hooks{}
			if c.Node {
				hook.Nodes = parser.NodeHooks{c.Name: func(_ context.Context, _ string, _ *parser.Token, _ *parser.NodeContext) (parser.NodeHookInstance, error) {
					calls++
					return &collector{tree: &gram.Tree{Node: "?"}}, nil
				}}
			} else {
				hook.Tokens = parser.TokenHooks{c.Name: func(context.Context, *parser.Token, *parser.TokenContext) (bool, []*parser.Token, error) {
					calls++
					return true, nil, nil
				}}
			}
			of := func(i int) parser.Hooks {
				h := parser.Hooks{Tokens: parser.TokenHooks{parser.AnyToken: func(context.Context, *parser.Token, *parser.TokenContext) (bool, []*parser.Token, error) {
					calls++
					return true, nil, nil
				}}}
				if i == c.Layer {
					h = hook
				}
				return h
			}
			tpl := map[string]parser.HookLayerTemplate{}
			for i, n := range []string{"one", "two", "three"} {
				tpl[n] = layerTpl{func() parser.Hooks { return of(i + 1) }}
			}
			g, _, e := compileNoLayers(text)
			if e != nil {
				return violation("a correct description is rejected: %v", e)
			}
			p, e := parser.New(g, parser.WithLayerTemplates(tpl))
			if e != nil {
				return violation("cannot make a parser: %v", e)
			}
			q := newQueue("src", "if a b")
			_, e = p.Parse(newLimit(1000), q, of(0))
			want := 0
			if c.Bad && c.Node {
				want = parser.UnknownNodeError
			} else if c.Bad {
				want = parser.UnknownTokenTypeError
			}
			if c.Bad && errCode(e) != want || !c.Bad && e != nil && !strings.Contains(e.Error(), "hook protocol") {
				return violation("hook for %q in layer %d: %v", c.Name, c.Layer, e)
			}
			if c.Bad && (calls > 0 || q.Pos() != 0) {
				return violation("hook for %q in layer %d: %d hook calls are made, position is %d", c.Name, c.Layer, calls, q.Pos())
			}
			return nil
		})

	engine.Define("C18", "a case is a random grammar (LL(1), or with choices that need lookahead) and 1-4 sentences, whole, cut or mutated, one after another, split over 1-4 sources at random token boundaries; the queue, that may end with a wrong character, is parsed repeatedly without the full-source option; non-trivial: at least two successful parses, or one that leaves tokens; with the option a sentence followed by side tokens, or by others, is parsed; a sentence is finished, or followed, by tokens made by a hook at the end of source or input")
	engine.Register("C18", "rest", 60000, 1200000,
		func(t *rapid.T) RestCase {
			k := gram.GenKit(t)
			s, _ := gram.GenSpec(t, k, gram.Options{MaxNodes: 4, Depth: 2, LL1: true, Reserved: true, Eoi: gram.Chance(t, 20, "eoi")})
			c := RestCase{Spec: s, LL1: true}
			if gram.Chance(t, 50, "choices") && !hasEoi(s) {
				gram.AddChoices(t, s, k, 2)
				c.LL1 = false
			}
			m := gram.Analyse(s)
			sm := gram.NewSampler(m, k)
			sm.Flat = !c.LL1
			for n := rapid.IntRange(1, 4).Draw(t, "sentences"); n > 0; n-- {
				x := sm.Sized(t, 6)
				if gram.Chance(t, 25, "mutate") {
					x = sm.Mutate(t, x)
				}
				if gram.Chance(t, 20, "cut") && len(x) > 0 {
					x = x[:rapid.IntRange(0, len(x)-1).Draw(t, "len")]
				}
				c.Toks = append(c.Toks, x...)
			}
			left := c.Toks
			for n := rapid.IntRange(0, 3).Draw(t, "cuts"); n > 0; n-- {
				cut := rapid.IntRange(0, len(left)).Draw(t, "cut")
				src, _ := k.Render(t, left[:cut])
				c.Parts = append(c.Parts, Str(src))
				left = left[cut:]
			}
			src, _ := k.Render(t, left)
			c.Parts = append(c.Parts, Str(src))
			if gram.Chance(t, 25, "junk") && !hasEoi(s) {
				c.Junk = true
				if gram.Chance(t, 30, "apart") {
					c.Parts = append(c.Parts, "")
				}
				c.Parts[len(c.Parts)-1] += "\x00"
			}
			return c
		},
		func(c RestCase, r *engine.Rec) error {
			_, p, e := compile(c.Spec.Text())
			if e != nil {
				return violation("a correct description is rejected: %v\n%s", e, c.Spec.Text())
			}
			m := gram.Analyse(c.Spec)
			q := c.queue()
			left := c.Toks
			good := 0
			// what is left is found by lexing the rest with a grammar that takes everything
			all := func(q *source.Queue) ([]gram.Token, error) {
				ap, e := acceptAll(c.Spec)
				if e != nil {
					return nil, e
				}
				opts := []parser.ParseOption{parser.WithFullSource()}
				if c.Junk {
					opts = nil
				}
				_, toks, e := parseTree(ap, q, 8000, opts...)
				if e != nil {
					return nil, e
				}
				if content, pos := q.ContentPos(); c.Junk && string(content[pos:]) != "\x00" {
					return nil, fmt.Errorf("%q is left", content[pos:])
				}
				var r []gram.Token
				for _, t := range toks {
					r = append(r, gram.Token{Type: t.TypeName(), Text: t.Text()})
				}
				return r, nil
			}
			r.ClassIf(c.Junk, "wrong character at the end") // no token may contain it
			for {
				tree, _, e := parseTree(p, q, 8000)
				if c.LL1 {
					want := m.Predict(left, false)
					if want.OK != (e == nil) {
						return violation("parse #%d of %s: %v, must be accepted: %v\n%s", good, gram.TokensString(left), e, want.OK, c.Spec.Text())
					}
					if e == nil && tree.String() != want.Tree.String() {
						return violation("parse #%d of %s: tree %s\nexpected %s\n%s", good, gram.TokensString(left), tree, want.Tree, c.Spec.Text())
					}
				}
				if e != nil {
					break
				}
				used := stripEoi(tree.Leaves())
				if len(used) > len(left) || !leavesEqual(used, left[:len(used)]) {
					return violation("parse #%d of %s uses %s\n%s", good, gram.TokensString(left), gram.TokensString(used), c.Spec.Text())
				}
				if ex := m.Derives(tree); ex != "" && !c.LL1 {
					return violation("parse #%d: %s\n%s", good, ex, c.Spec.Text())
				}
				good++
				left = left[len(used):]
				// look at the rest, then get back
				snap := q.Snapshot()
				rest, e := all(q)
				if e != nil {
					return violation("cannot read what is left after parse #%d: %v", good-1, e)
				}
				q.Restore(snap)
				if !leavesEqual(rest, left) {
					return violation("after parse #%d the queue has %s\nexpected %s\n%s", good-1, gram.TokensString(rest), gram.TokensString(left), c.Spec.Text())
				}
				if len(used) == 0 || len(left) == 0 {
					break
				}
			}
			r.ClassIf(len(c.Parts) > 1, "several sources")
			r.ClassIf(good > 0 && !c.LL1, "lookahead grammar")
			r.TrivialIf(good == 0 || good == 1 && len(left) == 0)
			return nil
		})
	engine.Register("C18", "full", 40000, 800000,
		func(t *rapid.T) ParseCase {
			k := gram.GenKit(t)
			s, rep := gram.GenSpec(t, k, gram.Options{MaxNodes: 4, Depth: 2, LL1: true})
			sm := gram.NewSampler(gram.Analyse(s), k)
			toks := sm.Sized(t, 12)
			if gram.Chance(t, 70, "more") {
				if gram.Chance(t, 50, "another") {
					toks = append(toks, sm.Sentence(t, 4)...)
				} else {
					toks = append(toks, sm.AnyToken(t))
				}
			}
			src, offs := k.Render(t, toks)
			return ParseCase{Spec: s, Repairs: rep, Toks: toks, Src: Str(src), Offs: offs}
		},
		func(c ParseCase, r *engine.Rec) error {
			_, p, e := compile(c.Spec.Text())
			if e != nil {
				return violation("a correct description is rejected: %v\n%s", e, c.Spec.Text())
			}
			want := gram.Analyse(c.Spec).Predict(c.Toks, false)
			if !want.OK {
				r.Trivial()
				return nil
			}
			q := newQueue("src", string(c.Src))
			tree, _, e := parseTree(p, q, 8000, parser.WithFullSource())
			if want.Used == len(c.Toks) {
				r.Class("nothing left")
				r.TrivialIf(len(c.Toks) == 0)
				if e != nil {
					return violation("a whole source is rejected: %v\n%s", e, c.Spec.Text())
				}
				if tree.String() != want.Tree.String() {
					return violation("tree %s\nexpected %s", tree, want.Tree)
				}
				return nil
			}
			r.Class("tokens left")
			if e == nil {
				return violation("%d of %d tokens are used, accepted with the full-source option\n%s", want.Used, len(c.Toks), c.Spec.Text())
			}
			return checkErrorAt(c, gram.PredResult{ErrAt: want.Used, Tree: want.Tree}, e)
		})

	engine.Register("C18", "made", 30000, 600000,
		func(t *rapid.T) MadeCase {
			k := gram.GenKit(t)
			s, rep := gram.GenSpec(t, k, gram.Options{MaxNodes: 4, Depth: 2, LL1: true})
			sm := gram.NewSampler(gram.Analyse(s), k)
			var c MadeCase
			toks := sm.Sized(t, 12)
			n := len(toks)
			if gram.Chance(t, 50, "inside") {
				n = rapid.IntRange(0, n).Draw(t, "at")
			}
			c.Made = append(c.Made, toks[n:]...)
			if gram.Chance(t, 60, "more") {
				for m := rapid.IntRange(1, 3).Draw(t, "extra"); m > 0; m-- {
					c.Made = append(c.Made, sm.AnyToken(t))
				}
			}
			for _, d := range s.Toks {
				if d.Side && gram.Chance(t, 30, "side") {
					at := rapid.IntRange(0, len(c.Made)).Draw(t, "sideAt")
					c.Made = slices.Insert(c.Made, at, gram.Token{Type: d.Name, Text: " "})
				}
			}
			c.Hook = rapid.SampledFrom([]string{parser.EoiToken, parser.EofToken}).Draw(t, "hook")
			c.Emit = rapid.Bool().Draw(t, "emit")
			c.Full = gram.Chance(t, 70, "full")
			src, offs := k.Render(t, toks[:n])
			c.ParseCase = ParseCase{Spec: s, Repairs: rep, Toks: toks[:n], Src: Str(src), Offs: offs}
			return c
		},
		func(c MadeCase, r *engine.Rec) error {
			_, p, e := compile(c.Spec.Text())
			if e != nil {
				return violation("a correct description is rejected: %v\n%s", e, c.Spec.Text())
			}
			if c.Emit && c.Hook == parser.EoiToken {
				c.Emit = false // made tokens would go after the end of input
			}
			sides := map[string]bool{}
			for _, d := range c.Spec.Toks {
				sides[d.Name] = d.Side
			}
			all := append([]gram.Token(nil), c.Toks...)
			for _, x := range c.Made {
				if !sides[x.Type] {
					all = append(all, x)
				}
			}
			want := gram.Analyse(c.Spec).Predict(all, false)
			done := false
			hook := func(_ context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
				if done {
					return true, nil, nil
				}
				done = true
				var extra []*parser.Token
				for _, x := range c.Made {
					n, e := p.MakeToken(x.Type, []byte(x.Text))
					if e != nil {
						return false, nil, e
					}
					extra = append(extra, n)
				}
				return c.Emit, extra, nil
			}
			var opts []parser.ParseOption
			if c.Full {
				opts = append(opts, parser.WithFullSource())
			}
			var seen []*parser.Token
			res, e := p.Parse(newLimit(8000), newQueue("src", string(c.Src)), parser.Hooks{Tokens: parser.TokenHooks{c.Hook: hook}, Nodes: collectHooks(&seen)}, opts...)
			r.TrivialIf(len(c.Made) == 0 || len(all) == len(c.Toks))
			code := 0
			switch {
			case !want.OK && want.ErrAt >= len(all):
				code = parser.UnexpectedEoiError
			case !want.OK:
				code = parser.UnexpectedTokenError
			case c.Full && want.Used < len(all):
				code = parser.RemainingSourceError
				r.ClassIf(want.Used >= len(c.Toks), "only made tokens are left")
			default:
				r.ClassIf(want.Used > len(c.Toks), "made tokens are used")
			}
			if errCode(e) != code {
				return violation("tokens %s, then made %s (hook for %s, full source: %v): %v, expected code %d\n%s", gram.TokensString(c.Toks), gram.TokensString(c.Made), c.Hook, c.Full, e, code, c.Spec.Text())
			}
			if tree, is := res.(*gram.Tree); code == 0 && (!is || tree.String() != want.Tree.String()) {
				return violation("tree %v\nexpected %s\n%s", res, want.Tree, c.Spec.Text())
			}
			return nil
		})

	engine.Define("C19", "a case is a random grammar (LL(1) or needing lookahead), 2-8 sources (sentences, mutated ones, ones with junk) parsed with different options and hooks (also for texts that are no literals of the grammar, dropping and peeking ones), through 0-2 standard layers, some aborted by hooks; outcomes (results, full hook logs, errors, the rest of the queue) with a shared parser, in sequence or in parallel goroutines, are compared with those of fresh parsers (race: the runs are executed at once in a process built with the race detector); non-trivial: at least two different outcomes, the longest log has 10 lines")
	checkHist := func(c HistCase, r *engine.Rec, parallel bool) error {
		_, shared, e := compile(c.text())
		if e != nil {
			return violation("a correct description is rejected: %v\n%s", e, c.text())
		}
		want := make([]string, len(c.Runs))
		kinds := map[string]bool{}
		long := 0
		for i, h := range c.Runs {
			_, p, e := compile(c.text())
			if e != nil {
				return violation("a description is accepted, then rejected: %v", e)
			}
			want[i] = histRun(p, h)
			kinds[want[i]] = true
			long = max(long, strings.Count(want[i], "\n"))
		}
		r.TrivialIf(len(kinds) < 2 || long < 10)
		got := make([]string, len(c.Runs))
		if parallel {
			for round := 0; round < 3; round++ {
				var wg sync.WaitGroup
				start := make(chan struct{})
				for i := range c.Runs {
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if x := recover(); x != nil {
								got[i] = fmt.Sprint("panic: ", x)
							}
						}()
						<-start
						got[i] = histRun(shared, c.Runs[i])
					}()
				}
				close(start)
				wg.Wait()
				for i := range got {
					if got[i] != want[i] {
						return violation("parse #%d in parallel: %s\nalone: %s\n%s", i, got[i], want[i], c.text())
					}
				}
			}
			return nil
		}
		for round := 0; round < 2; round++ {
			for i := range c.Runs {
				if g := histRun(shared, c.Runs[i]); g != want[i] {
					return violation("parse #%d (round %d) with a used parser: %s\nwith a new one: %s\n%s", i, round, g, want[i], c.text())
				}
			}
		}
		return nil
	}
	engine.Register("C19", "sequence", 40000, 500000,
		func(t *rapid.T) HistCase { return genHist(t, 6) },
		func(c HistCase, r *engine.Rec) error { return checkHist(c, r, false) })
	engine.Register("C19", "parallel", 25000, 400000,
		func(t *rapid.T) HistCase { return genHist(t, 8) },
		func(c HistCase, r *engine.Rec) error { return checkHist(c, r, true) })
}

// acceptAll makes a parser of the same tokens that takes any sequence.
func acceptAll(s *gram.Spec) (*parser.Parser, error) {
	_, p, e := compile(acceptAllText(s))
	return p, e
}

func acceptAllText(s *gram.Spec) string {
	a := &gram.Spec{Toks: s.Toks}
	var it gram.Item
	for _, d := range s.Toks {
		if !d.Side && !d.Err {
			it = append(it, gram.Atom{K: gram.Tok, N: d.Name})
		}
	}
	a.Nodes = []gram.NodeDef{{Name: "all", Body: gram.Seq{gram.Item{{K: gram.Rep, S: gram.Seq{it}}}}}}
	return a.Text()
}
