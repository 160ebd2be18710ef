package props

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

// NodeHookCase is a parse case with tables of node hooks: layers first, user hooks last.
type NodeHookCase struct {
	ParseCase
	Sides  bool
	Layers []map[string]bool // hooked nodes, "" for any node; false: the hook makes no instance
	// each Quiet-th instance returns no result
	Quiet, QuietAt int
}

type nodeLog struct {
	lines []string
}

func (l *nodeLog) add(f string, a ...any) { l.lines = append(l.lines, fmt.Sprintf(f, a...)) }

func tokStr(t *parser.Token) string {
	if t == nil {
		return "<nil>"
	}
	return fmt.Sprintf("%s:%q", t.TypeName(), t.Text())
}

type loggedNode struct {
	l    *nodeLog
	nc   *parser.NodeContext
	name string
	id   int
	opts hookOpts
}

type hookOpts struct {
	quiet   int // instances with number of kind n*quiet+quietAt return nil
	quietAt int
	refuses bool // some nodes get no hook instances, it is not specified where results of their subnodes go
}

func optsOf(c NodeHookCase, layer int) hookOpts {
	o := hookOpts{quiet: c.Quiet, quietAt: c.QuietAt}
	for _, real := range c.Layers[layer] {
		o.refuses = o.refuses || !real
	}
	return o
}

func (o hookOpts) result(name string, id int) any {
	if o.quiet > 0 && id%o.quiet == o.quietAt {
		return nil
	}
	return fmt.Sprintf("%s#%d", name, id)
}

func (o hookOpts) show(res any) any {
	if o.refuses {
		return "any result"
	}
	return res
}

func (n *loggedNode) NewNode(c string, t *parser.Token) error {
	n.l.add("%s#%d new %s %s %v", n.name, n.id, c, tokStr(t), n.nc.NodeStack())
	return nil
}
func (n *loggedNode) HandleNode(c string, res any) error {
	n.l.add("%s#%d node %s %v %v", n.name, n.id, c, n.opts.show(res), n.nc.NodeStack())
	return nil
}
func (n *loggedNode) HandleToken(t *parser.Token) error {
	n.l.add("%s#%d token %s %v", n.name, n.id, tokStr(t), n.nc.NodeStack())
	return nil
}
func (n *loggedNode) EndNode() (any, error) {
	n.l.add("%s#%d end %v", n.name, n.id, n.nc.NodeStack())
	return n.opts.result(n.name, n.id), nil
}

func loggedHooks(l *nodeLog, table map[string]bool, o hookOpts) parser.NodeHooks {
	hs := parser.NodeHooks{}
	cnt := 0
	var pc *parser.ParseContext
	for k, real := range table {
		hs[k] = func(_ context.Context, node string, t *parser.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
			if k != "" && k != node {
				return nil, fmt.Errorf("hook of node %q is called for %q", k, node)
			}
			if pc == nil {
				pc = nc.ParseContext()
			}
			if pc == nil || pc != nc.ParseContext() || pc.Parser() == nil || pc.Sources() == nil {
				return nil, fmt.Errorf("hook of node %q gets a wrong context", k)
			}
			if !real {
				l.add("%s refused %s %v", node, tokStr(t), nc.NodeStack())
				return nil, nil
			}
			cnt++
			l.add("%s#%d hook %q %s %v", node, cnt, k, tokStr(t), nc.NodeStack())
			return &loggedNode{l, nc, node, cnt, o}, nil
		}
	}
	return hs
}

// predictHooks writes the expected log of one layer.
type hookPredictor struct {
	nodeLog
	table map[string]bool
	opts  hookOpts
	cnt   int
	stack []string // the current node first
}

func firstLeaf(t *gram.Tree) *gram.Token {
	for t.Tok == nil {
		t = t.Kids[0]
	}
	return t.Tok
}

func (p *hookPredictor) node(t *gram.Tree, first string) any {
	key := t.Node
	real, has := p.table[key]
	if !has {
		key = ""
		real, has = p.table[key]
	}
	hooked := has && real
	id := 0
	if has && !real {
		p.add("%s refused %s %v", t.Node, first, p.stack)
	} else if has {
		p.cnt++
		id = p.cnt
		p.add("%s#%d hook %q %s %v", t.Node, id, key, first, p.stack)
	}
	p.stack = append([]string{t.Node}, p.stack...)
	var passed any
	for _, k := range t.Kids {
		if k.Tok != nil {
			if hooked {
				p.add("%s#%d token %s %v", t.Node, id, fmt.Sprintf("%s:%q", k.Tok.Type, k.Tok.Text), p.stack)
			}
			continue
		}
		x := firstLeaf(k)
		kf := fmt.Sprintf("%s:%q", x.Type, x.Text)
		if hooked {
			p.add("%s#%d new %s %s %v", t.Node, id, k.Node, kf, p.stack)
		}
		res := p.node(k, kf)
		if res != nil {
			passed = res
		}
		if hooked {
			p.add("%s#%d node %s %v %v", t.Node, id, k.Node, p.opts.show(res), p.stack)
		}
	}
	if hooked {
		p.add("%s#%d end %v", t.Node, id, p.stack)
		passed = p.opts.result(t.Node, id)
	}
	p.stack = p.stack[1:]
	return passed
}

func genNodeHooks(t *rapid.T, c ParseCase) NodeHookCase {
	r := NodeHookCase{ParseCase: c}
	var names []string
	for _, n := range c.Spec.Nodes {
		names = append(names, n.Name)
	}
	for n := rapid.IntRange(1, 3).Draw(t, "layers"); n > 0; n-- {
		l := map[string]bool{}
		refuse := gram.Chance(t, 15, "refuse")
		for _, x := range names {
			if gram.Chance(t, 50, "hooked") {
				l[x] = !refuse || gram.Chance(t, 70, "instance")
			}
		}
		if gram.Chance(t, 35, "any") {
			l[""] = !refuse || gram.Chance(t, 70, "instance")
		}
		r.Layers = append(r.Layers, l)
	}
	if gram.Chance(t, 30, "quiet") {
		r.Quiet = rapid.IntRange(1, 4).Draw(t, "quiet")
		r.QuietAt = rapid.IntRange(0, r.Quiet-1).Draw(t, "quietAt")
	}
	return r
}

func init() {
	engine.Define("C16", "a case is a sentence of a random LL(1) or prefix-sharing grammar with 1-3 tables of node hooks (layers and user hooks; specific, any-node, hooks that make no instance, instances that return no result), logs of calls with node stacks are compared with logs predicted from the derivation tree; non-trivial: at least two nested nodes, both hooked and unhooked nodes present. With side tokens on, every side token must go to the deepest node that its neighbours share")
	engine.Register("C16", "protocol", 100000, 2000000,
		func(t *rapid.T) NodeHookCase {
			if gram.Chance(t, 30, "choice") {
				c := genChoiceCase(t, 16)
				return genNodeHooks(t, c)
			}
			return genNodeHooks(t, genParseCase(t, gram.Options{MaxNodes: 6, Depth: 2, LL1: true, Eoi: true, Reserved: true}, 16, 0))
		},
		func(c NodeHookCase, r *engine.Rec) error {
			text := c.Spec.Text()
			m := gram.Analyse(c.Spec)
			_, p0, e := compile(text)
			if e != nil {
				return violation("a correct description is rejected: %v\n%s", e, text)
			}
			// the tree is taken from a parse of its own, it is checked by other properties
			tree, _, e := parseTree(p0, newQueue("src", string(c.Src)), 8000, parser.WithFullSource())
			if e != nil && asLlx(e) == nil && !errors.Is(e, errTooLong) {
				return violation("%v\n%s", e, text)
			}
			if e != nil || m.Derives(tree) != "" {
				r.Trivial()
				return nil
			}
			for i := range c.Layers[:len(c.Layers)-1] {
				text = fmt.Sprintf("@script%d;\n", i) + text
			}
			g, _, e := compileNoLayers(text)
			if e != nil {
				return violation("a correct description with layers is rejected: %v\n%s", e, text)
			}
			logs := make([]*nodeLog, len(c.Layers))
			tpl := map[string]parser.HookLayerTemplate{}
			for i := range c.Layers {
				logs[i] = &nodeLog{}
				tpl[fmt.Sprint("script", i)] = layerTpl{func() parser.Hooks { return parser.Hooks{Nodes: loggedHooks(logs[i], c.Layers[i], optsOf(c, i))} }}
			}
			p, e := parser.New(g, parser.WithLayerTemplates(tpl))
			if e != nil {
				return violation("cannot make a parser: %v\n%s", e, text)
			}
			user := len(c.Layers) - 1
			res, e := p.Parse(newLimit(8000), newQueue("src", string(c.Src)), parser.Hooks{Nodes: loggedHooks(logs[user], c.Layers[user], optsOf(c, user))}, parser.WithFullSource())
			if e != nil {
				return violation("parsing fails with node hooks: %v\n%s", e, text)
			}
			hookedSome, unhooked := false, false
			var walk func(t *gram.Tree)
			walk = func(t *gram.Tree) {
				if t.Tok != nil {
					return
				}
				if real, has := c.Layers[user][t.Node]; has && real {
					hookedSome = true
				} else {
					unhooked = true
				}
				for _, k := range t.Kids {
					walk(k)
				}
			}
			walk(tree)
			r.TrivialIf(treeDepth(tree) < 2 || !hookedSome || !unhooked)
			r.ClassIf(len(c.Layers) > 1, "hook layers")
			for i := range c.Layers {
				pr := &hookPredictor{table: c.Layers[i], opts: optsOf(c, i), stack: []string{}}
				want := pr.node(tree, `:""`)
				if len(c.Layers[i]) == 0 {
					want = nil
				}
				a, b := pr.lines, logs[i].lines
				for k := 0; k < len(a) || k < len(b); k++ {
					x, y := "nothing", "nothing"
					if k < len(a) {
						x = a[k]
					}
					if k < len(b) {
						y = b[k]
					}
					if x != y {
						return violation("hooks of layer %d %v: call #%d is %s\nexpected %s\ntree %s\n%s", i, c.Layers[i], k, y, x, tree, text)
					}
				}
				if i == user && !optsOf(c, i).refuses && fmt.Sprint(res) != fmt.Sprint(want) {
					return violation("the result is %v, expected %v\n%s", res, want, text)
				}
			}
			return nil
		})
	engine.Register("C16", "sides", 80000, 1600000,
		func(t *rapid.T) ParseCase {
			if gram.Chance(t, 30, "choice") {
				return genChoiceCase(t, 16)
			}
			return genParseCase(t, gram.Options{MaxNodes: 5, Depth: 2, LL1: true}, 16, 0)
		},
		func(c ParseCase, r *engine.Rec) error {
			_, p, e := compile(c.Spec.Text())
			if e != nil {
				return violation("a correct description is rejected: %v", e)
			}
			m := gram.Analyse(c.Spec)
			plain, _, e := parseTree(p, newQueue("src", string(c.Src)), 8000, parser.WithFullSource())
			if e != nil && asLlx(e) == nil && !errors.Is(e, errTooLong) {
				return violation("%v\n%s", e, c.Spec.Text())
			}
			if e != nil || m.Derives(plain) != "" || !leavesEqual(plain.Leaves(), c.Toks) {
				r.Trivial()
				return nil
			}
			q := source.NewQueue().Append(source.New("src", []byte(c.Src)))
			tree, toks, e := parseTree(p, q, 8000, parser.WithFullSource(), parser.WithSides())
			if e != nil {
				return violation("parsing fails with side tokens passed: %v\n%s", e, c.Spec.Text())
			}
			// the same tree without side tokens
			isSide := func(t *gram.Token) bool { d := m.TokIdx[t.Type]; return d != nil && d.Side }
			var strip func(t *gram.Tree) *gram.Tree
			strip = func(t *gram.Tree) *gram.Tree {
				n := &gram.Tree{Node: t.Node}
				for _, k := range t.Kids {
					if k.Tok == nil {
						n.Kids = append(n.Kids, strip(k))
					} else if !isSide(k.Tok) {
						n.Kids = append(n.Kids, k)
					}
				}
				return n
			}
			if s := strip(tree).String(); s != plain.String() {
				return violation("side tokens change the tree: %s, was %s\n%s", s, plain, c.Spec.Text())
			}
			// all the text up to the last significant token, in order
			var b strings.Builder
			sides := 0
			for _, t := range toks {
				b.WriteString(t.Text())
				if t.Type() >= 0 && m.TokIdx[t.TypeName()] != nil && m.TokIdx[t.TypeName()].Side {
					sides++
				}
			}
			end := 0
			if n := len(c.Toks); n > 0 {
				end = c.Offs[n-1] + len(c.Toks[n-1].Text)
			}
			if got := b.String(); len(got) < end || !strings.HasPrefix(string(c.Src), got) {
				return violation("tokens passed to hooks make text %q\nof source %q\n%s", got, c.Src, c.Spec.Text())
			}
			r.TrivialIf(sides == 0 || treeDepth(tree) < 2)
			// what is passed and what is left make the source
			q = newQueue("src", string(c.Src))
			_, toks, e = parseTree(p, q, 8000, parser.WithSides())
			if e != nil {
				return violation("parsing fails with side tokens passed and without the full-source option: %v\n%s", e, c.Spec.Text())
			}
			passed := ""
			for _, t := range toks {
				passed += t.Text()
			}
			left, pos := q.ContentPos()
			if passed+string(left[pos:]) != string(c.Src) {
				return violation("hooks get %q, %q is left of source %q\n%s", passed, left[pos:], c.Src, c.Spec.Text())
			}
			r.ClassIf(len(left[pos:]) > 0, "text is left")
			// no side token at the start or at the end of a nested node
			var edges func(t *gram.Tree, root bool) error
			edges = func(t *gram.Tree, root bool) error {
				for i, k := range t.Kids {
					if k.Tok == nil {
						if e := edges(k, false); e != nil {
							return e
						}
					} else if !root && isSide(k.Tok) && (i == 0 || i == len(t.Kids)-1) {
						return violation("side token %q is at the edge of node %s in %s\n%s", k.Tok.Text, t.Node, tree, c.Spec.Text())
					}
				}
				return nil
			}
			return edges(tree, true)
		})
}
