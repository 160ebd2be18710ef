package props

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

// A pipeline case: a stack of scripted token hook layers over a fixed family of token types.

// PipeTok is a token: type, text, source number (-1 if made by a hook) and offset.
type PipeTok struct {
	Type string
	Text string
	Src  int
	Off  int
}

func (t PipeTok) String() string { return fmt.Sprintf("%s:%q@%d:%d", t.Type, t.Text, t.Src, t.Off) }

// Emit is a token made by a hook.
type Emit struct{ Type, Text string }

// React is what a hook does at some call.
type React struct {
	Emit  bool
	Extra []Emit `json:",omitempty"`
	Peek  int    `json:",omitempty"`
}

// HookScript is a hook and its reactions, taken cyclically.
type HookScript struct {
	Key    string
	Lit    bool `json:",omitempty"`
	Reacts []React
}

// PipeCase is a stack of layers (the last one is the user hooks) and sources.
type PipeCase struct {
	Caseless, NoLit, Sides, Rev bool
	Layers                      [][]HookScript
	Sources                     []Str
}

func (c PipeCase) grammar() string {
	var b strings.Builder
	b.WriteString("!side $space $comment; !extern $x $y; !error $bad;\n")
	if c.Caseless {
		b.WriteString("!caseless $b;\n")
	}
	if c.NoLit {
		b.WriteString("!literal $a $b;\n")
	}
	b.WriteString(`$space = /[ \n]+/; $comment = /#[a-z]*;/; $a = /a[0-9]*/; $b = /[bB][0-9]*/; $c = /c[0-9]*/; $bad = /!/;` + "\n")
	for i := range c.Layers[:len(c.Layers)-1] {
		fmt.Fprintf(&b, "@script%d;\n", i)
	}
	b.WriteString("g = {$a | $b | $c | $x | $y | 'a1' | 'B1'};\n")
	return b.String()
}

// lexAll cuts sources by an independent hand-written scanner.
func (c PipeCase) lexAll() []PipeTok {
	var r []PipeTok
	for si, s := range c.Sources {
		if len(s) == 0 {
			// an empty source is kept only if there are no others
			if si == len(c.Sources)-1 && len(r) == 0 {
				return []PipeTok{{parser.EofToken, "", si, 0}}
			}
			continue
		}
		for i := 0; i < len(s); {
			j := i + 1
			typ := ""
			in := func(set string) {
				for j < len(s) && strings.IndexByte(set, s[j]) >= 0 {
					j++
				}
			}
			switch s[i] {
			case ' ', '\n':
				typ = "space"
				in(" \n")
			case '#':
				typ = "comment"
				for s[j] != ';' {
					j++
				}
				j++
			case 'a', 'b', 'c', 'B':
				typ = strings.ToLower(string(s[i]))
				in("0123456789")
			default:
				panic(engine.Infra{Msg: "bad text " + string(s)})
			}
			r = append(r, PipeTok{typ, string(s[i:j]), si, i})
			i = j
		}
		r = append(r, PipeTok{parser.EofToken, "", si, len(s)})
	}
	return r
}

type pipeCall struct {
	Layer int
	Key   string
	Tok   PipeTok
	Peeks []PipeTok
}

func (c pipeCall) String() string {
	return fmt.Sprintf("layer %d hook %q %v peeked %v", c.Layer, c.Key, c.Tok, c.Peeks)
}

// pipeModel is a pull pipeline.
type pipeModel struct {
	c     PipeCase
	raw   []PipeTok
	at    int
	q     [][]PipeTok
	calls []map[string]int
	log   []pipeCall
}

func (m *pipeModel) rawAt(i int) PipeTok {
	if i < len(m.raw) {
		return m.raw[i]
	}
	return PipeTok{parser.EoiToken, "", -1, 0}
}

func (m *pipeModel) hookFor(layer int, t PipeTok) *HookScript {
	special := t.Type == parser.EofToken || t.Type == parser.EoiToken
	lits := !special && !(m.c.NoLit && (t.Type != "a" && t.Type != "b"))
	for pass := 0; pass < 3; pass++ {
		for i := range m.c.Layers[layer] {
			h := &m.c.Layers[layer][i]
			switch {
			case pass == 0 && h.Lit && lits && h.Key == t.Text,
				pass == 1 && !h.Lit && h.Key == t.Type && h.Key != "",
				pass == 2 && !h.Lit && h.Key == "" && !special:
				return h
			}
		}
	}
	return nil
}

// next pulls a token out of a layer (-1: the sources).
func (m *pipeModel) next(layer int) PipeTok {
	if layer < 0 {
		t := m.rawAt(m.at)
		m.at++
		return t
	}
	for {
		if len(m.q[layer]) > 0 {
			t := m.q[layer][0]
			m.q[layer] = m.q[layer][1:]
			return t
		}
		t := m.next(layer - 1)
		h := m.hookFor(layer, t)
		if h == nil {
			return t
		}
		id := fmt.Sprint(h.Lit, h.Key)
		re := h.Reacts[m.calls[layer][id]%len(h.Reacts)]
		m.calls[layer][id]++
		call := pipeCall{Layer: layer, Key: h.Key, Tok: t}
		if re.Peek > 0 {
			var pending []PipeTok
			for l := layer - 1; l >= 0; l-- {
				pending = append(pending, m.q[l]...)
			}
			for i := 0; i < re.Peek; i++ {
				if i < len(pending) {
					call.Peeks = append(call.Peeks, pending[i])
				} else {
					call.Peeks = append(call.Peeks, m.rawAt(m.at+i-len(pending)))
				}
			}
		}
		m.log = append(m.log, call)
		special := t.Type == parser.EofToken || t.Type == parser.EoiToken
		var out []PipeTok
		if re.Emit {
			out = append(out, t)
		}
		for _, x := range re.Extra {
			out = append(out, PipeTok{x.Type, x.Text, -1, 0})
		}
		if special && !re.Emit {
			out = append(out, t)
		}
		m.q[layer] = append(m.q[layer], out...)
	}
}

// run returns the tokens expected by node hooks.
func (m *pipeModel) run() []PipeTok {
	m.raw = m.c.lexAll()
	for range m.c.Layers {
		m.q = append(m.q, nil)
		m.calls = append(m.calls, map[string]int{})
	}
	var r []PipeTok
	for {
		t := m.next(len(m.c.Layers) - 1)
		switch t.Type {
		case parser.EoiToken:
			return r
		case parser.EofToken:
		case "space", "comment":
			if m.c.Sides {
				r = append(r, t)
			}
		default:
			r = append(r, t)
		}
	}
}

// pipeRun runs the real parser.
type pipeRun struct {
	c    PipeCase
	root string // another root definition
	srcs []*source.Source
	log  []pipeCall
	toks []PipeTok
	err  error
	// fault injection
	calls   int
	failAt  int
	failErr error
	cancel  context.CancelFunc
	after   int // calls after the fault
	noPeek  bool
}

func (r *pipeRun) tok(t *parser.Token) PipeTok {
	if t == nil {
		return PipeTok{Type: "<nil>"}
	}
	p := PipeTok{t.TypeName(), t.Text(), -1, 0}
	for i, s := range r.srcs {
		if t.Source() == s {
			p.Src = i
			p.Off = t.Pos().Pos()
		}
	}
	return p
}

func (r *pipeRun) hooks(layer int) (hs parser.Hooks) {
	counts := map[string]int{}
	for i := range r.c.Layers[layer] {
		h := r.c.Layers[layer][i]
		id := fmt.Sprint(h.Lit, h.Key)
		f := func(ctx context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
			re := h.Reacts[counts[id]%len(h.Reacts)]
			counts[id]++
			call := pipeCall{Layer: layer, Key: h.Key, Tok: r.tok(t)}
			for k := 0; k < re.Peek && !r.noPeek; k++ {
				pt, e := tc.PeekToken()
				if e != nil {
					return false, nil, fmt.Errorf("peeking: %w", e)
				}
				call.Peeks = append(call.Peeks, r.tok(pt))
			}
			r.log = append(r.log, call)
			if e := r.fault(); e != nil {
				return false, nil, e
			}
			var extra []*parser.Token
			for _, x := range re.Extra {
				nt, e := tc.ParseContext().Parser().MakeToken(x.Type, []byte(x.Text))
				if e != nil {
					return false, nil, e
				}
				extra = append(extra, nt)
			}
			return re.Emit, extra, nil
		}
		if h.Lit {
			if hs.Literals == nil {
				hs.Literals = parser.TokenHooks{}
			}
			hs.Literals[h.Key] = f
		} else {
			if hs.Tokens == nil {
				hs.Tokens = parser.TokenHooks{}
			}
			hs.Tokens[h.Key] = f
		}
	}
	return hs
}

func (r *pipeRun) fault() error {
	r.calls++
	if r.failAt > 0 && r.calls > r.failAt {
		r.after++
	}
	if r.failAt > 0 && r.calls == r.failAt {
		if r.cancel != nil {
			r.cancel()
			return nil
		}
		return r.failErr
	}
	return nil
}

type pipeNode struct{ r *pipeRun }

func (n pipeNode) NewNode(string, *parser.Token) error { return errors.New("unexpected NewNode call") }
func (n pipeNode) HandleNode(string, any) error        { return errors.New("unexpected HandleNode call") }
func (n pipeNode) HandleToken(t *parser.Token) error {
	n.r.toks = append(n.r.toks, n.r.tok(t))
	return n.r.fault()
}
func (n pipeNode) EndNode() (any, error) { return "done", n.r.fault() }

type layerTpl struct{ init func() parser.Hooks }

func (l layerTpl) Setup(_ []grammar.LayerCommand, _ *parser.Parser) (parser.HookLayer, error) {
	return l, nil
}
func (l layerTpl) Init(context.Context, *parser.ParseContext) parser.Hooks { return l.init() }

func (r *pipeRun) parser() (*parser.Parser, error) {
	text := r.c.grammar()
	if r.root != "" {
		text = text[:strings.Index(text, "g = ")] + r.root
	}
	g, _, e := compileNoLayers(text)
	if e != nil {
		return nil, e
	}
	tpl := map[string]parser.HookLayerTemplate{}
	for i := range r.c.Layers[:len(r.c.Layers)-1] {
		tpl[fmt.Sprint("script", i)] = layerTpl{func() parser.Hooks { return r.hooks(i) }}
	}
	return parser.New(g, parser.WithLayerTemplates(tpl))
}

func (r *pipeRun) run(ctx context.Context, opts ...parser.ParseOption) *source.Queue {
	q := source.NewQueue()
	p, e := r.parser()
	if e != nil {
		r.err = e
		return q
	}
	for i, s := range r.c.Sources {
		r.srcs = append(r.srcs, source.New(fmt.Sprint("s", i/2), []byte(s)))
		q.Append(r.srcs[i])
	}
	hs := r.hooks(len(r.c.Layers) - 1)
	hs.Nodes = parser.NodeHooks{"g": func(context.Context, string, *parser.Token, *parser.NodeContext) (parser.NodeHookInstance, error) {
		return pipeNode{r}, r.fault()
	}}
	if r.c.Sides {
		opts = append(opts, parser.WithSides())
	}
	_, r.err = p.Parse(ctx, q, hs, opts...)
	return q
}

var pipeTexts = map[string][]string{
	"a": {"a", "a1", "a12"}, "b": {"b", "B1", "b1", "B"}, "c": {"c", "c1"}, "x": {"", "x", "a1"}, "y": {"y", "c1"},
	"space": {" "}, "comment": {"#z;"},
}

func genPipe(t *rapid.T, maxPeek int) PipeCase {
	c := PipeCase{Caseless: gram.Chance(t, 30, "caseless"), NoLit: gram.Chance(t, 30, "nolit"), Sides: gram.Chance(t, 30, "sides")}
	pieces := []string{"a ", "a1 ", "a12 ", "b ", "B1 ", "b1 ", "c ", "c1 ", " ", "\n", "#x;", "ab", "a1b2c3"}
	for n := rapid.IntRange(0, gram.Scale(t, 3, 5)).Draw(t, "sources"); n > 0; n-- {
		var b strings.Builder
		for k := rapid.IntRange(0, gram.Scale(t, 6, 8)).Draw(t, "pieces"); k > 0; k-- {
			b.WriteString(rapid.SampledFrom(pieces).Draw(t, "piece"))
		}
		c.Sources = append(c.Sources, Str(b.String()))
	}
	types := []string{"a", "b", "c", "x", "y", "space", "comment", "", parser.EofToken, parser.EoiToken}
	litKeys := []string{"a1", "B1", "b1", "c1", "a", " ", "x"}
	emits := []string{"a", "b", "c", "x", "y", "space"}
	for n := rapid.IntRange(1, gram.Scale(t, 4, 3)).Draw(t, "layers"); n > 0; n-- {
		var l []HookScript
		seen := map[string]bool{}
		for k := rapid.IntRange(0, 4).Draw(t, "hooks"); k > 0; k-- {
			h := HookScript{Lit: gram.Chance(t, 35, "lit")}
			if h.Lit {
				h.Key = rapid.SampledFrom(litKeys).Draw(t, "key")
			} else {
				h.Key = rapid.SampledFrom(types).Draw(t, "key")
			}
			id := fmt.Sprint(h.Lit, h.Key)
			if seen[id] {
				continue
			}
			seen[id] = true
			for x := rapid.IntRange(1, 4).Draw(t, "reacts"); x > 0; x-- {
				re := React{Emit: gram.Chance(t, 60, "emit")}
				if gram.Chance(t, 40, "hasExtra") {
					for y := rapid.IntRange(1, gram.Scale(t, 3, 7)).Draw(t, "extra"); y > 0; y-- {
						ty := rapid.SampledFrom(emits).Draw(t, "emitType")
						re.Extra = append(re.Extra, Emit{ty, rapid.SampledFrom(pipeTexts[ty]).Draw(t, "emitText")})
					}
				}
				if maxPeek > 0 && gram.Chance(t, 50, "peeks") {
					re.Peek = rapid.IntRange(1, gram.Scale(t, maxPeek, 10)).Draw(t, "peek")
				}
				h.Reacts = append(h.Reacts, re)
			}
			l = append(l, h)
		}
		c.Layers = append(c.Layers, l)
	}
	return c
}

func (m *pipeModel) describe() string {
	var b strings.Builder
	for _, l := range m.log {
		fmt.Fprintf(&b, "  %v\n", l)
	}
	return b.String()
}

func comparePipe(c PipeCase, m *pipeModel, want []PipeTok, r *pipeRun) error {
	if r.err != nil {
		return violation("parsing failed: %v\n%s", r.err, c.grammar())
	}
	for l := range c.Layers {
		var a, b []string
		for _, x := range m.log {
			if x.Layer == l {
				a = append(a, x.String())
			}
		}
		for _, x := range r.log {
			if x.Layer == l {
				b = append(b, x.String())
			}
		}
		for i := 0; i < len(a) || i < len(b); i++ {
			switch {
			case i >= len(b):
				return violation("hook call #%d of the layer is missing: %s\n%s", i, a[i], c.grammar())
			case i >= len(a):
				return violation("unexpected hook call #%d of the layer: %s\n%s", i, b[i], c.grammar())
			case a[i] != b[i]:
				return violation("hook call #%d of the layer: got %s\nexpected %s\n%s", i, b[i], a[i], c.grammar())
			}
		}
	}
	if fmt.Sprint(want) != fmt.Sprint(r.toks) {
		return violation("tokens passed to the node hook:\n%v\nexpected:\n%v\n%s", r.toks, want, c.grammar())
	}
	return nil
}

// runRoot parses with another root definition and without the full-source option.
func (r *pipeRun) runRoot(root string) *source.Queue {
	r.root = root
	return r.run(newLimit(20000))
}
