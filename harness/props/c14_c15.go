package props

import (
	"context"
	"fmt"
	"strings"

	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/verifharness/engine"
	"pgregory.net/rapid"
)

// EmitCase is a token emitted by a hook of some layer: chosen by an index over all types of the grammar.
type EmitCase struct {
	Index int // type index, from -5 to the number of types + 2
	Layer int
	Emit  bool
	First bool // an accepted token is emitted before it
}

const emitGrammar = `!side $space; !extern $x; !error $bad; !group $raw;
$space = /[ \n]+/; $name = /[a-z]+/; $bad = /!/; $raw = /%[a-z]*/;
@@g = {$name | $raw | $x | 'if' | 'end'};
`

func init() {
	engine.Define("C14", "a case is a stack of 1-4 hook layers (the last one is the user hooks) with 0-4 text, type, any-token, end-of-file or end-of-input hooks each, reactions of every hook to its calls (pass, drop, replace, add 0-3 tokens), case-insensitive and no-literals types, and 0-3 sources; non-trivial: at least 3 hook calls, of at least 2 hooks. The second check emits a token of every possible type index from a hook")
	engine.Register("C14", "pipeline", 320000, 3200000,
		func(t *rapid.T) PipeCase { return genPipe(t, 0) },
		func(c PipeCase, r *engine.Rec) error {
			m := &pipeModel{c: c}
			want := m.run()
			run := &pipeRun{c: c}
			run.run(newLimit(20000), parser.WithFullSource())
			hooks := map[string]bool{}
			for _, x := range m.log {
				hooks[fmt.Sprint(x.Layer, x.Key)] = true
			}
			r.TrivialIf(len(m.log) < 3 || len(hooks) < 2)
			r.ClassIf(len(c.Layers) > 2, "3+ layers")
			r.ClassIf(len(m.log) > 20, "20+ calls")
			return comparePipe(c, m, want, run)
		})
	engine.Register("C14", "emit", 4000, 20000,
		func(t *rapid.T) EmitCase {
			return EmitCase{rapid.IntRange(-5, 12).Draw(t, "index"), rapid.IntRange(0, 2).Draw(t, "layer"), rapid.Bool().Draw(t, "emit"), rapid.Bool().Draw(t, "first")}
		},
		func(c EmitCase, r *engine.Rec) error {
			hook := func(_ context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
				if t.Text() != "here" {
					return true, nil, nil
				}
				var extra []*parser.Token
				if c.First {
					x, e := tc.ParseContext().Parser().MakeToken("x", []byte("zz"))
					if e != nil {
						return false, nil, e
					}
					extra = append(extra, x)
				}
				return c.Emit, append(extra, lexer.NewToken(c.Index, "type name", []byte("ok"), source.NewPos(nil, 0))), nil
			}
			hs := parser.Hooks{Tokens: parser.TokenHooks{parser.AnyToken: hook}}
			layers := ""
			if c.Layer > 0 {
				layers = "@one;"
			}
			if c.Layer > 1 {
				layers = "@one; @none;"
			}
			g, _, e := compileNoLayers(strings.Replace(emitGrammar, "@@", layers, 1))
			if e != nil {
				return violation("a correct description is rejected: %v", e)
			}
			p, e := parser.New(g, parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{
				"one":  layerTpl{func() parser.Hooks { return hs }},
				"none": layerTpl{func() parser.Hooks { return parser.Hooks{} }},
			}))
			if e != nil {
				return violation("cannot make a parser: %v", e)
			}
			user := parser.Hooks{}
			if c.Layer == 0 {
				user = hs
			}
			_, e = p.Parse(newLimit(1000), newQueue("src", "some here if end"), user, parser.WithFullSource())
			// types by declaration: 0 space, 1 name, 2 bad, 3 raw, 4 x, then literals
			allowed := c.Index == 0 || c.Index == 1 || c.Index == 3 || c.Index == 4 || c.Index == lexer.EofTokenType || c.Index == lexer.EoiTokenType
			if c.Index == lexer.EoiTokenType {
				// what is after the end of input is not looked at
				r.Trivial()
				return nil
			}
			if allowed && e != nil {
				return violation("cannot emit a token of type %d: %v", c.Index, e)
			}
			if !allowed && errCode(e) != parser.EmitWrongTokenError {
				return violation("emitting a token of type %d gives %v", c.Index, e)
			}
			return nil
		})

	engine.Define("C15", "a case is a stack of 1-4 hook layers as for C14 whose hooks peek 0-6 tokens at a call, and 0-3 sources; the parse is repeated without peeking and both with and without the full-source option; non-trivial: a peek returned a token of a source after a pending one, or crossed a source boundary, or at least 3 tokens were peeked at once")
	engine.Register("C15", "peek", 120000, 1200000,
		func(t *rapid.T) PipeCase { return genPipe(t, 6) },
		func(c PipeCase, r *engine.Rec) error {
			m := &pipeModel{c: c}
			want := m.run()
			run := &pipeRun{c: c}
			run.run(newLimit(20000), parser.WithFullSource())
			nontriv := false
			for _, x := range m.log {
				nontriv = nontriv || len(x.Peeks) >= 3
				for i := 1; i < len(x.Peeks); i++ {
					a, b := x.Peeks[i-1], x.Peeks[i]
					nontriv = nontriv || a.Src < 0 && b.Src >= 0 || a.Type == parser.EofToken && b.Src >= 0
				}
			}
			r.TrivialIf(!nontriv)
			if e := comparePipe(c, m, want, run); e != nil {
				return e
			}
			blind := &pipeRun{c: c, noPeek: true}
			blind.run(newLimit(20000), parser.WithFullSource())
			if fmt.Sprint(blind.toks) != fmt.Sprint(run.toks) || blind.err != nil {
				return violation("the same parse without peeking: %v, %v; with peeking: %v", blind.toks, blind.err, run.toks)
			}
			return nil
		})
	engine.Register("C15", "state", 80000, 800000,
		func(t *rapid.T) PipeCase { return genPipe(t, 6) },
		func(c PipeCase, r *engine.Rec) error {
			// a root that ends early leaves the rest in the queue
			out := func(noPeek bool) (string, string, error) {
				run := &pipeRun{c: c, noPeek: noPeek}
				q := run.runRoot("g = $a | $b | $c | $x | $y | 'a1' | 'B1', [$a | $c];")
				rest := ""
				for !q.IsEmpty() {
					ct, ps := q.ContentPos()
					rest += fmt.Sprintf("%s@%d:%q;", q.SourceName(), ps, ct)
					q.NextSource()
				}
				return fmt.Sprint(run.toks), rest, run.err
			}
			t1, r1, e1 := out(false)
			t2, r2, e2 := out(true)
			r.TrivialIf(len(t1) < 3 || r1 == "")
			if t1 != t2 || r1 != r2 || fmt.Sprint(e1) != fmt.Sprint(e2) {
				return violation("with peeking: %s, %v, the rest is %s\nwithout: %s, %v, the rest is %s\n%s", t1, e1, r1, t2, e2, r2, c.grammar())
			}
			return nil
		})
}
