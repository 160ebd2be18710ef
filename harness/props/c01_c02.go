package props

import (
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

// ParseCase is a grammar, a source, and the tokens that the source is made of.
type ParseCase struct {
	Spec    *gram.Spec
	Toks    []gram.Token
	Src     Str
	Offs    []int
	Repairs int  `json:",omitempty"`
	Sent    bool `json:",omitempty"` // made as a sentence
}

func genParseCase(t *rapid.T, o gram.Options, budget, mutatePct int) ParseCase {
	k := gram.GenKit(t)
	s, rep := gram.GenSpec(t, k, o)
	m := gram.Analyse(s)
	sm := gram.NewSampler(m, k)
	var toks []gram.Token
	if o.LL1 {
		toks = sm.Sized(t, budget)
	} else {
		toks = sm.Sentence(t, rapid.IntRange(0, budget).Draw(t, "budget"))
	}
	c := ParseCase{Spec: s, Repairs: rep, Sent: true}
	if gram.Chance(t, mutatePct, "mutate") {
		toks = sm.Mutate(t, toks)
		c.Sent = false
	}
	src, offs := k.Render(t, toks)
	c.Toks, c.Src, c.Offs = toks, Str(src), offs
	return c
}

func treeDepth(t *gram.Tree) int {
	d := 0
	for _, k := range t.Kids {
		if n := treeDepth(k); n > d {
			d = n
		}
	}
	if t.Tok == nil {
		d++
	}
	return d
}

func stripEoi(l []gram.Token) []gram.Token {
	var r []gram.Token
	for _, t := range l {
		if t.Type != gram.EoiType {
			r = append(r, t)
		}
	}
	return r
}

func init() {
	engine.Define("C01", "a case is a random grammar (1-5 nodes, any mix of alternatives, groups, optional and repeated parts, ambiguous ones included) and a random sentence or a mutated one; non-trivial: accepted with at least one token")
	engine.Register("C01", "derivation", 160000, 3000000,
		func(t *rapid.T) ParseCase {
			return genParseCase(t, gram.Options{MaxNodes: 5, Depth: 3, Eoi: true, Reserved: true}, 8, 35)
		},
		func(c ParseCase, r *engine.Rec) error {
			_, p, e := compile(c.Spec.Text())
			if e != nil {
				return violation("a correct description is rejected: %v\n%s", e, c.Spec.Text())
			}
			m := gram.Analyse(c.Spec)
			tree, _, e := parseTree(p, newQueue("src", string(c.Src)), 4000+100*len(c.Toks), parser.WithFullSource())
			if e != nil {
				r.Trivial()
				r.Class("rejected")
				if errCode(e) < 0 {
					return violation("unexpected kind of error: %v", e)
				}
				return nil
			}
			r.Class("accepted")
			r.ClassIf(!c.Sent, "accepted mutant")
			r.TrivialIf(len(c.Toks) == 0)
			r.ClassIf(treeDepth(tree) > 2, "depth>2")
			if ex := m.Derives(tree); ex != "" {
				return violation("the tree is not a derivation: %s\n%s", ex, c.Spec.Text())
			}
			if tree.Node != c.Spec.Nodes[0].Name {
				return violation("the root is %q", tree.Node)
			}
			if l := stripEoi(tree.Leaves()); !leavesEqual(l, c.Toks) {
				return violation("leaves are %s, source tokens are %s\n%s", gram.TokensString(l), gram.TokensString(c.Toks), c.Spec.Text())
			}
			return nil
		})

	engine.Define("C02", "a case is a random LL(1) grammar (conflicts are repaired by guarding with fresh literals) and a random sentence or a mutated one; non-trivial: at least 2 tokens or an error inside the source")
	engine.Register("C02", "ll1", 200000, 4000000,
		func(t *rapid.T) ParseCase {
			return genParseCase(t, gram.Options{MaxNodes: 6, Depth: 3, LL1: true, Eoi: true, Reserved: true}, 20, 45)
		},
		func(c ParseCase, r *engine.Rec) error {
			_, p, e := compile(c.Spec.Text())
			if e != nil {
				return violation("a correct description is rejected: %v\n%s", e, c.Spec.Text())
			}
			m := gram.Analyse(c.Spec)
			want := m.Predict(c.Toks, true)
			tree, _, e := parseTree(p, newQueue("src", string(c.Src)), 4000+100*len(c.Toks), parser.WithFullSource())
			r.ClassIf(want.OK, "in language")
			r.ClassIf(!want.OK, "not in language")
			r.ClassIf(!want.OK && want.Tree != nil, "extra tokens")
			r.ClassIf(want.OK && want.Tree != nil && treeDepth(want.Tree) > 2, "depth>2")
			r.TrivialIf(len(c.Toks) < 2)
			if want.OK {
				if e != nil {
					return violation("a sentence is rejected: %v\ntokens: %s\n%s", e, gram.TokensString(c.Toks), c.Spec.Text())
				}
				if tree.String() != want.Tree.String() {
					return violation("got tree %s\nexpected %s\n%s", tree, want.Tree, c.Spec.Text())
				}
				return nil
			}
			if e == nil {
				return violation("accepted: %s\nerror is expected at token #%d of %s\n%s", tree, want.ErrAt, gram.TokensString(c.Toks), c.Spec.Text())
			}
			return checkErrorAt(c, want, e)
		})
}

func checkErrorAt(c ParseCase, want gram.PredResult, e error) error {
	le := asLlx(e)
	code := errCode(e)
	wantCode := parser.UnexpectedTokenError
	if want.ErrAt >= len(c.Toks) {
		wantCode = parser.UnexpectedEoiError
	} else if want.Tree != nil {
		wantCode = parser.RemainingSourceError
	}
	if code != wantCode {
		return violation("error code is %d, expected %d (%v) at token #%d of %s\n%s", code, wantCode, e, want.ErrAt, gram.TokensString(c.Toks), c.Spec.Text())
	}
	if wantCode != parser.UnexpectedEoiError {
		l, cl := lineCol(string(c.Src), c.Offs[want.ErrAt])
		if le.Line != l || le.Col != cl || le.SourceName != "src" {
			return violation("error is at %s %d:%d, expected %d:%d (token #%d of %s): %v\n%s", le.SourceName, le.Line, le.Col, l, cl, want.ErrAt, gram.TokensString(c.Toks), e, c.Spec.Text())
		}
	}
	return nil
}

// lineCol is an independent line and column computation.
func lineCol(text string, off int) (int, int) {
	l, c := 1, 1
	for i, r := range text {
		if i >= off {
			break
		}
		if r == '\n' {
			l++
			c = 1
		} else {
			c++
		}
	}
	return l, c
}
