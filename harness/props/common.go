// Package props holds the checks, one file per group of properties.
package props

import (
	"context"
	"errors"
	"fmt"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
)

// Str is a byte-safe string.
type Str = engine.Str

func violation(format string, args ...any) error { return fmt.Errorf(format, args...) }

// errCode returns the code of an llx error, 0 for nil, -1 for others.
func errCode(e error) int {
	if e == nil {
		return 0
	}
	var le *llx.Error
	if errors.As(e, &le) {
		return le.Code
	}
	return -1
}

func asLlx(e error) *llx.Error {
	var le *llx.Error
	errors.As(e, &le)
	return le
}

// unexpectedKind reports an error which is neither an llx error nor a sign of a parsing that takes too long.
func unexpectedKind(e error) error {
	if errCode(e) >= 0 || errors.Is(e, errTooLong) {
		return nil
	}
	return violation("unexpected kind of error: %v", e)
}

var errTooLong = errors.New("parsing goes on for too long")

// limitCtx is a context that gets cancelled after a number of checks.
type limitCtx struct {
	context.Context
	left int
}

func newLimit(n int) *limitCtx { return &limitCtx{context.Background(), 25 * n} }

func (c *limitCtx) Err() error {
	c.left--
	if c.left < 0 {
		return errTooLong
	}
	return nil
}

// collector builds model trees from hook calls.
type collector struct {
	tree *gram.Tree
	toks *[]*parser.Token
}

func (c *collector) NewNode(string, *parser.Token) error { return nil }
func (c *collector) HandleNode(name string, result any) error {
	k, is := result.(*gram.Tree)
	if !is || k.Node != name {
		return fmt.Errorf("hook protocol: node %q got result %v", name, result)
	}
	c.tree.Kids = append(c.tree.Kids, k)
	return nil
}
func (c *collector) HandleToken(t *parser.Token) error {
	c.tree.Kids = append(c.tree.Kids, &gram.Tree{Tok: &gram.Token{Type: t.TypeName(), Text: t.Text()}})
	if c.toks != nil {
		*c.toks = append(*c.toks, t)
	}
	return nil
}
func (c *collector) EndNode() (any, error) { return c.tree, nil }

func collectHooks(toks *[]*parser.Token) parser.NodeHooks {
	return parser.NodeHooks{parser.AnyNode: func(_ context.Context, node string, _ *parser.Token, _ *parser.NodeContext) (parser.NodeHookInstance, error) {
		return &collector{&gram.Tree{Node: node}, toks}, nil
	}}
}

// parseTree parses a queue and returns the tree together with all the tokens passed to node hooks.
func parseTree(p *parser.Parser, q *source.Queue, limit int, opts ...parser.ParseOption) (*gram.Tree, []*parser.Token, error) {
	var toks []*parser.Token
	r, e := p.Parse(newLimit(limit), q, parser.Hooks{Nodes: collectHooks(&toks)}, opts...)
	if e != nil {
		return nil, toks, e
	}
	t, is := r.(*gram.Tree)
	if !is {
		return nil, toks, fmt.Errorf("parse result is %v", r)
	}
	return t, toks, nil
}

func compile(text string) (*grammar.Grammar, *parser.Parser, error) {
	g, e := langdef.ParseString("grammar", text)
	if e != nil {
		return nil, nil, e
	}
	p, e := parser.New(g)
	return g, p, e
}

func newQueue(name, text string) *source.Queue {
	return source.NewQueue().Append(source.New(name, []byte(text)))
}

func leavesEqual(a, b []gram.Token) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func compileNoLayers(text string) (*grammar.Grammar, *parser.Parser, error) {
	g, e := langdef.ParseString("grammar", text)
	return g, nil, e
}
