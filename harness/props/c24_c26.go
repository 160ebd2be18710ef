package props

import (
	"context"
	"fmt"
	"strings"

	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/tree"
	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

// TreeOp is an edit; elements are numbered, -1 is nil.
type TreeOp struct {
	Op      string
	A, B, C int
}

// EditCase is a set of detached elements and a sequence of edits.
type EditCase struct {
	Nodes int // the first Nodes elements are nodes, the rest are tokens
	Total int
	Ops   []TreeOp
}

// mElem is a model element: siblings of parentless elements form chains of their own.
type mElem struct {
	id     int
	parent *mElem
	kids   []*mElem
	chain  *[]*mElem // siblings, shared
}

type mForest []*mElem

func newForest(n int) mForest {
	f := make(mForest, n)
	for i := range f {
		f[i] = &mElem{id: i}
		f[i].chain = &[]*mElem{f[i]}
	}
	return f
}

func (e *mElem) siblings() []*mElem {
	if e.parent != nil {
		return e.parent.kids
	}
	return *e.chain
}

func (e *mElem) index() int {
	for i, x := range e.siblings() {
		if x == e {
			return i
		}
	}
	panic("model")
}

func (e *mElem) detach() {
	i := e.index()
	s := e.siblings()
	rest := append(append([]*mElem(nil), s[:i]...), s[i+1:]...)
	if e.parent != nil {
		e.parent.kids = rest
	} else {
		*e.chain = rest
	}
	e.parent = nil
	e.chain = &[]*mElem{e}
}

// insert puts a detached element to given place among siblings of another one.
func (e *mElem) insert(at *mElem, i int) {
	s := at.siblings()
	l := append(append(append([]*mElem(nil), s[:i]...), e), s[i:]...)
	e.parent = at.parent
	if at.parent != nil {
		at.parent.kids = l
		e.chain = nil
	} else {
		*at.chain = l
		e.chain = at.chain
	}
}

func (e *mElem) addChild(c *mElem, i int) {
	e.kids = append(append(append([]*mElem(nil), e.kids[:i]...), c), e.kids[i:]...)
	c.parent = e
	c.chain = nil
}

func (e *mElem) isAncestorOf(x *mElem) bool {
	for x = x.parent; x != nil; x = x.parent {
		if x == e {
			return true
		}
	}
	return false
}

// apply makes an edit, returns false if the edit is out of the domain.
func (f mForest) apply(op TreeOp, nodes int) bool {
	get := func(i int) *mElem {
		if i < 0 {
			return nil
		}
		return f[i]
	}
	a, b, c := get(op.A), get(op.B), get(op.C)
	switch op.Op {
	case "detach":
		if a != nil {
			a.detach()
		}
	case "replace": // a by b
		if a == nil || a == b {
			return true
		}
		if b == nil {
			a.detach()
			return true
		}
		if b.isAncestorOf(a) {
			return false
		}
		b.detach()
		b.insert(a, a.index())
		a.detach()
	case "append", "prepend": // b after or before a
		if a == nil || b == nil || a == b {
			return true
		}
		if b.isAncestorOf(a) {
			return false
		}
		b.detach()
		i := a.index()
		if op.Op == "append" {
			i++
		}
		b.insert(a, i)
	case "child": // b is the last child of a
		if a == nil || b == nil {
			return true
		}
		if a.id >= nodes || a == b || b.isAncestorOf(a) {
			return false
		}
		b.detach()
		a.addChild(b, len(a.kids))
	case "add": // detached b becomes a child of a before c
		if a == nil || a.id >= nodes || a == b || b != nil && (b.parent != nil || len(*b.chain) != 1 || b.isAncestorOf(a)) {
			return false
		}
		if b == nil || c != nil && c.parent != a {
			return true
		}
		i := len(a.kids)
		if c != nil {
			i = c.index()
		}
		a.addChild(b, i)
	case "remove": // b from a
		if a == nil || a.id >= nodes {
			return false
		}
		if b != nil && b.parent == a {
			b.detach()
		}
	}
	return true
}

func makeElems(nodes, total int) []tree.Element {
	r := make([]tree.Element, total)
	for i := range r {
		tok := lexer.NewToken(i, fmt.Sprintf("t%d", i), []byte("x"), source.Pos{})
		if i < nodes {
			r[i] = tree.NewNodeElement(fmt.Sprintf("n%d", i), tok)
		} else {
			r[i] = tree.NewTokenElement(tok)
		}
	}
	return r
}

// checkForest compares all the links with the model.
func checkForest(f mForest, es []tree.Element, nodes int) string {
	ids := map[tree.Element]int{}
	for i, e := range es {
		ids[e] = i
	}
	id := func(e tree.Element) int {
		if e == nil {
			return -1
		}
		i, known := ids[e]
		if !known {
			return -2
		}
		return i
	}
	mid := func(e *mElem) int {
		if e == nil {
			return -1
		}
		return e.id
	}
	for i, m := range f {
		e := es[i]
		var parent tree.Element
		if p := e.Parent(); p != nil {
			parent = p
		}
		if id(parent) != mid(m.parent) {
			return fmt.Sprintf("parent of #%d is #%d, expected #%d", i, id(parent), mid(m.parent))
		}
		sib, x := m.siblings(), m.index()
		prev, next := -1, -1
		if x > 0 {
			prev = sib[x-1].id
		}
		if x < len(sib)-1 {
			next = sib[x+1].id
		}
		if id(e.Prev()) != prev {
			return fmt.Sprintf("previous sibling of #%d is #%d, expected #%d", i, id(e.Prev()), prev)
		}
		if id(e.Next()) != next {
			return fmt.Sprintf("next sibling of #%d is #%d, expected #%d", i, id(e.Next()), next)
		}
		if e.IsNode() != (i < nodes) || e.Token() == nil || e.Token().Type() != i {
			return fmt.Sprintf("element #%d is changed", i)
		}
		if i < nodes {
			first, last := -1, -1
			if len(m.kids) > 0 {
				first, last = m.kids[0].id, m.kids[len(m.kids)-1].id
			}
			n := e.(tree.NodeElement)
			if id(n.FirstChild()) != first {
				return fmt.Sprintf("first child of #%d is #%d, expected #%d", i, id(n.FirstChild()), first)
			}
			if id(n.LastChild()) != last {
				return fmt.Sprintf("last child of #%d is #%d, expected #%d", i, id(n.LastChild()), last)
			}
		}
	}
	return ""
}

func doEdit(op TreeOp, es []tree.Element) {
	get := func(i int) tree.Element {
		if i < 0 {
			return nil
		}
		return es[i]
	}
	node := func(i int) tree.NodeElement {
		if i < 0 {
			return nil
		}
		return es[i].(tree.NodeElement)
	}
	switch op.Op {
	case "detach":
		tree.Detach(get(op.A))
	case "replace":
		tree.Replace(get(op.A), get(op.B))
	case "append":
		tree.AppendSibling(get(op.A), get(op.B))
	case "prepend":
		tree.PrependSibling(get(op.A), get(op.B))
	case "child":
		tree.AppendChild(node(op.A), get(op.B))
	case "add":
		node(op.A).AddChild(get(op.B), get(op.C))
	case "remove":
		node(op.A).RemoveChild(get(op.B))
	}
}

func genEdits(t *rapid.T) EditCase {
	c := EditCase{Nodes: rapid.IntRange(1, gram.Scale(t, 6, 4)).Draw(t, "nodes")}
	c.Total = c.Nodes + rapid.IntRange(1, gram.Scale(t, 6, 4)).Draw(t, "tokens")
	m := newForest(c.Total)
	any := func(l string) int {
		if gram.Chance(t, 3, "nil") {
			return -1
		}
		return rapid.IntRange(0, c.Total-1).Draw(t, l)
	}
	try := func(op TreeOp) {
		// the model has to accept it
		if m.apply(op, c.Nodes) {
			c.Ops = append(c.Ops, op)
		}
	}
	for i := c.Total - 1; i > 0; i-- {
		if gram.Chance(t, 75, "place") {
			try(TreeOp{"child", rapid.IntRange(0, min(i, c.Nodes)-1).Draw(t, "parent"), i, -1})
		}
	}
	// elements related to the given one are chosen often
	near := func(i int, l string) int {
		if i < 0 || gram.Chance(t, 50, "far") {
			return any(l)
		}
		e := m[i]
		rel := []int{e.id}
		s, x := e.siblings(), e.index()
		if x > 0 {
			rel = append(rel, s[x-1].id)
		}
		if x < len(s)-1 {
			rel = append(rel, s[x+1].id)
		}
		rel = append(rel, s[0].id, s[len(s)-1].id)
		for _, k := range e.kids {
			rel = append(rel, k.id)
		}
		return rapid.SampledFrom(rel).Draw(t, "near")
	}
	for k := rapid.IntRange(1, gram.Scale(t, 25, 4)).Draw(t, "ops"); k > 0; k-- {
		op := TreeOp{Op: rapid.SampledFrom([]string{"detach", "replace", "append", "prepend", "child", "add", "remove"}).Draw(t, "op"), B: -1, C: -1}
		op.A = any("a")
		switch op.Op {
		case "child", "add", "remove":
			if op.A >= c.Nodes {
				op.A = rapid.IntRange(0, c.Nodes-1).Draw(t, "node")
			}
		}
		if op.Op != "detach" {
			op.B = near(op.A, "b")
		}
		if op.Op == "add" {
			op.C = near(op.A, "c")
			if gram.Chance(t, 30, "last") {
				op.C = -1
			}
			if op.B >= 0 && gram.Chance(t, 60, "detachFirst") {
				try(TreeOp{"detach", op.B, -1, -1})
			}
		}
		try(op)
	}
	return c
}

func checkEdits(c EditCase, r *engine.Rec) error {
	m := newForest(c.Total)
	es := makeElems(c.Nodes, c.Total)
	r.TrivialIf(len(c.Ops) < 3)
	for i, op := range c.Ops {
		r.Class(op.Op)
		if op.B >= 0 && op.A >= 0 && i > 0 {
			a, b := m[op.A], m[op.B]
			r.ClassIf(a == b, "same element")
			r.ClassIf(a.parent == nil && len(*a.chain) > 1, "siblings without a parent")
			r.ClassIf(a != b && a.parent == b.parent && a.parent != nil, "siblings")
		}
		if !m.apply(op, c.Nodes) {
			r.Class("out of the domain")
			return nil
		}
		doEdit(op, es)
		if s := checkForest(m, es, c.Nodes); s != "" {
			return violation("after edit #%d (%s #%d #%d #%d): %s", i, op.Op, op.A, op.B, op.C, s)
		}
	}
	return nil
}

// TreeShape is a tree: element i > 0 is the next child of Parents[i-1], tokens have no children.
type TreeShape struct {
	Parents  []int
	Tokens   []bool
	Names    []string // names of nodes and types of tokens
	Texts    []string
	Siblings int `json:",omitempty"` // the root itself gets that many siblings under one more node
}

type shapeElem struct {
	m    *mElem
	e    tree.Element
	tok  bool
	name string
	text string
}

func genShape(t *rapid.T, max int) TreeShape {
	var s TreeShape
	n := rapid.IntRange(1, max).Draw(t, "elements")
	var nodes []int
	for i := 0; i < n; i++ {
		if i > 0 {
			if len(nodes) == 0 {
				break
			}
			// deep and wide ones
			p := nodes[rapid.IntRange(0, len(nodes)-1).Draw(t, "parent")]
			if gram.Chance(t, 40, "deep") {
				p = nodes[len(nodes)-1]
			}
			s.Parents = append(s.Parents, p)
		}
		tok := gram.Chance(t, 45, "token")
		if i == 0 {
			tok = gram.Chance(t, 3, "tokenRoot")
		}
		if !tok {
			nodes = append(nodes, i)
		}
		s.Tokens = append(s.Tokens, tok)
		s.Names = append(s.Names, rapid.SampledFrom([]string{"a", "b", "c", "d"}).Draw(t, "name"))
		s.Texts = append(s.Texts, rapid.SampledFrom([]string{"x", "y", "z", "", "a"}).Draw(t, "text"))
	}
	s.Siblings = rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "siblings")
	return s
}

// build makes the tree and its model; the first element is the root of the shape.
func (s TreeShape) build() []*shapeElem {
	n := len(s.Tokens)
	extra := 0
	if s.Siblings > 0 {
		extra = 1 + s.Siblings
	}
	m := newForest(n + extra)
	r := make([]*shapeElem, n+extra)
	for i := range r {
		x := &shapeElem{m: m[i], name: "extra", text: "x"}
		if i < n {
			x.tok, x.name, x.text = s.Tokens[i], s.Names[i], s.Texts[i]
		} else {
			x.tok = i > n
		}
		tok := lexer.NewToken(i, x.name, []byte(x.text), source.Pos{})
		if x.tok {
			x.e = tree.NewTokenElement(tok)
		} else {
			// the initial token has another text
			x.e = tree.NewNodeElement(x.name, lexer.NewToken(i, "t", []byte("x"), source.Pos{}))
		}
		r[i] = x
	}
	add := func(p, c int) {
		r[p].e.(tree.NodeElement).AddChild(r[c].e, nil)
		m[p].addChild(m[c], len(m[p].kids))
	}
	for i, p := range s.Parents {
		add(p, i+1)
	}
	if extra > 0 {
		if s.Siblings > 1 {
			add(n, n+2)
		}
		add(n, 0)
		add(n, n+1)
	}
	return r
}

func ids(els []tree.Element, all []*shapeElem) string {
	index := map[tree.Element]int{}
	for i, x := range all {
		index[x.e] = i
	}
	var p []string
	for _, e := range els {
		if e == nil {
			p = append(p, "nil")
		} else if i, known := index[e]; known {
			p = append(p, fmt.Sprint(i))
		} else {
			p = append(p, "?")
		}
	}
	return strings.Join(p, " ")
}

func mids(l []*mElem) string {
	var p []string
	for _, m := range l {
		if m == nil {
			p = append(p, "nil")
		} else {
			p = append(p, fmt.Sprint(m.id))
		}
	}
	return strings.Join(p, " ")
}

func (e *mElem) walk(f func(*mElem)) {
	f(e)
	for _, k := range e.kids {
		k.walk(f)
	}
}

func (e *mElem) top() *mElem {
	for e.parent != nil {
		e = e.parent
	}
	return e
}

// WalkCase is a tree, a subtree root, and flags for steps.
type WalkCase struct {
	Shape TreeShape
	Root  int
	Rtl   bool
	Flags []int
	Func  int // 0: Step, 1: Walk method, 2: Walk function, 3: Next
}

func checkWalk(c WalkCase, r *engine.Rec) error {
	all := c.Shape.build()
	root := all[c.Root%len(c.Shape.Tokens)]
	r.TrivialIf(len(all) < 3)
	mode := tree.WalkLtr
	if c.Rtl {
		mode = tree.WalkRtl
	}
	flags := func(i int) int {
		if len(c.Flags) == 0 || c.Func == 3 {
			return 0
		}
		return c.Flags[i%len(c.Flags)]
	}
	// model: number of fetched elements decides flags
	var want []string
	stop := false
	var visit func(e *mElem, level int) int
	visit = func(e *mElem, level int) int {
		f := flags(len(want))
		want = append(want, fmt.Sprintf("%d:%d", e.id, level))
		if f&tree.WalkerStop != 0 {
			stop = true
		}
		if f&tree.WalkerSkipChildren == 0 {
			for i := range e.kids {
				if stop {
					break
				}
				k := e.kids[i]
				if c.Rtl {
					k = e.kids[len(e.kids)-1-i]
				}
				if visit(k, level+1)&tree.WalkerSkipSiblings != 0 {
					break
				}
			}
		}
		return f
	}
	visit(root.m, 0)
	var got []string
	seen := func(s tree.WalkStat) {
		got = append(got, fmt.Sprintf("%s:%d", ids([]tree.Element{s.Element}, all), s.Level))
	}
	limit := len(all) + 5
	switch c.Func {
	case 0, 3:
		w := tree.NewWalker(root.e, mode)
		f := 0
		if len(c.Flags) > 0 {
			// flags of the first step are ignored
			f = c.Flags[0] &^ tree.WalkerStop
		}
		for len(got) < limit {
			var s tree.WalkStat
			if c.Func == 3 {
				s = w.Next()
			} else {
				s = w.Step(f)
			}
			if s.Element == nil {
				break
			}
			f = flags(len(got))
			seen(s)
		}
		for i := 0; i < 3; i++ {
			if s := w.Step(i); s.Element != nil {
				return violation("after the end the walker returns #%s", ids([]tree.Element{s.Element}, all))
			}
		}
	default:
		visitor := func(s tree.WalkStat) tree.WalkerFlags {
			f := flags(len(got))
			if len(got) > limit {
				return tree.WalkerStop
			}
			seen(s)
			return f
		}
		if c.Func == 1 {
			tree.NewWalker(root.e, mode).Walk(visitor)
		} else {
			tree.Walk(root.e, mode, visitor)
		}
	}
	r.ClassIf(stop, "stopped")
	if strings.Join(got, " ") != strings.Join(want, " ") {
		return violation("walker (rtl: %v, flags: %v) fetches %v, expected %v", c.Rtl, c.Flags, got, want)
	}
	return nil
}

// NavCase is a tree.
type NavCase struct{ Shape TreeShape }

func checkNav(c NavCase, r *engine.Rec) error {
	all := c.Shape.build()
	r.TrivialIf(len(all) < 3)
	var leaves []*mElem // tokens in order of the text
	all[0].m.top().walk(func(e *mElem) {
		if all[e.id].tok {
			leaves = append(leaves, e)
		}
	})
	order := map[*mElem]int{}
	all[0].m.top().walk(func(e *mElem) { order[e] = len(order) })
	in := func(anc, e *mElem) bool { return anc == e || anc.isAncestorOf(e) }
	for i, x := range all {
		var first, last, next, prev *mElem
		for _, l := range leaves {
			switch {
			case in(x.m, l):
				if first == nil {
					first = l
				}
				last = l
			case order[l] < order[x.m]:
				prev = l
			case next == nil:
				next = l
			}
		}
		var anc, before, after []*mElem
		for p := x.m.parent; p != nil; p = p.parent {
			anc = append(anc, p)
		}
		s, at := x.m.siblings(), x.m.index()
		for k := at - 1; k >= 0; k-- {
			before = append(before, s[k])
		}
		after = s[at+1:]
		one := func(e tree.Element) []tree.Element { return []tree.Element{e} }
		for _, y := range []struct {
			what string
			got  []tree.Element
			want []*mElem
		}{
			{"FirstTokenElement", one(tree.FirstTokenElement(x.e)), []*mElem{first}},
			{"LastTokenElement", one(tree.LastTokenElement(x.e)), []*mElem{last}},
			{"NextTokenElement", one(tree.NextTokenElement(x.e)), []*mElem{next}},
			{"PrevTokenElement", one(tree.PrevTokenElement(x.e)), []*mElem{prev}},
			{"Children", tree.Children(x.e), x.m.kids},
			{"Ancestors", tree.Ancestors(x.e), anc},
			{"PrevSiblings", tree.PrevSiblings(x.e), before},
			{"NextSiblings", tree.NextSiblings(x.e), after},
		} {
			if a, b := ids(y.got, all), mids(y.want); a != b {
				return violation("%s of #%d: got %s, expected %s", y.what, i, a, b)
			}
		}
		r.ClassIf(!x.tok && len(x.m.kids) == 0, "empty node")
	}
	if tree.FirstTokenElement(nil) != nil || tree.LastTokenElement(nil) != nil || tree.NextTokenElement(nil) != nil || tree.PrevTokenElement(nil) != nil ||
		len(tree.Children(nil))+len(tree.Ancestors(nil))+len(tree.PrevSiblings(nil))+len(tree.NextSiblings(nil)) > 0 {
		return violation("there is something near a nil element")
	}
	return nil
}

// Tr is a list transformer.
type Tr struct {
	Op  string // kids, anc, prev, next, kept (a part of a list owned by the extractor), any, all, nth (extractors); filter, search, deep (selector steps)
	Sub []Tr   `json:",omitempty"`
	Idx []int  `json:",omitempty"`
	F   *Flt   `json:",omitempty"`
}

// Flt is a filter.
type Flt struct {
	Op   string   // a, lit, node, not, any, all
	Args []string `json:",omitempty"`
	Sub  []Flt    `json:",omitempty"`
}

// SelCase is a tree, a selector, and inputs.
type SelCase struct {
	Shape  TreeShape
	Steps  []Tr
	Unique bool
	Inputs []int // -1 is nil
	Again  []int
}

func genFlt(t *rapid.T, depth int) Flt {
	ops := []string{"a", "a", "lit", "lit", "node"}
	if depth > 0 {
		ops = append(ops, "not", "any", "all")
	}
	f := Flt{Op: rapid.SampledFrom(ops).Draw(t, "filter")}
	switch f.Op {
	case "a":
		f.Args = rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "c", "d", "q", ""}), 0, 3).Draw(t, "names")
	case "lit":
		f.Args = rapid.SliceOfN(rapid.SampledFrom([]string{"x", "y", "z", "", "a"}), 0, 3).Draw(t, "texts")
	case "not":
		f.Sub = []Flt{genFlt(t, depth-1)}
	case "any", "all":
		for k := rapid.IntRange(0, 3).Draw(t, "subs"); k > 0; k-- {
			f.Sub = append(f.Sub, genFlt(t, depth-1))
		}
	}
	return f
}

func genExtractor(t *rapid.T, depth int) Tr {
	ops := []string{"kids", "kids", "anc", "prev", "next", "kept"}
	if depth > 0 {
		ops = append(ops, "any", "all", "nth")
	}
	x := Tr{Op: rapid.SampledFrom(ops).Draw(t, "extractor")}
	switch x.Op {
	case "kept":
		x.Idx = []int{rapid.IntRange(0, 3).Draw(t, "part")}
	case "any", "all":
		for k := rapid.IntRange(0, 3).Draw(t, "subs"); k > 0; k-- {
			x.Sub = append(x.Sub, genExtractor(t, depth-1))
		}
	case "nth":
		x.Sub = []Tr{genExtractor(t, depth-1)}
		x.Idx = rapid.SliceOfN(rapid.IntRange(-1, gram.Scale(t, 4, 4)), 0, gram.Scale(t, 4, 3)).Draw(t, "indexes")
	}
	return x
}

func (f Flt) model(all []*shapeElem) func(*mElem) bool {
	var subs []func(*mElem) bool
	for _, s := range f.Sub {
		subs = append(subs, s.model(all))
	}
	has := func(s string) bool {
		for _, x := range f.Args {
			if x == s {
				return true
			}
		}
		return false
	}
	return func(e *mElem) bool {
		x := all[e.id]
		switch f.Op {
		case "a":
			return has(x.name)
		case "lit":
			return x.tok && has(x.text)
		case "node":
			return !x.tok
		case "not":
			return !subs[0](e)
		}
		n := 0
		for _, s := range subs {
			if s(e) {
				n++
			}
		}
		if f.Op == "any" {
			return n > 0
		}
		return n == len(subs)
	}
}

func (f Flt) real() tree.Filter {
	var subs []tree.Filter
	for _, s := range f.Sub {
		subs = append(subs, s.real())
	}
	switch f.Op {
	case "a":
		return tree.IsA(f.Args...)
	case "lit":
		return tree.IsALiteral(f.Args...)
	case "node":
		return func(n tree.Element) bool { return n.IsNode() }
	case "not":
		return tree.IsNot(subs[0])
	case "any":
		return tree.IsAny(subs...)
	}
	return tree.IsAll(subs...)
}

func (x Tr) model(all []*shapeElem) func(*mElem) []*mElem {
	var subs []func(*mElem) []*mElem
	for _, s := range x.Sub {
		subs = append(subs, s.model(all))
	}
	var fl func(*mElem) bool
	if x.F != nil {
		fl = x.F.model(all)
	}
	return func(e *mElem) (r []*mElem) {
		switch x.Op {
		case "kids":
			return e.kids
		case "kept":
			return e.kids[:min(x.Idx[0], len(e.kids))]
		case "anc":
			for p := e.parent; p != nil; p = p.parent {
				r = append(r, p)
			}
		case "prev":
			for k := e.index() - 1; k >= 0; k-- {
				r = append(r, e.siblings()[k])
			}
		case "next":
			return e.siblings()[e.index()+1:]
		case "any":
			for _, s := range subs {
				if r = s(e); len(r) > 0 {
					return r
				}
			}
		case "all":
			for _, s := range subs {
				r = append(append([]*mElem(nil), r...), s(e)...)
			}
		case "nth":
			l := subs[0](e)
			for _, i := range x.Idx {
				if i >= 0 && i < len(l) {
					r = append(r, l[i])
				}
			}
		case "filter":
			if fl(e) {
				return []*mElem{e}
			}
		case "deep":
			e.walk(func(y *mElem) {
				if fl(y) {
					r = append(r, y)
				}
			})
		case "search":
			var walk func(*mElem)
			walk = func(y *mElem) {
				if fl(y) {
					r = append(r, y)
					return
				}
				for _, k := range y.kids {
					walk(k)
				}
			}
			walk(e)
		}
		return r
	}
}

// kept holds lists returned by extractors and copies of these lists.
type kept struct {
	byElem      map[tree.Element][]tree.Element
	lists, copy [][]tree.Element
}

func (k *kept) children(e tree.Element) []tree.Element {
	if l, has := k.byElem[e]; has {
		return l
	}
	l := tree.Children(e)
	l = append(l, e, e, e)
	k.byElem[e] = l
	k.lists = append(k.lists, l)
	k.copy = append(k.copy, append([]tree.Element(nil), l...))
	return l
}

func (k *kept) changed() bool {
	for i, l := range k.lists {
		for j := range l {
			if l[j] != k.copy[i][j] {
				return true
			}
		}
	}
	return false
}

func (x Tr) real(k *kept) tree.Extractor {
	var subs []tree.Extractor
	for _, s := range x.Sub {
		subs = append(subs, s.real(k))
	}
	switch x.Op {
	case "kept":
		return func(e tree.Element) []tree.Element {
			l := k.children(e)
			return l[:min(x.Idx[0], len(l)-3)]
		}
	case "kids":
		return tree.Children
	case "anc":
		return tree.Ancestors
	case "prev":
		return tree.PrevSiblings
	case "next":
		return tree.NextSiblings
	case "any":
		return tree.Any(subs...)
	case "all":
		return tree.All(subs...)
	}
	return tree.Nth(subs[0], x.Idx...)
}

func checkSelector(c SelCase, r *engine.Rec) error {
	all := c.Shape.build()
	s := tree.NewSelector()
	k := &kept{byElem: map[tree.Element][]tree.Element{}}
	var models []func(*mElem) []*mElem
	if c.Unique {
		s.Unique()
	}
	for _, x := range c.Steps {
		switch x.Op {
		case "filter":
			s = s.Filter(x.F.real())
		case "search":
			s = s.Search(x.F.real())
		case "deep":
			s = s.DeepSearch(x.F.real())
		default:
			s = s.Extract(x.real(k))
		}
		models = append(models, x.model(all))
	}
	outputs := 0
	for round, in := range [][]int{c.Inputs, c.Again, c.Inputs} {
		var input []tree.Element
		var cur []*mElem
		for _, i := range in {
			if i < 0 {
				input = append(input, nil)
				continue
			}
			x := all[i%len(all)]
			input = append(input, x.e)
			cur = append(cur, x.m)
		}
		before := ids(input, all)
		for _, m := range models {
			var next []*mElem
			for _, e := range cur {
				next = append(next, m(e)...)
			}
			cur = next
		}
		if c.Unique {
			had := map[*mElem]bool{}
			var u []*mElem
			for _, e := range cur {
				if !had[e] {
					had[e] = true
					u = append(u, e)
				}
			}
			cur = u
		}
		outputs += len(cur)
		got := s.Apply(input...)
		if a, b := ids(got, all), mids(cur); a != b {
			return violation("selector applied to %s (round %d) gives %s, expected %s", before, round, a, b)
		}
		if ids(input, all) != before {
			return violation("input %s is changed to %s", before, ids(input, all))
		}
		if k.changed() {
			return violation("selector applied to %s changes a list owned by an extractor", before)
		}
	}
	r.TrivialIf(outputs == 0)
	return nil
}

func genSelector(t *rapid.T) SelCase {
	c := SelCase{Shape: genShape(t, gram.Scale(t, 14, 6)), Unique: rapid.Bool().Draw(t, "unique")}
	for k := rapid.IntRange(0, 4).Draw(t, "steps"); k > 0; k-- {
		switch op := rapid.SampledFrom([]string{"extract", "extract", "filter", "search", "deep"}).Draw(t, "step"); op {
		case "extract":
			c.Steps = append(c.Steps, genExtractor(t, 2))
		default:
			f := genFlt(t, 2)
			c.Steps = append(c.Steps, Tr{Op: op, F: &f})
		}
	}
	ids := rapid.IntRange(-1, max(13, len(c.Shape.Tokens)-1))
	in := rapid.SliceOfN(ids, 0, gram.Scale(t, 4, 6))
	if gram.Chance(t, 40, "rootOnly") {
		in = rapid.Just([]int{0})
	}
	c.Inputs = in.Draw(t, "inputs")
	c.Again = rapid.SliceOfN(ids, 0, 4).Draw(t, "again")
	return c
}

// checkBuild compares the tree made by the standard node hook with the reference one.
func checkBuild(c ParseCase, r *engine.Rec) error {
	_, p, e := compile(c.Spec.Text())
	if e != nil {
		return violation("a correct description is rejected: %v\n%s", e, c.Spec.Text())
	}
	want, _, we := parseTree(p, newQueue("src", string(c.Src)), 8000, parser.WithFullSource())
	res, e := p.Parse(newLimit(8000), newQueue("src", string(c.Src)), parser.Hooks{Nodes: parser.NodeHooks{parser.AnyNode: tree.NodeHook}}, parser.WithFullSource())
	if fmt.Sprint(we) != fmt.Sprint(e) {
		return violation("error is %v with the tree hook and %v with another one", e, we)
	}
	if e != nil {
		r.Trivial()
		return unexpectedKind(e)
	}
	root, is := res.(tree.NodeElement)
	if !is || root.Parent() != nil || root.Prev() != nil || root.Next() != nil {
		return violation("parse result is not a root node element: %v", res)
	}
	cnt := 0
	var cmp func(w *gram.Tree, n tree.NodeElement) error
	cmp = func(w *gram.Tree, n tree.NodeElement) error {
		if n.TypeName() != w.Node {
			return violation("node %q, expected %q", n.TypeName(), w.Node)
		}
		if l := w.Leaves(); len(l) > 0 && n.Parent() != nil && (n.Token() == nil || n.Token().Text() != l[0].Text || n.Token().TypeName() != l[0].Type) {
			return violation("initial token of node %q is %s, expected %q", w.Node, tokStr(n.Token()), l[0].Text)
		}
		kids := tree.Children(n)
		if len(kids) != len(w.Kids) {
			return violation("node %q has %d children, expected %d", w.Node, len(kids), len(w.Kids))
		}
		var prev tree.Element
		for i, k := range kids {
			cnt++
			if k.Parent() != n || k.Prev() != prev {
				return violation("child #%d of %q has wrong links", i, w.Node)
			}
			prev = k
			x := w.Kids[i]
			if k.IsNode() != (x.Tok == nil) {
				return violation("child #%d of %q is of wrong kind", i, w.Node)
			}
			if x.Tok == nil {
				if e := cmp(x, k.(tree.NodeElement)); e != nil {
					return e
				}
			} else if k.Token().Text() != x.Tok.Text || k.TypeName() != x.Tok.Type {
				return violation("child #%d of %q is %s, expected %q", i, w.Node, tokStr(k.Token()), x.Tok.Text)
			}
		}
		if n.LastChild() != prev {
			return violation("node %q has wrong last child", w.Node)
		}
		return nil
	}
	if e := cmp(want, root); e != nil {
		return violation("%v\n%s", e, c.Spec.Text())
	}
	r.TrivialIf(cnt < 2)
	return nil
}

// CustomCase is a parsing with a kind of hook for every node type (in order of definition).
type CustomCase struct {
	ParseCase
	Kinds []int // 0, 1: standard, 2: standard with another name, 3: gives a token, 4: gives something else
}

// leafHook gives the first token of the node as a token element, or something that is not an element.
type leafHook struct {
	tok  *lexer.Token
	leaf bool
}

func (h *leafHook) NewNode(string, *lexer.Token) error { return nil }
func (h *leafHook) HandleNode(string, any) error       { return nil }
func (h *leafHook) HandleToken(*lexer.Token) error     { return nil }
func (h *leafHook) EndNode() (any, error) {
	if h.leaf {
		return tree.NewTokenElement(h.tok), nil
	}
	return 42, nil
}

// checkCustom mixes the standard node hook with other ones.
func checkCustom(c CustomCase, r *engine.Rec) error {
	_, p, e := compile(c.Spec.Text())
	if e != nil {
		return violation("a correct description is rejected: %v\n%s", e, c.Spec.Text())
	}
	want, _, e := parseTree(p, newQueue("src", string(c.Src)), 8000, parser.WithFullSource())
	if e != nil {
		r.Trivial()
		return unexpectedKind(e)
	}
	kinds := map[string]int{}
	hs := parser.NodeHooks{parser.AnyNode: tree.NodeHook}
	for i, n := range c.Spec.Nodes {
		k := 0
		if i > 0 && len(c.Kinds) > 0 {
			k = c.Kinds[i%len(c.Kinds)]
		}
		kinds[n.Name] = k
		switch k {
		case 1:
			hs[n.Name] = tree.NodeHook
		case 2:
			hs[n.Name] = func(_ context.Context, node string, tok *lexer.Token, _ *parser.NodeContext) (parser.NodeHookInstance, error) {
				return tree.NewHookInstance("x-"+node, tok), nil
			}
		case 3, 4:
			hs[n.Name] = func(_ context.Context, _ string, tok *lexer.Token, _ *parser.NodeContext) (parser.NodeHookInstance, error) {
				return &leafHook{tok, k == 3}, nil
			}
		}
	}
	bad := ""
	cnt, mixed := 0, 0
	var model func(w *gram.Tree) string
	model = func(w *gram.Tree) string {
		if w.Tok != nil {
			return fmt.Sprintf("%q", w.Tok.Text)
		}
		k := kinds[w.Node]
		cnt++
		if k > 1 {
			mixed++
		}
		if k > 2 {
			// hooks of nodes inside work as well
			for _, x := range w.Kids {
				model(x)
			}
		}
		switch k {
		case 3:
			if l := w.Leaves(); len(l) > 0 {
				return fmt.Sprintf("%q", l[0].Text)
			}
			return "empty"
		case 4:
			return "42"
		}
		res := w.Node + "("
		if k == 2 {
			res = "x-" + res
		}
		for _, x := range w.Kids {
			if x.Tok == nil && kinds[x.Node] == 4 && bad == "" {
				bad = x.Node
			}
			res += model(x) + " "
		}
		return res + ")"
	}
	ms := model(want)
	if strings.Contains(ms, "empty") {
		r.Trivial()
		return nil
	}
	r.TrivialIf(cnt < 3 || mixed == 0)
	res, e := p.Parse(newLimit(8000), newQueue("src", string(c.Src)), parser.Hooks{Nodes: hs}, parser.WithFullSource())
	if bad != "" {
		r.Class("a result is not an element")
		if e == nil {
			return violation("result of node %q is not an element, but no error is reported\n%s", bad, c.Spec.Text())
		}
		return nil
	}
	if e != nil {
		return violation("error %v\n%s", e, c.Spec.Text())
	}
	var real func(el tree.Element) string
	real = func(el tree.Element) string {
		n, is := el.(tree.NodeElement)
		if !is {
			return fmt.Sprintf("%q", el.Token().Text())
		}
		res := n.TypeName() + "("
		for _, x := range tree.Children(n) {
			if x.Parent() != n {
				return "a child with a wrong parent"
			}
			res += real(x) + " "
		}
		return res + ")"
	}
	root, is := res.(tree.Element)
	if !is {
		return violation("result is %v", res)
	}
	if rs := real(root); rs != ms {
		return violation("tree is %s, expected %s\n%s", rs, ms, c.Spec.Text())
	}
	return nil
}

func init() {
	engine.Define("C24", "a case is a set of 2-12 node and token elements and up to 36 edits (detach, replace, insert before, after, as a child, add, remove; nil, the same, adjacent and related elements are chosen often) after each of which all links of all elements are compared with a model; non-trivial: at least 3 edits")
	engine.Register("C24", "edits", 1000000, 6000000, genEdits, checkEdits)

	engine.Define("C25", "walk: a case is a random tree, a subtree, a direction, and flags for steps; navigation: a random tree, all functions for all elements; build: a sentence of a random grammar parsed with the standard tree hook; custom: other hooks for some node types; non-trivial: at least 3 elements (2 for build, 3 nodes with different hooks for custom)")
	engine.Register("C25", "walk", 400000, 4000000, func(t *rapid.T) WalkCase {
		c := WalkCase{Shape: genShape(t, gram.Scale(t, 16, 8)), Rtl: rapid.Bool().Draw(t, "rtl"), Func: rapid.IntRange(0, 3).Draw(t, "func")}
		if gram.Chance(t, 50, "sub") {
			c.Root = rapid.IntRange(0, max(15, len(c.Shape.Tokens)-1)).Draw(t, "root")
		}
		fl := []int{0, 0, tree.WalkerSkipChildren, tree.WalkerSkipSiblings, tree.WalkerSkipChildren | tree.WalkerSkipSiblings}
		if gram.Chance(t, 15, "stop") {
			fl = append(fl, tree.WalkerStop)
		}
		c.Flags = rapid.SliceOfN(rapid.SampledFrom(fl), 0, gram.Scale(t, 10, 8)).Draw(t, "flags")
		return c
	}, checkWalk)
	engine.Register("C25", "navigation", 200000, 1500000, func(t *rapid.T) NavCase { return NavCase{genShape(t, gram.Scale(t, 16, 4))} }, checkNav)
	engine.Register("C25", "build", 60000, 600000, func(t *rapid.T) ParseCase {
		if gram.Chance(t, 40, "choice") {
			return genChoiceCase(t, 16)
		}
		return genParseCase(t, gram.Options{MaxNodes: 6, Depth: 3, LL1: true, Eoi: true}, 16, 10)
	}, checkBuild)
	engine.Register("C25", "custom", 30000, 300000, func(t *rapid.T) CustomCase {
		o := gram.Options{MaxNodes: 6, Depth: 3, LL1: true}
		kinds := []int{0, 1, 2, 3}
		if gram.Chance(t, 25, "wrong") {
			kinds = append(kinds, 4)
		}
		return CustomCase{genParseCase(t, o, 16, 0), rapid.SliceOfN(rapid.SampledFrom(kinds), 1, 6).Draw(t, "kinds")}
	}, checkCustom)

	engine.Define("C26", "a case is a random tree, a selector of up to 4 steps (extractors, their combinations, filters, searches), and inputs including nil and repeated elements; it is applied three times; non-trivial: some output")
	engine.Register("C26", "selector", 700000, 9000000, genSelector, checkSelector)
}
