package props

import (
	"fmt"
	"strings"

	"github.com/ava12/llx"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

func genChoiceCase(t *rapid.T, budget int) ParseCase {
	if gram.Chance(t, 15, "ends") {
		return genEnds(t, min(budget, 10))
	}
	k := gram.GenKit(t)
	s, rep := gram.GenSpec(t, k, gram.Options{MaxNodes: 3, Depth: 2, LL1: true})
	gram.AddChoices(t, s, k, 3)
	m := gram.Analyse(s)
	sm := gram.NewSampler(m, k)
	sm.Flat = true
	toks := sm.Sized(t, budget)
	c := ParseCase{Spec: s, Repairs: rep, Sent: true}
	if gram.Chance(t, 35, "mutate") {
		toks = sm.Mutate(t, toks)
		c.Sent = false
	}
	src, offs := k.Render(t, toks)
	c.Toks, c.Src, c.Offs = toks, Str(src), offs
	return c
}

// genEnds makes grammars with arbitrary conflicts inside nodes.
func genEnds(t *rapid.T, budget int) ParseCase {
	k := gram.GenKit(t)
	s := gram.GenEnds(t, k)
	sm := gram.NewSampler(gram.Analyse(s), k)
	sm.Flat = true
	toks := sm.Sentence(t, rapid.IntRange(0, budget).Draw(t, "budget"))
	c := ParseCase{Spec: s, Sent: true}
	if gram.Chance(t, 35, "mutate") {
		toks = sm.Mutate(t, toks)
		c.Sent = false
	}
	src, offs := k.Render(t, toks)
	c.Toks, c.Src, c.Offs = toks, Str(src), offs
	return c
}

// LongCase is a list of items that share starts of any length.
type LongCase struct {
	Kinds  []int // how each alternative writes the shared start
	Start  int   // kind of the shared start
	Items  []LongItem
	Broken int // 0: correct, 1: wrong terminator of the last item, 2: no terminator of the last item
}

// LongItem is an item: an alternative and the number of repetitions in its start.
type LongItem struct{ Alt, N int }

var longStarts = []string{"{'x'}", "r", "b", "{q}", "{'x'|('y','z')}"}

func genLong(t *rapid.T) LongCase {
	c := LongCase{Start: rapid.IntRange(0, len(longStarts)-1).Draw(t, "kind")}
	for n := rapid.IntRange(2, 8).Draw(t, "alts"); n > 0; n-- {
		c.Kinds = append(c.Kinds, rapid.IntRange(0, 2).Draw(t, "altKind"))
	}
	if gram.Chance(t, 20, "many") {
		for n := rapid.IntRange(1, 60).Draw(t, "more"); n > 0; n-- {
			c.Kinds = append(c.Kinds, rapid.IntRange(0, 2).Draw(t, "altKind"))
		}
	}
	left := 6000 / len(c.Kinds)
	for n := rapid.IntRange(1, 4).Draw(t, "items"); n > 0; n-- {
		it := LongItem{Alt: rapid.IntRange(0, len(c.Kinds)-1).Draw(t, "alt")}
		switch rapid.IntRange(0, 2).Draw(t, "size") {
		case 0:
			it.N = rapid.IntRange(0, min(left, 5)).Draw(t, "n")
		case 1:
			it.N = rapid.IntRange(0, min(left, 70)).Draw(t, "n")
		default:
			it.N = rapid.IntRange(0, left).Draw(t, "n")
		}
		left -= it.N
		c.Items = append(c.Items, it)
	}
	if gram.Chance(t, 30, "broken") {
		c.Broken = rapid.IntRange(1, 2).Draw(t, "how")
	}
	return c
}

// build returns the description, the text, the tree if the text is correct, and the offset of the first wrong token.
func (c LongCase) build() (desc, text, tree string, errAt int) {
	var d strings.Builder
	d.WriteString("!side $s; $s=/\\s+/; $w=/[a-z0-9]+|[()]/;\ng={")
	helpers := ""
	for i, k := range c.Kinds {
		if i > 0 {
			d.WriteByte('|')
		}
		st := longStarts[c.Start]
		switch k {
		case 0:
			fmt.Fprintf(&d, "('p',%s,'t%d')", st, i)
		case 1:
			fmt.Fprintf(&d, "(h%d,'t%d')", i, i)
			helpers += fmt.Sprintf("h%d='p',%s;", i, st)
		default:
			fmt.Fprintf(&d, "k%d", i)
			helpers += fmt.Sprintf("k%d='p',%s,'t%d';", i, st, i)
		}
	}
	d.WriteString("};\n" + helpers)
	d.WriteString(map[string]string{"r": "r='x',[r];", "b": "b='(',[b],')';", "{q}": "q='x';"}[longStarts[c.Start]])
	var src, tr strings.Builder
	tok := func(s string) {
		src.WriteString(s + " ")
	}
	tr.WriteString("g(")
	for i, it := range c.Items {
		n := it.N
		var st strings.Builder
		leaf := func(s string) {
			tok(s)
			st.WriteString(" " + s)
		}
		leaf("p")
		switch longStarts[c.Start] {
		case "{'x'}":
			for ; n > 0; n-- {
				leaf("x")
			}
		case "r":
			for x := 0; x <= n; x++ {
				st.WriteString(" r(")
				leaf("x")
			}
			st.WriteString(strings.Repeat(" )", n+1))
		case "b":
			for x := 0; x <= n; x++ {
				st.WriteString(" b(")
				leaf("(")
			}
			for x := 0; x <= n; x++ {
				leaf(")")
				st.WriteString(" )")
			}
		case "{q}":
			for ; n > 0; n-- {
				st.WriteString(" q(")
				leaf("x")
				st.WriteString(" )")
			}
		default:
			for ; n > 0; n-- {
				if n%3 == 0 {
					leaf("y")
					leaf("z")
				} else {
					leaf("x")
				}
			}
		}
		errAt = src.Len()
		term := fmt.Sprintf("t%d", it.Alt)
		if i == len(c.Items)-1 && c.Broken == 1 {
			term = "p"
		}
		if i < len(c.Items)-1 || c.Broken < 2 {
			tok(term)
		}
		switch c.Kinds[it.Alt] {
		case 0:
			fmt.Fprintf(&tr, "%s %s", st.String(), term)
		case 1:
			fmt.Fprintf(&tr, " h%d(%s ) %s", it.Alt, st.String(), term)
		default:
			fmt.Fprintf(&tr, " k%d(%s %s )", it.Alt, st.String(), term)
		}
	}
	tr.WriteString(" )")
	return d.String(), src.String(), tr.String(), errAt
}

func longTree(b *strings.Builder, t *gram.Tree) {
	if t.Tok != nil {
		b.WriteString(" " + t.Tok.Text)
		return
	}
	if b.Len() > 0 {
		b.WriteByte(' ')
	}
	b.WriteString(t.Node + "(")
	for _, k := range t.Kids {
		longTree(b, k)
	}
	b.WriteString(" )")
}

func checkLong(c LongCase, r *engine.Rec) error {
	desc, text, want, errAt := c.build()
	_, p, e := compile(desc)
	if e != nil {
		return violation("a correct description is rejected: %v\n%s", e, desc)
	}
	longest := 0
	for _, it := range c.Items {
		longest = max(longest, it.N)
	}
	r.TrivialIf(longest < 6)
	r.ClassIf(longest >= 100, "100+ tokens looked ahead")
	r.ClassIf(longest >= 1000, "1000+ tokens looked ahead")
	r.ClassIf(len(c.Kinds) > 10, "more than 10 alternatives")
	tree, _, e := parseTree(p, newQueue("src", text), 100000+100*len(text), parser.WithFullSource())
	if c.Broken == 0 {
		if e != nil {
			return violation("a sentence is rejected: %v", e)
		}
		var b strings.Builder
		longTree(&b, tree)
		if b.String() != want {
			return violation("got tree %s\nexpected %s\n%s", b.String(), want, desc)
		}
		return nil
	}
	if e == nil {
		return violation("a wrong source is accepted")
	}
	le, is := e.(*llx.Error)
	if !is {
		return violation("not an llx error: %v", e)
	}
	if c.Broken == 2 {
		if le.Code != parser.UnexpectedEoiError {
			return violation("unexpected end is expected, got: %v", e)
		}
		return nil
	}
	if le.Code != parser.UnexpectedTokenError || le.Line != 1 || le.Col != errAt+1 {
		return violation("unexpected token at column %d is expected, got: %v", errAt+1, e)
	}
	return nil
}

func init() {
	engine.Define("C03", "a case is an LL(1) grammar with 1-3 inserted choices, whose 2-5 alternatives share a prefix of 1-6 items (plain, grouped, optional, moved to nested nodes, nested choices) and differ by a terminator, and a sentence or a mutated one; non-trivial: at some token at least two alternatives are alive. \"long\": 2-68 alternatives sharing starts (repetitions, recursive nodes) of up to 3000 tokens, non-trivial: at least 6 repetitions")
	engine.Register("C03", "long", 6000, 120000, genLong, checkLong)
	checkChoices := func(c ParseCase, r *engine.Rec) error {
		_, p, e := compile(c.Spec.Text())
		if e != nil {
			return violation("a correct description is rejected: %v\n%s", e, c.Spec.Text())
		}
		m := gram.Analyse(c.Spec)
		alive := m.Alive(c.Toks)
		r.TrivialIf(alive < 2)
		r.ClassIf(alive >= 3, "3+ alternatives alive")
		trees, errAt, complete := m.Viable(c.Toks)
		tree, _, e := parseTree(p, newQueue("src", string(c.Src)), 4000+100*len(c.Toks), parser.WithFullSource())
		if len(trees) > 0 {
			r.Class("in language")
			r.ClassIf(len(trees) > 1, "ambiguous")
			if e != nil {
				return violation("a sentence is rejected: %v\ntokens: %s\n%s", e, gram.TokensString(c.Toks), c.Spec.Text())
			}
			for _, x := range trees {
				if x.String() == tree.String() {
					return nil
				}
			}
			return violation("got tree %s\nexpected %s\n%s", tree, trees[0], c.Spec.Text())
		}
		r.Class("not in language")
		if e == nil {
			return violation("accepted: %s\nerror is expected at token #%d of %s\n%s", tree, errAt, gram.TokensString(c.Toks), c.Spec.Text())
		}
		want := gram.PredResult{ErrAt: errAt}
		if complete {
			want.Tree = &gram.Tree{}
		}
		return checkErrorAt(c, want, e)
	}
	engine.Register("C03", "choices", 120000, 2500000, func(t *rapid.T) ParseCase { return genChoiceCase(t, 24) }, checkChoices)
	engine.Register("C03", "ends", 60000, 1200000, func(t *rapid.T) ParseCase { return genEnds(t, 10) }, checkChoices)
}
