package props

import (
	"fmt"
	"slices"
	"strings"

	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

// PriorityCase is a repeated sequence of parts; every alternative of a part is a node of its own.
type PriorityCase struct {
	Toks     []gram.TokDef
	Reserved []string
	Parts    []PriorityPart
	Input    []gram.Token
	Src      Str
	Offs     []int
}

// PriorityPart is a set of alternatives.
type PriorityPart struct {
	Opt  bool
	Alts []PriorityAlt
}

// PriorityAlt is a set of terminals, may be followed by a token type. Alternatives sharing a terminal
// have different types following it.
type PriorityAlt struct {
	First []gram.Term
	Next  string `json:",omitempty"`
}

type wordType struct {
	def   gram.TokDef
	lits  []string
	texts []string
}

func genWordTypes(t *rapid.T) []wordType {
	var ws []wordType
	if gram.Chance(t, 50, "mixed") {
		ws = append(ws, wordType{gram.TokDef{Name: "word", Re: `[a-zA-Z]+`}, []string{"A", "IF", "WORD", "num"}, []string{"x", "If", "a", "if", "b", "Num"}})
	} else {
		ws = append(ws,
			wordType{gram.TokDef{Name: "word", Re: `[a-z]+`}, []string{"a", "if", "word", "num"}, []string{"x", "y", "b"}},
			wordType{gram.TokDef{Name: "up", Re: `[A-Z]+`}, []string{"A", "IF", "UP"}, []string{"X", "Y", "WORD"}})
	}
	ws = append(ws,
		wordType{gram.TokDef{Name: "num", Re: `[0-9]+`}, []string{"0", "10"}, []string{"1", "00", "11"}},
		wordType{gram.TokDef{Name: "op", Re: `[-+*=<>!]+`}, []string{"=", "==", "-", "!"}, []string{"<", "+-", "==="}},
		wordType{gram.TokDef{Name: "cyr", Re: `[А-Яа-яЁё]+`}, []string{"ИЛИ", "Ё"}, []string{"или", "Или", "ё", "я"}},
		wordType{gram.TokDef{Name: "str", Re: `"[^"]*"`}, []string{`""`, `"A"`}, []string{`"a"`, `"x"`, `"if"`}})
	from := rapid.IntRange(0, 2).Draw(t, "skipTypes")
	ws = ws[:len(ws)-from]
	for i := range ws {
		ws[i].def.Caseless = gram.Chance(t, 35, "caseless")
		ws[i].def.NoLit = gram.Chance(t, 20, "nolit")
		if ws[i].def.Caseless {
			var l []string
			for _, x := range ws[i].lits {
				if strings.ToUpper(x) == x {
					l = append(l, x)
				}
			}
			ws[i].lits = l
		}
	}
	return ws
}

func (c *PriorityCase) spec() *gram.Spec {
	s := &gram.Spec{Toks: c.Toks, Reserved: c.Reserved}
	var body gram.Seq
	var nodes []gram.NodeDef
	for i, p := range c.Parts {
		var it gram.Item
		for j, a := range p.Alts {
			name := fmt.Sprintf("n%d-%d", i, j)
			var ni gram.Item
			for _, x := range a.First {
				ni = append(ni, gram.Atom{K: x.K, N: x.N})
			}
			nb := gram.Seq{ni}
			if a.Next != "" {
				nb = append(nb, gram.Item{{K: gram.Tok, N: a.Next}})
			}
			nodes = append(nodes, gram.NodeDef{Name: name, Body: nb})
			it = append(it, gram.Atom{K: gram.Nod, N: name})
		}
		if p.Opt {
			it = gram.Item{{K: gram.Opt, S: gram.Seq{it}}}
		}
		body = append(body, it)
	}
	s.Nodes = append([]gram.NodeDef{{Name: "g", Body: gram.Seq{gram.Item{{K: gram.Rep, S: body}}}}}, nodes...)
	return s
}

// window returns the parts that may come next: optional ones up to a required one; atEnd is set
// if the sequence may end.
func (c *PriorityCase) window(i int) (parts []int, atEnd bool) {
	for ; i < len(c.Parts); i++ {
		parts = append(parts, i)
		if !c.Parts[i].Opt {
			return parts, false
		}
	}
	return parts, true
}

type priorityAlt struct{ part, alt int }

// pick returns alternatives to take from parts that may come next: those starting with a literal
// matching the token or (if there are none) those starting with its type.
func (c *PriorityCase) pick(m *gram.Model, i int, t gram.Token) (res []priorityAlt, both, atEnd bool) {
	parts, atEnd := c.window(i)
	for _, kind := range []string{gram.Lit, gram.Tok} {
		if len(res) > 0 {
			both = true
		}
		var found []priorityAlt
		for _, pi := range parts {
			for ai, a := range c.Parts[pi].Alts {
				for _, x := range a.First {
					if x.K == kind && m.Match(t, x) {
						found = append(found, priorityAlt{pi, ai})
					}
				}
			}
		}
		both = both && len(found) > 0
		if len(res) == 0 {
			res = found
		}
	}
	return
}

type priorityStat struct{ both, skipped, shared, sharedBoth int }

func (c *PriorityCase) predict(m *gram.Model) (gram.PredResult, priorityStat) {
	root := &gram.Tree{Node: "g"}
	i := 0
	var st priorityStat
	for n := 0; n < len(c.Input); n++ {
		for {
			cands, both, atEnd := c.pick(m, i, c.Input[n])
			if both {
				st.both++
			}
			if len(cands) > 0 {
				var kids []*gram.Tree
				kids = append(kids, &gram.Tree{Tok: &c.Input[n]})
				cand := cands[0]
				if len(cands) > 1 {
					st.shared++
					if both {
						st.sharedBoth++
					}
				}
				if next := c.Parts[cand.part].Alts[cand.alt].Next; next != "" {
					n++
					if n >= len(c.Input) {
						return gram.PredResult{ErrAt: n}, st
					}
					ok := false
					for _, x := range cands {
						if m.Match(c.Input[n], gram.Term{K: gram.Tok, N: c.Parts[x.part].Alts[x.alt].Next}) {
							cand, ok = x, true
						}
					}
					if !ok {
						return gram.PredResult{ErrAt: n}, st
					}
					kids = append(kids, &gram.Tree{Tok: &c.Input[n]})
				}
				st.skipped += cand.part - i
				root.Kids = append(root.Kids, &gram.Tree{Node: fmt.Sprintf("n%d-%d", cand.part, cand.alt), Kids: kids})
				i = (cand.part + 1) % len(c.Parts)
				break
			}
			if i == 0 {
				return gram.PredResult{ErrAt: n, Tree: root}, st
			}
			if !atEnd {
				return gram.PredResult{ErrAt: n}, st
			}
			st.skipped++
			i = 0
		}
	}
	if i != 0 {
		if _, atEnd := c.window(i); !atEnd {
			return gram.PredResult{ErrAt: len(c.Input)}, st
		}
	}
	return gram.PredResult{OK: true, Tree: root}, st
}

func genPriority(t *rapid.T) PriorityCase {
	ws := genWordTypes(t)
	var c PriorityCase
	byType := map[string]wordType{}
	var lits []string
	for _, w := range ws {
		c.Toks = append(c.Toks, w.def)
		byType[w.def.Name] = w
		if !w.def.NoLit {
			lits = append(lits, w.lits...)
		}
	}
	c.Toks = append(c.Toks, gram.TokDef{Name: "space", Re: `[ \n]+`, Side: true})
	var shared []gram.Term
	term := func() gram.Term {
		if len(shared) > 0 && gram.Chance(t, 30, "related") {
			// a type of a shared literal or vice versa
			x := rapid.SampledFrom(shared).Draw(t, "relatedTo")
			for _, w := range ws {
				if x.K == gram.Lit && slices.Contains(w.lits, x.N) {
					return gram.Term{K: gram.Tok, N: w.def.Name}
				}
				if x.K == gram.Tok && w.def.Name == x.N && len(w.lits) > 0 && !w.def.NoLit {
					l := rapid.SampledFrom(w.lits).Draw(t, "literal")
					return gram.Term{K: gram.Lit, N: l}
				}
			}
		}
		if len(lits) > 0 && gram.Chance(t, 55, "lit") {
			l := rapid.SampledFrom(lits).Draw(t, "literal")
			return gram.Term{K: gram.Lit, N: l}
		}
		return gram.Term{K: gram.Tok, N: rapid.SampledFrom(ws).Draw(t, "type").def.Name}
	}
	parts := rapid.IntRange(1, 5).Draw(t, "parts")
	// terminals (with the following type, if any) differ within parts that may come next together:
	// at most two tokens are needed
	seen := map[gram.Term]map[string]bool{}
	for i := 0; i < parts; i++ {
		p := PriorityPart{Opt: i > 0 && gram.Chance(t, 60, "opt")}
		for n := rapid.IntRange(1, 4).Draw(t, "alts"); n > 0; n-- {
			if gram.Chance(t, 35, "followed") {
				x := term()
				if len(shared) > 0 && gram.Chance(t, 70, "share") {
					x = rapid.SampledFrom(shared).Draw(t, "shared")
				}
				next := rapid.SampledFrom(ws).Draw(t, "next").def.Name
				if !seen[x][""] && !seen[x][next] {
					if seen[x] == nil {
						seen[x] = map[string]bool{}
						shared = append(shared, x)
					}
					seen[x][next] = true
					p.Alts = append(p.Alts, PriorityAlt{[]gram.Term{x}, next})
					if next = rapid.SampledFrom(ws).Draw(t, "next2").def.Name; !seen[x][next] {
						seen[x][next] = true
						p.Alts = append(p.Alts, PriorityAlt{[]gram.Term{x}, next})
					}
				}
				continue
			}
			var a []gram.Term
			for k := rapid.IntRange(1, 2).Draw(t, "terms"); k > 0; k-- {
				x := term()
				if seen[x] == nil {
					seen[x] = map[string]bool{"": true}
					a = append(a, x)
				}
			}
			if len(a) > 0 {
				p.Alts = append(p.Alts, PriorityAlt{First: a})
			}
		}
		if len(p.Alts) == 0 {
			if i == 0 {
				t.Fatalf("no alternatives")
			}
			continue
		}
		c.Parts = append(c.Parts, p)
		if !p.Opt {
			seen, shared = map[gram.Term]map[string]bool{}, nil
		}
	}
	for _, l := range lits {
		if gram.Chance(t, 15, "reserved") {
			c.Reserved = append(c.Reserved, l)
		}
	}
	m := gram.Analyse(c.spec())
	typed := func(w wordType) gram.Token {
		text := rapid.SampledFrom(append(append([]string(nil), w.lits...), w.texts...)).Draw(t, "text")
		return gram.Token{Type: w.def.Name, Text: text}
	}
	token := func() gram.Token { return typed(rapid.SampledFrom(ws).Draw(t, "tokType")) }
	// mostly follow the model to get deep into the grammar
	i := 0
	for n := rapid.IntRange(0, 14).Draw(t, "tokens"); n > 0; n-- {
		var x gram.Token
		var cands []priorityAlt
		for try := 0; try < 6 && len(cands) == 0; try++ {
			x = token()
			var atEnd bool
			cands, _, atEnd = c.pick(m, i, x)
			if len(cands) == 0 && atEnd {
				cands, _, _ = c.pick(m, 0, x)
			}
		}
		c.Input = append(c.Input, x)
		if len(cands) == 0 {
			continue
		}
		cand := rapid.SampledFrom(cands).Draw(t, "cand")
		i = (cand.part + 1) % len(c.Parts)
		if next := c.Parts[cand.part].Alts[cand.alt].Next; next != "" {
			for try := 0; try < 3; try++ {
				x = typed(byType[next])
				if m.Match(x, gram.Term{K: gram.Tok, N: next}) {
					break
				}
			}
			if gram.Chance(t, 10, "wrongNext") {
				x = token()
			}
			c.Input = append(c.Input, x)
		}
	}
	var b strings.Builder
	for i, x := range c.Input {
		if i > 0 {
			b.WriteString(rapid.SampledFrom([]string{" ", "\n"}).Draw(t, "sep"))
		}
		c.Offs = append(c.Offs, b.Len())
		b.WriteString(x.Text)
	}
	c.Src = Str(b.String())
	return c
}

func init() {
	engine.Define("C04", "a case is a table of 1-5 consecutive parts (some optional), each a set of literals and token types leading to nodes of their own or shared by several nodes that differ in the next token, over 3-6 word-like types with random case-insensitive and no-literals flags and random reserved words, and a text; non-trivial: some token fits both a literal and a type, an optional part is skipped, or a terminal starts several nodes")
	engine.Register("C04", "priority", 200000, 4000000, genPriority, func(c PriorityCase, r *engine.Rec) error {
		s := c.spec()
		_, p, e := compile(s.Text())
		if e != nil {
			return violation("a correct description is rejected: %v\n%s", e, s.Text())
		}
		m := gram.Analyse(s)
		want, st := c.predict(m)
		r.TrivialIf(st.both+st.skipped+st.shared == 0)
		r.ClassIf(st.both > 0, "literal and type both fit")
		r.ClassIf(st.skipped > 0, "part skipped")
		r.ClassIf(st.shared > 0, "several alternatives share a terminal")
		r.ClassIf(st.sharedBoth > 0, "both fit, one of them starts several alternatives")
		r.ClassIf(want.OK, "accepted")
		r.ClassIf(len(c.Reserved) > 0, "reserved words")
		tree, _, e := parseTree(p, newQueue("src", string(c.Src)), 4000, parser.WithFullSource())
		if want.OK {
			if e != nil {
				return violation("a sentence is rejected: %v\ntokens: %s\n%s", e, gram.TokensString(c.Input), s.Text())
			}
			if tree.String() != want.Tree.String() {
				return violation("got tree %s\nexpected %s\n%s", tree, want.Tree, s.Text())
			}
			return nil
		}
		if e == nil {
			return violation("accepted: %s\nerror is expected at token #%d of %s\n%s", tree, want.ErrAt, gram.TokensString(c.Input), s.Text())
		}
		return checkErrorAt(ParseCase{Spec: s, Toks: c.Input, Src: c.Src, Offs: c.Offs}, want, e)
	})
}
