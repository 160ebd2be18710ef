package gram

import (
	"fmt"

	"pgregory.net/rapid"
)

// GenEnds makes a grammar of nodes whose alternatives share starts in any way (an alternative may be a start of
// another one, literals may be repeated, alternatives may be moved to nested nodes); sequences may be ambiguous.
// What follows a node is never the same as what is inside it, so the only choices to make are those between
// alternatives of one node (optional parts start with literals of their own: they are matched greedily). Sentences must be short: ambiguous loops take exponential time.
func GenEnds(t *rapid.T, k *Kit) *Spec {
	s := &Spec{Toks: k.Toks, Nodes: []NodeDef{{Name: "g"}}}
	lit := func(x string) Item { return Item{{K: Lit, N: x}} }
	inner := rapid.SliceOfNDistinct(rapid.SampledFrom(k.Lits), 1, min(4, len(k.Lits)), rapid.ID[string]).Draw(t, "inner")
	if Chance(t, 50, "freshInner") {
		inner = append(inner, k.Fresh())
	}
	var outer []string
	for _, x := range k.Lits {
		in := false
		for _, y := range inner {
			in = in || x == y
		}
		if !in {
			outer = append(outer, x)
		}
	}
	outer = append(outer, k.Fresh())
	pickIn := func() string { return rapid.SampledFrom(inner).Draw(t, "innerLit") }
	pickOut := func() string { return rapid.SampledFrom(outer).Draw(t, "outerLit") }

	helpers := 0
	var seq func(depth, size int) Seq
	var alts func(depth int) Item
	helper := func(body Seq) Item {
		helpers++
		name := fmt.Sprintf("h%d", helpers)
		s.Nodes = append(s.Nodes, NodeDef{name, body})
		return Item{{K: Nod, N: name}}
	}
	seq = func(depth, size int) (r Seq) {
		for i := 0; i < size; i++ {
			c := n(t, 0, 9, "part")
			switch {
			case depth == 0 || c < 5:
				r = append(r, lit(pickIn()))
			case c < 7 && i > 0:
				r = append(r, Item{{K: rapid.SampledFrom([]string{Opt, Rep}).Draw(t, "optional"), S: Seq{lit(k.Fresh())}}})
				if Chance(t, 30, "more") {
					l := &r[len(r)-1][0].S
					*l = append(*l, seq(0, 1)...)
				}
			case c == 8:
				r = append(r, alts(depth-1))
			default:
				r = append(r, helper(seq(depth-1, n(t, 1, 2, "helperSize"))))
			}
		}
		return
	}
	alts = func(depth int) (it Item) {
		for c := n(t, 2, 4, "alts"); c > 0; c-- {
			var a Seq
			if len(it) > 0 && Chance(t, 70, "shared") {
				from := it[n(t, 0, len(it)-1, "from")].S
				a = cloneSeq(from[:n(t, 1, len(from), "sharedSize")])
				if len(from) == 1 && from[0][0].K == Nod && Chance(t, 50, "unwrap") {
					for i := range s.Nodes {
						if s.Nodes[i].Name == from[0][0].N {
							a = cloneSeq(s.Nodes[i].Body)
						}
					}
				}
				a = append(a, seq(depth, n(t, 0, 2, "rest"))...)
			} else {
				a = seq(depth, n(t, 1, 3, "size"))
			}
			if Chance(t, 20, "helperAlt") {
				a = Seq{helper(a)}
			}
			it = append(it, Atom{K: Grp, S: a})
		}
		return
	}

	helpers++
	s.Nodes = append(s.Nodes, NodeDef{Name: "x"})
	x := Seq{}
	if Chance(t, 40, "lead") {
		x = append(x, lit(rapid.SampledFrom([]string{pickIn(), pickOut()}).Draw(t, "leadLit")))
	}
	x = append(x, alts(2))
	if Chance(t, 20, "optionalTail") {
		x = append(x, Item{{K: Opt, S: Seq{lit(k.Fresh())}}})
	}
	s.Nodes[1].Body = x
	ref := Item{{K: Nod, N: "x"}}
	if Chance(t, 30, "middle") {
		s.Nodes = append(s.Nodes, NodeDef{"y", Seq{ref}})
		ref = Item{{K: Nod, N: "y"}}
		if Chance(t, 50, "leadMiddle") {
			y := &s.Nodes[len(s.Nodes)-1].Body
			*y = append(Seq{lit(pickOut())}, *y...)
		}
	}
	switch n(t, 0, 4, "place") {
	case 0:
		s.Nodes[0].Body = Seq{ref}
	case 1:
		s.Nodes[0].Body = Seq{ref, lit(pickOut())}
	case 2:
		s.Nodes[0].Body = Seq{Item{{K: Rep, S: Seq{ref, lit(pickOut())}}}}
	case 3:
		s.Nodes[0].Body = Seq{lit(pickOut()), ref, Item{{K: Opt, S: Seq{lit(pickOut())}}}}
	default:
		s.Nodes[0].Body = Seq{ref, Item{{K: Rep, S: Seq{lit(pickOut())}}}, lit(k.Fresh())}
	}
	// make what follows nodes different from what is inside
	lt := k.LitTyper(s)
	closed := map[int]bool{}
	for changed := true; changed; {
		changed = false
		for i := range s.Nodes {
			for SharedLoop(s.Nodes[i].Body) {
				guardLoops(s.Nodes[i].Body, k)
			}
		}
		m := Analyse(s)
		for i := 1; i < len(s.Nodes); i++ {
			if !closed[i] && m.SetsOverlap(s.inside(s.Nodes[i].Body), m.Follow[s.Nodes[i].Name], lt) {
				s.Nodes[i].Body = append(s.Nodes[i].Body, lit(k.Fresh()))
				closed[i] = true
				changed = true
				break
			}
		}
	}
	return s
}

// inside returns terminals used in a sequence and nodes it refers to.
func (s *Spec) inside(body Seq) map[Term]bool {
	r := map[Term]bool{}
	seen := map[string]bool{}
	var collect func(a *Atom)
	collect = func(a *Atom) {
		switch {
		case a.K == Lit || a.K == Tok:
			r[Term{a.K, a.N}] = true
		case a.K == Nod && !seen[a.N]:
			seen[a.N] = true
			for i := range s.Nodes {
				if s.Nodes[i].Name == a.N {
					s.Nodes[i].Body.Walk(collect)
				}
			}
		}
	}
	body.Walk(collect)
	return r
}
