package gram

import (
	"fmt"

	"pgregory.net/rapid"
)

// AddChoices inserts items whose alternatives share prefixes: every alternative starts with the same fresh
// literal and contains a terminator of its own (all but one, if a fresh literal follows the choice, or the choice ends its node). Everything
// else stays LL(1). Returns the number of inserted choices.
func AddChoices(t *rapid.T, s *Spec, k *Kit, maxChoices int) int {
	cnt := n(t, 1, maxChoices, "choices")
	helpers := 0
	// terminators must not be matched by token types
	reserve := Chance(t, 50, "reserveTerms")
	// helper nodes come last and may refer to any original node: they are neither changed nor referred to
	orig := len(s.Nodes)
	openEnd := map[int]bool{}
	for c := 0; c < cnt; c++ {
		ni := n(t, 0, orig-1, "choiceNode")
		it, needTail := makeChoice(t, s, k, ni, orig, &helpers, 1, reserve)
		at := pickSeq(t, &s.Nodes[ni].Body)
		i := n(t, 0, len(*at), "choiceAt")
		if openEnd[ni] && i == len(*at) {
			i = 0
		}
		ins := Seq{it}
		if needTail && at == &s.Nodes[ni].Body && Chance(t, 50, "openEnd") {
			i = len(*at)
			openEnd[ni] = true
		} else if needTail {
			term := k.Fresh()
			ins = append(ins, Item{{K: Lit, N: term}})
			if reserve {
				s.Reserved = append(s.Reserved, term)
			}
		}
		if Chance(t, 30, "wrap") {
			ins = Seq{Item{{K: rapid.SampledFrom([]string{Rep, Opt, Grp}).Draw(t, "wrapKind"), S: ins}}}
		}
		nb := append(Seq(nil), (*at)[:i]...)
		nb = append(nb, ins...)
		nb = append(nb, (*at)[i:]...)
		*at = nb
	}
	for i := range s.Nodes {
		for SharedLoop(s.Nodes[i].Body) {
			guardLoops(s.Nodes[i].Body, k)
		}
	}
	repairLL1(s, k)
	// an alternative that ends the node may be a start of another one if what follows the node is different
	lt := k.LitTyper(s)
	for changed := true; changed; {
		changed = false
		m := Analyse(s)
		for ni := 0; ni < orig; ni++ {
			if !openEnd[ni] {
				continue
			}
			body := s.Nodes[ni].Body
			inside := s.inside(body[len(body)-1:])
			if m.SetsOverlap(inside, m.Follow[s.Nodes[ni].Name], lt) {
				changed = true
				delete(openEnd, ni)
				s.Nodes[ni].Body = append(s.Nodes[ni].Body, Item{{K: Lit, N: k.Fresh()}})
				repairLL1(s, k)
				break
			}
		}
	}
	return cnt
}

func pickSeq(t *rapid.T, body *Seq) *Seq {
	all := []*Seq{body}
	body.Walk(func(a *Atom) {
		if a.S != nil {
			all = append(all, &a.S)
		}
	})
	return all[n(t, 0, len(all)-1, "seq")]
}

func makeChoice(t *rapid.T, s *Spec, k *Kit, ni, orig int, helpers *int, depth int, reserve bool) (Item, bool) {
	var types []string
	for _, x := range k.Plain {
		if reserve || x != k.freshTy {
			types = append(types, x)
		}
	}
	alts := n(t, 2, 5, "alts")
	base := Seq{Item{{K: Lit, N: k.Fresh(), C: true}}}
	for l := n(t, 0, 5, "base"); l > 0; l-- {
		switch n(t, 0, 9, "baseAtom") {
		case 0, 1, 2, 3, 4:
			base = append(base, Item{{K: Lit, N: rapid.SampledFrom(k.Lits).Draw(t, "lit")}})
		case 5, 6, 7:
			base = append(base, Item{{K: Tok, N: rapid.SampledFrom(types).Draw(t, "tok")}})
		case 8:
			if reserve && ni+1 < orig {
				base = append(base, Item{{K: Nod, N: s.Nodes[n(t, ni+1, orig-1, "ref")].Name}})
			}
		default:
			base = append(base, Item{{K: rapid.SampledFrom([]string{Opt, Rep}).Draw(t, "k"), S: Seq{Item{{K: Lit, N: k.Fresh()}}, Item{{K: Lit, N: rapid.SampledFrom(k.Lits).Draw(t, "lit")}}}}})
		}
	}
	open := -1
	if Chance(t, 25, "openAlt") {
		open = n(t, 0, alts-1, "open")
	}
	var it Item
	for a := 0; a < alts; a++ {
		cut := len(base)
		if Chance(t, 50, "shorter") {
			cut = n(t, 1, len(base), "cut")
		}
		seq := cloneSeq(base[:cut])
		for l := n(t, 0, 2, "extra"); l > 0; l-- {
			seq = append(seq, Item{{K: Lit, N: rapid.SampledFrom(k.Lits).Draw(t, "lit")}})
		}
		// wrap a part of the alternative
		if Chance(t, 40, "wrapPart") {
			from := n(t, 0, len(seq)-1, "from")
			to := n(t, from+1, len(seq), "to")
			part := cloneSeq(seq[from:to])
			var w Atom
			switch n(t, 0, 3, "partKind") {
			case 0:
				w = Atom{K: Grp, S: part}
			case 1:
				if from > 0 {
					w = Atom{K: Opt, S: part}
				} else {
					w = Atom{K: Grp, S: part}
				}
			default:
				*helpers++
				name := fmt.Sprintf("h%d", *helpers)
				if Chance(t, 30, "optionalEnd") {
					part = append(part, Item{{K: rapid.SampledFrom([]string{Opt, Rep}).Draw(t, "k"), S: Seq{Item{{K: Lit, N: k.Fresh()}}}}})
				}
				s.Nodes = append(s.Nodes, NodeDef{name, part})
				w = Atom{K: Nod, N: name, C: from == 0}
			}
			ns := append(Seq(nil), seq[:from]...)
			ns = append(ns, Item{w})
			seq = append(ns, seq[to:]...)
		}
		if depth > 0 && Chance(t, 15, "nested") {
			inner, needTail := makeChoice(t, s, k, ni, orig, helpers, depth-1, reserve)
			seq = append(seq, inner)
			if needTail {
				term := k.Fresh()
				seq = append(seq, Item{{K: Lit, N: term}})
				if reserve {
					s.Reserved = append(s.Reserved, term)
				}
			}
		}
		if a != open {
			term := k.Fresh()
			seq = append(seq, Item{{K: Lit, N: term}})
			if reserve {
				s.Reserved = append(s.Reserved, term)
			}
		}
		it = append(it, Atom{K: Grp, S: seq})
	}
	return it, open >= 0
}
