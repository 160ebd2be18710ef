package gram

// kids is a persistent list of children, the last one first.
type kids struct {
	t    *Tree
	prev *kids
}

func (k *kids) slice() []*Tree {
	n := 0
	for p := k; p != nil; p = p.prev {
		n++
	}
	r := make([]*Tree, n)
	for p := k; p != nil; p = p.prev {
		n--
		r[n] = p.t
	}
	return r
}

// config is a state of a nondeterministic parser.
type config struct {
	name   string
	follow []int
	last   bool
	kids   *kids
	up     *config
}

// Viable runs all the derivations of the tokens in parallel (no left recursion, no empty nested nodes,
// no end-of-input items expected). Returns all trees of the whole input, the index of the first token that
// continues no derivation (-1 if none), and whether the tokens before that form a complete sentence.
func (m *Model) Viable(toks []Token) (trees []*Tree, errAt int, complete bool) {
	alive := 0
	return m.run(toks, &alive)
}

func (m *Model) run(toks []Token, alive *int) (trees []*Tree, errAt int, complete bool) {
	root := m.Spec.Nodes[0].Name
	au := m.Autos[root]
	cur := []*config{{name: root, follow: au.First, last: au.Nullable}}
	pop := func(c *config) *config {
		return &config{c.up.name, c.up.follow, c.up.last, &kids{&Tree{Node: c.name, Kids: c.kids.slice()}, c.up.kids}, c.up.up}
	}
	finish := func(set []*config) (r []*Tree) {
		for _, c := range set {
			for c.last {
				if c.up == nil {
					r = append(r, &Tree{Node: c.name, Kids: c.kids.slice()})
					break
				}
				c = pop(c)
			}
		}
		return
	}
	for i := range toks {
		var next []*config
		var expand func(c *config)
		expand = func(c *config) {
			au := m.Autos[c.name]
			for _, q := range c.follow {
				ps := &au.Pos[q]
				switch ps.A.K {
				case Nod:
					hit := false
					for x := range m.First[ps.A.N] {
						hit = hit || m.Match(toks[i], x)
					}
					if hit {
						ca := m.Autos[ps.A.N]
						expand(&config{ps.A.N, ca.First, ca.Nullable, nil, &config{c.name, ps.Follow, ps.Last, c.kids, c.up}})
					}
				case Eoi:
				default:
					if m.Match(toks[i], Term{ps.A.K, ps.A.N}) {
						tk := toks[i]
						next = append(next, &config{c.name, ps.Follow, ps.Last, &kids{&Tree{Tok: &tk}, c.kids}, c.up})
					}
				}
			}
			if c.last && c.up != nil {
				expand(pop(c))
			}
		}
		for _, c := range cur {
			expand(c)
		}
		if len(next) == 0 {
			return nil, i, len(finish(cur)) > 0
		}
		cur = next
		*alive = max(*alive, len(next))
	}
	trees = finish(cur)
	if len(trees) == 0 {
		return nil, len(toks), false
	}
	return trees, -1, true
}

// Unroll makes a copy of an atom.
func cloneSeq(s Seq) Seq {
	if s == nil {
		return nil
	}
	r := make(Seq, len(s))
	for i := range s {
		r[i] = make(Item, len(s[i]))
		for j := range s[i] {
			r[i][j] = s[i][j]
			r[i][j].S = cloneSeq(s[i][j].S)
		}
	}
	return r
}

// Alive returns the largest number of derivation branches alive after some token.
func (m *Model) Alive(toks []Token) int {
	alive := 0
	m.run(toks, &alive)
	return alive
}

// Expected returns the terminals that may follow the tokens (a start of some sentence), and tells whether
// the tokens are a complete sentence; end-of-input items expected are reported as Term{Eoi, ""}.
func (m *Model) Expected(toks []Token) (terms map[Term]bool, complete bool) {
	root := m.Spec.Nodes[0].Name
	au := m.Autos[root]
	cur := []*config{{name: root, follow: au.First, last: au.Nullable}}
	terms = map[Term]bool{}
	for i := 0; ; i++ {
		var next []*config
		var expand func(c *config)
		expand = func(c *config) {
			au := m.Autos[c.name]
			for _, q := range c.follow {
				ps := &au.Pos[q]
				switch ps.A.K {
				case Nod:
					hit := i == len(toks)
					for x := range m.First[ps.A.N] {
						hit = hit || m.Match(toks[i], x)
					}
					if hit {
						ca := m.Autos[ps.A.N]
						expand(&config{ps.A.N, ca.First, ca.Nullable, nil, &config{c.name, ps.Follow, ps.Last, nil, c.up}})
					}
				case Eoi:
					if i == len(toks) {
						terms[Term{Eoi, ""}] = true
					}
				default:
					x := Term{ps.A.K, ps.A.N}
					if i == len(toks) {
						terms[x] = true
					} else if m.Match(toks[i], x) {
						next = append(next, &config{c.name, ps.Follow, ps.Last, nil, c.up})
					}
				}
			}
			if c.last {
				if c.up == nil {
					complete = complete || i == len(toks)
				} else {
					expand(&config{c.up.name, c.up.follow, c.up.last, nil, c.up.up})
				}
			}
		}
		for _, c := range cur {
			expand(c)
		}
		if i == len(toks) {
			return
		}
		cur = next
	}
}
