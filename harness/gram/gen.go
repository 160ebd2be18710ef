package gram

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

func n(t *rapid.T, lo, hi int, l string) int { return rapid.IntRange(lo, hi).Draw(t, l) }

// Chance draws true with probability pct%.
func Chance(t *rapid.T, pct int, l string) bool {
	// small values are what rapid shrinks to: let them mean false
	return rapid.IntRange(0, 99).Draw(t, l) >= 100-pct
}

// Kit is a set of token types together with ways to write them.
type Kit struct {
	Toks    []TokDef
	Plain   []string            // non-side types usable in nodes
	Texts   map[string][]string // sample texts per type
	Lits    []string            // literals
	LitType map[string]string   // literal -> type
	Seps    []string            // separators between tokens (empty: none needed)
	fresh   int
	freshOf func(i int) string
	freshTy string
}

// Fresh returns a new literal.
func (k *Kit) Fresh() string {
	s := k.freshOf(k.fresh)
	k.fresh++
	k.LitType[s] = k.freshTy
	return s
}

func word(i int) string {
	s := ""
	for {
		s = string(rune('a'+i%26)) + s
		i = i/26 - 1
		if i < 0 {
			return s
		}
	}
}

// GenKit draws a token kit.
func GenKit(t *rapid.T) *Kit {
	k := &Kit{Texts: map[string][]string{}, LitType: map[string]string{}}
	add := func(d TokDef, texts ...string) {
		k.Toks = append(k.Toks, d)
		if !d.Side && !d.Err {
			k.Plain = append(k.Plain, d.Name)
			k.Texts[d.Name] = texts
		}
	}
	lits := func(typ string, l ...string) {
		for _, x := range l {
			k.Lits = append(k.Lits, x)
			k.LitType[x] = typ
		}
	}
	switch n(t, 0, 3, "kit") {
	case 0: // words, numbers, operators, spaces
		add(TokDef{Name: "space", Re: `[ \n\t]+`, Side: true})
		add(TokDef{Name: "name", Re: `[a-z_]+`}, "x", "y", "foo", "q_q")
		add(TokDef{Name: "num", Re: `[0-9]+`}, "1", "42", "007")
		add(TokDef{Name: "op", Re: `[-+*=;:,.()<>!]`}, "<", ">", "!")
		lits("name", "a", "b", "c", "do", "end")
		lits("op", "+", "-", "(", ")", ";")
		k.Seps = []string{" ", "\n", "\n\n ", "\t"}
		k.freshTy = "name"
		k.freshOf = func(i int) string { return "k_" + word(i) }
	case 1: // caseless words, strings, comments, several groups
		g := n(t, 0, 2, "groups")
		add(TokDef{Name: "str", Re: `"[^"\n]*"`, Group: b2i(g == 1)}, `""`, `"a b"`, `"#"`, `"ы"`)
		add(TokDef{Name: "key", Re: `[A-Za-z]+`, Caseless: true}, "x", "Foo", "BAR")
		add(TokDef{Name: "op", Re: `==|=|<=|<|[;,|&()]`, Group: b2i(g == 2)}, "<", "<=", "&")
		add(TokDef{Name: "space", Re: `\s+`, Side: true})
		add(TokDef{Name: "comment", Re: `#[^\n]*`, Side: true})
		lits("key", "A", "IF", "ELSE", "OR")
		lits("op", "=", "==", "(", ")", ",")
		k.Seps = []string{" ", "\n", " #c\n", "\n#\n"}
		k.freshTy = "key"
		k.freshOf = func(i int) string { return "K" + strings.ToUpper(word(i)) }
	case 2: // one-rune tokens without separators
		add(TokDef{Name: "l", Re: `[a-z]`}, "x", "y", "z")
		add(TokDef{Name: "d", Re: `[0-9]`}, "1", "2")
		add(TokDef{Name: "han", Re: `[\x{4e00}-\x{9fff}]`}, "中", "文")
		lits("l", "a", "b", "c")
		lits("d", "0", "9")
		k.freshTy = "han"
		k.freshOf = func(i int) string { return string(rune(0x5000 + i)) }
	default: // first-match order matters: keywords-like type before names, no-literals type
		nolit := Chance(t, 50, "nolit")
		add(TokDef{Name: "hex", Re: `0x[0-9a-f]+`}, "0x1", "0xff")
		add(TokDef{Name: "num", Re: `[0-9]+(?:\.[0-9]+)?`}, "0", "1.5", "10")
		add(TokDef{Name: "nl", Re: `\n`}, "\n")
		add(TokDef{Name: "space", Re: `[ \t]+`, Side: true})
		add(TokDef{Name: "name", Re: `[a-zA-Z][a-zA-Z0-9-]*`}, "x", "Foo", "a-b")
		add(TokDef{Name: "op", Re: `[+*\/=(){}\[\]]`}, "*", "=")
		add(TokDef{Name: "raw", Re: `'[^']*'`, NoLit: nolit}, "'a'", "''")
		lits("name", "a", "B", "end", "fi")
		lits("op", "{", "}", "(", ")")
		lits("nl", "\n")
		k.Seps = []string{" ", "  ", "\t"}
		k.freshTy = "name"
		k.freshOf = func(i int) string { return "kw-" + word(i) }
	}
	if Chance(t, 8, "manyTypes") {
		k.pad(t)
	}
	return k
}

// pad adds lots of types that occur in no source, so that numbers of the others become high.
func (k *Kit) pad(t *rapid.T) {
	group := 0
	for _, d := range k.Toks {
		group = max(group, d.Group)
	}
	own := Chance(t, 50, "padGroups")
	var pads []TokDef
	for i := n(t, 10, 45, "pads") - len(k.Toks); i > 0; i-- {
		d := TokDef{Name: fmt.Sprintf("pad%d", i), Re: fmt.Sprintf(`\x{%x}+`, 0xe000+i)}
		if own {
			if n(t, 0, 3, "padGroup") == 0 {
				group++
			}
			d.Group = group
		}
		pads = append(pads, d)
	}
	at := n(t, 0, len(k.Toks), "padAt")
	if Chance(t, 60, "padFirst") {
		at = 0
	}
	k.Toks = append(append(append([]TokDef(nil), k.Toks[:at]...), pads...), k.Toks[at:]...)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Options for GenSpec.
type Options struct {
	MaxNodes int
	Depth    int
	LL1      bool
	Eoi      bool
	Reserved bool
	Raw      bool // nothing is repaired
}

// Large shapes of descriptions.
const (
	manyNodes    = 1
	wideSeq      = 2
	manyVariants = 4
	deepNesting  = 6
)

// GenSpec draws a description. The result has no left recursion, all nodes are used, every node has
// finite derivations, and there are no constructs of the listed known findings; Repairs counts how many
// constructs were guarded to get there.
func GenSpec(t *rapid.T, k *Kit, o Options) (*Spec, int) {
	s := &Spec{Toks: k.Toks}
	nodes := n(t, 1, o.MaxNodes, "nodes")
	names := []string{"g", "b-c", "node", "d_1", "op", "string", "x", "name"}
	// one of rare large shapes
	shape := n(t, 0, 199, "shape")
	if shape == manyNodes {
		nodes = n(t, 9, 40, "manyNodes")
		o.Depth = 1
		for i := len(names); i < nodes; i++ {
			names = append(names, fmt.Sprintf("n%d", i))
		}
	}
	names = names[:nodes]
	used := make([]bool, nodes)
	repairs := 0

	var seq func(i, depth int) Seq
	atom := func(i, depth int) Atom {
		c := n(t, 0, 99, "atom")
		switch {
		case c < 38 || depth <= 0 && c < 60:
			return Atom{K: Lit, N: rapid.SampledFrom(k.Lits).Draw(t, "lit")}
		case c < 55:
			return Atom{K: Tok, N: rapid.SampledFrom(k.Plain).Draw(t, "tok")}
		case c < 70 || depth <= 0:
			j := n(t, 0, nodes-1, "ref")
			if j > i {
				used[j] = true
				return Atom{K: Nod, N: names[j]}
			}
			kind := rapid.SampledFrom([]string{Opt, Rep}).Draw(t, "back")
			return Atom{K: kind, S: Seq{Item{{K: Lit, N: k.Fresh()}}, Item{{K: Nod, N: names[j]}}}}
		default:
			kind := rapid.SampledFrom([]string{Opt, Rep, Grp, Rep}).Draw(t, "kind")
			return Atom{K: kind, S: seq(i, depth-1)}
		}
	}
	seq = func(i, depth int) Seq {
		l := n(t, 1, 3, "items")
		r := make(Seq, l)
		for x := range r {
			v := 1
			if Chance(t, 35, "multi") {
				v = n(t, 2, 3, "variants")
			}
			for y := 0; y < v; y++ {
				r[x] = append(r[x], atom(i, depth))
			}
		}
		return r
	}
	for i := range names {
		s.Nodes = append(s.Nodes, NodeDef{names[i], seq(i, o.Depth)})
	}
	large := n(t, 0, nodes-1, "large")
	small := func() Atom {
		if Chance(t, 75, "fresh") {
			return Atom{K: Lit, N: k.Fresh()}
		}
		return atom(large, 0)
	}
	switch b := &s.Nodes[large].Body; shape {
	case wideSeq, wideSeq + 1:
		var w Seq
		for i := n(t, 10, 40, "wide"); i > 0; i-- {
			a := small()
			if kind := rapid.SampledFrom([]string{Opt, Opt, Opt, Rep, ""}).Draw(t, "wideKind"); kind != "" {
				a = Atom{K: kind, S: Seq{Item{a}}}
			}
			w = append(w, Item{a})
		}
		if kind := rapid.SampledFrom([]string{Opt, Rep, Grp, ""}).Draw(t, "wideGroup"); kind != "" {
			w = Seq{Item{{K: kind, S: w}}}
		}
		*b = append(w, *b...)
	case manyVariants, manyVariants + 1:
		var it Item
		for i := n(t, 10, 40, "variants"); i > 0; i-- {
			a := small()
			if Chance(t, 30, "longVariant") {
				a = Atom{K: Grp, S: Seq{Item{a}, Item{small()}}}
			}
			it = append(it, a)
		}
		*b = append(Seq{it}, *b...)
	case deepNesting, deepNesting + 1:
		w := Seq{Item{small()}}
		for i := n(t, 6, 20, "deep"); i > 0; i-- {
			w = Seq{Item{{K: rapid.SampledFrom([]string{Opt, Rep, Grp}).Draw(t, "deepKind"), S: w}}}
			if Chance(t, 50, "deepBefore") {
				w = append(Seq{Item{small()}}, w...)
			}
			if Chance(t, 30, "deepAfter") {
				w = append(w, Item{small()})
			}
			if Chance(t, 20, "deepOr") {
				w[0] = append(w[0], small())
			}
		}
		*b = append(w, *b...)
	}
	for j := 1; j < nodes; j++ {
		if !used[j] {
			i := n(t, 0, j-1, "parent")
			b := &s.Nodes[i].Body
			at := n(t, 0, len(*b), "at")
			nb := append(Seq(nil), (*b)[:at]...)
			nb = append(nb, Item{{K: Nod, N: names[j]}})
			*b = append(nb, (*b)[at:]...)
		}
	}
	if o.Eoi && Chance(t, 25, "eoi") {
		b := &s.Nodes[0].Body
		it := Item{{K: Lit, N: k.Fresh()}, {K: Eoi}}
		if Chance(t, 50, "eoiSwap") {
			it[0], it[1] = it[1], it[0]
		}
		switch n(t, 0, 2, "eoiKind") {
		case 0:
			*b = append(*b, it)
		case 1:
			*b = Seq{Item{{K: Rep, S: append(*b, it)}}}
		default:
			*b = append(*b, Item{{K: Eoi}})
		}
	}

	// known finding KF-LOOP: guard repetitions that share their entry point
	for i := range s.Nodes {
		for !o.Raw && SharedLoop(s.Nodes[i].Body) {
			repairs++
			guardLoops(s.Nodes[i].Body, k)
		}
	}
	if o.LL1 {
		repairs += repairLL1(s, k)
	}
	if o.Reserved {
		seen := map[string]bool{}
		for _, l := range s.Literals() {
			if !seen[l] && Chance(t, 15, "reserved") {
				seen[l] = true
				s.Reserved = append(s.Reserved, l)
			}
		}
	}
	return s, repairs
}

func guardLoops(s Seq, k *Kit) {
	for i := range s {
		it := s[i]
		if len(it) > 1 {
			for v := range it {
				if EntryLoops(&it[v]) {
					old := it[v]
					it[v] = Atom{K: Grp, S: Seq{Item{{K: Lit, N: k.Fresh()}}, Item{old}}}
				}
			}
		}
		for v := range it {
			a := &it[v]
			if a.S == nil {
				continue
			}
			if a.K == Opt || a.K == Rep && len(a.S) == 1 {
				if itemLoops(a.S[0]) && !(len(a.S) == 1 && len(a.S[0]) == 1 && pureLoop(&a.S[0][0])) {
					a.S = append(Seq{Item{{K: Lit, N: k.Fresh()}}}, a.S...)
				}
			}
			guardLoops(a.S, k)
		}
	}
}

func guard(a *Atom, k *Kit) {
	old := *a
	*a = Atom{K: Grp, S: Seq{Item{{K: Lit, N: k.Fresh()}}, Item{old}}}
}

// LitTyper tells whether a literal may be lexed as given type and matched as that type.
func (k *Kit) LitTyper(s *Spec) func(lit, typ string) bool {
	resv := map[string]bool{}
	for _, r := range s.Reserved {
		resv[r] = true
	}
	return func(lit, typ string) bool { return k.LitType[lit] == typ && !resv[lit] }
}

func repairLL1(s *Spec, k *Kit) int {
	repairs := 0
	for {
		m := Analyse(s)
		changed := false
		referenced := map[string]bool{}
		for i := range s.Nodes {
			s.Nodes[i].Body.Walk(func(a *Atom) {
				if a.K == Nod {
					referenced[a.N] = true
				}
			})
		}
		for i := range s.Nodes {
			if m.Null[s.Nodes[i].Name] && referenced[s.Nodes[i].Name] {
				s.Nodes[i].Body = append(Seq{Item{{K: Lit, N: k.Fresh()}}}, s.Nodes[i].Body...)
				changed = true
				repairs++
			}
		}
		if changed {
			continue
		}
		if a, end := m.Conflict(k.LitTyper(s)); end >= 0 {
			b := &s.Nodes[end].Body
			*b = append(*b, Item{{K: Lit, N: k.Fresh()}})
			repairs++
			continue
		} else if a != nil {
			guard(a, k)
			repairs++
			continue
		}
		return repairs
	}
}

// Conflict returns an atom involved in an LL(1) conflict, or nil, and the index of a node
// that has a conflict with what follows it, or -1.
func (m *Model) Conflict(lt func(l, t string) bool) (*Atom, int) {
	for ni, nd := range m.Spec.Nodes {
		au := m.Autos[nd.Name]
		check := func(set []int, last bool) (*Atom, int) {
			for x := range set {
				fx := m.PosFirst(au, set[x])
				for y := x + 1; y < len(set); y++ {
					if au.Pos[set[x]].A.C && au.Pos[set[y]].A.C {
						continue
					}
					if m.SetsOverlap(fx, m.PosFirst(au, set[y]), lt) {
						if isGuarded(au.Pos[set[y]].A) {
							return au.Pos[set[x]].A, -1
						}
						return au.Pos[set[y]].A, -1
					}
				}
				if last && au.Pos[set[x]].A.K != Eoi && m.SetsOverlap(fx, m.Follow[nd.Name], lt) {
					return nil, ni
				}
			}
			return nil, -1
		}
		if a, e := check(au.First, au.Nullable); a != nil || e >= 0 {
			return a, e
		}
		for p := range au.Pos {
			if a, e := check(au.Pos[p].Follow, au.Pos[p].Last); a != nil || e >= 0 {
				return a, e
			}
		}
	}
	return nil, -1
}

func isGuarded(a *Atom) bool {
	return a.K == Lit && (strings.HasPrefix(a.N, "k_") || strings.HasPrefix(a.N, "K") || strings.HasPrefix(a.N, "kw-") || a.N >= "一") || a.K == Eoi
}

const inf = 1 << 20

// Costs holds minimal token counts, used to end random derivations.
type Costs struct {
	node  map[string]int
	toEnd map[string][]int // per node, per position: tokens needed after the position
	start map[string]int
}

func (m *Model) costs() *Costs {
	c := &Costs{node: map[string]int{}, toEnd: map[string][]int{}}
	for _, nd := range m.Spec.Nodes {
		c.node[nd.Name] = inf
		te := make([]int, len(m.Autos[nd.Name].Pos))
		for i := range te {
			te[i] = inf
		}
		c.toEnd[nd.Name] = te
	}
	for ch := true; ch; {
		ch = false
		for _, nd := range m.Spec.Nodes {
			au := m.Autos[nd.Name]
			te := c.toEnd[nd.Name]
			for p := range au.Pos {
				v := te[p]
				if au.Pos[p].Last {
					v = 0
				}
				for _, q := range au.Pos[p].Follow {
					v = min(v, c.pos(au, q)+te[q])
				}
				if v < te[p] {
					te[p] = v
					ch = true
				}
			}
			v := c.node[nd.Name]
			if au.Nullable {
				v = 0
			}
			for _, q := range au.First {
				v = min(v, c.pos(au, q)+te[q])
			}
			if v < c.node[nd.Name] {
				c.node[nd.Name] = v
				ch = true
			}
		}
	}
	return c
}

func (c *Costs) pos(au *Auto, p int) int {
	switch au.Pos[p].A.K {
	case Nod:
		return c.node[au.Pos[p].A.N] + 1
	}
	return 1
}

// Scale returns hi or, from time to time, a limit many times as large.
func Scale(t *rapid.T, hi, times int) int {
	if Chance(t, 2, "scale") {
		return hi * times
	}
	return hi
}

// Sampler makes random derivations.
type Sampler struct {
	m *Model
	k *Kit
	c *Costs

	Sticky bool // prefers to repeat what can be repeated
	deep   bool // prefers to go to nested nodes
	Flat   bool // long sentences are not deep: lookahead through nested choices takes exponential time
}

// NewSampler prepares a sampler.
func NewSampler(m *Model, k *Kit) *Sampler { return &Sampler{m: m, k: k, c: m.costs()} }

// Sized draws a sentence of up to budget tokens, or a long one from time to time.
func (sm *Sampler) Sized(t *rapid.T, budget int) []Token {
	if Chance(t, 1, "long") {
		budget *= n(t, 5, 40, "longer")
		sm.Sticky = true
		sm.deep = !sm.Flat && Chance(t, 40, "deep")
		defer func() { sm.Sticky, sm.deep = false, false }()
		return sm.Sentence(t, budget)
	}
	return sm.Sentence(t, n(t, 0, budget, "budget"))
}

// TermToken draws a token for a terminal.
func (sm *Sampler) TermToken(t *rapid.T, x Term) Token {
	if x.K == Lit {
		typ := sm.k.LitType[x.N]
		text := x.N
		if d := sm.m.TokIdx[typ]; d != nil && d.Caseless && Chance(t, 50, "case") {
			text = strings.ToLower(text)
		}
		return Token{typ, text}
	}
	if Chance(t, 15, "litText") {
		// a token that looks like a literal used elsewhere
		var c []string
		for _, l := range sm.k.Lits {
			if sm.k.LitType[l] == x.N && !sm.m.Resv[l] {
				c = append(c, l)
			}
		}
		if len(c) > 0 {
			return Token{x.N, rapid.SampledFrom(c).Draw(t, "text")}
		}
	}
	return Token{x.N, rapid.SampledFrom(sm.k.Texts[x.N]).Draw(t, "text")}
}

// Sentence draws a sentence of the root node: about budget tokens.
func (sm *Sampler) Sentence(t *rapid.T, budget int) []Token {
	var out []Token
	eoi := false
	steps := 0
	maxDepth := max(12, budget/4)
	if sm.Flat {
		maxDepth = 12
		if budget > 40 {
			maxDepth = 3
		}
	}
	var node func(name string, depth int)
	node = func(name string, depth int) {
		au := sm.m.Autos[name]
		te := sm.c.toEnd[name]
		set, last := au.First, au.Nullable
		at := -1
		for !eoi {
			if steps++; steps > 100000 {
				panic("endless derivation in the generator: " + sm.m.Spec.Text())
			}
			lim := len(out) >= budget || depth > maxDepth || steps > 5*budget+20
			opts := len(set)
			var back []int
			if !lim && (sm.Sticky || sm.deep) {
				for _, q := range set {
					nested := au.Pos[q].A.K == Nod
					for _, f := range au.Pos[q].Follow {
						nested = nested || au.Pos[f].A.K == Nod
					}
					if sm.deep && nested || !sm.deep && q <= at {
						back = append(back, q)
					}
				}
				if len(back) > 0 && !Chance(t, 85, "again") {
					back = nil
				}
			}
			if len(back) == 0 && (opts == 0 || last && (lim || n(t, 0, opts+1, "stop") == 0)) {
				return
			}
			p := -1
			if len(back) > 0 {
				p = rapid.SampledFrom(back).Draw(t, "backTo")
			} else if lim {
				best := inf * 4
				for _, q := range set {
					if v := sm.c.pos(au, q) + te[q]; v < best {
						best, p = v, q
					}
				}
			} else {
				p = set[n(t, 0, opts-1, "pos")]
			}
			a := au.Pos[p].A
			switch a.K {
			case Nod:
				node(a.N, depth+1)
			case Eoi:
				eoi = true
				return
			default:
				out = append(out, sm.TermToken(t, Term{a.K, a.N}))
			}
			at = p
			set, last = au.Pos[p].Follow, au.Pos[p].Last
		}
	}
	node(sm.m.Spec.Nodes[0].Name, 0)
	return out
}

// AnyToken draws an arbitrary token of the kit.
func (sm *Sampler) AnyToken(t *rapid.T) Token {
	if Chance(t, 60, "anyLit") {
		l := sm.m.Spec.Literals()
		if len(l) > 0 {
			x := rapid.SampledFrom(l).Draw(t, "lit")
			return sm.TermToken(t, Term{Lit, x})
		}
	}
	return sm.TermToken(t, Term{Tok, rapid.SampledFrom(sm.k.Plain).Draw(t, "tok")})
}

// Mutate changes tokens at random places.
func (sm *Sampler) Mutate(t *rapid.T, toks []Token) []Token {
	toks = append([]Token(nil), toks...)
	for c := n(t, 1, 2, "mutations"); c > 0; c-- {
		l := len(toks)
		switch n(t, 0, 4, "op") {
		case 0:
			if l > 0 {
				i := n(t, 0, l-1, "at")
				toks = append(toks[:i], toks[i+1:]...)
			}
		case 1:
			i := n(t, 0, l, "at")
			toks = append(toks[:i], append([]Token{sm.AnyToken(t)}, toks[i:]...)...)
		case 2:
			if l > 0 {
				toks[n(t, 0, l-1, "at")] = sm.AnyToken(t)
			}
		case 3:
			if l > 0 {
				toks = toks[:n(t, 0, l-1, "at")]
			}
		default:
			if l > 1 {
				i := n(t, 0, l-2, "at")
				toks[i], toks[i+1] = toks[i+1], toks[i]
			}
		}
	}
	return toks
}

// Render writes tokens as a source; returns the text and offsets of tokens.
func (k *Kit) Render(t *rapid.T, toks []Token) (string, []int) {
	var b strings.Builder
	offs := make([]int, 0, len(toks))
	many := Chance(t, 2, "manySeparators")
	if len(k.Seps) > 0 && Chance(t, 20, "lead") {
		b.WriteString(rapid.SampledFrom(k.Seps).Draw(t, "sep"))
	}
	for i, x := range toks {
		if i > 0 && len(k.Seps) > 0 {
			if many && n(t, 0, len(toks), "manyHere") == 0 {
				for c := n(t, 10, 150, "separators"); c > 0; c-- {
					b.WriteString(rapid.SampledFrom(k.Seps).Draw(t, "sep"))
				}
			}
			b.WriteString(rapid.SampledFrom(k.Seps).Draw(t, "sep"))
		}
		offs = append(offs, b.Len())
		b.WriteString(x.Text)
	}
	if len(k.Seps) > 0 && Chance(t, 20, "trail") {
		b.WriteString(rapid.SampledFrom(k.Seps).Draw(t, "sep"))
	}
	return b.String(), offs
}

// TokensString shows tokens.
func TokensString(toks []Token) string {
	var p []string
	for _, x := range toks {
		p = append(p, fmt.Sprintf("%s:%s", x.Text, x.Type))
	}
	return strings.Join(p, " ")
}
