package gram

import (
	"strings"
)

// Pos is a position (symbol occurrence) of a node body.
type Pos struct {
	A      *Atom
	Follow []int
	Last   bool // the body may end after this position
}

// Auto is the position automaton of a node body.
type Auto struct {
	Pos      []Pos
	First    []int
	Nullable bool
}

func merge(a []int, b ...int) []int {
	for _, x := range b {
		has := false
		for _, y := range a {
			if x == y {
				has = true
				break
			}
		}
		if !has {
			a = append(a, x)
		}
	}
	return a
}

type frag struct {
	null        bool
	first, last []int
}

func (au *Auto) atom(a *Atom) frag {
	switch a.K {
	case Grp:
		return au.seq(a.S)
	case Opt:
		f := au.seq(a.S)
		f.null = true
		return f
	case Rep:
		f := au.seq(a.S)
		for _, l := range f.last {
			au.Pos[l].Follow = merge(au.Pos[l].Follow, f.first...)
		}
		f.null = true
		return f
	}
	au.Pos = append(au.Pos, Pos{A: a})
	i := len(au.Pos) - 1
	return frag{false, []int{i}, []int{i}}
}

func (au *Auto) item(it Item) frag {
	r := frag{}
	for k := range it {
		f := au.atom(&it[k])
		r.null = r.null || f.null
		r.first = merge(r.first, f.first...)
		r.last = merge(r.last, f.last...)
	}
	return r
}

func (au *Auto) seq(s Seq) frag {
	r := frag{null: true}
	for k := range s {
		f := au.item(s[k])
		for _, l := range r.last {
			au.Pos[l].Follow = merge(au.Pos[l].Follow, f.first...)
		}
		if r.null {
			r.first = merge(r.first, f.first...)
		}
		if f.null {
			r.last = merge(append([]int(nil), r.last...), f.last...)
		} else {
			r.last = f.last
		}
		r.null = r.null && f.null
	}
	return r
}

// Build makes the automaton of a body.
func Build(s Seq) *Auto {
	au := &Auto{}
	f := au.seq(s)
	au.First = f.first
	au.Nullable = f.null
	for _, l := range f.last {
		au.Pos[l].Last = true
	}
	return au
}

// Model is an analysed spec.
type Model struct {
	Spec    *Spec
	Autos   map[string]*Auto
	First   map[string]map[Term]bool // per node
	Null    map[string]bool
	Follow  map[string]map[Term]bool
	TokIdx  map[string]*TokDef
	Resv    map[string]bool
	minToks map[string]int
}

// Term is a terminal: kind (Lit, Tok, Eoi) and name.
type Term struct{ K, N string }

// Analyse builds the model.
func Analyse(s *Spec) *Model {
	m := &Model{Spec: s, Autos: map[string]*Auto{}, First: map[string]map[Term]bool{}, Null: map[string]bool{},
		Follow: map[string]map[Term]bool{}, TokIdx: map[string]*TokDef{}, Resv: map[string]bool{}}
	for i := range s.Toks {
		m.TokIdx[s.Toks[i].Name] = &s.Toks[i]
	}
	for _, r := range s.Reserved {
		m.Resv[r] = true
	}
	for i := range s.Nodes {
		m.Autos[s.Nodes[i].Name] = Build(s.Nodes[i].Body)
		m.First[s.Nodes[i].Name] = map[Term]bool{}
		m.Follow[s.Nodes[i].Name] = map[Term]bool{}
	}
	for ch := true; ch; {
		ch = false
		for _, n := range s.Nodes {
			au := m.Autos[n.Name]
			null := au.Nullable
			f := m.First[n.Name]
			// a nullable child lets its successors in
			var visit func(p int, seen map[int]bool)
			visit = func(p int, seen map[int]bool) {
				if seen[p] {
					return
				}
				seen[p] = true
				for t := range m.PosFirst(au, p) {
					if !f[t] {
						f[t] = true
						ch = true
					}
				}
				if au.Pos[p].A.K == Nod && m.Null[au.Pos[p].A.N] {
					if au.Pos[p].Last {
						null = true
					}
					for _, q := range au.Pos[p].Follow {
						visit(q, seen)
					}
				}
			}
			seen := map[int]bool{}
			for _, p := range au.First {
				visit(p, seen)
			}
			if null != m.Null[n.Name] {
				m.Null[n.Name] = null
				ch = true
			}
		}
	}
	if len(s.Nodes) > 0 {
		m.Follow[s.Nodes[0].Name][Term{Eoi, ""}] = true
	}
	for ch := true; ch; {
		ch = false
		for _, n := range s.Nodes {
			au := m.Autos[n.Name]
			for p := range au.Pos {
				a := au.Pos[p].A
				if a.K != Nod {
					continue
				}
				dst := m.Follow[a.N]
				if dst == nil {
					continue
				}
				add := func(ts map[Term]bool) {
					for t := range ts {
						if !dst[t] {
							dst[t] = true
							ch = true
						}
					}
				}
				for _, q := range au.Pos[p].Follow {
					add(m.PosFirst(au, q))
				}
				if au.Pos[p].Last {
					add(m.Follow[n.Name])
				}
			}
		}
	}
	return m
}

// PosFirst returns terminals that can start at a position.
func (m *Model) PosFirst(au *Auto, p int) map[Term]bool {
	a := au.Pos[p].A
	if a.K == Nod {
		return m.First[a.N]
	}
	n := a.N
	if a.K == Eoi {
		n = ""
	}
	return map[Term]bool{{a.K, n}: true}
}

// Overlap tells whether some token may match both terminals.
func (m *Model) Overlap(a, b Term) bool {
	if a.K == Eoi || b.K == Eoi {
		return a.K == b.K
	}
	if a.K == b.K {
		return a.N == b.N
	}
	return true // literal and type: conservatively overlapping, see OverlapTL
}

// SetsOverlap tells whether two terminal sets overlap; lt decides literal/type pairs.
func (m *Model) SetsOverlap(a, b map[Term]bool, lt func(lit, typ string) bool) bool {
	for x := range a {
		for y := range b {
			if x == y {
				return true
			}
			if x.K == Lit && y.K == Tok && lt(x.N, y.N) || x.K == Tok && y.K == Lit && lt(y.N, x.N) {
				return true
			}
		}
	}
	return false
}

// EntryLoops tells whether the entry point of an atom is re-entered by a loop inside it.
func EntryLoops(a *Atom) bool {
	switch a.K {
	case Rep:
		return true
	case Opt, Grp:
		return itemLoops(a.S[0])
	}
	return false
}

func itemLoops(it Item) bool {
	for i := range it {
		if EntryLoops(&it[i]) {
			return true
		}
	}
	return false
}

func pureLoop(a *Atom) bool {
	switch a.K {
	case Rep:
		return true
	case Opt, Grp:
		return len(a.S) == 1 && len(a.S[0]) == 1 && pureLoop(&a.S[0][0])
	}
	return false
}

// SharedLoop finds the construct of known finding KF-LOOP: a repetition at the start of a construct
// whose entry point has other exits (alternatives, an optional or a repeated group around it).
func SharedLoop(s Seq) bool {
	bad := false
	var visit func(s Seq)
	visit = func(s Seq) {
		for i := range s {
			it := s[i]
			if len(it) > 1 && itemLoops(it) {
				bad = true
			}
			for k := range it {
				a := &it[k]
				if a.S == nil {
					continue
				}
				if a.K == Opt || a.K == Rep && len(a.S) == 1 {
					if itemLoops(a.S[0]) && !(len(a.S) == 1 && len(a.S[0]) == 1 && pureLoop(&a.S[0][0])) {
						bad = true
					}
				}
				visit(a.S)
			}
		}
	}
	visit(s)
	return bad
}

// Token is an input token.
type Token struct {
	Type string
	Text string
}

func (m *Model) litKey(t Token) (string, bool) {
	d := m.TokIdx[t.Type]
	if d == nil || d.NoLit {
		return "", false
	}
	if d.Caseless {
		return strings.ToUpper(t.Text), true
	}
	return t.Text, true
}

// Match tells whether a token may stand for a terminal.
func (m *Model) Match(t Token, x Term) bool {
	key, lit := m.litKey(t)
	switch x.K {
	case Lit:
		return lit && key == x.N
	case Tok:
		return t.Type == x.N && !(lit && m.Resv[key])
	}
	return false
}

// Tree is a model of a parse tree.
type Tree struct {
	Node string  `json:",omitempty"`
	Tok  *Token  `json:",omitempty"`
	Kids []*Tree `json:",omitempty"`
}

func (t *Tree) String() string {
	if t == nil {
		return "<nil>"
	}
	if t.Tok != nil {
		return t.Tok.Text + ":" + t.Tok.Type
	}
	p := make([]string, 0, len(t.Kids)+1)
	p = append(p, t.Node)
	for _, k := range t.Kids {
		p = append(p, k.String())
	}
	return "(" + strings.Join(p, " ") + ")"
}

// Leaves returns the leaf tokens.
func (t *Tree) Leaves() []Token {
	if t.Tok != nil {
		return []Token{*t.Tok}
	}
	var r []Token
	for _, k := range t.Kids {
		r = append(r, k.Leaves()...)
	}
	return r
}

// Derives checks that the tree is a derivation from its root node; returns an explanation if it is not.
func (m *Model) Derives(t *Tree) string {
	au := m.Autos[t.Node]
	if au == nil {
		return "unknown node " + t.Node
	}
	cur := append([]int(nil), au.First...)
	end := au.Nullable
	for i, k := range t.Kids {
		var next []int
		nend := false
		for _, p := range cur {
			a := au.Pos[p].A
			ok := false
			if k.Tok != nil {
				if k.Tok.Type == EoiType {
					ok = a.K == Eoi
				} else {
					ok = (a.K == Lit || a.K == Tok) && m.Match(*k.Tok, Term{a.K, a.N})
				}
			} else {
				ok = a.K == Nod && a.N == k.Node
			}
			if ok {
				next = merge(next, au.Pos[p].Follow...)
				nend = nend || au.Pos[p].Last
			}
		}
		if len(next) == 0 && !nend {
			return "node " + t.Node + ": child #" + itoa(i) + " " + k.String() + " fits no derivation in " + t.String()
		}
		cur, end = next, nend
	}
	if !end {
		return "node " + t.Node + " is incomplete: " + t.String()
	}
	for _, k := range t.Kids {
		if k.Tok == nil {
			if e := m.Derives(k); e != "" {
				return e
			}
		}
	}
	return ""
}

// EoiType is the type name of end-of-input tokens.
const EoiType = "-eoi-"

func itoa(i int) string {
	if i < 0 {
		return "-" + itoa(-i)
	}
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

// PredResult is an outcome of the predictive reference parser.
type PredResult struct {
	Tree  *Tree
	OK    bool
	ErrAt int // index of the offending token (len(tokens) for the end of input)
	Used  int // tokens used if OK
}

// Predict parses tokens with the position automata, assuming that the spec is LL(1).
// If full is set then all the tokens must be used.
func (m *Model) Predict(toks []Token, full bool) PredResult {
	i := 0
	errAt := -1
	steps := 0
	matches := func(ts map[Term]bool) bool {
		for x := range ts {
			if i >= len(toks) {
				if x.K == Eoi {
					return true
				}
			} else if m.Match(toks[i], x) {
				return true
			}
		}
		return false
	}
	var node func(name string) *Tree
	node = func(name string) *Tree {
		au := m.Autos[name]
		t := &Tree{Node: name}
		follow := au.First
		last := au.Nullable
		for {
			steps++
			found := -1
			for _, q := range follow {
				if matches(m.PosFirst(au, q)) {
					found = q
					break
				}
			}
			if found < 0 {
				if last {
					return t
				}
				errAt = i
				return nil
			}
			a := au.Pos[found].A
			switch a.K {
			case Nod:
				k := node(a.N)
				if k == nil {
					return nil
				}
				t.Kids = append(t.Kids, k)
			case Eoi:
				t.Kids = append(t.Kids, &Tree{Tok: &Token{EoiType, ""}})
				return t
			default:
				tk := toks[i]
				t.Kids = append(t.Kids, &Tree{Tok: &tk})
				i++
			}
			follow = au.Pos[found].Follow
			last = au.Pos[found].Last
		}
	}
	t := node(m.Spec.Nodes[0].Name)
	if t == nil {
		return PredResult{ErrAt: errAt}
	}
	if full && i < len(toks) {
		return PredResult{ErrAt: i, Tree: t, Used: i}
	}
	return PredResult{Tree: t, OK: true, Used: i, ErrAt: -1}
}
