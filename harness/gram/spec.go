// Package gram is an independent model of grammar descriptions: an AST with a printer, a position
// automaton (Glushkov) semantics, LL(1) analysis, a predictive reference parser, a derivation checker,
// and rapid generators.
package gram

import (
	"fmt"
	"sort"
	"strings"
)

// Atom kinds.
const (
	Lit = "lit"
	Tok = "tok"
	Nod = "node"
	Eoi = "eoi"
	Grp = "grp"
	Opt = "opt"
	Rep = "rep"
)

// Atom is a variant of an item.
type Atom struct {
	K string
	N string `json:",omitempty"`
	S Seq    `json:",omitempty"`
	C bool   `json:",omitempty"` // a conflict with other marked atoms is intended
}

// Item is a list of variants.
type Item []Atom

// Seq is a list of items.
type Seq []Item

// TokDef is a token type.
type TokDef struct {
	Name     string
	Re       string
	Side     bool `json:",omitempty"`
	Caseless bool `json:",omitempty"`
	Err      bool `json:",omitempty"`
	Ext      bool `json:",omitempty"`
	NoLit    bool `json:",omitempty"`
	Group    int  `json:",omitempty"`
}

// NodeDef is a node definition.
type NodeDef struct {
	Name string
	Body Seq
}

// Spec is a grammar description.
type Spec struct {
	Toks     []TokDef
	Reserved []string `json:",omitempty"`
	Nodes    []NodeDef
	Tail     string `json:",omitempty"` // raw text appended (layer definitions)
}

// Quote writes a literal.
func Quote(s string) string {
	if !strings.ContainsAny(s, "'\n\r") {
		return "'" + s + "'"
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch r {
		case '"', '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case '\n':
			b.WriteString(`\n`)
		case '\r':
			b.WriteString(`\r`)
		case '\t':
			b.WriteString(`\t`)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (a Atom) String() string {
	switch a.K {
	case Lit:
		return Quote(a.N)
	case Tok:
		return "$" + a.N
	case Nod:
		return a.N
	case Eoi:
		return "$"
	case Grp:
		return "(" + a.S.String() + ")"
	case Opt:
		return "[" + a.S.String() + "]"
	case Rep:
		return "{" + a.S.String() + "}"
	}
	panic("bad atom " + a.K)
}

func (i Item) String() string {
	p := make([]string, len(i))
	for k, a := range i {
		p[k] = a.String()
	}
	return strings.Join(p, " | ")
}

func (s Seq) String() string {
	p := make([]string, len(s))
	for k, i := range s {
		p[k] = i.String()
	}
	return strings.Join(p, ", ")
}

// Header writes token definitions and directives.
func (s *Spec) Header() string {
	var b strings.Builder
	dir := func(name string, pred func(TokDef) bool) {
		var l []string
		for _, t := range s.Toks {
			if pred(t) {
				l = append(l, "$"+t.Name)
			}
		}
		if len(l) > 0 {
			fmt.Fprintf(&b, "!%s %s;\n", name, strings.Join(l, " "))
		}
	}
	dir("side", func(t TokDef) bool { return t.Side })
	dir("caseless", func(t TokDef) bool { return t.Caseless })
	dir("error", func(t TokDef) bool { return t.Err })
	dir("extern", func(t TokDef) bool { return t.Ext })
	maxg := 0
	nolit := false
	for _, t := range s.Toks {
		if t.Group > maxg {
			maxg = t.Group
		}
		nolit = nolit || t.NoLit
	}
	for g := 1; g <= maxg; g++ {
		dir("group", func(t TokDef) bool { return t.Group == g })
	}
	if nolit {
		dir("literal", func(t TokDef) bool { return !t.NoLit })
	}
	if len(s.Reserved) > 0 {
		b.WriteString("!reserved")
		for _, r := range s.Reserved {
			b.WriteString(" " + Quote(r))
		}
		b.WriteString(";\n")
	}
	for _, t := range s.Toks {
		if !t.Ext {
			fmt.Fprintf(&b, "$%s = /%s/;\n", t.Name, t.Re)
		}
	}
	return b.String()
}

// Text writes the description.
func (s *Spec) Text() string {
	var b strings.Builder
	b.WriteString(s.Header())
	for _, n := range s.Nodes {
		fmt.Fprintf(&b, "%s = %s;\n", n.Name, n.Body)
	}
	b.WriteString(s.Tail)
	return b.String()
}

// Walk visits all atoms.
func (s Seq) Walk(f func(*Atom)) {
	for i := range s {
		for j := range s[i] {
			f(&s[i][j])
			s[i][j].S.Walk(f)
		}
	}
}

// Literals returns the sorted set of literals used in nodes and reserved ones.
func (s *Spec) Literals() []string {
	m := map[string]bool{}
	for _, r := range s.Reserved {
		m[r] = true
	}
	for _, n := range s.Nodes {
		n.Body.Walk(func(a *Atom) {
			if a.K == Lit {
				m[a.N] = true
			}
		})
	}
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Size is the number of atoms.
func (s *Spec) Size() int {
	n := 0
	for _, d := range s.Nodes {
		d.Body.Walk(func(*Atom) { n++ })
	}
	return n
}
