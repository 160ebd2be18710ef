package props

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"unicode"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

// LexCase is a description as lexemes.
type LexCase struct {
	Lex  []gram.Lex
	Tail Str `json:",omitempty"`
	Muts []string
}

func (c LexCase) text() (string, []int) { return gram.LexText(c.Lex, c.Tail) }

func drawTail(t *rapid.T) Str {
	return Str(rapid.SampledFrom([]string{"", "\n", " ", "# end", "\n# end\n", "#\r;", "\r"}).Draw(t, "tail"))
}

// symName names a table key.
func symName(g *grammar.Grammar, k int) string {
	if k == lexer.EoiTokenType {
		return "$"
	}
	t := g.Tokens[k]
	if t.Flags&grammar.LiteralToken != 0 {
		return "L:" + t.Name
	}
	return "T:" + t.Name
}

type stateRules struct {
	keys  []int
	rules map[int][]grammar.Rule
}

// readTable checks the structure of a grammar and returns rules by state.
func readTable(g *grammar.Grammar) ([]stateRules, error) {
	nt, ns, nn := len(g.Tokens), len(g.States), len(g.Nodes)
	if nn == 0 {
		return nil, violation("no nodes")
	}
	stage := 0
	seen := map[string]bool{}
	for i, t := range g.Tokens {
		st, kind := 0, "type "
		switch {
		case t.Flags&grammar.LiteralToken != 0:
			st, kind = 2, "literal "
			if t.Re != "" {
				return nil, violation("literal %q has an expression", t.Name)
			}
		case t.Flags&grammar.ExternalToken != 0 && t.Re == "":
			st = 1
		default:
			if t.Re == "" {
				return nil, violation("type %q has no expression", t.Name)
			}
		}
		if st < stage {
			return nil, violation("token #%d %q is out of order", i, t.Name)
		}
		stage = st
		if seen[kind+t.Name] {
			return nil, violation("token %q is defined twice", t.Name)
		}
		seen[kind+t.Name] = true
		if st < 2 && i > grammar.MaxTokenType {
			return nil, violation("too many token types")
		}
		if t.Group < 0 {
			return nil, violation("token %q has group %d", t.Name, t.Group)
		}
	}
	for _, n := range g.Nodes {
		if n.FirstState < 0 || n.FirstState >= ns {
			return nil, violation("node %s starts at wrong state %d of %d", n.Name, n.FirstState, ns)
		}
	}
	valid := func(k, low int) bool {
		return k >= 0 && k < nt || k == lexer.EoiTokenType || k == grammar.AnyToken && low == 0
	}
	good := func(r grammar.Rule) bool {
		return r.State >= grammar.FinalState && r.State < ns && r.Node >= grammar.SameNode && r.Node < nn
	}
	out := make([]stateRules, ns)
	for i, s := range g.States {
		if s.LowRule < 0 || s.LowRule > s.HighRule || s.HighRule > len(g.Rules) || s.LowMultiRule < 0 || s.LowMultiRule > s.HighMultiRule || s.HighMultiRule > len(g.MultiRules) {
			return nil, violation("state #%d has wrong ranges: %+v", i, s)
		}
		sr := stateRules{rules: map[int][]grammar.Rule{}}
		last := -1000
		for _, r := range g.Rules[s.LowRule:s.HighRule] {
			if !valid(r.Token, 0) || !good(r) {
				return nil, violation("state #%d has wrong rule %+v", i, r)
			}
			if r.Token <= last {
				return nil, violation("rules of state #%d are not sorted", i)
			}
			last = r.Token
			sr.keys = append(sr.keys, r.Token)
			sr.rules[r.Token] = []grammar.Rule{r}
		}
		last = -1000
		for _, m := range g.MultiRules[s.LowMultiRule:s.HighMultiRule] {
			if !valid(m.Token, 1) || m.LowRule < 0 || m.HighRule > len(g.Rules) || m.HighRule-m.LowRule < 2 {
				return nil, violation("state #%d has wrong ambiguous rule %+v", i, m)
			}
			if m.Token <= last {
				return nil, violation("ambiguous rules of state #%d are not sorted", i)
			}
			last = m.Token
			if sr.rules[m.Token] != nil {
				return nil, violation("state #%d has two entries for token %d", i, m.Token)
			}
			for _, r := range g.Rules[m.LowRule:m.HighRule] {
				if r.Token != m.Token || !good(r) {
					return nil, violation("state #%d has wrong rule %+v in %+v", i, r, m)
				}
			}
			sr.keys = append(sr.keys, m.Token)
			sr.rules[m.Token] = g.Rules[m.LowRule:m.HighRule]
		}
		out[i] = sr
	}
	return out, nil
}

// checkTables compares a compiled grammar with the meaning of its description.
func checkTables(rd *gram.RefDoc, g *grammar.Grammar, r *engine.Rec) error {
	d := rd.Doc
	table, e := readTable(g)
	if e != nil {
		return e
	}
	// token types
	lits := map[string]grammar.TokenFlags{}
	for _, l := range d.Literals() {
		lits[l] = grammar.LiteralToken
	}
	for _, l := range d.Lits {
		lits[string(l)] = grammar.LiteralToken
	}
	for _, l := range d.Reserved {
		lits[l] |= grammar.LiteralToken | grammar.ReservedToken
	}
	if len(g.Tokens) != len(d.Toks)+len(lits) {
		return violation("%d tokens, expected %d types and %d literals", len(g.Tokens), len(d.Toks), len(lits))
	}
	groupRank := map[int]int{0: 0}
	byName := map[string]int{}
	defs := 0
	for _, x := range d.Toks {
		if !x.Ext {
			defs++
		}
	}
	ext := map[string]grammar.Token{}
	for i, t := range g.Tokens[:len(d.Toks)] {
		byName[t.Name] = i
		if i >= defs {
			ext[t.Name] = t
		}
	}
	for i, x := range d.Toks {
		var t grammar.Token
		if x.Ext {
			has := false
			if t, has = ext[x.Name]; !has {
				return violation("no external type %s", x.Name)
			}
		} else {
			t = g.Tokens[i]
		}
		if t.Name != x.Name || t.Re != x.Re {
			return violation("type #%d is %q = /%s/, expected %q = /%s/", i, t.Name, t.Re, x.Name, x.Re)
		}
		var f grammar.TokenFlags
		set := func(on bool, v grammar.TokenFlags) {
			if on {
				f |= v
			}
		}
		set(x.Ext, grammar.ExternalToken)
		set(x.Side, grammar.SideToken)
		set(x.Err, grammar.ErrorToken)
		set(x.Caseless, grammar.CaselessToken)
		set(x.NoLit, grammar.NoLiteralsToken)
		if t.Flags != f {
			return violation("type %s has flags %b, expected %b", x.Name, t.Flags, f)
		}
		if old, has := groupRank[x.Group]; has && old != t.Group || x.Group != 0 && t.Group == 0 {
			return violation("type %s is in group %d, expected %d", x.Name, t.Group, x.Group)
		}
		groupRank[x.Group] = t.Group
	}
	for a, ra := range groupRank {
		for b, rb := range groupRank {
			if a < b && ra >= rb {
				return violation("groups %d and %d are numbered %d and %d", a, b, ra, rb)
			}
		}
	}
	var sides grammar.BitSet
	types := map[string]grammar.BitSet{}
	for i, t := range g.Tokens {
		if t.Flags&grammar.LiteralToken == 0 {
			types["T:"+t.Name] = 1 << i
			if t.Flags&grammar.SideToken != 0 {
				sides |= 1 << i
			}
			continue
		}
		if f, has := lits[t.Name]; !has || t.Flags != f {
			return violation("literal %q has flags %b, expected %b (listed: %v)", t.Name, t.Flags, f, has)
		}
		for _, x := range d.LitTypes(t.Name) {
			types["L:"+t.Name] |= 1 << byName[x]
		}
	}
	// layers
	var ls []gram.LayerDef
	for _, l := range g.Layers {
		x := gram.LayerDef{Type: l.Type}
		for _, c := range l.Commands {
			cmd := gram.LayerCmd{Name: c.Command}
			for _, a := range c.Arguments {
				cmd.Args = append(cmd.Args, Str(a))
			}
			x.Cmds = append(x.Cmds, cmd)
		}
		ls = append(ls, x)
	}
	if !(len(ls) == 0 && len(d.Layers) == 0) && !reflect.DeepEqual(ls, d.Layers) {
		return violation("layers are %q, expected %q", ls, d.Layers)
	}
	// nodes
	if len(g.Nodes) != len(d.Nodes) {
		return violation("%d nodes, expected %d", len(g.Nodes), len(d.Nodes))
	}
	if g.Nodes[0].Name != d.Nodes[0].Name {
		return violation("root node is %s, expected %s", g.Nodes[0].Name, d.Nodes[0].Name)
	}
	bodies := map[string]gram.Seq{}
	for _, x := range d.Nodes {
		bodies[x.Name] = x.Body
	}
	for _, nd := range g.Nodes {
		body, has := bodies[nd.Name]
		if !has {
			return violation("unknown or repeated node %s", nd.Name)
		}
		delete(bodies, nd.Name)
		if e := sameLanguage(g, table, nd, body, rd.First); e != nil {
			return e
		}
	}
	for i, sr := range table {
		want := sides
		for _, k := range sr.keys {
			if k >= 0 {
				want |= types[symName(g, k)]
			}
		}
		if g.States[i].TokenTypes != want {
			return violation("state #%d fits types %b, expected %b", i, g.States[i].TokenTypes, want)
		}
	}
	r.Count("states", len(g.States))
	r.Count("rules", len(g.Rules))
	return nil
}

// sameLanguage compares the state machine of a node with its description, as languages over tokens and nodes.
func sameLanguage(g *grammar.Grammar, table []stateRules, nd grammar.Node, body gram.Seq, first map[string]map[string]bool) error {
	au := gram.Build(body)
	closure := func(m map[int]bool) map[int]bool {
		var todo []int
		for s := range m {
			todo = append(todo, s)
		}
		for len(todo) > 0 {
			s := todo[0]
			todo = todo[1:]
			if s < 0 {
				continue
			}
			for _, r := range table[s].rules[grammar.AnyToken] {
				if !m[r.State] {
					m[r.State] = true
					todo = append(todo, r.State)
				}
			}
		}
		return m
	}
	key := func(a map[int]bool) string {
		var l []int
		for x := range a {
			l = append(l, x)
		}
		sort.Ints(l)
		return fmt.Sprint(l)
	}
	type pair struct {
		pos, st map[int]bool
		path    string
	}
	const start = -5
	queue := []pair{{map[int]bool{start: true}, closure(map[int]bool{nd.FirstState: true}), ""}}
	done := map[string]bool{}
	for len(queue) > 0 {
		p := queue[0]
		queue = queue[1:]
		k := key(p.pos) + key(p.st)
		if done[k] {
			continue
		}
		done[k] = true
		if len(done) > 5000 {
			return nil
		}
		// description
		ends := false
		dm := map[string]map[int]bool{}
		for q := range p.pos {
			next := au.First
			if q == start {
				ends = ends || au.Nullable
			} else {
				ends = ends || au.Pos[q].Last || au.Pos[q].A.K == gram.Eoi
				next = au.Pos[q].Follow
				if au.Pos[q].A.K == gram.Eoi {
					next = nil
				}
			}
			for _, x := range next {
				s := gram.Sym(au.Pos[x].A)
				if dm[s] == nil {
					dm[s] = map[int]bool{}
				}
				dm[s][x] = true
			}
		}
		// table
		tm := map[string]map[int]bool{}
		for s := range p.st {
			if s < 0 {
				continue
			}
			nodeKeys := map[[2]int]map[string]bool{}
			for _, tk := range table[s].keys {
				if tk == grammar.AnyToken {
					for _, r := range table[s].rules[tk] {
						if r.Node != grammar.SameNode {
							return violation("node %s, state #%d: fallback rule starts a node", nd.Name, s)
						}
					}
					continue
				}
				for _, r := range table[s].rules[tk] {
					sym := symName(g, tk)
					if r.Node != grammar.SameNode {
						nk := [2]int{r.Node, r.State}
						if nodeKeys[nk] == nil {
							nodeKeys[nk] = map[string]bool{}
						}
						nodeKeys[nk][sym] = true
						sym = "N:" + g.Nodes[r.Node].Name
					}
					if tm[sym] == nil {
						tm[sym] = map[int]bool{}
					}
					tm[sym][r.State] = true
				}
			}
			for nk, keys := range nodeKeys {
				if want := first[g.Nodes[nk[0]].Name]; !reflect.DeepEqual(keys, want) {
					return violation("node %s, state #%d: nested node %s starts with %v, expected %v", nd.Name, s, g.Nodes[nk[0]].Name, keys, want)
				}
			}
		}
		if ends != p.st[grammar.FinalState] {
			return violation("node %s: the definition may end after [%s]: %v, the state table: %v", nd.Name, p.path, ends, p.st[grammar.FinalState])
		}
		for s := range tm {
			if dm[s] == nil {
				return violation("node %s: the state table allows %s after [%s], the definition does not", nd.Name, s, p.path)
			}
		}
		for s, q := range dm {
			if tm[s] == nil {
				return violation("node %s: the definition allows %s after [%s], the state table does not", nd.Name, s, p.path)
			}
			queue = append(queue, pair{q, closure(tm[s]), p.path + " " + s})
		}
	}
	return nil
}

// canonical writes a grammar in a form that does not depend on numbering of states, nodes, and
// of external types and literals.
func canonical(g *grammar.Grammar) (string, error) {
	table, e := readTable(g)
	if e != nil {
		return "", e
	}
	var b strings.Builder
	var rest []string
	for _, t := range g.Tokens {
		l := fmt.Sprintf("%q /%s/ group %d flags %b", t.Name, t.Re, t.Group, t.Flags)
		if t.Re != "" {
			b.WriteString(l + "\n")
		} else {
			rest = append(rest, l)
		}
	}
	sort.Strings(rest)
	b.WriteString(strings.Join(rest, "\n") + "\n")
	fmt.Fprintf(&b, "%q\n", g.Layers)
	bits := func(m grammar.BitSet) string {
		var l []string
		for i, t := range g.Tokens {
			if m&(1<<i) != 0 {
				l = append(l, t.Name)
			}
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	nodes := append([]grammar.Node(nil), g.Nodes...)
	sort.Slice(nodes, func(i, j int) bool { return nodes[i].Name < nodes[j].Name })
	fmt.Fprintf(&b, "root %s\n", g.Nodes[0].Name)
	for _, nd := range nodes {
		num := map[int]int{grammar.FinalState: -1, nd.FirstState: 0}
		order := []int{nd.FirstState}
		fmt.Fprintf(&b, "node %s\n", nd.Name)
		for i := 0; i < len(order); i++ {
			s := order[i]
			fmt.Fprintf(&b, " %d: types %s\n", i, bits(g.States[s].TokenTypes))
			type entry struct {
				name string
				rs   []grammar.Rule
			}
			var es []entry
			for _, k := range table[s].keys {
				nm := "any"
				if k != grammar.AnyToken {
					nm = symName(g, k)
				}
				es = append(es, entry{nm, table[s].rules[k]})
			}
			sort.Slice(es, func(i, j int) bool { return es[i].name < es[j].name })
			for _, x := range es {
				fmt.Fprintf(&b, "  %q:", x.name)
				for _, r := range x.rs {
					if _, has := num[r.State]; !has {
						num[r.State] = len(order)
						order = append(order, r.State)
					}
					nn := ""
					if r.Node >= 0 {
						nn = g.Nodes[r.Node].Name
					}
					fmt.Fprintf(&b, " %s>%d", nn, num[r.State])
				}
				b.WriteString("\n")
			}
		}
	}
	return b.String(), nil
}

var ruleCodes = map[string]int{
	"eof": langdef.UnexpectedEofError, "unexpected": langdef.UnexpectedTokenError, "unknown token": langdef.UnknownTokenError,
	"wrong token": langdef.WrongTokenError, "token defined": langdef.TokenDefinedError, "node defined": langdef.NodeDefinedError,
	"regexp": langdef.WrongRegexpError, "undefined node": langdef.UnknownNodeError, "unused node": langdef.UnusedNodeError,
	"unresolved node": langdef.UnresolvedError, "left recursion": langdef.RecursionError, "token number": langdef.TokenTypeNumberError,
	"unresolved literal": langdef.UnresolvedTokenTypesError, "undefined token": langdef.UndefinedTokenError,
	"unknown literal": langdef.UnknownLiteralError, "reassigned group": langdef.ReassignedGroupError,
	"escape": langdef.InvalidEscapeError, "rune": langdef.InvalidRuneError, "template defined": langdef.TemplateDefinedError,
	"unknown template": langdef.UnknownTemplateError, "unknown directive": langdef.UnknownDirectiveError,
}

var wordRe = regexp.MustCompile(`[a-zA-Z_][a-zA-Z_0-9-]*`)

func names(msg, name string) bool {
	if strings.Contains(msg, fmt.Sprintf("%q", name)) {
		return true
	}
	for _, w := range wordRe.FindAllString(msg, -1) {
		if w == name {
			return true
		}
	}
	return false
}

// fitsViolation tells whether an error reports one of the violated rules; returns the rule.
func fitsViolation(text string, offs []int, vs []gram.Viol, e *llx.Error) string {
	src := source.New("grammar", []byte(text))
	for _, v := range vs {
		if code, has := ruleCodes[v.Rule]; has && code != e.Code {
			continue
		}
		if v.Rule == "lexical" && e.Code != lexer.BadTokenError && e.Code != lexer.WrongCharError {
			continue
		}
		if len(v.Names) > 0 {
			for _, n := range v.Names {
				if names(e.Message, n) {
					return v.Rule
				}
			}
			continue
		}
		if v.At == nil {
			return v.Rule
		}
		for _, at := range v.At {
			off := len(text)
			if at >= 0 {
				off = offs[at]
			}
			line, col := src.LineCol(off)
			if e.SourceName == "grammar" && e.Line == line && e.Col == col {
				return v.Rule
			}
		}
	}
	return ""
}

func checkDescription(c LexCase, r *engine.Rec) error {
	text, offs := c.text()
	return checkDescText(text, c.Lex, offs, r)
}

// checkDescText compares the result of parsing a text with what the reference reader tells about its lexemes.
func checkDescText(text string, ls []gram.Lex, offs []int, r *engine.Rec) error {
	rd := gram.ReadDoc(ls)
	if rd.Skip != "" {
		r.Trivial()
		r.Class("outside of the domain: " + rd.Skip)
		return nil
	}
	g, e := langdef.ParseString("grammar", text)
	for _, v := range rd.Viols {
		r.Class("violates: " + v.Rule)
	}
	if e == nil {
		if len(rd.Viols) > 0 {
			return violation("accepted though it violates %+v\n%s", rd.Viols, text)
		}
		r.Class("correct")
		r.Trivial()
		if _, e := readTable(g); e != nil {
			return violation("%v\n%s", e, text)
		}
		parser.New(g)
		return nil
	}
	le := asLlx(e)
	if le == nil {
		return violation("%T %v is not an llx error\n%s", e, e, text)
	}
	if rd.Maybe && le.Code == langdef.TokenTypeNumberError {
		return nil
	}
	rule := fitsViolation(text, offs, rd.Viols, le)
	if rule == "" {
		return violation("error %d: %v (%s %d:%d); violated rules: %+v (lexemes at %v)\n%s", le.Code, e, le.SourceName, le.Line, le.Col, rd.Viols, offs, text)
	}
	r.Class("reported: " + rule)
	return nil
}

// sharedLoop finds the construct of KF-LOOP.
func sharedLoop(d *gram.Doc) bool {
	for _, n := range d.Nodes {
		if gram.SharedLoop(n.Body) {
			return true
		}
	}
	return false
}

// fragment draws lexemes to insert into a description.
func fragment(t *rapid.T, ls []gram.Lex) []gram.Lex {
	var known = map[string][]gram.Lex{}
	for _, l := range ls {
		known[l.K] = append(known[l.K], l)
	}
	one := func(k string, other ...gram.Lex) gram.Lex {
		if len(known[k]) > 0 && gram.Chance(t, 60, "known") {
			l := rapid.SampledFrom(known[k]).Draw(t, "knownLex")
			l.Sep = ""
			return l
		}
		return rapid.SampledFrom(other).Draw(t, "newLex")
	}
	L := func(k, v string) gram.Lex { return gram.Lex{K: k, V: Str(v)} }
	op := func(v string) gram.Lex { return L(gram.LOp, v) }
	nm := func() gram.Lex {
		return one(gram.LName, L(gram.LName, "zz"), L(gram.LName, "name"), L(gram.LName, "string"))
	}
	tk := func() gram.Lex { return one(gram.LTok, L(gram.LTok, "$zz"), L(gram.LTok, "$name"), L(gram.LTok, "$")) }
	re := func() gram.Lex {
		x := rapid.SampledFrom([]string{`[a-z]+`, `(`, `[`, `*`, `a{2,1}`, `\Qab`, `.`, `\p{Foo}`, `)`, `(?s:a)`}).Draw(t, "re")
		return gram.Lex{K: gram.LRe, V: Str(x), Text: Str("/" + x + "/")}
	}
	st := func() gram.Lex {
		switch rapid.IntRange(0, 5).Draw(t, "strKind") {
		case 0:
			x := rapid.SampledFrom([]string{`"\q"`, `"a\xg0"`, `"\x0"`, `"\u00e"`, `"\u00ex"`, `"\U0001f6"`, `"\x+1"`, `"\u 123"`, `"ok\'"`, `"\0"`, `"\x"`}).Draw(t, "badEsc")
			return gram.Lex{K: gram.LStr, Text: Str(x), Bad: "escape"}
		case 1:
			x := rapid.SampledFrom([]string{`"\ud800"`, `"x\uDFFF"`, `"\U00110000"`, `"\Uffffffff"`, `"\U0000d801"`, `"\U80000041"`}).Draw(t, "badRune")
			return gram.Lex{K: gram.LStr, Text: Str(x), Bad: "rune"}
		}
		return one(gram.LStr, gram.Lex{K: gram.LStr, V: "zz", Text: "'zz'"}, gram.Lex{K: gram.LStr, V: "", Text: "''"}, gram.Lex{K: gram.LStr, V: "\u2260", Text: `"\u2260"`})
	}
	dirs := []string{"!side", "!caseless", "!error", "!extern", "!group", "!literal", "!reserved", "!wrong", "!sid"}
	dr := func() gram.Lex { return L(gram.LDir, rapid.SampledFrom(dirs).Draw(t, "dir")) }
	switch rapid.IntRange(0, 17).Draw(t, "fragment") {
	case 0:
		return []gram.Lex{nm()}
	case 1:
		return []gram.Lex{tk()}
	case 2:
		return []gram.Lex{st()}
	case 3:
		return []gram.Lex{re()}
	case 4:
		return []gram.Lex{op(rapid.SampledFrom(strings.Split("( ) [ ] { } = | , ; @", " ")).Draw(t, "op"))}
	case 5:
		return []gram.Lex{dr()}
	case 6:
		return []gram.Lex{one(gram.LTmpl, L(gram.LTmpl, "$$zz"))}
	case 7:
		x := rapid.SampledFrom([]string{"%", "!", "1", "\\", "?", "\x00", "é", "!A", "~", "\xff", "!-"}).Draw(t, "bad")
		return []gram.Lex{{K: gram.LBad, V: Str(x)}}
	case 8, 9:
		d := []gram.Lex{dr()}
		for i := rapid.IntRange(0, 3).Draw(t, "args"); i > 0; i-- {
			if string(d[0].V) == "!reserved" || string(d[0].V) == "!literal" && gram.Chance(t, 50, "strArg") {
				d = append(d, st())
			} else {
				d = append(d, tk())
			}
		}
		return append(d, op(";"))
	case 10:
		return []gram.Lex{tk(), op("="), re(), op(";")}
	case 11:
		return []gram.Lex{one(gram.LTmpl, L(gram.LTmpl, "$$zz")), op("="), re(), op(";")}
	case 12:
		return []gram.Lex{tk(), op("="), re(), nm(), op(";")}
	case 13:
		return []gram.Lex{nm(), op("="), nm(), op(","), nm(), op(";")}
	case 14:
		return []gram.Lex{nm(), op("="), st(), op("|"), nm(), op(";")}
	case 15:
		x := []gram.Lex{op(rapid.SampledFrom([]string{",", "|"}).Draw(t, "glue"))}
		switch rapid.IntRange(0, 2).Draw(t, "glued") {
		case 0:
			return append(x, nm())
		case 1:
			return append(x, tk())
		}
		return append(x, op("["), st(), op("]"))
	case 16:
		return []gram.Lex{op("@"), nm(), nm(), op("("), nm(), op(","), st(), op(")"), op(";")}
	default:
		// many token types
		cnt := rapid.IntRange(50, 70).Draw(t, "many")
		var x []gram.Lex
		if gram.Chance(t, 50, "extern") {
			x = append(x, L(gram.LDir, "!extern"))
			for i := 0; i < cnt; i++ {
				x = append(x, L(gram.LTok, fmt.Sprintf("$t%d", i)))
			}
			return append(x, op(";"))
		}
		for i := 0; i < cnt; i++ {
			x = append(x, L(gram.LTok, fmt.Sprintf("$t%d", i)), op("="), gram.Lex{K: gram.LRe, V: "x", Text: "/x/"}, op(";"))
		}
		return x
	}
}

func mutateLex(t *rapid.T, ls []gram.Lex) ([]gram.Lex, string) {
	ls = append([]gram.Lex(nil), ls...)
	at := func(n int) int { return rapid.IntRange(0, n).Draw(t, "at") }
	// record borders
	border := func() int {
		b := []int{0}
		for i, l := range ls {
			if l.K == gram.LOp && l.V == ";" {
				b = append(b, i+1)
			}
		}
		return b[at(len(b)-1)]
	}
	insert := func(p int, x []gram.Lex) {
		rest := append([]gram.Lex(nil), ls[p:]...)
		ls = append(append(ls[:p:p], x...), rest...)
	}
	cut := func(a, b int) { ls = append(ls[:a:a], ls[b:]...) }
	record := func() (int, int) {
		for {
			a := border()
			for b := a; b < len(ls); b++ {
				if ls[b].K == gram.LOp && ls[b].V == ";" {
					return a, b + 1
				}
			}
			if len(ls) == 0 || a == 0 {
				return 0, 0
			}
		}
	}
	if len(ls) == 0 {
		return ls, "none"
	}
	switch rapid.IntRange(0, 15).Draw(t, "mutation") {
	case 15:
		// letters of a literal in other case
		var lits []int
		for i, l := range ls {
			if l.K == gram.LStr && l.Bad == "" && strings.ToUpper(string(l.V)) != strings.ToLower(string(l.V)) {
				lits = append(lits, i)
			}
		}
		if len(lits) == 0 {
			return ls, "none"
		}
		p := rapid.SampledFrom(lits).Draw(t, "caseOf")
		v := []rune(string(ls[p].V))
		mode := rapid.IntRange(0, 3).Draw(t, "caseMode")
		for i := range v {
			if mode == 0 || mode == 2 && i == 0 || mode == 3 && i > 0 {
				v[i] = unicode.ToUpper(v[i])
			} else {
				v[i] = unicode.ToLower(v[i])
			}
		}
		ls[p] = gram.StrLex(t, string(v))
		return ls, "change case"
	case 14:
		// a literal next to a type whose expression fits or nearly fits it
		x := rapid.SampledFrom([]string{`≠|≠≠`, `≠≠|≠`, `≠+?`, `≠+`, `≠*?≠`, `≠`, `≠{2}`, `≠{1,3}`, `(?:≠)?`, `^≠≠$`, `≠≠\b`, `≠≠\B`, `^.$`, `≠(?:≠≠)*`, `≠?`, `≠??`,
			`(≠)≠`, `≠\z`, `(?i:ж+)`, `Ж+`, `(?U:≠+)`, `(?U:≠+?)`, `≠∎|≠`, `≠|≠∎`, `[≠∎]+`, `[жЖ]+`, `[А-Я]+`, `[а-яА-Я]+`, `≠+(?:∎≠+)*`, `(?:≠|≠≠)∎?`, `(?:≠≠|≠)∎?`}).Draw(t, "nearRe")
		l := rapid.SampledFrom([]string{"≠", "≠≠", "≠≠≠", "≠∎", "≠≠∎", "≠∎≠", "∎", "ж", "Ж", "жж", "Жж", "ЖЖ", "жЖ", "≠\n"}).Draw(t, "nearLiteral")
		rec := []gram.Lex{{K: gram.LTok, V: "$near"}, {K: gram.LOp, V: "="}, {K: gram.LRe, V: Str(x), Text: Str("/" + x + "/")}, {K: gram.LOp, V: ";"}}
		if gram.Chance(t, 30, "nearCaseless") {
			rec = append([]gram.Lex{{K: gram.LDir, V: "!caseless"}, {K: gram.LTok, V: "$near"}, {K: gram.LOp, V: ";"}}, rec...)
		}
		for i := len(ls) - 2; i >= 0; i-- {
			if ls[i].K == gram.LName && ls[i+1].K == gram.LOp && ls[i+1].V == "=" {
				insert(i+2, []gram.Lex{{K: gram.LStr, V: Str(l), Text: Str("'" + l + "'")}, {K: gram.LOp, V: Str(rapid.SampledFrom([]string{",", "|"}).Draw(t, "nearGlue"))}})
				break
			}
		}
		insert(0, rec)
		return ls, "insert a literal and its type"
	case 11, 12, 13:
		// a change inside a node definition
		var atoms, starts []int
		var nodes []gram.Lex
		for i := range ls {
			if i+1 < len(ls) && ls[i].K == gram.LName && ls[i+1].K == gram.LOp && ls[i+1].V == "=" {
				starts = append(starts, i+2)
				nodes = append(nodes, gram.Lex{K: gram.LName, V: ls[i].V})
			} else if len(starts) > 0 && (ls[i].K == gram.LName || ls[i].K == gram.LTok || ls[i].K == gram.LStr) {
				atoms = append(atoms, i)
			}
		}
		if len(atoms) == 0 || len(nodes) == 0 {
			return ls, "none"
		}
		var toks []gram.Lex
		for _, l := range ls[:starts[0]] {
			if l.K == gram.LTok {
				toks = append(toks, gram.Lex{K: gram.LTok, V: l.V})
			}
		}
		x := rapid.SampledFrom(nodes).Draw(t, "nodeRef")
		switch k := rapid.IntRange(0, 5).Draw(t, "atomKind"); {
		case k == 5:
			x.V = "undefined"
		case k >= 3 && len(toks) > 0:
			x = rapid.SampledFrom(toks).Draw(t, "tokRef")
		}
		if gram.Chance(t, 50, "front") {
			p := rapid.SampledFrom(starts).Draw(t, "startOf")
			if p > len(ls) {
				p = len(ls)
			}
			insert(p, []gram.Lex{x, {K: gram.LOp, V: Str(rapid.SampledFrom([]string{",", "|"}).Draw(t, "glue"))}})
			return ls, "insert an item"
		}
		ls[rapid.SampledFrom(atoms).Draw(t, "atomAt")] = x
		return ls, "replace an item"
	case 0:
		p := at(len(ls) - 1)
		cut(p, p+1)
		return ls, "delete"
	case 1:
		p := at(len(ls) - 1)
		insert(p, []gram.Lex{ls[p]})
		return ls, "double"
	case 2:
		p := at(len(ls) - 1)
		q := at(len(ls) - 1)
		ls[p], ls[q] = ls[q], ls[p]
		return ls, "swap"
	case 3:
		p := at(len(ls) - 1)
		x := fragment(t, ls)
		cut(p, p+1)
		insert(p, x)
		return ls, "replace"
	case 4:
		insert(at(len(ls)), fragment(t, ls))
		return ls, "insert"
	case 5, 6, 7:
		insert(border(), fragment(t, ls))
		return ls, "insert a record"
	case 8:
		a, b := record()
		x := append([]gram.Lex(nil), ls[a:b]...)
		cut(a, b)
		if gram.Chance(t, 60, "move") {
			insert(border(), x)
			return ls, "move a record"
		}
		return ls, "delete a record"
	case 9:
		a, b := record()
		insert(border(), append([]gram.Lex(nil), ls[a:b]...))
		return ls, "double a record"
	default:
		return ls[:at(len(ls)-1)], "cut"
	}
}

// RewriteCase is a description written in two ways.
type RewriteCase struct{ A, B LexCase }

// TextCase is an arbitrary text.
type TextCase struct{ Text Str }

func checkAnyText(c TextCase, r *engine.Rec) error {
	text := string(c.Text)
	ls, offs, _ := gram.ScanDoc(text)
	if e := checkDescText(text, ls, offs, r); e != nil {
		return e
	}
	g, e := langdef.ParseBytes("grammar", []byte(text))
	if e == nil {
		if g == nil {
			return violation("no grammar and no error")
		}
		r.Class("correct")
		if _, e := readTable(g); e != nil {
			return e
		}
		parser.New(g)
		return nil
	}
	if g != nil {
		return violation("both a grammar and error %v", e)
	}
	le := asLlx(e)
	if le == nil {
		return violation("%T %v is not an llx error", e, e)
	}
	if !(le.Code >= llx.LangDefErrors && le.Code <= langdef.UnknownDirectiveError || le.Code == lexer.BadTokenError || le.Code == lexer.WrongCharError) {
		return violation("error code is %d: %v", le.Code, e)
	}
	r.ClassIf(le.Code >= llx.LexicalErrors, "lexical error")
	r.ClassIf(le.Code < llx.LexicalErrors, "description error")
	r.TrivialIf(le.Code >= llx.LexicalErrors && le.Line == 1 && le.Col == 1)
	if le.Line == 0 && le.Col == 0 && le.SourceName == "" {
		return nil
	}
	lines := strings.Split(text, "\n")
	if le.SourceName != "grammar" || le.Line < 1 || le.Line > len(lines) || le.Col < 1 || le.Col > len([]rune(lines[le.Line-1]))+1 {
		return violation("error %v is located at %s %d:%d", e, le.SourceName, le.Line, le.Col)
	}
	return nil
}

func genDescText(t *rapid.T) TextCase {
	var s string
	switch rapid.IntRange(0, 3).Draw(t, "textKind") {
	case 0:
		s = string(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes"))
	case 1:
		l := rapid.SliceOfN(rapid.SampledFrom([]string{"$a", "$", "$$t", "a", "b", "name", "=", "/x/", "/[a-z]+/", ";", ",", "|", "(", ")", "[", "]", "{", "}", "@", "!side", "!group", "!extern", "!literal", "'a'", "\"b\"", "\"\\x41\"", " ", "\n", "#", "'", "\"", "/", "\\", "!", "\"\\", "/\\Q/", "1", "é"}), 0, 40).Draw(t, "soup")
		s = strings.Join(l, "")
	default:
		lc := LexCase{Lex: gram.GenDoc(t).Render(t, true), Tail: drawTail(t)}
		s, _ = lc.text()
		for i := rapid.IntRange(1, 4).Draw(t, "edits"); i > 0; i-- {
			at := rapid.IntRange(0, len(s)).Draw(t, "at")
			l := min(rapid.IntRange(0, 6).Draw(t, "len"), len(s)-at)
			ins := rapid.SampledFrom([]string{"", "", "'", "\"", "/", "\\", "$", ";", "(", "]", "=", "\x00", "\xff", "#", "!", "x", ",", "|", "1", " ", "\n", "{", "-", "\\x", "a"}).Draw(t, "ins")
			if gram.Chance(t, 20, "copy") {
				p := rapid.IntRange(0, len(s)).Draw(t, "from")
				ins = s[p:min(len(s), p+rapid.IntRange(0, 30).Draw(t, "copyLen"))]
			}
			s = s[:at] + ins + s[at+l:]
		}
	}
	return TextCase{Str(s)}
}

func init() {
	engine.Define("C06", "a case is a correct description (1-6 nodes of any nesting, ambiguous or not, external, error and restricted types, groups, listed and reserved literals, weird characters, layers, templates) in a random writing; non-trivial: at least 15 rules and a directive, template or layer")
	engine.Register("C06", "tables", 40000, 800000,
		func(t *rapid.T) LexCase {
			return LexCase{Lex: gram.GenDoc(t).Render(t, gram.Chance(t, 50, "wraps")), Tail: drawTail(t)}
		},
		func(c LexCase, r *engine.Rec) error {
			text, _ := c.text()
			rd := gram.ReadDoc(c.Lex)
			if rd.Skip != "" {
				r.Trivial()
				r.Class("outside of the domain: " + rd.Skip)
				return nil
			}
			if len(rd.Viols) > 0 {
				engine.InfraFail("a wrong description is generated: %+v\n%s", rd.Viols, text)
			}
			g, e := langdef.ParseString("grammar", text)
			if e != nil {
				return violation("a correct description is rejected: %v\n%s", e, text)
			}
			if e := checkTables(rd, g, r); e != nil {
				return violation("%v\n%s", e, text)
			}
			extras := len(rd.Doc.Layers) > 0
			for _, l := range c.Lex {
				extras = extras || l.K == gram.LDir || l.K == gram.LTmpl
			}
			r.TrivialIf(len(g.Rules) < 15 || !extras)
			r.ClassIf(len(g.MultiRules) > 0, "ambiguous")
			r.ClassIf(len(rd.Doc.Layers) > 0, "layers")
			r.ClassIf(rd.Doc.RestrictTypes, "restricted literal types")
			r.ClassIf(len(rd.Doc.Lits) > 0, "listed literals")
			r.ClassIf(len(rd.Doc.Reserved) > 0, "reserved literals")
			return nil
		})

	// changed descriptions that are still correct are of more various shapes than those made by GenDoc
	engine.Register("C06", "edited", 15000, 300000,
		func(t *rapid.T) LexCase {
			base := gram.GenDoc(t).Render(t, gram.Chance(t, 50, "wraps"))
			c := LexCase{Lex: base, Tail: drawTail(t)}
			for i := rapid.IntRange(2, 12).Draw(t, "tries"); i > 0; i-- {
				ls, m := mutateLex(t, c.Lex)
				if rd := gram.ReadDoc(ls); len(rd.Viols) > 0 || rd.Skip != "" || rd.Maybe || sharedLoop(rd.Doc) {
					continue
				}
				c.Lex = ls
				c.Muts = append(c.Muts, m)
			}
			return c
		},
		func(c LexCase, r *engine.Rec) error {
			rd := gram.ReadDoc(c.Lex)
			if rd.Skip != "" || rd.Maybe || len(rd.Viols) > 0 || sharedLoop(rd.Doc) {
				r.Trivial()
				return nil
			}
			text, _ := c.text()
			g, e := langdef.ParseString("grammar", text)
			if e != nil {
				return violation("a correct description is rejected: %v\n%s", e, text)
			}
			if e := checkTables(rd, g, r); e != nil {
				return violation("%v\n%s", e, text)
			}
			r.TrivialIf(len(c.Muts) == 0)
			for _, m := range c.Muts {
				r.Class(m)
			}
			return nil
		})

	engine.Define("C07", "a case is a description with 1-3 changes of its lexemes or records (deleted, doubled, swapped, moved, replaced, cut; inserted names, types, literals with bad escapes, bad expressions, directives, definitions, dozens of types), the reference reader tells which rules it violates and where; or an arbitrary text. Non-trivial: some rule is violated (texts: not rejected at the first rune)")
	engine.Register("C07", "rules", 90000, 1500000,
		func(t *rapid.T) LexCase {
			c := LexCase{Lex: gram.GenDoc(t).Render(t, gram.Chance(t, 50, "wraps")), Tail: drawTail(t)}
			for i := rapid.SampledFrom([]int{1, 1, 1, 1, 2, 3}).Draw(t, "muts"); i > 0; i-- {
				var m string
				c.Lex, m = mutateLex(t, c.Lex)
				c.Muts = append(c.Muts, m)
			}
			return c
		}, checkDescription)
	engine.Register("C07", "texts", 60000, 1500000, genDescText, checkAnyText)

	engine.Define("C08", "a case is a correct description written in two ways: separators and comments, quoting and escapes, expressions cut and put in templates, directives split and moved, nodes reordered, redundant brackets; non-trivial: texts differ in more than spaces")
	engine.Register("C08", "rewrites", 40000, 800000,
		func(t *rapid.T) RewriteCase {
			d := gram.GenDoc(t)
			return RewriteCase{LexCase{Lex: d.Render(t, false), Tail: drawTail(t)}, LexCase{Lex: d.Render(t, true), Tail: drawTail(t)}}
		},
		func(c RewriteCase, r *engine.Rec) error {
			ta, _ := c.A.text()
			tb, _ := c.B.text()
			var cs [3]string
			var gs [3]*grammar.Grammar
			for i, x := range []string{ta, tb, tb} {
				g, e := langdef.ParseString("grammar", x)
				if e != nil {
					return violation("a correct description is rejected: %v\n%s", e, x)
				}
				gs[i] = g
				if cs[i], e = canonical(g); e != nil {
					return violation("%v\n%s", e, x)
				}
			}
			if !reflect.DeepEqual(gs[1], gs[2]) {
				return violation("compiling a description twice gives different grammars\n%s", tb)
			}
			if cs[0] != cs[1] {
				return violation("grammars differ:\n%s\n--- and ---\n%s\nof descriptions\n%s\n--- and ---\n%s", cs[0], cs[1], ta, tb)
			}
			strip := func(ls []gram.Lex) string {
				var b strings.Builder
				for _, l := range ls {
					b.WriteString(l.K + string(l.V) + string(l.Text) + " ")
				}
				return b.String()
			}
			r.TrivialIf(strip(c.A.Lex) == strip(c.B.Lex))
			return nil
		})
}
