package props

import (
	"context"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/parser"
	_ "github.com/ava12/llx/parser/layers"
	"github.com/ava12/llx/parser/layers/common"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

// Cmd is a layer command.
type Cmd struct {
	Name string
	Args []Str `json:",omitempty"`
}

var nameRe = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z_0-9-]*$`)

func layerText(layer string, cmds []Cmd) string {
	var b strings.Builder
	b.WriteString("@" + layer)
	for _, c := range cmds {
		var args []string
		for _, a := range c.Args {
			if nameRe.MatchString(string(a)) {
				args = append(args, string(a))
			} else {
				args = append(args, gram.Quote(string(a)))
			}
		}
		b.WriteString(" " + c.Name + "(" + strings.Join(args, ", ") + ")")
	}
	return b.String() + ";\n"
}

// layerGrammar is used for token layers; Single makes every space and line feed a separate token.
func layerGrammar(single bool, layers ...string) string {
	space := `/[ \t\n]+/`
	if single {
		space = `/[ \t]|\n/`
	}
	return "!side $space $comment; !extern $x $in $de; $space = " + space +
		"; $comment = /#[a-z]*;/; $name = /[a-z]+/; $num = /[0-9]+/; $op = /[-+*()]/;\n" +
		strings.Join(layers, "") + "g = {$name | $num | $op | $x | $in | $de};\n"
}

// layerLex is a hand-written scanner for layerGrammar.
func layerLex(s string, single bool) []PipeTok {
	var r []PipeTok
	for i := 0; i < len(s); {
		j := i + 1
		typ := ""
		in := func(lo, hi byte) {
			for j < len(s) && s[j] >= lo && s[j] <= hi {
				j++
			}
		}
		switch c := s[i]; {
		case c == ' ' || c == '\t' || c == '\n':
			typ = "space"
			for !single && j < len(s) && strings.IndexByte(" \t\n", s[j]) >= 0 {
				j++
			}
		case c == '#':
			typ = "comment"
			j = i + strings.IndexByte(s[i:], ';') + 1
		case c >= 'a' && c <= 'z':
			typ = "name"
			in('a', 'z')
		case c >= '0' && c <= '9':
			typ = "num"
			in('0', '9')
		default:
			typ = "op"
		}
		r = append(r, PipeTok{typ, s[i:j], 0, i})
		i = j
	}
	return r
}

// cutText cuts text at given places.
func cutText(text string, cuts []int) (parts []string) {
	at := 0
	for _, c := range cuts {
		c %= len(text) + 1
		if c > at {
			parts = append(parts, text[at:c])
			at = c
		}
	}
	return append(parts, text[at:])
}

// layerLexParts scans a list of sources.
func layerLexParts(parts []string, single bool) (r []PipeTok) {
	for i, part := range parts {
		for _, t := range layerLex(part, single) {
			t.Src = i
			r = append(r, t)
		}
	}
	return
}

func genCuts(t *rapid.T, text string, pct int) []int {
	if len(text) == 0 || !gram.Chance(t, pct, "cuts") {
		return nil
	}
	// comments must not be cut
	free := make([]int, 0, len(text))
	in := false
	for i := range text {
		if !in {
			free = append(free, i)
		}
		in = in && text[i] != ';' || text[i] == '#'
	}
	cuts := rapid.SliceOfN(rapid.SampledFrom(free), 1, 3).Draw(t, "cut")
	sort.Ints(cuts)
	return cuts
}

// layerParse parses texts and returns tokens got by the user token hook and by the node hook.
func layerParse(desc string, texts ...string) (seen, passed []PipeTok, toks []*parser.Token, e error) {
	g, e := langdef.ParseString("grammar", desc)
	if e != nil {
		return nil, nil, nil, e
	}
	p, e := parser.New(g)
	if e != nil {
		return nil, nil, nil, e
	}
	q := source.NewQueue()
	var srcs []*source.Source
	for i, text := range texts {
		name := "src"
		if i > 0 {
			name += fmt.Sprint(i)
		}
		srcs = append(srcs, source.New(name, []byte(text)))
		q.Append(srcs[i])
	}
	conv := func(t *parser.Token) PipeTok {
		x := PipeTok{t.TypeName(), t.Text(), -1, 0}
		for i, src := range srcs {
			if t.Source() == src {
				x.Src, x.Off = i, t.Pos().Pos()
			}
		}
		return x
	}
	hs := parser.Hooks{
		Tokens: parser.TokenHooks{parser.AnyToken: func(_ context.Context, t *parser.Token, _ *parser.TokenContext) (bool, []*parser.Token, error) {
			seen = append(seen, conv(t))
			toks = append(toks, t)
			return true, nil, nil
		}},
		Nodes: collectHooks(&toks),
	}
	var nodeToks []*parser.Token
	hs.Nodes = collectHooks(&nodeToks)
	_, e = p.Parse(newLimit(20000), q, hs, parser.WithFullSource())
	for _, t := range nodeToks {
		passed = append(passed, conv(t))
	}
	for i, text := range texts {
		if e == nil && string(srcs[i].Content()) != text {
			e = fmt.Errorf("source content is changed to %q", srcs[i].Content())
		}
	}
	return
}

// ConvCase is a stack of conversion layers and a source.
type ConvCase struct {
	Single bool
	Layers [][]Cmd
	Src    Str
	Cuts   []int `json:",omitempty"`
}

type convRule struct {
	in, out string
	save    bool
	m       map[string]string
}

func convModel(cmds []Cmd) convRule {
	r := convRule{m: map[string]string{}}
	for _, c := range cmds {
		switch c.Name {
		case "input-type":
			r.in = string(c.Args[0])
		case "output-type":
			r.out = string(c.Args[0])
		case "save-position":
			r.save = true
		case "convert":
			for i := 0; i < len(c.Args); i += 2 {
				r.m[string(c.Args[i])] = string(c.Args[i+1])
			}
		}
	}
	return r
}

func (r convRule) apply(t PipeTok) PipeTok {
	if r.in != "" && t.Type != r.in {
		return t
	}
	to, has := r.m[t.Text]
	if !has {
		return t
	}
	n := PipeTok{Type: t.Type, Text: to, Src: -1}
	if r.out != "" {
		n.Type = r.out
	}
	if r.save {
		n.Src, n.Off = t.Src, t.Off
	}
	return n
}

var convTexts = []string{"a", "b", "ab", "foo", "1", "12", "+", "-", "(", ")", " ", "\n", "  ", "#x;", "", "X'Y", "ы", "if"}

func genConv(t *rapid.T) []Cmd {
	var cmds []Cmd
	types := []string{"name", "num", "op", "x", "space", "comment"}
	seen := map[string]bool{}
	for n := rapid.IntRange(1, 2).Draw(t, "commands"); n > 0; n-- {
		c := Cmd{Name: "convert"}
		for k := rapid.IntRange(1, gram.Scale(t, 3, 4)).Draw(t, "pairs"); k > 0; k-- {
			from := rapid.SampledFrom(convTexts).Draw(t, "from")
			if seen[from] {
				continue
			}
			seen[from] = true
			c.Args = append(c.Args, Str(from), Str(rapid.SampledFrom(convTexts).Draw(t, "to")))
		}
		if len(c.Args) > 0 {
			cmds = append(cmds, c)
		}
	}
	add := func(c Cmd) {
		at := rapid.IntRange(0, len(cmds)).Draw(t, "at")
		cmds = append(cmds[:at], append([]Cmd{c}, cmds[at:]...)...)
	}
	if gram.Chance(t, 50, "in") {
		add(Cmd{"input-type", []Str{Str(rapid.SampledFrom(types).Draw(t, "inType"))}})
	}
	if gram.Chance(t, 50, "out") {
		add(Cmd{"output-type", []Str{Str(rapid.SampledFrom(types).Draw(t, "outType"))}})
	}
	if gram.Chance(t, 40, "save") {
		add(Cmd{Name: "save-position"})
	}
	return cmds
}

// RestrictCase is a parse with restriction layers.
type RestrictCase struct {
	ParseCase
	Layers [][]Cmd
}

type nodeVisit struct {
	name  string
	tok   *parser.Token
	stack []string
}

// IndentCase is a source cut in lines; Conv adds a conversion layer before the indentation one.
type IndentCase struct {
	Single, Conv bool
	Src          Str
	Cuts         []int `json:",omitempty"`
}

// indentModel returns the expected stream of tokens; a bad line is reported as the range of offsets.
func indentModel(toks []PipeTok, base []int) (r []PipeTok, depth int, badLo, badHi int) {
	badLo = -1
	stack := []string{""}
	lineStart, sawSide := true, false
	indent := ""
	var pending []PipeTok
	lineAt := 0
	for _, t := range toks {
		switch t.Type {
		case "space":
			if nl := strings.LastIndexByte(t.Text, '\n'); nl >= 0 {
				lineStart, sawSide = true, false
				indent = t.Text[nl+1:]
				lineAt = base[t.Src] + t.Off
				pending = append(pending, t)
			} else if lineStart {
				if !sawSide {
					indent += t.Text
				}
				pending = append(pending, t)
			} else {
				r = append(r, t)
			}
		case "comment":
			sawSide = true
			r = append(append(r, pending...), t)
			pending = nil
		default:
			if lineStart {
				top := stack[len(stack)-1]
				level := -1
				for i, s := range stack {
					if s == indent {
						level = i
					}
				}
				switch {
				case sawSide:
					return r, len(stack) - 1, lineAt, base[t.Src] + t.Off
				case indent == top:
				case strings.HasPrefix(indent, top):
					stack = append(stack, indent)
					r = append(r, PipeTok{"in", "", t.Src, t.Off})
				case level >= 0:
					for len(stack)-1 > level {
						stack = stack[:len(stack)-1]
						r = append(r, PipeTok{"de", "", t.Src, t.Off})
					}
				default:
					return r, len(stack) - 1, lineAt, base[t.Src] + t.Off
				}
				r = append(r, pending...)
				pending = nil
				lineStart, indent, sawSide = false, "", false
			}
			r = append(r, t)
		}
	}
	depth = len(stack) - 1
	for i := 0; i < depth; i++ {
		r = append(r, PipeTok{"de", "", -1, 0})
	}
	return append(r, pending...), depth, -1, 0
}

// ConfCase is a layer definition with an expected error code (0 if it is correct).
type ConfCase struct {
	Layer string
	Cmds  []Cmd
	Code  int
	Fault string
	Late  bool `json:",omitempty"` // reported when parsing starts
}

// genDeepCase makes a sentence of nested brackets of a few kinds, most of them of the same kind.
func genDeepCase(t *rapid.T) ParseCase {
	k := gram.GenKit(t)
	s := &gram.Spec{Toks: k.Toks, Nodes: []gram.NodeDef{{Name: "g"}, {Name: "item"}}}
	nod := func(n string) gram.Item { return gram.Item{{K: gram.Nod, N: n}} }
	rep := func(n string) gram.Item { return gram.Item{{K: gram.Rep, S: gram.Seq{nod(n)}}} }
	s.Nodes[0].Body = gram.Seq{nod("item"), rep("item")}
	var all gram.Item
	kinds := rapid.IntRange(2, 5).Draw(t, "kinds")
	var open, end []gram.Token
	for i := 0; i < kinds; i++ {
		a, b := k.Fresh(), k.Fresh()
		open = append(open, gram.Token{Type: k.LitType[a], Text: a})
		end = append(end, gram.Token{Type: k.LitType[b], Text: b})
		name := fmt.Sprintf("n%d", i)
		all = append(all, gram.Atom{K: gram.Nod, N: name})
		s.Nodes = append(s.Nodes, gram.NodeDef{Name: name, Body: gram.Seq{gram.Item{{K: gram.Lit, N: a}}, rep("item"), gram.Item{{K: gram.Lit, N: b}}}})
	}
	s.Nodes[1].Body = gram.Seq{all}
	var c ParseCase
	var stack []int
	most := rapid.IntRange(0, kinds-1).Draw(t, "most")
	depth := rapid.IntRange(10, 70).Draw(t, "depth")
	for i := 0; i < depth; i++ {
		x := most
		if gram.Chance(t, 8, "other") {
			x = rapid.IntRange(0, kinds-1).Draw(t, "kind")
		}
		c.Toks = append(c.Toks, open[x])
		stack = append(stack, x)
	}
	for len(stack) > 0 {
		if gram.Chance(t, 10, "leaf") {
			x := rapid.IntRange(0, kinds-1).Draw(t, "kind")
			c.Toks = append(c.Toks, open[x], end[x])
		}
		c.Toks = append(c.Toks, end[stack[len(stack)-1]])
		stack = stack[:len(stack)-1]
	}
	src, offs := k.Render(t, c.Toks)
	c.Spec, c.Src, c.Offs = s, Str(src), offs
	return c
}

func init() {
	engine.Define("C20", "a case is 1-3 conversion layers with random conversions (1-6 pairs over texts of all token types, empty ones included), input and output types and saved positions in random order of commands, and a source of 0-12 tokens; non-trivial: at least one token is converted")
	engine.Register("C20", "convert", 320000, 3200000,
		func(t *rapid.T) ConvCase {
			c := ConvCase{Single: rapid.Bool().Draw(t, "single")}
			for n := rapid.IntRange(1, gram.Scale(t, 3, 3)).Draw(t, "layers"); n > 0; n-- {
				c.Layers = append(c.Layers, genConv(t))
			}
			var b strings.Builder
			pieces := []string{"a ", "b ", "ab ", "foo ", "1 ", "12 ", "+", "-", "(", ")", " ", "\n", "#x;", "#;", "if ", "a1"}
			for n := rapid.IntRange(0, gram.Scale(t, 12, 10)).Draw(t, "pieces"); n > 0; n-- {
				b.WriteString(rapid.SampledFrom(pieces).Draw(t, "piece"))
			}
			c.Src = Str(b.String())
			c.Cuts = genCuts(t, string(c.Src), 20)
			return c
		},
		func(c ConvCase, r *engine.Rec) error {
			var defs []string
			var rules []convRule
			for _, l := range c.Layers {
				defs = append(defs, layerText("convert", l))
				rules = append(rules, convModel(l))
			}
			desc := layerGrammar(c.Single, defs...)
			var want, wantPassed []PipeTok
			converted := 0
			parts := cutText(string(c.Src), c.Cuts)
			r.ClassIf(len(parts) > 1, "several sources")
			for _, x := range layerLexParts(parts, c.Single) {
				y := x
				for _, rule := range rules {
					y = rule.apply(y)
				}
				if x != y {
					converted++
				}
				want = append(want, y)
				if y.Type != "space" && y.Type != "comment" {
					wantPassed = append(wantPassed, y)
				}
			}
			r.TrivialIf(converted == 0)
			r.ClassIf(len(c.Layers) > 1, "several layers")
			seen, passed, _, e := layerParse(desc, parts...)
			if e != nil {
				return violation("parsing fails: %v\n%s", e, desc)
			}
			if fmt.Sprint(seen) != fmt.Sprint(want) {
				return violation("user hooks get %v\nexpected %v\n%s", seen, want, desc)
			}
			if fmt.Sprint(passed) != fmt.Sprint(wantPassed) {
				return violation("node hooks get %v\nexpected %v\n%s", passed, wantPassed, desc)
			}
			return nil
		})

	engine.Define("C21", "a case is 0-14 lines with random indentation (tabs and spaces, prefixes of earlier ones, blank, comment-only and broken lines), with one token per space or per run of spaces, sometimes with a conversion of tabs to spaces before the layer; non-trivial: at least two indent tokens or an error is expected")
	genIndent := func(t *rapid.T) IndentCase {
		c := IndentCase{Single: rapid.Bool().Draw(t, "single")}
		c.Conv = c.Single && gram.Chance(t, 40, "conv")
		var b strings.Builder
		var stack []string
		first := true
		blank := []string{"", " ", "\t", "  #c;", "#c; ", "#x;#y;", "    "}
		words := []string{"a", "do ", "if 1", "+ b", "a(b)", "x #c; y", "a #c;", "b  "}
		units := []string{" ", "  ", "\t", "\t ", " \t", "    "}
		lines := gram.Scale(t, 14, 8)
		// from time to time most of lines are one level deeper
		steep := gram.Chance(t, 3, "steep")
		if steep {
			lines = rapid.IntRange(20, 100).Draw(t, "steepLines")
			units = append(units, strings.Repeat(" ", rapid.IntRange(5, 40).Draw(t, "wideUnit")))
		}
		for n := rapid.IntRange(0, lines).Draw(t, "lines"); n > 0; n-- {
			k := rapid.IntRange(0, 9).Draw(t, "kind")
			if steep && rapid.IntRange(0, 9).Draw(t, "steeper") > 1 {
				k = 3
			}
			switch {
			case k == 0 || k == 1:
				b.WriteString(rapid.SampledFrom(blank).Draw(t, "blank"))
			case first:
				b.WriteString(rapid.SampledFrom(words).Draw(t, "word"))
				first = false
				stack = []string{""}
			default:
				top := stack[len(stack)-1]
				switch {
				case k < 4: // deeper
					top += rapid.SampledFrom(units).Draw(t, "unit")
					stack = append(stack, top)
				case k < 6: // back
					i := rapid.IntRange(0, len(stack)-1).Draw(t, "level")
					stack = stack[:i+1]
					top = stack[i]
				case k == 9 && gram.Chance(t, 40, "odd"): // anything
					if i := len(top); i > 0 && rapid.Bool().Draw(t, "oddByte") {
						// another byte somewhere in a valid indentation
						i = rapid.IntRange(0, i-1).Draw(t, "oddAt")
						top = top[:i] + rapid.SampledFrom([]string{" ", "\t", ""}).Draw(t, "oddWith") + top[i+1:]
						if rapid.Bool().Draw(t, "oddLonger") {
							top += rapid.SampledFrom(units).Draw(t, "unit")
						}
						break
					}
					top = rapid.SampledFrom(append(units, " #c;", "#c; ")).Draw(t, "odd")
				}
				b.WriteString(top + rapid.SampledFrom(words).Draw(t, "word"))
			}
			if n > 1 || rapid.Bool().Draw(t, "nl") {
				b.WriteString("\n")
			}
		}
		c.Src = Str(b.String())
		c.Cuts = genCuts(t, string(c.Src), 25)
		return c
	}
	engine.Register("C21", "indent", 240000, 2400000, genIndent,
		func(c IndentCase, r *engine.Rec) error {
			defs := []string{"@indent space(space) on-indent(in) on-dedent(de);\n"}
			parts := cutText(string(c.Src), c.Cuts)
			toks := layerLexParts(parts, c.Single)
			bases := map[string]int{}
			base := make([]int, len(parts))
			for i := range parts {
				name := "src"
				if i > 0 {
					name += fmt.Sprint(i)
					base[i] = base[i-1] + len(parts[i-1])
				}
				bases[name] = i
			}
			r.ClassIf(len(parts) > 1, "several sources")
			if c.Conv {
				defs = append([]string{`@convert input-type(space) convert("\t", "    ") save-position();` + "\n"}, defs...)
				for i := range toks {
					if toks[i].Text == "\t" {
						toks[i].Text = "    "
					}
				}
			}
			desc := layerGrammar(c.Single, defs...)
			want, depth, badLo, badHi := indentModel(toks, base)
			seen, _, _, e := layerParse(desc, parts...)
			ins := 0
			for _, w := range want {
				if w.Type == "in" {
					ins++
				}
			}
			r.TrivialIf(ins < 2 && badLo < 0)
			r.ClassIf(badLo >= 0, "bad indentation")
			r.ClassIf(depth > 1, "open at the end")
			r.ClassIf(c.Conv, "converted spaces")
			if badLo >= 0 {
				if errCode(e) != common.WrongTokenError {
					return violation("bad indentation at offset %d: %v\n%q\n%s", badHi, e, c.Src, desc)
				}
				le := asLlx(e)
				si, known := bases[le.SourceName]
				off := 0
				if known {
					off = scanPos(parts[si], le.Line, le.Col) + base[si]
				}
				if !known || off < badLo || off > badHi {
					return violation("bad indentation at offsets %d-%d is reported at %d (%v)\n%q\n%s", badLo, badHi, off, e, c.Src, desc)
				}
				return nil
			}
			if e != nil {
				return violation("parsing fails: %v\n%q\n%s", e, c.Src, desc)
			}
			if fmt.Sprint(seen) != fmt.Sprint(want) {
				return violation("source %q: user hooks get %v\nexpected %v\n%s", c.Src, seen, want, desc)
			}
			return nil
		})
	engine.Register("C21", "blocks", 120000, 1200000, genIndent,
		func(c IndentCase, r *engine.Rec) error {
			// a language of blocks: the tree must follow the levels of lines
			toks := layerLex(string(c.Src), false)
			want, _, bad, _ := indentModel(toks, []int{0})
			desc := "!side $space $comment; !extern $in $de; $space = /[ \\t\\n]+/; $comment = /#[a-z]*;/; $tok = /[a-z]+|[0-9]+|[-+*()]/;\n" +
				"@indent space(space) on-indent(in) on-dedent(de);\n" +
				rapidEnds[len(c.Src)%len(rapidEnds)]
			if bad >= 0 {
				r.Trivial()
				return nil
			}
			_, p, e := compile(desc)
			if e != nil {
				return violation("a correct description is rejected: %v\n%s", e, desc)
			}
			tree, _, e := parseTree(p, newQueue("src", string(c.Src)), 20000, parser.WithFullSource())
			if e != nil {
				return violation("source %q is rejected: %v\n%s", c.Src, e, desc)
			}
			// brackets and words of the tree
			var got, exp strings.Builder
			var walk func(t *gram.Tree)
			walk = func(t *gram.Tree) {
				if t.Tok != nil {
					switch t.Tok.Type {
					case "in", "de", parser.EoiToken:
					default:
						got.WriteString(t.Tok.Text + " ")
					}
					return
				}
				if t.Node == "block" {
					got.WriteString("< ")
				}
				for _, k := range t.Kids {
					walk(k)
				}
				if t.Node == "block" {
					got.WriteString("> ")
				}
			}
			walk(tree)
			depth := 0
			for _, w := range want {
				switch w.Type {
				case "in":
					depth++
					exp.WriteString("< ")
				case "de":
					exp.WriteString("> ")
				case "space", "comment":
				default:
					exp.WriteString(w.Text + " ")
				}
			}
			r.TrivialIf(depth < 2)
			if got.String() != exp.String() {
				return violation("source %q: blocks are %s, expected %s", c.Src, got.String(), exp.String())
			}
			return nil
		})

	engine.Define("C22", "a case is a sentence of a random grammar (recursive, lookahead included), sometimes mutated, or of a language of brackets nested up to 70 times, and 1-2 restriction layers with random restricted, allowing and forbidding nodes; non-trivial: a restricted node is met in a tree of depth 3 or more")
	engine.Register("C22", "restrict", 120000, 1200000,
		func(t *rapid.T) RestrictCase {
			var c RestrictCase
			if gram.Chance(t, 5, "deep") {
				c.ParseCase = genDeepCase(t)
			} else if gram.Chance(t, 30, "choice") {
				c.ParseCase = genChoiceCase(t, 16)
			} else {
				c.ParseCase = genParseCase(t, gram.Options{MaxNodes: 6, Depth: 2, LL1: true}, 20, 20)
			}
			var names []Str
			for _, n := range c.Spec.Nodes {
				names = append(names, Str(n.Name))
			}
			pick := func(pct int, min int) []Str {
				var r []Str
				for _, n := range names {
					if gram.Chance(t, pct, "pick") {
						r = append(r, n)
					}
				}
				if len(r) < min {
					r = append(r, rapid.SampledFrom(names).Draw(t, "one"))
				}
				return r
			}
			for n := rapid.IntRange(1, 2).Draw(t, "layers"); n > 0; n-- {
				cmds := []Cmd{{"node", pick(40, 1)}}
				special := map[Str]bool{}
				uniq := func(l []Str) (r []Str) {
					for _, x := range l {
						if !special[x] {
							special[x] = true
							r = append(r, x)
						}
					}
					return
				}
				cmds = append(cmds, Cmd{"forbid-in", uniq(pick(30, 1))})
				if a := uniq(pick(40, 0)); len(a) > 0 {
					if len(a) > 1 && rapid.Bool().Draw(t, "split") {
						cmds = append(cmds, Cmd{"allow-in", a[:1]}, Cmd{"allow-in", a[1:]})
					} else {
						cmds = append(cmds, Cmd{"allow-in", a})
					}
				}
				c.Layers = append(c.Layers, rapid.Permutation(cmds).Draw(t, "order"))
			}
			return c
		},
		func(c RestrictCase, r *engine.Rec) error {
			_, p, e := compile(c.Spec.Text())
			if e != nil {
				return violation("a correct description is rejected: %v\n%s", e, c.Spec.Text())
			}
			text := ""
			for _, l := range c.Layers {
				text += layerText("restrict", l)
			}
			text += c.Spec.Text()
			_, rp, e := compile(text)
			if e != nil {
				return violation("a correct description with layers is rejected: %v\n%s", e, text)
			}
			// what nodes are started in what order
			var visits []nodeVisit
			hooks := parser.NodeHooks{parser.AnyNode: func(_ context.Context, node string, t *parser.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
				visits = append(visits, nodeVisit{node, t, nc.NodeStack()})
				return &collector{&gram.Tree{Node: node}, nil}, nil
			}}
			plainRes, plainErr := p.Parse(newLimit(8000), newQueue("src", string(c.Src)), parser.Hooks{Nodes: hooks}, parser.WithFullSource())
			if plainErr == errTooLong {
				return violation("parsing does not stop")
			}
			plain := visits
			visits = nil
			res, err := rp.Parse(newLimit(8000), newQueue("src", string(c.Src)), parser.Hooks{Nodes: hooks}, parser.WithFullSource())

			// the first forbidden node
			bad := -1
			deep, restricted := false, false
			farSpecial := 0
			for i, v := range plain {
				deep = deep || len(v.stack) >= 2
				for _, l := range c.Layers {
					special := map[string]bool{}
					nodes := map[string]bool{}
					for _, cmd := range l {
						for _, a := range cmd.Args {
							if cmd.Name == "node" {
								nodes[string(a)] = true
							} else {
								special[string(a)] = cmd.Name == "allow-in"
							}
						}
					}
					if !nodes[v.name] {
						continue
					}
					restricted = true
					for k, a := range v.stack {
						if allow, is := special[a]; is {
							farSpecial = max(farSpecial, k)
							if !allow && bad < 0 {
								bad = i
							}
							break
						}
					}
				}
			}
			r.TrivialIf(!deep || !restricted)
			r.ClassIf(farSpecial > 20, "decided by a far ancestor")
			r.ClassIf(bad >= 0, "forbidden")
			r.ClassIf(bad < 0 && restricted, "allowed")
			for _, v := range plain {
				if len(v.stack) > 30 {
					r.Class("depth > 30")
					break
				}
			}
			if bad >= 0 {
				v := plain[bad]
				if errCode(err) != common.WrongTokenError {
					return violation("node %s is forbidden in %v: result %v, error %v\n%s", v.name, v.stack, res, err, text)
				}
				le := asLlx(err)
				l, cl := v.tok.LineCol()
				if le.SourceName != "src" || le.Line != l || le.Col != cl {
					return violation("node %s is forbidden at %d:%d, reported at %d:%d in %q\n%s", v.name, l, cl, le.Line, le.Col, le.SourceName, text)
				}
				return nil
			}
			if (plainErr == nil) != (err == nil) || plainErr != nil && plainErr.Error() != err.Error() {
				return violation("no node is forbidden: error %v, without the layer %v\n%s", err, plainErr, text)
			}
			if err == nil && res.(*gram.Tree).String() != plainRes.(*gram.Tree).String() {
				return violation("the layer changes the result: %v, without it %v\n%s", res, plainRes, text)
			}
			return nil
		})

	engine.Define("C23", "a case is a correct random definition of a standard layer with random order of commands, or one with a single injected fault of a documented kind (unknown command, missing command, wrong number of arguments, repeated argument or command, unknown token type, unknown node, unknown layer); non-trivial: all")
	engine.Register("C23", "config", 300000, 2400000, genConf, checkConf)
}

// definitions of a block language, equivalent for the check
var rapidEnds = []string{
	"g = {item}; item = $tok | block; block = $in, {item}, $de;\n",
	"g = {item}, $; item = $tok | block; block = $in, item, {item}, $de;\n",
	"g = {item}; item = $tok | block; block = $in, {$tok | block}, $de;\n",
}

func genConf(t *rapid.T) ConfCase {
	c := ConfCase{Layer: rapid.SampledFrom([]string{"convert", "indent", "restrict"}).Draw(t, "layer")}
	types := []Str{"name", "num", "op", "x", "space", "comment"}
	strs := func(l ...string) (r []Str) {
		for _, s := range l {
			r = append(r, Str(s))
		}
		return
	}
	insert := func(x Cmd) {
		at := rapid.IntRange(0, len(c.Cmds)).Draw(t, "at")
		c.Cmds = append(c.Cmds[:at], append([]Cmd{x}, c.Cmds[at:]...)...)
	}
	find := func(name string) int {
		for i, x := range c.Cmds {
			if x.Name == name {
				return i
			}
		}
		return -1
	}
	drop := func(name string) {
		for i := find(name); i >= 0; i = find(name) {
			c.Cmds = append(c.Cmds[:i], c.Cmds[i+1:]...)
		}
	}
	badTypes := strs("foo", "g", "Name", "-error-", "a", "bad", "nam")
	var faults []func()
	fault := func(code int, what string, f func()) {
		faults = append(faults, func() { c.Code, c.Fault = code, what; f() })
	}
	fault(0, "", func() {})
	fault(0, "", func() {})
	fault(common.UnknownCommandError, "unknown command", func() {
		insert(Cmd{rapid.SampledFrom([]string{"foo", "converts", "Space", "on-dedents", "type", "nodes", "allow", "input_type"}).Draw(t, "cmd"), strs("a", "b")[:rapid.IntRange(0, 2).Draw(t, "args")]})
	})
	fault(parser.UnknownLayerError, "unknown layer", func() {
		c.Layer = rapid.SampledFrom([]string{"foo", "Convert", "indents", "restrict-"}).Draw(t, "unknown")
	})
	setArgs := func(name string, n int) func() {
		return func() {
			i := find(name)
			c.Cmds[i].Args = append(append([]Str(nil), types...), types...)[:n]
		}
	}
	switch c.Layer {
	case "convert":
		c.Cmds = genConv(t)
		has := map[Str]bool{}
		for _, x := range c.Cmds {
			if x.Name == "convert" {
				for i := 0; i < len(x.Args); i += 2 {
					has[x.Args[i]] = true
				}
			}
		}
		fault(common.MissingCommandError, "no convert", func() { drop("convert") })
		fault(common.NumberOfArgumentsError, "empty convert", func() { insert(Cmd{Name: "convert"}) })
		fault(common.NumberOfArgumentsError, "odd convert", func() {
			i := find("convert")
			c.Cmds[i].Args = append(append([]Str(nil), c.Cmds[i].Args...), "zz")
		})
		fault(common.NumberOfArgumentsError, "arguments of save-position", func() {
			drop("save-position")
			insert(Cmd{"save-position", strs("name")})
		})
		fault(common.InvalidArgumentError, "repeated conversion", func() {
			var l []Str
			for _, s := range convTexts {
				if has[Str(s)] {
					l = append(l, Str(s))
				}
			}
			from := rapid.SampledFrom(l).Draw(t, "again")
			var same Str // repeating is wrong even if texts are the same
			for _, x := range c.Cmds {
				for i := 0; x.Name == "convert" && i < len(x.Args); i += 2 {
					if x.Args[i] == from {
						same = x.Args[i+1]
					}
				}
			}
			to := rapid.SampledFrom([]Str{"x", same}).Draw(t, "to")
			c.Cmds = append(c.Cmds, Cmd{"convert", []Str{"new", "y", from, to}})
		})
		for _, name := range []string{"input-type", "output-type"} {
			fault(common.NumberOfArgumentsError, "no arguments of "+name, func() { drop(name); insert(Cmd{Name: name}) })
			fault(common.NumberOfArgumentsError, "two arguments of "+name, func() { drop(name); insert(Cmd{name, types[:2]}) })
			fault(common.UnknownTokenTypeError, "unknown type for "+name, func() {
				drop(name)
				insert(Cmd{name, []Str{rapid.SampledFrom(badTypes).Draw(t, "type")}})
			})
			fault(common.CommandAlreadyUsedError, "repeated "+name, func() {
				drop(name)
				insert(Cmd{name, types[:1]})
				insert(Cmd{name, types[:1]})
			})
		}
	case "indent":
		c.Cmds = rapid.Permutation([]Cmd{
			{"space", append([]Str(nil), rapid.SampledFrom([][]Str{{"space"}, {"space", "comment"}, {"num", "space"}}).Draw(t, "spaces")...)},
			{"on-indent", []Str{rapid.SampledFrom(types).Draw(t, "in")}},
			{"on-dedent", []Str{rapid.SampledFrom(types).Draw(t, "de")}},
		}).Draw(t, "order")
		for _, name := range []string{"space", "on-indent", "on-dedent"} {
			fault(common.MissingCommandError, "no "+name, func() { drop(name) })
			fault(common.NumberOfArgumentsError, "no arguments of "+name, setArgs(name, 0))
			fault(common.CommandAlreadyUsedError, "repeated "+name, func() { insert(Cmd{name, types[:1]}) })
			fault(common.UnknownTokenTypeError, "unknown type for "+name, func() {
				i := find(name)
				c.Cmds[i].Args = []Str{rapid.SampledFrom(append(badTypes, parser.EofToken, parser.EoiToken, "")).Draw(t, "type")}
			})
			if name != "space" {
				fault(common.NumberOfArgumentsError, "many arguments of "+name, setArgs(name, rapid.IntRange(2, 4).Draw(t, "n")))
			}
		}
	case "restrict":
		nodes := rapid.Permutation(strs("g", "p", "q", "r", "s")).Draw(t, "nodes")
		n := rapid.IntRange(1, 3).Draw(t, "n")
		k := rapid.IntRange(1, 3).Draw(t, "k")
		special := rapid.Permutation(nodes).Draw(t, "special")
		c.Cmds = []Cmd{{"node", append([]Str(nil), nodes[:n]...)}, {"forbid-in", append([]Str(nil), special[:k]...)}}
		if rapid.Bool().Draw(t, "allow") {
			c.Cmds = append(c.Cmds, Cmd{"allow-in", append([]Str(nil), special[k:k+1]...)})
		}
		if n > 1 && rapid.Bool().Draw(t, "split") {
			c.Cmds[0].Args = nodes[:1]
			c.Cmds = append(c.Cmds, Cmd{"node", nodes[1:n]})
		}
		c.Cmds = rapid.Permutation(c.Cmds).Draw(t, "order")
		fault(common.MissingCommandError, "no node", func() { drop("node") })
		fault(common.MissingCommandError, "no forbid-in", func() { drop("forbid-in") })
		for _, name := range []string{"node", "forbid-in", "allow-in"} {
			fault(common.NumberOfArgumentsError, "no arguments of "+name, func() { insert(Cmd{Name: name}) })
		}
		fault(common.InvalidArgumentError, "repeated node", func() { insert(Cmd{"node", nodes[n-1 : n]}) })
		fault(common.InvalidArgumentError, "repeated special node", func() {
			insert(Cmd{rapid.SampledFrom([]string{"forbid-in", "allow-in"}).Draw(t, "where"), special[k-1 : k]})
		})
		fault(parser.UnknownNodeError, "unknown node", func() {
			insert(Cmd{"node", []Str{rapid.SampledFrom(strs("foo", "name", "a", "G")).Draw(t, "node")}})
			c.Late = true
		})
	}
	// the first draw picks a fault, shrinks to a correct definition
	faults[rapid.IntRange(0, len(faults)-1).Draw(t, "fault")]()
	return c
}

func (c ConfCase) text() string {
	return "!side $space $comment; !error $bad; !extern $x; $space = /[ \\t\\n]+/; $comment = /#[a-z]*;/; $name = /[a-z]+/; $num = /[0-9]+/; $op = /[-+*()]/; $bad = /!/;\n" +
		layerText(c.Layer, c.Cmds) + "g = [p], ['a'], [$x]; p = $num, [q]; q = $op, [r]; r = $num, s; s = $op;\n"
}

func checkConf(c ConfCase, r *engine.Rec) error {
	r.Class(c.Layer + ": " + c.Fault)
	desc := c.text()
	g, e := langdef.ParseString("grammar", desc)
	if e != nil {
		return violation("a correct description is rejected: %v\n%s", e, desc)
	}
	if len(g.Layers) != 1 || g.Layers[0].Type != c.Layer {
		return violation("layers are %v\n%s", g.Layers, desc)
	}
	p, e := parser.New(g)
	if e == nil {
		if p == nil {
			return violation("no parser and no error")
		}
		if c.Code == 0 || c.Late {
			_, e = p.ParseString(newLimit(1000), "src", "", parser.Hooks{})
			if c.Code == 0 && e != nil {
				return violation("a correct definition: parsing fails: %v\n%s", e, desc)
			}
		}
	} else if c.Late {
		return violation("%s: making a parser gives %v", c.Fault, e)
	}
	if errCode(e) != c.Code {
		return violation("%s: expected code %d, got %v\n%s", c.Fault, c.Code, e, desc)
	}
	if e != nil {
		msg := e.Error()
		if strings.Contains(msg, "%!") || strings.Contains(msg, "EXTRA") || strings.Contains(msg, "MISSING") {
			return violation("broken message: %s", msg)
		}
		if !c.Late && !strings.Contains(msg, c.Layer) {
			return violation("the message does not name layer %q: %s", c.Layer, msg)
		}
	}
	return nil
}
