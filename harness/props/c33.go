package props

import (
	"context"
	"errors"
	"fmt"
	"os"
	"reflect"
	"strings"
	"sync/atomic"

	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

// QueryCase is a description and arguments of parser queries.
type QueryCase struct {
	LexCase
	Names   []Str
	Content Str
}

// OwnLayerDef is a definition of a custom layer: which template it names and its commands.
type OwnLayerDef struct {
	Tpl  int
	Cmds []Cmd
}

// OwnLayerCase is a list of templates and of definitions using them.
type OwnLayerCase struct {
	Tpls   []string // "registered", "option", "both", "standard"
	Defs   []OwnLayerDef
	FailAt int `json:",omitempty"` // setup of this definition (1-based) fails
	Again  bool
	Parses int
	Src    Str
}

type ownTpl struct {
	tag    string
	layers *[]*ownLayer
	fail   func(i int) error
}

type ownLayer struct {
	tag   string
	cmds  []grammar.LayerCommand
	p     *parser.Parser
	typ   int
	has   bool
	inits []*parser.ParseContext
}

func (o *ownTpl) Setup(cmds []grammar.LayerCommand, p *parser.Parser) (parser.HookLayer, error) {
	l := &ownLayer{tag: o.tag, cmds: cmds, p: p}
	l.typ, l.has = p.TokenType("name")
	*o.layers = append(*o.layers, l)
	if e := o.fail(len(*o.layers)); e != nil {
		return nil, e
	}
	return l, nil
}

func (l *ownLayer) Init(_ context.Context, pc *parser.ParseContext) parser.Hooks {
	l.inits = append(l.inits, pc)
	return parser.Hooks{Tokens: parser.TokenHooks{"name": func(_ context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
		if tc.ParseContext() != pc {
			return false, nil, errors.New("another parse context")
		}
		n, e := pc.Parser().MakeToken("name", []byte(t.Text()+l.tag))
		return false, []*parser.Token{n}, e
	}}}
}

var ownSeq atomic.Int64

func init() {
	engine.Define("C33", "a case is a random description, names of tokens, literals, nodes, and other strings, and every number around the range of token types; or 1-5 definitions of custom layers over 1-4 templates (registered, given to the parser, both, or replacing standard ones), with random commands, sometimes failing, and 1-3 parses; non-trivial: a description with side, literal, or error tokens; at least 2 definitions")
	engine.Register("C33", "queries", 48000, 320000,
		func(t *rapid.T) QueryCase {
			d := gram.GenDoc(t)
			d.Layers = nil
			c := QueryCase{LexCase: LexCase{Lex: d.Render(t, false)}}
			for n := rapid.IntRange(0, 4).Draw(t, "names"); n > 0; n-- {
				c.Names = append(c.Names, Str(rapid.SampledFrom([]string{"", "-eof-", "-eoi-", "-error-", "space", "Name", "g", "x y", "a", "'a'", "$name", "-any-"}).Draw(t, "name")))
			}
			c.Content = Str(rapid.SampledFrom([]string{"", "a", "ы\n", "\xff", "'", strings.Repeat("long ", 3000)}).Draw(t, "content"))
			return c
		},
		func(c QueryCase, r *engine.Rec) error {
			text, _ := c.text()
			g, p, e := compile(text)
			if e != nil {
				return violation("a correct description is rejected: %v\n%s", e, text)
			}
			if !reflect.DeepEqual(p.Tokens(), g.Tokens) {
				return violation("Tokens() is %v, the grammar has %v\n%s", p.Tokens(), g.Tokens, text)
			}
			types := map[string]int{parser.EofToken: lexer.EofTokenType, parser.EoiToken: lexer.EoiTokenType}
			plain := 0
			for i, t := range g.Tokens {
				if t.Flags&(grammar.LiteralToken|grammar.ErrorToken) == 0 {
					types[t.Name] = i
					plain++
				}
			}
			r.TrivialIf(plain == len(g.Tokens))
			for tt := -8; tt < len(g.Tokens)+3; tt++ {
				in := tt >= 0 && tt < len(g.Tokens)
				special := tt == lexer.EofTokenType || tt == lexer.EoiTokenType
				side := in && g.Tokens[tt].Flags&grammar.SideToken != 0
				if p.IsSideType(tt) != side {
					return violation("IsSideType(%d) is %v\n%s", tt, !side, text)
				}
				if p.IsSpecialType(tt) != special {
					return violation("IsSpecialType(%d) is %v\n%s", tt, !special, text)
				}
				if in && g.Tokens[tt].Flags&(grammar.LiteralToken|grammar.ErrorToken) != 0 {
					continue
				}
				if p.IsValidType(tt) != (in || special) {
					return violation("IsValidType(%d) is %v\n%s", tt, !(in || special), text)
				}
			}
			// special tokens
			src := source.New("src", []byte(c.Content))
			for _, x := range []struct {
				t      *parser.Token
				typ    int
				name   string
				source *source.Source
				pos    int
			}{{lexer.EofToken(nil), lexer.EofTokenType, parser.EofToken, nil, 0}, {lexer.EofToken(src), lexer.EofTokenType, parser.EofToken, src, len(c.Content)},
				{lexer.EoiToken(), lexer.EoiTokenType, parser.EoiToken, nil, 0}} {
				if x.t.Type() != x.typ || x.t.TypeName() != x.name || len(x.t.Content()) != 0 || x.t.Text() != "" || x.t.Source() != x.source || x.t.Pos().Pos() != x.pos {
					return violation("special token %s is type %d %q at %v:%d", x.name, x.t.Type(), x.t.TypeName(), x.t.Source(), x.t.Pos().Pos())
				}
			}
			names := map[string]bool{}
			for _, x := range c.Names {
				names[string(x)] = true
			}
			for _, t := range g.Tokens {
				names[t.Name] = true
				names["$"+t.Name] = true
			}
			for _, n := range g.Nodes {
				names[n.Name] = true
			}
			for n := range names {
				if n == parser.AnyToken {
					continue
				}
				tt, valid := p.TokenType(n)
				want, has := types[n]
				if valid != has || valid && tt != want {
					return violation("TokenType(%q) is %d, %v, expected %d, %v\n%s", n, tt, valid, want, has, text)
				}
				tok, e := p.MakeToken(n, []byte(c.Content))
				if !has {
					if errCode(e) != parser.UnknownTokenTypeError {
						return violation("MakeToken(%q) for an unknown type returns %v, %v\n%s", n, tok, e, text)
					}
					continue
				}
				if e != nil {
					return violation("MakeToken(%q) fails: %v\n%s", n, e, text)
				}
				l, col := tok.LineCol()
				if tok.Type() != want || tok.TypeName() != n || tok.Text() != string(c.Content) || string(tok.Content()) != string(c.Content) ||
					tok.Source() != nil || tok.SourceName() != "" || l != 0 || col != 0 {
					return violation("MakeToken(%q, %q) makes %d %q %q at %q %d:%d", n, c.Content, tok.Type(), tok.TypeName(), tok.Text(), tok.SourceName(), l, col)
				}
			}
			return nil
		})

	engine.Register("C33", "layers", 120000, 1200000,
		func(t *rapid.T) OwnLayerCase {
			var c OwnLayerCase
			for n := rapid.IntRange(1, 4).Draw(t, "templates"); n > 0; n-- {
				c.Tpls = append(c.Tpls, rapid.SampledFrom([]string{"registered", "option", "both", "standard"}).Draw(t, "template"))
			}
			for n := rapid.IntRange(1, 5).Draw(t, "definitions"); n > 0; n-- {
				d := OwnLayerDef{Tpl: rapid.IntRange(0, len(c.Tpls)-1).Draw(t, "of")}
				for k := rapid.IntRange(1, 4).Draw(t, "commands"); k > 0; k-- {
					cmd := Cmd{Name: rapid.SampledFrom([]string{"do", "do", "x-y", "input-type", "_", "A1"}).Draw(t, "command")}
					for a := rapid.IntRange(0, 3).Draw(t, "args"); a > 0; a-- {
						cmd.Args = append(cmd.Args, Str(rapid.SampledFrom([]string{"name", "a", "", "\n", "it's", "\"", "\\", "a b", "ы", "op", "$name"}).Draw(t, "arg")))
					}
					d.Cmds = append(d.Cmds, cmd)
				}
				c.Defs = append(c.Defs, d)
			}
			if gram.Chance(t, 20, "fail") {
				c.FailAt = rapid.IntRange(1, len(c.Defs)).Draw(t, "failAt")
			}
			c.Again = rapid.Bool().Draw(t, "again")
			c.Parses = rapid.IntRange(1, 3).Draw(t, "parses")
			c.Src = Str(rapid.SampledFrom([]string{"a", "a+b", "", "+", "ab+c+d"}).Draw(t, "src"))
			return c
		},
		func(c OwnLayerCase, r *engine.Rec) error {
			r.TrivialIf(len(c.Defs) < 2)
			r.ClassIf(c.FailAt > 0, "setup fails")
			var made, wrong []*ownLayer
			failure := errors.New("setup failure")
			fail := func(i int) error {
				if i == c.FailAt {
					return failure
				}
				return nil
			}
			seq := ownSeq.Add(1)
			opts := map[string]parser.HookLayerTemplate{}
			names := make([]string, len(c.Tpls))
			for i, k := range c.Tpls {
				names[i] = fmt.Sprintf("own-%d-%d-%d", os.Getpid(), seq, i)
				good := &ownTpl{fmt.Sprint(i), &made, fail}
				bad := &ownTpl{"?", &wrong, func(int) error { return nil }}
				reg := func(tpl parser.HookLayerTemplate) error {
					e := parser.RegisterHookLayer(names[i], tpl)
					if e != nil {
						return violation("cannot register a new layer template: %v", e)
					}
					if c.Again {
						e = parser.RegisterHookLayer(names[i], bad)
						if errCode(e) != parser.LayerRegisteredError {
							return violation("registering a layer template again: %v", e)
						}
					}
					return nil
				}
				var e error
				switch k {
				case "registered":
					e = reg(good)
				case "option":
					opts[names[i]] = good
				case "both":
					e = reg(bad)
					opts[names[i]] = good
				case "standard":
					names[i] = []string{"indent", "convert", "restrict"}[i%3]
					if old, has := opts[names[i]]; has {
						good = old.(*ownTpl)
					}
					opts[names[i]] = good
				}
				if e != nil {
					return e
				}
			}
			desc := "$name = /[a-z]+/; $op = /\\+/; "
			var want []string
			for _, d := range c.Defs {
				desc += layerText(names[d.Tpl], d.Cmds)
				var cmds []grammar.LayerCommand
				for _, x := range d.Cmds {
					lc := grammar.LayerCommand{Command: x.Name}
					for _, a := range x.Args {
						lc.Arguments = append(lc.Arguments, string(a))
					}
					cmds = append(cmds, lc)
				}
				tag := fmt.Sprint(d.Tpl)
				if c.Tpls[d.Tpl] == "standard" {
					tag = opts[names[d.Tpl]].(*ownTpl).tag
				}
				want = append(want, fmt.Sprintf("%s %q", tag, cmds))
			}
			desc += "g = {$name | $op};\n"
			g, e := langdef.ParseString("grammar", desc)
			if e != nil {
				return violation("a correct description is rejected: %v\n%s", e, desc)
			}
			p, e := parser.New(g, parser.WithLayerTemplates(opts))
			var got []string
			for _, l := range made {
				got = append(got, fmt.Sprintf("%s %q", l.tag, l.cmds))
				if !l.has || l.typ != 0 {
					return violation("TokenType(name) is %d, %v during setup", l.typ, l.has)
				}
			}
			if len(wrong) > 0 {
				return violation("a wrong template is used\n%s", desc)
			}
			if c.FailAt > 0 {
				if !errors.Is(e, failure) {
					return violation("setup #%d fails, the parser is made with error %v\n%s", c.FailAt, e, desc)
				}
				want = want[:min(len(want), max(c.FailAt, len(got)))]
				if fmt.Sprint(got) != fmt.Sprint(want) {
					return violation("layers are set up with %s\nexpected %s\n%s", got, want, desc)
				}
				return nil
			}
			if e != nil {
				return violation("cannot make a parser: %v\n%s", e, desc)
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return violation("layers are set up with %s\nexpected %s\n%s", got, want, desc)
			}
			tags := ""
			for _, l := range made {
				tags += l.tag
				if l.p != p {
					return violation("setup of layer %s gets another parser\n%s", l.tag, desc)
				}
				if len(l.inits) != 0 {
					return violation("layer %s is started without parsing\n%s", l.tag, desc)
				}
			}
			var words []string
			for _, w := range strings.SplitAfter(string(c.Src), "+") {
				if x := strings.TrimSuffix(w, "+"); x != "" {
					words = append(words, x+tags)
				}
				if strings.HasSuffix(w, "+") {
					words = append(words, "+")
				}
			}
			for n := 1; n <= c.Parses; n++ {
				q := source.NewQueue().Append(source.New("src", []byte(c.Src)))
				tree, _, e := parseTree(p, q, 4000)
				if e != nil {
					return violation("parsing %q fails: %v\n%s", c.Src, e, desc)
				}
				var texts []string
				for _, t := range tree.Leaves() {
					texts = append(texts, t.Text)
				}
				if fmt.Sprintf("%q", texts) != fmt.Sprintf("%q", words) {
					return violation("parsing %q makes tokens %q, expected %q\n%s", c.Src, texts, words, desc)
				}
				for i, l := range made {
					if len(l.inits) != n {
						return violation("layer #%d is started %d times in %d parses\n%s", i, len(l.inits), n, desc)
					}
					pc := l.inits[n-1]
					if pc.Parser() != p || pc.Sources() != q {
						return violation("layer #%d gets a wrong parser or sources\n%s", i, desc)
					}
				}
			}
			return nil
		})
}
