package props

import (
	goparser "go/parser"
	"go/token"
	"path/filepath"
	"strings"
	"sync"

	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

// selfDefinition is the known definition of the description language in itself.
const selfDefinition = `
$$name = /[a-zA-Z_][a-zA-Z_0-9-]*/;

$space = /[ \r\n\t\f]+/; $comment = /#[^\n]*(?:\n|$)/;
$string = /(?:"(?:[^\\"]|\\.)*")|(?:'.*?')/;
$name = name;
$dir-name = /![a-z]+/;
$template-name = /\$\$/ name;
$token-name = /\$(?:/ name /)?/;
$regexp = /\/(?:[^\\\/]|\\.)+\//;
$op = /[(){}\[\]=|,;@]/;
$error = /["'!].{0,10}/;

!side $space $comment; !error $error;

# the first node is the root one
# no token definitions nor directives allowed after the first node
langdef = {directive | template-definition | token-definition | layer-definition},
          node-definition, {node-definition | layer-definition};
directive = $dir-name, {$token-name | $string}, ';';
template-definition = $template-name, '=', $regexp | $name, {$regexp | $name}, ';';
token-definition = $token-name, '=', $regexp | $name, {$regexp | $name}, ';';
layer-definition = '@', $name, {layer-command}, ';';
layer-command = $name, '(', [$name | $string, {',', $name | $string}], ')';
node-definition = $name, '=', sequence, ';';
sequence = item, {',', item};
item = variant, {'|', variant}; # NB!: foo | bar, baz is equal to (foo|bar), baz
variant = $name | $token-name | $string | group | optional | repeat;
group = '(', sequence, ')';
optional = '[', sequence, ']'; # match 0 or 1 time
repeat = '{', sequence, '}';   # match 0 or more times
`

// documented returns the self-definition as it is documented now, or the known one if there is no such thing
// in the documentation of the package.
func documented() string {
	files, _ := filepath.Glob("/repo/langdef/*.go")
	for _, n := range files {
		f, e := goparser.ParseFile(token.NewFileSet(), n, nil, goparser.ParseComments|goparser.PackageClauseOnly)
		if e != nil {
			continue
		}
		var text strings.Builder
		for _, g := range f.Comments {
			text.WriteString(g.Text())
		}
		ls := strings.Split(text.String(), "\n")
		first, last := -1, -1
		for i, l := range ls {
			l = strings.TrimSpace(l)
			if first < 0 && strings.HasPrefix(l, "$$name") {
				first = i
			}
			if first >= 0 && last < 0 && strings.HasPrefix(l, "repeat =") {
				last = i
			}
		}
		if last > 0 {
			return strings.Join(ls[first:last+1], "\n") + "\n"
		}
	}
	return selfDefinition
}

var selfParser = sync.OnceValues(func() (*parser.Parser, error) {
	_, p, e := compile(documented())
	return p, e
})

func checkSelf(c TextCase, r *engine.Rec) error {
	text := string(c.Text)
	if strings.Contains(text, "\\\n") {
		// langdef takes no line breaks after backslashes, the self-definition does not tell that
		r.Trivial()
		r.Class("outside of the domain: a backslash before a line break")
		return nil
	}
	p, e := selfParser()
	if e != nil {
		return violation("the self-definition is rejected: %v", e)
	}
	ls, offs, _ := gram.ScanDoc(text)
	tree, toks, e1 := parseTree(p, newQueue("grammar", text), 4000+100*len(text), parser.WithFullSource())
	_, e2 := langdef.ParseString("grammar", text)
	if errCode(e1) < 0 || errCode(e2) < 0 {
		return violation("unexpected errors %v, %v\n%s", e1, e2, text)
	}
	r.TrivialIf(len(ls) < 6)
	syntax := func(e error) bool {
		if errCode(e) == langdef.UnexpectedTokenError && dirArg(text, ls, offs, asLlx(e).Line, asLlx(e).Col) {
			// kinds of arguments depend on the directive, the self-definition does not tell that
			return false
		}
		switch errCode(e) {
		case langdef.UnexpectedEofError, langdef.UnexpectedTokenError, lexer.BadTokenError, lexer.WrongCharError:
			return true
		}
		return false
	}
	eoi := func(e error) bool {
		return errCode(e) == langdef.UnexpectedEofError || errCode(e) == parser.UnexpectedEoiError
	}
	if e1 == nil {
		r.Class("fits the self-definition")
		if e2 != nil && syntax(e2) {
			return violation("fits the self-definition, but gets a syntax error: %v\n%s", e2, text)
		}
		r.ClassIf(e2 == nil, "accepted")
		leaves := stripEoi(tree.Leaves())
		if len(leaves) != len(ls) || len(toks) < len(ls) {
			return violation("%d tokens, expected %d\n%s", len(leaves), len(ls), text)
		}
		for i := range ls {
			end := len(text)
			if i+1 < len(ls) {
				end = offs[i+1] - len(ls[i+1].Sep)
			} else {
				end = offs[i] + len(leaves[i].Text)
			}
			if toks[i].Pos().Pos() != offs[i] || leaves[i].Text != text[offs[i]:end] {
				return violation("token #%d is %s, expected %q at %d\n%s", i, tokStr(toks[i]), text[offs[i]:end], offs[i], text)
			}
		}
		return nil
	}
	r.Class("does not fit the self-definition")
	if e2 == nil {
		return violation("accepted, but does not fit the self-definition: %v\n%s", e1, text)
	}
	a, b := asLlx(e1), asLlx(e2)
	if !syntax(e2) {
		// something wrong before the place of the syntax error
		r.Class("both kinds of errors")
		if !eoi(e1) && b.Line > 0 && (b.Line > a.Line || b.Line == a.Line && b.Col > a.Col) {
			return violation("error %v is reported, but there is %v before it\n%s", e2, e1, text)
		}
		return nil
	}
	r.Class("syntax error")
	if eoi(e1) != eoi(e2) || !eoi(e1) && (a.Line != b.Line || a.Col != b.Col) {
		return violation("error is %v, expected %v\n%s", e2, e1, text)
	}
	return nil
}

// dirArg tells if there is an argument of a directive at the place.
func dirArg(text string, ls []gram.Lex, offs []int, line, col int) bool {
	for i := range ls {
		if l, c := runeLineCol(text, offs[i]); l != line || c != col {
			continue
		}
		for j := i; j >= 0; j-- {
			switch ls[j].K {
			case gram.LTok, gram.LStr:
			case gram.LDir:
				return j < i
			default:
				return false
			}
		}
	}
	return false
}

func genSelf(t *rapid.T) TextCase {
	if gram.Chance(t, 25, "text") {
		return genDescText(t)
	}
	ls := gram.GenDoc(t).Render(t, gram.Chance(t, 50, "wraps"))
	for i := rapid.IntRange(0, 3).Draw(t, "mutations"); i > 0; i-- {
		ls, _ = mutateLex(t, ls)
	}
	c := LexCase{Lex: ls, Tail: drawTail(t)}
	s, _ := c.text()
	return TextCase{Str(s)}
}

func init() {
	engine.Define("C36", "a case is a random correct description, one with 1-3 changes, or an arbitrary text, given both to langdef and to a parser made from the self-definition; non-trivial: at least 6 lexemes")
	engine.Register("C36", "self", 40000, 800000, genSelf, checkSelf)
}
