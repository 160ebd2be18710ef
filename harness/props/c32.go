package props

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/ava12/llx"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/parser/layers/common"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

// quotedIn returns the Go-quoted strings of a message in order.
func quotedIn(msg string) (r []string) {
	for {
		i := strings.IndexByte(msg, '"')
		if i < 0 {
			return
		}
		q, e := strconv.QuotedPrefix(msg[i:])
		if e != nil {
			return
		}
		s, _ := strconv.Unquote(q)
		r = append(r, s)
		msg = msg[i+len(q):]
	}
}

// sameText tells whether shown is the text, maybe shortened.
func sameText(shown, text string) bool {
	if shown == text {
		return true
	}
	head, cut := strings.CutSuffix(shown, "...")
	return cut && len(head) >= 3 && len(head) < len(text) && strings.HasPrefix(text, head)
}

// posSuffix checks that a message ends with the position stored in the error and returns the rest.
func posSuffix(le *llx.Error) (string, error) {
	if le.Error() != le.Message || le.Message == "" {
		return "", violation("Error() is %q, Message is %q", le.Error(), le.Message)
	}
	if le.SourceName == "" || le.Line == 0 || le.Col == 0 {
		return le.Message, nil
	}
	rest, has := strings.CutSuffix(le.Message, fmt.Sprintf(" in %s at line %d col %d", le.SourceName, le.Line, le.Col))
	if !has || rest == "" {
		return "", violation("message %q does not end with the position %s %d:%d", le.Message, le.SourceName, le.Line, le.Col)
	}
	return rest, nil
}

// ErrCase is arguments of error constructors.
type ErrCase struct {
	Code      int
	Msg       string
	Params    []string
	Name      string
	Text      Str
	Pos       int
	Type      string
	Layer, Rs string
}

func init() {
	engine.Define("C32", "a case is a grammar (LL(1) or with lookahead) and a source with a syntax error at a random place, a source with a lexical error, or arguments of the functions that make errors; non-trivial: a syntax error after at least one token, a lexical error after at least one token, a message with parameters and a position")
	engine.Register("C32", "expected", 80000, 1600000,
		func(t *rapid.T) ParseCase {
			if gram.Chance(t, 40, "choice") {
				return genChoiceCase(t, 16)
			}
			return genParseCase(t, gram.Options{MaxNodes: 6, Depth: 3, LL1: true, Eoi: true, Reserved: true}, 14, 85)
		},
		func(c ParseCase, r *engine.Rec) error {
			_, p, e := compile(c.Spec.Text())
			if e != nil {
				return violation("a correct description is rejected: %v\n%s", e, c.Spec.Text())
			}
			m := gram.Analyse(c.Spec)
			_, _, e = parseTree(p, newQueue("src", string(c.Src)), 4000+100*len(c.Toks), parser.WithFullSource())
			if e == nil {
				r.Trivial()
				return nil
			}
			le := asLlx(e)
			if le == nil {
				return violation("unexpected kind of error: %v", e)
			}
			msg, e := posSuffix(le)
			if e != nil {
				return e
			}
			at := len(c.Toks)
			if le.Code != parser.UnexpectedEoiError {
				// find the token by position
				off := scanPos(string(c.Src), le.Line, le.Col)
				for at = 0; at < len(c.Offs) && c.Offs[at] != off; at++ {
				}
				if at == len(c.Offs) {
					return violation("the error is at offset %d where no token starts: %v\n%s", off, le, c.Src)
				}
				q := quotedIn(msg)
				switch {
				case len(q) == 0 || q[0] != c.Toks[at].Type:
					return violation("the message does not name type of token %v: %s", c.Toks[at], le)
				case le.Code == parser.UnexpectedTokenError && (len(q) < 2 || !sameText(q[1], c.Toks[at].Text)):
					return violation("the message does not show text of token %v: %s", c.Toks[at], le)
				}
			}
			r.TrivialIf(at == 0)
			if le.Code == parser.RemainingSourceError {
				r.Class("extra tokens")
				return nil
			}
			if le.Code != parser.UnexpectedEoiError && le.Code != parser.UnexpectedTokenError {
				return violation("unexpected error: %v\n%s\n%s", le, c.Src, c.Spec.Text())
			}
			i := strings.LastIndex(msg, "expecting ")
			if i < 0 {
				return violation("the message does not tell what is expected: %s", le)
			}
			x := msg[i+len("expecting "):]
			terms, complete := m.Expected(c.Toks[:at])
			if at == len(c.Toks) && terms[gram.Term{K: gram.Eoi, N: ""}] {
				// something is required after the end of input
				r.Trivial()
				return nil
			}
			r.ClassIf(len(terms) > 1, "several terminals fit")
			ok := terms[gram.Term{K: gram.Lit, N: x}]
			if ok {
				r.Class("literal expected")
			} else if name, is := strings.CutPrefix(x, "$"); is && terms[gram.Term{K: gram.Tok, N: name}] {
				ok = true
				r.Class("type expected")
			} else if x == "end of input" {
				ok = (complete || terms[gram.Term{K: gram.Eoi, N: ""}]) && at < len(c.Toks)
				r.Class("end expected")
			}
			if !ok {
				return violation("token #%d of %s cannot be %q: %s\nthese fit: %v\n%s", at, gram.TokensString(c.Toks), x, le, terms, c.Spec.Text())
			}
			return nil
		})

	type LexErrCase struct {
		Src   Str // correct part
		Bad   Str
		After Str
		Name  string
	}
	const lexDesc = "!side $space; !error $bad-str; !error $bad-esc; $space = /[ \\n]+/; $name = /[a-zы]+/; $num = /[0-9]+/; " +
		"$str = /\"[^\"\\n%]*\"/; $bad-str = /\"[^\"\\n%]*/; $bad-esc = /\\\\[a-z%ы]*/;\ng = {$name | $num | $str};\n"
	engine.Register("C32", "lexical", 30000, 600000,
		func(t *rapid.T) LexErrCase {
			var c LexErrCase
			piece := rapid.SampledFrom([]string{"a ", "foo ", "1 ", "ы\n", "\"s ы\" ", " ", "\n", "\"\"\n", "12 "})
			var b strings.Builder
			for n := rapid.IntRange(0, 8).Draw(t, "n"); n > 0; n-- {
				b.WriteString(piece.Draw(t, "p"))
			}
			c.Src = Str(b.String())
			c.Bad = Str(rapid.SampledFrom([]string{"%", "é", "中", "\U0001F600", "\x00", "\t", "}", "\"abc", "\"ы\n", "\"", "\\", "\\n%d", "\\ы%s", "\"a %d\n"}).Draw(t, "bad"))
			c.After = Str(rapid.SampledFrom([]string{"", " a", "\n\"\"", "%"}).Draw(t, "after"))
			c.Name = rapid.SampledFrom([]string{"src", "a b", "%d.txt", "", "ы"}).Draw(t, "name")
			return c
		},
		func(c LexErrCase, r *engine.Rec) error {
			_, p, e := compile(lexDesc)
			if e != nil {
				return violation("a correct description is rejected: %v", e)
			}
			text := string(c.Src + c.Bad + c.After)
			_, _, e = parseTree(p, newQueue(c.Name, text), 4000, parser.WithFullSource())
			le := asLlx(e)
			if le == nil {
				return violation("result for %q is %v", text, e)
			}
			msg, e := posSuffix(le)
			if e != nil {
				return e
			}
			r.TrivialIf(len(c.Src) == 0)
			if off := scanPos(text, le.Line, le.Col); off != len(c.Src) || le.SourceName != c.Name {
				return violation("the error is at %q offset %d, expected %q offset %d: %v\n%q", le.SourceName, off, c.Name, len(c.Src), le, text)
			}
			first, _ := utf8.DecodeRuneInString(string(c.Bad))
			if first != '"' && first != '\\' {
				r.Class("wrong char")
				if le.Code != lexer.WrongCharError || !strings.Contains(msg, string(first)) || !strings.Contains(strings.ToLower(msg), fmt.Sprintf("%x", first)) {
					return violation("error for char %q is %d %s", first, le.Code, le)
				}
				return nil
			}
			// the broken token as the regular expressions define it
			bad := text[len(c.Src):]
			n := 1
			for n < len(bad) {
				x, l := utf8.DecodeRuneInString(bad[n:])
				if first == '"' && (x == '"' || x == '\n' || x == '%') || first == '\\' && !(x >= 'a' && x <= 'z' || x == '%' || x == 'ы') {
					break
				}
				n += l
			}
			r.Class("broken token")
			q := quotedIn(msg)
			if le.Code != lexer.BadTokenError || len(q) == 0 || !sameText(q[len(q)-1], bad[:n]) {
				return violation("error for broken token %q is %d %s", bad[:n], le.Code, le)
			}
			return nil
		})

	engine.Register("C32", "make", 30000, 600000,
		func(t *rapid.T) ErrCase {
			str := rapid.SampledFrom([]string{"", "src", "a b", "100%", "%d", "%s %v", "ы中", "\"q\"", "x\ny", "expecting", "a long text of words"})
			c := ErrCase{Code: rapid.IntRange(1, 999).Draw(t, "code"), Name: str.Draw(t, "name"), Type: str.Draw(t, "type"),
				Layer: str.Draw(t, "layer"), Rs: str.Draw(t, "reason")}
			var b strings.Builder
			for n := rapid.IntRange(0, 8).Draw(t, "pieces"); n > 0; n-- {
				b.WriteString(rapid.SampledFrom([]string{"a", "ы", "\n", " ", "foo", "中", "%", "\""}).Draw(t, "piece"))
			}
			c.Text = Str(b.String())
			c.Pos = rapid.IntRange(0, len(c.Text)).Draw(t, "pos")
			for c.Pos < len(c.Text) && !utf8.RuneStart(c.Text[c.Pos]) {
				c.Pos--
			}
			c.Msg = rapid.SampledFrom([]string{"message", "100% wrong", "ы", "%d"}).Draw(t, "msg")
			if rapid.Bool().Draw(t, "params") {
				c.Msg = rapid.SampledFrom([]string{"got %q", "%s: 100%%", "<%v>"}).Draw(t, "format")
				c.Params = []string{str.Draw(t, "param")}
			}
			return c
		},
		func(c ErrCase, r *engine.Rec) error {
			want := c.Msg
			var params []any
			if len(c.Params) > 0 {
				for _, x := range c.Params {
					params = append(params, x)
				}
				want = fmt.Sprintf(c.Msg, params...)
			}
			same := func(what string, le *llx.Error, code int, msg, name string, line, col int) error {
				if le.Code != code || le.SourceName != name || le.Line != line || le.Col != col {
					return violation("%s: error has code %d, position %q %d:%d, expected %d, %q %d:%d", what, le.Code, le.SourceName, le.Line, le.Col, code, name, line, col)
				}
				got, e := posSuffix(le)
				if e != nil {
					return e
				}
				if got != msg {
					return violation("%s: message is %q, expected %q", what, got, msg)
				}
				var er error = le
				if er.Error() != le.Message {
					return violation("%s: Error() is %q", what, er.Error())
				}
				return nil
			}
			r.TrivialIf(len(c.Params) == 0 || c.Name == "")
			if e := same("FormatError", llx.FormatError(c.Code, c.Msg, params...), c.Code, want, "", 0, 0); e != nil {
				return e
			}
			src := source.New(c.Name, []byte(c.Text))
			line, col := lineCol(string(c.Text), c.Pos)
			if e := same("NewError", llx.NewError(c.Code, want, c.Name, line, col), c.Code, want, c.Name, line, col); e != nil {
				return e
			}
			pos := source.NewPos(src, c.Pos)
			if e := same("FormatErrorPos", llx.FormatErrorPos(pos, c.Code, c.Msg, params...), c.Code, want, c.Name, line, col); e != nil {
				return e
			}
			tok := lexer.NewToken(3, c.Type, []byte(c.Text), pos)
			if e := same("FormatErrorPos(token)", llx.FormatErrorPos(tok, c.Code, c.Msg, params...), c.Code, want, c.Name, line, col); e != nil {
				return e
			}
			free := lexer.NewToken(3, c.Type, []byte(c.Text), source.NewPos(nil, 0))
			if e := same("FormatErrorPos(made token)", llx.FormatErrorPos(free, c.Code, c.Msg, params...), c.Code, want, "", 0, 0); e != nil {
				return e
			}
			// errors of layers
			le := common.MakeWrongTokenError(c.Layer, tok, c.Rs)
			msg, e := posSuffix(le)
			if e != nil {
				return e
			}
			if e = same("MakeWrongTokenError", le, common.WrongTokenError, msg, c.Name, line, col); e != nil {
				return e
			}
			shown := false
			for _, q := range quotedIn(strings.Replace(msg, c.Type, "", 1)) {
				shown = shown || sameText(q, string(c.Text))
			}
			if !shown && utf8.ValidString(string(c.Text)) && len(c.Text) <= 10 && !strings.Contains(c.Type+c.Rs, "\"") {
				return violation("message %q does not show the token %q", msg, c.Text)
			}
			for _, x := range []string{c.Type, c.Rs} {
				if !strings.Contains(msg, x) && !strings.Contains(msg, strconv.Quote(x)) {
					return violation("message %q does not contain %q", msg, x)
				}
			}
			type made struct {
				e    *llx.Error
				code int
				has  []string
			}
			for _, x := range []made{
				{common.MakeUnknownCommandError(c.Layer, c.Type), common.UnknownCommandError, []string{c.Layer, c.Type}},
				{common.MakeMissingCommandError(c.Layer, c.Type), common.MissingCommandError, []string{c.Layer, c.Type}},
				{common.MakeNumberOfArgumentsError(c.Layer, c.Type, 17, c.Code+20), common.NumberOfArgumentsError, []string{c.Layer, c.Type, "17", fmt.Sprint(c.Code + 20)}},
				{common.MakeInvalidArgumentError(c.Layer, c.Type, c.Name, c.Rs), common.InvalidArgumentError, []string{c.Layer, c.Type, c.Name, c.Rs}},
				{common.MakeCommandAlreadyUsedError(c.Layer, c.Type), common.CommandAlreadyUsedError, []string{c.Layer, c.Type}},
				{common.MakeUnknownTokenTypeError(c.Layer, c.Type, c.Name), common.UnknownTokenTypeError, []string{c.Layer, c.Type, c.Name}},
			} {
				if e := same("layer error", x.e, x.code, x.e.Message, "", 0, 0); e != nil {
					return e
				}
				for _, h := range x.has {
					if !strings.Contains(x.e.Message, h) && !strings.Contains(x.e.Message, strconv.Quote(h)) {
						return violation("message %q does not contain %q", x.e.Message, h)
					}
				}
			}
			return nil
		})
}
