package props

import (
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

// runeLineCol is the line and the rune number of an offset, found by definition.
func runeLineCol(text string, off int) (int, int) {
	before := text[:off]
	start := strings.LastIndexByte(before, '\n') + 1
	return strings.Count(before, "\n") + 1, utf8.RuneCountInString(before[start:]) + 1
}

// keptSources lists indexes of sources that are not dropped when appended in order.
func keptSources(sources []Str) []int {
	var r []int
	for i, s := range sources {
		if len(s) > 0 {
			r = append(r, i)
		}
	}
	if len(r) == 0 && len(sources) > 0 {
		return []int{len(sources) - 1}
	}
	return r
}

// AltGroup is a capturing group of an alternative.
type AltGroup struct {
	Re  string
	Opt bool `json:",omitempty"`
}

// LexAlt is an alternative of a lexer expression: text before, capturing groups, text after.
type LexAlt struct {
	Pre    string     `json:",omitempty"`
	Groups []AltGroup `json:",omitempty"`
	Post   string     `json:",omitempty"`
}

func (a LexAlt) re() string {
	var b strings.Builder
	b.WriteString(a.Pre)
	for _, g := range a.Groups {
		b.WriteString("(" + g.Re + ")")
		if g.Opt {
			b.WriteByte('?')
		}
	}
	b.WriteString(a.Post)
	return b.String()
}

// LexerCase is a lexer, sources, and a sequence of calls.
type LexerCase struct {
	Alts    []LexAlt
	Types   []int
	Sources []Str
	Calls   []LexCall
	Drain   bool // then fetch everything
	Start   int  `json:",omitempty"`
}

// LexCall is Next (All) or NextOf.
type LexCall struct {
	All  bool   `json:",omitempty"`
	Mask uint64 `json:",omitempty"`
}

type lexTok struct {
	typ      int
	name     string
	src, off int // src is -1 for end of input
	text     string
	end      int
	noPos    bool
}

// lexModel cuts sources by trying alternatives one by one.
type lexModel struct {
	c     LexerCase
	res   []*regexp.Regexp
	first []int // number of the first group
	kept  []int
	src   int // index in kept
	off   int
	mask  uint64
}

func newLexModel(c LexerCase) *lexModel {
	m := &lexModel{c: c, kept: keptSources(c.Sources)}
	g := 0
	for _, a := range c.Alts {
		m.res = append(m.res, regexp.MustCompile("^(?s:"+a.re()+")"))
		m.first = append(m.first, g)
		g += len(a.Groups)
	}
	for _, t := range c.Types {
		if t >= 0 && t < 64 {
			m.mask |= 1 << t
		}
	}
	return m
}

func (m *lexModel) text() string {
	if m.src >= len(m.kept) {
		return ""
	}
	return string(m.c.Sources[m.kept[m.src]])
}

// fetch returns a token, or an error code with place and text, or nothing.
func (m *lexModel) fetch(mask uint64) (tok *lexTok, code int, at int, what string) {
	text := m.text()
	for off := m.off; ; {
		if off >= len(text) {
			if m.src >= len(m.kept) {
				return &lexTok{typ: lexer.EoiTokenType, name: lexer.EoiTokenName, src: -1}, 0, 0, ""
			}
			if off > m.off && mask&m.mask == 0 {
				return nil, 0, 0, ""
			}
			tok = &lexTok{typ: lexer.EofTokenType, name: lexer.EofTokenName, src: m.kept[m.src], off: len(text), end: len(text)}
			m.src++
			m.off = 0
			return tok, 0, 0, ""
		}
		if mask&m.mask == 0 {
			return nil, 0, 0, ""
		}
		found := -1
		var loc []int
		for i, re := range m.res {
			if loc = re.FindStringSubmatchIndex(text[off:]); loc != nil {
				found = i
				break
			}
		}
		if found < 0 {
			return nil, lexer.WrongCharError, off, ""
		}
		captured := false
		for g := range m.c.Alts[found].Groups {
			from, to := loc[2+2*g], loc[3+2*g]
			if from < 0 {
				continue
			}
			captured = true
			n := m.first[found] + g
			piece := text[off+from : off+to]
			if n >= len(m.c.Types) || m.c.Types[n] < 0 || m.c.Types[n] > 63 {
				return nil, lexer.BadTokenError, off + from, piece
			}
			if mask&(1<<m.c.Types[n]) != 0 {
				m.off = off + loc[1]
				return &lexTok{typ: m.c.Types[n], name: fmt.Sprintf("t%d", n), src: m.kept[m.src], off: off + from, text: piece, end: m.off}, 0, 0, ""
			}
		}
		if captured {
			return nil, 0, 0, ""
		}
		off += loc[1]
	}
}

func (c LexerCase) build() (*lexer.Lexer, *source.Queue, []*source.Source, string) {
	var p []string
	for _, a := range c.Alts {
		p = append(p, a.re())
	}
	re := "^(?s:" + strings.Join(p, "|") + ")"
	var types []lexer.TokenType
	for i, t := range c.Types {
		types = append(types, lexer.TokenType{Type: t, TypeName: fmt.Sprintf("t%d", i)})
	}
	q := source.NewQueue()
	srcs := make([]*source.Source, len(c.Sources))
	for i, s := range c.Sources {
		srcs[i] = source.New(fmt.Sprintf("src%d", i), []byte(s))
		q.Append(srcs[i])
	}
	return lexer.New(regexp.MustCompile(re), types), q, srcs, re
}

func checkLexTok(t *lexer.Token, want *lexTok, c LexerCase, srcs []*source.Source) string {
	if t.Type() != want.typ || t.TypeName() != want.name || t.Text() != want.text || string(t.Content()) != want.text {
		return fmt.Sprintf("token %d %q %q, expected %d %q %q", t.Type(), t.TypeName(), t.Text(), want.typ, want.name, want.text)
	}
	line, col := t.LineCol()
	if want.src < 0 {
		if t.Source() != nil || line != 0 || col != 0 || t.SourceName() != "" {
			return fmt.Sprintf("end of input token has a place: %q line %d col %d", t.SourceName(), line, col)
		}
		return ""
	}
	wl, wc := runeLineCol(string(c.Sources[want.src]), want.off)
	if t.Source() != srcs[want.src] || t.SourceName() != fmt.Sprintf("src%d", want.src) || t.Pos().Pos() != want.off || line != wl || col != wc {
		return fmt.Sprintf("token %q %q has place %s offset %d line %d col %d, expected src%d offset %d line %d col %d", t.TypeName(), t.Text(), t.SourceName(), t.Pos().Pos(), line, col, want.src, want.off, wl, wc)
	}
	if want.end > want.off && want.text != string(c.Sources[want.src][want.off:want.off+len(want.text)]) {
		return "model"
	}
	return ""
}

func checkLexer(c LexerCase, r *engine.Rec) error {
	l, q, srcs, re := c.build()
	m := newLexModel(c)
	if c.Start > 0 {
		q.Seek(c.Start)
		m.off = min(c.Start, len(m.text()))
	}
	where := func() string {
		return fmt.Sprintf("source %d offset %d of %q, expression %s, types %v", m.src, m.off, m.text(), re, c.Types)
	}
	calls := c.Calls
	drained := 0
	for i := 0; ; i++ {
		var call LexCall
		if i < len(calls) {
			call = calls[i]
		} else if !c.Drain || drained >= 3 {
			break
		} else {
			call.All = true
		}
		mask := call.Mask
		if call.All {
			mask = lexer.AllTokenTypes
		}
		at := where()
		// a lexer without types is asked anyway if everything is requested
		var want *lexTok
		var code, errAt int
		var what string
		if call.All {
			saved := m.mask
			m.mask = lexer.AllTokenTypes
			want, code, errAt, what = m.fetch(mask)
			m.mask = saved
		} else {
			want, code, errAt, what = m.fetch(mask)
		}
		var t *lexer.Token
		var e error
		name := "Next"
		if call.All {
			t, e = l.Next(q)
		} else {
			name = fmt.Sprintf("NextOf(%x)", mask)
			t, e = l.NextOf(q, mask)
		}
		switch {
		case code != 0:
			r.Class(map[int]string{lexer.WrongCharError: "wrong char", lexer.BadTokenError: "bad token"}[code])
			le := asLlx(e)
			if t != nil || le == nil || le.Code != code {
				return violation("%s at %s: got %v, %v, expected error %d at offset %d", name, at, tokText(t), e, code, errAt)
			}
			line, col := runeLineCol(m.text(), errAt)
			if le.SourceName != fmt.Sprintf("src%d", m.kept[m.src]) || le.Line != line || le.Col != col {
				return violation("%s at %s: error is at %s line %d col %d, expected line %d col %d: %v", name, at, le.SourceName, le.Line, le.Col, line, col, e)
			}
			exp := fmt.Sprintf("%q", what)
			if code == lexer.WrongCharError {
				ch, _ := utf8.DecodeRuneInString(m.text()[errAt:])
				exp = fmt.Sprintf("%c", ch)
				if !strings.Contains(strings.ToLower(le.Message), fmt.Sprintf("u+%x", ch)) {
					return violation("%s at %s: message has no code of %q: %q", name, at, exp, le.Message)
				}
			}
			if !strings.Contains(le.Message, exp) {
				return violation("%s at %s: message has no %s: %q", name, at, exp, le.Message)
			}
		case want == nil:
			r.Class("no token")
			if t != nil || e != nil {
				return violation("%s at %s: got %v, %v, expected no token", name, at, tokText(t), e)
			}
		default:
			if t == nil || e != nil {
				return violation("%s at %s: got %v, %v, expected %q %q", name, at, tokText(t), e, want.name, want.text)
			}
			if s := checkLexTok(t, want, c, srcs); s != "" {
				return violation("%s at %s: %s", name, at, s)
			}
			r.Count("tokens", 1)
		}
		// place in the queue
		if m.src >= len(m.kept) {
			if !q.IsEmpty() {
				return violation("%s at %s: the queue is not empty after the last end of file", name, at)
			}
		} else if q.Source() != srcs[m.kept[m.src]] || q.Pos() != m.off {
			return violation("%s at %s: position becomes %s:%d, expected src%d:%d", name, at, q.SourceName(), q.Pos(), m.kept[m.src], m.off)
		}
		if i >= len(calls) {
			if code != 0 {
				break
			}
			if want.src < 0 {
				drained++
			}
		}
	}
	return nil
}

func tokText(t *lexer.Token) string {
	if t == nil {
		return "no token"
	}
	return fmt.Sprintf("%q %q", t.TypeName(), t.Text())
}

// nonEmptyRes never match an empty text.
var lexRes = []string{
	`a`, `b`, `ab`, `a+`, `a+?`, `[ab]+`, `a*b`, `b|ab`, `a|ab`, `ab|a`, `a(?:bc)?`, `.`, `\n`, ` +`, `\s+`, `[^a]`, `[^a \n]+`, `(?i:AB?)`, `[a-c]{2}`, `[a-c]{1,3}?`,
	`\x00`, `[\x00-\x1f]+`, `\x{fffd}`, `(?i:k)`, `[^\x00]`,
	`é`, `[\x{80}-\x{10ffff}]+`, `c.`, `c(?-s:.*)\n`, `\d+`, `\d`, `\w+`, `[[:punct:]]`, `-?\d+`, `-`, `"[^"]*"`, `"`, `\pL+`,
}

func genLexSources(t *rapid.T) []Str {
	pieces := []string{"a", "b", "c", "ab", "abc", "aab", " ", "\n", "1", "-1", "A", "é", "中", "\"", "\"a\"", "\xff", "\r\n", "#", "bb", "  \n", "\U0001F600"}
	odd := []string{"\x00", "\x01", "\x7f", "\r", "\t", "\v", "\f", "\u0085", "\u00a0", "\u2028", "\ufeff", "\ufffd", "\ufffe", "\U0010ffff", "\u0301", "\u202e", "\xc3", "\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xf0\x9f", "%", "%d", "\\", "'", "ſ", "K", "İ", "\x1a", "\x1b"}
	if gram.Chance(t, 40, "oddPieces") {
		for i := 0; i < 5; i++ {
			pieces = append(pieces, rapid.SampledFrom(odd).Draw(t, "oddPiece"))
		}
		pieces = append(pieces, string(rapid.Rune().Draw(t, "oddRune")))
	}
	var r []Str
	for n := rapid.IntRange(0, gram.Scale(t, 3, 10)).Draw(t, "sources"); n > 0; n-- {
		var b strings.Builder
		for k := rapid.IntRange(0, gram.Scale(t, 8, 40)).Draw(t, "pieces"); k > 0; k-- {
			b.WriteString(rapid.SampledFrom(pieces).Draw(t, "piece"))
		}
		r = append(r, Str(b.String()))
	}
	return r
}

func genLexer(t *rapid.T, clean bool) LexerCase {
	c := LexerCase{Drain: gram.Chance(t, 70, "drain")}
	groups := 0
	hasInner := func(s string) bool { return strings.Contains(s, "|") }
	re := func(l string) string {
		s := rapid.SampledFrom(lexRes).Draw(t, l)
		if hasInner(s) {
			s = "(?:" + s + ")"
		}
		return s
	}
	for n := rapid.IntRange(1, gram.Scale(t, 7, 10)).Draw(t, "alts"); n > 0; n-- {
		var a LexAlt
		switch rapid.IntRange(0, 9).Draw(t, "altKind") {
		case 0, 1: // insignificant
			a.Pre = re("re")
		case 2: // text around
			if rapid.Bool().Draw(t, "hasPre") {
				a.Pre = re("pre")
			}
			a.Groups = []AltGroup{{Re: rapid.SampledFrom(lexRes).Draw(t, "re")}}
			if rapid.Bool().Draw(t, "hasPost") {
				a.Post = re("post")
			}
		case 3: // optional group
			a.Pre = re("pre")
			a.Groups = []AltGroup{{Re: rapid.SampledFrom(lexRes).Draw(t, "re"), Opt: true}}
		case 4: // two groups
			a.Groups = []AltGroup{{Re: rapid.SampledFrom(lexRes).Draw(t, "re"), Opt: rapid.Bool().Draw(t, "opt")}, {Re: rapid.SampledFrom(lexRes).Draw(t, "re2")}}
		default:
			a.Groups = []AltGroup{{Re: rapid.SampledFrom(lexRes).Draw(t, "re")}}
		}
		groups += len(a.Groups)
		c.Alts = append(c.Alts, a)
	}
	if clean || gram.Chance(t, 50, "catchAll") {
		c.Alts = append(c.Alts, LexAlt{Groups: []AltGroup{{Re: "."}}})
		groups++
	}
	for i := 0; i < groups; i++ {
		if !clean && gram.Chance(t, 6, "undescribed") {
			break
		}
		ty := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 7, 31, 32, 62, 63}).Draw(t, "type")
		if !clean && gram.Chance(t, 12, "errType") {
			ty = rapid.SampledFrom([]int{-1, -2, -3, -4, -100, 64, 65, 1000, lexer.ErrorTokenType}).Draw(t, "wrongType")
		}
		c.Types = append(c.Types, ty)
	}
	c.Sources = genLexSources(t)
	masks := []uint64{0, 1, 2, 4, 8, 3, 5, 0xff, 0xf0, 1 << 31, 1 << 32, 1 << 62, 1 << 63, 1<<63 | 1, lexer.AllTokenTypes, lexer.AllTokenTypes - 1, 0xaaaaaaaaaaaaaaaa}
	for n := rapid.IntRange(0, gram.Scale(t, 12, 10)).Draw(t, "calls"); n > 0; n-- {
		if gram.Chance(t, 30, "next") {
			c.Calls = append(c.Calls, LexCall{All: true})
		} else {
			c.Calls = append(c.Calls, LexCall{Mask: rapid.SampledFrom(masks).Draw(t, "mask")})
		}
	}
	if gram.Chance(t, 15, "start") {
		c.Start = rapid.IntRange(1, 10).Draw(t, "startAt")
	}
	return c
}

// TileCase is a sentence, cut into several sources between lexemes.
type TileCase struct {
	ParseCase
	Sources []Str
	Sides   bool
	Lead    bool `json:",omitempty"`
}

func genTile(t *rapid.T) TileCase {
	var c TileCase
	if gram.Chance(t, 50, "choice") {
		c.ParseCase = genChoiceCase(t, 20)
	} else {
		c.ParseCase = genParseCase(t, gram.Options{MaxNodes: 5, Depth: 3, LL1: true}, 20, 10)
	}
	c.Sides = gram.Chance(t, 75, "sides")
	// one more node that takes all the rest of the source
	root := "all-" + c.Spec.Nodes[0].Name
	c.Spec.Nodes = append([]gram.NodeDef{{Name: root, Body: gram.Seq{{{K: gram.Nod, N: c.Spec.Nodes[0].Name}}, {{K: gram.Eoi}}}}}, c.Spec.Nodes...)
	var cuts []int
	for i, off := range c.Offs {
		if gram.Chance(t, 15, "cut") {
			if rapid.Bool().Draw(t, "cutAfter") {
				off += len(c.Toks[i].Text)
			}
			cuts = append(cuts, off)
		}
	}
	prev := 0
	for _, x := range append(cuts, len(c.Src)) {
		c.Sources = append(c.Sources, c.Src[prev:x])
		prev = x
	}
	return c
}

func checkTile(c TileCase, r *engine.Rec) error {
	_, p, e := compile(c.Spec.Text())
	if e != nil {
		return violation("a correct description is rejected: %v\n%s", e, c.Spec.Text())
	}
	q := source.NewQueue()
	srcs := make([]*source.Source, len(c.Sources))
	index := map[*source.Source]int{}
	for i, s := range c.Sources {
		srcs[i] = source.New(fmt.Sprintf("src%d", i/2), []byte(s))
		index[srcs[i]] = i
		q.Append(srcs[i])
	}
	var opts []parser.ParseOption
	if c.Sides {
		opts = append(opts, parser.WithSides())
	}
	_, toks, e := parseTree(p, q, 8000, opts...)
	if e != nil {
		r.Trivial()
		r.Class("rejected")
		return unexpectedKind(e)
	}
	r.TrivialIf(len(c.Src) < 2)
	r.ClassIf(len(c.Sources) > 1, "several sources")
	side := map[string]bool{}
	for _, x := range c.Spec.Toks {
		side[x.Name] = x.Side
	}
	src, off := 0, 0
	next := 0
	hadSide := false
	for i, t := range toks {
		if t.Type() == lexer.EoiTokenType {
			if i != len(toks)-1 {
				return violation("end of input is passed before %s\n%s", tokStr(toks[i+1]), c.Spec.Text())
			}
			continue
		}
		si, known := index[t.Source()]
		if !known {
			return violation("token %s has a wrong source\n%s", tokStr(t), c.Spec.Text())
		}
		for src < si {
			if c.Sides && off < len(c.Sources[src]) {
				return violation("text %q of source %d is not passed\n%s", c.Sources[src][off:], src, c.Spec.Text())
			}
			src, off = src+1, 0
		}
		at := t.Pos().Pos()
		if si < src || at < off || c.Sides && at != off {
			return violation("token %s is passed after source %d offset %d\n%s", tokStr(t), src, off, c.Spec.Text())
		}
		text := string(c.Sources[si])
		end := at + len(t.Text())
		if end > len(text) || text[at:end] != t.Text() || string(t.Content()) != t.Text() {
			return violation("token %s is not the text at its place\n%s", tokStr(t), c.Spec.Text())
		}
		if l, cl := runeLineCol(text, at); true {
			if gl, gc := t.LineCol(); gl != l || gc != cl {
				return violation("token %s has line %d col %d, expected %d, %d\n%s", tokStr(t), gl, gc, l, cl, c.Spec.Text())
			}
		}
		off = end
		if side[t.TypeName()] {
			hadSide = true
			if !c.Sides {
				return violation("side token %s is passed\n%s", tokStr(t), c.Spec.Text())
			}
			continue
		}
		if next >= len(c.Toks) || c.Toks[next].Text != t.Text() || c.Toks[next].Type != t.TypeName() {
			return violation("token %s is passed, expected #%d of %s\n%s", tokStr(t), next, gram.TokensString(c.Toks), c.Spec.Text())
		}
		next++
	}
	r.ClassIf(hadSide, "side tokens passed")
	if next != len(c.Toks) {
		return violation("only %d tokens of %s are passed\n%s", next, gram.TokensString(c.Toks), c.Spec.Text())
	}
	if c.Sides {
		for ; src < len(c.Sources); src, off = src+1, 0 {
			if off < len(c.Sources[src]) {
				return violation("text %q of source %d is not passed\n%s", c.Sources[src][off:], src, c.Spec.Text())
			}
		}
	}
	return nil
}

func init() {
	engine.Define("C09", "lexer: a case is a random lexer (1-8 alternatives, insignificant ones, groups with text around, error and wrong types) that fetches everything from 0-3 sources; parser: a random grammar and a sentence cut into sources between lexemes, parsed with or without side tokens; non-trivial: at least 2 bytes of text")
	engine.Register("C09", "lexer", 150000, 4000000,
		func(t *rapid.T) LexerCase {
			c := genLexer(t, gram.Chance(t, 85, "clean"))
			c.Calls, c.Drain = nil, true
			return c
		},
		func(c LexerCase, r *engine.Rec) error {
			n := 0
			for _, s := range c.Sources {
				n += len(s)
			}
			r.TrivialIf(n < 2)
			return checkLexer(c, r)
		})
	engine.Register("C09", "parser", 60000, 1500000, genTile, checkTile)

	engine.Define("C10", "lexer: a case is a random lexer, 0-3 sources, and up to 12 fetches with random sets of expected types; groups: a random set of overlapping expressions distributed over 1-4 groups, error and side types among them, and a node that expects random sets of types one after another; non-trivial: at least 2 fetches (lexer) or a text of at least 2 lexemes (groups)")
	engine.Register("C10", "lexer", 150000, 4000000, func(t *rapid.T) LexerCase { return genLexer(t, false) }, func(c LexerCase, r *engine.Rec) error {
		r.TrivialIf(len(c.Calls) < 2 && !c.Drain)
		return checkLexer(c, r)
	})
	engine.Register("C10", "groups", 100000, 3000000, genGroups, checkGroups)
}

// ExpItem is a part of the node: types, any of which may be here.
type ExpItem struct {
	Kind  string // "", opt, rep
	Types []int
}

// GroupCase is a set of types in groups and a sequence of expected types.
type GroupCase struct {
	Toks    []gram.TokDef
	Items   []ExpItem
	Sources []Str
	Full    bool
}

func (c GroupCase) desc() string {
	s := gram.Spec{Toks: c.Toks}
	var body gram.Seq
	for _, it := range c.Items {
		var item gram.Item
		for _, x := range it.Types {
			item = append(item, gram.Atom{K: gram.Tok, N: c.Toks[x].Name})
		}
		if it.Kind != "" {
			item = gram.Item{{K: it.Kind, S: gram.Seq{item}}}
		}
		body = append(body, item)
	}
	s.Nodes = []gram.NodeDef{{Name: "g", Body: body}}
	return s.Text()
}

func genGroups(t *rapid.T) GroupCase {
	var c GroupCase
	groups := rapid.SampledFrom([]int{1, 2, 2, 3, 4}).Draw(t, "groups")
	n := rapid.IntRange(2, 9).Draw(t, "types")
	if gram.Chance(t, 5, "many") {
		n = rapid.IntRange(10, 61).Draw(t, "manyTypes")
	}
	var plain []int
	for i := 0; i < n; i++ {
		d := gram.TokDef{Name: fmt.Sprintf("t%d", i), Re: rapid.SampledFrom(lexRes).Draw(t, "re"), Group: rapid.IntRange(0, groups-1).Draw(t, "group")}
		switch rapid.IntRange(0, 9).Draw(t, "typeKind") {
		case 0:
			d.Err = true
		case 1, 2:
			d.Side = true
		default:
			plain = append(plain, i)
		}
		c.Toks = append(c.Toks, d)
	}
	if len(plain) == 0 {
		c.Toks[0].Err, c.Toks[0].Side = false, false
		plain = append(plain, 0)
	}
	s := &gram.Spec{Toks: c.Toks}
	closeGroups(s)
	used := map[int]bool{}
	for k := rapid.IntRange(1, 6).Draw(t, "items"); k > 0; k-- {
		it := ExpItem{Kind: rapid.SampledFrom([]string{"", "", gram.Opt, gram.Rep}).Draw(t, "itemKind")}
		for v := rapid.IntRange(1, 4).Draw(t, "variants"); v > 0; v-- {
			x := rapid.SampledFrom(plain).Draw(t, "variant")
			if !used[x] {
				used[x] = true
				it.Types = append(it.Types, x)
			}
		}
		if it.Types == nil {
			continue
		}
		c.Items = append(c.Items, it)
		if it.Kind == "" {
			used = map[int]bool{}
		}
	}
	if len(c.Items) == 0 || c.Items[len(c.Items)-1].Kind != "" {
		for _, x := range plain {
			if !used[x] {
				c.Items = append(c.Items, ExpItem{Types: []int{x}})
				break
			}
		}
	}
	for len(c.Items) == 0 || c.Items[len(c.Items)-1].Kind != "" {
		if len(c.Items) == 0 {
			c.Items = []ExpItem{{Types: plain[:1]}}
			break
		}
		c.Items[len(c.Items)-1].Kind = ""
	}
	c.Sources = genLexSources(t)
	c.Full = gram.Chance(t, 30, "full")
	return c
}

type groupModel struct {
	c    GroupCase
	res  []*regexp.Regexp
	mask []map[int]bool // types that lexers of groups may return
	kept []int
	src  int
	off  int
}

// try tries groups one after another; nil set means all the types.
func (m *groupModel) try(set map[int]bool) (typ int, text string, code int, what string) {
	src := string(m.c.Sources[m.kept[m.src]])[m.off:]
	for g := range m.mask {
		if set != nil {
			any := false
			for x := range m.mask[g] {
				any = any || set[x]
			}
			if !any {
				continue
			}
		} else if len(m.mask[g]) == 0 {
			continue
		}
		found := -1
		for i, d := range m.c.Toks {
			if d.Group == g {
				if loc := m.res[i].FindStringIndex(src); loc != nil {
					found, text = i, src[:loc[1]]
					break
				}
			}
		}
		switch {
		case found < 0:
			if code == 0 {
				code = lexer.WrongCharError
				ch, _ := utf8.DecodeRuneInString(src)
				what = fmt.Sprintf("%c", ch)
			}
		case m.c.Toks[found].Err:
			if code == 0 {
				code = lexer.BadTokenError
				what = fmt.Sprintf("%q", text)
			}
		case set == nil || set[found]:
			return found, text, 0, ""
		}
	}
	return -1, "", code, what
}

func checkGroups(c GroupCase, r *engine.Rec) error {
	desc := c.desc()
	_, p, e := compile(desc)
	if e != nil {
		return violation("a correct description is rejected: %v\n%s", e, desc)
	}
	m := &groupModel{c: c, kept: keptSources(c.Sources)}
	side := map[int]bool{}
	for i, d := range c.Toks {
		m.res = append(m.res, regexp.MustCompile("^(?s:"+d.Re+")"))
		for len(m.mask) <= d.Group {
			m.mask = append(m.mask, map[int]bool{})
		}
		if !d.Err {
			m.mask[d.Group][i] = true
		}
		side[i] = d.Side
	}
	var want []string
	wantCode, wantWhat, wantType := 0, "", ""
	item := 0
	lexemes := 0
loop:
	for item < len(c.Items) {
		set := map[int]bool{}
		for i := item; i < len(c.Items); i++ {
			for _, x := range c.Items[i].Types {
				set[x] = true
			}
			if c.Items[i].Kind == "" {
				break
			}
		}
		for i := range c.Toks {
			if side[i] {
				set[i] = true
			}
		}
		for m.src < len(m.kept) && m.off >= len(c.Sources[m.kept[m.src]]) {
			m.src, m.off = m.src+1, 0
		}
		if m.src >= len(m.kept) {
			wantCode = parser.UnexpectedEoiError
			break
		}
		ty, text, code, what := m.try(set)
		if ty < 0 {
			ty, text, code, what = m.try(nil)
			if code != 0 {
				wantCode, wantWhat = code, what
			} else {
				wantCode, wantType = parser.UnexpectedTokenError, c.Toks[ty].Name
			}
			break
		}
		lexemes++
		m.off += len(text)
		if side[ty] {
			continue
		}
		want = append(want, fmt.Sprintf("%s %q", c.Toks[ty].Name, text))
		for {
			in := false
			for _, x := range c.Items[item].Types {
				in = in || x == ty
			}
			if in {
				if c.Items[item].Kind != gram.Rep {
					item++
				}
				continue loop
			}
			item++
		}
	}
	r.TrivialIf(lexemes < 2)
	q := source.NewQueue()
	for i, s := range c.Sources {
		q.Append(source.New(fmt.Sprintf("src%d", i), []byte(s)))
	}
	_, toks, e := parseTree(p, q, 1000)
	var got []string
	for _, t := range toks {
		got = append(got, fmt.Sprintf("%s %q", t.TypeName(), t.Text()))
	}
	state := func() string { return fmt.Sprintf("%q\n%s", c.Sources, desc) }
	if strings.Join(got, ", ") != strings.Join(want, ", ") {
		return violation("tokens are %v, expected %v, error is %v\n%s", got, want, e, state())
	}
	if errCode(e) != wantCode {
		return violation("error is %v, expected %d (%s%s)\n%s", e, wantCode, wantWhat, wantType, state())
	}
	if e == nil {
		r.Class("accepted")
		return nil
	}
	le := asLlx(e)
	if wantCode != parser.UnexpectedEoiError {
		si := m.kept[m.src]
		line, col := runeLineCol(string(c.Sources[si]), m.off)
		if le.SourceName != fmt.Sprintf("src%d", si) || le.Line != line || le.Col != col {
			return violation("error is at %s %d:%d, expected src%d %d:%d: %v\n%s", le.SourceName, le.Line, le.Col, si, line, col, e, state())
		}
	}
	r.Class(map[int]string{parser.UnexpectedEoiError: "unexpected end", parser.UnexpectedTokenError: "unexpected token", lexer.WrongCharError: "wrong char", lexer.BadTokenError: "bad token"}[wantCode])
	if !strings.Contains(le.Message, wantWhat) || !strings.Contains(le.Message, wantType) {
		return violation("message has no %s: %v\n%s", wantWhat+wantType, e, state())
	}
	return nil
}
