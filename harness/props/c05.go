package props

import (
	"strings"
	"unicode/utf8"

	"github.com/ava12/llx"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/parser/layers/common"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

// AnyCase is a description and arbitrary sources.
type AnyCase struct {
	Kind    string
	Desc    string
	Names   []Str
	Sources []Str
	Repeat  int  `json:",omitempty"` // each source is repeated that many times
	Sides   bool `json:",omitempty"`
	Full    bool `json:",omitempty"`
	Hooks   bool `json:",omitempty"`
}

var rudeBytes = []string{
	"", "\x00", "\xff", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80", "é", "\ufeff", "\u2028", "\U0001F600", "\r", "\r\n", "\n", "\t", "\v", " ",
	"'", "\"", "%", "~", "~~", "#", "$", "0x", "\\", "%bad", "1.", "a", "0", "-", "=", "+",
}

// genPieces makes a text of up to max pieces.
func genPieces(t *rapid.T, max int, sp *gram.Spec, k *gram.Kit) string {
	var b strings.Builder
	lits := sp.Literals()
	for i := rapid.IntRange(0, max).Draw(t, "pieces"); i > 0; i-- {
		switch rapid.IntRange(0, 9).Draw(t, "piece") {
		case 0:
			b.WriteString(rapid.SampledFrom(rudeBytes).Draw(t, "rude"))
		case 1:
			b.Write(rapid.SliceOfN(rapid.Byte(), 1, 2).Draw(t, "bytes"))
		case 2, 3:
			if len(k.Seps) > 0 {
				b.WriteString(rapid.SampledFrom(k.Seps).Draw(t, "sep"))
			}
		case 4, 5, 6, 7:
			if len(lits) > 0 {
				b.WriteString(rapid.SampledFrom(lits).Draw(t, "lit"))
			}
		default:
			b.WriteString(rapid.SampledFrom(k.Texts[rapid.SampledFrom(k.Plain).Draw(t, "type")]).Draw(t, "text"))
		}
	}
	return b.String()
}

func genAny(t *rapid.T) AnyCase { return genAnyLayers(t, false) }

func genAnyLayers(t *rapid.T, layers bool) AnyCase {
	kinds := []string{"ll1", "raw", "choices", "doc"}
	c := AnyCase{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
	budget := 40
	var sp *gram.Spec
	k := gram.GenKit(t)
	switch c.Kind {
	case "ll1":
		sp, _ = gram.GenSpec(t, k, gram.Options{MaxNodes: 6, Depth: 3, LL1: true, Eoi: true, Reserved: true})
		if gram.Chance(t, 20, "big") {
			c.Repeat = rapid.IntRange(10, 300).Draw(t, "repeat")
		}
	case "choices":
		sp, _ = gram.GenSpec(t, k, gram.Options{MaxNodes: 3, Depth: 2, LL1: true})
		gram.AddChoices(t, sp, k, 3)
	case "raw":
		sp, _ = gram.GenSpec(t, k, gram.Options{MaxNodes: 5, Depth: 3, Eoi: true, Reserved: true, Raw: true})
		budget = 8
	default:
		d := gram.GenDoc(t)
		sp = &d.Spec
		budget = 8
		k = gram.GenKit(t)
		k.Plain = nil
		for _, x := range sp.Toks {
			if !x.Ext && !x.Err && !x.Side {
				k.Plain = append(k.Plain, x.Name)
				if k.Texts[x.Name] == nil {
					k.Texts[x.Name] = []string{"a", "?", "~~", "~é~"}
				}
			}
		}
	}
	if c.Kind != "doc" {
		if gram.Chance(t, 25, "err") {
			sp.Toks = append([]gram.TokDef{{Name: "bad", Re: `%[a-z]*|\$`, Err: true}}, sp.Toks...)
		}
		if gram.Chance(t, 25, "groups") {
			for i := range sp.Toks {
				sp.Toks[i].Group = rapid.IntRange(0, 2).Draw(t, "group")
			}
		}
	}
	if gram.Chance(t, 5, "onlyExt") {
		c.Kind = "externals"
		sp = &gram.Spec{Toks: []gram.TokDef{{Name: "x", Ext: true}}, Nodes: []gram.NodeDef{{Name: "g", Body: gram.Seq{{{K: gram.Tok, N: "x"}}}}}}
		if gram.Chance(t, 50, "err") {
			sp.Toks = append(sp.Toks, gram.TokDef{Name: "bad", Re: `%[a-z]*|\$`, Err: true})
		}
		if gram.Chance(t, 30, "side") {
			sp.Toks = append(sp.Toks, gram.TokDef{Name: "space", Re: ` +`, Side: true})
		}
		if gram.Chance(t, 50, "opt") {
			sp.Nodes[0].Body = gram.Seq{{{K: gram.Opt, S: sp.Nodes[0].Body}}}
		}
	}
	// a one-rune kit with many bytes makes too many tokens for hard grammars
	c.Desc = closeGroups(sp).Text()
	if layers {
		var nodes []string
		for _, n := range sp.Nodes {
			nodes = append(nodes, n.Name)
		}
		space := ""
		for _, x := range sp.Toks {
			if x.Side && !x.Ext && !x.Err {
				space = x.Name
			}
		}
		c.Desc = genLayers(t, rapid.IntRange(1, 3).Draw(t, "layers"), nodes, append([]string{"", " ", "x1", "zz"}, sp.Literals()...), space) + c.Desc
	}
	var text string
	if c.Kind == "ll1" || c.Kind == "raw" || c.Kind == "choices" {
		m := gram.Analyse(sp)
		sm := gram.NewSampler(m, k)
		switch rapid.IntRange(0, 3).Draw(t, "textKind") {
		case 0:
			text = genPieces(t, budget, sp, k)
		case 1:
			text, _ = k.Render(t, sm.Sentence(t, budget/2))
		case 2:
			text, _ = k.Render(t, sm.Mutate(t, sm.Sentence(t, budget/2)))
		default:
			text, _ = k.Render(t, sm.Sentence(t, budget/2))
			at := rapid.IntRange(0, len(text)).Draw(t, "breakAt")
			text = text[:at] + rapid.SampledFrom(rudeBytes).Draw(t, "rude") + text[min(len(text), at+rapid.IntRange(0, 2).Draw(t, "drop")):]
		}
	} else {
		text = genPieces(t, budget, sp, k)
	}
	cnt := rapid.SampledFrom([]int{1, 1, 1, 2, 3, 4, 0}).Draw(t, "sources")
	for i := 0; i < cnt; i++ {
		part := text
		if i < cnt-1 {
			at := rapid.IntRange(0, len(text)).Draw(t, "cut")
			part, text = text[:at], text[at:]
		}
		c.Sources = append(c.Sources, Str(part))
		c.Names = append(c.Names, Str(rapid.SampledFrom([]string{"src", "a", "", "é\xff", "src"}).Draw(t, "name")))
	}
	c.Sides = gram.Chance(t, 40, "sides")
	c.Full = gram.Chance(t, 60, "full")
	c.Hooks = gram.Chance(t, 60, "hooks")
	return c
}

// closeGroups renumbers groups so that there are no gaps.
func closeGroups(s *gram.Spec) *gram.Spec {
	used := map[int]bool{}
	for _, x := range s.Toks {
		used[x.Group] = true
	}
	rank, next := map[int]int{0: 0}, 1
	for g := 1; g < 10; g++ {
		if used[g] {
			rank[g] = next
			next++
		}
	}
	for i := range s.Toks {
		s.Toks[i].Group = rank[s.Toks[i].Group]
	}
	return s
}

// placeIn tells whether there is such a line and column in the text.
func placeIn(text string, line, col int) bool {
	lines := strings.Split(text, "\n")
	return line >= 1 && line <= len(lines) && col >= 1 && col-1 <= utf8.RuneCountInString(lines[line-1])
}

func checkAny(c AnyCase, r *engine.Rec) error {
	_, p, e := compile(c.Desc)
	if e != nil {
		if c.Kind == "doc" || errCode(e) > 0 {
			// literals that no type may produce after regrouping
			r.Trivial()
			r.Class("rejected description")
			return nil
		}
		return violation("description: %v\n%s", e, c.Desc)
	}
	r.Class(c.Kind)
	q := source.NewQueue()
	total := 0
	var texts []string
	for i, s := range c.Sources {
		text := string(s)
		if c.Repeat > 1 {
			text = strings.Repeat(text, c.Repeat)
		}
		total += len(text)
		texts = append(texts, text)
		q.Append(source.New(string(c.Names[i]), []byte(text)))
	}
	r.TrivialIf(total == 0)
	r.ClassIf(len(c.Sources) != 1, "several sources or none")
	var opts []parser.ParseOption
	if c.Sides {
		opts = append(opts, parser.WithSides())
	}
	if c.Full {
		opts = append(opts, parser.WithFullSource())
	}
	var hs parser.Hooks
	if c.Hooks {
		hs.Nodes = collectHooks(nil)
	}
	res, e := p.Parse(newLimit(4000+200*total), q, hs, opts...)
	if e == nil {
		r.Class("accepted")
		if _, is := res.(*gram.Tree); is != c.Hooks {
			return violation("result is %v", res)
		}
		return nil
	}
	if res != nil {
		return violation("both a result and an error: %v, %v", res, e)
	}
	le, is := e.(*llx.Error)
	if !is {
		return violation("error is not an llx error: %v\n%s", e, c.Desc)
	}
	located := true
	switch le.Code {
	case lexer.WrongCharError, lexer.BadTokenError:
		r.Class("lexical error")
	case parser.UnexpectedTokenError:
		r.Class("unexpected token")
	case parser.UnexpectedEoiError:
		r.Class("unexpected end")
		located = false
	case parser.RemainingSourceError:
		r.Class("text is left")
		if !c.Full {
			return violation("unexpected kind of error: %v", e)
		}
	case common.WrongTokenError:
		r.Class("error of a layer")
		if !strings.Contains(c.Desc, "@") {
			return violation("unexpected kind of error: %v", e)
		}
	default:
		return violation("unexpected kind of error: %v\n%s", e, c.Desc)
	}
	if strings.Contains(c.Desc, "@indent") && strings.Contains(e.Error(), "\"v-de\" token") {
		// a dedent at the end of input has no place
		located = false
	}
	if le.Code == common.WrongTokenError && strings.Contains(e.Error(), parser.EoiToken) {
		// neither has a node that starts with the end of input
		located = false
	}
	if !located && le.Line == 0 && le.Col == 0 && le.SourceName == "" {
		return nil
	}
	for i, n := range c.Names {
		if string(n) == le.SourceName {
			if placeIn(texts[i], le.Line, le.Col) {
				return nil
			}
		}
	}
	return violation("error has no place in the sources: %q line %d col %d: %v\n%s", le.SourceName, le.Line, le.Col, e, c.Desc)
}

func init() {
	engine.Define("C05", "a case is a random description (LL(1), with shared prefixes, with arbitrary ambiguities, with groups, error and external types) and 0-4 sources cut at any place from a sentence, a mutated sentence, or a mix of literals, token texts, separators, rude and random bytes, with random options, without layers or with 1-3 standard ones; non-trivial: the description is accepted and sources are not empty")
	engine.Register("C05", "any source", 150000, 4000000, genAny, checkAny)
	engine.Register("C05", "layers", 50000, 1000000, func(t *rapid.T) AnyCase { return genAnyLayers(t, true) }, checkAny)
}
