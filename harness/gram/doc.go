package gram

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/ava12/llx/verifharness/engine"
	"pgregory.net/rapid"
)

// Str is a byte-safe string.
type Str = engine.Str

// Lexeme kinds of the description language.
const (
	LStr  = "str"
	LName = "name"
	LDir  = "dir"
	LTmpl = "tmpl"
	LTok  = "tok"
	LRe   = "re"
	LOp   = "op"
	LBad  = "bad" // a lexical error
)

// Lex is a lexeme of a description: kind, meaning, the way it is written, and what is written before it.
// Bad is set for string literals with a wrong escape sequence ("escape" or "rune").
type Lex struct {
	K    string
	V    Str
	Text Str    `json:",omitempty"`
	Sep  Str    `json:",omitempty"`
	Bad  string `json:",omitempty"`
}

func (l Lex) text() string {
	if l.Text != "" {
		return string(l.Text)
	}
	return string(l.V)
}

// LexText writes lexemes; returns the text and offsets of lexemes.
func LexText(ls []Lex, tail Str) (string, []int) {
	var b strings.Builder
	offs := make([]int, len(ls))
	for i, l := range ls {
		sep := string(l.Sep)
		if sep == "" && i > 0 && needSep(ls[i-1].text(), l.text()) {
			sep = " "
		}
		b.WriteString(sep)
		offs[i] = b.Len()
		b.WriteString(l.text())
	}
	b.WriteString(string(tail))
	return b.String(), offs
}

func identChar(c byte) bool {
	return c == '_' || c == '-' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func needSep(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	l := a[len(a)-1]
	return identChar(l) && identChar(b[0]) || l == '!' || l == '$' && (identChar(b[0]) || b[0] == '$')
}

// LayerCmd is a command of a layer definition.
type LayerCmd struct {
	Name string
	Args []Str
}

// LayerDef is a layer definition.
type LayerDef struct {
	Type string
	Cmds []LayerCmd
}

// Doc is the meaning of a description.
type Doc struct {
	Spec
	RestrictTypes bool  // only types without NoLit may match literals
	Lits          []Str // list of allowed literals, any literal is allowed if it is empty
	Layers        []LayerDef
}

// GenDoc draws a correct description.
func GenDoc(t *rapid.T) *Doc {
	k := GenKit(t)
	d := &Doc{}
	if Chance(t, 30, "err") {
		k.Toks = append(k.Toks, TokDef{Name: rapid.SampledFrom([]string{"error", "bad"}).Draw(t, "errName"), Re: `%[a-z]*`, Err: true})
	}
	if Chance(t, 30, "ext") {
		for i := n(t, 1, 2, "exts"); i > 0; i-- {
			name := fmt.Sprintf("ext-%d", i)
			k.Toks = append(k.Toks, TokDef{Name: name, Ext: true})
			k.Plain = append(k.Plain, name)
			k.Texts[name] = []string{""}
		}
	}
	if Chance(t, 35, "weird") {
		at := n(t, 0, len(k.Toks), "weirdAt")
		rest := append([]TokDef(nil), k.Toks[at:]...)
		k.Toks = append(append(k.Toks[:at:at], TokDef{Name: "weird", Re: `~[^~]*~`}), rest...)
		k.Plain = append(k.Plain, "weird")
		k.Texts["weird"] = []string{"~~"}
		for i := n(t, 1, 3, "weirdLits"); i > 0; i-- {
			k.Lits = append(k.Lits, "~"+rapid.SampledFrom([]string{`'`, `"`, `\`, "\n", "\r\n", "\t", "é", "\x00", "\xff\xfe", "中文", "\\n", "#", "", "a b", "/", "\U0001F600", "\ufffd", `'"`}).Draw(t, "weirdLit")+"~")
		}
	}
	if Chance(t, 25, "raw") {
		// characters that are not usual in source files and need care when being copied
		re := "@"
		for i := n(t, 1, 3, "rawParts"); i > 0; i-- {
			re += rapid.SampledFrom([]string{"\\r", "\\t", "\\n", "\\.", "\\x41", "\\pL", "\\d", "a", "`", `"`, "'"}).Draw(t, "rawPlain")
			re += rapid.SampledFrom([]string{"\r", "\n", "\r\n", "\t", "\ufeff", "`", "\x00", "\x01", "\x7f", "\u0085", "\u00a0", "\u2028", "\ufffd", "\U0010ffff", "<", "&", "%d", "%", "\u202e", "é"}).Draw(t, "raw")
		}
		k.Toks = append(k.Toks, TokDef{Name: "odd-chars", Re: re + "@"})
	}
	if Chance(t, 25, "near") {
		// literals fit some expressions and nearly fit others
		near := rapid.SampledFrom([]string{`≠|≠≠`, `≠≠|≠`, `≠+?`, `≠*?≠`, `≠{2}`, `≠(?:≠≠)*`, `≠≠\b`, `(?U:≠+)`, `≠∎|≠`, `≠|≠∎`, `(?:≠|≠≠)∎?`, `^.$`, `≠$`}).Draw(t, "nearRe")
		k.Toks = append(k.Toks, TokDef{Name: "near", Re: near}, TokDef{Name: "near-all", Re: `[≠∎]+`})
		for i := n(t, 1, 3, "nearLits"); i > 0; i-- {
			l := rapid.SampledFrom([]string{"≠", "≠≠", "≠≠≠", "≠∎", "≠≠∎", "∎"}).Draw(t, "nearLit")
			k.Lits = append(k.Lits, l)
			k.LitType[l] = "near-all"
		}
	}
	if Chance(t, 20, "cases") {
		// literals of a caseless type must be in upper case, others fit another type only
		k.Toks = append(k.Toks, TokDef{Name: "upper", Re: rapid.SampledFrom([]string{`[жЖ]+`, `(?i:ж+)`, `Ж+`, `ж+`, `[жЖ]∞?`}).Draw(t, "upperRe"), Caseless: true}, TokDef{Name: "cased", Re: `[жЖ∞]+`})
		for i := n(t, 1, 3, "caseLits"); i > 0; i-- {
			l := rapid.SampledFrom([]string{"ж", "Ж", "ЖЖ", "Жж", "жЖ", "жж", "∞", "Ж∞", "ж∞"}).Draw(t, "caseLit")
			k.Lits = append(k.Lits, l)
			k.LitType[l] = "cased"
		}
	}
	if Chance(t, 25, "any") {
		k.Toks = append(k.Toks, TokDef{Name: "any", Re: `.`})
		k.Plain = append(k.Plain, "any")
		k.Texts["any"] = []string{"?"}
		if Chance(t, 50, "anyLit") {
			k.Lits = append(k.Lits, rapid.SampledFrom([]string{"'", "\"", "\\", "\n", "é", "?"}).Draw(t, "anyLitText"))
		}
	}
	s, _ := GenSpec(t, k, Options{MaxNodes: 6, Depth: 3, Eoi: true, Reserved: true})
	d.Spec = *s
	d.Toks = append([]TokDef(nil), k.Toks...)
	if Chance(t, 40, "groups") {
		gs := n(t, 1, 3, "groupCount")
		for i := range d.Toks {
			d.Toks[i].Group = n(t, 0, gs, "group")
		}
	}
	// close gaps in group numbers
	used := map[int]bool{}
	for i := range d.Toks {
		used[d.Toks[i].Group] = true
	}
	rank, next := map[int]int{0: 0}, 1
	for g := 1; g <= 3; g++ {
		if used[g] {
			rank[g] = next
			next++
		}
	}
	for i := range d.Toks {
		d.Toks[i].Group = rank[d.Toks[i].Group]
	}
	// types that literals of nodes need must stay allowed
	if Chance(t, 40, "restrictTypes") {
		d.RestrictTypes = true
		need := map[string]bool{}
		for _, l := range d.Literals() {
			ty := k.LitType[l]
			if ty == "" {
				ty = "weird"
				if l[0] != '~' {
					ty = "any"
				}
			}
			need[ty] = true
		}
		any := false
		for i := range d.Toks {
			x := &d.Toks[i]
			x.NoLit = !need[x.Name] && (x.Err || Chance(t, 70, "noLit"))
			any = any || !x.NoLit
		}
		if !any {
			d.Toks[0].NoLit = false
		}
	} else {
		for i := range d.Toks {
			if d.Toks[i].NoLit {
				d.RestrictTypes = true
			}
		}
	}
	if Chance(t, 30, "restrictLits") {
		for _, l := range d.Literals() {
			d.Lits = append(d.Lits, Str(l))
		}
		for i := n(t, 0, 2, "moreLits"); i > 0; i-- {
			d.Lits = append(d.Lits, Str(k.Fresh()))
		}
		if d.RestrictTypes {
			for i := range d.Toks {
				if d.Toks[i].Name == k.freshTy {
					d.Toks[i].NoLit = false
				}
			}
		}
	}
	for i := n(t, 0, 3, "layers"); i > 0; i-- {
		l := LayerDef{Type: genName(t)}
		for c := n(t, 0, 3, "cmds"); c > 0; c-- {
			cmd := LayerCmd{Name: genName(t)}
			for a := n(t, 0, 3, "args"); a > 0; a-- {
				cmd.Args = append(cmd.Args, Str(rapid.SampledFrom([]string{"", "x", "name", " ", "a-b", "'", "\"q\"", "\\", "\n", "é", "\xf0", "$x", "string"}).Draw(t, "arg")))
			}
			l.Cmds = append(l.Cmds, cmd)
		}
		d.Layers = append(d.Layers, l)
	}
	return d
}

func genName(t *rapid.T) string {
	return rapid.SampledFrom([]string{"a", "indent", "string", "name", "op", "token-name", "regexp", "_x", "A-1", "dir", "template-name", "z_"}).Draw(t, "genName")
}

var nameRe = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z_0-9-]*$`)

func op(s string) Lex     { return Lex{K: LOp, V: Str(s)} }
func name(s string) Lex   { return Lex{K: LName, V: Str(s)} }
func dir(s string) Lex    { return Lex{K: LDir, V: Str(s)} }
func tokLex(s string) Lex { return Lex{K: LTok, V: Str("$" + s)} }

// StrLex draws a way to write a literal.
func StrLex(t *rapid.T, s string) Lex {
	l := Lex{K: LStr, V: Str(s)}
	if !strings.Contains(s, "'") && utf8.ValidString(s) && Chance(t, 60, "single") {
		l.Text = Str("'" + s + "'")
		return l
	}
	var b strings.Builder
	b.WriteByte('"')
	odd := Chance(t, 40, "odd")
	hex := func(v, w int) string {
		h := fmt.Sprintf("%0*x", w, v)
		if Chance(t, 50, "upper") {
			h = strings.ToUpper(h)
		}
		return h
	}
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		bad := r == utf8.RuneError && w == 1
		plain := !bad && r != '"' && r != '\\'
		special := map[rune]string{'\n': `\n`, '\r': `\r`, '\t': `\t`, '"': `\"`, '\\': `\\`}[r]
		switch {
		case bad:
			fmt.Fprintf(&b, `\x%s`, hex(int(s[i]), 2))
		case plain && (!odd && special == "" || n(t, 0, 2, "plain") == 0):
			b.WriteString(s[i : i+w])
		case special != "" && Chance(t, 60, "special"):
			b.WriteString(special)
		default:
			switch k := n(t, 0, 2, "esc"); {
			case k == 1 && r < 0x10000:
				fmt.Fprintf(&b, `\u%s`, hex(int(r), 4))
			case k >= 1:
				fmt.Fprintf(&b, `\U%s`, hex(int(r), 8))
			default:
				for j := i; j < i+w; j++ {
					fmt.Fprintf(&b, `\x%s`, hex(int(s[j]), 2))
				}
			}
		}
		i += w
	}
	b.WriteByte('"')
	l.Text = Str(b.String())
	return l
}

func reUnits(re string) []string {
	var r []string
	for i := 0; i < len(re); {
		j := i
		if re[i] == '\\' && i+1 < len(re) {
			i++
		}
		_, w := utf8.DecodeRuneInString(re[i:])
		i += w
		r = append(r, re[j:i])
	}
	return r
}

// docRender keeps the state of one rendering.
type docRender struct {
	t     *rapid.T
	d     *Doc
	tmpl  map[string]string // name -> expression
	names []string
	chain [][]Lex
	wraps bool
}

// reList draws a way to write an expression, adding templates to the chain of definitions.
func (r *docRender) reList(re string, depth int) []Lex {
	u := reUnits(re)
	var out []Lex
	piece := func(a, b int) {
		if a >= b {
			return
		}
		txt := strings.Join(u[a:b], "")
		for _, nm := range r.names {
			if r.tmpl[nm] == txt && Chance(r.t, 70, "reuse") {
				out = append(out, name(nm))
				return
			}
		}
		_, e := regexp.Compile(txt)
		if e == nil && depth < 3 && Chance(r.t, 25, "template") {
			body := r.reList(txt, depth+1)
			nm := rapid.SampledFrom([]string{"t", "name", "string", "regexp", "x-1", "op", "num", "T"}).Draw(r.t, "tmplName")
			for r.tmpl[nm] != "" {
				nm += "_"
			}
			r.tmpl[nm] = txt
			r.names = append(r.names, nm)
			rec := append([]Lex{{K: LTmpl, V: Str("$$" + nm)}, op("=")}, body...)
			r.chain = append(r.chain, append(rec, op(";")))
			out = append(out, name(nm))
			return
		}
		out = append(out, Lex{K: LRe, V: Str(txt), Text: Str("/" + txt + "/")})
	}
	at := 0
	for at < len(u) {
		to := len(u)
		if Chance(r.t, 30, "cut") {
			to = n(r.t, at+1, len(u), "cutAt")
		}
		piece(at, to)
		at = to
	}
	return out
}

func (r *docRender) seq(s Seq) []Lex {
	var out []Lex
	part := func(its Seq) {
		for i, it := range its {
			if i > 0 {
				out = append(out, op(","))
			}
			out = append(out, r.item(it)...)
		}
	}
	if r.wraps && len(s) > 1 && Chance(r.t, 20, "wrapSeq") {
		a := n(r.t, 0, len(s)-1, "wrapFrom")
		b := n(r.t, a+1, len(s), "wrapTo")
		null := true
		for _, it := range s[a:b] {
			null = null && itemNull(it)
		}
		// brackets around a part that may be empty add redundant fallback rules, a repetition in front of
		// a bracketed part is the case of KF-LOOP
		if !null && !itemLoops(s[a]) && (b == len(s) || !itemNull(s[b-1])) {
			part(s[:a])
			if a > 0 {
				out = append(out, op(","))
			}
			out = append(out, op("("))
			part(s[a:b])
			out = append(out, op(")"))
			if b < len(s) {
				out = append(out, op(","))
			}
			part(s[b:])
			return out
		}
	}
	part(s)
	return out
}

func itemNull(it Item) bool {
	for i := range it {
		if atomNull(&it[i]) {
			return true
		}
	}
	return false
}

func atomNull(a *Atom) bool {
	switch a.K {
	case Opt, Rep:
		return true
	case Grp:
		for _, it := range a.S {
			if !itemNull(it) {
				return false
			}
		}
		return true
	}
	return false
}

func (r *docRender) item(it Item) []Lex {
	var out []Lex
	from, to := -1, -1
	if r.wraps && len(it) > 1 && !itemNull(it) && Chance(r.t, 20, "wrapItem") {
		from = n(r.t, 0, len(it)-1, "wiFrom")
		to = n(r.t, from, len(it)-1, "wiTo")
	}
	for i := range it {
		if i > 0 {
			out = append(out, op("|"))
		}
		if i == from {
			out = append(out, op("("))
		}
		out = append(out, r.atom(&it[i])...)
		if i == to {
			out = append(out, op(")"))
		}
	}
	return out
}

func (r *docRender) atom(a *Atom) []Lex {
	var out []Lex
	switch a.K {
	case Lit:
		out = []Lex{StrLex(r.t, a.N)}
	case Tok:
		out = []Lex{tokLex(a.N)}
	case Nod:
		out = []Lex{name(a.N)}
	case Eoi:
		out = []Lex{tokLex("")}
	default:
		br := map[string]string{Grp: "()", Opt: "[]", Rep: "{}"}[a.K]
		out = append([]Lex{op(br[:1])}, r.seq(a.S)...)
		out = append(out, op(br[1:]))
	}
	if r.wraps && !atomNull(a) && !EntryLoops(a) && Chance(r.t, 8, "wrapAtom") {
		out = append(append([]Lex{op("(")}, out...), op(")"))
	}
	return out
}

func (r *docRender) layer(l LayerDef) []Lex {
	out := []Lex{op("@"), name(l.Type)}
	for _, c := range l.Cmds {
		out = append(out, name(c.Name), op("("))
		for i, a := range c.Args {
			if i > 0 {
				out = append(out, op(","))
			}
			if nameRe.MatchString(string(a)) && Chance(r.t, 50, "bare") {
				out = append(out, name(string(a)))
			} else {
				out = append(out, StrLex(r.t, string(a)))
			}
		}
		out = append(out, op(")"))
	}
	return append(out, op(";"))
}

var docSeps = []string{" ", "\n", "", "\t", "\r\n", "\f", " # x\n", "#\n", "\n\n  ", "#'\"/!$@\n#;\n", "\r", "# x\r\n", "#\r;'x\n", "#\f=\\ \n", "# é 中\r\r\n\t", "#" + strings.Repeat("; x='", 20) + "\n"}

// Render draws a way to write a description; wraps allows for redundant brackets.
func (d *Doc) Render(t *rapid.T, wraps bool) []Lex {
	r := &docRender{t: t, d: d, tmpl: map[string]string{}, wraps: wraps}
	// chains of records that keep their order
	for _, x := range d.Toks {
		if x.Ext {
			continue
		}
		body := r.reList(x.Re, 0)
		rec := append([]Lex{tokLex(x.Name), op("=")}, body...)
		r.chain = append(r.chain, append(rec, op(";")))
	}
	chains := [][][]Lex{r.chain}
	maxg := 0
	for _, x := range d.Toks {
		maxg = max(maxg, x.Group)
	}
	names := func(pred func(TokDef) bool) []Lex {
		var l []Lex
		for _, x := range d.Toks {
			if pred(x) {
				l = append(l, tokLex(x.Name))
			}
		}
		return l
	}
	var gc [][]Lex
	for g := 1; g <= maxg; g++ {
		rec := append([]Lex{dir("!group")}, shuffle(t, names(func(x TokDef) bool { return x.Group == g }))...)
		gc = append(gc, append(rec, op(";")))
	}
	chains = append(chains, gc)
	part := func(dn string, args []Lex) {
		args = shuffle(t, args)
		for len(args) > 0 {
			c := len(args)
			if Chance(t, 40, "part") {
				c = n(t, 1, len(args), "partLen")
			}
			rec := append([]Lex{dir(dn)}, args[:c]...)
			if Chance(t, 10, "twice") {
				rec = append(rec, args[n(t, 0, c-1, "twiceOf")])
			}
			chains = append(chains, [][]Lex{append(rec, op(";"))})
			args = args[c:]
		}
		if Chance(t, 5, "emptyDir") {
			chains = append(chains, [][]Lex{{dir(dn), op(";")}})
		}
	}
	part("!side", names(func(x TokDef) bool { return x.Side }))
	part("!caseless", names(func(x TokDef) bool { return x.Caseless }))
	part("!error", names(func(x TokDef) bool { return x.Err }))
	part("!extern", names(func(x TokDef) bool { return x.Ext }))
	var la, ra []Lex
	if d.RestrictTypes {
		la = names(func(x TokDef) bool { return !x.NoLit })
	}
	for _, l := range d.Lits {
		la = append(la, StrLex(t, string(l)))
	}
	part("!literal", la)
	for _, l := range d.Reserved {
		ra = append(ra, StrLex(t, l))
	}
	part("!reserved", ra)
	head := 0
	if len(d.Layers) > 0 {
		head = n(t, 0, len(d.Layers), "headLayers")
	}
	var lc [][]Lex
	for _, l := range d.Layers[:head] {
		lc = append(lc, r.layer(l))
	}
	chains = append(chains, lc)
	recs := interleave(t, chains)

	node := func(x NodeDef) []Lex {
		return append(append([]Lex{name(x.Name), op("=")}, r.seq(x.Body)...), op(";"))
	}
	recs = append(recs, node(d.Nodes[0]))
	chains = nil
	for _, x := range d.Nodes[1:] {
		chains = append(chains, [][]Lex{node(x)})
	}
	lc = nil
	for _, l := range d.Layers[head:] {
		lc = append(lc, r.layer(l))
	}
	chains = append(chains, lc)
	recs = append(recs, interleave(t, chains)...)
	style := n(t, 0, 2, "style")
	var out []Lex
	for _, rec := range recs {
		for i, l := range rec {
			switch {
			case style == 2:
				l.Sep = Str(rapid.SampledFrom(docSeps).Draw(t, "sep"))
			case style == 1 && i == 0:
				l.Sep = "\n"
			case style == 1:
				l.Sep = " "
			}
			out = append(out, l)
		}
	}
	return out
}

func shuffle(t *rapid.T, l []Lex) []Lex {
	l = append([]Lex(nil), l...)
	for i := len(l) - 1; i > 0; i-- {
		j := n(t, 0, i, "shuffle")
		l[i], l[i-j] = l[i-j], l[i]
	}
	return l
}

func interleave(t *rapid.T, chains [][][]Lex) [][]Lex {
	var out [][]Lex
	for {
		var live []int
		for i := range chains {
			if len(chains[i]) > 0 {
				live = append(live, i)
			}
		}
		if len(live) == 0 {
			return out
		}
		i := live[0]
		if len(live) > 1 {
			i = live[n(t, 0, len(live)-1, "chain")]
		}
		out = append(out, chains[i][0])
		chains[i] = chains[i][1:]
	}
}

// Viol is a violated rule: its name, lexemes it may be reported at (-1: the end of the text),
// or names that may be reported.
type Viol struct {
	Rule  string
	At    []int
	Names []string
}

// RefDoc is what the reference reader of descriptions tells.
type RefDoc struct {
	Doc   *Doc
	Viols []Viol
	Fatal bool   // the rest of the text is not read
	Skip  string // outside of the domain
	Maybe bool   // near the limit of token types
	First map[string]map[string]bool
}

type fatal struct{}

type refReader struct {
	ls  []Lex
	i   int
	out *RefDoc
}

func (r *refReader) viol(rule string, at ...int) {
	r.out.Viols = append(r.out.Viols, Viol{Rule: rule, At: at})
}
func (r *refReader) named(rule string, names ...string) {
	r.out.Viols = append(r.out.Viols, Viol{Rule: rule, Names: names})
}

func (r *refReader) fatal() {
	if r.i >= len(r.ls) {
		r.viol("eof", -1)
	} else {
		r.lexOK()
		r.viol("unexpected", r.i)
	}
	r.out.Fatal = true
	panic(fatal{})
}

// lexOK reports lexical errors of the current lexeme.
func (r *refReader) lexOK() {
	l := r.ls[r.i]
	rule := ""
	if l.K == LBad {
		rule = "lexical"
	} else if l.Bad != "" {
		rule = l.Bad
	} else {
		return
	}
	r.viol(rule, r.i)
	r.out.Fatal = true
	panic(fatal{})
}

func (r *refReader) is(k string, vs ...string) bool {
	if r.i >= len(r.ls) {
		return false
	}
	r.lexOK()
	l := r.ls[r.i]
	if l.K != k {
		return false
	}
	for _, v := range vs {
		if string(l.V) == v {
			return true
		}
	}
	return len(vs) == 0
}

func (r *refReader) need(k string, vs ...string) Lex {
	if !r.is(k, vs...) {
		r.fatal()
	}
	r.i++
	return r.ls[r.i-1]
}

var docDirs = map[string]string{"!side": LTok, "!caseless": LTok, "!error": LTok, "!extern": LTok, "!group": LTok, "!literal": LTok + LStr, "!reserved": LStr}

// ReadDoc reads a description given as lexemes, finding all the violated rules up to the first syntax error.
func ReadDoc(ls []Lex) (out *RefDoc) {
	out = &RefDoc{Doc: &Doc{}}
	r := &refReader{ls, 0, out}
	defer func() {
		if p := recover(); p != nil {
			if _, is := p.(fatal); !is {
				panic(p)
			}
		}
	}()
	r.read()
	return out
}

func (r *refReader) layer() {
	r.need(LOp, "@")
	l := LayerDef{Type: string(r.need(LName).V)}
	for !r.is(LOp, ";") {
		c := LayerCmd{Name: string(r.need(LName).V)}
		r.need(LOp, "(")
		for first := true; !r.is(LOp, ")"); first = false {
			if !first {
				r.need(LOp, ",")
			}
			if !r.is(LName) && !r.is(LStr) {
				r.fatal()
			}
			c.Args = append(c.Args, r.ls[r.i].V)
			r.i++
		}
		r.i++
		l.Cmds = append(l.Cmds, c)
	}
	r.i++
	r.out.Doc.Layers = append(r.out.Doc.Layers, l)
}

func (r *refReader) read() {
	d, out := r.out.Doc, r.out
	tmpl := map[string]string{}
	flags := map[string]map[string]bool{}
	var order []string // types in order of first mention in directives
	group := map[string]int{}
	groups := 0
	lits := map[string]bool{}
	mention := func(name string) map[string]bool {
		if flags[name] == nil {
			flags[name] = map[string]bool{}
			order = append(order, name)
		}
		return flags[name]
	}
	defined := map[string]int{}
	reList := func() string {
		var at []int
		re := ""
		for r.is(LRe) || r.is(LName) {
			l := r.ls[r.i]
			if l.K == LRe {
				re += string(l.V)
			} else if x, has := tmpl[string(l.V)]; has {
				re += x
			} else {
				r.viol("unknown template", r.i)
			}
			at = append(at, r.i)
			r.i++
		}
		if len(at) == 0 {
			r.fatal()
		}
		_, e := regexp.Compile(re)
		_, e2 := regexp.Compile("(?s:" + re + ")")
		if e != nil || e2 != nil {
			r.viol("regexp", at...)
		}
		return re
	}
	for {
		if r.is(LName) {
			break
		}
		switch {
		case r.is(LDir):
			at := r.i
			dn := string(r.need(LDir).V)
			kinds, known := docDirs[dn]
			if !known {
				r.viol("unknown directive", at)
				kinds = LTok + LStr
			}
			if dn == "!group" {
				groups++
			}
			for (r.is(LTok) || r.is(LStr)) && strings.Contains(kinds, r.ls[r.i].K) {
				l := r.ls[r.i]
				r.i++
				v := string(l.V)
				if l.K == LTok {
					v = v[1:]
				}
				switch dn {
				case "!group":
					mention(v)
					if group[v] != 0 {
						r.named("reassigned group", v)
					}
					group[v] = groups
				case "!literal":
					if l.K == LTok {
						mention(v)["literal"] = true
						d.RestrictTypes = true
					} else {
						d.Lits = append(d.Lits, l.V)
						lits[v] = true
					}
				case "!reserved":
					d.Reserved = append(d.Reserved, v)
					lits[v] = true
				default:
					if known {
						mention(v)[dn[1:]] = true
					}
				}
			}
			r.need(LOp, ";")
		case r.is(LOp, "@"):
			r.layer()
		case r.is(LTmpl):
			nm := string(r.ls[r.i].V)[2:]
			if _, has := tmpl[nm]; has {
				r.viol("template defined", r.i)
			}
			r.i++
			r.need(LOp, "=")
			tmpl[nm] = reList()
			r.need(LOp, ";")
		case r.is(LTok):
			nm := string(r.ls[r.i].V)[1:]
			_, has := defined[nm]
			if has || nm == "" {
				r.viol("token defined", r.i)
			}
			r.i++
			r.need(LOp, "=")
			re := reList()
			r.need(LOp, ";")
			if !has {
				defined[nm] = len(d.Toks)
				d.Toks = append(d.Toks, TokDef{Name: nm, Re: re})
			}
		default:
			r.fatal()
		}
	}
	total := len(defined)
	for _, nm := range order {
		if _, has := defined[nm]; has {
			if flags[nm]["extern"] {
				out.Skip = "redefined external type"
			}
			continue
		}
		total++
		if flags[nm]["extern"] {
			d.Toks = append(d.Toks, TokDef{Name: nm, Ext: true})
		} else {
			r.named("undefined token", nm)
		}
	}
	if total > 64 {
		r.viol("token number")
	} else if total > 62 {
		out.Maybe = true
	}
	byName := map[string]*TokDef{}
	for i := range d.Toks {
		x := &d.Toks[i]
		f := flags[x.Name]
		x.Side, x.Caseless, x.Err = f["side"], f["caseless"], f["error"]
		x.Group = group[x.Name]
		x.NoLit = d.RestrictTypes && !f["literal"]
		byName[x.Name] = x
	}
	if byName[""] != nil {
		out.Skip = "a directive for the end of input"
	}

	// nodes
	var seq func() Seq
	atom := func() Atom {
		switch {
		case r.is(LName):
			r.i++
			return Atom{K: Nod, N: string(r.ls[r.i-1].V)}
		case r.is(LTok):
			nm := string(r.ls[r.i].V)[1:]
			r.i++
			if nm == "" {
				return Atom{K: Eoi}
			}
			if x := byName[nm]; x == nil {
				r.viol("unknown token", r.i-1)
			} else if x.Side || x.Err {
				r.viol("wrong token", r.i-1)
			}
			return Atom{K: Tok, N: nm}
		case r.is(LStr):
			v := string(r.ls[r.i].V)
			r.i++
			if len(d.Lits) > 0 && !lits[v] {
				r.named("unknown literal", v)
			}
			if len(d.Lits) > 0 && lits[v] {
				listed := false
				for _, l := range d.Lits {
					listed = listed || string(l) == v
				}
				if !listed {
					out.Skip = "a reserved literal that is not listed"
				}
			}
			return Atom{K: Lit, N: v}
		case r.is(LOp, "(", "[", "{"):
			o := string(r.ls[r.i].V)
			r.i++
			s := seq()
			r.need(LOp, map[string]string{"(": ")", "[": "]", "{": "}"}[o])
			return Atom{K: map[string]string{"(": Grp, "[": Opt, "{": Rep}[o], S: s}
		}
		r.fatal()
		return Atom{}
	}
	seq = func() Seq {
		var s Seq
		for {
			it := Item{atom()}
			for r.is(LOp, "|") {
				r.i++
				it = append(it, atom())
			}
			s = append(s, it)
			if !r.is(LOp, ",") {
				return s
			}
			r.i++
		}
	}
	nodes := map[string]int{}
	for r.i < len(r.ls) {
		switch {
		case r.is(LName):
			nm := string(r.ls[r.i].V)
			_, has := nodes[nm]
			if has {
				r.viol("node defined", r.i)
			}
			r.i++
			r.need(LOp, "=")
			s := seq()
			r.need(LOp, ";")
			if !has {
				nodes[nm] = len(d.Nodes)
				d.Nodes = append(d.Nodes, NodeDef{nm, s})
			}
		case r.is(LOp, "@"):
			r.layer()
		default:
			r.fatal()
		}
	}
	all := map[string]bool{}
	for _, l := range d.Literals() {
		all[l] = true
	}
	for l := range lits {
		all[l] = true
	}
	var ll []string
	for l := range all {
		ll = append(ll, l)
	}
	sort.Strings(ll)
	for _, l := range ll {
		ty := d.LitTypes(l)
		if len(ty) == 0 {
			r.named("unresolved literal", l)
		} else {
			good := false
			for _, x := range ty {
				good = good || !byName[x].Err
			}
			if !good {
				out.Skip = "a literal of an error type"
			}
		}
	}
	var undef []string
	reach := map[string]bool{}
	var visit func(nm string)
	visit = func(nm string) {
		if reach[nm] {
			return
		}
		reach[nm] = true
		if i, has := nodes[nm]; has {
			d.Nodes[i].Body.Walk(func(a *Atom) {
				if a.K == Nod {
					visit(a.N)
				}
			})
		}
	}
	visit(d.Nodes[0].Name)
	seen := map[string]bool{}
	for i := range d.Nodes {
		d.Nodes[i].Body.Walk(func(a *Atom) {
			if _, has := nodes[a.N]; a.K == Nod && !has && !seen[a.N] {
				seen[a.N] = true
				undef = append(undef, a.N)
			}
		})
	}
	if len(undef) > 0 {
		r.named("undefined node", undef...)
	}
	var unused []string
	for _, x := range d.Nodes {
		if !reach[x.Name] {
			unused = append(unused, x.Name)
		}
	}
	if len(unused) > 0 {
		r.named("unused node", unused...)
	}
	if len(undef) > 0 {
		return
	}
	// first symbols and left recursion; nested nodes are never empty
	out.First = map[string]map[string]bool{}
	autos := make([]*Auto, len(d.Nodes))
	for i := range d.Nodes {
		autos[i] = Build(d.Nodes[i].Body)
		out.First[d.Nodes[i].Name] = map[string]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i, x := range d.Nodes {
			f := out.First[x.Name]
			for _, p := range autos[i].First {
				a := autos[i].Pos[p].A
				add := map[string]bool{Sym(a): true}
				if a.K == Nod {
					add = out.First[a.N]
				}
				for s := range add {
					if !f[s] {
						f[s] = true
						ch = true
					}
				}
			}
		}
	}
	var empty []string
	for _, x := range d.Nodes {
		if len(out.First[x.Name]) == 0 {
			empty = append(empty, x.Name)
		}
	}
	if len(empty) > 0 {
		r.named("unresolved node", empty...)
		return
	}
	for _, x := range d.Nodes {
		x.Body.Walk(func(a *Atom) {
			if a.K == Nod && out.First[a.N]["$"] {
				out.Skip = "a nested node may start with the end of input"
			}
		})
	}
	var cyc []string
	for i := range d.Nodes {
		mark := map[int]bool{}
		var walk func(j int)
		walk = func(j int) {
			for _, p := range autos[j].First {
				if a := autos[j].Pos[p].A; a.K == Nod && !mark[nodes[a.N]] {
					mark[nodes[a.N]] = true
					walk(nodes[a.N])
				}
			}
		}
		walk(i)
		if mark[i] {
			cyc = append(cyc, d.Nodes[i].Name)
		}
	}
	if len(cyc) > 0 {
		r.named("left recursion", cyc...)
	}
}

// Sym names a grammar symbol.
func Sym(a *Atom) string {
	switch a.K {
	case Lit:
		return "L:" + a.N
	case Tok:
		return "T:" + a.N
	case Nod:
		return "N:" + a.N
	}
	return "$"
}

// LitTypes lists defined types that may produce a literal.
func (d *Doc) LitTypes(lit string) []string {
	var r []string
	if lit == "" {
		return nil
	}
	for i := range d.Toks {
		x := &d.Toks[i]
		if x.Ext || x.NoLit || x.Caseless && strings.ToUpper(lit) != lit {
			continue
		}
		re, e := regexp.Compile("^(?s:" + x.Re + ")")
		if e != nil {
			continue
		}
		if m := re.FindStringIndex(lit); m != nil && m[1] == len(lit) {
			r = append(r, x.Name)
		}
	}
	return r
}

// LexString shows lexemes for messages.
func LexString(ls []Lex, tail Str) string {
	s, _ := LexText(ls, tail)
	return strconv.Quote(s)
}
