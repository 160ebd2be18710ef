package props

import (
	"fmt"
	"math"
	"os"
	"regexp"
	"strconv"
	"strings"

	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

// CalcCase is a session of the calculator: input lines.
type CalcCase struct {
	Lines []Str
}

// calcTok is a token of an input.
type calcTok struct {
	k, s string // kinds: n(umber), v (name), o(perator), bad
}

var (
	calcNum  = regexp.MustCompile(`^-?[0-9]+(?:\.[0-9]+)?(?:[Ee]-?[0-9]+)?`)
	calcName = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_]*`)
)

// calcLexer reads tokens, a minus sign belongs to a number only where a value is expected.
type calcLexer struct {
	s    string
	last int
}

func (l *calcLexer) skip() { l.s = strings.TrimLeft(l.s, " \t\r\n\v\f") }

func (l *calcLexer) peek(value bool) calcTok {
	l.skip()
	if l.s == "" {
		return calcTok{"end", ""}
	}
	if m := calcNum.FindString(l.s); m != "" && (m[0] != '-' || value) {
		return calcTok{"n", m}
	}
	if m := calcName.FindString(l.s); m != "" {
		return calcTok{"v", m}
	}
	if strings.IndexByte("(),=*/^+-", l.s[0]) >= 0 {
		return calcTok{"o", l.s[:1]}
	}
	return calcTok{"bad", ""}
}

func (l *calcLexer) take(t calcTok) { l.s = l.s[len(t.s):] }

type calcExpr struct {
	k    string // num, var, call, op, neg
	s    string
	v    float64
	kids []*calcExpr
}

type calcStmt struct {
	k    string // expr, assign, func
	name string
	args []string
	x    *calcExpr
}

var (
	errCalcMore = fmt.Errorf("more")
	errCalcBad  = fmt.Errorf("bad")
)

func calcFail(t calcTok) error {
	if t.k == "end" {
		return errCalcMore
	}
	return errCalcBad
}

func (l *calcLexer) expr() (*calcExpr, error) {
	neg := false
	if t := l.peek(true); t.k == "o" && t.s == "-" {
		neg = true
		l.take(t)
	}
	x, e := l.pro()
	if e != nil {
		return nil, e
	}
	if neg {
		x = &calcExpr{k: "neg", kids: []*calcExpr{x}}
	}
	for {
		t := l.peek(false)
		if t.k != "o" || t.s != "+" && t.s != "-" {
			return x, nil
		}
		l.take(t)
		y, e := l.pro()
		if e != nil {
			return nil, e
		}
		x = &calcExpr{k: "op", s: t.s, kids: []*calcExpr{x, y}}
	}
}

func (l *calcLexer) pro() (*calcExpr, error) {
	x, e := l.pow()
	for e == nil {
		t := l.peek(false)
		if t.k != "o" || t.s != "*" && t.s != "/" {
			return x, nil
		}
		l.take(t)
		var y *calcExpr
		y, e = l.pow()
		x = &calcExpr{k: "op", s: t.s, kids: []*calcExpr{x, y}}
	}
	return nil, e
}

func (l *calcLexer) pow() (*calcExpr, error) {
	x, e := l.value()
	if e != nil {
		return nil, e
	}
	t := l.peek(false)
	if t.k != "o" || t.s != "^" {
		return x, nil
	}
	l.take(t)
	y, e := l.pow()
	if e != nil {
		return nil, e
	}
	return &calcExpr{k: "op", s: "^", kids: []*calcExpr{x, y}}, nil
}

func (l *calcLexer) want(s string) error {
	t := l.peek(false)
	if t.k != "o" || t.s != s {
		return calcFail(t)
	}
	l.take(t)
	return nil
}

func (l *calcLexer) value() (*calcExpr, error) {
	t := l.peek(true)
	switch {
	case t.k == "n":
		l.take(t)
		v, _ := strconv.ParseFloat(t.s, 64)
		return &calcExpr{k: "num", v: v}, nil
	case t.k == "o" && t.s == "(":
		l.take(t)
		x, e := l.expr()
		if e == nil {
			e = l.want(")")
		}
		return x, e
	case t.k != "v":
		return nil, calcFail(t)
	}
	l.take(t)
	if p := l.peek(false); p.k != "o" || p.s != "(" {
		return &calcExpr{k: "var", s: t.s}, nil
	}
	l.want("(")
	c := &calcExpr{k: "call", s: t.s}
	if l.want(")") == nil {
		return c, nil
	}
	for {
		x, e := l.expr()
		if e != nil {
			return nil, e
		}
		c.kids = append(c.kids, x)
		if l.want(",") == nil {
			continue
		}
		return c, l.want(")")
	}
}

// parseFunc reads the head of a function definition.
func (l *calcLexer) funcHead() (name string, args []string, e error) {
	t := l.peek(false)
	if t.k != "v" {
		return "", nil, calcFail(t)
	}
	l.take(t)
	name = t.s
	if e = l.want("("); e != nil {
		return
	}
	if t = l.peek(false); t.k == "v" {
		l.take(t)
		args = append(args, t.s)
		for l.want(",") == nil {
			if t = l.peek(false); t.k != "v" {
				return "", nil, calcFail(t)
			}
			l.take(t)
			args = append(args, t.s)
		}
	}
	if e = l.want(")"); e == nil {
		e = l.want("=")
	}
	return
}

// readCalc reads an input: errCalcMore tells that it is a beginning of a correct input.
func readCalc(s string) (*calcStmt, error) {
	end := func(l *calcLexer) error {
		if l.peek(false).k != "end" {
			return errCalcBad
		}
		return nil
	}
	a := &calcLexer{s: s}
	more := false
	if t := a.peek(false); t.k == "v" {
		a.take(t)
		if e := a.want("="); e == nil {
			x, e := a.expr()
			if e == nil {
				e = end(a)
			}
			return &calcStmt{k: "assign", name: t.s, x: x}, e
		}
		f := &calcLexer{s: s}
		name, args, e := f.funcHead()
		if e == nil {
			x, e := f.expr()
			if e == nil {
				e = end(f)
			}
			return &calcStmt{k: "func", name: name, args: args, x: x}, e
		}
		more = e == errCalcMore
	}
	l := &calcLexer{s: s}
	x, e := l.expr()
	if e == nil {
		return &calcStmt{k: "expr", x: x}, end(l)
	}
	if more {
		e = errCalcMore
	}
	return nil, e
}

// calcVal is a value with an error estimate.
type calcVal struct {
	v, err  float64
	unknown bool
}

type calcFunc struct {
	args []string
	x    *calcExpr
}

type calcState struct {
	vars    map[string]calcVal
	funcs   map[string]calcFunc
	dynamic bool // function bodies see arguments of callers
}

type calcScope struct {
	parent *calcScope
	vars   map[string]calcVal
}

func exact(v float64) bool { return v == math.Trunc(v) && math.Abs(v) < 1<<50 }

// eval computes an expression; errs gets names of all errors that evaluation may report.
func (st *calcState) eval(x *calcExpr, sc *calcScope, errs *[]string) calcVal {
	un := calcVal{unknown: true}
	switch x.k {
	case "num":
		return calcVal{v: x.v}
	case "var":
		for s := sc; s != nil; s = s.parent {
			if v, has := s.vars[x.s]; has {
				return v
			}
		}
		if v, has := st.vars[x.s]; has {
			return v
		}
		*errs = append(*errs, "unknown variable: "+x.s)
		return un
	case "neg":
		v := st.eval(x.kids[0], sc, errs)
		v.v = -v.v
		return v
	case "call":
		f, has := st.funcs[x.s]
		if !has {
			*errs = append(*errs, "unknown function: "+x.s)
		} else if len(f.args) != len(x.kids) {
			*errs = append(*errs, fmt.Sprintf("wrong number of arguments for %s: expecting %d, got %d", x.s, len(f.args), len(x.kids)))
		}
		inner := &calcScope{vars: map[string]calcVal{}}
		if st.dynamic {
			inner.parent = sc
		}
		for i, k := range x.kids {
			v := st.eval(k, sc, errs)
			if has && i < len(f.args) {
				inner.vars[f.args[i]] = v
			}
		}
		if !has {
			return un
		}
		for i := len(x.kids); i < len(f.args); i++ {
			inner.vars[f.args[i]] = un
		}
		return st.eval(f.x, inner, errs)
	}
	a, b := st.eval(x.kids[0], sc, errs), st.eval(x.kids[1], sc, errs)
	if a.unknown || b.unknown || math.IsInf(a.v, 0) || math.IsNaN(a.v) || math.IsInf(b.v, 0) || math.IsNaN(b.v) {
		return un
	}
	const eps = 4e-16
	r := calcVal{}
	switch x.s {
	case "+", "-":
		r.v = a.v + b.v
		if x.s == "-" {
			r.v = a.v - b.v
		}
		r.err = a.err + b.err
		if r.err > 0 || !exact(a.v) || !exact(b.v) {
			r.err += eps * (math.Abs(a.v) + math.Abs(b.v))
		}
	case "*":
		r.v = a.v * b.v
		r.err = math.Abs(a.v)*b.err + math.Abs(b.v)*a.err + a.err*b.err
		if r.err > 0 || !exact(a.v) || !exact(b.v) || !exact(r.v) {
			r.err += eps * math.Abs(r.v)
		}
	case "/":
		if math.Abs(b.v) <= b.err*2 {
			return un
		}
		r.v = a.v / b.v
		r.err = (a.err + math.Abs(r.v)*b.err) / (math.Abs(b.v) - b.err)
		// (a / b) may be computed as (1 / b) * a
		r.err += 2 * eps * math.Abs(r.v)
	case "^":
		if a.v == 0 && b.v <= 0 {
			return un
		}
		r.v = math.Pow(a.v, b.v)
		if a.err > 0 || b.err > 0 {
			if a.v <= a.err*2 {
				return un
			}
			rel := math.Abs(b.v)*a.err/(a.v-a.err) + (math.Abs(math.Log(a.v))+a.err/a.v)*b.err
			if rel > 1e-6 {
				return un
			}
			r.err = 2 * math.Abs(r.v) * rel
		}
		r.err += 4 * eps * math.Abs(r.v)
		if a.err == 0 && b.err == 0 && exact(r.v) && exact(a.v) && exact(b.v) {
			r.err = 0
		}
	}
	if math.Abs(r.v) > 1e150 || r.v != 0 && math.Abs(r.v) < 1e-150 || math.IsInf(r.v, 0) {
		return un
	}
	return r
}

// run executes a statement. If there are errors then unknown tells that there are none of them when function bodies
// see arguments of callers (the help does not tell if they do).
func (st *calcState) run(s *calcStmt) (calcVal, []string) {
	var errs []string
	if s.k == "func" {
		seen := map[string]bool{}
		for _, a := range s.args {
			if seen[a] {
				errs = append(errs, "argument "+a+" already defined")
			}
			seen[a] = true
		}
		if len(errs) == 0 {
			st.funcs[s.name] = calcFunc{s.args, s.x}
		}
		return calcVal{unknown: true}, errs
	}
	v := st.eval(s.x, nil, &errs)
	if len(errs) == 0 {
		st.dynamic = true
		var errs2 []string
		v2 := st.eval(s.x, nil, &errs2)
		st.dynamic = false
		if v != v2 && !(math.IsNaN(v.v) && math.IsNaN(v2.v)) {
			v = calcVal{unknown: true}
		}
		if s.k == "assign" {
			st.vars[s.name] = v
		}
		return v, nil
	}
	st.dynamic = true
	var errs2 []string
	st.eval(s.x, nil, &errs2)
	st.dynamic = false
	return calcVal{unknown: len(errs2) == 0}, errs
}

// calcCycle tells if some function calls itself at some point of a session.
func calcCycle(lines []string) bool {
	defs := map[string]*calcExpr{}
	var collect func(x *calcExpr, out map[string]bool)
	collect = func(x *calcExpr, out map[string]bool) {
		if x.k == "call" {
			out[x.s] = true
		}
		for _, k := range x.kids {
			collect(k, out)
		}
	}
	pending := ""
	for _, l := range lines {
		if strings.Contains(l, "help") {
			pending = ""
			continue
		}
		text := l
		if pending != "" {
			text = pending + "\n" + l
		}
		pending = ""
		s, e := readCalc(text)
		if e == errCalcMore {
			pending = text
		}
		if e != nil || s.k != "func" {
			continue
		}
		defs[s.name] = s.x
		seen := map[string]bool{}
		todo := []string{s.name}
		for len(todo) > 0 {
			n := todo[0]
			todo = todo[1:]
			if defs[n] == nil {
				continue
			}
			calls := map[string]bool{}
			collect(defs[n], calls)
			for f := range calls {
				if f == s.name {
					return true
				}
				if !seen[f] {
					seen[f] = true
					todo = append(todo, f)
				}
			}
		}
	}
	return false
}

func checkCalc(c CalcCase, r *engine.Rec) error {
	dir := scratch()
	defer os.RemoveAll(dir)
	var lines []string
	for _, l := range c.Lines {
		lines = append(lines, string(l))
	}
	input := strings.Join(lines, "\n") + "\n"
	if calcCycle(lines) {
		r.Trivial()
		r.Class("outside of the domain: a function calls itself")
		return nil
	}
	exited := false
	res := runProc(dir, input, toolPath("calc"))
	if res.timeout {
		return violation("calc does not finish, input:\n%s", input)
	}
	if res.code != 0 || res.err != "" {
		return violation("calc exits with code %d, errors %q; input:\n%s\noutput:\n%s", res.code, trim(res.err), input, trim(res.out))
	}
	out := res.out
	i := strings.Index(out, ">> ")
	if i < 0 {
		return violation("no prompt: %q", out)
	}
	out = out[i:]
	st := &calcState{vars: map[string]calcVal{}, funcs: map[string]calcFunc{}}
	pending := ""
	compared, conts, failed, assigns, calls := 0, 0, 0, 0, 0
	for n, line := range lines {
		where := func(format string, args ...any) error {
			return violation("line %d %q: %s; input:\n%s\noutput:\n%s", n+1, line, fmt.Sprintf(format, args...), input, trim(res.out))
		}
		prompt := ">> "
		if pending != "" {
			prompt = "-> "
		}
		if !strings.HasPrefix(out, prompt) {
			return where("prompt is %q, expected %q", trim(out), prompt)
		}
		out = out[len(prompt):]
		if line == "" {
			exited = true
			break
		}
		answer := func(upTo string) string {
			i := 0
			if !strings.HasPrefix(out, upTo) {
				i = strings.Index(out, "\n"+upTo) + 1
			}
			if i <= 0 && !strings.HasPrefix(out, upTo) {
				return out
			}
			a := out[:i]
			out = out[i:]
			return a
		}
		if strings.Contains(line, "help") {
			pending = ""
			if a := answer(">> "); !strings.Contains(a, "You can:") {
				return where("no help: %q", a)
			}
			continue
		}
		text := line
		if pending != "" {
			text = pending + "\n" + line
		}
		pending = ""
		s, e := readCalc(text)
		if e == errCalcMore {
			if !strings.HasPrefix(out, "-> ") {
				a := answer(">> ")
				// a wrong list of arguments is reported as soon as it is seen
				if m := regexp.MustCompile(`^ ! argument (\w+) already defined`).FindStringSubmatch(a); m != nil && strings.Count(text, m[1]) > 1 && strings.Contains(text, "=") {
					continue
				}
				return where("answer to an incomplete input is %q", a)
			}
			pending = text
			conts++
			continue
		}
		a := answer(">> ")
		if e != nil {
			failed++
			if !strings.HasPrefix(a, " ! ") {
				return where("wrong input, answer is %q", a)
			}
			continue
		}
		v, errs := st.run(s)
		if len(errs) > 0 && v.unknown && s.k != "func" && strings.HasPrefix(a, " : ") {
			r.Class("a function body sees arguments of the caller")
			if s.k == "assign" {
				st.vars[s.name] = v
			}
			errs = nil
		}
		if len(errs) > 0 {
			failed++
			fits := false
			for _, m := range errs {
				fits = fits || strings.HasPrefix(a, " ! ") && strings.Contains(a, m)
			}
			if !fits {
				return where("answer is %q, expected %q", a, errs)
			}
			continue
		}
		if !strings.HasPrefix(a, " : ") || !strings.HasSuffix(a, "\n") {
			return where("answer is %q, expected a number", a)
		}
		got, e := strconv.ParseFloat(strings.TrimSpace(a[3:]), 64)
		if e != nil {
			return where("answer is %q, expected a number", a)
		}
		if s.k == "assign" {
			assigns++
		}
		if strings.Contains(text, "(") && len(st.funcs) > 0 {
			calls++
		}
		if v.unknown {
			continue
		}
		compared++
		if math.IsInf(v.v, 0) || math.IsNaN(v.v) {
			if !(v.v == got || math.IsNaN(v.v) && math.IsNaN(got)) {
				return where("answer is %v, expected %v", got, v.v)
			}
			continue
		}
		if !(math.Abs(got-v.v) <= v.err*4+6e-12*math.Abs(v.v)) {
			return where("answer is %v, expected %v (error %g)", got, v.v, v.err)
		}
	}
	if !exited {
		prompt := ">> "
		if pending != "" {
			prompt = "-> "
		}
		if !strings.HasPrefix(out, prompt) {
			return violation("no last prompt, output rest %q; input:\n%s", out, input)
		}
		out = out[len(prompt):]
	}
	if strings.TrimSpace(out) != "" {
		return violation("extra output %q; input:\n%s", out, input)
	}
	r.Count("values compared", compared)
	r.Count("continued inputs", conts)
	r.Count("rejected inputs", failed)
	r.Count("assignments", assigns)
	r.Count("inputs with brackets when functions are defined", calls)
	r.TrivialIf(compared < 3 || assigns == 0)
	return nil
}

// genCalcCase draws a session.
func genCalcCase(t *rapid.T) CalcCase {
	var c CalcCase
	vars := []string{"x", "y", "f0", "X", "z_1"}
	params := []string{"a", "b", "x", "C2", "f0"}
	funcs := []string{"f0", "f1", "F1", "g", "x"}
	argc := map[string]int{}
	var known []string
	pick := func(l []string, label string) string { return rapid.SampledFrom(l).Draw(t, label) }
	num := func() string {
		return pick([]string{"0", "1", "2", "3", "10", "7", "0.5", "2.25", "1e2", "1E-1", "12", "4", "-1", "-2", "-0.5"}, "num")
	}
	sp := func() string { return pick([]string{"", "", " ", " ", "  ", "\t"}, "sp") }
	var expr func(depth, rank int, names []string, first bool) string
	var value func(depth, rank int, names []string) string
	value = func(depth, rank int, names []string) string {
		k := rapid.IntRange(0, 9).Draw(t, "value")
		switch {
		case k < 3 || depth <= 0 && k < 7:
			s := num()
			return s
		case k < 6 || depth <= 0:
			if len(names) == 0 || gram.Chance(t, 3, "strange") {
				return pick(vars, "var")
			}
			return pick(names, "var")
		case k < 8 && rank > 0:
			f := pick(funcs[:rank], "func")
			n, has := argc[f]
			if !has || gram.Chance(t, 3, "argc") {
				n = rapid.IntRange(0, 3).Draw(t, "n")
			}
			var args []string
			for ; n > 0; n-- {
				args = append(args, sp()+expr(depth-1, rank, names, true))
			}
			return f + sp() + "(" + strings.Join(args, ",") + sp() + ")"
		}
		return "(" + sp() + expr(depth-1, rank, names, true) + sp() + ")"
	}
	pow := func(depth, rank int, names []string) string {
		s := value(depth, rank, names)
		for gram.Chance(t, 12, "pow") {
			s += sp() + "^" + sp() + pick([]string{"2", "3", "0", "-1", "(1 - 2)", "0.5"}, "exp")
		}
		return s
	}
	expr = func(depth, rank int, names []string, first bool) string {
		s := ""
		if gram.Chance(t, 12, "neg") {
			s = "-" + sp()
		}
		for i := 0; ; i++ {
			s += pow(depth, rank, names)
			if i > 3 || !gram.Chance(t, 45, "more") {
				return s
			}
			s += sp() + pick([]string{"+", "-", "*", "/", "-", "*"}, "op") + sp()
		}
	}
	for i := rapid.IntRange(3, 16).Draw(t, "lines"); i > 0; i-- {
		line := ""
		switch rapid.IntRange(0, 9).Draw(t, "line") {
		case 0, 1, 2:
			v := pick(vars, "assign")
			line = v + sp() + "=" + sp() + expr(2, len(funcs), known, true)
			known = append(known, v)
		case 3, 4:
			k := rapid.IntRange(0, len(funcs)-1).Draw(t, "def")
			var args []string
			for n := rapid.IntRange(0, 3).Draw(t, "args"); n > 0; n-- {
				a := pick(params, "arg")
				dup := false
				for _, b := range args {
					dup = dup || a == b
				}
				if !dup || gram.Chance(t, 10, "dup") {
					args = append(args, a)
				}
			}
			line = funcs[k] + sp() + "(" + strings.Join(args, sp()+","+sp()) + ")" + sp() + "=" + sp() + expr(2, k, append(append([]string(nil), args...), known...), true)
			argc[funcs[k]] = len(args)
		default:
			line = expr(3, len(funcs), known, true)
		}
		line = sp() + line + sp()
		switch rapid.IntRange(0, 19).Draw(t, "harm") {
		case 0:
			// cut in two lines or lose the end
			cut := rapid.IntRange(0, len(line)).Draw(t, "cut")
			c.Lines = append(c.Lines, Str(line[:cut]))
			if cut == 0 {
				c.Lines[len(c.Lines)-1] = " "
			}
			line = line[cut:]
			if gram.Chance(t, 25, "lost") {
				line = pick([]string{"help", "1", ")", "+ 1"}, "instead")
			}
		case 1:
			at := rapid.IntRange(0, len(line)).Draw(t, "at")
			line = line[:at] + pick([]string{"$", "=", ")", "(", ",", ".", "1", "x", " ", "-", "--", "é", "\xff", "#", "\x00", "help"}, "junk") + line[at:]
		case 2:
			at := rapid.IntRange(0, len(line)).Draw(t, "at")
			to := rapid.IntRange(at, min(len(line), at+3)).Draw(t, "to")
			line = line[:at] + line[to:]
		}
		if line == "" {
			line = "1"
		}
		c.Lines = append(c.Lines, Str(strings.TrimRight(line, "\r\n")))
	}
	if gram.Chance(t, 20, "exit") {
		c.Lines = append(c.Lines, "")
		if gram.Chance(t, 50, "after") {
			c.Lines = append(c.Lines, "1 + 1")
		}
	}
	return c
}

func init() {
	engine.Define("C30", "a case is a session of the built calculator: 3-16 inputs (expressions, assignments, definitions and redefinitions of functions over a few names, some inputs are cut in two lines, damaged, or wrong) compared with an independent evaluator; non-trivial: at least 3 values are compared and there is an assignment")
	engine.Register("C30", "session", 20000, 500000, genCalcCase, checkCalc)
}
