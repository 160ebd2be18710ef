package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

// GenCase is a run of llxgen.
type GenCase struct {
	LexCase
	Root         string // replaces the name of the root node
	Json         bool   `json:",omitempty"`
	Dir, Name    string // folder and name of the input file
	Cwd          bool   `json:",omitempty"` // runs in the folder of the input file, uses relative names
	OutDir, Out  string
	Package, Var string
	Old          bool   `json:",omitempty"` // the output file is already there
	Fault        string `json:",omitempty"`
	OptEqual     bool   `json:",omitempty"`
}

var goNames = []string{"", "", "", "lang", "Lang_2", "_x", "x9", "myGrammar", "G"}
var badNames = []string{"a-b", "9x", "type", "func", "a b", "x.y", "p\n", "range", "grammar", "init", "-", "string", "main", "_", "ы-", "select"}

var fileNames = []string{"lang.llx", "lang", "a.b.llx", "x-y.txt", "G.l", "имя.llx", "with space.llx"}

func genGenCase(t *rapid.T) GenCase {
	c := GenCase{LexCase: LexCase{Lex: gram.GenDoc(t).Render(t, gram.Chance(t, 40, "wraps")), Tail: drawTail(t)}}
	if gram.Chance(t, 25, "mut") {
		var m string
		c.Lex, m = mutateLex(t, c.Lex)
		c.Muts = append(c.Muts, m)
	}
	c.Json = gram.Chance(t, 35, "json")
	c.Cwd = gram.Chance(t, 50, "cwd")
	c.Dir = rapid.SampledFrom([]string{"pkg", "pkg", "lang2", "Dir_x", "a.b", "my-pkg", "9x", "for", "_pkg"}).Draw(t, "dir")
	c.Name = rapid.SampledFrom(fileNames).Draw(t, "file")
	if gram.Chance(t, 35, "root") {
		c.Root = rapid.SampledFrom([]string{"lang", "calcGrammar", "_r", "a-b", "type", "grammar", "string", "R2", "var"}).Draw(t, "rootName")
	}
	if gram.Chance(t, 50, "out") {
		c.OutDir = rapid.SampledFrom([]string{"", "", "out", "res.d", "for"}).Draw(t, "outDir")
		c.Out = rapid.SampledFrom([]string{"out.go", "res", "x.y.z", "g.json"}).Draw(t, "outName")
	}
	name := func(label string) string {
		if gram.Chance(t, 15, label+"Bad") {
			return rapid.SampledFrom(badNames).Draw(t, label)
		}
		return rapid.SampledFrom(goNames).Draw(t, label)
	}
	if !c.Json {
		c.Package, c.Var = name("package"), name("var")
	}
	c.Old = gram.Chance(t, 30, "old")
	c.OptEqual = gram.Chance(t, 50, "optEqual")
	if gram.Chance(t, 6, "fault") {
		c.Fault = rapid.SampledFrom([]string{"no input", "no file", "no output folder", "input is a folder", "unknown option"}).Draw(t, "faultKind")
	}
	return c
}

// grammarPackage type-checks the package of grammar types from source.
var grammarPackage = sync.OnceValues(func() (*types.Package, error) {
	files, e := filepath.Glob("/repo/grammar/*.go")
	if e != nil {
		return nil, e
	}
	fset := token.NewFileSet()
	var fs []*ast.File
	for _, n := range files {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, e := parser.ParseFile(fset, n, nil, parser.SkipObjectResolution)
		if e != nil {
			return nil, e
		}
		fs = append(fs, f)
	}
	return (&types.Config{}).Check("github.com/ava12/llx/grammar", fset, fs, nil)
})

type oneImporter struct{}

func (oneImporter) Import(path string) (*types.Package, error) {
	if path != "github.com/ava12/llx/grammar" {
		return nil, fmt.Errorf("unexpected import %s", path)
	}
	return grammarPackage()
}

// evalGo reads the grammar defined in a Go file; returns names of the package and the variable.
func evalGo(src []byte) (g *grammar.Grammar, pkg, name string, e error) {
	fset := token.NewFileSet()
	f, e := parser.ParseFile(fset, "out.go", src, parser.SkipObjectResolution)
	if e != nil {
		return nil, "", "", violation("generated file: %v", e)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}}
	p, e := (&types.Config{Importer: oneImporter{}}).Check("out", fset, []*ast.File{f}, info)
	if e != nil {
		return nil, "", "", violation("generated file does not compile: %v", e)
	}
	for _, d := range f.Decls {
		gd, is := d.(*ast.GenDecl)
		if !is || gd.Tok != token.VAR {
			continue
		}
		for _, s := range gd.Specs {
			vs := s.(*ast.ValueSpec)
			for i, id := range vs.Names {
				if i >= len(vs.Values) || info.Types[vs.Values[i]].Type.String() != "*github.com/ava12/llx/grammar.Grammar" {
					continue
				}
				if g != nil {
					return nil, "", "", violation("two grammars in the generated file")
				}
				g, name = &grammar.Grammar{}, id.Name
				x := ast.Unparen(vs.Values[i])
				u, is := x.(*ast.UnaryExpr)
				if !is || u.Op != token.AND {
					return nil, "", "", violation("value of the variable is not an address of a literal")
				}
				if e := evalExpr(info, u.X, reflect.ValueOf(g).Elem()); e != nil {
					return nil, "", "", e
				}
			}
		}
	}
	if g == nil {
		return nil, "", "", violation("no grammar variable in the generated file")
	}
	return g, p.Name(), name, nil
}

func evalExpr(info *types.Info, x ast.Expr, to reflect.Value) error {
	if tv, has := info.Types[x]; has && tv.Value != nil {
		switch to.Kind() {
		case reflect.Int:
			v, ok := constant.Int64Val(constant.ToInt(tv.Value))
			if !ok {
				return violation("wrong constant %s", tv.Value)
			}
			to.SetInt(v)
		case reflect.Uint64:
			v, ok := constant.Uint64Val(constant.ToInt(tv.Value))
			if !ok {
				return violation("wrong constant %s", tv.Value)
			}
			to.SetUint(v)
		case reflect.String:
			to.SetString(constant.StringVal(tv.Value))
		default:
			return violation("constant for %s", to.Type())
		}
		return nil
	}
	if info.Types[x].IsNil() {
		return nil
	}
	lit, is := ast.Unparen(x).(*ast.CompositeLit)
	if !is {
		return violation("cannot evaluate %T", x)
	}
	switch to.Kind() {
	case reflect.Slice:
		next := 0
		for _, el := range lit.Elts {
			if kv, is := el.(*ast.KeyValueExpr); is {
				v, ok := constant.Int64Val(info.Types[kv.Key].Value)
				if !ok || v > 1<<20 {
					return violation("wrong index")
				}
				next, el = int(v), kv.Value
			}
			for to.Len() <= next {
				to.Set(reflect.Append(to, reflect.Zero(to.Type().Elem())))
			}
			if e := evalExpr(info, el, to.Index(next)); e != nil {
				return e
			}
			next++
		}
		return nil
	case reflect.Struct:
		for i, el := range lit.Elts {
			f := to.Field(i)
			if kv, is := el.(*ast.KeyValueExpr); is {
				f, el = to.FieldByName(kv.Key.(*ast.Ident).Name), kv.Value
			}
			if e := evalExpr(info, el, f); e != nil {
				return e
			}
		}
		return nil
	}
	return violation("composite literal for %s", to.Type())
}

// sameGrammar compares grammars treating nil and empty slices as equal.
func sameGrammar(a, b *grammar.Grammar) bool {
	return sameValue(reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem())
}

func sameValue(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !sameValue(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !sameValue(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return a.Interface() == b.Interface()
}

// listFiles returns contents of all files of a folder.
func listFiles(dir string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(dir, func(p string, d os.DirEntry, e error) error {
		if e == nil && !d.IsDir() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			m[rel] = string(b)
		}
		return nil
	})
	return m
}

type procResult struct {
	out, err string
	code     int
	timeout  bool
}

// runProc runs a tool; the process dies if it works for too long.
func runProc(dir, stdin, bin string, args ...string) procResult {
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/nonexistent", "HOME=" + dir, "GOMAXPROCS=1", "GOMEMLIMIT=1GiB", "GOTRACEBACK=single"}
	var o, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &er
	cmd.Stdin = strings.NewReader(stdin)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if e := cmd.Start(); e != nil {
		engine.InfraFail("cannot start %s: %v", bin, e)
	}
	expired := false
	timer := time.AfterFunc(60*time.Second, func() { expired = true; cmd.Process.Kill() })
	cmd.Wait()
	timer.Stop()
	return procResult{o.String(), er.String(), cmd.ProcessState.ExitCode(), expired}
}

// scratch makes a new folder for a case.
func scratch() string {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	os.MkdirAll(base, 0o755)
	d, e := os.MkdirTemp(base, "case")
	if e != nil {
		engine.InfraFail("%v", e)
	}
	return d
}

func toolPath(name string) string {
	p := filepath.Join(os.Getenv("VERIF_BIN"), name)
	if _, e := os.Stat(p); e != nil {
		engine.InfraFail("no tool %s: set VERIF_BIN", p)
	}
	return p
}

var goNameRe = regexp.MustCompile(`^[A-Za-z_][A-Za-z_0-9]*$`)

// wrongName tells if a name can not be used, unsure is set for names that may be either used or rejected.
func wrongName(s string) (wrong, unsure bool) {
	if !goNameRe.MatchString(s) || token.IsKeyword(s) {
		return true, false
	}
	switch s {
	case "_", "init", "main", "grammar", "string":
		return false, true
	}
	return false, false
}

func checkLlxgen(c GenCase, r *engine.Rec) error {
	lex := append([]gram.Lex(nil), c.Lex...)
	if c.Root != "" {
		// rename the root node
		root := Str("")
		for i, l := range lex {
			if l.K == gram.LOp && l.V == "=" && i > 0 && lex[i-1].K == gram.LName {
				root = lex[i-1].V
				break
			}
		}
		used := false
		for _, l := range lex {
			used = used || l.K == gram.LName && string(l.V) == c.Root
		}
		for i := range lex {
			if !used && root != "" && lex[i].K == gram.LName && lex[i].V == root {
				lex[i].V, lex[i].Text = Str(c.Root), ""
			}
		}
	}
	text, _ := LexCase{Lex: lex, Tail: c.Tail}.text()

	top := scratch()
	defer os.RemoveAll(top)
	inDir := filepath.Join(top, c.Dir)
	os.MkdirAll(inDir, 0o755)
	outDir := inDir
	if c.OutDir != "" {
		outDir = filepath.Join(top, c.OutDir)
		os.MkdirAll(outDir, 0o755)
	}
	cwd := top
	if c.Cwd {
		cwd = inDir
	}
	relTo := func(p string) string {
		p, _ = filepath.Rel(cwd, p)
		return p
	}
	inPath := filepath.Join(inDir, c.Name)
	in := relTo(inPath)
	if !c.Cwd {
		in = inPath
	}
	outName := c.Out
	var outPath string
	if outName != "" {
		outPath = filepath.Join(outDir, outName)
		if c.Fault == "no output folder" {
			outPath = filepath.Join(outDir, "absent", outName)
		}
	} else {
		ext := ".go"
		if c.Json {
			ext = ".json"
		}
		if c.OutDir != "" {
			engine.InfraFail("wrong case")
		}
		outPath = filepath.Join(inDir, strings.TrimSuffix(c.Name, filepath.Ext(c.Name))+ext)
	}
	switch c.Fault {
	case "no file":
	case "input is a folder":
		os.Mkdir(inPath, 0o755)
	default:
		os.WriteFile(inPath, []byte(text), 0o644)
	}
	if c.Old && !(c.Fault == "no output folder" && outName != "") {
		os.WriteFile(outPath, []byte("old content\n"), 0o644)
	}
	if inPath == outPath {
		return nil
	}

	var args []string
	opt := func(name, val string) {
		if c.OptEqual {
			args = append(args, "-"+name+"="+val)
		} else {
			args = append(args, "-"+name, val)
		}
	}
	if c.Json {
		args = append(args, "-j")
	}
	if outName != "" {
		o := outPath
		if c.Cwd {
			o = relTo(outPath)
		}
		opt("o", o)
	}
	if c.Package != "" {
		opt("p", c.Package)
	}
	if c.Var != "" {
		opt("v", c.Var)
	}
	if c.Fault == "unknown option" {
		args = append(args, "-zzz")
	}
	if c.Fault != "no input" {
		args = append(args, in)
	}
	before := listFiles(top)
	res := runProc(cwd, "", toolPath("llxgen"), args...)
	after := listFiles(top)
	where := func() string {
		return fmt.Sprintf("llxgen %q in %q: exit code %d, output %q, errors %q\ndescription:\n%s", args, filepath.Base(cwd), res.code, trim(res.out), trim(res.err), text)
	}
	if res.timeout {
		return violation("llxgen does not finish: %s", where())
	}
	if strings.Contains(res.err, "panic:") || strings.Contains(res.err, "goroutine ") {
		return violation("llxgen crashes: %s", where())
	}

	// what should be
	fails := "" // the text that must be in the message, "*" for any
	code := 3
	unsure := false
	g, ge := langdef.ParseBytes(in, []byte(text))
	dirName := filepath.Base(filepath.Dir(outPath))
	pkg, vname := c.Package, c.Var
	if pkg == "" {
		pkg = dirName
	}
	var unsureNames []string
	switch {
	case c.Fault == "no input", c.Fault == "unknown option":
		fails, code = "Usage", 2
	case c.Fault == "no file", c.Fault == "input is a folder":
		fails = c.Name
	case ge != nil:
		// names in messages may go in any order, any of a few errors may be reported
		fails = ge.Error()
		for i := 0; i < 200; i++ {
			if _, e := langdef.ParseBytes(in, []byte(text)); e != nil && sortedWords(e.Error()) == sortedWords(res.out+res.err) {
				fails = "*"
				break
			}
		}
	case c.Json:
		for _, t := range g.Tokens {
			if !utf8.ValidString(t.Name) || !utf8.ValidString(t.Re) {
				fails = "*"
			}
		}
		for _, l := range g.Layers {
			for _, cm := range l.Commands {
				for _, a := range cm.Arguments {
					if !utf8.ValidString(a) {
						fails = "*"
					}
				}
			}
		}
	default:
		if vname == "" {
			vname = g.Nodes[0].Name
		}
		pw, pu := wrongName(pkg)
		vw, vu := wrongName(vname)
		if pu && pkg != "_" {
			pu = false
		}
		switch {
		case pw:
			fails = pkg
		case vw:
			fails = vname
		}
		unsure = pu || vu
		unsureNames = []string{}
		if pu {
			unsureNames = append(unsureNames, pkg)
		}
		if vu {
			unsureNames = append(unsureNames, vname)
		}
		if fails != "" && (pw && (vw || vu) || vw && pu) {
			// either may be reported
			if res.code == 3 && (strings.Contains(res.out+res.err, pkg) || strings.Contains(res.out+res.err, vname)) {
				fails = "*"
			}
		}
	}
	if fails == "" && c.Fault == "no output folder" && outName != "" {
		fails = filepath.Base(outName)
		if unsure && res.code != 0 {
			fails = "*"
		}
	}

	if fails == "" && unsure && res.code == 3 {
		for _, n := range unsureNames {
			if strings.Contains(res.out+res.err, n) {
				fails = n
			}
		}
	}
	if fails != "" {
		r.TrivialIf(code == 2)
		r.Class("failed: " + map[bool]string{true: "usage", false: "error"}[code == 2])
		if res.code != code {
			return violation("exit code is %d, expected %d: %s", res.code, code, where())
		}
		if fails != "*" && !strings.Contains(res.out+res.err, fails) {
			return violation("the message does not contain %q: %s", fails, where())
		}
		if strings.TrimSpace(res.out+res.err) == "" {
			return violation("no message: %s", where())
		}
		if !reflect.DeepEqual(before, after) {
			return violation("files are changed by a failed run: %s, files %q", where(), keysOf(after))
		}
		return nil
	}
	if res.code != 0 {
		return violation("failed: %s", where())
	}
	relOut, _ := filepath.Rel(top, outPath)
	content, has := after[relOut]
	if !has {
		return violation("no output file %q: %s, files %q", relOut, where(), keysOf(after))
	}
	delete(after, relOut)
	delete(before, relOut)
	if !reflect.DeepEqual(before, after) {
		return violation("other files are changed: %s, files %q", where(), keysOf(after))
	}
	var got *grammar.Grammar
	if c.Json {
		got = &grammar.Grammar{}
		dec := json.NewDecoder(strings.NewReader(content))
		dec.DisallowUnknownFields()
		if e := dec.Decode(got); e != nil {
			return violation("wrong JSON: %v\n%s\n%s", e, content, where())
		}
		if dec.More() {
			return violation("text after JSON: %s", where())
		}
		r.Class("JSON")
	} else {
		var gp, gv string
		var e error
		got, gp, gv, e = evalGo([]byte(content))
		if e != nil {
			return violation("%v\n%s\n%s", e, content, where())
		}
		if gp != pkg || gv != vname {
			return violation("package %s, variable %s; expected %s and %s: %s", gp, gv, pkg, vname, where())
		}
		r.Class("Go")
	}
	if !sameGrammar(g, got) {
		return violation("the grammar differs: %+v, expected %+v\n%s\n%s", got, g, content, where())
	}
	r.ClassIf(len(g.Layers) > 0, "layers")
	r.ClassIf(len(g.MultiRules) > 0, "ambiguous")
	r.TrivialIf(len(g.Rules) < 15 || outName == "" && c.Var == "" && c.Package == "" && !c.Json)
	return nil
}

func sortedWords(s string) string {
	w := strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == ',' || r == '\n' })
	sort.Strings(w)
	return strings.Join(w, " ")
}

func trim(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

func keysOf(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func init() {
	engine.Define("C27", "a case is a run of the built llxgen in a scratch folder: a description (every fourth one changed, so most of those are wrong), names of the file and its folder, options -j, -o, -p, -v, the way options are written, an output file that is there already, file faults. Non-trivial: a file with 15 or more rules is written and some option is used, or a run fails for a reason other than usage")
	engine.Register("C27", "llxgen", 16000, 300000, genGenCase, checkLlxgen)
}
