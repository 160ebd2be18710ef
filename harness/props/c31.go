package props

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

// Sample is a source for the grammar checking tool.
type Sample struct {
	Toks []gram.Token
	Src  Str
	Note Str  `json:",omitempty"` // rest of the separator line before the sample
	Bare bool `json:",omitempty"` // an empty sample has no lines
}

// ToolCase is a run of the grammar checking tool.
type ToolCase struct {
	Spec    *gram.Spec
	Samples []Sample
	Mode    string // "single", "m", "s"
	Sep     string
	Crlf    bool   `json:",omitempty"`
	Expect  bool   `json:",omitempty"` // -e
	Width   int    `json:",omitempty"`
	Fault   string `json:",omitempty"`
}

func genToolCase(t *rapid.T) ToolCase {
	k := gram.GenKit(t)
	s, _ := gram.GenSpec(t, k, gram.Options{MaxNodes: 5, Depth: 3, LL1: true, Eoi: true, Reserved: true})
	sm := gram.NewSampler(gram.Analyse(s), k)
	c := ToolCase{Spec: s, Mode: rapid.SampledFrom([]string{"single", "m", "m", "s", "s"}).Draw(t, "mode")}
	c.Sep = rapid.SampledFrom([]string{"###", "@@", "---%", "é=", "###x"}).Draw(t, "sep")
	c.Crlf = gram.Chance(t, 20, "crlf")
	c.Expect = gram.Chance(t, 25, "expect")
	bad := 25
	if c.Expect {
		bad = 85
	}
	// lines are not significant: a sample gets an extra line feed, see finding KF-SAMPLE-LF
	lf := false
	for _, x := range s.Toks {
		lf = lf || x.Side && (strings.Contains(x.Re, `\n\t`) || x.Re == `\s+`)
	}
	cnt := 1
	if c.Mode != "single" && lf {
		cnt = rapid.IntRange(1, 5).Draw(t, "samples")
	}
	for i := 0; i < cnt; i++ {
		toks := sm.Sentence(t, rapid.IntRange(0, 12).Draw(t, "budget"))
		if gram.Chance(t, bad, "mutate") {
			toks = sm.Mutate(t, toks)
		}
		src, _ := k.Render(t, toks)
		if c.Mode != "single" && lf {
			// no empty lines, see finding KF-SAMPLE-LINES
			for strings.Contains(src, "\n\n") {
				src = strings.ReplaceAll(src, "\n\n", "\n \n")
			}
			if strings.HasPrefix(src, "\n") {
				src = " " + src
			}
			if strings.HasSuffix(src, "\n") {
				src += " "
			}
		}
		x := Sample{Toks: toks, Src: Str(src)}
		x.Note = Str(rapid.SampledFrom([]string{"", "", " ", " note", "\t# é", " ###"}).Draw(t, "note"))
		x.Bare = true
		c.Samples = append(c.Samples, x)
	}
	if gram.Chance(t, 30, "width") {
		c.Width = rapid.SampledFrom([]int{20, 40, 120}).Draw(t, "widthValue")
	}
	if gram.Chance(t, 10, "fault") {
		c.Fault = rapid.SampledFrom([]string{"no args", "one arg", "unknown flag", "no grammar file", "no source file", "grammar is a folder", "source is a folder", "empty grammar", "empty source", "large source", "grammar is not UTF-8", "source is not UTF-8", "wrong grammar", "unknown layer"}).Draw(t, "faultKind")
		if c.Fault == "source is not UTF-8" {
			c.Mode = "single" // see finding KF-SAMPLE-UTF8
		}
	}
	return c
}

// flatTree writes a tree as the tool does, without spaces.
func flatTree(t *gram.Tree) string {
	var b strings.Builder
	var put func(t *gram.Tree)
	put = func(t *gram.Tree) {
		if t.Tok != nil {
			b.WriteString(fmt.Sprintf("%s(%q)", t.Tok.Type, t.Tok.Text))
			return
		}
		label := t.Node
		for len(t.Kids) == 1 && t.Kids[0].Tok == nil {
			t = t.Kids[0]
			label += ":" + t.Node
		}
		b.WriteString(label + "{")
		for _, k := range t.Kids {
			put(k)
		}
		b.WriteString("}")
	}
	put(t)
	return noSpaces(b.String())
}

func noSpaces(s string) string { return strings.Join(strings.Fields(s), "") }

var (
	sampleRe = regexp.MustCompile(`^### (.*), sample #([0-9]+), \(lines ([0-9]+)-([0-9]+)\)$`)
	oneItem  = regexp.MustCompile(`^\s*(?:[\w$-]+\("(?:[^"\\]|\\.)*"\)|[\w:-]+|\{|\})$`)
)

func checkTool(c ToolCase, r *engine.Rec) error {
	dir := scratch()
	defer os.RemoveAll(dir)
	desc := c.Spec.Text()
	m := gram.Analyse(c.Spec)

	// the source file
	var b strings.Builder
	first := make([]int, len(c.Samples)) // lines of samples
	last := make([]int, len(c.Samples))
	line := 1
	for i, x := range c.Samples {
		src := string(x.Src)
		if c.Mode == "single" {
			b.WriteString(src)
			break
		}
		if strings.HasPrefix(src, c.Sep) || strings.Contains(src, "\n"+c.Sep) {
			r.Trivial()
			r.Class("outside of the domain: a sample contains the separator")
			return nil
		}
		final := i == len(c.Samples)-1
		if final && src == "" {
			r.Trivial()
			return nil
		}
		if strings.Contains("\n"+src+"\n", "\n\n") && src != "" {
			r.Trivial()
			r.Class("outside of the domain: empty lines in a sample")
			return nil
		}
		b.WriteString(c.Sep + string(x.Note) + "\n")
		line++
		first[i] = line
		if src == "" && x.Bare {
			last[i] = line - 1
			continue
		}
		b.WriteString(src)
		line += strings.Count(src, "\n")
		last[i] = line
		if final && strings.HasSuffix(src, "\n") {
			last[i]--
		}
		if !final {
			b.WriteString("\n")
			line++
		}
	}
	text := b.String()
	if c.Crlf && !strings.Contains(text, "\r") {
		text = strings.ReplaceAll(text, "\n", "\r\n")
	}
	if text == "" {
		if c.Fault == "" {
			r.Trivial()
			return nil
		}
		text = " "
	}
	if c.Mode == "single" && strings.Contains(text, "\r") != c.Crlf {
		c.Crlf = false
	}

	code := 0
	gname, sname := "lang.grammar", "source.txt"
	gtext := desc
	switch c.Fault {
	case "empty grammar":
		gtext, code = "", 2
	case "empty source":
		text, code = "", 2
	case "large source":
		text, code = strings.Repeat(text+"\n", 1<<20/(len(text)+1)+2), 2
	case "grammar is not UTF-8":
		gtext, code = gtext+"# \xff\n", 3
	case "source is not UTF-8":
		text, code = text+"\xc3", 3
	case "wrong grammar":
		gtext, code = gtext+"\nno-such-node-here = $;", 4
	case "unknown layer":
		gtext, code = "@no-such-layer;\n"+gtext, 5
	case "no args", "one arg", "unknown flag":
		code = 1
	case "no grammar file", "no source file", "grammar is a folder", "source is a folder":
		code = 2
	}
	write := func(name, text, kind string) {
		switch c.Fault {
		case "no " + kind + " file":
		case kind + " is a folder":
			os.Mkdir(filepath.Join(dir, name), 0o755)
		default:
			os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644)
		}
	}
	write(gname, gtext, "grammar")
	write(sname, text, "source")
	var args []string
	if c.Expect {
		args = append(args, "-e")
	}
	switch c.Mode {
	case "m":
		args = append(args, "-m")
	case "s":
		args = append(args, "-s", c.Sep[:1])
		if c.Sep == "é=" {
			args[len(args)-1] = "é"
		}
	}
	if c.Width > 0 {
		args = append(args, "-w", strconv.Itoa(c.Width))
	}
	switch c.Fault {
	case "no args":
	case "one arg":
		args = append(args, gname)
	case "unknown flag":
		args = append(args, "-zzz", gname, sname)
	default:
		args = append(args, gname, sname)
	}
	res := runProc(dir, "", toolPath("grammar"), args...)
	where := func(format string, a ...any) error {
		return violation("%s; grammar %q exits with %d\nstdout:\n%s\nstderr:\n%s\ngrammar:\n%s\nsource:\n%q", fmt.Sprintf(format, a...), args, res.code, trim(res.out), trim(res.err), gtext, trim(text))
	}
	if res.timeout {
		return where("the tool does not finish")
	}
	if strings.Contains(res.err, "goroutine ") {
		return where("the tool crashes")
	}
	if code != 0 {
		r.Class("fault")
		if res.code != code {
			return where("%s: exit code is %d, expected %d", c.Fault, res.code, code)
		}
		if res.err == "" {
			return where("%s: no error message", c.Fault)
		}
		return nil
	}

	// verdicts
	n := len(c.Samples)
	if c.Mode == "single" {
		n = 1
	}
	lines := strings.Split(res.out, "\n")
	at := 0
	errLines := 0
	valid, invalid := 0, 0
	for i := 0; i < n; i++ {
		x := c.Samples[i]
		want := m.Predict(x.Toks, true)
		if at >= len(lines) {
			return where("sample #%d is not reported", i+1)
		}
		if c.Mode == "single" {
			if lines[at] != sname {
				return where("the first line is %q", lines[at])
			}
		} else {
			mm := sampleRe.FindStringSubmatch(lines[at])
			if mm == nil || mm[1] != sname || mm[2] != strconv.Itoa(i+1) {
				return where("wrong header of sample #%d: %q", i+1, lines[at])
			}
			if first[i] <= last[i] && (mm[3] != strconv.Itoa(first[i]) || mm[4] != strconv.Itoa(last[i])) {
				return where("header of sample #%d is %q, expected lines %d-%d", i+1, lines[at], first[i], last[i])
			}
		}
		at++
		var body []string
		for at < len(lines) && !strings.HasPrefix(lines[at], "### ") {
			body = append(body, lines[at])
			at++
		}
		out := strings.Join(body, "\n")
		switch {
		case want.OK && c.Expect:
			code = 6
			valid++
			errLines++
			if strings.TrimSpace(out) != "" {
				return where("sample #%d: unexpected output %q", i+1, out)
			}
		case want.OK:
			valid++
			if got, exp := noSpaces(out), flatTree(want.Tree); got != exp {
				return where("sample #%d: printed tree is %s, expected %s", i+1, got, exp)
			}
			width := 78
			if c.Width > 0 {
				width = c.Width
			}
			for _, l := range body {
				if utf8.RuneCountInString(l) > width && !oneItem.MatchString(l) {
					return where("sample #%d: line %q is longer than %d", i+1, l, width)
				}
			}
		case c.Expect:
			invalid++
			if !strings.Contains(out, "error") {
				return where("sample #%d is wrong, no error is printed: %q", i+1, out)
			}
		default:
			invalid++
			code = 6
			errLines++
			if strings.TrimSpace(out) != "" {
				return where("sample #%d is wrong, output is %q", i+1, out)
			}
		}
	}
	for ; at < len(lines); at++ {
		if strings.TrimSpace(lines[at]) != "" {
			return where("extra output %q", lines[at])
		}
	}
	if got := strings.Count(res.err, "\n"); got < errLines || errLines == 0 && got > 0 {
		return where("%d lines of errors, expected %d", got, errLines)
	}
	if res.code != code {
		return where("exit code is %d, expected %d", res.code, code)
	}
	r.ClassIf(c.Mode != "single", "samples")
	r.ClassIf(valid > 0 && invalid > 0, "both right and wrong samples")
	r.ClassIf(c.Expect, "errors are expected")
	r.Count("right samples", valid)
	r.Count("wrong samples", invalid)
	r.TrivialIf(n < 2)
	return nil
}

func runSamples(source string, args ...string) procResult {
	dir := scratch()
	defer os.RemoveAll(dir)
	os.WriteFile(filepath.Join(dir, "g"), []byte(`!side $s; $s = / +/; $l = /[a-z]/; g = {$l};`), 0o644)
	os.WriteFile(filepath.Join(dir, "s"), []byte(source), 0o644)
	return runProc(dir, "", toolPath("grammar"), append(args, "g", "s")...)
}

func init() {
	engine.RegisterProbe("C31", "KF-SAMPLE-LF", func() error {
		if runSamples("### 1\na\n### 2\nb", "-m").code == 6 {
			return violation(`the line feed before the separator is included in the sample`)
		}
		return nil
	})
	engine.RegisterProbe("C31", "KF-SAMPLE-LINES", func() error {
		if res := runSamples("### 1\n\n### 2\nb", "-m"); !strings.Contains(res.out, "#2") {
			return violation(`the separator after an empty line is ignored`)
		}
		return nil
	})
	engine.RegisterProbe("C31", "KF-SAMPLE-UTF8", func() error {
		if res := runSamples("### 1\n\xff", "-m"); res.code != 3 {
			return violation("exit code is %d, expected 3", res.code)
		}
		return nil
	})

	engine.Define("C31", "a case is a run of the built grammar checking tool: a random LL(1) grammar, 1-5 right or wrong samples in a file with separators or a single source, options -e, -m, -s, -w, CRLF, or a fault; non-trivial: at least two samples, or a fault")
	engine.Register("C31", "samples", 16000, 300000, genToolCase, checkTool)
}
