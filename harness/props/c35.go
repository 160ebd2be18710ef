package props

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

// EditorCmd is a command line option of the configuration editor.
type EditorCmd struct {
	Op  string // r, a, c, s
	Arg string
}

// EditorCase is a run of the configuration editor.
type EditorCase struct {
	File   Str
	Absent bool
	Cmds   []EditorCmd
}

// confLine is a line of a configuration file as told by an independent reader.
type confLine struct {
	kind    string // blank, comment, entry, header
	raw     string
	sec     string // section the line belongs to
	name    string
	lead    string // everything up to the value
	value   string
	comment string
	block   int
}

const (
	confName = `[a-zA-Z_][a-zA-Z_0-9]*(?:-[a-zA-Z_][a-zA-Z_0-9]*)*`
	confSec  = `[a-zA-Z_][a-zA-Z_0-9]*(?:[.-][a-zA-Z_][a-zA-Z_0-9]*)*`
)

var (
	confBlankRe   = regexp.MustCompile(`^[ \t]*$`)
	confCommentRe = regexp.MustCompile(`^[ \t]*(#.*)$`)
	confHeaderRe  = regexp.MustCompile(`^[ \t]*\[[ \t]*(` + confSec + `)[ \t]*\][ \t]*$`)
	confEntryRe   = regexp.MustCompile(`^([ \t]*(` + confName + `)[ \t]*=[ \t]*)([^#]*)(#.*)?$`)
	confArgRe     = regexp.MustCompile(`^` + confSec + `$`)
)

func confNormal(text string) string {
	text = strings.ReplaceAll(text, "\r\n", "\n")
	text = strings.ReplaceAll(text, "\r", "\n")
	if text != "" && !strings.HasSuffix(text, "\n") {
		text += "\n"
	}
	return text
}

// readConf splits a text into lines, ok is false for a wrong text.
func readConf(text string) (lines []confLine, ok bool) {
	text = confNormal(text)
	if text == "" {
		return nil, true
	}
	sec, block := "", 0
	for _, raw := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		l := confLine{raw: raw}
		if confBlankRe.MatchString(raw) {
			l.kind = "blank"
		} else if m := confCommentRe.FindStringSubmatch(raw); m != nil {
			l.kind, l.comment = "comment", m[1]
		} else if m := confHeaderRe.FindStringSubmatch(raw); m != nil {
			block++
			sec = m[1]
			l.kind = "header"
		} else if m := confEntryRe.FindStringSubmatch(raw); m != nil {
			l.kind, l.lead, l.name, l.value, l.comment = "entry", m[1], m[2], strings.TrimRight(m[3], " \t"), m[4]
		} else {
			return nil, false
		}
		l.sec, l.block = sec, block
		lines = append(lines, l)
	}
	return lines, true
}

// confModel is what the file has to tell after the commands.
type confModel struct {
	values  map[string]map[string]string
	headers []string // of the blocks
	removed map[int]bool
	touched map[int]string // line number → set, removed
	changed bool
}

func runConfModel(lines []confLine, cmds []EditorCmd) confModel {
	m := confModel{map[string]map[string]string{}, nil, map[int]bool{}, map[int]string{}, false}
	last := map[string]int{} // line of the entry
	blocks := map[int]string{}
	for i, l := range lines {
		if l.kind == "header" {
			blocks[l.block] = l.sec
		}
		if l.kind != "header" && l.kind != "entry" {
			continue
		}
		if m.values[l.sec] == nil {
			m.values[l.sec] = map[string]string{}
		}
		if l.kind == "entry" {
			k := l.sec + " " + l.name
			if j, has := last[k]; has {
				m.touched[j] = "removed"
				m.changed = true
			}
			last[k] = i
			m.values[l.sec][l.name] = l.value
		}
	}
	split := func(arg string) (string, string) {
		i := strings.LastIndexByte(arg, '.')
		if i < 0 {
			return "", arg
		}
		return arg[:i], arg[i+1:]
	}
	var added []string
	add := func(sec string) {
		if m.values[sec] == nil {
			m.values[sec] = map[string]string{}
			m.changed = true
			if sec != "" {
				added = append(added, sec)
			}
		}
	}
	for _, op := range []string{"r", "a", "c", "s"} {
		for _, c := range cmds {
			if c.Op != op {
				continue
			}
			switch op {
			case "r":
				if m.values[c.Arg] == nil {
					continue
				}
				delete(m.values, c.Arg)
				m.changed = true
				for b, s := range blocks {
					if s == c.Arg {
						m.removed[b] = true
					}
				}
			case "a":
				add(c.Arg)
			case "c":
				sec, name := split(c.Arg)
				if _, has := m.values[sec][name]; has {
					delete(m.values[sec], name)
					m.changed = true
					if i, has := last[sec+" "+name]; has {
						m.touched[i] = "removed"
					}
				}
			case "s":
				arg, value, _ := strings.Cut(c.Arg, "=")
				value = strings.TrimSpace(value)
				sec, name := split(arg)
				add(sec)
				if old, has := m.values[sec][name]; has && old == value {
					continue
				}
				m.values[sec][name] = value
				m.changed = true
				if i, has := last[sec+" "+name]; has && m.touched[i] == "" {
					m.touched[i] = "set"
				}
			}
		}
	}
	for b := 1; b <= len(blocks); b++ {
		if !m.removed[b] {
			m.headers = append(m.headers, blocks[b])
		}
	}
	m.headers = append(m.headers, added...)
	return m
}

func confArgs(cmds []EditorCmd) []string {
	var args []string
	for _, c := range cmds {
		args = append(args, "-"+c.Op, c.Arg)
	}
	return append(args, "conf")
}

// editorDomain tells the known finding a case runs into.
func editorDomain(lines []confLine, cmds []EditorCmd, m confModel) string {
	first := map[string]int{} // first block of a section
	commented, count, empty := map[string]bool{}, map[string]int{}, map[string]bool{}
	removed, added := len(m.removed) > 0, len(m.headers) > 0
	for i, l := range lines {
		switch l.kind {
		case "header":
			if b, has := first[l.sec]; !has {
				first[l.sec] = l.block
			} else if m.removed[b] {
				return "KF-CONF-TWICE, all blocks of a section removed"
			}
			if m.removed[l.block] && (trimIndent(l.raw) != l.raw || i > 0 && lines[i-1].comment != "") {
				return "KF-CONF-CRASH, removed section preceded by a comment or space"
			}
		case "entry":
			k := l.sec + " " + l.name
			count[k]++
			empty[k] = l.value == ""
			commented[l.sec] = commented[l.sec] || l.comment != ""
			removed = removed || l.sec == "" && m.touched[i] == "removed"
			if l.comment != "" && m.touched[i] == "removed" && i+1 < len(lines) && lines[i+1].kind == "comment" {
				return "KF-CONF-LOST, a removed entry with a comment before a comment line"
			}
			if l.comment != "" && (l.value == "" || m.touched[i] == "set" && m.values[l.sec][l.name] == "") {
				return "KF-CONF-EMPTY, a comment after an empty value"
			}
		}
		added = added && (l.kind != "header" || m.removed[l.block])
	}
	if added && removed {
		return "KF-CONF-ADD, a section added after an emptied one"
	}
	for s, vs := range m.values {
		for name, v := range vs {
			k := s + " " + name
			if count[k] == 0 && commented[s] {
				return "KF-CONF-TAIL, a new entry after a comment"
			}
			if count[k] > 1 && empty[k] && v != "" {
				return "KF-CONF-STALE, the last of repeated entries has no value"
			}
		}
	}
	for _, c := range cmds {
		if s := c.Arg[:max(0, strings.LastIndexByte(strings.SplitN(c.Arg, "=", 2)[0], '.'))]; c.Op == "c" && commented[s] {
			for _, d := range cmds {
				if d.Op == "s" && (d.Arg == c.Arg || strings.HasPrefix(d.Arg, c.Arg+"=")) {
					return "KF-CONF-TAIL, a new entry after a comment"
				}
			}
		}
	}
	return ""
}

// trimIndent drops the indentation: that of a removed line goes to the next one.
func trimIndent(s string) string { return strings.TrimLeft(s, " \t") }

func checkEditor(c EditorCase, r *engine.Rec) error {
	dir := scratch()
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "conf")
	text := string(c.File)
	if c.Absent {
		text = ""
	} else if e := os.WriteFile(file, []byte(text), 0o644); e != nil {
		engine.InfraFail("%v", e)
	}
	lines, ok := readConf(text)
	wrongArg := false
	for _, x := range c.Cmds {
		arg, _, _ := strings.Cut(x.Arg, "=")
		if x.Op != "s" {
			arg = x.Arg
		}
		wrongArg = wrongArg || !confArgRe.MatchString(arg)
	}
	if !ok && !wrongArg && len(c.Cmds) > 0 {
		// others may run into known findings
		c.Cmds = []EditorCmd{{"a", "new.section"}}
	}
	res := runProc(dir, "", toolPath("conf-edit"), confArgs(c.Cmds)...)
	got, e := os.ReadFile(file)
	where := func(format string, args ...any) error {
		return violation("%s\nfile:\n%s\ncommands: %q\nresult (exit code %d, output %q, %q):\n%s", fmt.Sprintf(format, args...), text, confArgs(c.Cmds), res.code, trim(res.out), trim(res.err), got)
	}
	if res.timeout {
		return where("conf-edit does not finish")
	}
	same := string(got) == text && (e == nil) == !c.Absent
	if !ok || wrongArg {
		r.ClassIf(!ok, "wrong file")
		r.ClassIf(wrongArg, "wrong option")
		r.TrivialIf(len(lines) == 0 && len(text) < 2)
		if !wrongArg && res.code == 0 {
			// KF-CONF-REST
			r.Trivial()
			r.Class("outside of the domain: extra text after a correct part")
			return nil
		}
		if res.code != 2 {
			return where("exit code is %d, expected 2", res.code)
		}
		if wrongArg && !strings.Contains(res.err, "incorrect parameter") || !wrongArg && !strings.HasPrefix(res.out, "error: ") {
			return where("no error message")
		}
		if !same {
			return where("the file is changed in spite of the error")
		}
		return nil
	}
	m := runConfModel(lines, c.Cmds)
	if ex := editorDomain(lines, c.Cmds, m); ex != "" {
		r.Trivial()
		r.Class("outside of the domain: " + ex)
		return nil
	}
	if res.code != 0 || res.out != "" || res.err != "" {
		return where("the command fails")
	}
	r.ClassIf(m.changed, "changed")
	r.ClassIf(len(m.removed) > 0, "section removed")
	r.ClassIf(c.Absent, "no file")
	r.TrivialIf(len(lines) < 2 && len(c.Cmds) < 2)
	if !m.changed {
		r.Class("nothing to change")
		if !same {
			return where("the file is changed though nothing is to be changed")
		}
		return nil
	}
	if e != nil {
		return where("%v", e)
	}
	out, ok := readConf(string(got))
	if !ok {
		return where("the result is not a correct file")
	}
	// values
	var headers []string
	values := map[string]map[string]string{}
	for s := range m.values {
		values[s] = map[string]string{}
	}
	for _, l := range out {
		if l.kind == "header" {
			headers = append(headers, l.sec)
		}
		if l.kind != "entry" {
			continue
		}
		if values[l.sec] == nil {
			return where("unexpected section %q", l.sec)
		}
		if _, has := values[l.sec][l.name]; has {
			return where("entry %q of section %q is given twice", l.name, l.sec)
		}
		values[l.sec][l.name] = l.value
	}
	if fmt.Sprint(values) != fmt.Sprint(m.values) {
		return where("values are %v, expected %v", values, m.values)
	}
	if strings.Join(headers, " ") != strings.Join(m.headers, " ") {
		return where("sections are %v, expected %v", headers, m.headers)
	}
	// everything else is kept as it was
	at, seen := 0, map[int]bool{}
	find := func(fit func(l confLine) bool) bool {
		for i := at; i < len(out); i++ {
			if fit(out[i]) {
				at = i
				seen[i] = true
				return true
			}
		}
		return false
	}
	for i, l := range lines {
		if m.removed[l.block] || m.touched[i] == "removed" {
			continue
		}
		switch {
		case l.kind == "header":
			if !find(func(x confLine) bool { return x.kind == "header" && trimIndent(x.raw) == trimIndent(l.raw) }) {
				return where("line %q is lost", l.raw)
			}
			at++
		case l.kind == "entry" && m.touched[i] == "":
			if !find(func(x confLine) bool {
				return x.kind == "entry" && trimIndent(x.raw) == trimIndent(l.raw) && x.sec == l.sec
			}) {
				return where("line %q is changed or lost", l.raw)
			}
			at++
		case l.kind == "entry":
			if !find(func(x confLine) bool {
				return x.kind == "entry" && x.name == l.name && x.sec == l.sec
			}) {
				if _, has := m.values[l.sec][l.name]; has {
					return where("entry %q is not in its place", l.raw)
				}
				continue
			}
			if out[at].comment != l.comment || strings.Trim(out[at].lead, " \t") != strings.Trim(l.lead, " \t") {
				return where("line %q is changed to %q: something besides the value is changed", l.raw, out[at].raw)
			}
			at++
		case l.kind == "comment":
			if !find(func(x confLine) bool { return x.comment == l.comment && x.kind == "comment" }) {
				return where("comment %q is lost", l.comment)
			}
			at++
		}
	}
	// comments are not invented, values are written by commands only
	count := map[string]int{}
	for _, l := range lines {
		if l.comment != "" {
			count[l.comment]++
		}
	}
	for i, l := range out {
		if l.comment != "" {
			if count[l.comment]--; count[l.comment] < 0 {
				return where("comment %q is repeated", l.comment)
			}
		}
		if l.kind == "entry" && !seen[i] && l.comment != "" {
			return where("a new entry gets comment %q", l.comment)
		}
	}
	// a run without commands changes nothing more
	res = runProc(dir, "", toolPath("conf-edit"), "conf")
	again, e := os.ReadFile(file)
	if e != nil || res.code != 0 || string(again) != string(got) {
		return where("one more run without commands makes it %q", again)
	}
	return nil
}

func genEditor(t *rapid.T) EditorCase {
	secs := []string{"s", "s.t", "a", "b-c", "s.t.u"}
	names := []string{"a", "b", "c-d", "x", "s"}
	sec := func() string { return rapid.SampledFrom(secs).Draw(t, "sec") }
	name := func() string { return rapid.SampledFrom(names).Draw(t, "name") }
	sp := func() string { return rapid.SampledFrom([]string{"", "", "", " ", "\t", "  "}).Draw(t, "space") }
	value := func() string {
		return rapid.SampledFrom([]string{"", "1", "2", "two words", "=", "a=b", "[s]", "é ü", `"q"`, "a.b", "]", "x=1"}).Draw(t, "value")
	}
	nc := 0
	comment := func() string {
		nc++
		return fmt.Sprintf("#%s%d", rapid.SampledFrom([]string{"", " c", "#", " a=1 ", "[s]"}).Draw(t, "comment"), nc)
	}
	c := EditorCase{Absent: gram.Chance(t, 5, "absent")}
	var b strings.Builder
	nl := "\n"
	mixed := gram.Chance(t, 15, "mixed")
	if gram.Chance(t, 15, "crlf") {
		nl = "\r\n"
	}
	n := rapid.IntRange(0, 12).Draw(t, "lines")
	bad := -1
	if gram.Chance(t, 8, "wrongFile") {
		bad = rapid.IntRange(0, n).Draw(t, "badAt")
	}
	for i := 0; i <= n; i++ {
		line := ""
		if i == bad {
			line = rapid.SampledFrom([]string{"=1", "[", "[s", "]", "[]", "a", "a b=1", "1=2", "\x01", "[s] a=1", "[a b]", "?", "a.b=1", "[s]]", "é=1", "[-a]", "a-=1"}).Draw(t, "bad")
		} else if i == n {
			break
		} else {
			switch k := rapid.IntRange(0, 9).Draw(t, "kind"); {
			case k < 5:
				v := value()
				line = sp() + name() + sp() + "=" + sp() + v + sp()
				if (v != "" || gram.Chance(t, 3, "emptyTail")) && gram.Chance(t, 25, "tail") {
					line += comment()
				}
			case k < 7:
				line = sp() + "[" + sp() + sec() + sp() + "]" + sp()
			case k < 8:
				line = sp() + comment()
			default:
				line = sp()
			}
		}
		b.WriteString(line)
		if mixed {
			nl = rapid.SampledFrom([]string{"\n", "\r\n", "\r"}).Draw(t, "nl")
		}
		if i < n-1 || !gram.Chance(t, 20, "noFinalNl") {
			b.WriteString(nl)
		}
	}
	c.File = Str(b.String())
	full := func() string {
		if gram.Chance(t, 40, "rootName") {
			return name()
		}
		return sec() + "." + name()
	}
	for k := rapid.IntRange(0, 5).Draw(t, "cmds"); k > 0; k-- {
		x := EditorCmd{Op: rapid.SampledFrom([]string{"r", "a", "c", "c", "s", "s", "s"}).Draw(t, "op")}
		switch x.Op {
		case "r", "a":
			x.Arg = sec()
		case "c":
			x.Arg = full()
		default:
			x.Arg = full()
			if !gram.Chance(t, 15, "noValue") {
				x.Arg += "=" + sp() + value() + sp()
			}
		}
		if gram.Chance(t, 2, "wrongArg") {
			x.Arg = rapid.SampledFrom([]string{"1", ".", "a.", ".a", "a..b", "a b", "=1", "-", "é"}).Draw(t, "arg")
		}
		c.Cmds = append(c.Cmds, x)
	}
	return c
}

func init() {
	for _, x := range []struct {
		name, text, want, what string
		args                   []string
	}{
		{"KF-CONF-EMPTY", "a= #c\nb=1\n", "a= #c\nb=2\n", "the line after an empty value with a comment is taken for the value", []string{"-s", "b=2"}},
		{"KF-CONF-LOST", "a=1 #c\n#d\n\n", "#d\n\n", "a comment line is removed together with the commented entry above it", []string{"-c", "a"}},
		{"KF-CONF-REST", "a=1\n?\nb=2\n", "a=1\n?\nb=2\n", "everything after a wrong token that follows a correct line is deleted", []string{"-c", "a"}},
		{"KF-CONF-CRASH", "#c\n[s]\na=1\n", "#c\n", "the editor crashes removing a section preceded by a comment", []string{"-r", "s"}},
		{"KF-CONF-TWICE", "[s]\na=1\n[s]\nb=1\n", "", "only the first one of blocks of a section is removed", []string{"-r", "s"}},
		{"KF-CONF-TAIL", "a=1 #c\n", "a=1 #c\nb=2\n", "a new entry is written inside the value of the one with a comment", []string{"-s", "b=2"}},
		{"KF-CONF-STALE", "a=1\na=\n", "a=2\n", "a value is written to the dropped one of repeated entries", []string{"-s", "a=2"}},
		{"KF-CONF-ADD", "a=1\n", "[s]\n", "the editor crashes adding a section after the only one that is left without entries", []string{"-c", "a", "-a", "s"}},
	} {
		engine.RegisterProbe("C35", x.name, func() error {
			dir := scratch()
			defer os.RemoveAll(dir)
			file := filepath.Join(dir, "conf")
			os.WriteFile(file, []byte(x.text), 0o644)
			runProc(dir, "", toolPath("conf-edit"), append(x.args, "conf")...)
			if got, _ := os.ReadFile(file); string(got) != x.want {
				return violation("%s: file %q with %q becomes %q, expected %q", x.what, x.text, x.args, got, x.want)
			}
			return nil
		})
	}
	engine.Define("C35", "a case is a run of the built configuration editor on a random file (0-12 lines: entries, sections, comments, empty lines, repeated names, CR LF, no final line break, 8 % wrong ones) with 0-5 commands; non-trivial: at least two lines or commands")
	engine.Register("C35", "edits", 16000, 300000, genEditor, checkEditor)
}
