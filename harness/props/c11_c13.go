package props

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"unicode/utf8"

	"github.com/ava12/llx/source"
	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

// LineCase is a content with a history of queries.
type LineCase struct {
	Content Str
	Q       []LineQuery
}

// LineQuery is an offset (if Back is not set) or a line and a column.
type LineQuery struct {
	Back      bool `json:",omitempty"`
	Off       int  `json:",omitempty"`
	Line, Col int  `json:",omitempty"`
	Via       int  `json:",omitempty"` // 0: Source, 1: captured position, 2: Queue
}

var textPieces = []string{"a", "bc", "\n", "\n\n", " ", "ы", "中文", "\U0001F600", "\t", "e\u0301", "x\n", "\r", "\uFEFF", "\u2028"}

func genText(t *rapid.T, max int) string {
	var b strings.Builder
	for n := rapid.IntRange(0, max).Draw(t, "pieces"); n > 0; n-- {
		if rapid.IntRange(0, 30).Draw(t, "oddPiece") == 0 {
			b.WriteString(string(rapid.Rune().Draw(t, "rune")))
			continue
		}
		b.WriteString(rapid.SampledFrom(textPieces).Draw(t, "piece"))
	}
	return b.String()
}

func extremeInt(t *rapid.T) int {
	return rapid.SampledFrom([]int{math.MaxInt, math.MaxInt - 1, math.MinInt, math.MinInt + 1, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, -1000, 1 << 16, 1<<16 - 1}).Draw(t, "extremeInt")
}

// scanPos finds an offset by line and column as documented.
func scanPos(text string, line, col int) int {
	if line < 1 || col < 1 {
		return 0
	}
	lines := strings.SplitAfter(text, "\n")
	if line > len(lines) {
		return len(text)
	}
	off := 0
	for i := 0; i < line-1; i++ {
		off += len(lines[i])
	}
	l := strings.TrimSuffix(lines[line-1], "\n")
	for i := range l {
		if col == 1 {
			return off + i
		}
		col--
	}
	return off + len(l)
}

// QueueCase is a history of operations on a source queue.
type QueueCase struct {
	Sources []Str
	Ops     []QueueOp
}

// QueueOp is an operation with an argument.
type QueueOp struct {
	K string
	N int `json:",omitempty"`
}

type modelItem struct {
	src int
	pos int
}

func (c QueueCase) size(i int) int { return len(c.Sources[i]) }

// NlCase is a content placed inside a bigger array.
type NlCase struct {
	Pieces     []int
	Pre, Spare int
	Cap        bool `json:",omitempty"`
}

var nlPieces = []string{"\r\n", "\r", "\n", "a", "ы", "bcd", "\r\r\n", "\n\r", "\x00", "\xff"}

func init() {
	engine.Define("C11", "a case is a content of 0-40 pieces, sometimes repeated up to 400 times (letters, multi-byte runes, line feeds, other separators) and a history of 1-30 conversions of offsets and line/column pairs made through a source, a captured position or a queue; non-trivial: at least two lines and two queries")
	engine.Register("C11", "history", 1500000, 15000000,
		func(t *rapid.T) LineCase {
			c := LineCase{Content: Str(genText(t, 40))}
			if gram.Chance(t, 15, "big") {
				var b strings.Builder
				for n := rapid.IntRange(1, 4).Draw(t, "parts"); n > 0; n-- {
					b.WriteString(strings.Repeat(genText(t, 4), rapid.IntRange(0, 400).Draw(t, "times")))
				}
				c.Content = Str(b.String())
			}
			l := len(c.Content)
			lines := strings.Count(string(c.Content), "\n") + 1
			for n := rapid.IntRange(1, 30).Draw(t, "queries"); n > 0; n-- {
				q := LineQuery{Back: gram.Chance(t, 30, "back"), Via: rapid.IntRange(0, 2).Draw(t, "via")}
				if q.Back {
					q.Line = rapid.IntRange(-1, lines+2).Draw(t, "line")
					q.Col = rapid.IntRange(-1, 12).Draw(t, "col")
					switch rapid.IntRange(0, 9).Draw(t, "colKind") {
					case 0, 1:
						q.Col = rapid.IntRange(1, l+2).Draw(t, "farCol")
					case 2, 3:
						if ls := strings.Split(string(c.Content), "\n"); q.Line > 0 && q.Line <= len(ls) {
							q.Col = utf8.RuneCountInString(ls[q.Line-1]) + rapid.IntRange(-2, 3).Draw(t, "pastLine")
						}
					}
				} else {
					q.Off = rapid.IntRange(-2, l+3).Draw(t, "off")
				}
				if gram.Chance(t, 2, "extreme") {
					x := extremeInt(t)
					switch {
					case !q.Back:
						q.Off = x
					case rapid.Bool().Draw(t, "extremeLine"):
						q.Line = x
					default:
						q.Col = x
					}
				}
				c.Q = append(c.Q, q)
			}
			return c
		},
		func(c LineCase, r *engine.Rec) error {
			text := string(c.Content)
			s := source.New("src", []byte(text))
			queue := source.NewQueue().Append(s)
			r.TrivialIf(!strings.Contains(text, "\n") || len(c.Q) < 2)
			for i, q := range c.Q {
				if q.Back {
					if got, want := s.Pos(q.Line, q.Col), scanPos(text, q.Line, q.Col); got != want {
						return violation("query #%d: offset of line %d column %d is %d, expected %d in %q", i, q.Line, q.Col, got, want, text)
					}
					continue
				}
				off := min(max(q.Off, 0), len(text))
				start := off
				for start > 0 && start < len(text) && !utf8.RuneStart(text[start]) {
					start--
				}
				var l, cl int
				switch q.Via {
				case 0:
					l, cl = s.LineCol(q.Off)
				case 1:
					l, cl = source.NewPos(s, q.Off).LineCol()
				default:
					l, cl = queue.LineCol(q.Off)
				}
				if start != off {
					r.Count("offsets inside runes", 1)
					continue
				}
				wl, wc := lineCol(text, off)
				if l != wl || cl != wc {
					return violation("query #%d: offset %d is at %d:%d, expected %d:%d in %q", i, q.Off, l, cl, wl, wc, text)
				}
				if back := s.Pos(l, cl); back != off {
					return violation("query #%d: offset %d is at %d:%d, converted back to %d in %q", i, q.Off, l, cl, back, text)
				}
			}
			return nil
		})

	engine.Define("C12", "a case is 1-5 sources (empty ones included) and a history of 1-60 operations: append, prepend, next, skip, rewind, seek, take a snapshot, restore any of the taken ones; non-trivial: at least two sources queued at once and one of next/restore")
	engine.Register("C12", "queue", 720000, 7500000,
		func(t *rapid.T) QueueCase {
			var c QueueCase
			for n := rapid.IntRange(1, gram.Scale(t, 5, 8)).Draw(t, "sources"); n > 0; n-- {
				c.Sources = append(c.Sources, Str(genText(t, 3)))
			}
			if rapid.IntRange(0, 499).Draw(t, "huge") == 0 {
				// sources of up to several hundred kilobytes
				i := rapid.IntRange(0, len(c.Sources)-1).Draw(t, "hugeAt")
				c.Sources[i] += Str(strings.Repeat(rapid.SampledFrom(textPieces).Draw(t, "hugePiece"), rapid.IntRange(1, 70000).Draw(t, "hugeTimes")))
			}
			kinds := []string{"append", "append", "prepend", "next", "skip", "rewind", "seek", "snap", "restore", "append", "prepend"}
			for n := rapid.IntRange(1, gram.Scale(t, 60, 5)).Draw(t, "ops"); n > 0; n-- {
				op := QueueOp{K: rapid.SampledFrom(kinds).Draw(t, "kind")}
				switch op.K {
				case "append", "prepend":
					op.N = rapid.IntRange(-1, len(c.Sources)-1).Draw(t, "src")
				case "skip", "rewind", "seek":
					op.N = rapid.IntRange(-2, 12).Draw(t, "n")
					switch rapid.IntRange(0, 29).Draw(t, "farKind") {
					case 0:
						op.N = extremeInt(t)
					case 1:
						// near the end of a source
						op.N = max(0, len(rapid.SampledFrom(c.Sources).Draw(t, "nearEnd"))+rapid.IntRange(-2, 2).Draw(t, "endShift"))
					}
				case "restore":
					op.N = rapid.IntRange(0, gram.Scale(t, 9, 10)).Draw(t, "snap")
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		},
		func(c QueueCase, r *engine.Rec) error {
			srcs := make([]*source.Source, len(c.Sources))
			for i, s := range c.Sources {
				// names do not have to be unique
				srcs[i] = source.New(fmt.Sprint("s", i/2), []byte(s))
			}
			q := source.NewQueue()
			var m []modelItem
			type snap struct {
				q source.QueueSnapshot
				m []modelItem
			}
			var snaps []snap
			two, moved := false, false
			check := func(i int, op QueueOp) error {
				if len(m) == 0 {
					l, cl := q.LineCol(1)
					ct, ps := q.ContentPos()
					if !q.IsEmpty() || !q.Eof() || q.Source() != nil || q.SourceName() != "" || q.Pos() != 0 || q.SourcePos() != (source.Pos{}) || l != 0 || cl != 0 || ct != nil || ps != 0 {
						return violation("operation #%d %v: the queue must be empty", i, op)
					}
					return nil
				}
				f := m[0]
				ct, ps := q.ContentPos()
				if q.IsEmpty() || q.Source() != srcs[f.src] || q.SourceName() != srcs[f.src].Name() || q.Pos() != f.pos || ps != f.pos ||
					string(ct) != string(c.Sources[f.src]) || q.Eof() != (f.pos >= c.size(f.src)) || q.SourcePos() != source.NewPos(srcs[f.src], f.pos) {
					return violation("operation #%d %v: at %q position %d, expected %q position %d", i, op, q.SourceName(), q.Pos(), srcs[f.src].Name(), f.pos)
				}
				return nil
			}
			for i, op := range c.Ops {
				switch op.K {
				case "append", "prepend":
					var s *source.Source
					if op.N >= 0 {
						s = srcs[op.N]
					}
					if op.K == "append" {
						if q.Append(s) != q {
							return violation("Append returned another queue")
						}
					} else if q.Prepend(s) != q {
						return violation("Prepend returned another queue")
					}
					if s == nil {
						break
					}
					// an empty source stays only as long as it is alone
					if len(m) == 1 && c.size(m[0].src) == 0 {
						m = nil
					}
					if len(m) > 0 && s.Len() == 0 {
						break
					}
					if op.K == "append" {
						m = append(m, modelItem{op.N, 0})
					} else {
						m = append([]modelItem{{op.N, 0}}, m...)
					}
				case "next":
					moved = true
					if len(m) > 0 {
						m = m[1:]
					}
					if got := q.NextSource(); got != (len(m) > 0) {
						return violation("operation #%d: NextSource returned %v", i, got)
					}
				case "skip":
					q.Skip(op.N)
					if len(m) > 0 && op.N > 0 {
						m[0].pos += min(op.N, c.size(m[0].src)-m[0].pos)
					}
				case "rewind":
					q.Rewind(op.N)
					if len(m) > 0 && op.N > 0 {
						m[0].pos -= min(op.N, m[0].pos)
					}
				case "seek":
					q.Seek(op.N)
					if len(m) > 0 {
						m[0].pos = min(max(op.N, 0), c.size(m[0].src))
					}
				case "snap":
					snaps = append(snaps, snap{q.Snapshot(), append([]modelItem(nil), m...)})
				case "restore":
					if len(snaps) > 0 {
						moved = true
						s := snaps[op.N%len(snaps)]
						q.Restore(s.q)
						m = append([]modelItem(nil), s.m...)
					}
				}
				two = two || len(m) > 1
				if e := check(i, op); e != nil {
					return e
				}
			}
			r.TrivialIf(!two || !moved)
			// drain
			for len(m) > 0 {
				m = m[1:]
				if q.NextSource() != (len(m) > 0) {
					return violation("draining: %d sources must be left", len(m))
				}
				if e := check(-1, QueueOp{K: "drain"}); e != nil {
					return e
				}
			}
			return nil
		})

	engine.Define("C13", "a case is a content of 0-40 pieces (CR, LF, CR LF and their runs, other bytes) in a slice with 0-8 bytes before and spare capacity after it; non-trivial: at least one CR")
	engine.Register("C13", "normalize", 1800000, 18000000,
		func(t *rapid.T) NlCase {
			return NlCase{
				Pieces: rapid.SliceOfN(rapid.IntRange(0, len(nlPieces)-1), 0, gram.Scale(t, 40, 30)).Draw(t, "pieces"),
				Pre:    rapid.IntRange(0, 8).Draw(t, "pre"),
				Spare:  rapid.IntRange(0, 8).Draw(t, "spare"),
				Cap:    gram.Chance(t, 30, "cap"),
			}
		},
		func(c NlCase, r *engine.Rec) error {
			var b bytes.Buffer
			for _, p := range c.Pieces {
				b.WriteString(nlPieces[p])
			}
			text := b.String()
			want := strings.ReplaceAll(strings.ReplaceAll(text, "\r\n", "\n"), "\r", "\n")
			r.TrivialIf(!strings.Contains(text, "\r"))
			pre, post := strings.Repeat("<", c.Pre), strings.Repeat(">", c.Spare)
			arr := []byte(pre + text + post)
			s := arr[c.Pre : c.Pre+len(text)]
			if c.Cap {
				s = s[:len(s):len(s)]
			}
			source.NormalizeNls(&s)
			if string(s) != want {
				return violation("normalized %q is %q, expected %q", text, s, want)
			}
			if string(arr[:c.Pre]) != pre || string(arr[c.Pre+len(text):]) != post {
				return violation("bytes around %q are changed: %q", text, arr)
			}
			source.NormalizeNls(&s)
			if string(s) != want {
				return violation("normalizing %q again gives %q", want, s)
			}
			return nil
		})
}
