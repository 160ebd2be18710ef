package gram

import (
	"strconv"
	"strings"
	"unicode/utf8"
)

// ScanDoc divides a text into lexemes of the description language, up to the first lexical error inclusive.
// Returns lexemes, their offsets, and the trailing spaces and comments.
func ScanDoc(text string) (ls []Lex, offs []int, tail Str) {
	letter := func(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	from := 0 // the end of the previous lexeme
	i := 0
	for i < len(text) {
		c := text[i]
		if c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r' {
			i++
			continue
		}
		if c == '#' {
			for i < len(text) && text[i] != '\n' {
				i++
			}
			continue
		}
		// word finds the end of an identifier
		word := func(p int) int {
			if p < len(text) && letter(text[p]) {
				for p < len(text) && identChar(text[p]) {
					p++
				}
			}
			return p
		}
		l := Lex{K: LBad}
		end := i
		switch {
		case letter(c):
			end = word(i)
			l.K = LName
		case c == '$':
			if end = i + 2; strings.HasPrefix(text[i:], "$$") && word(end) > end {
				end = word(end)
				l.K = LTmpl
			} else {
				end = word(i + 1)
				l.K = LTok
			}
		case c == '!':
			for end = i + 1; end < len(text) && text[end] >= 'a' && text[end] <= 'z'; end++ {
			}
			if end > i+1 {
				l.K = LDir
			}
		case strings.IndexByte("(){}[]=|,;@", c) >= 0:
			end = i + 1
			l.K = LOp
		case c == '\'':
			if p := strings.IndexByte(text[i+1:], '\''); p >= 0 {
				end = i + p + 2
				l.K = LStr
				l.V = Str(text[i+1 : end-1])
			}
		case c == '"' || c == '/':
			p := i + 1
			for p < len(text) && text[p] != c {
				if text[p] == '\\' {
					if p++; p >= len(text) || text[p] == '\n' {
						p = len(text)
						break
					}
				}
				p++
			}
			if p < len(text) && (c == '"' || p > i+1) {
				end = p + 1
				if c == '/' {
					l.K = LRe
					l.V = Str(text[i+1 : p])
				} else {
					l.K = LStr
					var v string
					v, l.Bad = unescape(text[i+1 : p])
					l.V = Str(v)
				}
			}
		}
		l.Sep = Str(text[from:i])
		if l.K == LBad {
			l.V = Str(text[i:])
			return append(ls, l), append(offs, i), ""
		}
		if l.K == LStr || l.K == LRe {
			l.Text = Str(text[i:end])
		} else {
			l.V = Str(text[i:end])
		}
		ls = append(ls, l)
		offs = append(offs, i)
		i = end
		from = end
	}
	return ls, offs, Str(text[from:])
}

// unescape returns the meaning of a text in double quotes, or the kind of error it contains.
func unescape(s string) (string, string) {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			out = append(out, s[i])
			continue
		}
		i++
		w := 0
		switch s[i] {
		case '\\', '"':
			out = append(out, s[i])
		case 'n':
			out = append(out, '\n')
		case 'r':
			out = append(out, '\r')
		case 't':
			out = append(out, '\t')
		case 'x':
			w = 2
		case 'u':
			w = 4
		case 'U':
			w = 8
		default:
			return "", "escape"
		}
		if w == 0 {
			continue
		}
		if i+w >= len(s) {
			return "", "escape"
		}
		h := s[i+1 : i+1+w]
		for _, c := range []byte(h) {
			if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
				return "", "escape"
			}
		}
		v, _ := strconv.ParseUint(h, 16, 64)
		i += w
		if w == 2 {
			out = append(out, byte(v))
		} else if v > 0x10ffff || v >= 0xd800 && v < 0xe000 {
			return "", "rune"
		} else {
			out = utf8.AppendRune(out, rune(v))
		}
	}
	return string(out), ""
}
