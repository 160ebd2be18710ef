package props

import (
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/verifharness/engine"
)

// accepts parses a fixed source with a fixed description, used by probes of known findings only.
func accepts(desc, src string) (bool, error) {
	_, p, e := compile(desc)
	if e != nil {
		return false, e
	}
	_, e = p.ParseString(newLimit(1000), "src", src, parser.Hooks{}, parser.WithFullSource())
	return e == nil, nil
}

func init() {
	engine.RegisterProbe("C01", "KF-LOOP", func() error {
		ok, e := accepts(`$l = /[a-z]/; $d = /[0-9]/; g = [{$d}, $l];`, "1")
		if e == nil && ok {
			e = violation(`g = [{$d}, $l] accepts "1"`)
		}
		return e
	})
	engine.RegisterProbe("C01", "KF-EOI-TAIL", func() error {
		ok, e := accepts(`$l = /[a-z;]/; g = {'a', ';' | $}, 'z';`, "a")
		if e == nil && ok {
			e = violation(`g = {'a', ';' | $}, 'z' accepts "a"`)
		}
		return e
	})
	engine.RegisterProbe("C02", "KF-NULL", func() error {
		ok, e := accepts(`$l = /[a-z]/; g = b, 'x'; b = ['a'];`, "x")
		if e == nil && !ok {
			e = violation(`g = b, 'x'; b = ['a'] does not accept "x"`)
		}
		return e
	})
	engine.RegisterProbe("C05", "KF-EOI-LOOP", func() error {
		_, p, e := compile(`$name = /[a-z]+/; $nl = /\n/; file = {line}; line = [$name], $nl | $;`)
		if e != nil {
			return e
		}
		_, e = p.ParseString(newLimit(1000), "src", "a\n", parser.Hooks{}, parser.WithFullSource())
		if e != nil {
			e = violation(`file = {line}; line = [$name], $nl | $ does not stop on "a\n": %v`, e)
		}
		return e
	})
	engine.RegisterProbe("C20", "KF-HOOK-TYPE", func() error {
		ok, e := accepts(`$name = /\w+/; $digraph = /\(\.|\.\)/; $op = /[\[\]]/; @convert input-type(digraph) output-type(op) convert('(.', '[', '.)', ']'); g = $name, '[', $name, ']';`, "foo(.bar.)")
		if e == nil && !ok {
			e = violation(`g = $name, '[', $name, ']' with digraphs converted does not accept "foo(.bar.)"`)
		}
		return e
	})
}
