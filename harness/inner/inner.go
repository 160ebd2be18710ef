// Package inner holds the checks of internal packages; it is built separately from the rest
// so that a change of an internal API does not stop the other checks.
package inner

import (
	"fmt"
	"slices"
	"sort"

	"github.com/ava12/llx/internal/ints"
	"github.com/ava12/llx/internal/queue"
	"github.com/ava12/llx/verifharness/engine"
	"github.com/ava12/llx/verifharness/gram"
	"pgregory.net/rapid"
)

// SetCase is a history of operations on a few sets.
type SetCase struct{ Ops []SetOp }

// SetOp is an operation: A and B are set numbers, R is the number of the set that gets the result.
type SetOp struct {
	K       string
	A, B, R int   `json:",omitempty"`
	Items   []int `json:",omitempty"`
}

type mset map[int]bool

func (m mset) copy() mset {
	r := mset{}
	for k := range m {
		r[k] = true
	}
	return r
}

func (m mset) slice() []int {
	r := make([]int, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

const setCount = 4

func genItem(t *rapid.T) int {
	switch rapid.IntRange(0, 4).Draw(t, "range") {
	case 0:
		return rapid.SampledFrom([]int{-129, -128, -127, -65, -64, -63, -1, 0, 1, 31, 32, 62, 63, 64, 65, 127, 128, 191, 192}).Draw(t, "edge")
	case 1:
		if gram.Chance(t, 5, "very far") {
			return rapid.SampledFrom([]int{-100000, -65536, -32769, -32768, -4097, 4095, 4096, 32767, 32768, 65535, 65536, 100000}).Draw(t, "veryFar")
		}
		return rapid.IntRange(-2000, 2000).Draw(t, "far")
	default:
		return rapid.IntRange(-3, 140).Draw(t, "item")
	}
}

func checkSet(s *ints.Set, m mset, what string, n int, op SetOp) error {
	want := m.slice()
	if got := s.ToSlice(); !slices.Equal(got, want) {
		return fmt.Errorf("operation #%d %+v: %s is %v, expected %v", n, op, what, got, want)
	}
	if s.IsEmpty() != (len(m) == 0) {
		return fmt.Errorf("operation #%d %+v: %s: IsEmpty is %v for %v", n, op, what, s.IsEmpty(), want)
	}
	return nil
}

// DequeCase is a history of operations on a double-ended queue.
type DequeCase struct {
	Init int
	Ops  []DequeOp
}

// DequeOp is an operation repeated N times, or with an argument.
type DequeOp struct {
	K string
	N int
}

func init() {
	engine.Define("C28", "a case is a history of 1-40 operations on 4 sets (add, remove, copy, union, intersection, difference both in place and into a new set, comparison) over items from -2000 to 2000 with word boundaries preferred; after every operation all the sets are compared with map-based ones, so aliasing shows; non-trivial: a binary operation with two non-empty sets")
	engine.Register("C28", "sets", 360000, 3600000,
		func(t *rapid.T) SetCase {
			var c SetCase
			kinds := []string{"add", "add", "add", "remove", "copy", "union", "intersect", "subtract", "Union", "Intersect", "Subtract", "equal", "new", "clone"}
			for n := rapid.IntRange(1, 40).Draw(t, "ops"); n > 0; n-- {
				op := SetOp{K: rapid.SampledFrom(kinds).Draw(t, "kind"), A: rapid.IntRange(0, setCount-1).Draw(t, "a"), B: rapid.IntRange(0, setCount-1).Draw(t, "b"), R: rapid.IntRange(0, setCount-1).Draw(t, "r")}
				switch op.K {
				case "add", "remove", "new":
					for k := rapid.IntRange(0, gram.Scale(t, 4, 10)).Draw(t, "count"); k > 0; k-- {
						op.Items = append(op.Items, genItem(t))
					}
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		},
		func(c SetCase, r *engine.Rec) error {
			var s [setCount]*ints.Set
			var m [setCount]mset
			for i := range s {
				s[i] = ints.NewSet()
				m[i] = mset{}
			}
			binary := false
			for n, op := range c.Ops {
				a, b := m[op.A], m[op.B]
				res := mset{}
				switch op.K {
				case "union", "Union":
					res = a.copy()
					for k := range b {
						res[k] = true
					}
				case "intersect", "Intersect":
					for k := range a {
						if b[k] {
							res[k] = true
						}
					}
				case "subtract", "Subtract":
					for k := range a {
						if !b[k] {
							res[k] = true
						}
					}
				}
				switch op.K {
				case "add":
					if s[op.A].Add(op.Items...) != s[op.A] {
						return fmt.Errorf("Add returned another set")
					}
					for _, x := range op.Items {
						a[x] = true
					}
				case "remove":
					s[op.A].Remove(op.Items...)
					for _, x := range op.Items {
						delete(a, x)
					}
				case "new":
					if n%2 == 0 {
						s[op.R] = ints.NewSet(op.Items...)
					} else {
						s[op.R] = ints.FromSlice(op.Items)
					}
					m[op.R] = mset{}
					for _, x := range op.Items {
						m[op.R][x] = true
					}
				case "copy", "clone":
					s[op.R], m[op.R] = s[op.A].Copy(), a.copy()
				case "union":
					s[op.A].Union(s[op.B])
					m[op.A] = res
				case "intersect":
					s[op.A].Intersect(s[op.B])
					m[op.A] = res
				case "subtract":
					s[op.A].Subtract(s[op.B])
					m[op.A] = res
				case "Union":
					s[op.R], m[op.R] = ints.Union(s[op.A], s[op.B]), res
				case "Intersect":
					s[op.R], m[op.R] = ints.Intersect(s[op.A], s[op.B]), res
				case "Subtract":
					s[op.R], m[op.R] = ints.Subtract(s[op.A], s[op.B]), res
				case "equal":
				}
				if len(a) > 0 && len(b) > 0 && op.K != "add" && op.K != "remove" && op.K != "new" && op.K != "copy" && op.K != "clone" {
					binary = true
				}
				for i := range s {
					if e := checkSet(s[i], m[i], "set "+string(rune('A'+i)), n, op); e != nil {
						return e
					}
					for j := range s {
						if got, want := s[i].IsEqual(s[j]), slices.Equal(m[i].slice(), m[j].slice()); got != want {
							return fmt.Errorf("operation #%d %+v: IsEqual is %v for %v and %v", n, op, got, m[i].slice(), m[j].slice())
						}
					}
				}
				for _, x := range []int{-2001, -65, -64, -1, 0, 1, 63, 64, 127, 128, 2001} {
					if s[op.A].Contains(x) != m[op.A][x] {
						return fmt.Errorf("operation #%d %+v: Contains(%d) is %v", n, op, x, s[op.A].Contains(x))
					}
				}
				for x := range m[op.A] {
					if !s[op.A].Contains(x) || s[op.A].Contains(x+1) != m[op.A][x+1] {
						return fmt.Errorf("operation #%d %+v: Contains is wrong near %d", n, op, x)
					}
				}
			}
			r.TrivialIf(!binary)
			return nil
		})

	engine.Define("C29", "a case is an initial content of 0-20 items and a history of 1-60 bursts of operations on both ends of a queue, with peeks from both ends, copies of the content, refilling and clearing; non-trivial: the queue gets longer than 8 items and items are taken; one of 4000 cases has bursts of up to 70000 operations")
	engine.Register("C29", "deque", 800000, 8000000,
		func(t *rapid.T) DequeCase {
			c := DequeCase{Init: rapid.IntRange(0, gram.Scale(t, 20, 10)).Draw(t, "init")}
			kinds := []string{"append", "append", "append", "prepend", "prepend", "first", "first", "last", "peek", "items", "fill", "clear"}
			for n := rapid.IntRange(1, 60).Draw(t, "ops"); n > 0; n-- {
				op := DequeOp{K: rapid.SampledFrom(kinds).Draw(t, "kind")}
				if op.K == "clear" && gram.Chance(t, 70, "noclear") {
					op.K = "append"
				}
				op.N = rapid.IntRange(0, gram.Scale(t, 12, 40)).Draw(t, "n")
				c.Ops = append(c.Ops, op)
			}
			// a few long bursts make large queues
			if rapid.IntRange(0, 3999).Draw(t, "huge") == 0 {
				c.Ops = c.Ops[:min(len(c.Ops), 12)]
				for n := rapid.IntRange(1, 4).Draw(t, "bursts"); n > 0; n-- {
					i := rapid.IntRange(0, len(c.Ops)-1).Draw(t, "burst")
					c.Ops[i].K = rapid.SampledFrom([]string{"append", "append", "prepend", "first", "last", "fill"}).Draw(t, "burstKind")
					if c.Ops[i].K == "prepend" {
						c.Ops[i].N = rapid.IntRange(200, 3000).Draw(t, "burstSize")
					} else {
						c.Ops[i].N = rapid.SampledFrom([]int{255, 1000, 2047, 2049, 4097, 5000, 8191, 16385, 33000, 70000}).Draw(t, "burstSize")
					}
				}
			}
			return c
		},
		func(c DequeCase, r *engine.Rec) error {
			var m []int
			next := 0
			item := func() int { next++; return next }
			for i := 0; i < c.Init; i++ {
				m = append(m, item())
			}
			q := queue.New(m...)
			m = append([]int(nil), m...)
			long, taken := false, false
			var saved [][]int
			var savedCopy [][]int
			for n, op := range c.Ops {
				for k := 0; k < max(op.N, 1); k++ {
					switch op.K {
					case "append":
						x := item()
						q.Append(x)
						m = append(m, x)
					case "prepend":
						x := item()
						q.Prepend(x)
						m = slices.Insert(m, 0, x)
					case "first", "last":
						var x int
						var ok bool
						want := 0
						if op.K == "first" {
							x, ok = q.First()
							if len(m) > 0 {
								want = m[0]
								m = m[1:]
							}
						} else {
							x, ok = q.Last()
							if len(m) > 0 {
								want = m[len(m)-1]
								m = m[:len(m)-1]
							}
						}
						taken = taken || want != 0
						if x != want || ok != (want != 0) {
							return fmt.Errorf("operation #%d %+v: got %d %v, expected %d", n, op, x, ok, want)
						}
					}
				}
				switch op.K {
				case "fill":
					var l []int
					for k := 0; k < op.N*2; k++ {
						l = append(l, item())
					}
					q.Fill(l)
					m = append([]int(nil), l...)
					for k := range l {
						l[k] = -1
					}
				case "clear":
					q.Clear()
					m = nil
				case "items":
					saved = append(saved, q.Items())
					savedCopy = append(savedCopy, append([]int(nil), m...))
				}
				long = long || len(m) > 8
				if q.Len() != len(m) || q.IsEmpty() != (len(m) == 0) || !slices.Equal(q.Items(), m) {
					return fmt.Errorf("operation #%d %+v: the queue has %d items %v, expected %v", n, op, q.Len(), q.Items(), m)
				}
				for _, i := range []int{op.N, -op.N, len(m) - 1, len(m), -len(m), -len(m) - 1, 0} {
					want, has := 0, false
					if i >= 0 && i < len(m) {
						want, has = m[i], true
					} else if i < 0 && -i <= len(m) {
						want, has = m[len(m)+i], true
					}
					if x, ok := q.Peek(i); x != want || ok != has {
						return fmt.Errorf("operation #%d %+v: Peek(%d) is %d %v, expected %d", n, op, i, x, ok, want)
					}
				}
			}
			for i := range saved {
				if !slices.Equal(saved[i], savedCopy[i]) {
					return fmt.Errorf("a copy of items has changed: %v, was %v", saved[i], savedCopy[i])
				}
			}
			r.TrivialIf(!long || !taken)
			return nil
		})
}
