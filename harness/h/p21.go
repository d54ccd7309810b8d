package h

import (
	"github.com/lestrrat-go/helium/internal/stack"
	"github.com/lestrrat-go/helium/internal/stack/nsstack"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

func digit(n int) string { return string(rune('0' + n)) }

func checkSimple(s *stack.SimpleStack, m []int) {
	sym.Assert(s.Len() == len(m), "stack length differs from the number of items left")
	all := s.Peek(len(m) + 3)
	sym.Assert(len(all) == len(m), "peeking at more than everything does not give everything")
	for i := range m {
		sym.Assert(all[i] == stack.AnyItem(m[i]), "stack content differs from the items left, in order")
	}
	sym.Assert(s.Cap() >= s.Len(), "capacity below length")
}

// P21_simple: SimpleStack filled with 0..3, 20..23 or 41 items (around the shrink threshold at 20), then 3 (thorough: 4)
// operations out of push, pop(), pop(n) for n in {-1,0,1,2,5,19,21,60} and peek(n) for n in {0,1,2,30}, compared with a list after each.
func P21_simple() {
	fills := []int{0, 1, 2, 3, 20, 21, 22, 23, 41}
	pops := []int{-1, 0, 1, 2, 5, 19, 21, 60}
	peeks := []int{0, 1, 2, 30}
	var s stack.SimpleStack
	var m []int
	next := 0
	push := func() {
		s.Push(next)
		m = append(m, next)
		next++
	}
	for i := fills[sym.Choice("fill", len(fills))]; i > 0; i-- {
		push()
	}
	steps := 3
	if sym.Thorough() {
		steps = 4
	}
	for k := 0; k < steps; k++ {
		op := sym.Choice("op"+digit(k), 2+len(pops)+len(peeks))
		switch {
		case op == 0:
			push()
		case op == 1:
			s.Pop()
			if len(m) > 0 {
				m = m[:len(m)-1]
			}
		case op < 2+len(pops):
			n := pops[op-2]
			s.Pop(n)
			if n > len(m) {
				n = len(m)
			}
			if n > 0 {
				m = m[:len(m)-n]
			}
		default:
			n := peeks[op-2-len(pops)]
			got := s.Peek(n)
			if n > len(m) {
				n = len(m)
			}
			sym.Assert(len(got) == n, "peek returned the wrong number of items")
			for i := range got {
				sym.Assert(got[i] == stack.AnyItem(m[len(m)-n+i]), "peek returned other items than the topmost")
			}
		}
		checkSimple(&s, m)
	}
	sym.Reach("done")
}

type keyed struct {
	k string
	v int
}

func (k keyed) Key() string { return k.k }

func checkUnique(s *stack.UniqueStack, m []keyed) {
	sym.Assert(s.Len() == len(m), "keyed stack length differs from the number of items left")
	all := s.Peek(len(m) + 3)
	sym.Assert(len(all) == len(m), "peeking at more than everything does not give everything")
	for i := range m {
		sym.Assert(all[i].(keyed).v == m[i].v, "keyed stack content differs from the items left, in order")
	}
}

// P21_unique: UniqueStack prefilled with 0, 2 or 21 distinct two-byte keys, then 3 (thorough: 4) operations out of push, pop(), pop(n) for n in {0,1,2,22} and lookup,
// push and lookup keys being arbitrary one-byte strings; compared with a list searched from the top.
func P21_unique() {
	var s stack.UniqueStack
	var m []keyed
	fills := []int{0, 2, 21}
	for i := 0; i < fills[sym.Choice("fill", len(fills))]; i++ {
		k := keyed{string([]byte{'f', byte('a' + i)}), i}
		sym.Assert(s.Push(k) == nil, "pushing a new key failed")
		m = append(m, k)
	}
	steps := 3
	if sym.Thorough() {
		steps = 4
	}
	pops := []int{0, 1, 2, 22}
	for k := 0; k < steps; k++ {
		op := sym.Choice("op"+digit(k), 3+len(pops))
		switch {
		case op == 0, op == 1:
			key := sym.Str("key"+digit(k), 1)
			found := -1
			for i := len(m) - 1; i >= 0; i-- {
				if m[i].k == key {
					found = i
					break
				}
			}
			it := s.Lookup(key)
			if found < 0 {
				sym.Assert(it == stack.NilItem, "lookup found a key that is not on the stack")
			} else {
				sym.Assert(it != stack.NilItem, "lookup did not find a key that is on the stack")
				sym.Assert(it.(keyed).v == m[found].v, "lookup found the wrong item")
			}
			if op == 1 {
				item := keyed{key, 100 + k}
				err := s.Push(item)
				sym.Assert((err != nil) == (found >= 0), "the keyed stack took a duplicate or refused a new key")
				if found < 0 {
					m = append(m, item)
					sym.Reach("pushed")
				} else {
					sym.Reach("duplicate")
				}
			}
		case op == 2:
			s.Pop()
			if len(m) > 0 {
				m = m[:len(m)-1]
			}
		default:
			n := pops[op-3]
			s.Pop(n)
			if n > len(m) {
				n = len(m)
			}
			m = m[:len(m)-n]
		}
		checkUnique(&s, m)
	}
	sym.Reach("done")
}

// P21_unique_peek: UniqueStack of 0..4 items, peek(n) for every n in 0..6.
func P21_unique_peek() {
	var s stack.UniqueStack
	n := sym.Choice("n", 5)
	for i := 0; i < n; i++ {
		s.Push(keyed{string([]byte{byte('a' + i)}), i})
	}
	k := sym.Choice("k", 7)
	got := s.Peek(k)
	want := k
	if n < k {
		want = n
	}
	sym.Assert(len(got) == want, "peek returned the wrong number of items")
	for i := range got {
		sym.Assert(got[i].(keyed).v == n-want+i, "peek returned other items than the topmost")
	}
	sym.Assert(s.Len() == n, "peek changed the stack")
	sym.Reach("done")
}

// P21_ns: the namespace stack: 3 pushes (thorough: 4) of arbitrary one-byte prefixes with distinct URIs mixed with pops; lookup of any one-byte prefix.
func P21_ns() {
	s := nsstack.New()
	type b struct{ p, u string }
	var m []b
	steps := 3
	if sym.Thorough() {
		steps = 4
	}
	for k := 0; k < steps; k++ {
		if sym.Choice("op"+digit(k), 3) == 0 {
			s.Pop()
			if len(m) > 0 {
				m = m[:len(m)-1]
			}
			continue
		}
		p := sym.Str("p"+digit(k), 1)
		dup := false
		for _, x := range m {
			if x.p == p {
				dup = true
			}
		}
		s.Push(p, "u"+digit(k))
		if !dup {
			m = append(m, b{p, "u" + digit(k)})
		}
	}
	sym.Assert(s.Len() == len(m), "namespace stack length differs")
	q := sym.Str("q", 1)
	want := ""
	for _, x := range m {
		if x.p == q {
			want = x.u
		}
	}
	sym.Assert(s.Lookup(q) == want, "namespace lookup differs from the binding pushed")
	sym.Reach("done")
}

// P21_innermost: a keyed stack, of 0 or 21 items and four (thorough five) more whose one-byte keys may repeat, as those of nested namespace declarations do: any key is found at its topmost place, also after the top item is popped.
func P21_innermost() {
	var s stack.UniqueStack
	var m []keyed
	if sym.Split(sym.Choice("fill", 2)) == 1 {
		for i := 0; i < 21; i++ {
			m = append(m, keyed{string([]byte{'f', byte('a' + i)}), i})
		}
	}
	n := 4
	if sym.Thorough() {
		n = 5
	}
	for i := 0; i < n; i++ {
		m = append(m, keyed{sym.Str("key"+digit(i), 1), 100 + i})
	}
	for _, k := range m {
		s = append(s, k)
	}
	q := sym.Str("q", 1)
	for i := 0; i < 2; i++ {
		want := -1
		for _, k := range m {
			if k.k == q {
				want = k.v
			}
		}
		it := s.Lookup(q)
		if want < 0 {
			sym.Assert(it == stack.NilItem, "lookup found a key that is not on the stack")
		} else {
			sym.Assert(it != stack.NilItem, "lookup did not find a key that is on the stack")
			sym.Assert(it.(keyed).v == want, "lookup found another item than the topmost with the key")
		}
		s.Pop()
		m = m[:len(m)-1]
		checkUnique(&s, m)
	}
	sym.Reach("done")
}
