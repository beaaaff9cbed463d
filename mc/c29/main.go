// Command c29: slice, sorting and conversion utilities.
package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"slices"
	"strings"

	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/vrt"
)

// words calls fn with every slice of length n over 0..k-1.
func words(n, k int, fn func([]int)) {
	w := make([]int, n)
	for {
		fn(w)
		i := n - 1
		for i >= 0 && w[i] == k-1 {
			w[i] = 0
			i--
		}
		if i < 0 {
			return
		}
		w[i]++
	}
}

// patterns calls fn with every equality pattern of n elements (restricted growth strings).
func patterns(n int, fn func([]int)) {
	w := make([]int, n)
	var rec func(i, m int)
	rec = func(i, m int) {
		if i == n {
			fn(w)
			return
		}
		for v := 0; v <= m; v++ {
			w[i] = v
			rec(i+1, max(m, v+1))
		}
	}
	rec(0, 0)
}

type item struct {
	val, id int
}

// dedup checks one pattern of duplicates, with different numbers of accompanying slices.
func dedup(w []int, preset int, form int) error {
	n := len(w)
	master := slices.Clone(w)
	// All slices have spare capacity behind them that must stay as it is.
	ids := make([]int, n, n+2)
	texts := make([]string, n, n+2)
	for i := range ids {
		ids[i], texts[i] = i, fmt.Sprint("t", i)
	}
	copy(ids[:n+2][n:], []int{77, 78})
	ptrs := make([]*int, n)
	for i := range ptrs {
		v := w[i]
		ptrs[i] = &v
	}
	storage := map[int]struct{}{}
	for i := 0; i < preset; i++ {
		storage[i] = struct{}{}
	}
	switch form {
	case 0:
		util.DeduplicateSlice(util.WithSlice(master), util.Wrap(&master), util.Wrap(&ids), util.Wrap(&texts))
	case 1:
		util.DeduplicateSliceWithStorage(storage, util.WithSlice(master), util.Wrap(&master), util.Wrap(&ids), util.Wrap(&texts))
	case 2:
		// The values come from pointers in the second slice.
		util.DeduplicateSliceWithStorage(storage, util.WithSlicePtr(ptrs), util.Wrap(&master), util.Wrap(&ptrs), util.Wrap(&ids), util.Wrap(&texts))
	case 3:
		// The value is computed from two slices.
		util.DeduplicateSlice(func(i int) item { return item{val: master[i] - *ptrs[i], id: *ptrs[i]} },
			util.Wrap(&texts), util.Wrap(&ids), util.Wrap(&ptrs), util.Wrap(&master))
	case 4:
		util.DeduplicateSlice(util.WithSlice(master), util.Wrap(&master))
		ids, texts = nil, nil
	}
	seen := map[int]bool{}
	for _, v := range master {
		if seen[v] {
			return fmt.Errorf("%v is left twice in %v", v, master)
		}
		seen[v] = true
	}
	for _, v := range w {
		if !seen[v] {
			return fmt.Errorf("%v is missing in %v", v, master)
		}
	}
	if len(master) > len(w) {
		return fmt.Errorf("%v has additional elements", master)
	}
	for _, v := range master {
		if !slices.Contains(w, v) {
			return fmt.Errorf("%v has a foreign element", master)
		}
	}
	if form == 4 {
		return nil
	}
	if len(ids) != len(master) || len(texts) != len(master) {
		return fmt.Errorf("the slices have %d, %d, %d elements", len(master), len(ids), len(texts))
	}
	if form >= 2 && len(ptrs) != len(master) {
		return fmt.Errorf("the slices have %d and %d elements", len(master), len(ptrs))
	}
	for i, v := range master {
		if w[ids[i]] != v || texts[i] != fmt.Sprint("t", ids[i]) || form >= 2 && *ptrs[i] != v {
			return fmt.Errorf("the slices do not correspond anymore: %v %v %v", master, ids, texts)
		}
	}
	if s := ids[:n+2][n:]; s[0] != 77 || s[1] != 78 {
		return fmt.Errorf("elements behind the slice were changed")
	}
	return nil
}

func permutations(n int, fn func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			fn(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

// pivots calls fn once for every sequence of random choices, each among lim results.
func pivots(lim int, fn func() error) (int, error) {
	var choice []int
	for n := 1; ; n++ {
		pos := 0
		vrt.RandHook = func(k int) int {
			if k == 0 || k > lim {
				k = lim
			}
			if pos == len(choice) {
				choice = append(choice, 0)
			}
			pos++
			return choice[pos-1] % k
		}
		if err := fn(); err != nil {
			return n, fmt.Errorf("random choices %v: %w", choice, err)
		}
		choice = choice[:pos]
		for len(choice) > 0 && choice[len(choice)-1] == lim-1 {
			choice = choice[:len(choice)-1]
		}
		if len(choice) == 0 {
			return n, nil
		}
		choice[len(choice)-1]++
	}
}

type errA struct{ s string }

func (e errA) Error() string { return e.s }

// flat is the expected list of parts of a combined error.
func flat(errs []error) (l []error) {
	for _, e := range errs {
		if e == nil {
			continue
		}
		parts := []error{e}
		if c, ok := e.(util.CoalescedErrors); ok {
			parts = flat(c.Errs)
		}
		for _, p := range parts {
			if !slices.ContainsFunc(l, func(x error) bool { return x.Error() == p.Error() }) {
				l = append(l, p)
			}
		}
	}
	return
}

func coalesce(in []error) error {
	before := slices.Clone(in)
	got := util.ErrorsCoalesce(in...)
	want := flat(before)
	for i := range in {
		if fmt.Sprint(in[i]) != fmt.Sprint(before[i]) {
			return fmt.Errorf("the errors were changed")
		}
	}
	if (got == nil) != (len(want) == 0) {
		return fmt.Errorf("combined to %v, expected %d errors", got, len(want))
	}
	if got == nil {
		return nil
	}
	for i, e := range before {
		if e != nil && !errors.Is(got, e) && !slices.ContainsFunc(want, func(x error) bool { return x.Error() == e.Error() }) {
			if _, ok := e.(util.CoalescedErrors); !ok {
				return fmt.Errorf("error number %d (%v) is not part of %v", i, e, got)
			}
		}
	}
	u, ok := got.(interface{ Unwrap() []error })
	if !ok {
		if len(want) == 1 && got == want[0] {
			return nil
		}
		return fmt.Errorf("the combined error cannot be unwrapped")
	}
	parts := u.Unwrap()
	if len(parts) != len(want) {
		return fmt.Errorf("combined %d errors, expected %d", len(parts), len(want))
	}
	msg := got.Error()
	for i := range want {
		if parts[i] != want[i] {
			return fmt.Errorf("part %d is %v, expected %v", i, parts[i], want[i])
		}
		if !errors.Is(got, want[i]) {
			return fmt.Errorf("%v is not found in the combined error", want[i])
		}
		if !strings.Contains(msg, want[i].Error()) {
			return fmt.Errorf("the message %q does not contain %q", msg, want[i])
		}
	}
	if len(want) == 1 && msg != want[0].Error() {
		return fmt.Errorf("the message is %q, expected %q", msg, want[0])
	}
	if len(want) > 1 && !strings.Contains(msg, fmt.Sprint(len(want))) {
		return fmt.Errorf("the message %q does not name the number of errors", msg)
	}
	return nil
}

func main() {
	r := core.Start("C29", "exploration")
	r.Rule = "each utility is called with every input of its enumeration; distinct by utility and input"
	do := func(key string, fn func() error) {
		r.Case(key, nil, fn)
		r.Distinct.Add(1)
	}
	n := r.Pick(8, 10)
	r.Parallel("deduplication", n+1, func(k int) {
		patterns(k, func(w []int) {
			for form := 0; form < 5; form++ {
				for preset := 0; preset <= k; preset += max(1, k) {
					do(fmt.Sprintf("deduplicate %v storage %d form %d", w, preset, form), func() error { return dedup(w, preset, form) })
				}
			}
		})
	})
	// Removal: every subset of positions, in every order.
	n = r.Pick(6, 8)
	for size := 0; size <= n && !r.Stop(); size++ {
		r.Parallel("removal", 1<<size, func(m int) {
			var pos []int
			for i := 0; i < size; i++ {
				if m>>i&1 == 1 {
					pos = append(pos, i)
				}
			}
			permutations(len(pos), func(p []int) {
				idx := make([]int, len(p))
				for i, k := range p {
					idx[i] = pos[k]
				}
				do(fmt.Sprintf("remove %v of %d", idx, size), func() error {
					back := make([]int, size+2)
					for i := range back {
						back[i] = i
					}
					s := back[:size]
					util.RemoveElementsFromSlice(&s, slices.Clone(idx))
					if len(s) != size-len(idx) {
						return fmt.Errorf("%d elements are left", len(s))
					}
					got := slices.Clone(s)
					slices.Sort(got)
					j := 0
					for i := 0; i < size; i++ {
						if !slices.Contains(idx, i) {
							if got[j] != i {
								return fmt.Errorf("the elements %v are left", s)
							}
							j++
						}
					}
					if back[size] != size || back[size+1] != size+1 {
						return fmt.Errorf("elements behind the slice were changed")
					}
					return nil
				})
			})
		})
		for i := 0; i < size; i++ {
			do(fmt.Sprintf("remove element %d of %d", i, size), func() error {
				s := make([]int, size)
				for k := range s {
					s[k] = k
				}
				util.RemoveElemFromSlice(&s, i)
				got := slices.Clone(s)
				slices.Sort(got)
				for k := range got {
					if w := k + map[bool]int{true: 1}[k >= i]; len(got) != size-1 || got[k] != w {
						return fmt.Errorf("the elements %v are left", s)
					}
				}
				return nil
			})
		}
		for c := size; c <= size+3; c++ {
			for l := 0; l <= size+4; l++ {
				do(fmt.Sprintf("resize %d of %d to %d", size, c, l), func() error {
					s := make([]int, size, c)
					for k := range s[:c] {
						s[:c][k] = k + 1
					}
					util.ResizeSlice(&s, l, -7)
					if len(s) != l {
						return fmt.Errorf("the size is %d", len(s))
					}
					for k, v := range s {
						if k < size && v != k+1 || k >= size && v != -7 {
							return fmt.Errorf("the elements are %v", s)
						}
					}
					return nil
				})
			}
		}
	}
	// Sorting: all slices, all choices of the pivot.
	runs := 0
	lim := r.Pick(5, 6)
	for size := 0; size <= lim && !r.Stop(); size++ {
		words(size, min(size, 5), func(w []int) {
			do(fmt.Sprintf("sort %v", w), func() error {
				want := slices.Clone(w)
				slices.Sort(want)
				k, err := pivots(max(1, size), func() error {
					s := slices.Clone(w)
					got := util.Qsort(s)
					if !slices.Equal(got, want) || !slices.Equal(s, want) {
						return fmt.Errorf("sorted to %v and %v", got, s)
					}
					return nil
				})
				runs += k
				return err
			})
		})
	}
	vrt.RandHook = nil
	for _, w := range [][]string{{}, {"b", "a"}, {"", "a", ""}, {"b", "B", "a\x00", "a"}} {
		do(fmt.Sprintf("sort %q", w), func() error {
			want := slices.Clone(w)
			slices.Sort(want)
			if got := util.Qsort(slices.Clone(w)); !slices.Equal(got, want) {
				return fmt.Errorf("sorted to %q", got)
			}
			return nil
		})
	}
	r.Extra("sorting_runs", runs)
	// Combined errors: all sequences over a pool with equal messages, nested and empty combinations.
	a, b := error(errA{"first"}), errors.New("second")
	pool := []error{nil, a, b, errors.New("first"), util.CoalescedErrors{}, util.ErrorsCoalesce(a, b), util.ErrorsCoalesce(b, errors.New("third")),
		util.CoalescedErrors{Errs: []error{b, util.ErrorsCoalesce(errors.New("third"))}}, fmt.Errorf("wrapped: %w", a), errors.Join(a, b)}
	for size := 0; size <= r.Pick(4, 5) && !r.Stop(); size++ {
		words(size, len(pool), func(w []int) {
			in := make([]error, len(w))
			for i, k := range w {
				in[i] = pool[k]
			}
			do(fmt.Sprintf("errors %v", w), func() error { return coalesce(in) })
		})
	}
	conversions(r, do)
	numbers(do)
	r.Assume("indices to remove are distinct and inside the slice, accompanying slices have the size of the master slice, as documented")
	r.Finish()
}

func conversions(r *core.Run, do func(string, func() error)) {
	type named int
	pool := []any{1, "x", nil, int64(2), named(3), 4, (*int)(nil), errA{"e"}}
	for size := 0; size <= r.Pick(4, 5); size++ {
		words(size, len(pool), func(w []int) {
			in := make([]any, len(w))
			for i, k := range w {
				in[i] = pool[k]
			}
			do(fmt.Sprintf("convert %v", w), func() error {
				if err := convert[int](in); err != nil {
					return err
				}
				if err := convert[string](in); err != nil {
					return err
				}
				if err := convert[error](in); err != nil {
					return err
				}
				return convert[any](in)
			})
		})
	}
	do("convert a value", func() error {
		if v, err := util.ToType[int](5); v != 5 || err != nil {
			return fmt.Errorf("5 is converted to %v, %v", v, err)
		}
		for _, x := range []any{"x", nil, int64(5), named(5), new(int)} {
			if v, err := util.ToType[int](x); v != 0 || err == nil {
				return fmt.Errorf("%v is converted to %v, %v", x, v, err)
			}
		}
		if v, err := util.ToType[error](errA{"e"}); err != nil || v != (errA{"e"}) {
			return fmt.Errorf("an error is converted to %v, %v", v, err)
		}
		for _, x := range []any{nil, 3, []int{1}, "x"} {
			if v, err := util.ToTypedSlice[int](x); v != nil || err == nil {
				return fmt.Errorf("%v is converted to %v, %v", x, v, err)
			}
		}
		return nil
	})
}

func convert[T any](in []any) error {
	before := slices.Clone(in)
	var want []T
	var rest []any
	for _, x := range in {
		if v, ok := x.(T); ok {
			want = append(want, v)
		} else {
			rest = append(rest, x)
		}
	}
	same := func(a []T, b []T) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if any(a[i]) != any(b[i]) {
				return false
			}
		}
		return true
	}
	got, other := util.SliceToTypedSlice[T](in)
	if !same(got, want) || !slices.Equal(other, rest) {
		return fmt.Errorf("%T: split into %v and %v", want, got, other)
	}
	all, err := util.ToTypedSlice[T](in)
	if (err != nil) != (len(rest) > 0) || err == nil && !same(all, want) {
		return fmt.Errorf("%T: converted to %v, %v", want, all, err)
	}
	if !slices.Equal(in, before) {
		return fmt.Errorf("%T: the slice was changed", want)
	}
	return nil
}

func numbers(do func(string, func() error)) {
	var ns []uint
	for n := uint(0); n <= 1<<12; n++ {
		ns = append(ns, n)
	}
	for k := 12; k < 64; k++ {
		ns = append(ns, 1<<k-1, 1<<k, 1<<k+1)
	}
	ns = append(ns, math.MaxUint)
	for _, n := range ns {
		do(fmt.Sprintf("log2 %d", n), func() error {
			want := uint(0)
			if n > 1 {
				want = uint(new(big.Int).SetUint64(uint64(n - 1)).BitLen())
			}
			if got := util.Log2(n); got != want {
				return fmt.Errorf("is %d, expected %d", got, want)
			}
			return nil
		})
	}
	for x := -12; x <= 12; x++ {
		for n := uint(0); n <= 70; n++ {
			want := new(big.Int).Exp(big.NewInt(int64(x)), big.NewInt(int64(n)), nil)
			if !want.IsInt64() {
				break
			}
			do(fmt.Sprintf("%d to the power of %d", x, n), func() error {
				if got := util.Pow(int64(x), n); got != want.Int64() {
					return fmt.Errorf("is %d, expected %v", got, want)
				}
				return nil
			})
		}
	}
}
