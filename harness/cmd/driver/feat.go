package main

import "fmt"

// ---- what kind of outcome a call had ----
//
// A call's outcome is described by how its result relates to its arguments and
// to what the object held before and after, without saying what is right. An
// outcome of a kind never seen before is worth showing to the specification.

var last = map[string]any{} // object and field -> last value

func featReset() { last = map[string]any{} }

func clip(x, lo, hi int) int {
	if x < lo {
		return lo
	}
	if x > hi {
		return hi
	}
	return x
}

// change describes how a sequence became another: how many elements gave way
// to how many, and where.
func change(old, new []int) string {
	p := 0
	for p < len(old) && p < len(new) && old[p] == new[p] {
		p++
	}
	s := 0
	for s < len(old)-p && s < len(new)-p && old[len(old)-1-s] == new[len(new)-1-s] {
		s++
	}
	if len(old) == len(new) && p == len(old) {
		return "same"
	}
	return fmt.Sprint(clip(len(old)-p-s, 0, 3), clip(len(new)-p-s, 0, 3), p == 0, s == 0)
}

func flat(v any) ([]int, bool) {
	switch x := v.(type) {
	case []int:
		return x, true
	case [][]int:
		var r []int
		for _, y := range x {
			r = append(append(r, -77), y...)
		}
		return r, true
	case [][2]int:
		var r []int
		for _, y := range x {
			r = append(r, y[0], y[1])
		}
		return r, true
	}
	return nil, false
}

func mirrored(a, b []int) bool {
	for i := range a {
		if a[i] != b[len(b)-1-i] {
			return false
		}
	}
	return true
}

func equal(a, b []int) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// place tells where x stands among the values of s.
func place(x int, s []int) string {
	switch {
	case len(s) == 0:
		return "none"
	case x == s[0] && x == s[len(s)-1]:
		return "ends"
	case x == s[0]:
		return "first"
	case x == s[len(s)-1]:
		return "last"
	}
	for _, y := range s {
		if x == y {
			return "in"
		}
	}
	return "out"
}

func rank(x, n int) int { return clip(x-n, -2, 2)*10 + clip(x, -2, 2) }

// outcome lists what can be said about an event.
func outcome(ev *Ev) (fs []string) {
	kind := -99
	if len(ev.R) > 0 {
		kind = ev.R[0]
	}
	var old, now []int
	say := func(a ...any) { fs = append(fs, fmt.Sprint(a...)) }
	type field struct {
		name string
		v    any
	}
	var seqs []field
	both := ""
	for _, f := range []field{{"C", ev.C}, {"F", ev.F}, {"B", ev.B}, {"D", ev.D}, {"T", ev.T}, {"S", ev.S}} {
		key := fmt.Sprint(ev.O, f.name)
		switch x := f.v.(type) {
		case nil:
		case int:
			if was, ok := last[key].(int); ok {
				say(f.name, clip(x-was, -3, 3))
			}
			for _, s := range seqs {
				say(f.name, s.name, clip(x-len(s.v.([]int)), -2, 2))
			}
			last[key] = x
		case string:
		default:
			s, ok := flat(x)
			if !ok {
				break
			}
			ch := "first"
			if was, ok := last[key].([]int); ok {
				ch = change(was, s)
				if now == nil {
					old, now = was, s
				}
			}
			say(f.name, ch)
			if both == "" {
				both = ch
			}
			for _, q := range seqs {
				t := q.v.([]int)
				say(f.name, q.name, clip(len(s)-len(t), -2, 2), len(s) == len(t) && equal(s, t), len(s) == len(t) && mirrored(s, t))
			}
			seqs = append(seqs, field{f.name, s})
			last[key] = s
		}
	}
	if len(old) > 3000 {
		old = old[:3000]
	}
	rel := ""
	if len(ev.A) > 0 {
		rel = fmt.Sprint(rank(ev.A[0], len(old)), place(ev.A[0], old))
	}
	say("call", kind, both, rel)
	switch {
	case kind == 1 && len(ev.R) == 2:
		say("value", rank(ev.R[1], len(old)), place(ev.R[1], old), rel)
	case kind == 2 && len(ev.R) == 2:
		say("bool", ev.R[1], both, rel)
	case kind == 3:
		r := ev.R[1:]
		say("seq", clip(len(r)-len(old), -2, 2), len(r) == len(old) && equal(r, old), len(r) == len(old) && mirrored(r, old), change(old, r))
	}
	return
}
