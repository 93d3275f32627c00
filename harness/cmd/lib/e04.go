package main

import (
	"fmt"

	"vh/report"

	"github.com/si3nloong/sqlgen/sequel/encoding"
)

type (
	nByte byte
	nRune rune
)

func eqSlice[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// arrCase scans wire into an array of the given size whose previous content is
// prev, checks the result, then NULL.
func arrCase[E ~byte | ~rune](r *report.Run, name string, size int, prev []E, s string, wire any, ref []E, open bool,
	scan func([]E, any) error) {
	key := fmt.Sprintf("%s/%T", name, wire)
	r.Do(key, func() string { return fmt.Sprintf("[%d]%s scan %T(%q)", size, name, wire, s) }, func() {
		arr := make([]E, size+2) // two guard elements behind the array
		copy(arr, prev)
		arr[size], arr[size+1] = 99, 98
		old := append([]E(nil), arr...)
		err := scan(arr[:size:size], wire)
		d := fmt.Sprintf("[%d]%s holding %v, scan %T(%q): got %v, err %v", size, name, prev, wire, s, arr[:size], err)
		if arr[size] != 99 || arr[size+1] != 98 {
			r.Violate(key+"/overrun", d+" (wrote past the array)", d)
		}
		switch {
		case err != nil:
			if !eqSlice(arr, old) {
				r.Violate(key+"/partial", d+" (failed but changed the array)", d)
			}
			if len(ref) <= size && !open {
				r.Violate(key+"/rejected", d, d)
			}
		case len(ref) > size:
			r.Violate(key+"/overflow", d+" (longer than the array, accepted)", d)
		default:
			want := make([]E, size)
			copy(want, ref)
			if !eqSlice(arr[:size], want) {
				r.Violate(key+"/content", d+fmt.Sprintf(" want %v", want), d)
			}
		}
		if err := scan(arr[:size:size], nil); err != nil || !eqSlice(arr[:size], make([]E, size)) {
			r.Violate(key+"/null", fmt.Sprintf("[%d]%s holding %q: NULL left %v, err %v", size, name, s, arr[:size], err), d)
		}
		r.Trace(2)
		r.Transition(2)
	})
}

func e04(r *report.Run) {
	maxLen, maxSize := r.Pick(4, 5), r.Pick(4, 6)
	r.Rule = "every string over {a Z NUL é 世 😀 0xFF 0xC3} up to the length x array size x text/bytes x zero/filled array x byte/rune (and named) elements, then NULL; reference: Go's own string-to-bytes/runes conversion"
	r.Bounds["string_tokens"], r.Bounds["array_size"] = maxLen, maxSize
	n := words([]string{"a", "Z", "\x00", "é", "世", "😀", "\xff", "\xc3"}, maxLen, func(s string) {
		bs := []byte(s)
		nb := make([]nByte, len(bs))
		for i := range bs {
			nb[i] = nByte(bs[i])
		}
		rs := []rune(s)
		nr := make([]nRune, len(rs))
		valid := true
		for i := range rs {
			nr[i] = nRune(rs[i])
			valid = valid && rs[i] != 0xFFFD
		}
		for size := 0; size <= maxSize; size++ {
			for fill := 0; fill < 2; fill++ {
				pb, pn := make([]byte, size), make([]nByte, size)
				pr, pnr := make([]rune, size), make([]nRune, size)
				if fill == 1 {
					for i := 0; i < size; i++ {
						pb[i], pn[i], pr[i], pnr[i] = 'x', 'x', 'x', 'x'
					}
				}
				for _, wire := range []any{s, []byte(s)} {
					arrCase(r, "byte", size, pb, s, wire, bs, false, func(a []byte, v any) error { return encoding.ByteArrayScanner(a, len(a)).Scan(v) })
					arrCase(r, "namedbyte", size, pn, s, wire, nb, false, func(a []nByte, v any) error { return encoding.ByteArrayScanner(a, len(a)).Scan(v) })
					arrCase(r, "rune", size, pr, s, wire, rs, !valid, func(a []rune, v any) error { return encoding.RuneArrayScanner(a, len(a)).Scan(v) })
					arrCase(r, "namedrune", size, pnr, s, wire, nr, !valid, func(a []nRune, v any) error { return encoding.RuneArrayScanner(a, len(a)).Scan(v) })
				}
			}
		}
		r.Eval(1)
		if r.State(s) && len(s) > 6 {
			r.Sample(fmt.Sprintf("%q into [0..%d]byte and rune", s, maxSize))
		}
	})
	r.Extra("strings", n)
	// wire types that are neither text nor bytes must be refused
	for _, w := range []any{int64(65), 1.5, true} {
		r.Do("wiretype", func() string { return fmt.Sprint(w) }, func() {
			b := []byte{'x', 'y'}
			if err := encoding.ByteArrayScanner(b, 2).Scan(w); err == nil || b[0] != 'x' || b[1] != 'y' {
				r.Violate("byte/wiretype", fmt.Sprintf("[2]byte accepted %T(%v) -> %v", w, w, b), w)
			}
			c := []rune{'x', 'y'}
			if err := encoding.RuneArrayScanner(c, 2).Scan(w); err == nil || c[0] != 'x' || c[1] != 'y' {
				r.Violate("rune/wiretype", fmt.Sprintf("[2]rune accepted %T(%v) -> %v", w, w, c), w)
			}
			r.Trace(2)
		})
	}
}
