package main

import (
	"bytes"
	"database/sql"
	"database/sql/driver"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"vh/report"

	"github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype"
)

// pgElem is one element of an array literal as PostgreSQL reads it.
type pgElem struct {
	null bool
	s    string
}

// pgArrayRef is PostgreSQL's array_in for one-dimensional arrays. open: the
// text uses a form the server accepts but never emits, whose handling the
// property leaves open (white space around elements, backslashes outside
// quotes, lower-case null, explicit dimensions).
func pgArrayRef(s string) (el []pgElem, ok, open bool) {
	if strings.HasPrefix(s, "{{") && strings.Trim(s, "{}, ") == "" {
		return nil, false, true // nested but without elements: the server reads some of these as {}
	}
	isSpace := func(c byte) bool { return c == ' ' || (c >= '\t' && c <= '\r') }
	i := 0
	skip := func() {
		for i < len(s) && isSpace(s[i]) {
			i++
			open = true
		}
	}
	skip()
	if i >= len(s) || s[i] != '{' {
		return nil, false, open
	}
	i++
	skip()
	if i < len(s) && s[i] == '}' {
		i++
		skip()
		return nil, i == len(s), open
	}
	for {
		skip()
		if i >= len(s) {
			return nil, false, open
		}
		switch {
		case s[i] == '"':
			var b strings.Builder
			i++
			closed := false
			for i < len(s) {
				if s[i] == '\\' {
					i++
					if i >= len(s) {
						return nil, false, open
					}
					b.WriteByte(s[i])
					i++
					continue
				}
				if s[i] == '"' {
					closed = true
					i++
					break
				}
				b.WriteByte(s[i])
				i++
			}
			if !closed {
				return nil, false, open
			}
			el = append(el, pgElem{s: b.String()})
			skip()
		case s[i] == '{' || s[i] == '}' || s[i] == ',':
			return nil, false, open // nested (not linear) or missing element
		default:
			var b strings.Builder
			esc := false
			for i < len(s) && s[i] != ',' && s[i] != '}' {
				switch s[i] {
				case '"', '{':
					return nil, false, open
				case '\\':
					esc, open = true, true
					i++
					if i >= len(s) {
						return nil, false, open
					}
				}
				b.WriteByte(s[i])
				i++
			}
			t := b.String()
			if !esc {
				u := strings.TrimRight(t, " \t\n\v\f\r")
				if u != t {
					open = true
				}
				t = u
			}
			if strings.EqualFold(t, "NULL") && !esc {
				if t != "NULL" {
					open = true
				}
				el = append(el, pgElem{null: true})
			} else {
				el = append(el, pgElem{s: t})
			}
		}
		if i >= len(s) {
			return nil, false, open
		}
		if s[i] == ',' {
			i++
			continue
		}
		if s[i] == '}' {
			i++
			skip()
			return el, i == len(s), open
		}
		return nil, false, open
	}
}

// pgArrayOut is array_out: the canonical text the server sends.
func pgArrayOut(el []pgElem) string {
	var b strings.Builder
	b.WriteByte('{')
	for i, e := range el {
		if i > 0 {
			b.WriteByte(',')
		}
		switch {
		case e.null:
			b.WriteString("NULL")
		case e.s == "" || strings.EqualFold(e.s, "NULL") || strings.ContainsAny(e.s, "{}\",\\ \t\n\v\f\r"):
			b.WriteByte('"')
			for j := 0; j < len(e.s); j++ {
				if e.s[j] == '"' || e.s[j] == '\\' {
					b.WriteByte('\\')
				}
				b.WriteByte(e.s[j])
			}
			b.WriteByte('"')
		default:
			b.WriteString(e.s)
		}
	}
	b.WriteByte('}')
	return b.String()
}

// listType describes one list column type: how a Go list is written and read,
// and what an element text denotes.
type listType struct {
	name  string
	value func(list any) (driver.Value, error)
	scan  func(prev any, src any) (got any, err error) // got: []T
	elems []any
	make  func(idx []int) any // list of elems[idx...]; nil idx -> nil list
	// parse: the element a text denotes; ok=false not an element; must=false:
	// a spelling left open.
	parse  func(e pgElem) (v any, ok, must bool)
	render func(v any) []pgElem // server renderings of an element
	equal  func(a, b any) bool
	tokens []string
}

func mkList[T any, L any](name string, elems []T, toL func([]T) L, val func(L) (driver.Value, error), sc func(*L) sql.Scanner, fromL func(L) []T,
	parse func(e pgElem) (T, bool, bool), render func(T) []string, eq func(a, b T) bool, tokens []string) listType {
	lt := listType{name: name, tokens: tokens}
	for _, e := range elems {
		lt.elems = append(lt.elems, e)
	}
	lt.make = func(idx []int) any {
		if idx == nil {
			return []T(nil)
		}
		l := make([]T, len(idx))
		for i, k := range idx {
			l[i] = elems[k]
		}
		return l
	}
	lt.value = func(l any) (driver.Value, error) { return val(toL(l.([]T))) }
	lt.scan = func(prev, src any) (any, error) {
		d := toL(append([]T(nil), prev.([]T)...))
		if prev.([]T) == nil {
			d = toL(nil)
		}
		err := sc(&d).Scan(src)
		return fromL(d), err
	}
	lt.parse = func(e pgElem) (any, bool, bool) { v, ok, must := parse(e); return v, ok, must }
	lt.render = func(v any) []pgElem {
		var out []pgElem
		for _, s := range render(v.(T)) {
			out = append(out, pgElem{s: s})
		}
		return out
	}
	lt.equal = func(a, b any) bool {
		x, y := a.([]T), b.([]T)
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if !eq(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return lt
}

func isNilSlice(v any) bool { return reflect.ValueOf(v).IsNil() }

func intElems[T integer](min, max *big.Int) []T {
	var out []T
	c := func(b *big.Int) {
		if b.Sign() < 0 {
			out = append(out, T(b.Int64()))
		} else {
			out = append(out, T(b.Uint64()))
		}
	}
	c(big.NewInt(0))
	c(big.NewInt(7))
	c(max)
	if min.Sign() < 0 {
		c(min)
		c(big.NewInt(-1))
	} else {
		c(new(big.Int).Sub(max, big.NewInt(1)))
		c(new(big.Int).Rsh(max, 1))
		c(new(big.Int).Add(new(big.Int).Rsh(max, 1), big.NewInt(1)))
	}
	return out
}

func intParse[T integer](min, max *big.Int) func(e pgElem) (T, bool, bool) {
	return func(e pgElem) (T, bool, bool) {
		if e.null {
			return 0, false, true
		}
		b, ok, must := intRef([]byte(e.s))
		if !ok || b.Cmp(min) < 0 || b.Cmp(max) > 0 {
			return 0, false, true
		}
		if b.Sign() < 0 {
			return T(b.Int64()), true, must
		}
		return T(b.Uint64()), true, must
	}
}

func intTokens(min, max *big.Int) []string {
	one := big.NewInt(1)
	return []string{"{", "}", ",", "\"", "\\", "NULL", " ", "1", "0", "-", ".", "a",
		max.String(), new(big.Int).Add(max, one).String(), min.String(), new(big.Int).Sub(min, one).String(), "18446744073709551617"}
}

func eq[T comparable](a, b T) bool { return a == b }

func intRender[T integer](v T) []string { return []string{toBig(v).String()} }

func floatParse(bits int) func(e pgElem) (float64, bool, bool) {
	return func(e pgElem) (float64, bool, bool) {
		if e.null {
			return 0, false, true
		}
		return floatText(e.s, bits)
	}
}

func eqF(a, b float64) bool { return a == b || (a != a && b != b) }

func floatRender(bits int) func(float64) []string {
	return func(v float64) []string {
		switch {
		case v != v:
			return []string{"NaN"}
		case math.IsInf(v, 1):
			return []string{"Infinity"}
		case math.IsInf(v, -1):
			return []string{"-Infinity"}
		}
		return []string{strconv.FormatFloat(v, 'g', -1, bits), strconv.FormatFloat(v, 'e', -1, bits)}
	}
}

func byteaRender(b []byte) []string {
	out := []string{"\\x" + hex.EncodeToString(b)}
	var e strings.Builder // bytea_output = escape
	for _, c := range b {
		switch {
		case c == '\\':
			e.WriteString(`\\`)
		case c < 0x20 || c > 0x7e:
			fmt.Fprintf(&e, `\%03o`, c)
		default:
			e.WriteByte(c)
		}
	}
	return append(out, e.String())
}

func byteaParse(e pgElem) ([]byte, bool, bool) {
	if e.null {
		return nil, true, false // NULL element: refused or nil
	}
	s := e.s
	if strings.HasPrefix(s, "\\x") {
		h := s[2:]
		b, err := hex.DecodeString(h)
		if err != nil {
			// bytea_in allows white space between hex pairs; never emitted
			b, err = hex.DecodeString(strings.Join(strings.Fields(h), ""))
			return b, err == nil, false
		}
		return b, true, true
	}
	out := []byte{}
	for i := 0; i < len(s); {
		if s[i] != '\\' {
			out = append(out, s[i])
			i++
			continue
		}
		if i+1 < len(s) && s[i+1] == '\\' {
			out = append(out, '\\')
			i += 2
			continue
		}
		if i+3 < len(s) && s[i+1] >= '0' && s[i+1] <= '3' && s[i+2] >= '0' && s[i+2] <= '7' && s[i+3] >= '0' && s[i+3] <= '7' {
			n, _ := strconv.ParseUint(s[i+1:i+4], 8, 8)
			out = append(out, byte(n))
			i += 4
			continue
		}
		return nil, false, true
	}
	return out, true, true
}

func pgIntList[T integer, L any](name string, bits int, signed bool, toL func([]T) L, val func(L) (driver.Value, error), sc func(*L) sql.Scanner, fromL func(L) []T) listType {
	lo, hi := lim(bits, signed)
	return mkList(name, intElems[T](lo, hi), toL, val, sc, fromL, intParse[T](lo, hi), intRender[T], eq[T], intTokens(lo, hi))
}

func pgTypes() []listType {
	var ts []listType
	strTok := []string{"{", "}", ",", "\"", "\\", "NULL", " ", "a", "\x00é"}
	strs := []string{"", "a", "NULL", "null", `"`, `\`, `{}`, `,`, " ", "\n", "é", "a b", `\"`, "\x01", `\x41`}
	ts = append(ts, mkList("StringArray", strs,
		func(x []string) pgtype.StringArray[string] { return x },
		func(l pgtype.StringArray[string]) (driver.Value, error) { return l.Value() },
		func(l *pgtype.StringArray[string]) sql.Scanner { return l },
		func(l pgtype.StringArray[string]) []string { return l },
		func(e pgElem) (string, bool, bool) { return e.s, !e.null, true },
		func(s string) []string { return []string{s} }, eq[string], strTok))
	ts = append(ts, mkList("BoolArray", []bool{true, false},
		func(x []bool) pgtype.BoolArray[bool] { return x },
		func(l pgtype.BoolArray[bool]) (driver.Value, error) { return l.Value() },
		func(l *pgtype.BoolArray[bool]) sql.Scanner { return l },
		func(l pgtype.BoolArray[bool]) []bool { return l },
		func(e pgElem) (bool, bool, bool) {
			switch {
			case e.null:
				return false, false, true
			case e.s == "t":
				return true, true, true
			case e.s == "f":
				return false, true, true
			}
			switch l := strings.ToLower(e.s); {
			case l != "" && (strings.HasPrefix("true", l) || strings.HasPrefix("yes", l) || l == "on" || l == "1"):
				return true, true, false
			case l != "" && (strings.HasPrefix("false", l) || strings.HasPrefix("no", l) || l == "of" || l == "off" || l == "0"):
				return false, true, false
			}
			return false, false, true
		},
		func(b bool) []string {
			if b {
				return []string{"t"}
			}
			return []string{"f"}
		}, eq[bool], []string{"{", "}", ",", "\"", "\\", "NULL", " ", "t", "f", "1", "rue"}))
	byt := [][]byte{{}, {'a'}, {0}, {'\\'}, {'"'}, {0xff, 0x00}, []byte("é{},"), []byte(`\x41`)}
	ts = append(ts, mkList("ByteaArray", byt,
		func(x [][]byte) pgtype.ByteaArray[[]byte] { return x },
		func(l pgtype.ByteaArray[[]byte]) (driver.Value, error) { return l.Value() },
		func(l *pgtype.ByteaArray[[]byte]) sql.Scanner { return l },
		func(l pgtype.ByteaArray[[]byte]) [][]byte { return l },
		byteaParse, byteaRender, bytes.Equal, []string{"{", "}", ",", "\"", "\\", "\\\\", "NULL", "x", "61", "6", "101", "g"}))
	f64 := []float64{0, 1.5, -2, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, 0.1, math.NaN(), math.Inf(1), math.Inf(-1)}
	fTok := []string{"{", "}", ",", "\"", "\\", "NULL", "1", ".", "e", "-", "5e400", "1e39", "NaN", "Infinity", "x"}
	ts = append(ts, mkList("Float64Array", f64,
		func(x []float64) pgtype.Float64Array[float64] { return x },
		func(l pgtype.Float64Array[float64]) (driver.Value, error) { return l.Value() },
		func(l *pgtype.Float64Array[float64]) sql.Scanner { return l },
		func(l pgtype.Float64Array[float64]) []float64 { return l },
		floatParse(64), floatRender(64), eqF, fTok))
	f32 := []float32{0, 1.5, -2, math.MaxFloat32, math.SmallestNonzeroFloat32, 1e21, 0.1, float32(math.NaN()), float32(math.Inf(1))}
	ts = append(ts, mkList("Float32Array", f32,
		func(x []float32) pgtype.Float32Array[float32] { return x },
		func(l pgtype.Float32Array[float32]) (driver.Value, error) { return l.Value() },
		func(l *pgtype.Float32Array[float32]) sql.Scanner { return l },
		func(l pgtype.Float32Array[float32]) []float32 { return l },
		func(e pgElem) (float32, bool, bool) { v, ok, m := floatParse(32)(e); return float32(v), ok, m },
		func(v float32) []string { return floatRender(32)(float64(v)) },
		func(a, b float32) bool { return eqF(float64(a), float64(b)) }, fTok))
	ts = append(ts,
		pgIntList("IntArray", 64, true, func(x []int) pgtype.IntArray[int] { return x }, func(l pgtype.IntArray[int]) (driver.Value, error) { return l.Value() }, func(l *pgtype.IntArray[int]) sql.Scanner { return l }, func(l pgtype.IntArray[int]) []int { return l }),
		pgIntList("Int8Array", 8, true, func(x []int8) pgtype.Int8Array[int8] { return x }, func(l pgtype.Int8Array[int8]) (driver.Value, error) { return l.Value() }, func(l *pgtype.Int8Array[int8]) sql.Scanner { return l }, func(l pgtype.Int8Array[int8]) []int8 { return l }),
		pgIntList("Int16Array", 16, true, func(x []int16) pgtype.Int16Array[int16] { return x }, func(l pgtype.Int16Array[int16]) (driver.Value, error) { return l.Value() }, func(l *pgtype.Int16Array[int16]) sql.Scanner { return l }, func(l pgtype.Int16Array[int16]) []int16 { return l }),
		pgIntList("Int32Array", 32, true, func(x []int32) pgtype.Int32Array[int32] { return x }, func(l pgtype.Int32Array[int32]) (driver.Value, error) { return l.Value() }, func(l *pgtype.Int32Array[int32]) sql.Scanner { return l }, func(l pgtype.Int32Array[int32]) []int32 { return l }),
		pgIntList("Int64Array", 64, true, func(x []int64) pgtype.Int64Array[int64] { return x }, func(l pgtype.Int64Array[int64]) (driver.Value, error) { return l.Value() }, func(l *pgtype.Int64Array[int64]) sql.Scanner { return l }, func(l pgtype.Int64Array[int64]) []int64 { return l }),
		pgIntList("UintArray", 64, false, func(x []uint) pgtype.UintArray[uint] { return x }, func(l pgtype.UintArray[uint]) (driver.Value, error) { return l.Value() }, func(l *pgtype.UintArray[uint]) sql.Scanner { return l }, func(l pgtype.UintArray[uint]) []uint { return l }),
		pgIntList("Uint8Array", 8, false, func(x []uint8) pgtype.Uint8Array[uint8] { return x }, func(l pgtype.Uint8Array[uint8]) (driver.Value, error) { return l.Value() }, func(l *pgtype.Uint8Array[uint8]) sql.Scanner { return l }, func(l pgtype.Uint8Array[uint8]) []uint8 { return l }),
		pgIntList("Uint16Array", 16, false, func(x []uint16) pgtype.Uint16Array[uint16] { return x }, func(l pgtype.Uint16Array[uint16]) (driver.Value, error) { return l.Value() }, func(l *pgtype.Uint16Array[uint16]) sql.Scanner { return l }, func(l pgtype.Uint16Array[uint16]) []uint16 { return l }),
		pgIntList("Uint32Array", 32, false, func(x []uint32) pgtype.Uint32Array[uint32] { return x }, func(l pgtype.Uint32Array[uint32]) (driver.Value, error) { return l.Value() }, func(l *pgtype.Uint32Array[uint32]) sql.Scanner { return l }, func(l pgtype.Uint32Array[uint32]) []uint32 { return l }),
		pgIntList("Uint64Array", 64, false, func(x []uint64) pgtype.Uint64Array[uint64] { return x }, func(l pgtype.Uint64Array[uint64]) (driver.Value, error) { return l.Value() }, func(l *pgtype.Uint64Array[uint64]) sql.Scanner { return l }, func(l pgtype.Uint64Array[uint64]) []uint64 { return l }),
	)
	return ts
}

// lists calls f on every index list of length 0..max over n elements.
func lists(n, max int, f func(idx []int)) {
	var rec func(cur []int)
	rec = func(cur []int) {
		f(cur)
		if len(cur) == max {
			return
		}
		for i := 0; i < n; i++ {
			rec(append(cur, i))
		}
	}
	rec([]int{})
}

func textOf(v driver.Value) (string, bool) {
	switch v := v.(type) {
	case string:
		return v, true
	case []byte:
		return string(v), true
	}
	return "", false
}

func e05(r *report.Run) {
	r.Rule = "per array type: every list up to the length over boundary elements (written, re-read by a reference array_in, read back as text and bytes, and read from every server rendering), and every text up to the length over the array alphabet (accept implies the reference's elements; server-emitted forms must be accepted; failures leave the destination alone)"
	listLen, textLen := 3, r.Pick(4, 5)
	r.Bounds["list_len"], r.Bounds["text_tokens"] = listLen, textLen
	for _, t := range pgTypes() {
		prevs := []any{t.make(nil), t.make([]int{}), t.make([]int{0, 1})}
		// --- lists
		r.Do(t.name+"/nil", func() string { return t.name + " nil" }, func() {
			v, err := t.value(t.make(nil))
			if err != nil || v != nil {
				r.Violate(t.name+"/nil", fmt.Sprintf("%s: nil list written as %#v, err %v", t.name, v, err), nil)
			}
			for _, p := range prevs {
				got, err := t.scan(p, nil)
				if err != nil || !isNilSlice(got) {
					r.Violate(t.name+"/null", fmt.Sprintf("%s: NULL read as %#v, err %v", t.name, got, err), nil)
				}
			}
			r.Trace(4)
		})
		var all [][]int
		lists(len(t.elems), listLen, func(idx []int) { all = append(all, append([]int{}, idx...)) })
		report.Parallel(len(all), func(i int) {
			l := t.make(all[i])
			key := t.name + "/write"
			r.Do(key, func() string { return fmt.Sprintf("%s %#v", t.name, l) }, func() {
				v, err := t.value(l)
				if err != nil {
					r.Violate(key+"/err", fmt.Sprintf("%s: writing %#v failed: %v", t.name, l, err), fmt.Sprintf("%#v", l))
					return
				}
				s, ok := textOf(v)
				if !ok {
					r.Violate(key+"/type", fmt.Sprintf("%s: %#v written as %T", t.name, l, v), fmt.Sprintf("%#v", l))
					return
				}
				el, ok, _ := pgArrayRef(s)
				good := ok && len(el) == len(all[i])
				if good {
					for j, e := range el {
						x, ok, _ := t.parse(e)
						if !ok || !t.equal(one(t, x), t.make([]int{all[i][j]})) {
							good = false
						}
					}
				}
				if !good {
					r.Violate(key, fmt.Sprintf("%s: %#v written as %q, which does not denote it", t.name, l, s), fmt.Sprintf("%#v", l))
				}
				for _, p := range prevs {
					for _, src := range []any{s, []byte(s)} {
						got, err := t.scan(p, src)
						if err != nil || !t.equal(got, l) {
							r.Violate(t.name+"/roundtrip", fmt.Sprintf("%s: %#v written as %q read back (%T) as %#v, err %v", t.name, l, s, src, got, err), fmt.Sprintf("%#v", l))
						}
						r.Trace(1)
					}
				}
				// server renderings: all elements in rendering k
				for k := 0; k < 2; k++ {
					var out []pgElem
					for _, x := range all[i] {
						rs := t.render(t.elems[x])
						out = append(out, rs[min(k, len(rs)-1)])
					}
					src := pgArrayOut(out)
					got, err := t.scan(prevs[2], []byte(src))
					if err != nil || !t.equal(got, l) {
						r.Violate(t.name+"/server", fmt.Sprintf("%s: server text %q read as %#v, err %v", t.name, src, got, err), src)
					}
					r.Trace(1)
				}
				r.Transition(9)
				if r.State(t.name + s) {
					r.Eval(1)
				}
			})
			if i == len(all)/2 {
				r.Sample(fmt.Sprintf("%s %#v", t.name, l))
			}
		})
		if t.name == "ByteaArray" {
			// every escape: a backslash and up to three characters, alone and inside content
			words([]string{"0", "1", "3", "4", "7", "8", "x", "a", "F", " "}, 4, func(e string) {
				for _, s := range []string{`{"\\` + e + `"}`, `{"a\\` + e + `b"}`, `{"\\x` + e + `"}`} {
					textCase(r, t, s, prevs, pgArrayRef)
				}
			})
		}
		// --- texts
		words(t.tokens, textLen, func(mid string) {
			// as is, and as the inside of an array (which reaches deeper)
			for _, s := range []string{mid, "{" + mid + "}", "{1," + mid, "{{" + mid + "}}"} {
				textCase(r, t, s, prevs, pgArrayRef)
			}
		})
	}
}

// one is the list holding just v.
func one(t listType, v any) any {
	l := reflect.MakeSlice(reflect.TypeOf(t.make(nil)), 1, 1)
	l.Index(0).Set(reflect.ValueOf(v))
	return l.Interface()
}

func textCase(r *report.Run, t listType, s string, prevs []any, ref func(string) ([]pgElem, bool, bool)) {
	key := t.name + "/text"
	r.Do(key, func() string { return fmt.Sprintf("%s scan %q", t.name, s) }, func() {
		el, ok, open := ref(s)
		must := !open
		var want reflect.Value
		if ok {
			want = reflect.MakeSlice(reflect.TypeOf(t.make(nil)), 0, len(el))
			for _, e := range el {
				v, eok, emust := t.parse(e)
				if !eok {
					ok = false
					break
				}
				must = must && emust
				want = reflect.Append(want, reflect.ValueOf(v))
			}
		}
		for i, p := range prevs {
			var src any = []byte(s)
			if i == 1 {
				src = s
			}
			got, err := t.scan(p, src)
			r.Trace(1)
			if err != nil {
				if !t.equal(got, p) {
					r.Violate(key+"/partial", fmt.Sprintf("%s: failing scan of %q (%v) changed %#v to %#v", t.name, s, err, p, got), s)
				}
				if ok && must {
					r.Violate(key+"/rejected", fmt.Sprintf("%s: %q rejected: %v (denotes %#v)", t.name, s, err, want.Interface()), s)
				}
				continue
			}
			if open && !ok {
				continue
			}
			if !ok {
				r.Violate(key+"/accepted", fmt.Sprintf("%s: malformed or out-of-range %q accepted as %#v", t.name, s, got), s)
				continue
			}
			if !t.equal(got, want.Interface()) && must {
				r.Violate(key+"/wrong", fmt.Sprintf("%s: %q read as %#v, denotes %#v", t.name, s, got, want.Interface()), s)
			}
		}
		r.Transition(len(prevs))
		r.Eval(1)
	})
}
