package main

import (
	"bytes"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	"vh/report"

	"github.com/si3nloong/sqlgen/sequel/encoding"
	"github.com/si3nloong/sqlgen/sequel/sqltype"
)

// jsonRef splits a JSON array into its raw elements with encoding/json.
// The JSON text null (a JSON column can hold it) is left open.
func jsonRef(s string) (el []pgElem, ok, open bool) {
	var raw []json.RawMessage
	if json.Unmarshal([]byte(s), &raw) != nil {
		return nil, false, false
	}
	if strings.TrimSpace(s) == "null" {
		return nil, true, true
	}
	for _, r := range raw {
		el = append(el, pgElem{null: string(r) == "null", s: string(r)})
	}
	return el, true, false
}

func jsonInt[T integer](lo, hi *big.Int) func(e pgElem) (T, bool, bool) {
	return func(e pgElem) (T, bool, bool) {
		if e.null || e.s[0] == '"' || e.s[0] == 't' || e.s[0] == 'f' || e.s[0] == '[' || e.s[0] == '{' {
			return 0, false, true
		}
		must := decimal.MatchString(e.s) // 1.0 and 1e2 are left open
		var b *big.Int
		if must {
			b, _ = new(big.Int).SetString(e.s, 10)
			if b.Sign() == 0 && e.s[0] == '-' {
				must = false
			}
		} else {
			f, err := strconv.ParseFloat(e.s, 64)
			if err != nil || f != math.Trunc(f) {
				return 0, false, true
			}
			b, _ = big.NewFloat(f).Int(nil)
		}
		if b.Cmp(lo) < 0 || b.Cmp(hi) > 0 {
			return 0, false, true
		}
		if b.Sign() < 0 {
			return T(b.Int64()), true, must
		}
		return T(b.Uint64()), true, must
	}
}

func jsonIntTokens(lo, hi *big.Int) []string {
	one := big.NewInt(1)
	return []string{"[", "]", ",", "\"", "\n", "null", " ", "1", "0", "-", ".", "e", "true",
		hi.String(), new(big.Int).Add(hi, one).String(), lo.String(), new(big.Int).Sub(lo, one).String(), "NULL"}
}

func jInt[T integer, L any](name string, bits int, signed bool, toL func([]T) L, val func(L) (driver.Value, error), sc func(*L) sql.Scanner, fromL func(L) []T) listType {
	lo, hi := lim(bits, signed)
	return mkList(name, intElems[T](lo, hi), toL, val, sc, fromL, jsonInt[T](lo, hi), intRender[T], eq[T], jsonIntTokens(lo, hi))
}

func jsonStr(e pgElem) (string, bool, bool) {
	var s *string
	if json.Unmarshal([]byte(e.s), &s) != nil || s == nil {
		return "", false, true
	}
	return *s, true, true
}

func jsonFloat(bits int) func(pgElem) (float64, bool, bool) {
	return func(e pgElem) (float64, bool, bool) {
		if e.null || strings.IndexByte(`"tf[{`, e.s[0]) >= 0 {
			return 0, false, true
		}
		v, err := strconv.ParseFloat(e.s, bits)
		return v, err == nil, true
	}
}

func jsonFloatRender(bits int) func(float64) []string {
	return func(v float64) []string {
		return []string{strconv.FormatFloat(v, 'g', -1, bits), strconv.FormatFloat(v, 'E', -1, bits)}
	}
}

func jsonTypes() []listType {
	strs := []string{"", "a", "null", "NULL", `"`, `\`, "[]", ",", " ", "\n", "\t\r\b\f", "é", "世😀", "\u2028<>&", "\x01\x1f\x7f", `\u0041`, "\u0085"}
	strRender := func(s string) []string {
		a, _ := json.Marshal(s)
		var b strings.Builder // every character escaped
		b.WriteByte('"')
		for _, r := range s {
			if r > 0xffff {
				r1, r2 := (r-0x10000)>>10+0xd800, (r-0x10000)&0x3ff+0xdc00
				fmt.Fprintf(&b, `\u%04x\u%04X`, r1, r2)
				continue
			}
			fmt.Fprintf(&b, `\u%04x`, r)
		}
		b.WriteByte('"')
		return []string{string(a), b.String(), strings.ReplaceAll(string(a), "/", `\/`)}
	}
	ts := []listType{
		mkList("StringSlice", strs,
			func(x []string) sqltype.StringSlice[string] { return x },
			func(l sqltype.StringSlice[string]) (driver.Value, error) { return l.Value() },
			func(l *sqltype.StringSlice[string]) sql.Scanner { return l },
			func(l sqltype.StringSlice[string]) []string { return l },
			jsonStr, strRender, eq[string], []string{"[", "]", ",", "\"", "\\", "null", " ", "a", "n", "u", "0041", "1", "\n", "é", "/"}),
		mkList("BoolSlice", []bool{true, false},
			func(x []bool) sqltype.BoolSlice[bool] { return x },
			func(l sqltype.BoolSlice[bool]) (driver.Value, error) { return l.Value() },
			func(l *sqltype.BoolSlice[bool]) sql.Scanner { return l },
			func(l sqltype.BoolSlice[bool]) []bool { return l },
			func(e pgElem) (bool, bool, bool) { return e.s == "true", e.s == "true" || e.s == "false", true },
			func(b bool) []string { return []string{strconv.FormatBool(b)} }, eq[bool],
			[]string{"[", "]", ",", "\"", "true", "false", "t", "f", "null", "1", "0", " ", "\t", "rue"}),
		mkList("Float64Slice", []float64{0, 1.5, -2, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, 0.1},
			func(x []float64) sqltype.Float64Slice[float64] { return x },
			func(l sqltype.Float64Slice[float64]) (driver.Value, error) { return l.Value() },
			func(l *sqltype.Float64Slice[float64]) sql.Scanner { return l },
			func(l sqltype.Float64Slice[float64]) []float64 { return l },
			jsonFloat(64), jsonFloatRender(64), eqF, []string{"[", "]", ",", "\"", " ", "1", "0", ".", "e", "-", "+", "5e400", "1e39", "NaN", "Infinity", "null", "x"}),
		mkList("Float32Slice", []float32{0, 1.5, -2, math.MaxFloat32, math.SmallestNonzeroFloat32, 1e21, 0.1},
			func(x []float32) sqltype.Float32Slice[float32] { return x },
			func(l sqltype.Float32Slice[float32]) (driver.Value, error) { return l.Value() },
			func(l *sqltype.Float32Slice[float32]) sql.Scanner { return l },
			func(l sqltype.Float32Slice[float32]) []float32 { return l },
			func(e pgElem) (float32, bool, bool) { v, ok, m := jsonFloat(32)(e); return float32(v), ok, m },
			func(v float32) []string { return jsonFloatRender(32)(float64(v)) },
			eq[float32], []string{"[", "]", ",", "\"", " ", "1", "0", ".", "e", "-", "+", "5e400", "1e39", "NaN", "Infinity", "null", "x"}),
		jInt("IntSlice", 64, true, func(x []int) sqltype.IntSlice[int] { return x }, func(l sqltype.IntSlice[int]) (driver.Value, error) { return l.Value() }, func(l *sqltype.IntSlice[int]) sql.Scanner { return l }, func(l sqltype.IntSlice[int]) []int { return l }),
		jInt("Int8Slice", 8, true, func(x []int8) sqltype.Int8Slice[int8] { return x }, func(l sqltype.Int8Slice[int8]) (driver.Value, error) { return l.Value() }, func(l *sqltype.Int8Slice[int8]) sql.Scanner { return l }, func(l sqltype.Int8Slice[int8]) []int8 { return l }),
		jInt("Int16Slice", 16, true, func(x []int16) sqltype.Int16Slice[int16] { return x }, func(l sqltype.Int16Slice[int16]) (driver.Value, error) { return l.Value() }, func(l *sqltype.Int16Slice[int16]) sql.Scanner { return l }, func(l sqltype.Int16Slice[int16]) []int16 { return l }),
		jInt("Int32Slice", 32, true, func(x []int32) sqltype.Int32Slice[int32] { return x }, func(l sqltype.Int32Slice[int32]) (driver.Value, error) { return l.Value() }, func(l *sqltype.Int32Slice[int32]) sql.Scanner { return l }, func(l sqltype.Int32Slice[int32]) []int32 { return l }),
		jInt("Int64Slice", 64, true, func(x []int64) sqltype.Int64Slice[int64] { return x }, func(l sqltype.Int64Slice[int64]) (driver.Value, error) { return l.Value() }, func(l *sqltype.Int64Slice[int64]) sql.Scanner { return l }, func(l sqltype.Int64Slice[int64]) []int64 { return l }),
		jInt("UintSlice", 64, false, func(x []uint) sqltype.UintSlice[uint] { return x }, func(l sqltype.UintSlice[uint]) (driver.Value, error) { return l.Value() }, func(l *sqltype.UintSlice[uint]) sql.Scanner { return l }, func(l sqltype.UintSlice[uint]) []uint { return l }),
		jInt("Uint8Slice", 8, false, func(x []uint8) sqltype.Uint8Slice[uint8] { return x }, func(l sqltype.Uint8Slice[uint8]) (driver.Value, error) { return l.Value() }, func(l *sqltype.Uint8Slice[uint8]) sql.Scanner { return l }, func(l sqltype.Uint8Slice[uint8]) []uint8 { return l }),
		jInt("Uint16Slice", 16, false, func(x []uint16) sqltype.Uint16Slice[uint16] { return x }, func(l sqltype.Uint16Slice[uint16]) (driver.Value, error) { return l.Value() }, func(l *sqltype.Uint16Slice[uint16]) sql.Scanner { return l }, func(l sqltype.Uint16Slice[uint16]) []uint16 { return l }),
		jInt("Uint32Slice", 32, false, func(x []uint32) sqltype.Uint32Slice[uint32] { return x }, func(l sqltype.Uint32Slice[uint32]) (driver.Value, error) { return l.Value() }, func(l *sqltype.Uint32Slice[uint32]) sql.Scanner { return l }, func(l sqltype.Uint32Slice[uint32]) []uint32 { return l }),
		jInt("Uint64Slice", 64, false, func(x []uint64) sqltype.Uint64Slice[uint64] { return x }, func(l sqltype.Uint64Slice[uint64]) (driver.Value, error) { return l.Value() }, func(l *sqltype.Uint64Slice[uint64]) sql.Scanner { return l }, func(l sqltype.Uint64Slice[uint64]) []uint64 { return l }),
	}
	return ts
}

// spellings of a JSON array given its element spellings.
func jsonSpell(el []pgElem, k int) string {
	var parts []string
	for _, e := range el {
		parts = append(parts, e.s)
	}
	switch k {
	case 0:
		return "[" + strings.Join(parts, ",") + "]"
	case 1: // MySQL's normal form
		return "[" + strings.Join(parts, ", ") + "]"
	case 2:
		return " [ " + strings.Join(parts, " ,\n\t") + " ] "
	}
	return "[\r\n" + strings.Join(parts, ",\r\n") + "\r\n]\n"
}

func e06(r *report.Run) {
	r.Rule = "per JSON list type: every list up to the length over boundary elements (written, validated and decoded with encoding/json, read back as text and bytes, and read from every spelling of it), and every text up to the length over the JSON alphabet judged by encoding/json; every marshal helper on every such list"
	listLen, textLen := 3, r.Pick(4, 5)
	r.Bounds["list_len"], r.Bounds["text_tokens"] = listLen, textLen
	for _, t := range jsonTypes() {
		prevs := []any{t.make(nil), t.make([]int{}), t.make([]int{0, 1})}
		r.Do(t.name+"/nil", func() string { return t.name + " nil" }, func() {
			v, err := t.value(t.make(nil))
			if err != nil || v != nil {
				r.Violate(t.name+"/nil", fmt.Sprintf("%s: nil list written as %#v, err %v", t.name, v, err), nil)
			}
			for _, p := range prevs {
				got, err := t.scan(p, nil)
				if err != nil || !isNilSlice(got) {
					r.Violate(t.name+"/null", fmt.Sprintf("%s: NULL read as %#v, err %v", t.name, got, err), nil)
				}
			}
			r.Trace(4)
		})
		var all [][]int
		lists(len(t.elems), listLen, func(idx []int) { all = append(all, append([]int{}, idx...)) })
		report.Parallel(len(all), func(i int) {
			l := t.make(all[i])
			key := t.name + "/write"
			r.Do(key, func() string { return fmt.Sprintf("%s %#v", t.name, l) }, func() {
				v, err := t.value(l)
				if err != nil {
					r.Violate(key+"/err", fmt.Sprintf("%s: writing %#v failed: %v", t.name, l, err), fmt.Sprintf("%#v", l))
					return
				}
				s, ok := textOf(v)
				if !ok {
					r.Violate(key+"/type", fmt.Sprintf("%s: %#v written as %T", t.name, l, v), fmt.Sprintf("%#v", l))
					return
				}
				el, ok, _ := jsonRef(s)
				good := ok && len(el) == len(all[i])
				if good {
					for j, e := range el {
						x, ok, _ := t.parse(e)
						if !ok || !t.equal(one(t, x), t.make([]int{all[i][j]})) {
							good = false
						}
					}
				}
				if !good {
					r.Violate(key, fmt.Sprintf("%s: %#v written as %q, which is not JSON denoting it", t.name, l, s), fmt.Sprintf("%#v", l))
				}
				for _, p := range prevs {
					for _, src := range []any{s, []byte(s)} {
						got, err := t.scan(p, src)
						if err != nil || !t.equal(got, l) {
							r.Violate(t.name+"/roundtrip", fmt.Sprintf("%s: %#v written as %q read back (%T) as %#v, err %v", t.name, l, s, src, got, err), fmt.Sprintf("%#v", l))
						}
						r.Trace(1)
					}
				}
				for k := 0; k < 3; k++ {
					var out []pgElem
					for _, x := range all[i] {
						rs := t.render(t.elems[x])
						out = append(out, rs[min(k, len(rs)-1)])
					}
					for sp := 0; sp < 4; sp++ {
						src := jsonSpell(out, sp)
						got, err := t.scan(prevs[2], []byte(src))
						if err != nil || !t.equal(got, l) {
							r.Violate(t.name+"/spelling", fmt.Sprintf("%s: %q read as %#v, err %v", t.name, src, got, err), src)
						}
						r.Trace(1)
					}
				}
				r.Transition(18)
				if r.State(t.name + s) {
					r.Eval(1)
				}
			})
			if i == len(all)/2 {
				r.Sample(fmt.Sprintf("%s %#v", t.name, l))
			}
		})
		words(t.tokens, textLen, func(mid string) {
			for _, s := range []string{mid, "[" + mid + "]", "[[" + mid + "]]", "[1," + mid} {
				textCase(r, t, s, prevs, jsonRef)
			}
		})
	}
	// values JSON cannot express must be refused, not written as something else
	for _, bad := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
		for _, l := range []driver.Valuer{sqltype.Float64Slice[float64]{1, bad}, sqltype.Float32Slice[float32]{1, float32(bad)}} {
			v, err := l.Value()
			if s, _ := textOf(v); err == nil && !json.Valid([]byte(s)) {
				r.Violate("float/unrepresentable", fmt.Sprintf("%T %v written as invalid JSON %q", l, l, s), s)
			}
			r.Trace(1)
		}
	}
	helpers(r, listLen)
}

func helper[T any](r *report.Run, name string, elems []T, max int, f func([]T) string, dec func(json.RawMessage, T) bool) {
	var all [][]int
	lists(len(elems), max, func(idx []int) { all = append(all, append([]int{}, idx...)) })
	report.Parallel(len(all)+1, func(i int) {
		var l []T
		if i > 0 {
			for _, k := range all[i-1] {
				l = append(l, elems[k])
			}
		}
		r.Do(name, func() string { return fmt.Sprintf("%s %#v", name, l) }, func() {
			s := f(l)
			var raw []json.RawMessage
			ok := json.Unmarshal([]byte(s), &raw) == nil && len(raw) == len(l) && raw != nil
			for j := 0; ok && j < len(l); j++ {
				ok = dec(raw[j], l[j])
			}
			if !ok {
				r.Violate(name, fmt.Sprintf("%s(%#v) = %q, which is not JSON denoting the list", name, l, s), fmt.Sprintf("%#v", l))
			}
			r.Trace(1)
			r.Transition(1)
			if r.State(name + s) {
				r.Eval(1)
			}
		})
	})
}

func helpers(r *report.Run, n int) {
	decS := func(m json.RawMessage, v string) bool {
		var s string
		return json.Unmarshal(m, &s) == nil && s == v
	}
	helper(r, "MarshalStringSlice", []string{"", "a", `"`, `\`, "\n", "\x00", "\x07\x0b", "\x7f", "é世😀", "<&>", "\u2028", "\u200b", "],["}, n,
		encoding.MarshalStringSlice[string], decS)
	helper(r, "MarshalStringSlice[bytes]", [][]byte{{}, []byte("a\""), []byte("\x01\x7f"), []byte("é\u200b")}, n,
		encoding.MarshalStringSlice[[]byte], func(m json.RawMessage, v []byte) bool { return decS(m, string(v)) })
	helper(r, "MarshalIntSlice", []int64{0, -1, math.MaxInt64, math.MinInt64, 10}, n, encoding.MarshalIntSlice[int64],
		func(m json.RawMessage, v int64) bool { return string(m) == strconv.FormatInt(v, 10) })
	helper(r, "MarshalIntSlice8", []int8{0, -1, math.MaxInt8, math.MinInt8}, n, encoding.MarshalIntSlice[int8],
		func(m json.RawMessage, v int8) bool { return string(m) == strconv.FormatInt(int64(v), 10) })
	helper(r, "MarshalUintSlice", []uint64{0, 1, math.MaxUint64, math.MaxInt64 + 1}, n, encoding.MarshalUintSlice[uint64],
		func(m json.RawMessage, v uint64) bool { return string(m) == strconv.FormatUint(v, 10) })
	helper(r, "MarshalBoolSlice", []bool{true, false}, n, encoding.MarshalBoolSlice[bool],
		func(m json.RawMessage, v bool) bool { return string(m) == strconv.FormatBool(v) })
	fl := []float64{0, 1.5, -2.25, 1e21, 0.1, math.MaxFloat64, 12345.678}
	helper(r, "MarshalFloat64List", fl, n, func(l []float64) string { return encoding.MarshalFloat64List(l) },
		func(m json.RawMessage, v float64) bool {
			var f float64
			return json.Unmarshal(m, &f) == nil && f == v
		})
	for p := 0; p <= 4; p++ {
		helper(r, fmt.Sprintf("MarshalFloat64List(prec=%d)", p), fl, 2, func(l []float64) string { return encoding.MarshalFloat64List(l, p) },
			func(m json.RawMessage, v float64) bool {
				f, ok := new(big.Float).SetPrec(2000).SetString(string(m))
				if !ok {
					return false
				}
				d := new(big.Float).SetPrec(2000).Sub(f, big.NewFloat(v))
				half := new(big.Float).SetPrec(2000).SetFloat64(0.5)
				for i := 0; i < p; i++ {
					half.Quo(half, big.NewFloat(10))
				}
				// within half a unit of the last requested digit (plus rounding dust)
				half.Mul(half, big.NewFloat(1.0000001))
				return d.Abs(d).Cmp(half) <= 0
			})
	}
	now := time.Date(2024, 2, 29, 23, 59, 58, 0, time.UTC)
	zone := time.FixedZone("X", -(5*3600 + 30*60))
	helper(r, "MarshalTimeList", []time.Time{now, {}, now.In(zone), now.Add(time.Hour)}, n, encoding.MarshalTimeList[time.Time],
		func(m json.RawMessage, v time.Time) bool {
			var t time.Time
			return json.Unmarshal(m, &t) == nil && t.Equal(v.Truncate(time.Second))
		})
	// no state leaks between calls through the recycled buffers
	for i := 0; i < 3; i++ {
		a := encoding.MarshalStringSlice([]string{strings.Repeat("x", 100)})
		b := encoding.MarshalIntSlice([]int{1})
		if !bytes.Equal([]byte(b), []byte("[1]")) || len(a) != 104 {
			r.Violate("helpers/leak", "buffers leak between calls", b)
		}
	}
}
