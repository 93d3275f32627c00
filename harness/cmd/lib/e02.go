package main

import (
	"database/sql"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"time"

	"vh/report"

	"github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype"
	"github.com/si3nloong/sqlgen/sequel/encoding"
	"github.com/si3nloong/sqlgen/sequel/sqltype"
	"github.com/si3nloong/sqlgen/sequel/types"
)

// dump prints a value deeply (pointers followed), nil and empty lists alike.
func dump(v reflect.Value, b *strings.Builder) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		dump(v.Elem(), b)
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			b.WriteString(t.Format(time.RFC3339Nano))
			return
		}
		if t, ok := v.Interface().(big.Int); ok {
			b.WriteString(t.String())
			return
		}
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			dump(v.Field(i), b)
			b.WriteByte(';')
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dump(v.Index(i), b)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			dump(v.MapIndex(k), &e)
			ks = append(ks, fmt.Sprintf("%v:%s", k, e.String()))
		}
		sort.Strings(ks)
		b.WriteString("map" + strings.Join(ks, ","))
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		fmt.Fprintf(b, "%v", v)
	}
}

func dumpOf(v any) string {
	var b strings.Builder
	dump(reflect.ValueOf(v), &b)
	return b.String()
}

type wire struct {
	label string
	mk    func() (v any, scribble func())
}

func wb(s string) wire {
	return wire{fmt.Sprintf("[]byte(%q)", s), func() (any, func()) {
		b := append(make([]byte, 0, len(s)+8), s...)
		return b, func() {
			full := b[:cap(b)]
			for i := range full {
				full[i] = '#'
			}
		}
	}}
}

func wr(s string) wire {
	w := wb(s)
	return wire{"json.RawMessage(" + s + ")", func() (any, func()) {
		v, f := w.mk()
		return json.RawMessage(v.([]byte)), f
	}}
}

func wv(v any) wire {
	return wire{fmt.Sprintf("%T(%v)", v, v), func() (any, func()) { return v, func() {} }}
}

func ws(ss ...string) []wire {
	out := []wire{wv(nil)}
	for _, s := range ss {
		out = append(out, wb(s), wv(s))
	}
	return out
}

// scanner under history exploration: a destination of type T.
func history[T any](r *report.Run, name string, depth int, mk func(*T) sql.Scanner, wires []wire) {
	// reference: each wire value scanned once into a fresh destination from a
	// private buffer.
	type ref struct {
		ok   bool
		dump string
	}
	refs := make([]ref, len(wires))
	for i, w := range wires {
		r.Do(name+"/fresh", func() string { return name + " " + w.label }, func() {
			var d T
			v, _ := w.mk()
			err := mk(&d).Scan(v)
			refs[i] = ref{err == nil, dumpOf(d)}
			if v == nil {
				var z T
				if err == nil && refs[i].dump != dumpOf(z) {
					r.Violate(name+"/null", fmt.Sprintf("%s: NULL read as %s", name, refs[i].dump), nil)
				}
				refs[i].dump = dumpOf(z)
			}
		})
	}
	type kept struct {
		val  T
		dump string
		at   int
	}
	run := func(seq []int, reuse bool) {
		var d T
		sc := mk(&d)
		var saved []kept
		var hist []string
		for step, k := range seq {
			w := wires[k]
			hist = append(hist, w.label)
			if !reuse {
				sc = mk(&d)
			}
			v, scribble := w.mk()
			err := sc.Scan(v)
			after := dumpOf(d)
			scribble()
			h := strings.Join(hist, " -> ")
			if now := dumpOf(d); now != after {
				r.Violate(name+"/aliases-driver", fmt.Sprintf("%s: after %s the field was %s; overwriting the driver's buffer made it %s", name, h, after, now), h)
			}
			if err == nil && refs[k].ok && after != refs[k].dump {
				r.Violate(name+"/history", fmt.Sprintf("%s: after %s the field is %s, but %s alone gives %s", name, h, after, w.label, refs[k].dump), h)
			}
			if (err == nil) != refs[k].ok {
				r.Violate(name+"/history-error", fmt.Sprintf("%s: after %s the scan error is %v, but alone it is ok=%v", name, h, err, refs[k].ok), h)
			}
			for _, s := range saved {
				if now := dumpOf(s.val); now != s.dump {
					r.Violate(name+"/aliases-earlier", fmt.Sprintf("%s: the value kept after step %d of %s changed from %s to %s", name, s.at+1, h, s.dump, now), h)
				}
			}
			saved = append(saved, kept{d, dumpOf(d), step})
			r.Transition(1)
		}
		r.Trace(1)
		r.Eval(1)
	}
	var rec func(seq []int)
	rec = func(seq []int) {
		if len(seq) == depth {
			for _, reuse := range []bool{false, true} {
				s := append([]int{}, seq...)
				r.Do(name+"/sequence", func() string {
					var l []string
					for _, k := range s {
						l = append(l, wires[k].label)
					}
					return name + ": " + strings.Join(l, " -> ")
				}, func() { run(s, reuse) })
			}
			r.State(fmt.Sprint(name, seq))
			return
		}
		for k := range wires {
			rec(append(seq, k))
		}
	}
	rec(nil)
}

func e02(r *report.Run) {
	r.Rule = "for every library scanner: every sequence of scans of exactly the depth over its wire values (NULL, empty, short, long, malformed; bytes and text), new or reused scanner object, driver buffer overwritten after each step, earlier row values re-checked after each step; reference: the same value scanned alone into a fresh destination"
	d := r.Pick(3, 4)
	r.Bounds["sequence_depth"] = d
	jobs := []func(){}
	add := func(f func()) { jobs = append(jobs, f) }
	strW := ws("", "a", "hello world, a longer string", "\xff")
	add(func() {
		history(r, "string", d, func(p *string) sql.Scanner { return encoding.StringScanner[string](p) }, append(strW, wv(int64(5))))
	})
	add(func() {
		history(r, "*string", d, func(p **string) sql.Scanner { return encoding.StringScanner[string](p) }, strW)
	})
	add(func() {
		history(r, "[]byte", d, func(p *[]byte) sql.Scanner { return encoding.StringScanner[[]byte](p) }, strW)
	})
	add(func() {
		history(r, "*[]byte", d, func(p **[]byte) sql.Scanner { return encoding.StringScanner[[]byte](p) }, strW)
	})
	add(func() {
		history(r, "named []byte", d, func(p *nBytes) sql.Scanner { return encoding.StringScanner[nBytes](p) }, strW)
	})
	boolW := append(ws("true", "0", "x"), wv(true), wv(false), wv(int64(1)))
	add(func() {
		history(r, "bool", d, func(p *bool) sql.Scanner { return encoding.BoolScanner[bool](p) }, boolW)
	})
	add(func() {
		history(r, "*bool", d, func(p **bool) sql.Scanner { return encoding.BoolScanner[bool](p) }, boolW)
	})
	intW := append(ws("1", "-7", "x", "99999999999999999999"), wv(int64(3)), wv(int64(0)))
	add(func() {
		history(r, "int", d, func(p *int) sql.Scanner { return encoding.IntScanner[int](p) }, intW)
	})
	add(func() {
		history(r, "*int64", d, func(p **int64) sql.Scanner { return encoding.Int64Scanner[int64](p) }, intW)
	})
	add(func() {
		history(r, "*int8", d, func(p **int8) sql.Scanner { return encoding.Int8Scanner[int8](p) }, intW)
	})
	add(func() {
		history(r, "uint16", d, func(p *uint16) sql.Scanner { return encoding.Uint16Scanner[uint16](p) }, intW)
	})
	add(func() {
		history(r, "*uint64", d, func(p **uint64) sql.Scanner { return encoding.Uint64Scanner[uint64](p) }, intW)
	})
	flW := append(ws("1.5", "x", "1e999"), wv(2.5), wv(int64(3)))
	add(func() {
		history(r, "float32", d, func(p *float32) sql.Scanner { return encoding.Float32Scanner[float32](p) }, flW)
	})
	add(func() {
		history(r, "*float32", d, func(p **float32) sql.Scanner { return encoding.Float32Scanner[float32](p) }, flW)
	})
	add(func() {
		history(r, "*float64", d, func(p **float64) sql.Scanner { return encoding.Float64Scanner[float64](p) }, flW)
	})
	timeW := append(ws("2024-02-29", "2024-02-29 01:02:03.5", "x"), wv(time.Unix(1e9, 5).UTC()), wv(int64(77)))
	add(func() {
		history(r, "time", d, func(p *time.Time) sql.Scanner { return encoding.TimeScanner(p) }, timeW)
	})
	add(func() {
		history(r, "*time", d, func(p **time.Time) sql.Scanner { return encoding.TimeScanner(p) }, timeW)
	})
	arrW := ws("", "a", "abcd", "zz", "abcde", "é世")
	add(func() {
		history(r, "[4]byte", d, func(p *[4]byte) sql.Scanner { return encoding.ByteArrayScanner(p[:], 4) }, arrW)
	})
	add(func() {
		history(r, "[4]rune", d, func(p *[4]rune) sql.Scanner { return encoding.RuneArrayScanner(p[:], 4) }, arrW)
	})
	txtW := ws("<a>", "<longer text>", "bad", "")
	add(func() {
		history(r, "text", d, func(p *textVal) sql.Scanner { return encoding.TextScanner[textVal, *textVal](p) }, txtW)
	})
	add(func() {
		history(r, "*text", d, func(p **textVal) sql.Scanner { return encoding.TextScanner[textVal, *textVal](p) }, txtW)
	})
	add(func() {
		history(r, "mergetext", d, func(p *mergeText) sql.Scanner { return encoding.TextScanner[mergeText, *mergeText](p) }, ws("a=1", "b=2", "a=1,b=3", "x"))
	})
	add(func() {
		history(r, "*mergetext", d, func(p **mergeText) sql.Scanner { return encoding.TextScanner[mergeText, *mergeText](p) }, ws("a=1", "b=2", "a=1,b=3", "x"))
	})
	add(func() {
		history(r, "big.Int", d, func(p **big.Int) sql.Scanner { return encoding.TextScanner[big.Int, *big.Int](p) }, append(ws("12345678901234567890", "-3", "x"), wv(int64(9))))
	})
	add(func() {
		history(r, "*scanner", d, func(p **scanVal) sql.Scanner { return encoding.PtrScanner(p) }, append(ws("a", "bb", "bad"), wv(int64(4))))
	})
	add(func() {
		history(r, "*sql.NullString", d, func(p **sql.NullString) sql.Scanner { return encoding.PtrScanner(p) }, append(ws("a", "bb"), wv(int64(4))))
	})
	add(func() {
		history(r, "binary", d, func(p *binVal) sql.Scanner { return types.BinaryUnmarshaler(p) }, ws("\x00a", "\x00longer", "bad"))
	})
	objW := append(ws(`{"x":1}`, `{"l":[7],"m":{"a":1}}`, `{"m":{"b":2},"p":{"x":3}}`, `{`, `{"l":[1,2,3]}`, `null`), wr(`{"m":{"c":4}}`))
	add(func() {
		history(r, "json struct", d, func(p *jsonPoint) sql.Scanner { return encoding.JSONScanner(p) }, objW)
	})
	add(func() {
		history(r, "json *struct", d, func(p **jsonPoint) sql.Scanner { return encoding.JSONScanner(p) }, objW)
	})
	add(func() {
		history(r, "json map", d, func(p *map[string]int) sql.Scanner { return encoding.JSONScanner(p) }, ws(`{"a":1}`, `{"b":2}`, `{}`, `null`, `{`))
	})
	add(func() {
		history(r, "json slice", d, func(p *[]int) sql.Scanner { return encoding.JSONScanner(p) }, ws(`[1,2,3]`, `[9]`, `[]`, `null`, `[1,`))
	})
	add(func() {
		history(r, "json [](map)", d, func(p *[]map[string]int) sql.Scanner { return encoding.JSONScanner(p) }, ws(`[{"a":1},{"b":2}]`, `[{"c":3}]`, `[]`))
	})
	add(func() {
		history(r, "json any", d, func(p *any) sql.Scanner { return encoding.JSONScanner(p) }, ws(`{"a":1}`, `[1]`, `"x"`, `null`, `}`))
	})
	add(func() {
		history(r, "json raw", d, func(p *json.RawMessage) sql.Scanner { return encoding.JSONScanner(p) }, ws(`{"a":1}`, `[1,2,3]`, `3`, `{`))
	})
	add(func() {
		history(r, "json marshaler", d, func(p *valJSON) sql.Scanner { return encoding.JSONScanner(p) }, ws(`1001`, `1002`, `"x"`))
	})
	listsJ := func() []wire { return ws(`["a","b"]`, `["longer text"]`, `[]`, `["x"`, ` [ "q" , "r\n" ] `) }
	add(func() {
		history(r, "StringSlice", d, func(p *[]string) sql.Scanner { return (*sqltype.StringSlice[string])(p) }, listsJ())
	})
	add(func() {
		history(r, "BoolSlice", d, func(p *[]bool) sql.Scanner { return (*sqltype.BoolSlice[bool])(p) }, ws(`[true,false]`, `[false]`, `[]`, `[x]`, `[true`))
	})
	numsJ := ws(`[1,2,3]`, `[4]`, `[]`, `[5,x]`, `[6`, `[7, 8]`)
	add(func() {
		history(r, "IntSlice", d, func(p *[]int) sql.Scanner { return (*sqltype.IntSlice[int])(p) }, numsJ)
	})
	add(func() {
		history(r, "Int8Slice", d, func(p *[]int8) sql.Scanner { return (*sqltype.Int8Slice[int8])(p) }, append(numsJ, wb(`[1,300]`)))
	})
	add(func() {
		history(r, "Uint8Slice", d, func(p *[]uint8) sql.Scanner { return (*sqltype.Uint8Slice[uint8])(p) }, append(numsJ, wb(`[1,300]`)))
	})
	add(func() {
		history(r, "Uint64Slice", d, func(p *[]uint64) sql.Scanner { return (*sqltype.Uint64Slice[uint64])(p) }, numsJ)
	})
	add(func() {
		history(r, "Float32Slice", d, func(p *[]float32) sql.Scanner { return (*sqltype.Float32Slice[float32])(p) }, numsJ)
	})
	add(func() {
		history(r, "Float64Slice", d, func(p *[]float64) sql.Scanner { return (*sqltype.Float64Slice[float64])(p) }, numsJ)
	})
	add(func() {
		history(r, "StringArray", d, func(p *[]string) sql.Scanner { return (*pgtype.StringArray[string])(p) }, ws(`{a,b}`, `{"longer text"}`, `{}`, `{"x"`, `{"q\"","r"}`))
	})
	add(func() {
		history(r, "BoolArray", d, func(p *[]bool) sql.Scanner { return (*pgtype.BoolArray[bool])(p) }, ws(`{t,f}`, `{f}`, `{}`, `{t,x}`))
	})
	add(func() {
		history(r, "ByteaArray", d, func(p *[][]byte) sql.Scanner { return (*pgtype.ByteaArray[[]byte])(p) }, ws(`{"\\x6162","\\x63"}`, `{abc,d}`, `{}`, `{"\\xg"}`, `{"a\\134b"}`))
	})
	numsP := ws(`{1,2,3}`, `{4}`, `{}`, `{5,x}`, `{6`)
	add(func() {
		history(r, "IntArray", d, func(p *[]int) sql.Scanner { return (*pgtype.IntArray[int])(p) }, numsP)
	})
	add(func() {
		history(r, "Int16Array", d, func(p *[]int16) sql.Scanner { return (*pgtype.Int16Array[int16])(p) }, numsP)
	})
	add(func() {
		history(r, "Uint32Array", d, func(p *[]uint32) sql.Scanner { return (*pgtype.Uint32Array[uint32])(p) }, numsP)
	})
	add(func() {
		history(r, "Float32Array", d, func(p *[]float32) sql.Scanner { return (*pgtype.Float32Array[float32])(p) }, numsP)
	})
	add(func() {
		history(r, "Float64Array", d, func(p *[]float64) sql.Scanner { return (*pgtype.Float64Array[float64])(p) }, numsP)
	})
	r.Bounds["scanners"] = len(jobs)
	report.Parallel(len(jobs), func(i int) { jobs[i]() })
	r.Sample(`json struct: []byte({"m":{"a":1}}) -> []byte({"m":{"b":2}}) -> nil`)
	r.Sample(`[]byte: []byte("hello") -> overwrite buffer -> []byte("a") -> re-check row 1`)
	r.Sample(`[4]rune: "abcd" -> nil -> "a"`)
}

// mergeText is a text type whose UnmarshalText adds to what is already there,
// as decoders of maps do.
type mergeText struct{ M map[string]string }

func (m mergeText) MarshalText() ([]byte, error) { return []byte(dumpOf(m.M)), nil }
func (m *mergeText) UnmarshalText(b []byte) error {
	for _, kv := range strings.Split(string(b), ",") {
		k, v, ok := strings.Cut(kv, "=")
		if !ok {
			return fmt.Errorf("bad pair %q", kv)
		}
		if m.M == nil {
			m.M = map[string]string{}
		}
		m.M[k] = v
	}
	return nil
}
