package main

import (
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"vh/report"

	"github.com/si3nloong/sqlgen/sequel/encoding"
	"github.com/si3nloong/sqlgen/sequel/types"
)

var decimalFloat = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$`)

// floatText: the number a text denotes. Decimal notation and the NaN/Infinity
// spellings databases emit must be read; other spellings Go knows (hex, inf in
// other cases) are left open.
func floatText(s string, bits int) (float64, bool, bool) {
	v, err := strconv.ParseFloat(s, bits)
	if err != nil {
		return 0, false, true
	}
	switch s {
	case "NaN", "Infinity", "-Infinity":
		return v, true, true
	}
	return v, true, decimalFloat.MatchString(s)
}

type verdict int

const (
	accept verdict = iota // must be read as the given value
	reject                // must be an error
	open                  // either an error or exactly the given value
	any_                  // not judged
)

// scalar describes one destination type: ref gives what a wire value denotes.
type scalar[T any] struct {
	name  string
	val   func(*T) sql.Scanner
	ptr   func(**T) sql.Scanner // nil if there is no pointer form
	prevs []T
	eq    func(a, b T) bool
	ref   func(wire any) (T, verdict)
}

func (s scalar[T]) check(r *report.Run, wire any) {
	key := fmt.Sprintf("%s/%T", s.name, wire)
	want, v := s.ref(wire)
	show := func() string { return fmt.Sprintf("%T(%#v)", wire, wire) }
	if b, ok := wire.([]byte); ok {
		show = func() string { return fmt.Sprintf("[]byte(%q)", b) }
	}
	if wire == nil {
		var z T
		want, v = z, accept
	}
	judge := func(kind string, err error, got T, isNil bool) {
		k := key + kind
		switch {
		case v == any_:
		case err != nil && v == accept:
			r.Violate(k+"/rejected", fmt.Sprintf("%s: %s rejected: %v (denotes %#v)", s.name+kind, show(), err, want), show())
		case err == nil && v == reject:
			r.Violate(k+"/accepted", fmt.Sprintf("%s: %s accepted as %#v", s.name+kind, show(), got), show())
		case err == nil && (isNil || !s.eq(got, want)):
			r.Violate(k+"/wrong", fmt.Sprintf("%s: %s read as %#v (nil=%v), denotes %#v", s.name+kind, show(), got, isNil, want), show())
		}
	}
	cp := func(w any) any {
		if b, ok := w.([]byte); ok && b != nil {
			return append([]byte{}, b...)
		}
		return w
	}
	for _, prev := range s.prevs {
		r.Do(key, show, func() {
			d := prev
			err := s.val(&d).Scan(cp(wire))
			judge("", err, d, false)
			r.Trace(1)
		})
	}
	if s.ptr != nil {
		for i := -1; i < len(s.prevs); i++ {
			r.Do(key+"/ptr", show, func() {
				var p *T
				if i >= 0 {
					d := s.prevs[i]
					p = &d
				}
				err := s.ptr(&p).Scan(cp(wire))
				r.Trace(1)
				if wire == nil {
					if err != nil || p != nil {
						r.Violate(key+"/ptr/null", fmt.Sprintf("*%s: NULL read as %v, err %v", s.name, p, err), show())
					}
					return
				}
				if err == nil && p != nil {
					judge("/ptr", err, *p, false)
				} else {
					var z T
					judge("/ptr", err, z, err == nil)
				}
			})
		}
	}
	r.Transition(1)
	r.Eval(1)
}

// textVal is a text-marshalled type that refuses odd content and remembers the
// exact bytes it was given.
type textVal struct{ S string }

func (t textVal) MarshalText() ([]byte, error) { return []byte("<" + t.S + ">"), nil }
func (t *textVal) UnmarshalText(b []byte) error {
	if len(b) < 2 || b[0] != '<' || b[len(b)-1] != '>' {
		return errors.New("not a textVal")
	}
	t.S = string(b[1 : len(b)-1])
	return nil
}

// anyText accepts every text.
type anyText struct{ S string }

func (t anyText) MarshalText() ([]byte, error)  { return []byte(t.S), nil }
func (t *anyText) UnmarshalText(b []byte) error { t.S = string(b); return nil }

type binVal struct{ S string }

func (t binVal) MarshalBinary() ([]byte, error) { return []byte("\x00" + t.S), nil }
func (t *binVal) UnmarshalBinary(b []byte) error {
	if len(b) < 1 || b[0] != 0 {
		return errors.New("not a binVal")
	}
	t.S = string(b[1:])
	return nil
}

// scanVal is a user-defined sql.Scanner.
type scanVal struct{ V any }

func (t *scanVal) Scan(v any) error {
	if s, ok := v.(string); ok && s == "bad" {
		return errors.New("bad")
	}
	if b, ok := v.([]byte); ok {
		v = string(b)
	}
	t.V = v
	return nil
}

type jsonPoint struct {
	X int            `json:"x"`
	L []int          `json:"l,omitempty"`
	M map[string]int `json:"m,omitempty"`
	P *jsonPoint     `json:"p,omitempty"`
}

// valJSON has value-receiver JSON methods (a nil pointer to it is legal JSON null).
type valJSON struct{ N int }

func (v valJSON) MarshalJSON() ([]byte, error) { return []byte(strconv.Itoa(v.N + 1000)), nil }
func (v *valJSON) UnmarshalJSON(b []byte) error {
	n, err := strconv.Atoi(string(b))
	if err != nil {
		return err
	}
	v.N = n - 1000
	return nil
}

func deep[T any](a, b T) bool { return reflect.DeepEqual(a, b) }

func jsonScalar[T any](name string, prevs ...T) scalar[T] {
	var z T
	return scalar[T]{name: "json " + name, prevs: append(prevs, z), eq: deep[T],
		val: func(p *T) sql.Scanner { return encoding.JSONScanner(p) },
		ref: func(w any) (T, verdict) {
			var d T
			var b []byte
			switch w := w.(type) {
			case string:
				b = []byte(w)
			case []byte:
				b = w
			case json.RawMessage:
				b = w
			default:
				return d, reject
			}
			if json.Unmarshal(b, &d) != nil {
				return d, reject
			}
			return d, accept
		}}
}

type (
	nBool  bool
	nStr   string
	nBytes []byte
	nF32   float32
	nF64   float64
)

func boolRef[T ~bool](w any) (T, verdict) {
	text := func(s string) (T, verdict) {
		switch s {
		case "1", "t", "T", "TRUE", "true", "True":
			return true, accept
		case "0", "f", "F", "FALSE", "false", "False":
			return false, accept
		}
		switch strings.ToLower(s) {
		case "true", "yes", "y", "on", "\x01":
			return true, open
		case "false", "no", "n", "off", "\x00":
			return false, open
		}
		return false, reject
	}
	switch w := w.(type) {
	case bool:
		return T(w), accept
	case int64:
		if w == 0 || w == 1 {
			return w == 1, accept
		}
		return true, open
	case string:
		return text(w)
	case []byte:
		return text(string(w))
	}
	return false, reject
}

func floatRef[T ~float32 | ~float64](bits int) func(w any) (T, verdict) {
	return func(w any) (T, verdict) {
		switch w := w.(type) {
		case float64:
			v := T(w)
			if bits == 32 && math.IsInf(float64(v), 0) && !math.IsInf(w, 0) {
				return 0, reject
			}
			return v, accept
		case int64:
			v := T(w)
			if f := float64(v); f >= -9.3e18 && f < 9.2e18 && int64(f) == w {
				return v, accept
			}
			return v, open
		case string:
			v, ok, must := floatText(w, bits)
			if !ok {
				return 0, reject
			}
			if !must {
				return T(v), open
			}
			return T(v), accept
		case []byte:
			v, ok, must := floatText(string(w), bits)
			if !ok {
				return 0, reject
			}
			if !must {
				return T(v), open
			}
			return T(v), accept
		}
		return 0, reject
	}
}

// stringRef: native text exactly; for other native types the text must denote
// the value (spelling open), checked by strEq.
func stringRef(w any) (string, verdict) {
	switch w := w.(type) {
	case string:
		return w, accept
	case []byte:
		return string(w), accept
	case int64:
		return strconv.FormatInt(w, 10), open
	case bool:
		return strconv.FormatBool(w), open
	case float64:
		return "float:" + strconv.FormatFloat(w, 'g', -1, 64), open
	case time.Time:
		return "time:" + w.Format("2006-01-02"), open
	}
	return "", reject
}

func strEq(got, want string) bool {
	if f, ok := strings.CutPrefix(want, "float:"); ok {
		a, err := strconv.ParseFloat(got, 64)
		b, _ := strconv.ParseFloat(f, 64)
		return err == nil && eqF(a, b)
	}
	if d, ok := strings.CutPrefix(want, "time:"); ok {
		return strings.Contains(got, d)
	}
	if want == "true" || want == "false" {
		b, err := strconv.ParseBool(got)
		return err == nil && strconv.FormatBool(b) == want
	}
	return got == want
}

var timeRe = regexp.MustCompile(`^(\d{4})-(\d\d)-(\d\d)(?:([ T])(\d\d):(\d\d):(\d\d)(\.\d{1,9})?(Z|[+-]\d\d:\d\d)?)?$`)

// timeTextRef reads the forms databases emit: date, date time[.fraction] (UTC),
// and either with a zone offset. Everything it understands must be read; other
// texts must be refused.
func timeTextRef(s string) (time.Time, verdict) {
	m := timeRe.FindStringSubmatch(s)
	if m == nil {
		// fractions of more than nine digits, a comma as the decimal sign,
		// hour-only zones and single-digit hours are left unjudged
		if regexp.MustCompile(`^\d{4}-\d\d-\d\d(T| +)\d`).MatchString(s) {
			return time.Time{}, any_
		}
		return time.Time{}, reject
	}
	n := func(i int) int { v, _ := strconv.Atoi(m[i]); return v }
	y, mo, d := n(1), n(2), n(3)
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
		days[1] = 29
	}
	if mo < 1 || mo > 12 || d < 1 || d > days[mo-1] {
		return time.Time{}, reject
	}
	if m[4] == "" {
		return time.Date(y, time.Month(mo), d, 0, 0, 0, 0, time.UTC), accept
	}
	h, mi, sec := n(5), n(6), n(7)
	if h > 23 || mi > 59 || sec > 59 {
		return time.Time{}, reject
	}
	ns := 0
	if m[8] != "" {
		ns, _ = strconv.Atoi((m[8][1:] + "000000000")[:9])
	}
	loc := time.UTC
	v := accept
	switch z := m[9]; {
	case z == "":
		if m[4] == "T" {
			return time.Time{}, any_ // no zone with T: not a database form
		}
	case z == "Z":
		if m[4] == " " {
			v = open
		}
	default:
		zh, _ := strconv.Atoi(z[1:3])
		zm, _ := strconv.Atoi(z[4:])
		if zh > 23 || zm > 59 {
			return time.Time{}, any_
		}
		o := zh*3600 + zm*60
		if z[0] == '-' {
			o = -o
		}
		loc = time.FixedZone("", o)
	}
	return time.Date(y, time.Month(mo), d, h, mi, sec, ns, loc), v
}

func timeRef(w any) (time.Time, verdict) {
	switch w := w.(type) {
	case time.Time:
		return w, accept
	case int64:
		return time.Unix(w, 0), open
	case string:
		return timeTextRef(w)
	case []byte:
		return timeTextRef(string(w))
	}
	return time.Time{}, reject
}

func textRef(accepts func(string) (string, bool)) func(w any) (string, verdict) {
	return func(w any) (string, verdict) {
		try := func(s string, v verdict) (string, verdict) {
			t, ok := accepts(s)
			if !ok {
				return "", reject
			}
			return t, v
		}
		switch w := w.(type) {
		case string:
			return try(w, accept)
		case []byte:
			return try(string(w), accept)
		case int64:
			return try(strconv.FormatInt(w, 10), open)
		case bool:
			return try(strconv.FormatBool(w), open)
		case float64:
			return try("float:"+strconv.FormatFloat(w, 'g', -1, 64), open)
		case time.Time:
			return try("time:"+w.Format("2006-01-02"), open)
		}
		return "", reject
	}
}

func textWires(s string) []any { return []any{s, []byte(s)} }

func e03(r *report.Run) {
	r.Rule = "every scalar scanner (value and pointer destinations, nil/zero/filled before) x every wire type x every text over the type's alphabet up to the length; every date of the range and every clock/fraction/zone boundary; writers checked by re-reading; references: the texts' own meaning (strconv, encoding/json, calendar arithmetic)"
	n := r.Pick(4, 5)
	r.Bounds["text_tokens"] = n
	now := time.Date(2024, 2, 29, 12, 34, 56, 789_000_001, time.UTC)
	odd := []any{nil, true, false, int64(0), int64(1), int64(-1), int64(2), int64(math.MaxInt64), int64(math.MinInt64), int64(1<<53 + 1), int64(1<<24 + 1),
		0.0, 1.5, -2.25, 0.1, 1e39, -1e39, 3.5e38, math.MaxFloat64, math.MaxFloat32, math.SmallestNonzeroFloat64, math.NaN(), math.Inf(1), math.Inf(-1), 1e21,
		now, now.In(time.FixedZone("Z", 5*3600)), time.Time{}, "", []byte{}, []byte(nil)}
	unsupported := []any{int32(1), uint8(1), float32(1), complex(1, 1), struct{}{}, []int{1}, map[string]int{}}
	each := func(extra []any, chk func(any)) {
		for _, w := range append(append(append([]any{}, odd...), unsupported...), extra...) {
			chk(w)
			r.State(fmt.Sprintf("%T %v", w, w))
		}
	}
	// booleans
	b1 := scalar[bool]{name: "bool", prevs: []bool{false, true}, eq: eq[bool], ref: boolRef[bool],
		val: func(p *bool) sql.Scanner { return encoding.BoolScanner[bool](p) }, ptr: func(p **bool) sql.Scanner { return encoding.BoolScanner[bool](p) }}
	b2 := scalar[nBool]{name: "named bool", prevs: []nBool{false, true}, eq: eq[nBool], ref: boolRef[nBool],
		val: func(p *nBool) sql.Scanner { return encoding.BoolScanner[nBool](p) }, ptr: func(p **nBool) sql.Scanner { return encoding.BoolScanner[nBool](p) }}
	each(nil, func(w any) { b1.check(r, w); b2.check(r, w) })
	words([]string{"t", "f", "true", "FALSE", "True", "T", "1", "0", "rue", "yes", " ", "\x00", "\x01"}, n, func(s string) {
		for _, w := range textWires(s) {
			b1.check(r, w)
			b2.check(r, w)
		}
		r.State("bool" + s)
	})
	// floats
	f64 := scalar[float64]{name: "float64", prevs: []float64{0, 7}, eq: eqF, ref: floatRef[float64](64),
		val: func(p *float64) sql.Scanner { return encoding.Float64Scanner[float64](p) }, ptr: func(p **float64) sql.Scanner { return encoding.Float64Scanner[float64](p) }}
	f32 := scalar[float32]{name: "float32", prevs: []float32{0, 7}, eq: func(a, b float32) bool { return eqF(float64(a), float64(b)) }, ref: floatRef[float32](32),
		val: func(p *float32) sql.Scanner { return encoding.Float32Scanner[float32](p) }, ptr: func(p **float32) sql.Scanner { return encoding.Float32Scanner[float32](p) }}
	g64 := scalar[nF64]{name: "named float64", prevs: []nF64{7}, eq: func(a, b nF64) bool { return eqF(float64(a), float64(b)) }, ref: floatRef[nF64](64),
		val: func(p *nF64) sql.Scanner { return encoding.Float64Scanner[nF64](p) }, ptr: func(p **nF64) sql.Scanner { return encoding.Float64Scanner[nF64](p) }}
	g32 := scalar[nF32]{name: "named float32", prevs: []nF32{7}, eq: func(a, b nF32) bool { return eqF(float64(a), float64(b)) }, ref: floatRef[nF32](32),
		val: func(p *nF32) sql.Scanner { return encoding.Float32Scanner[nF32](p) }, ptr: func(p **nF32) sql.Scanner { return encoding.Float32Scanner[nF32](p) }}
	fl := func(w any) { f64.check(r, w); f32.check(r, w); g64.check(r, w); g32.check(r, w) }
	var fx []any
	for e := -330; e <= 320; e++ {
		for _, m := range []string{"1", "9.5", "1.7976931348623157", "3.40282356"} {
			s := fmt.Sprintf("%se%d", m, e)
			fx = append(fx, s, []byte(s))
			if v, err := strconv.ParseFloat(s, 64); err == nil {
				fx = append(fx, v, -v)
			}
		}
	}
	each(fx, fl)
	words([]string{"1", "0", "9", ".", "e", "E", "-", "+", "x", "_", " ", "NaN", "Infinity", "inf", "400"}, n, func(s string) {
		for _, w := range textWires(s) {
			fl(w)
		}
		r.State("float" + s)
	})
	// strings and byte strings
	s1 := scalar[string]{name: "string", prevs: []string{"", "old"}, eq: strEq, ref: stringRef,
		val: func(p *string) sql.Scanner { return encoding.StringScanner[string](p) }, ptr: func(p **string) sql.Scanner { return encoding.StringScanner[string](p) }}
	s2 := scalar[nStr]{name: "named string", prevs: []nStr{"old"}, eq: func(a, b nStr) bool { return strEq(string(a), string(b)) }, ref: func(w any) (nStr, verdict) { v, k := stringRef(w); return nStr(v), k },
		val: func(p *nStr) sql.Scanner { return encoding.StringScanner[nStr](p) }, ptr: func(p **nStr) sql.Scanner { return encoding.StringScanner[nStr](p) }}
	s3 := scalar[[]byte]{name: "[]byte", prevs: [][]byte{nil, []byte("old")}, eq: func(a, b []byte) bool { return strEq(string(a), string(b)) }, ref: func(w any) ([]byte, verdict) { v, k := stringRef(w); return []byte(v), k },
		val: func(p *[]byte) sql.Scanner { return encoding.StringScanner[[]byte](p) }, ptr: func(p **[]byte) sql.Scanner { return encoding.StringScanner[[]byte](p) }}
	s4 := scalar[nBytes]{name: "named []byte", prevs: []nBytes{nBytes("old")}, eq: func(a, b nBytes) bool { return strEq(string(a), string(b)) }, ref: func(w any) (nBytes, verdict) { v, k := stringRef(w); return nBytes(v), k },
		val: func(p *nBytes) sql.Scanner { return encoding.StringScanner[nBytes](p) }, ptr: func(p **nBytes) sql.Scanner { return encoding.StringScanner[nBytes](p) }}
	strict := func(w any) {
		// the strict form takes text only
		var s string
		err := encoding.StringScanner[string](&s, true).Scan(w)
		switch w.(type) {
		case nil, string, []byte:
			if err != nil {
				r.Violate("string/strict/rejected", fmt.Sprintf("strict string rejected %#v", w), fmt.Sprint(w))
			}
		default:
			if err == nil {
				r.Violate("string/strict/accepted", fmt.Sprintf("strict string accepted %T %v", w, w), fmt.Sprint(w))
			}
		}
		r.Trace(1)
	}
	st := func(w any) { s1.check(r, w); s2.check(r, w); s3.check(r, w); s4.check(r, w); strict(w) }
	each(nil, st)
	words([]string{"a", "\x00", "é", "😀", "\xff", "'", "\n", " "}, n, func(s string) {
		for _, w := range textWires(s) {
			st(w)
		}
		r.State("str" + s)
	})
	// times
	teq := func(a, b time.Time) bool {
		_, oa := a.Zone()
		_, ob := b.Zone()
		return a.Equal(b) && (oa == ob || a.Unix() == b.Unix())
	}
	t1 := scalar[time.Time]{name: "time", prevs: []time.Time{{}, now}, eq: teq, ref: timeRef,
		val: func(p *time.Time) sql.Scanner { return encoding.TimeScanner(p) }, ptr: func(p **time.Time) sql.Scanner { return encoding.TimeScanner(p) }}
	each(nil, func(w any) { t1.check(r, w) })
	years := []int{}
	lo, hi := 1995, 2032
	if r.Thorough() {
		lo, hi = 1600, 2200
	}
	for y := lo; y <= hi; y++ {
		years = append(years, y)
	}
	years = append(years, 0, 1, 4, 100, 400, 999, 1000, 1582, 1600, 1700, 1800, 1900, 2100, 9999)
	r.Bounds["years"] = fmt.Sprintf("%d..%d and century boundaries, every month 00..13 and day 00..32", lo, hi)
	report.Parallel(len(years), func(i int) {
		for m := 0; m <= 13; m++ {
			for d := 0; d <= 32; d++ {
				s := fmt.Sprintf("%04d-%02d-%02d", years[i], m, d)
				for _, suf := range []string{"", " 23:59:59", " 00:00:00.000001", "T12:00:00Z"} {
					for _, w := range textWires(s + suf) {
						t1.check(r, w)
					}
				}
				r.State(s)
			}
		}
	})
	var clocks []string
	for _, h := range []int{0, 1, 9, 12, 23, 24, 99} {
		for _, m := range []int{0, 1, 59, 60} {
			for _, sec := range []int{0, 1, 59, 60, 61} {
				for _, f := range []string{"", ".0", ".5", ".12", ".123", ".1234", ".12345", ".123456", ".1234567", ".12345678", ".123456789", ".000000001", ".999999", ".999999999", ".", ".x"} {
					for _, z := range []string{"", "Z", "+00:00", "+05:30", "-12:00", "+14:00", "-03:30", " ", "\n", "+00", "x"} {
						clocks = append(clocks, fmt.Sprintf("%02d:%02d:%02d%s%s", h, m, sec, f, z))
					}
				}
			}
		}
	}
	report.Parallel(len(clocks), func(i int) {
		for _, d := range []string{"2024-02-29 ", "2024-02-29T", "1969-12-31 ", "2024-02-29  ", "2024-02-29\t", "24-02-29 "} {
			for _, w := range textWires(d + clocks[i]) {
				t1.check(r, w)
			}
			r.State(d + clocks[i])
		}
	})
	words([]string{"2024", "-02", "-29", " ", "T", "12:34:56", ".5", "Z", "+01:00", "0", "a"}, n, func(s string) {
		for _, w := range textWires(s) {
			t1.check(r, w)
		}
		r.State("time" + s)
	})
	// text-marshalled values
	x1 := scalar[textVal]{name: "text", prevs: []textVal{{}, {"old"}}, eq: eq[textVal], ref: func(w any) (textVal, verdict) {
		v, k := textRef(func(s string) (string, bool) {
			if len(s) < 2 || s[0] != '<' || s[len(s)-1] != '>' {
				return "", false
			}
			return s[1 : len(s)-1], true
		})(w)
		return textVal{v}, k
	}, val: func(p *textVal) sql.Scanner { return encoding.TextScanner[textVal, *textVal](p) }, ptr: func(p **textVal) sql.Scanner { return encoding.TextScanner[textVal, *textVal](p) }}
	x2 := scalar[anyText]{name: "anytext", prevs: []anyText{{}, {"old"}}, eq: func(a, b anyText) bool { return strEq(a.S, b.S) }, ref: func(w any) (anyText, verdict) {
		v, k := textRef(func(s string) (string, bool) { return s, true })(w)
		return anyText{v}, k
	}, val: func(p *anyText) sql.Scanner { return encoding.TextScanner[anyText, *anyText](p) }, ptr: func(p **anyText) sql.Scanner { return encoding.TextScanner[anyText, *anyText](p) }}
	each(nil, func(w any) { x1.check(r, w); x2.check(r, w) })
	words([]string{"<", ">", "a", "é", "\x00"}, n+1, func(s string) {
		for _, w := range textWires(s) {
			x1.check(r, w)
			x2.check(r, w)
		}
		v, err := encoding.TextValue(textVal{s}).Value()
		if t, ok := textOf(v); err != nil || !ok || t != "<"+s+">" {
			r.Violate("text/write", fmt.Sprintf("TextValue(%q) = %v, %v", s, v, err), s)
		}
		r.Trace(1)
		r.State("text" + s)
	})
	// user scanners behind pointers
	for _, start := range []*scanVal{nil, {V: "old"}} {
		for _, w := range []any{nil, "x", []byte("y"), int64(3), 1.5, true, now, "bad"} {
			r.Do(fmt.Sprintf("ptrscanner/%T", w), func() string { return fmt.Sprintf("%v into %v", w, start) }, func() {
				p := start
				if p != nil {
					c := *p
					p = &c
				}
				err := encoding.PtrScanner(&p).Scan(w)
				r.Trace(1)
				want := w
				if b, ok := w.([]byte); ok {
					want = string(b)
				}
				switch {
				case w == nil:
					if err != nil || p != nil {
						r.Violate("ptrscanner/null", fmt.Sprintf("NULL read as %v, %v", p, err), nil)
					}
				case w == "bad":
					if err == nil {
						r.Violate("ptrscanner/error", "error of the user's scanner lost", nil)
					}
				case err != nil || p == nil || p.V != want:
					r.Violate(fmt.Sprintf("ptrscanner/%T", w), fmt.Sprintf("%v read as %+v, err %v", w, p, err), fmt.Sprint(w))
				}
			})
		}
	}
	// binary-marshalled values
	bref := func(w any) (binVal, verdict) {
		try := func(s string) (binVal, verdict) {
			if len(s) < 1 || s[0] != 0 {
				return binVal{}, reject
			}
			return binVal{s[1:]}, accept
		}
		switch w := w.(type) {
		case []byte:
			return try(string(w))
		case string:
			return try(w)
		}
		return binVal{}, reject
	}
	y1 := scalar[binVal]{name: "binary", prevs: []binVal{{}, {"old"}}, eq: eq[binVal], ref: bref, val: func(p *binVal) sql.Scanner { return types.BinaryUnmarshaler(p) }}
	each(nil, func(w any) { y1.check(r, w) })
	words([]string{"\x00", "\x01", "a", "é"}, n+1, func(s string) {
		for _, w := range textWires(s) {
			y1.check(r, w)
		}
		v, err := types.BinaryMarshaler(binVal{s}).Value()
		if t, ok := textOf(v); err != nil || !ok || t != "\x00"+s {
			r.Violate("binary/write", fmt.Sprintf("BinaryMarshaler(%q) = %v, %v", s, v, err), s)
		}
		r.Trace(1)
		r.State("bin" + s)
	})
	// JSON documents
	j1 := jsonScalar("struct", jsonPoint{X: 9, L: []int{1, 2, 3}, M: map[string]int{"old": 1}})
	j2 := jsonScalar("map", map[string]int{"old": 1})
	j3 := jsonScalar("slice", []int{9, 9, 9})
	j4 := jsonScalar("pointer", &jsonPoint{X: 9, M: map[string]int{"old": 1}})
	j5 := jsonScalar[any]("any", "old")
	j6 := jsonScalar("string", "old")
	j7 := jsonScalar("int", 9)
	j8 := jsonScalar("marshaler", valJSON{9})
	j9 := jsonScalar("array", [2]int{9, 9})
	js := func(w any) {
		j1.check(r, w)
		j2.check(r, w)
		j3.check(r, w)
		j4.check(r, w)
		j5.check(r, w)
		j6.check(r, w)
		j7.check(r, w)
		j9.check(r, w)
		if _, ok := w.(json.RawMessage); !ok && w != nil {
			if s, ok := textOf(w); !ok || json.Valid([]byte(s)) {
				j8.check(r, w)
			}
		} else if w == nil {
			j8.check(r, w)
		}
	}
	each([]any{json.RawMessage(`{"x":1}`), json.RawMessage(`[1]`), json.RawMessage(`{`)}, js)
	words([]string{"{", "}", "[", "]", "\"x\"", "\"m\"", ":", ",", "1", "null", " ", "\"p\""}, n+1, func(s string) {
		for _, w := range textWires(s) {
			js(w)
		}
		r.State("json" + s)
	})
	jsonWrite(r, "struct", jsonPoint{X: 1, L: []int{1}, M: map[string]int{"<&>": 1}})
	jsonWrite(r, "zero struct", jsonPoint{})
	jsonWrite(r, "pointer", &jsonPoint{X: 1})
	jsonWrite(r, "nil pointer", (*jsonPoint)(nil))
	jsonWrite(r, "map", map[string]int{"a": 1})
	jsonWrite(r, "nil map", map[string]int(nil))
	jsonWrite(r, "slice", []string{"a", "\"\n\u2028"})
	jsonWrite(r, "nil slice", []string(nil))
	jsonWrite(r, "string", "x\"y\n")
	jsonWrite(r, "int", 42)
	jsonWrite(r, "marshaler", valJSON{3})
	jsonWrite(r, "pointer to marshaler", &valJSON{3})
	jsonWrite(r, "nil pointer to marshaler", (*valJSON)(nil))
	jsonWrite(r, "slice of marshalers", []valJSON{{1}, {2}})
	jsonWrite(r, "array", [2]int{1, 2})
	jsonWrite(r, "bytes", []byte{0, 1, 255})
	jsonWrite(r, "raw", json.RawMessage(`{"a":[1,2]}`))
	r.Do("json/write/any", func() string { return "JSONValue[any](nil)" }, func() {
		v, err := encoding.JSONValue[any](nil).Value()
		if s, ok := textOf(v); err != nil || (v != nil && (!ok || strings.TrimSpace(s) != "null")) {
			r.Violate("json/write/any", fmt.Sprintf("JSONValue[any](nil) = %v, %v", v, err), nil)
		}
	})
	r.Do("json/write/unsupported", func() string { return "JSONValue(func)" }, func() {
		if v, err := encoding.JSONValue(func() {}).Value(); err == nil {
			r.Violate("json/write/unsupported", fmt.Sprintf("a func was written as %v", v), nil)
		}
	})
	r.Sample("bool <- []byte(\"True\")")
	r.Sample("time <- \"2024-02-29 23:59:60.5+05:30\"")
	r.Sample("json struct holding {9,[1 2 3],map} <- \"{\\\"x\\\":1}\"")
}

// jsonWrite: what JSONValue writes is JSON and reads back as the same value.
func jsonWrite[T any](r *report.Run, name string, v T) {
	r.Do("json/write/"+name, func() string { return fmt.Sprintf("JSONValue(%#v)", v) }, func() {
		var dv driver.Value
		dv, err := encoding.JSONValue(v).Value()
		s, ok := textOf(dv)
		var back T
		switch {
		case err != nil || (!ok && dv != nil):
			r.Violate("json/write/"+name, fmt.Sprintf("JSONValue(%#v) = %v, %v", v, dv, err), nil)
			return
		case dv == nil:
			if b, _ := json.Marshal(v); string(b) != "null" {
				r.Violate("json/write/"+name, fmt.Sprintf("JSONValue(%#v) wrote NULL", v), nil)
			}
			return
		case json.Unmarshal([]byte(s), &back) != nil || !reflect.DeepEqual(back, v):
			r.Violate("json/write/"+name, fmt.Sprintf("JSONValue(%#v) wrote %q, which decodes to %#v", v, s, back), s)
			return
		}
		var again T
		if err := encoding.JSONScanner(&again).Scan([]byte(s)); err != nil || !reflect.DeepEqual(again, v) {
			r.Violate("json/write/"+name, fmt.Sprintf("JSONValue(%#v) wrote %q, read back as %#v, %v", v, s, again, err), s)
		}
		r.Trace(2)
		r.Transition(2)
	})
}
