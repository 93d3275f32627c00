package main

import (
	"database/sql"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"sync"

	"vh/report"

	"github.com/si3nloong/sqlgen/sequel/encoding"
)

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

type (
	nInt    int
	nInt8   int8
	nInt16  int16
	nInt32  int32
	nInt64  int64
	nUint   uint
	nUint8  uint8
	nUint16 uint16
	nUint32 uint32
	nUint64 uint64
)

var decimal = regexp.MustCompile(`^[+-]?[0-9]+$`)

// intRef is the reference: what the wire value denotes. ok=false: not a
// decimal integer; must=false: a spelling the property leaves open (a leading
// "+", or -0 for an unsigned field).
func intRef(wire any) (v *big.Int, ok, must bool) {
	switch w := wire.(type) {
	case int64:
		return big.NewInt(w), true, true
	case []byte:
		if !decimal.Match(w) {
			return nil, false, true
		}
		b, _ := new(big.Int).SetString(string(w), 10)
		return b, true, w[0] != '+' && !(w[0] == '-' && b.Sign() == 0)
	case string:
		v, ok, _ := intRef([]byte(w))
		return v, ok, false // text as string: exact, or refused
	case float64:
		if w != math.Trunc(w) || math.IsInf(w, 0) {
			return nil, false, true
		}
		b, _ := big.NewFloat(w).Int(nil)
		return b, true, false
	case bool:
		if w {
			return big.NewInt(1), true, false
		}
		return big.NewInt(0), true, false
	}
	return nil, false, true
}

func toBig[T integer](v T) *big.Int {
	if v < 0 {
		return big.NewInt(int64(v))
	}
	return new(big.Int).SetUint64(uint64(v))
}

type intScan struct {
	name string
	// run scans wire into value and pointer destinations holding prev.
	run func(r *report.Run, wire any)
}

func mkInt[T integer](name string, min, max *big.Int, val func(*T) sql.Scanner, ptr func(**T) sql.Scanner, prevs []T) intScan {
	return intScan{name, func(r *report.Run, wire any) {
		ref, ok, must := intRef(wire)
		if wire == nil {
			ref, ok, must = big.NewInt(0), true, true
		}
		fits := ok && ref.Cmp(min) >= 0 && ref.Cmp(max) <= 0
		for _, prev := range prevs {
			dst := prev
			var err error
			key := fmt.Sprintf("%s/%T", name, wire)
			r.Do(key, func() string { return fmt.Sprintf("%s scan %#v", name, wire) }, func() {
				err = val(&dst).Scan(wire)
				judgeInt(r, key, name+" value", wire, err, toBig(prev), toBig(dst), ref, fits, must)
			})
			for _, start := range []*T{nil, &prev} {
				var saved T
				if start != nil {
					saved = *start
				}
				p := start
				r.Do(key+"/ptr", func() string { return fmt.Sprintf("*%s scan %#v", name, wire) }, func() {
					err = ptr(&p).Scan(wire)
					if wire == nil {
						if err != nil || p != nil {
							r.Violate(key+"/ptr-null", fmt.Sprintf("*%s: NULL gave %v, err %v", name, p, err), wire)
						}
						return
					}
					if err != nil {
						if p != start || (start != nil && *start != saved) {
							r.Violate(key+"/ptr-kept", fmt.Sprintf("*%s: failing scan of %#v changed the field", name, wire), fmt.Sprintf("%#v", wire))
						}
						if fits && must {
							r.Violate(key+"/ptr-rejected", fmt.Sprintf("*%s: in-range %#v rejected: %v", name, wire, err), fmt.Sprintf("%#v", wire))
						}
						return
					}
					if p == nil {
						r.Violate(key+"/ptr-nil", fmt.Sprintf("*%s: %#v read as nil", name, wire), fmt.Sprintf("%#v", wire))
						return
					}
					if start != nil && *start != saved {
						r.Violate(key+"/ptr-shared", fmt.Sprintf("*%s: scan wrote through the old pointer", name), fmt.Sprintf("%#v", wire))
					}
					judgeInt(r, key+"/ptr", "*"+name, wire, nil, nil, toBig(*p), ref, fits, must)
				})
				r.Trace(1)
			}
			r.Trace(1)
			r.Transition(3)
		}
	}}
}

func judgeInt(r *report.Run, key, name string, wire any, err error, prev, got, ref *big.Int, fits, must bool) {
	w := fmt.Sprintf("%T(%v)", wire, wire)
	if b, ok := wire.([]byte); ok {
		w = fmt.Sprintf("[]byte(%q)", b)
	}
	if err != nil {
		if got.Cmp(prev) != 0 {
			r.Violate(key+"/kept", fmt.Sprintf("%s: scan of %s failed (%v) but changed the field from %v to %v", name, w, err, prev, got), w)
		}
		if fits && must {
			r.Violate(key+"/rejected", fmt.Sprintf("%s: in-range %s rejected: %v", name, w, err), w)
		}
		return
	}
	if !fits {
		r.Violate(key+"/accepted", fmt.Sprintf("%s: %s accepted as %v", name, w, got), w)
		return
	}
	if got.Cmp(ref) != 0 {
		r.Violate(key+"/wrong", fmt.Sprintf("%s: %s read as %v", name, w, got), w)
	}
}

func lim(bits int, signed bool) (*big.Int, *big.Int) {
	one := big.NewInt(1)
	if signed {
		m := new(big.Int).Lsh(one, uint(bits-1))
		return new(big.Int).Neg(m), new(big.Int).Sub(m, one)
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
}

func intScans() []intScan {
	var out []intScan
	add := func(s intScan) { out = append(out, s) }
	{
		lo, hi := lim(64, true)
		add(mkInt("int", lo, hi, func(p *int) sql.Scanner { return encoding.IntScanner[int](p) }, func(p **int) sql.Scanner { return encoding.IntScanner[int](p) }, []int{0, -77}))
		add(mkInt("named int", lo, hi, func(p *nInt) sql.Scanner { return encoding.IntScanner[nInt](p) }, func(p **nInt) sql.Scanner { return encoding.IntScanner[nInt](p) }, []nInt{42}))
		add(mkInt("int64", lo, hi, func(p *int64) sql.Scanner { return encoding.Int64Scanner[int64](p) }, func(p **int64) sql.Scanner { return encoding.Int64Scanner[int64](p) }, []int64{0, math.MinInt64}))
		add(mkInt("named int64", lo, hi, func(p *nInt64) sql.Scanner { return encoding.Int64Scanner[nInt64](p) }, func(p **nInt64) sql.Scanner { return encoding.Int64Scanner[nInt64](p) }, []nInt64{42}))
	}
	{
		lo, hi := lim(8, true)
		add(mkInt("int8", lo, hi, func(p *int8) sql.Scanner { return encoding.Int8Scanner[int8](p) }, func(p **int8) sql.Scanner { return encoding.Int8Scanner[int8](p) }, []int8{0, -77}))
		add(mkInt("named int8", lo, hi, func(p *nInt8) sql.Scanner { return encoding.Int8Scanner[nInt8](p) }, func(p **nInt8) sql.Scanner { return encoding.Int8Scanner[nInt8](p) }, []nInt8{42}))
	}
	{
		lo, hi := lim(16, true)
		add(mkInt("int16", lo, hi, func(p *int16) sql.Scanner { return encoding.Int16Scanner[int16](p) }, func(p **int16) sql.Scanner { return encoding.Int16Scanner[int16](p) }, []int16{0, -777}))
		add(mkInt("named int16", lo, hi, func(p *nInt16) sql.Scanner { return encoding.Int16Scanner[nInt16](p) }, func(p **nInt16) sql.Scanner { return encoding.Int16Scanner[nInt16](p) }, []nInt16{42}))
	}
	{
		lo, hi := lim(32, true)
		add(mkInt("int32", lo, hi, func(p *int32) sql.Scanner { return encoding.Int32Scanner[int32](p) }, func(p **int32) sql.Scanner { return encoding.Int32Scanner[int32](p) }, []int32{0, -777777}))
		add(mkInt("named int32", lo, hi, func(p *nInt32) sql.Scanner { return encoding.Int32Scanner[nInt32](p) }, func(p **nInt32) sql.Scanner { return encoding.Int32Scanner[nInt32](p) }, []nInt32{42}))
	}
	{
		lo, hi := lim(64, false)
		add(mkInt("uint", lo, hi, func(p *uint) sql.Scanner { return encoding.UintScanner[uint](p) }, func(p **uint) sql.Scanner { return encoding.UintScanner[uint](p) }, []uint{0, 77}))
		add(mkInt("named uint", lo, hi, func(p *nUint) sql.Scanner { return encoding.UintScanner[nUint](p) }, func(p **nUint) sql.Scanner { return encoding.UintScanner[nUint](p) }, []nUint{42}))
		add(mkInt("uint64", lo, hi, func(p *uint64) sql.Scanner { return encoding.Uint64Scanner[uint64](p) }, func(p **uint64) sql.Scanner { return encoding.Uint64Scanner[uint64](p) }, []uint64{0, math.MaxUint64}))
		add(mkInt("named uint64", lo, hi, func(p *nUint64) sql.Scanner { return encoding.Uint64Scanner[nUint64](p) }, func(p **nUint64) sql.Scanner { return encoding.Uint64Scanner[nUint64](p) }, []nUint64{42}))
	}
	{
		lo, hi := lim(8, false)
		add(mkInt("uint8", lo, hi, func(p *uint8) sql.Scanner { return encoding.Uint8Scanner[uint8](p) }, func(p **uint8) sql.Scanner { return encoding.Uint8Scanner[uint8](p) }, []uint8{0, 77}))
		add(mkInt("named uint8", lo, hi, func(p *nUint8) sql.Scanner { return encoding.Uint8Scanner[nUint8](p) }, func(p **nUint8) sql.Scanner { return encoding.Uint8Scanner[nUint8](p) }, []nUint8{42}))
	}
	{
		lo, hi := lim(16, false)
		add(mkInt("uint16", lo, hi, func(p *uint16) sql.Scanner { return encoding.Uint16Scanner[uint16](p) }, func(p **uint16) sql.Scanner { return encoding.Uint16Scanner[uint16](p) }, []uint16{0, 777}))
		add(mkInt("named uint16", lo, hi, func(p *nUint16) sql.Scanner { return encoding.Uint16Scanner[nUint16](p) }, func(p **nUint16) sql.Scanner { return encoding.Uint16Scanner[nUint16](p) }, []nUint16{42}))
	}
	{
		lo, hi := lim(32, false)
		add(mkInt("uint32", lo, hi, func(p *uint32) sql.Scanner { return encoding.Uint32Scanner[uint32](p) }, func(p **uint32) sql.Scanner { return encoding.Uint32Scanner[uint32](p) }, []uint32{0, 777777}))
		add(mkInt("named uint32", lo, hi, func(p *nUint32) sql.Scanner { return encoding.Uint32Scanner[nUint32](p) }, func(p **nUint32) sql.Scanner { return encoding.Uint32Scanner[nUint32](p) }, []nUint32{42}))
	}
	return out
}

func e01(r *report.Run) {
	span := r.Pick(70000, 200000)
	textLen := r.Pick(4, 5)
	r.Rule = "every integer scanner (10 widths, named types, value and pointer destinations, each with zero and non-zero previous content) x every int64 wire value in the range, every +-2^k+d boundary as int64 and as decimal text, and every text over the alphabet up to the length; reference: arbitrary-precision integers"
	r.Bounds["int64_range"] = span
	r.Bounds["boundary_offsets"] = "-3..3 around every +-2^k, k<=70"
	r.Bounds["text_len"] = textLen
	scans := intScans()
	// native integers
	one := big.NewInt(1)
	var wires []any
	for i := -span; i <= span; i++ {
		wires = append(wires, int64(i))
	}
	seen := map[string]bool{}
	for k := 0; k <= 70; k++ {
		for d := int64(-3); d <= 3; d++ {
			for _, s := range []int64{1, -1} {
				b := new(big.Int).Lsh(one, uint(k))
				b.Mul(b, big.NewInt(s))
				b.Add(b, big.NewInt(d))
				t := b.String()
				if seen[t] {
					continue
				}
				seen[t] = true
				if b.IsInt64() {
					wires = append(wires, b.Int64())
				}
				wires = append(wires, []byte(t), t, []byte("00"+t), []byte(t+"0"), []byte(t+".0"), []byte(" "+t), []byte("0x"+t))
				if b.Sign() >= 0 {
					wires = append(wires, []byte("+"+t), []byte("000000000000000000000"+t))
				} else {
					wires = append(wires, []byte("-00000000000000000000"+t[1:]))
				}
				f, _ := new(big.Float).SetInt(b).Float64()
				wires = append(wires, f, f+0.5)
			}
		}
	}
	wires = append(wires, nil, true, false, math.NaN(), math.Inf(1), []byte(nil), []byte("9223372036854775808"), []byte("-9223372036854775809"), []byte("18446744073709551615"), []byte("18446744073709551616"))
	report.Parallel(len(wires), func(i int) {
		for _, s := range scans {
			s.run(r, wires[i])
		}
		if i < 3 || i > len(wires)-3 {
			r.Sample(fmt.Sprintf("%T %v into 20 integer destinations", wires[i], wires[i]))
		}
	})
	var mu sync.Mutex
	st := map[uint64]struct{}{}
	for _, w := range wires {
		st[report.Hash(fmt.Sprintf("%T %v", w, w))] = struct{}{}
	}
	words([]string{"0", "1", "2", "9", "5", "-", "+", " ", ".", "_", "x", "e", "\x00"}, textLen, func(s string) {
		mu.Lock()
		st[report.Hash(s)] = struct{}{}
		mu.Unlock()
		for _, sc := range scans {
			sc.run(r, []byte(s))
		}
	})
	r.States(st)
	r.Eval(len(st) * len(scans))
}
