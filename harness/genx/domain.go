package genx

import (
	"encoding/json"
	"math"
	"reflect"
	"time"
	"unsafe"

	"database/sql"

	"vh/gensup/sup"
)

var t0 = time.Date(2024, 2, 29, 23, 59, 58, 123456000, time.UTC)

func vals[T any](v ...T) []reflect.Value {
	out := make([]reflect.Value, len(v))
	for i, x := range v {
		out[i] = reflect.ValueOf(x)
	}
	return out
}

// Domain lists the values tried for a field of type t, the zero value first.
// depth bounds nesting.
func Domain(t reflect.Type, depth int) (out []reflect.Value) {
	out = append(out, reflect.Zero(t))
	add := func(v ...reflect.Value) {
		for _, x := range v {
			if x.Type() != t {
				x = x.Convert(t)
			}
			out = append(out, x)
		}
	}
	switch t {
	case reflect.TypeOf(time.Time{}), reflect.TypeOf(sup.Stamp{}):
		add(vals(t0, time.Unix(0, 0).UTC(), time.Date(1, 1, 2, 3, 4, 5, 0, time.UTC))...)
		return
	case reflect.TypeOf(sup.Date{}):
		add(vals(sup.Date{2024, 2, 29}, sup.Date{1, 1, 1})...)
		return
	case reflect.TypeOf(sup.UUID{}):
		add(vals(sup.UUID{1, 2, 3, 255})...)
		return
	case reflect.TypeOf(sup.Dec{}):
		add(vals(sup.Dec{-12345, 2}, sup.Dec{math.MaxInt64, 0})...)
		return
	case reflect.TypeOf(sup.Opt[int]{}):
		add(vals(sup.Opt[int]{5, true}, sup.Opt[int]{0, true})...)
		return
	case reflect.TypeOf(sup.Opt[string]{}):
		add(vals(sup.Opt[string]{"x", true})...)
		return
	case reflect.TypeOf(sql.NullString{}):
		add(vals(sql.NullString{String: "a", Valid: true}, sql.NullString{Valid: true})...)
		return
	case reflect.TypeOf(sql.NullInt64{}):
		add(vals(sql.NullInt64{Int64: -7, Valid: true})...)
		return
	case reflect.TypeOf(sql.NullTime{}):
		add(vals(sql.NullTime{Time: t0, Valid: true})...)
		return
	case reflect.TypeOf(json.RawMessage{}):
		add(vals(json.RawMessage(`{"a":[1,"x"]}`), json.RawMessage(`null`), json.RawMessage(`"x"`))...)
		return
	case reflect.TypeOf(json.Number("")):
		add(vals(json.Number("12.5"))...)
		return
	}
	bits := func() int { return t.Bits() }
	switch t.Kind() {
	case reflect.Bool:
		add(reflect.ValueOf(true))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		for _, i := range []int64{1, -1, 65, -1 << (bits() - 1), 1<<(bits()-1) - 1} {
			add(reflect.ValueOf(i))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		for _, i := range []uint64{1, 65, 1<<(bits()-1) - 1} {
			add(reflect.ValueOf(i))
		}
		if bits() < 64 {
			add(reflect.ValueOf(uint64(1)<<bits() - 1))
		}
	case reflect.Float32:
		add(vals[float32](0.1, -2.25, math.MaxFloat32, math.SmallestNonzeroFloat32)...)
	case reflect.Float64:
		add(vals[float64](0.1, -2.25, 1e21, math.MaxFloat64, math.SmallestNonzeroFloat64)...)
	case reflect.String:
		add(vals("a", "12", `q'"\`+"`", "é✓𝄞", "{a,b}", "null", " ", "a\nb")...)
	case reflect.Pointer:
		for _, v := range Domain(t.Elem(), depth) {
			p := reflect.New(t.Elem())
			p.Elem().Set(v)
			add(p)
		}
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			add(vals([]byte{}, []byte("ab"), []byte{0, 255, '\\', '\'', 39})...)
			return
		}
		s := reflect.MakeSlice(t, 0, 0)
		add(s)
		el := Domain(t.Elem(), depth-1)
		for _, v := range el {
			if !jsonable(v) {
				continue
			}
			add(reflect.Append(reflect.MakeSlice(t, 0, 1), v))
		}
		if len(el) > 2 && jsonable(el[1]) && jsonable(el[2]) {
			add(reflect.Append(reflect.MakeSlice(t, 0, 3), el[1], el[2], el[0]))
		}
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			for _, fill := range []byte{'a', 255} {
				a := reflect.New(t).Elem()
				for i := 0; i < t.Len(); i++ {
					a.Index(i).SetUint(uint64(fill))
				}
				add(a)
			}
			return
		}
		el := Domain(t.Elem(), depth-1)
		for _, v := range el[1:] {
			if !jsonable(v) {
				continue
			}
			a := reflect.New(t).Elem()
			for i := 0; i < t.Len(); i++ {
				a.Index(i).Set(v)
			}
			add(a)
		}
	case reflect.Map:
		m := reflect.MakeMap(t)
		add(m)
		m = reflect.MakeMap(t)
		k := Domain(t.Key(), depth-1)
		for i, v := range Domain(t.Elem(), depth-1) {
			if i < len(k) && jsonable(v) && jsonable(k[i]) {
				m.SetMapIndex(k[i], v)
			}
		}
		add(m)
	case reflect.Struct:
		if depth <= 0 {
			return
		}
		for n := 0; n < 2; n++ {
			s := reflect.New(t).Elem()
			for i := 0; i < t.NumField(); i++ {
				if !t.Field(i).IsExported() {
					continue
				}
				d := Domain(t.Field(i).Type, depth-1)
				if 1+n < len(d) && jsonable(d[1+n]) {
					s.Field(i).Set(d[1+n])
				}
			}
			out = append(out, s)
		}
	case reflect.Interface:
		if t.NumMethod() == 0 {
			for _, x := range []any{"a", float64(1.5), true, []any{"x", float64(2)}, map[string]any{"k": "v"}} {
				v := reflect.New(t).Elem()
				v.Set(reflect.ValueOf(x))
				out = append(out, v)
			}
		}
	}
	return
}

func validRune(v reflect.Value) bool {
	x := v.Int()
	return x >= 0 && x < 0xD800
}

// jsonable: a value which JSON can carry inside a bigger one without loss.
func jsonable(v reflect.Value) bool {
	b, err := json.Marshal(v.Interface())
	if err != nil {
		return false
	}
	p := reflect.New(v.Type())
	if json.Unmarshal(b, p.Interface()) != nil {
		return false
	}
	return Equal(p.Elem(), v)
}

// Equal compares two field values; nil and empty lists or maps are the same
// thing in a column.
func Equal(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	a, b = peek(a), peek(b)
	if a.Type().ConvertibleTo(reflect.TypeOf(time.Time{})) && a.Kind() == reflect.Struct {
		return a.Convert(reflect.TypeOf(time.Time{})).Interface().(time.Time).Equal(b.Convert(reflect.TypeOf(time.Time{})).Interface().(time.Time))
	}
	switch a.Kind() {
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return Equal(a.Elem(), b.Elem())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !Equal(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() || !Equal(a.MapIndex(k), v) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !Equal(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return reflect.DeepEqual(a.Interface(), b.Interface())
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// peek makes an unexported (addressable) field readable.
func peek(v reflect.Value) reflect.Value {
	if v.CanInterface() {
		return v
	}
	if !v.CanAddr() {
		c := reflect.New(v.Type()).Elem()
		// not addressable: rebuild it by kind
		switch v.Kind() {
		case reflect.Bool:
			c.SetBool(v.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			c.SetInt(v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			c.SetUint(v.Uint())
		case reflect.String:
			c.SetString(v.String())
		case reflect.Float32, reflect.Float64:
			c.SetFloat(v.Float())
		case reflect.Pointer:
			if !v.IsNil() {
				c.Set(reflect.NewAt(v.Type().Elem(), v.UnsafePointer()))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				poke(c.Field(i), peek(v.Field(i)))
			}
		}
		return c
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func poke(dst, src reflect.Value) {
	reflect.NewAt(dst.Type(), unsafe.Pointer(dst.UnsafeAddr())).Elem().Set(src)
}
