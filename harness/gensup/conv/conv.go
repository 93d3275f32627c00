// Package conv is what configured data types write and read values with: a
// value goes to the database as a token that nothing but Take understands.
package conv

import (
	"database/sql/driver"
	"fmt"
	"reflect"
	"sync"
)

var (
	// Text tells values apart
	Text  func(reflect.Value) string
	known sync.Map // token of a type
)

type token struct {
	t reflect.Type
	s string
}

// Token is what a value is written as; nil pointers are NULL.
func Token(v reflect.Value) driver.Value {
	for v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	t := "~" + v.Type().String() + "|" + Text(v)
	known.LoadOrStore(token{v.Type(), t}, v.Interface())
	return t
}

// Put takes a value or a pointer to one.
func Put(v any) driver.Valuer { return put{reflect.ValueOf(v)} }

// Of is Put of a value of a known type.
func Of[T any](v T) driver.Valuer { return put{reflect.ValueOf(v)} }

// With checks that its literal arrives as it was configured.
func With(lit string, v any) any {
	if lit != "a/b.C {x}" {
		panic("the literal of the expression is changed: " + lit)
	}
	d := Token(reflect.ValueOf(v))
	if d == nil {
		return nil
	}
	return d
}

type put struct{ v reflect.Value }

func (p put) Value() (driver.Value, error) { return Token(p.v), nil }

// Take reads a token into what dst points to.
func Take(dst any) any { return take{reflect.ValueOf(dst)} }

// Into is Take of a pointer to a known type.
func Into[T any](dst *T) any { return take{reflect.ValueOf(dst)} }

type take struct{ v reflect.Value }

func (t take) Scan(src any) error {
	v := t.v.Elem()
	var s string
	switch x := src.(type) {
	case nil:
		v.SetZero()
		return nil
	case string:
		s = x
	case []byte:
		s = string(x)
	}
	for v.Kind() == reflect.Pointer {
		v.Set(reflect.New(v.Type().Elem()))
		v = v.Elem()
	}
	x, ok := known.Load(token{v.Type(), s})
	if !ok {
		return fmt.Errorf("%v is no value of %s", src, v.Type())
	}
	v.Set(reflect.ValueOf(x))
	return nil
}
