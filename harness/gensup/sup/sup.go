// Package sup holds the kinds of foreign types a model can have.
package sup

import (
	"database/sql/driver"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"time"
)

// Level is an imported enumeration.
type Level int

const (
	Low Level = iota
	High
)

type (
	Str   string
	Flag  bool
	U8    uint8
	F32   float32
	Blob  []byte
	Strs  []string
	Ints  []int
	Pair  [2]int
	Inner struct {
		A string
		B int
	}
)

// Date is a text-marshalled struct.
type Date struct{ Y, M, D int }

func (d Date) MarshalText() ([]byte, error) {
	return []byte(fmt.Sprintf("%04d-%02d-%02d", d.Y, d.M, d.D)), nil
}
func (d *Date) UnmarshalText(b []byte) error {
	_, err := fmt.Sscanf(string(b), "%04d-%02d-%02d", &d.Y, &d.M, &d.D)
	return err
}

// UUID is an array which is a Valuer and (through its pointer) a Scanner.
type UUID [4]byte

func (u UUID) Value() (driver.Value, error) { return fmt.Sprintf("%x", u[:]), nil }
func (u *UUID) Scan(src any) error {
	var s string
	switch v := src.(type) {
	case string:
		s = v
	case []byte:
		s = string(v)
	case nil:
		*u = UUID{}
		return nil
	default:
		return fmt.Errorf("cannot scan %T", src)
	}
	if len(s) != 8 {
		return errors.New("bad uuid")
	}
	for i := range u {
		n, err := strconv.ParseUint(s[i*2:i*2+2], 16, 8)
		if err != nil {
			return err
		}
		u[i] = byte(n)
	}
	return nil
}

// Dec is a struct Valuer/Scanner.
type Dec struct {
	N     int64
	Scale int
}

func (d Dec) Value() (driver.Value, error) { return fmt.Sprintf("%d/%d", d.N, d.Scale), nil }
func (d *Dec) Scan(src any) error {
	var s string
	switch v := src.(type) {
	case string:
		s = v
	case []byte:
		s = string(v)
	case nil:
		*d = Dec{}
		return nil
	default:
		return fmt.Errorf("cannot scan %T", src)
	}
	a, b, _ := strings.Cut(s, "/")
	var err error
	if d.N, err = strconv.ParseInt(a, 10, 64); err != nil {
		return err
	}
	d.Scale, err = strconv.Atoi(b)
	return err
}

// Opt is a generic Valuer/Scanner.
type Opt[T any] struct {
	V     T
	Valid bool
}

func (o Opt[T]) Value() (driver.Value, error) {
	if !o.Valid {
		return nil, nil
	}
	return fmt.Sprint(o.V), nil
}

func (o *Opt[T]) Scan(src any) error {
	if src == nil {
		*o = Opt[T]{}
		return nil
	}
	o.Valid = true
	s, ok := src.(string)
	if b, isb := src.([]byte); isb {
		s, ok = string(b), true
	}
	if !ok {
		return fmt.Errorf("cannot scan %T", src)
	}
	_, err := fmt.Sscan(s, &o.V)
	return err
}

// Box is a plain generic type.
type Box[T any] struct{ V T }

// Stamp is a defined time.
type Stamp time.Time
