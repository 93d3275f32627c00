// Package plain has structs to define models from.
package plain

type Row struct {
	ID   int64 `sql:",pk"`
	Name string
}

type None struct{ hidden int }

type Level int

type Box[T any] struct{ V T }
