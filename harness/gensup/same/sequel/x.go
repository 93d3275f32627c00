// Package sequel has the name of a package generated code uses.
package sequel

type Kind string

type Rank int

type List []string

type Rec struct{ A, B string }
