// Package sup has the same name as another package.
package sup

type Kind string

type Rank int16

type Rec struct{ P, Q int }
