// Package ver lives in a major version directory.
package ver

type ID string

type Weight float64
