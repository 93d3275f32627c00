// Package odd lives in a directory with another name.
package odd

type Size uint16

type Names []string
