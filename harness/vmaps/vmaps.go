// Package vmaps puts the order of the iteration over a map under the control
// of the explorer.
package vmaps

import (
	"fmt"
	"iter"
	"slices"
	"sort"
	"sync"

	"github.com/samber/lo"
)

var (
	mu     sync.Mutex
	on     bool
	order  []int
	points []int
)

// Start begins an execution which takes the given choices, then the first one.
func Start(o []int) {
	mu.Lock()
	defer mu.Unlock()
	on, order, points = true, o, nil
}

// Stop ends the execution and returns how many choices each point had.
func Stop() []int {
	mu.Lock()
	defer mu.Unlock()
	on = false
	return points
}

func choose(n int) int {
	mu.Lock()
	defer mu.Unlock()
	if !on || n < 2 {
		return 0
	}
	i := len(points)
	points = append(points, n)
	if i < len(order) && order[i] < n {
		return order[i]
	}
	return 0
}

// alternatives of the order of n things: all up to 4, then every rotation in
// both directions.
func alternatives(n int) int {
	switch {
	case n < 2:
		return 1
	case n > 4:
		return 2 * n
	}
	f := 1
	for ; n > 1; n-- {
		f *= n
	}
	return f
}

// Arrange puts the things in the chosen order.
func Arrange[T any](l []T) []T {
	n := len(l)
	c := choose(alternatives(n))
	if n > 4 {
		if c >= n {
			c -= n
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
		}
		return append(append([]T{}, l[c:]...), l[:c]...)
	}
	rest, out := append([]T{}, l...), []T{}
	for len(rest) > 0 {
		i := c % len(rest)
		c /= len(rest)
		out = append(out, rest[i])
		rest = append(rest[:i:i], rest[i+1:]...)
	}
	return out
}

// Range iterates over the map in the chosen order.
func Range[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for _, k := range Arrange(keys) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// All, Keys and Values stand in for those of package maps.
func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return Range(m) }

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range Range(m) {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range Range(m) {
			if !yield(v) {
				return
			}
		}
	}
}

// ExpKeys and ExpValues stand in for those of golang.org/x/exp/maps.
func ExpKeys[M ~map[K]V, K comparable, V any](m M) []K   { return slices.Collect(Keys(m)) }
func ExpValues[M ~map[K]V, K comparable, V any](m M) []V { return slices.Collect(Values(m)) }

// LoKeys and its like stand in for those of github.com/samber/lo.
func LoKeys[K comparable, V any](l ...map[K]V) (out []K) {
	for _, m := range l {
		out = append(out, ExpKeys(m)...)
	}
	return
}

func LoValues[K comparable, V any](l ...map[K]V) (out []V) {
	for _, m := range l {
		out = append(out, ExpValues(m)...)
	}
	return
}

func LoEntries[K comparable, V any](m map[K]V) (out []lo.Entry[K, V]) {
	for k, v := range Range(m) {
		out = append(out, lo.Entry[K, V]{Key: k, Value: v})
	}
	return
}

func LoToPairs[K comparable, V any](m map[K]V) []lo.Entry[K, V] { return LoEntries(m) }

func LoMapToSlice[K comparable, V, R any](m map[K]V, f func(K, V) R) (out []R) {
	for k, v := range Range(m) {
		out = append(out, f(k, v))
	}
	return
}
