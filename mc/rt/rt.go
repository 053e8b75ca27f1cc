// Package rt is what the instrumented copy of the repository calls: a yield
// before every statement and a controlled enumeration order of every map.
package rt

import (
	"cmp"
	"fmt"
	"reflect"
	"sort"
)

// Yield is called before every statement of the repository, if set.
var Yield func(site int)

// Y marks a statement.
func Y(site int) {
	if f := Yield; f != nil {
		f(site)
	}
}

// Order decides the order in which a map of n >= 2 entries is enumerated: a
// permutation of the sorted keys (nil: sorted).
var Order func(site, n int) []int

// Iter enumerates a map.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// NewIter starts an enumeration of m.
func NewIter[M ~map[K]V, K comparable, V any](site int, m M) *Iter[K, V] {
	it := &Iter[K, V]{m: m, i: -1}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) > 1 {
		less := lessOf(it.keys)
		sort.Slice(it.keys, less)
		if f := Order; f != nil {
			if p := f(site, len(it.keys)); p != nil {
				q := make([]K, len(p))
				for i, j := range p {
					q[i] = it.keys[j]
				}
				it.keys = q
			}
		}
	}
	return it
}

func lessOf[K comparable](ks []K) func(i, j int) bool {
	switch s := any(ks).(type) {
	case []string:
		return func(i, j int) bool { return cmp.Less(s[i], s[j]) }
	case []int:
		return func(i, j int) bool { return s[i] < s[j] }
	}
	return func(i, j int) bool {
		a, b := reflect.ValueOf(ks[i]), reflect.ValueOf(ks[j])
		switch {
		case a.CanInt():
			return a.Int() < b.Int()
		case a.CanUint():
			return a.Uint() < b.Uint()
		case a.CanFloat():
			return a.Float() < b.Float()
		case a.Kind() == reflect.String:
			return a.String() < b.String()
		}
		return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j])
	}
}

// Next advances; entries deleted meanwhile are not visited.
func (it *Iter[K, V]) Next() bool {
	for it.i++; it.i < len(it.keys); it.i++ {
		if _, ok := it.m[it.keys[it.i]]; ok {
			return true
		}
	}
	return false
}

func (it *Iter[K, V]) K() K { return it.keys[it.i] }
func (it *Iter[K, V]) V() V { return it.m[it.keys[it.i]] }

// VarsK, VarsV and VarsKV give the variables of the loop over it.
func VarsK[K comparable, V any](it *Iter[K, V]) (i *Iter[K, V], k K)       { return it, k }
func VarsV[K comparable, V any](it *Iter[K, V]) (i *Iter[K, V], v V)       { return it, v }
func VarsKV[K comparable, V any](it *Iter[K, V]) (i *Iter[K, V], k K, v V) { return it, k, v }
