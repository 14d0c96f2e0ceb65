//go:build go1.21

package zzsim

import (
	"fmt"
	"iter"
	"sort"
)

// MapIterator walks a map in an order chosen by the seed.
type MapIterator[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	k    K
	v    V
}

// MapRanges counts map iterations over more than one entry.
var MapRanges int64

//go:norace
func countMap() { MapRanges++ }

//go:norace
func shuffleMaps() bool { return cfg.MapMode == 1 && pol != nil }

//go:norace
func polIntn(n int) int { return pol.Intn(n) }

// MapIter is what "range m" becomes.
func MapIter[M ~map[K]V, K comparable, V any](m M) *MapIterator[K, V] {
	it := &MapIterator[K, V]{m: m}
	type sk struct {
		s string
		k K
	}
	l := make([]sk, 0, len(m))
	for k := range m {
		l = append(l, sk{fmt.Sprintf("%v", k), k})
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].s < l[j].s })
	it.keys = make([]K, len(l))
	for i := range l {
		it.keys[i] = l[i].k
	}
	if len(l) > 1 {
		countMap()
		if shuffleMaps() {
			for i := len(l) - 1; i > 0; i-- {
				j := polIntn(i + 1)
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
	return it
}

func (it *MapIterator[K, V]) Next() bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		if v, ok := it.m[k]; ok {
			it.k, it.v = k, v
			return true
		}
	}
	return false
}

func (it *MapIterator[K, V]) Key() K { return it.k }
func (it *MapIterator[K, V]) Val() V { return it.v }

// MapsKeys, MapsValues and MapsAll replace the functions of package maps.
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for it := MapIter(m); it.Next() && yield(it.Key()); {
		}
	}
}

func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for it := MapIter(m); it.Next() && yield(it.Val()); {
		}
	}
}

func MapsAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for it := MapIter(m); it.Next() && yield(it.Key(), it.Val()); {
		}
	}
}
