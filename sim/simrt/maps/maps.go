// Package maps is the simulated stand-in for the standard package: maps are
// walked in an order of the simulator's.
package maps

import (
	"iter"
	std "maps"

	"simrt"
)

func All[Map ~map[K]V, K comparable, V any](m Map) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for it := simrt.Iter(m); it.Next(); {
			if !yield(it.K, it.V) {
				return
			}
		}
	}
}

func Keys[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[K] {
	return func(yield func(K) bool) {
		for it := simrt.Iter(m); it.Next(); {
			if !yield(it.K) {
				return
			}
		}
	}
}

func Values[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[V] {
	return func(yield func(V) bool) {
		for it := simrt.Iter(m); it.Next(); {
			if !yield(it.V) {
				return
			}
		}
	}
}

func Clone[M ~map[K]V, K comparable, V any](m M) M { return std.Clone(m) }

func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) { std.Copy(dst, src) }

func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V { return std.Collect(seq) }

func Insert[Map ~map[K]V, K comparable, V any](m Map, seq iter.Seq2[K, V]) { std.Insert(m, seq) }

func Equal[M1, M2 ~map[K]V, K, V comparable](m1 M1, m2 M2) bool { return std.Equal(m1, m2) }

func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](m1 M1, m2 M2, eq func(V1, V2) bool) bool {
	for it := simrt.Iter(m1); it.Next(); {
		if v2, ok := m2[it.K]; !ok || !eq(it.V, v2) {
			return false
		}
	}
	return len(m1) == len(m2)
}

func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for it := simrt.Iter(m); it.Next(); {
		if del(it.K, it.V) {
			delete(m, it.K)
		}
	}
}
