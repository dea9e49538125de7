// Package maps replaces the standard maps package inside the simulator: iteration order is the simulator's.
package maps

import (
	"iter"
	rm "maps"

	"verif/simrt"
)

func Keys[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[K] {
	return func(y func(K) bool) {
		for _, k := range simrt.MapKeys(m) {
			if _, ok := m[k]; ok && !y(k) {
				return
			}
		}
	}
}
func Values[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[V] {
	return func(y func(V) bool) {
		for _, k := range simrt.MapKeys(m) {
			if v, ok := m[k]; ok && !y(v) {
				return
			}
		}
	}
}
func All[Map ~map[K]V, K comparable, V any](m Map) iter.Seq2[K, V] {
	return func(y func(K, V) bool) {
		for _, k := range simrt.MapKeys(m) {
			if v, ok := m[k]; ok && !y(k, v) {
				return
			}
		}
	}
}
func Clone[M ~map[K]V, K comparable, V any](m M) M                   { return rm.Clone(m) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](d M1, s M2) { rm.Copy(d, s) }
func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool        { return rm.Equal(a, b) }
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for _, k := range simrt.MapKeys(m) {
		if v, ok := m[k]; ok && del(k, v) {
			delete(m, k)
		}
	}
}
func Insert[Map ~map[K]V, K comparable, V any](m Map, s iter.Seq2[K, V]) { rm.Insert(m, s) }
func Collect[K comparable, V any](s iter.Seq2[K, V]) map[K]V             { return rm.Collect(s) }
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](a M1, b M2, eq func(V1, V2) bool) bool {
	return rm.EqualFunc(a, b, eq)
}
