package rt

import (
	"fmt"
	"iter"
	"reflect"
	"slices"
)

// MapOrder selects the order in which range over a map visits its keys: 0 ascending, 1 descending, 2 rotated by half,
// 3 odd positions first. The explorer enumerates it.
var MapOrder int

// MapIters counts the iterations over maps with more than one key, so that the explorer knows when MapOrder matters.
var MapIters int

func less(a, b reflect.Value) int {
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x, y := a.Int(), b.Int()
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		x, y := a.Uint(), b.Uint()
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	case reflect.String:
		x, y := a.String(), b.String()
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	}
	x, y := fmt.Sprintf("%#v", a), fmt.Sprintf("%#v", b)
	switch {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}

func keys[K comparable, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	switch ks := any(ks).(type) {
	case []uint64:
		slices.Sort(ks)
	case []string:
		slices.Sort(ks)
	}
	switch any(ks).(type) {
	case []uint64, []string:
	default:
		slices.SortFunc(ks, func(a, b K) int { return less(reflect.ValueOf(a), reflect.ValueOf(b)) })
	}
	n := len(ks)
	if n > 1 {
		touchIters()
		switch order() {
		case 1:
			slices.Reverse(ks)
		case 2:
			ks = append(append(make([]K, 0, n), ks[n/2:]...), ks[:n/2]...)
		case 3:
			r := make([]K, 0, n)
			for i := 1; i < n; i += 2 {
				r = append(r, ks[i])
			}
			for i := 0; i < n; i += 2 {
				r = append(r, ks[i])
			}
			ks = r
		}
	}
	return ks
}

//go:norace
func touchIters() { MapIters++ }

//go:norace
func order() int { return MapOrder }

// MapAll replaces range over a map (key and value) and maps.All.
func MapAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range keys(m) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapKeys replaces range over a map (key only) and maps.Keys.
func MapKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, k := range keys(m) {
			if _, ok := m[k]; !ok {
				continue
			}
			if !yield(k) {
				return
			}
		}
	}
}

// MapValues replaces maps.Values.
func MapValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, k := range keys(m) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(v) {
				return
			}
		}
	}
}
