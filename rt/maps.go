package verifsim

import (
	"fmt"
	"sort"
)

// MapIter iterates over a map in an order the simulator chooses.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// RangeMap starts a rewritten range loop over a map.
func RangeMap[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V, bool) {
	it := &MapIter[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) > 1 {
		strs := make([]string, len(it.keys))
		for i, k := range it.keys {
			switch x := any(k).(type) {
			case string:
				strs[i] = x
			default:
				strs[i] = fmt.Sprintf("%v", x)
			}
		}
		sort.Sort(&keySorter[K]{it.keys, strs})
		permute(len(it.keys), func(i, j int) { it.keys[i], it.keys[j] = it.keys[j], it.keys[i] })
	}
	k, v, ok := it.Next()
	return it, k, v, ok
}

type keySorter[K any] struct {
	k []K
	s []string
}

func (x *keySorter[K]) Len() int           { return len(x.k) }
func (x *keySorter[K]) Less(i, j int) bool { return x.s[i] < x.s[j] }
func (x *keySorter[K]) Swap(i, j int) {
	x.k[i], x.k[j] = x.k[j], x.k[i]
	x.s[i], x.s[j] = x.s[j], x.s[i]
}

// permute applies a simulator-chosen permutation: the answer 0 leaves sorted order.
//
//go:noinline
func permute(n int, swap func(i, j int)) {
	if !active || n > 5000 {
		return
	}
	mode := sch.Src.Env(4, nil) // 0 sorted, 1 reversed, 2 rotated, 3 shuffled
	switch mode {
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			swap(i, j)
		}
	case 2, 3:
		seed := uint64(1 + sch.Src.Env(1<<20, nil))
		r := NewRand(seed)
		for i := n - 1; i > 0; i-- {
			swap(i, r.Intn(i+1))
		}
	}
}

// Permute exposes permute to the harness.
func Permute(n int, swap func(i, j int)) { permute(n, swap) }

// Next advances the iteration.
func (it *MapIter[K, V]) Next() (K, V, bool) {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		if v, ok := it.m[k]; ok {
			return k, v, true
		}
	}
	var k K
	var v V
	return k, v, false
}

// Zero resets a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}
