package vs

import (
	"cmp"
	"fmt"
	"sort"
)

// MapIter iterates over a map in an order decided by the explorer.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

func sortKeys[K comparable](ks []K) {
	switch s := any(ks).(type) {
	case []string:
		sort.Strings(s)
		return
	case []int:
		sort.Ints(s)
		return
	}
	sort.SliceStable(ks, func(i, j int) bool {
		return cmp.Less(fmt.Sprintf("%#v", ks[i]), fmt.Sprintf("%#v", ks[j]))
	})
}

// MapRange starts an iteration.
func MapRange[K comparable, V any](m map[K]V) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m}
	if len(m) > 0 {
		it.keys = make([]K, 0, len(m))
		for k := range m {
			it.keys = append(it.keys, k)
		}
		sortKeys(it.keys)
	}
	return it
}

// Next returns the next pair.
func (it *MapIter[K, V]) Next() (K, V, bool) {
	for len(it.keys) > 0 {
		i := 0
		if Active() && cx.cfg.MapOrder && len(it.keys) > 1 && !cur.abort {
			i = cx.decide(len(it.keys), 'd')
			if cx.failed {
				panic(abortT{})
			}
		}
		k := it.keys[i]
		it.keys = append(it.keys[:i:i], it.keys[i+1:]...)
		if v, ok := it.m[k]; ok {
			return k, v, true
		}
	}
	var k K
	var v V
	return k, v, false
}

// Order returns a permutation index choice for shims that iterate in unspecified order.
func Order(n int) int {
	if Active() && cx.cfg.MapOrder && n > 1 && !cur.abort {
		i := cx.decide(n, 'd')
		if cx.failed {
			panic(abortT{})
		}
		return i
	}
	return 0
}
