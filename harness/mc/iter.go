package mc

import (
	"fmt"
	"sort"
)

// Order is how instrumented map iterations run while no scheduler is active.
type Order int

const (
	Ascending Order = iota
	Descending
	Rotated // ascending, but starting in the middle
)

// DefaultOrder applies to iterations outside a controlled execution. It is
// only written between executions.
var DefaultOrder = Ascending

// IterCost is the deviation cost of an iteration that does not take the least
// remaining key. Negative: iteration order is not explored.
var IterCost = -1

// A MapIter iterates over a map in an order that the checker decides.
type Iter[K comparable, V any] struct {
	K    K
	V    V
	m    map[K]V
	keys []K
}

// Map starts the iteration over m.
func Map[M ~map[K]V, K comparable, V any](m M) *Iter[K, V] {
	it := &Iter[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	if S == nil || IterCost < 0 {
		switch DefaultOrder {
		case Descending:
			for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		case Rotated:
			h := len(it.keys) / 2
			it.keys = append(append([]K{}, it.keys[h:]...), it.keys[:h]...)
		}
	}
	return it
}

func sortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	switch ks := any(keys).(type) {
	case []int:
		sort.Ints(ks)
	case []string:
		sort.Strings(ks)
	default:
		names := make([]string, len(keys))
		for i, k := range keys {
			names[i] = fmt.Sprintf("%T %#v", k, k)
		}
		sort.Sort(&byName[K]{keys, names})
	}
}

type byName[K any] struct {
	keys  []K
	names []string
}

func (b *byName[K]) Len() int           { return len(b.keys) }
func (b *byName[K]) Less(i, j int) bool { return b.names[i] < b.names[j] }
func (b *byName[K]) Swap(i, j int) {
	b.keys[i], b.keys[j] = b.keys[j], b.keys[i]
	b.names[i], b.names[j] = b.names[j], b.names[i]
}

// Next advances to the next key that is still in the map.
func (it *Iter[K, V]) Next() bool {
	for len(it.keys) > 0 {
		// Drop the keys deleted since.
		live := it.keys[:0]
		for _, k := range it.keys {
			if _, ok := it.m[k]; ok {
				live = append(live, k)
			}
		}
		it.keys = live
		if len(it.keys) == 0 {
			return false
		}
		i := 0
		if S != nil && IterCost >= 0 {
			i = S.c.Choose(len(it.keys), IterCost)
		}
		it.K = it.keys[i]
		it.V = it.m[it.K]
		it.keys = append(it.keys[:i:i], it.keys[i+1:]...)
		return true
	}
	return false
}
