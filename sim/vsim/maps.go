package vsim

import (
	"fmt"
	"reflect"
	"sort"
)

// Go leaves the iteration order of maps unspecified; the simulator makes it a seeded choice of the run, so that code
// which depends on an order is exposed and every execution is repeatable. Keys are put in a canonical order and then
// permuted by the run's seed. As in Go, entries deleted during the iteration are not visited.

func keyLess(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && !b.IsNil()
		}
		if ta, tb := a.Elem().Type().String(), b.Elem().Type().String(); ta != tb {
			return ta < tb
		}
		return keyLess(a.Elem(), b.Elem())
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	case reflect.String:
		return a.String() < b.String()
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		return false // addresses are not repeatable: keep the order found
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if keyLess(a.Field(i), b.Field(i)) {
				return true
			}
			if keyLess(b.Field(i), a.Field(i)) {
				return false
			}
		}
		return false
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if keyLess(a.Index(i), b.Index(i)) {
				return true
			}
			if keyLess(b.Index(i), a.Index(i)) {
				return false
			}
		}
		return false
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// mapEntries lists the keys of a map, and the values of those that cannot be looked up as they contain a NaN
func mapEntries(m reflect.Value) (keys, vals []reflect.Value) {
	keys = m.MapKeys()
	lost := false
	for _, k := range keys {
		lost = lost || !k.Equal(k)
	}
	if !lost {
		orderKeys(keys)
		return keys, nil
	}
	type entry struct{ k, v reflect.Value }
	var es []entry
	for it := m.MapRange(); it.Next(); {
		es = append(es, entry{it.Key(), it.Value()})
	}
	// keys that are not equal to themselves are told apart by their values only
	sort.SliceStable(es, func(i, j int) bool { return keyLess(es[i].v, es[j].v) })
	sort.SliceStable(es, func(i, j int) bool {
		if a, b := es[i].k.Equal(es[i].k), es[j].k.Equal(es[j].k); a != b {
			return a
		} else if !a {
			return false
		}
		return keyLess(es[i].k, es[j].k)
	})
	at := make([]reflect.Value, len(es))
	for i := range at {
		at[i] = reflect.ValueOf(i)
	}
	permute(at)
	keys = keys[:0]
	for _, i := range at {
		e := es[i.Int()]
		keys = append(keys, e.k)
		if e.k.Equal(e.k) {
			e.v = reflect.Value{}
		}
		vals = append(vals, e.v)
	}
	return
}

func orderKeys(keys []reflect.Value) {
	sort.SliceStable(keys, func(i, j int) bool { return keyLess(keys[i], keys[j]) })
	permute(keys)
}

func permute(keys []reflect.Value) {
	h := Mix64(mapSeed + uint64(len(keys)))
	if mapSeed == 0 {
		return
	}
	for i := len(keys) - 1; i > 0; i-- {
		h = Mix64(h)
		j := int(h % uint64(i+1))
		keys[i], keys[j] = keys[j], keys[i]
	}
}

// It iterates a map in a range statement
type It[K comparable, V any] struct {
	m    map[K]V
	keys []reflect.Value
	vals []reflect.Value
	i    int
	k    K
	v    V
}

// MapIter starts the iteration of a range statement over a map
func MapIter[M ~map[K]V, K comparable, V any](m M) *It[K, V] {
	it := &It[K, V]{m: m}
	if len(m) > 0 {
		it.keys, it.vals = mapEntries(reflect.ValueOf(map[K]V(m)))
	}
	return it
}

// Next advances
func (it *It[K, V]) Next() bool {
	for it.i < len(it.keys) {
		kv := it.keys[it.i]
		it.i++
		var k K
		reflect.ValueOf(&k).Elem().Set(kv)
		if k != k { // a NaN; nothing but clear removes it
			if len(it.m) == 0 {
				continue
			}
			var v V
			reflect.ValueOf(&v).Elem().Set(it.vals[it.i-1])
			it.k, it.v = k, v
			return true
		}
		if v, ok := it.m[k]; ok {
			it.k, it.v = k, v
			return true
		}
	}
	return false
}

// K is the current key
func (it *It[K, V]) K() K { return it.k }

// V is the current value
func (it *It[K, V]) V() V { return it.v }

// RMapIter replaces reflect.MapIter
type RMapIter struct {
	m    reflect.Value
	keys []reflect.Value
	vals []reflect.Value
	i    int
	k, v reflect.Value
}

// MapRange replaces reflect.Value.MapRange
func MapRange(m reflect.Value) *RMapIter {
	it := &RMapIter{m: m}
	it.keys, it.vals = mapEntries(m)
	return it
}

// MapKeys replaces reflect.Value.MapKeys
func MapKeys(m reflect.Value) []reflect.Value {
	keys, _ := mapEntries(m)
	return keys
}

// Next advances
func (it *RMapIter) Next() bool {
	for it.i < len(it.keys) {
		it.k = it.keys[it.i]
		it.i++
		if !it.k.Equal(it.k) {
			if it.m.Len() == 0 {
				continue
			}
			it.v = it.vals[it.i-1]
			return true
		}
		if it.v = it.m.MapIndex(it.k); it.v.IsValid() {
			return true
		}
	}
	it.k, it.v = reflect.Value{}, reflect.Value{}
	return false
}

// Key is the current key; panics when there is none, as reflect does
func (it *RMapIter) Key() reflect.Value {
	if !it.k.IsValid() {
		panic("MapIter.Key called on exhausted iterator")
	}
	return it.k
}

// Value is the current value
func (it *RMapIter) Value() reflect.Value {
	if !it.v.IsValid() {
		panic("MapIter.Value called on exhausted iterator")
	}
	return it.v
}

// Reset restarts the iteration on another map
func (it *RMapIter) Reset(m reflect.Value) { *it = *MapRange(m) }
