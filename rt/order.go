// Package verifrt is the runtime half of the model checker. The checks build the
// repository's current sources through a compiler overlay in which every source of
// nondeterminism has been routed here: map iteration order (this file) and lock,
// atomic and (optionally) statement level scheduling points (sched.go).
package verifrt

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"slices"
	"time"
	"unsafe"
)

// OrderHook, when not nil, chooses which of n remaining map entries is visited next
// (or, with late set, answers whether a map entry added during an iteration is
// visited by it: the language allows both). When nil, entries are visited in
// ascending key order and late entries are not visited.
var OrderHook func(n int, late bool) int

func keyLess(a, b reflect.Value) int {
	switch a.Kind() {
	case reflect.String:
		return cmp.Compare(a.String(), b.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cmp.Compare(a.Int(), b.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return cmp.Compare(a.Uint(), b.Uint())
	case reflect.Float64:
		return cmp.Compare(a.Float(), b.Float())
	case reflect.Struct:
		if !a.CanAddr() || !b.CanAddr() || a.Type() == reflect.TypeFor[time.Time]() {
			break
		}
		for i := range a.NumField() {
			if c := keyLess(field(a, i), field(b, i)); c != 0 {
				return c
			}
		}
		return 0
	}
	return cmp.Compare(keyString(a), keyString(b))
}

// field is a field of an addressable struct, be it exported or not.
func field(v reflect.Value, i int) reflect.Value {
	f := v.Field(i)
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

func keyString(v reflect.Value) string {
	if !v.CanInterface() {
		return v.String()
	}
	x := v.Interface()
	if t, ok := x.(reflect.Type); ok {
		return t.PkgPath() + "." + t.String()
	}
	return fmt.Sprintf("%T|%v", x, x)
}

func sortKeys[K any](keys []K) {
	if len(keys) < 2 {
		return
	}
	switch ks := any(keys).(type) {
	case []string:
		slices.Sort(ks)
		return
	case []uint64:
		slices.Sort(ks)
		return
	}
	slices.SortStableFunc(keys, func(a, b K) int {
		return keyLess(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem())
	})
}

// Map is a range over m in an order the checker decides.
func Map[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		if len(m) == 0 {
			return
		}
		keys := make([]K, 0, len(m))
		// Keys that do not equal themselves are visited, but cannot be looked up.
		var odd []V
		for k, v := range m {
			if k != k {
				odd = append(odd, v)
				continue
			}
			keys = append(keys, k)
		}
		if len(odd) > 0 {
			var nan K
			for k := range m {
				if k != k {
					nan = k
				}
			}
			for _, v := range odd {
				if !yield(nan, v) {
					return
				}
			}
		}
		sortKeys(keys)
		hook := OrderHook
		var known map[K]struct{}
		if hook != nil {
			known = make(map[K]struct{}, len(keys))
			for _, k := range keys {
				known[k] = struct{}{}
			}
		}
		for len(keys) > 0 {
			i := 0
			if hook != nil && len(keys) > 1 {
				// entries deleted meanwhile are not alternatives
				live := keys[:0]
				for _, k := range keys {
					if _, ok := m[k]; ok {
						live = append(live, k)
					}
				}
				keys = live
				if len(keys) == 0 {
					return
				}
				if len(keys) > 1 {
					i = hook(len(keys), false)
				}
			}
			k := keys[i]
			keys = slices.Delete(keys, i, i+1)
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
			if hook != nil {
				var late []K
				for k := range m {
					if _, ok := known[k]; !ok {
						known[k] = struct{}{}
						late = append(late, k)
					}
				}
				sortKeys(late)
				for _, k := range late {
					if hook(2, true) == 1 {
						keys = append(keys, k)
					}
				}
			}
		}
	}
}

// Keys and Values stand in for maps.Keys and maps.Values.
func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range Map(m) {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range Map(m) {
			if !yield(v) {
				return
			}
		}
	}
}

// MapIter stands in for reflect.MapIter.
type MapIter struct {
	m       reflect.Value
	entries []mapEntry
	entry   mapEntry
}

type mapEntry struct {
	key   reflect.Value
	value reflect.Value // of a key that does not equal itself
}

func MapRange(m reflect.Value) *MapIter {
	it := &MapIter{m: m}
	for r := m.MapRange(); r.Next(); {
		e := mapEntry{key: r.Key()}
		if !r.Key().Equal(r.Key()) {
			e.value = r.Value()
		}
		it.entries = append(it.entries, e)
	}
	slices.SortStableFunc(it.entries, func(a, b mapEntry) int { return keyLess(a.key, b.key) })
	return it
}

// MapKeys stands in for reflect.Value.MapKeys.
func MapKeys(m reflect.Value) []reflect.Value {
	it := MapRange(m)
	var out []reflect.Value
	for it.Next() {
		out = append(out, it.Key())
	}
	return out
}

func (it *MapIter) Next() bool {
	if len(it.entries) == 0 {
		return false
	}
	i := 0
	if hook := OrderHook; hook != nil && len(it.entries) > 1 {
		i = hook(len(it.entries), false)
	}
	it.entry = it.entries[i]
	it.entries = slices.Delete(slices.Clone(it.entries), i, i+1)
	return true
}

func (it *MapIter) Key() reflect.Value { return it.entry.key }
func (it *MapIter) Value() reflect.Value {
	if it.entry.value.IsValid() {
		return it.entry.value
	}
	return it.m.MapIndex(it.entry.key)
}
