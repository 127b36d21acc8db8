package vs

import (
	"reflect"
	"sort"
)

//go:norace
func permNext() uint64 {
	permRng += 0x9E3779B97F4A7C15
	z := permRng
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// MapOrder sets how maps are enumerated from now on.
//
//go:norace
func MapOrder(mode, seed uint64) { permMode, permRng = mode, seed*0x9E3779B97F4A7C15+0x1234567 }

//go:norace
func permModeGet() uint64 { return permMode }

// order puts the indices 0..n-1 (in canonical key order) into the order the
// simulator chose for this enumeration.
func order(n int, swap func(i, j int)) {
	switch permModeGet() % 4 {
	case 0: // canonical
	case 1: // reverse
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			swap(i, j)
		}
	default:
		for i := n - 1; i > 0; i-- {
			swap(i, int(permNext()%uint64(i+1)))
		}
	}
}

func rank(k reflect.Kind) int { return int(k) }

// Compare is a deterministic total preorder on map keys.
func Compare(a, b reflect.Value) int {
	if a.Kind() == reflect.Interface {
		a = a.Elem()
	}
	if b.Kind() == reflect.Interface {
		b = b.Elem()
	}
	if a.Kind() != b.Kind() {
		return rank(a.Kind()) - rank(b.Kind())
	}
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x, y := a.Int(), b.Int()
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		x, y := a.Uint(), b.Uint()
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
	case reflect.String:
		x, y := a.String(), b.String()
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
	case reflect.Bool:
		x, y := a.Bool(), b.Bool()
		if x == y {
			return 0
		}
		if y {
			return -1
		}
		return 1
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := Compare(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := Compare(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
	}
	return 0
}

// MapKeys replaces reflect.Value.MapKeys in instrumented code.
func MapKeys(rv reflect.Value) []reflect.Value {
	keys := rv.MapKeys()
	if len(keys) < 2 {
		return keys
	}
	sort.SliceStable(keys, func(i, j int) bool { return Compare(keys[i], keys[j]) < 0 })
	order(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	return keys
}

// MapIter replaces reflect.MapIter in instrumented code.
type MapIter struct {
	m    reflect.Value
	keys []reflect.Value
	i    int
}

func MapRange(rv reflect.Value) *MapIter { return &MapIter{m: rv, keys: MapKeys(rv), i: -1} }

func (it *MapIter) Next() bool {
	for it.i++; it.i < len(it.keys); it.i++ {
		if it.m.MapIndex(it.keys[it.i]).IsValid() {
			return true
		}
	}
	return false
}
func (it *MapIter) Key() reflect.Value   { return it.keys[it.i] }
func (it *MapIter) Value() reflect.Value { return it.m.MapIndex(it.keys[it.i]) }
func (it *MapIter) Reset(v reflect.Value) {
	*it = MapIter{m: v, keys: MapKeys(v), i: -1}
}

// Entry is one step of an enumeration of a map.
type Entry[K comparable, V any] struct {
	K K
	m map[K]V
}

func (e Entry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }
func (e Entry[K, V]) V() V       { return e.m[e.K] }

// Entries replaces range over a map in instrumented code.
func Entries[K comparable, V any](m map[K]V) []Entry[K, V] {
	out := make([]Entry[K, V], 0, len(m))
	for k := range m {
		out = append(out, Entry[K, V]{k, m})
	}
	sort.SliceStable(out, func(i, j int) bool {
		return Compare(reflect.ValueOf(&out[i].K).Elem(), reflect.ValueOf(&out[j].K).Elem()) < 0
	})
	order(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}
