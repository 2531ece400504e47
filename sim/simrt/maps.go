package simrt

import (
	"math"
	"reflect"
	"sort"
	"unsafe"
)

// Deterministic map iteration. Keys are ordered by value; pointers by the
// order in which the instrumented code allocated them; the resulting order is
// then permuted by one recorded choice.

// ptrTab maps addresses to allocation numbers without using a Go map (the
// race detector would take its accesses for the program's).
var (
	ptrKeys []unsafe.Pointer
	ptrVals []uint64
	ptrN    int
	ptrSeq  uint64
)

func resetPtrs() {
	if len(ptrKeys) != 1<<10 {
		ptrKeys = make([]unsafe.Pointer, 1<<10)
		ptrVals = make([]uint64, 1<<10)
	} else {
		clear(ptrKeys)
	}
	ptrN, ptrSeq = 0, 0
}

func ptrHash(p unsafe.Pointer) uint64 {
	z := uint64(uintptr(p))
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	return z ^ (z >> 27)
}

func regPtr(p unsafe.Pointer) {
	if !active || p == nil {
		return
	}
	if ptrN*2 >= len(ptrKeys) {
		ok, ov := ptrKeys, ptrVals
		ptrKeys = make([]unsafe.Pointer, 2*len(ok))
		ptrVals = make([]uint64, 2*len(ok))
		for i, k := range ok {
			if k != nil {
				putPtr(k, ov[i])
			}
		}
	}
	ptrSeq++
	if putPtr(p, ptrSeq) {
		ptrN++
	}
}

func putPtr(p unsafe.Pointer, v uint64) bool {
	m := uint64(len(ptrKeys) - 1)
	i := ptrHash(p) & m
	for ptrKeys[i] != nil {
		if ptrKeys[i] == p {
			ptrVals[i] = v
			return false
		}
		i = (i + 1) & m
	}
	ptrKeys[i], ptrVals[i] = p, v
	return true
}

func getPtr(p unsafe.Pointer) uint64 {
	m := uint64(len(ptrKeys) - 1)
	i := ptrHash(p) & m
	for ptrKeys[i] != nil {
		if ptrKeys[i] == p {
			return ptrVals[i]
		}
		i = (i + 1) & m
	}
	return 0
}

// Alloc notes the allocation order of p and returns it.
//
//go:norace
//go:noinline
func Alloc[T any](p *T) *T {
	var z T
	if unsafe.Sizeof(z) > 0 {
		regPtr(unsafe.Pointer(p))
	}
	return p
}

func put64(b []byte, v uint64) []byte {
	return append(b, byte(v>>56), byte(v>>48), byte(v>>40), byte(v>>32), byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

// fingerprint appends an order-preserving encoding of the value of type t at p.
func fingerprint(t reflect.Type, p unsafe.Pointer, b []byte, depth int) []byte {
	switch t.Kind() {
	case reflect.Bool:
		if *(*bool)(p) {
			return append(b, 1)
		}
		return append(b, 0)
	case reflect.Int8, reflect.Uint8:
		return append(b, *(*byte)(p)^signFlip8(t))
	case reflect.Int16:
		return put64(b, uint64(*(*int16)(p))^1<<63)
	case reflect.Uint16:
		return put64(b, uint64(*(*uint16)(p)))
	case reflect.Int32:
		return put64(b, uint64(int64(*(*int32)(p)))^1<<63)
	case reflect.Uint32:
		return put64(b, uint64(*(*uint32)(p)))
	case reflect.Int, reflect.Int64:
		return put64(b, uint64(*(*int64)(p))^1<<63)
	case reflect.Uint, reflect.Uint64, reflect.Uintptr:
		return put64(b, *(*uint64)(p))
	case reflect.Float32:
		return put64(b, floatKey(float64(*(*float32)(p))))
	case reflect.Float64:
		return put64(b, floatKey(*(*float64)(p)))
	case reflect.Complex128:
		c := *(*complex128)(p)
		return put64(put64(b, floatKey(real(c))), floatKey(imag(c)))
	case reflect.String:
		s := *(*string)(p)
		for i := 0; i < len(s); i++ {
			if s[i] == 0 {
				b = append(b, 0, 1)
			} else {
				b = append(b, s[i])
			}
		}
		return append(b, 0, 0)
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
		q := *(*unsafe.Pointer)(p)
		if q == nil {
			return append(b, 0)
		}
		if s := getPtr(q); s != 0 {
			return put64(append(b, 1), s)
		}
		b = append(b, 2)
		if t.Kind() == reflect.Ptr && depth < 2 {
			return fingerprint(t.Elem(), q, b, depth+1)
		}
		return b
	case reflect.Interface:
		type iface struct {
			tab  unsafe.Pointer
			data unsafe.Pointer
		}
		if (*iface)(p).tab == nil {
			return append(b, 0)
		}
		var dt reflect.Type
		var data unsafe.Pointer
		if t.NumMethod() == 0 {
			e := *(*any)(p)
			dt = reflect.TypeOf(e)
			data = (*iface)(p).data
		} else {
			dt = reflect.NewAt(t, p).Elem().Elem().Type()
			data = (*iface)(p).data
		}
		b = append(b, 1)
		b = append(b, dt.String()...)
		b = append(b, 0)
		switch dt.Kind() {
		case reflect.Ptr, reflect.Chan, reflect.UnsafePointer, reflect.Map, reflect.Func:
			return fingerprint(dt, unsafe.Pointer(&data), b, depth)
		}
		return fingerprint(dt, data, b, depth)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			b = fingerprint(f.Type, unsafe.Add(p, f.Offset), b, depth+1)
		}
		return b
	case reflect.Array:
		n := t.Len()
		es := t.Elem().Size()
		for i := 0; i < n; i++ {
			b = fingerprint(t.Elem(), unsafe.Add(p, uintptr(i)*es), b, depth+1)
		}
		return b
	}
	return b
}

func signFlip8(t reflect.Type) byte {
	if t.Kind() == reflect.Int8 {
		return 0x80
	}
	return 0
}

func floatKey(f float64) uint64 {
	u := math.Float64bits(f)
	if u>>63 != 0 {
		return ^u
	}
	return u | 1<<63
}

type keyOrder struct {
	fp  []string
	idx []int
}

func (k *keyOrder) Len() int           { return len(k.idx) }
func (k *keyOrder) Less(i, j int) bool { return k.fp[k.idx[i]] < k.fp[k.idx[j]] }
func (k *keyOrder) Swap(i, j int)      { k.idx[i], k.idx[j] = k.idx[j], k.idx[i] }

func orderOf(t reflect.Type, n int, at func(i int) unsafe.Pointer) []int {
	ko := &keyOrder{fp: make([]string, n), idx: make([]int, n)}
	for i := 0; i < n; i++ {
		ko.fp[i] = string(fingerprint(t, at(i), nil, 0))
		ko.idx[i] = i
	}
	sort.Sort(ko)
	for i := 1; i < n; i++ {
		if ko.fp[ko.idx[i]] == ko.fp[ko.idx[i-1]] && active {
			res.Weird++
			if cfg.Log {
				logf("WEIRD map order tie in %v", t)
			}
		}
	}
	if active && !killing && !ending && n > 1 {
		if s := EnvS.N(16); s > 0 {
			r := NewRng(uint64(s))
			for i := n - 1; i > 0; i-- {
				j := r.N(i + 1)
				ko.idx[i], ko.idx[j] = ko.idx[j], ko.idx[i]
			}
		}
	}
	return ko.idx
}

// MapIter iterates over a map in simulated order.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	K    K
	V    V
}

// Iter starts an iteration over m.
//
//go:norace
//go:noinline
func Iter[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) > 1 {
		idx := orderOf(reflect.TypeOf((*K)(nil)).Elem(), len(keys), func(i int) unsafe.Pointer { return unsafe.Pointer(&keys[i]) })
		it.keys = make([]K, len(keys))
		for i, j := range idx {
			it.keys[i] = keys[j]
		}
	} else {
		it.keys = keys
	}
	return it
}

// Next moves to the next key that is still in the map.
//
//go:norace
//go:noinline
func (it *MapIter[K, V]) Next() bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		if v, ok := it.m[k]; ok {
			it.K, it.V = k, v
			return true
		}
	}
	return false
}

// ZeroKV returns zero values of m's key and element types.
//
//go:norace
func ZeroKV[M ~map[K]V, K comparable, V any](m M) (k K, v V) { return }

// ZeroK returns a zero value of m's key type.
//
//go:norace
func ZeroK[M ~map[K]V, K comparable, V any](m M) (k K) { return }

// ZeroV returns a zero value of m's element type.
//
//go:norace
func ZeroV[M ~map[K]V, K comparable, V any](m M) (v V) { return }

// ZeroC returns a zero value of ch's element type.
//
//go:norace
func ZeroC[T any](ch <-chan T) (v T) { return }

// Zero resets a package-level variable.
//
//go:norace
func Zero[T any](p *T) {
	var z T
	*p = z
}

// MapsKeys is maps.Keys-like for harness code: ordered keys.
func SortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
