package dst

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
)

func runtimeGoexit() { runtime.Goexit() }

// Iter walks a map in an order drawn from the run's seed (sorted when the run
// asks for it). Entries removed during the walk are skipped, as in Go.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	Ok   bool
}

// MapRange starts a map walk.
func MapRange[M ~map[K]V, K comparable, V any](m M) *Iter[K, V] {
	it := &Iter[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	if r := mapOrder(len(m)); r != 0 {
		for i := len(it.keys) - 1; i > 0; i-- {
			r = mix(r)
			j := int(r % uint64(i+1))
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return it
}

// mapOrder draws the order of a map walk; 0 means sorted. It is not generic, so
// that it is not compiled into a package that carries the race detector.
func mapOrder(n int) uint64 {
	if s == nil || s.cfg.MapSeed == 0 {
		return 0
	}
	s.mapCtr++
	return mix(s.cfg.MapSeed^s.mapCtr<<20^uint64(n)) | 1
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	}
	if len(keys) == 0 {
		return
	}
	switch reflect.TypeOf(keys[0]) {
	}
	rv := make([]string, len(keys))
	idx := make([]int, len(keys))
	for i := range keys {
		v := reflect.ValueOf(keys[i])
		switch v.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			rv[i] = fmt.Sprintf("%020d", uint64(v.Int())^(1<<63))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			rv[i] = fmt.Sprintf("%020d", v.Uint())
		case reflect.String:
			rv[i] = v.String()
		default:
			rv[i] = fmt.Sprintf("%v", keys[i])
		}
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return rv[idx[a]] < rv[idx[b]] })
	out := make([]K, len(keys))
	for i, j := range idx {
		out[i] = keys[j]
	}
	copy(keys, out)
}

func (it *Iter[K, V]) step() (k K, v V) {
	for it.i < len(it.keys) {
		k = it.keys[it.i]
		it.i++
		if x, ok := it.m[k]; ok {
			it.Ok = true
			return k, x
		}
	}
	it.Ok = false
	var zk K
	var zv V
	return zk, zv
}

// Next returns the next entry; Ok tells whether there was one.
func (it *Iter[K, V]) Next() (K, V) { return it.step() }

// NextK returns the next key.
func (it *Iter[K, V]) NextK() K { k, _ := it.step(); return k }

// NextV returns the next value.
func (it *Iter[K, V]) NextV() V { _, v := it.step(); return v }
