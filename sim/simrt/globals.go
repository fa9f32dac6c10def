package simrt

import (
	"reflect"
	"sort"
	"unsafe"
)

// Package level variables of the code under test are registered here by
// generated code. Snapshot records their initial state and Reset restores it,
// so that every run of a process starts from the same package state.

type global struct {
	name string
	ptr  reflect.Value // *T
}

var globals []global

// Global registers a package level variable.
func Global(name string, p any) { globals = append(globals, global{name, reflect.ValueOf(p)}) }

var restores []func()

// Snapshot records the state to which Reset returns.
func Snapshot() {
	sort.Slice(globals, func(i, j int) bool { return globals[i].name < globals[j].name })
	seen := map[unsafe.Pointer]bool{}
	for _, g := range globals {
		snap(g.ptr.Elem(), seen, 0)
	}
}

// Reset restores the package state recorded by Snapshot.
func Reset() {
	for _, f := range restores {
		f()
	}
}

// snap records v (addressable) and what it owns: memory behind pointers, map
// entries and slice elements. Interfaces, functions and channels are recorded
// as they are.
func snap(v reflect.Value, seen map[unsafe.Pointer]bool, depth int) {
	if depth > 6 || v.Type().Size() == 0 {
		return
	}
	addr := unsafe.Pointer(v.UnsafeAddr())
	if depth == 0 || !seen[addr] {
		seen[addr] = true
		w := reflect.NewAt(v.Type(), addr).Elem()
		saved := reflect.New(v.Type()).Elem()
		saved.Set(w)
		restores = append(restores, func() { w.Set(saved) })
	}
	deep(v, seen, depth)
}

func deep(v reflect.Value, seen map[unsafe.Pointer]bool, depth int) {
	if depth > 6 {
		return
	}
	addr := unsafe.Pointer(v.UnsafeAddr())
	w := reflect.NewAt(v.Type(), addr).Elem()
	switch v.Kind() {
	case reflect.Pointer:
		if w.IsNil() || seen[w.UnsafePointer()] {
			return
		}
		switch w.Type().Elem().Kind() {
		case reflect.Struct, reflect.Map, reflect.Slice, reflect.Array, reflect.Pointer,
			reflect.Bool, reflect.Int, reflect.Int64, reflect.Int32, reflect.Uint32, reflect.Uint64, reflect.String, reflect.UnsafePointer:
			snap(w.Elem(), seen, depth+1)
		}
	case reflect.Map:
		if w.IsNil() {
			return
		}
		if seen[w.UnsafePointer()] {
			return
		}
		seen[w.UnsafePointer()] = true
		m := w
		type kv struct{ k, v reflect.Value }
		var kvs []kv
		it := m.MapRange()
		for it.Next() {
			k := reflect.New(m.Type().Key()).Elem()
			k.SetIterKey(it)
			x := reflect.New(m.Type().Elem()).Elem()
			x.SetIterValue(it)
			kvs = append(kvs, kv{k, x})
		}
		mv := reflect.New(m.Type()).Elem()
		mv.Set(m)
		restores = append(restores, func() {
			mv.Clear()
			for _, e := range kvs {
				mv.SetMapIndex(e.k, e.v)
			}
		})
	case reflect.Slice:
		if w.IsNil() || w.Len() == 0 {
			return
		}
		switch w.Type().Elem().Kind() {
		case reflect.Func, reflect.Chan:
			return
		}
		saved := reflect.MakeSlice(w.Type(), w.Len(), w.Len())
		reflect.Copy(saved, w)
		live := reflect.New(w.Type()).Elem()
		live.Set(w)
		restores = append(restores, func() { reflect.Copy(live, saved) })
		if k := w.Type().Elem().Kind(); (k == reflect.Pointer || k == reflect.Struct || k == reflect.Slice || k == reflect.Map) && w.Len() <= 4096 {
			for i := 0; i < w.Len(); i++ {
				deep(w.Index(i), seen, depth+1)
			}
		}
	case reflect.Array:
		if v.Len() <= 4096 {
			switch v.Type().Elem().Kind() {
			case reflect.Pointer, reflect.Struct, reflect.Slice, reflect.Map:
				for i := 0; i < v.Len(); i++ {
					deep(w.Index(i), seen, depth+1)
				}
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Type().Size() == 0 {
				continue
			}
			deep(f, seen, depth+1)
		}
	}
}
