package main

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/henderiw/idxtable/verifmc/rt"
)

// Deep state snapshots: a canonical serialisation of everything reachable from a value, with pointers numbered in order
// of first visit and map entries sorted, so that two states serialise equally exactly when they have the same shape and
// contents. Slices include their capacity, because appending depends on it.

type snapper struct {
	b    []byte
	ptrs map[unsafe.Pointer]int
	mem  []memory
	caps bool
}

// memory is the memory of a slice met so far.
type memory struct {
	from, to uintptr
}

func (s *snapper) u(x uint64) { s.b = binary.AppendUvarint(s.b, x) }

func (s *snapper) val(v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		s.b = append(s.b, 'N')
	case reflect.Bool:
		if v.Bool() {
			s.b = append(s.b, 1)
		} else {
			s.b = append(s.b, 0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		s.b = binary.AppendVarint(s.b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		s.u(v.Uint())
	case reflect.Float32, reflect.Float64:
		s.b = append(s.b, fmt.Sprint(v.Float())...)
	case reflect.String:
		x := v.String()
		s.u(uint64(len(x)))
		s.b = append(s.b, x...)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsNil() {
			s.b = append(s.b, 'n')
		} else {
			s.b = append(s.b, 'f')
			s.u(uint64(v.Pointer()))
		}
	case reflect.Pointer:
		if v.IsNil() {
			s.b = append(s.b, 'n')
			return
		}
		p := v.UnsafePointer()
		if i, ok := s.ptrs[p]; ok {
			s.b = append(s.b, 'r')
			s.u(uint64(i))
			return
		}
		s.ptrs[p] = len(s.ptrs)
		s.b = append(s.b, 'p')
		s.val(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			s.b = append(s.b, 'n')
			return
		}
		s.b = append(s.b, 'i')
		e := v.Elem()
		t := e.Type().String()
		s.u(uint64(len(t)))
		s.b = append(s.b, t...)
		s.val(e)
	case reflect.Slice:
		if v.IsNil() {
			s.b = append(s.b, 'n')
			return
		}
		s.b = append(s.b, 's')
		s.u(uint64(v.Len()))
		if s.caps {
			s.u(uint64(v.Cap()))
		}
		if size := uintptr(v.Cap()) * v.Type().Elem().Size(); size > 0 && s.caps {
			// memory shared between slices, also behind their ends, is part of the state
			m := memory{from: uintptr(v.UnsafePointer())}
			m.to = m.from + size
			for i, o := range s.mem {
				if m.from < o.to && o.from < m.to {
					s.b = append(s.b, 'a')
					s.u(uint64(i))
					s.b = binary.AppendVarint(s.b, int64(m.from)-int64(o.from))
				}
			}
			s.mem = append(s.mem, m)
		}
		for i := 0; i < v.Len(); i++ {
			s.val(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s.val(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			s.val(v.Field(i))
		}
	case reflect.Map:
		if v.IsNil() {
			s.b = append(s.b, 'n')
			return
		}
		p := v.UnsafePointer()
		if i, ok := s.ptrs[p]; ok {
			s.b = append(s.b, 'r')
			s.u(uint64(i))
			return
		}
		s.ptrs[p] = len(s.ptrs)
		s.b = append(s.b, 'm')
		s.u(uint64(v.Len()))
		type kv struct {
			k string
			v reflect.Value
			e reflect.Value
		}
		var kvs []kv
		it := v.MapRange()
		for it.Next() {
			ks := &snapper{ptrs: map[unsafe.Pointer]int{}, caps: s.caps}
			if it.Key().Kind() == reflect.Uint64 {
				ks.b = binary.BigEndian.AppendUint64(ks.b, it.Key().Uint())
			} else {
				ks.val(it.Key())
			}
			kvs = append(kvs, kv{string(ks.b), it.Key(), it.Value()})
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
		for _, e := range kvs {
			s.u(uint64(len(e.k)))
			s.b = append(s.b, e.k...)
			s.val(e.e)
		}
	default:
		panic("snapshot: unsupported kind " + v.Kind().String())
	}
}

// Snap serialises the state reachable from sys and from the package-level variables of the code under test.
func Snap(sys any) string {
	s := &snapper{ptrs: map[unsafe.Pointer]int{}, caps: true}
	s.val(reflect.ValueOf(sys))
	if mutableGlobals {
		for _, g := range rt.Globals {
			s.val(reflect.ValueOf(g.Ptr).Elem())
		}
	}
	return string(s.b)
}

// Package-level variables: saved once at start, put back before every execution if an execution changed them.
var (
	globalsImage   string
	globalsSaved   []reflect.Value
	mutableGlobals bool
)

func globalsSnap() string {
	s := &snapper{ptrs: map[unsafe.Pointer]int{}, caps: true}
	for _, g := range rt.Globals {
		s.val(reflect.ValueOf(g.Ptr).Elem())
	}
	return string(s.b)
}

func saveGlobals() {
	globalsImage = globalsSnap()
	memo := map[unsafe.Pointer]reflect.Value{}
	for _, g := range rt.Globals {
		globalsSaved = append(globalsSaved, deepCopy(reflect.ValueOf(g.Ptr).Elem(), memo))
	}
}

// restoreGlobals puts the package-level variables back to their values at program start. The comparison is skipped as
// long as no execution was ever seen to change one (checked every so often and at the end of each exploration).
func restoreGlobals() {
	if len(rt.Globals) == 0 || !mutableGlobals {
		return
	}
	putGlobals()
}

func putGlobals() {
	memo := map[unsafe.Pointer]reflect.Value{}
	for i, g := range rt.Globals {
		dst := reflect.ValueOf(g.Ptr).Elem()
		dst.Set(deepCopy(globalsSaved[i], memo))
	}
}

// globalsChanged checks whether any package-level variable differs from its initial value and switches the explorer to
// tracking them when so.
func globalsChanged() bool {
	if len(rt.Globals) == 0 || globalsSnap() == globalsImage {
		return false
	}
	mutableGlobals = true
	return true
}

func exposed(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	return c
}

func deepCopy(v reflect.Value, memo map[unsafe.Pointer]reflect.Value) reflect.Value {
	t := v.Type()
	out := reflect.New(t).Elem()
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return out
		}
		p := v.UnsafePointer()
		if m, ok := memo[p]; ok && m.Type() == t {
			return m
		}
		n := reflect.New(t.Elem())
		memo[p] = n
		n.Elem().Set(deepCopy(exposed(v.Elem()), memo))
		if n.Type() != t {
			n = n.Convert(t)
		}
		return n
	case reflect.Interface:
		if v.IsNil() {
			return out
		}
		e := v.Elem()
		c := reflect.New(e.Type()).Elem()
		c.Set(e)
		out.Set(deepCopy(c, memo))
		return out
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		n := reflect.MakeSlice(t, v.Len(), v.Cap())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(exposed(v.Index(i)), memo))
		}
		return n
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(deepCopy(exposed(v.Index(i)), memo))
		}
		return out
	case reflect.Struct:
		tmp := exposed(v)
		for i := 0; i < tmp.NumField(); i++ {
			f := exposed(tmp.Field(i))
			exposed(out.Field(i)).Set(deepCopy(f, memo))
		}
		return out
	case reflect.Map:
		if v.IsNil() {
			return out
		}
		p := v.UnsafePointer()
		if m, ok := memo[p]; ok && m.Type() == t {
			return m
		}
		n := reflect.MakeMapWithSize(t, v.Len())
		memo[p] = n
		it := v.MapRange()
		for it.Next() {
			n.SetMapIndex(it.Key(), deepCopy(exposed(it.Value()), memo))
		}
		return n
	}
	out.Set(v)
	return out
}

func globalNames() string {
	var n []string
	for _, g := range rt.Globals {
		n = append(n, g.Name)
	}
	return strings.Join(n, " ")
}
