package main

import (
	"bytes"
	"reflect"
	"unsafe"
)

// raw is a copy of all memory a value consists of, for a fast check that
// nothing in it was touched.
type raw struct {
	regions []region
	keep    interface{}
}

type region struct {
	p    unsafe.Pointer
	n    uintptr
	copy []byte
}

func rawOf(v interface{}) *raw {
	r := &raw{keep: v}
	r.val(reflect.ValueOf(v), map[unsafe.Pointer]bool{})
	return r
}

func mem(p unsafe.Pointer, n uintptr) []byte { return unsafe.Slice((*byte)(p), int(n)) }

func (r *raw) add(p unsafe.Pointer, n uintptr) {
	if n > 0 {
		r.regions = append(r.regions, region{p, n, append([]byte(nil), mem(p, n)...)})
	}
}

func (r *raw) val(v reflect.Value, seen map[unsafe.Pointer]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		p := v.UnsafePointer()
		if p == nil || seen[p] {
			return
		}
		seen[p] = true
		r.add(p, v.Type().Elem().Size())
		r.val(v.Elem(), seen)
	case reflect.Interface:
		if !v.IsNil() {
			r.val(v.Elem(), seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.val(v.Field(i), seen)
		}
	case reflect.Slice:
		if v.Len() > 0 {
			r.add(v.UnsafePointer(), v.Type().Elem().Size()*uintptr(v.Len()))
		}
		for i := 0; i < v.Len(); i++ {
			r.val(v.Index(i), seen)
		}
	}
}

func (r *raw) same() bool {
	for i := range r.regions {
		g := &r.regions[i]
		if !bytes.Equal(mem(g.p, g.n), g.copy) {
			return false
		}
	}
	return true
}
