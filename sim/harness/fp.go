package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// fper hashes the content of a value reached by any pointers, independently of
// the library (no method of the value is called).
type fper struct {
	h    uint64
	seen map[uintptr]uint64
	n    int
}

func fp(v interface{}) uint64 {
	f := &fper{h: 14695981039346656037}
	f.val(reflect.ValueOf(v))
	return f.h
}

func (f *fper) u(x uint64) {
	f.h = (f.h ^ x) * 1099511628211
	f.h ^= f.h >> 29
}

func (f *fper) s(x string) {
	for i := 0; i < len(x); i++ {
		f.h = (f.h ^ uint64(x[i])) * 1099511628211
	}
	f.u(uint64(len(x)) + 1<<32)
}

func (f *fper) val(v reflect.Value) {
	if !v.IsValid() {
		f.u(1)
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			f.u(2)
			return
		}
		f.s(v.Type().Elem().Name())
		p := v.Pointer()
		if f.seen == nil {
			f.seen = map[uintptr]uint64{}
		}
		// Only the path from the root matters: a pointer met again inside
		// itself is a cycle.
		if f.seen[p] != 0 {
			f.u(3)
			return
		}
		f.seen[p] = 1
		f.val(v.Elem())
		f.seen[p] = 0
	case reflect.Interface:
		if v.IsNil() {
			f.u(4)
			return
		}
		f.s(v.Elem().Type().String())
		f.val(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f.val(v.Field(i))
		}
	case reflect.Slice:
		if v.IsNil() {
			f.u(5)
		}
		f.u(uint64(v.Len()) + 1<<33)
		if v.Type().Elem().Kind() == reflect.Uint8 {
			f.s(string(v.Bytes()))
			return
		}
		for i := 0; i < v.Len(); i++ {
			f.val(v.Index(i))
		}
	case reflect.String:
		f.s(v.String())
	case reflect.Bool:
		if v.Bool() {
			f.u(7)
		} else {
			f.u(8)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		f.u(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		f.u(v.Uint())
	default:
		f.s(v.Type().String())
	}
}

// show renders a value for a report, independently of the library.
func show(v interface{}) string {
	var sb strings.Builder
	showVal(&sb, reflect.ValueOf(v), 0)
	s := sb.String()
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

func showVal(sb *strings.Builder, v reflect.Value, d int) {
	if sb.Len() > 3000 || d > 24 {
		return
	}
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		showVal(sb, v.Elem(), d+1)
	case reflect.Struct:
		sb.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			if !v.Field(i).IsZero() {
				sb.WriteString(v.Type().Field(i).Name + ":")
				showVal(sb, v.Field(i), d+1)
				sb.WriteString(" ")
			}
		}
		sb.WriteString("}")
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			sb.WriteString(strconv.Quote(string(v.Bytes())))
			return
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			showVal(sb, v.Index(i), d+1)
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	case reflect.String:
		sb.WriteString(strconv.Quote(v.String()))
	case reflect.Bool, reflect.Int, reflect.Int64, reflect.Int32:
		fmt.Fprint(sb, v)
	default:
		sb.WriteString(v.Kind().String())
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
