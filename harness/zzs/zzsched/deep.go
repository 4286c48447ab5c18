package zzsched

import (
	"reflect"
	"strings"
	"unsafe"
)

const modPath = "github.com/fakeyanss/jt808-server-go/"

// Read is Pass for functions that surely read it at once.
func Read[T any](site uint32, v T) T {
	Point(site, func(r *Rec) {
		defer func() { recover() }()
		d := deep{t: r.t, seen: map[uintptr]bool{}, read: true}
		d.walk(reflect.ValueOf(&v).Elem(), 0)
	})
	return v
}

// MapAcc announces an access to the map m.
func MapAcc[M any](site uint32, write bool, m M) M {
	Point(site, func(r *Rec) {
		f := func() unsafe.Pointer { return Word(m) }
		r.pend(f, write)
		r.note(f, write)
	})
	return m
}

// Pass announces that a library function is about to read everything v leads to.
func Pass[T any](site uint32, v T) T {
	Point(site, func(r *Rec) {
		defer func() { recover() }()
		d := deep{t: r.t, seen: map[uintptr]bool{}}
		d.walk(reflect.ValueOf(&v).Elem(), 0)
	})
	return v
}

type deep struct {
	t    *Thread
	seen map[uintptr]bool
	n    int
	read bool
}

func (d *deep) walk(v reflect.Value, depth int) {
	if d.n++; depth > 12 || d.n > 5000 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && !d.seen[v.Pointer()] {
			d.seen[v.Pointer()] = true
			d.walk(v.Elem(), depth+1)
		}
	case reflect.Interface:
		if !v.IsNil() {
			d.walk(v.Elem(), depth+1)
		}
	case reflect.Slice:
		if v.Len() == 0 {
			return
		}
		record(d.t, v.Pointer(), false, true)
		switch v.Type().Elem().Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Struct, reflect.Map, reflect.Slice:
			for i := 0; i < v.Len() && i < 300; i++ {
				d.walk(v.Index(i), depth+1)
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		record(d.t, v.Pointer(), false, true)
		for it := v.MapRange(); it.Next(); {
			d.walk(it.Value(), depth+1)
		}
	case reflect.Struct:
		p := v.Type().PkgPath()
		if p != "" && (!strings.HasPrefix(p, modPath) || strings.Contains(p, "zzverif")) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanAddr() {
				record(d.t, f.UnsafeAddr(), false, true)
				if k, sf := f.Kind(), v.Type().Field(i); d.read && (k == reflect.String || k == reflect.Slice) && sf.IsExported() && sf.Tag.Get("json") != "-" {
					d.t.pend = append(d.t.pend, pending{f.UnsafeAddr(), false, true})
				}
				d.walk(f, depth+1)
			} else {
				d.walk(f, depth+1)
			}
		}
	}
}
