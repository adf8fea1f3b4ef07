package drv

import (
	"reflect"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Walk visits everything reachable from an object and returns the memory of every block that is not
// made of pointers only, and whether out is still referred to. Slices are read up to their capacity.
func Walk(root, out interface{}) ([]string, bool) {
	w := &walk{seen: map[walkKey]bool{}, blocks: map[string]bool{}, out: reflect.ValueOf(out).Pointer()}
	w.value(reflect.ValueOf(root), 0)
	res := []string{}
	for b := range w.blocks {
		res = append(res, b)
	}
	sort.Strings(res)
	return res, w.ref
}

type walkKey struct {
	p uintptr
	t reflect.Type
}

type walk struct {
	seen   map[walkKey]bool
	blocks map[string]bool
	out    uintptr
	ref    bool
}

func (w *walk) bytes(p unsafe.Pointer, n uintptr) {
	if n < 16 || n > 1<<20 {
		return
	}
	b := make([]byte, n)
	copy(b, (*[1 << 20]byte)(p)[:n:n])
	h := Hex(b)
	if strings.Trim(h, "0") != "" {
		w.blocks[h] = true
	}
}

var timerType = reflect.TypeOf(time.Timer{})

func (w *walk) value(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 60 {
		return
	}
	t := v.Type()
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.Pointer() == w.out {
			w.ref = true
		}
		k := walkKey{v.Pointer(), t}
		if w.seen[k] || t.Elem() == timerType {
			return
		}
		w.seen[k] = true
		w.bytes(unsafe.Pointer(v.Pointer()), t.Elem().Size())
		w.value(v.Elem(), depth+1)
	case reflect.Interface:
		if !v.IsNil() {
			e := v.Elem()
			if e.Kind() != reflect.Ptr { // a boxed value: copy it to read its bytes
				c := reflect.New(e.Type())
				if !e.CanInterface() {
					e = readable(e)
				}
				if e.IsValid() && e.CanInterface() {
					c.Elem().Set(e)
					w.value(c, depth+1)
				}
				return
			}
			w.value(e, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.CanAddr() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			w.value(f, depth+1)
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		k := walkKey{v.Pointer(), t}
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		w.bytes(unsafe.Pointer(v.Pointer()), uintptr(v.Cap())*t.Elem().Size())
		full := v
		if v.CanSet() || v.CanAddr() {
			full = v.Slice(0, v.Cap())
		}
		for i := 0; i < full.Len(); i++ {
			w.value(full.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			w.value(v.Index(i), depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := walkKey{v.Pointer(), t}
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		it := v.MapRange()
		for it.Next() {
			for _, x := range []reflect.Value{it.Key(), it.Value()} {
				if x.Kind() == reflect.Ptr || x.Kind() == reflect.Interface || x.Kind() == reflect.Slice || x.Kind() == reflect.Map {
					w.value(x, depth+1)
					continue
				}
				c := reflect.New(x.Type())
				c.Elem().Set(x)
				w.value(c, depth+1)
			}
		}
	case reflect.String:
		s := v.String()
		if len(s) >= 16 {
			w.blocks[Hex([]byte(s))] = true
		}
	}
}

func readable(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return reflect.Value{}
}
