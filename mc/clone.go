package main

// Copies of compiled paths that share nothing with each other: every schedule
// starts from a path that was never evaluated, without the cost of Parse.

import (
	"reflect"
	"unsafe"

	gj "github.com/bserdar/gojsonpath"
)

type cloner struct {
	seen map[ptrKey]reflect.Value
	bad  bool
}

type ptrKey struct {
	p uintptr
	t reflect.Type
}

func access(v reflect.Value) reflect.Value {
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// copyTo copies src to dst; both are addressable
func (c *cloner) copyTo(dst, src reflect.Value) {
	switch src.Kind() {
	case reflect.Pointer:
		if src.IsNil() {
			return
		}
		dst.Set(c.pointer(src))
	case reflect.Interface:
		if src.IsNil() {
			return
		}
		e := src.Elem()
		from := reflect.New(e.Type()).Elem()
		from.Set(e)
		to := reflect.New(e.Type()).Elem()
		c.copyTo(to, from)
		dst.Set(to)
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		n, k := src.Len(), src.Cap()
		s := reflect.MakeSlice(src.Type(), k, k)
		full := src.Slice3(0, k, k)
		for i := 0; i < k; i++ {
			c.copyTo(access(s.Index(i)), access(full.Index(i)))
		}
		dst.Set(s.Slice3(0, n, k))
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			c.copyTo(access(dst.Index(i)), access(src.Index(i)))
		}
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			c.copyTo(access(dst.Field(i)), access(src.Field(i)))
		}
	case reflect.Map:
		if src.IsNil() {
			return
		}
		m := reflect.MakeMap(src.Type())
		for it := src.MapRange(); it.Next(); {
			v := reflect.New(src.Type().Elem()).Elem()
			v.Set(it.Value())
			w := reflect.New(src.Type().Elem()).Elem()
			c.copyTo(w, v)
			m.SetMapIndex(it.Key(), w)
		}
		dst.Set(m)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		// What they refer to would be shared
		if !src.IsNil() {
			c.bad = true
		}
	default:
		dst.Set(src)
	}
}

func (c *cloner) pointer(src reflect.Value) reflect.Value {
	k := ptrKey{src.Pointer(), src.Type()}
	if v, ok := c.seen[k]; ok {
		return v
	}
	n := reflect.New(src.Type().Elem())
	c.seen[k] = n
	c.copyTo(n.Elem(), src.Elem())
	return n
}

// clonePath copies a compiled path; false if it cannot be copied
func clonePath(p *gj.Path) (q gj.Path, ok bool) {
	c := cloner{seen: map[ptrKey]reflect.Value{}}
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	c.copyTo(reflect.ValueOf(&q).Elem(), reflect.ValueOf(p).Elem())
	return q, !c.bad
}
