package engine

import (
	"reflect"
	"time"
	"unsafe"
)

// deepCopier copies object graphs including unexported fields. Pointers into the
// library's package variables keep their identity, as do functions, channels,
// errors and type descriptors.
type deepCopier struct {
	memo   map[memoKey]reflect.Value
	ranges []addrRange
}

type memoKey struct {
	p uintptr
	t reflect.Type
	c int
}

type addrRange struct{ lo, hi uintptr }

var errType = reflect.TypeOf((*error)(nil)).Elem()
var rtypeType = reflect.TypeOf(reflect.TypeOf(0))
var locType = reflect.TypeOf((*time.Location)(nil))

func newCopier() *deepCopier {
	return &deepCopier{memo: map[memoKey]reflect.Value{}, ranges: globalRanges}
}

var globalRanges []addrRange

func (d *deepCopier) inGlobals(p uintptr) bool {
	for _, r := range d.ranges {
		if p >= r.lo && p < r.hi {
			return true
		}
	}
	return false
}

var noPtrCache = map[reflect.Type]bool{}

func noPointers(t reflect.Type) bool {
	if v, ok := noPtrCache[t]; ok {
		return v
	}
	r := false
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128, reflect.String:
		r = true
	case reflect.Array:
		r = noPointers(t.Elem())
	case reflect.Struct:
		r = true
		for i := 0; i < t.NumField(); i++ {
			if !noPointers(t.Field(i).Type) {
				r = false
				break
			}
		}
	}
	noPtrCache[t] = r
	return r
}

// raw strips the read-only flag of a value obtained through an unexported field.
func raw(v reflect.Value) reflect.Value {
	if !v.CanAddr() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// copyInto copies src to dst; both must be addressable.
func (d *deepCopier) copyInto(dst, src reflect.Value) {
	dst, src = raw(dst), raw(src)
	t := src.Type()
	if noPointers(t) {
		dst.Set(src)
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			dst.Set(src)
			return
		}
		p := src.Pointer()
		if d.inGlobals(p) || t.Implements(errType) || t == rtypeType || t == locType {
			dst.Set(src)
			return
		}
		k := memoKey{p, t, 0}
		if n, ok := d.memo[k]; ok {
			dst.Set(n)
			return
		}
		n := reflect.New(t.Elem())
		d.memo[k] = n
		dst.Set(n)
		d.copyInto(n.Elem(), src.Elem())
	case reflect.Slice:
		if src.IsNil() {
			dst.Set(src)
			return
		}
		c := src.Cap()
		k := memoKey{src.Pointer(), t, c}
		if n, ok := d.memo[k]; ok {
			dst.Set(n.Slice(0, src.Len()))
			return
		}
		full := src.Slice3(0, c, c)
		n := reflect.MakeSlice(t, c, c)
		d.memo[k] = n
		if noPointers(t.Elem()) {
			reflect.Copy(n, full)
		} else {
			for i := 0; i < c; i++ {
				d.copyInto(n.Index(i), full.Index(i))
			}
		}
		dst.Set(n.Slice(0, src.Len()))
	case reflect.Map:
		if src.IsNil() {
			dst.Set(src)
			return
		}
		k := memoKey{src.Pointer(), t, 0}
		if n, ok := d.memo[k]; ok {
			dst.Set(n)
			return
		}
		n := reflect.MakeMapWithSize(t, src.Len())
		d.memo[k] = n
		it := src.MapRange()
		for it.Next() {
			kk := reflect.New(t.Key()).Elem()
			kk.Set(it.Key())
			k2 := reflect.New(t.Key()).Elem()
			d.copyInto(k2, kk)
			vv := reflect.New(t.Elem()).Elem()
			vv.Set(it.Value())
			v2 := reflect.New(t.Elem()).Elem()
			d.copyInto(v2, vv)
			n.SetMapIndex(k2, v2)
		}
		dst.Set(n)
	case reflect.Interface:
		if src.IsNil() {
			dst.Set(src)
			return
		}
		e := src.Elem()
		if e.Type().Implements(errType) || e.Type() == rtypeType {
			dst.Set(src)
			return
		}
		tmp := reflect.New(e.Type()).Elem()
		tmp.Set(e)
		n := reflect.New(e.Type()).Elem()
		d.copyInto(n, tmp)
		dst.Set(n)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			d.copyInto(dst.Field(i), src.Field(i))
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			d.copyInto(dst.Index(i), src.Index(i))
		}
	default:
		dst.Set(src)
	}
}

// DeepCopy copies an object graph. The result shares nothing mutable with x.
func DeepCopy[T any](x T) T {
	d := newCopier()
	var y T
	d.copyInto(reflect.ValueOf(&y).Elem(), reflect.ValueOf(&x).Elem())
	return y
}
