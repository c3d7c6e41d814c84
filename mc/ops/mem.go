package ops

import (
	"fmt"
	"reflect"
	"sort"
	"time"
	"unsafe"
)

var timeType = reflect.TypeOf(time.Time{})
var locType = reflect.TypeOf(time.Location{})

type block struct {
	lo, hi uintptr
	owner  int
	what   string
}

// walk visits the memory a caller can reach, and write to, from v.
func walk(v reflect.Value, seen map[uintptr]bool, visit func(p uintptr, size uintptr, what string), leave func(reflect.Value)) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || v.Type().Elem() == locType {
			return
		}
		if v.Type().Elem().Size() == 0 {
			return
		}
		p := v.Pointer()
		if seen[p] && v.Type().Elem().Kind() == reflect.Struct {
			return
		}
		seen[p] = true
		visit(p, v.Type().Elem().Size(), v.Type().Elem().String())
		walk(v.Elem(), seen, visit, leave)
		leave(v.Elem())
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 || v.Type().Elem().Size() == 0 {
			return
		}
		visit(v.Pointer(), uintptr(v.Cap())*v.Type().Elem().Size(), v.Type().String())
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), seen, visit, leave)
			leave(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		visit(v.Pointer(), 1, v.Type().String())
	case reflect.Interface:
		if !v.IsNil() {
			walk(v.Elem(), seen, visit, leave)
		}
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			// a caller cannot write through an unexported pointer
			if v.Type().Field(i).PkgPath == "" {
				walk(v.Field(i), seen, visit, leave)
			}
		}
	}
}

// Shared reports memory that can be reached from the roots of two different results, or "".
func Shared(rs []Result) string {
	var bs []block
	for i, r := range rs {
		for _, root := range r.Roots {
			walk(reflect.ValueOf(root), map[uintptr]bool{}, func(p, size uintptr, what string) {
				bs = append(bs, block{p, p + size, i, what})
			}, func(reflect.Value) {})
		}
	}
	sort.Slice(bs, func(a, b int) bool { return bs[a].lo < bs[b].lo })
	// a block may lie inside another of the same owner: keep, per owner, what reaches farthest
	far := map[int]block{}
	for _, b := range bs {
		for o, f := range far {
			if o != b.owner && f.hi > b.lo {
				return fmt.Sprintf("results %d and %d share a %s (or %s)", o, b.owner, b.what, f.what)
			}
		}
		if f, ok := far[b.owner]; !ok || b.hi > f.hi {
			far[b.owner] = b
		}
	}
	return ""
}

// Scribble overwrites everything a caller can reach from the result.
func Scribble(r Result) {
	for _, root := range r.Roots {
		v := reflect.ValueOf(root)
		walk(v, map[uintptr]bool{}, func(uintptr, uintptr, string) {}, spoil)
	}
}

// spoil changes a value in place, keeping pointers (what they point to has been spoiled).
func spoil(v reflect.Value) {
	if !v.CanAddr() {
		return
	}
	if !v.CanSet() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() ^ 0x55)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(v.Uint() ^ 0x55)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(v.Float() + 55)
	case reflect.String:
		v.SetString(v.String() + "!")
	case reflect.Struct:
		if v.Type() == timeType {
			v.Set(reflect.ValueOf(time.Unix(55, 55).In(time.FixedZone("spoilt", 5500))))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			spoil(v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			spoil(v.Index(i))
		}
	case reflect.Map:
		if !v.IsNil() {
			for _, k := range v.MapKeys() {
				v.SetMapIndex(k, reflect.Value{})
			}
		}
	}
}

// Detach sets every pointer of a result's structures to nil, as a caller might.
func Detach(r Result) {
	for _, root := range r.Roots {
		walk(reflect.ValueOf(root), map[uintptr]bool{}, func(uintptr, uintptr, string) {}, func(v reflect.Value) {
			if v.Kind() != reflect.Struct || v.Type() == timeType {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				if f := v.Field(i); f.Kind() == reflect.Ptr && f.CanSet() {
					f.Set(reflect.Zero(f.Type()))
				}
			}
		})
	}
}
