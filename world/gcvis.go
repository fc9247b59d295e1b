package world

import (
	"fmt"
	"reflect"
	"unsafe"

	"verif/sim/simrt"
)

// unscanned looks for a pointer, reachable from the message, that is stored in
// heap memory the collector does not scan: whatever it points to may be freed
// while the message is in use. It returns the path of the first one.
func unscanned(v reflect.Value, path string, depth int) string {
	if depth > 60 {
		return ""
	}
	bad := func(target unsafe.Pointer) bool {
		return v.CanAddr() && simrt.OnHeap(target) && simrt.Unscanned(v.Addr().UnsafePointer())
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return ""
		}
		if bad(v.UnsafePointer()) {
			return path
		}
		return unscanned(v.Elem(), path, depth+1)
	case reflect.Interface:
		if v.IsNil() {
			return ""
		}
		if v.CanAddr() && simrt.Unscanned(v.Addr().UnsafePointer()) {
			return path
		}
		return unscanned(v.Elem(), path, depth+1)
	case reflect.String:
		s := v.String()
		if len(s) > 0 && bad(unsafe.Pointer(unsafe.StringData(s))) {
			return path
		}
	case reflect.Slice:
		if v.Cap() > 0 && bad(v.UnsafePointer()) {
			return path
		}
		switch v.Type().Elem().Kind() {
		case reflect.Struct, reflect.Pointer, reflect.String, reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				if p := unscanned(v.Index(i), fmt.Sprintf("%s[%d]", path, i), depth+1); p != "" {
					return p
				}
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return ""
		}
		if bad(v.UnsafePointer()) {
			return path
		}
		it := v.MapRange()
		for it.Next() {
			if p := unscanned(it.Value(), path+"[]", depth+1); p != "" {
				return p
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if p := unscanned(v.Field(i), path+"."+v.Type().Field(i).Name, depth+1); p != "" {
				return p
			}
		}
	}
	return ""
}

func (t *thread) checkScanned(what, name string, p reflect.Value) {
	t.count("gc_visibility_checks")
	if path := unscanned(p.Elem(), "", 0); path != "" {
		t.fail("gc-invisible", "%s(%s): what %s points to is referred to only from memory the collector does not scan, it can be freed while the message is in use", what, name, path)
	}
}
