package world

import (
	"fmt"
	"maps"
	"reflect"

	"verif/bind"
	"verif/gentypes"
	"verif/pm"
)

// checkEnums compares the constants of generated enums with the schema.
func checkEnums(b *bind.Binder) {
	for name, vs := range gentypes.Enums {
		for _, v := range vs {
			rv := reflect.ValueOf(v.V)
			if rv.Kind() != reflect.Int32 {
				b.Problems = append(b.Problems, fmt.Sprintf("enum %s: constant %s has type %s", name, v.GoConst, rv.Type()))
				continue
			}
			if int32(rv.Int()) != v.Want {
				b.Problems = append(b.Problems, fmt.Sprintf("enum %s: constant %s is %d, the schema says %d", name, v.GoConst, rv.Int(), v.Want))
			}
			if s, ok := v.V.(fmt.Stringer); ok && v.Name != "" && s.String() != v.Name {
				b.Problems = append(b.Problems, fmt.Sprintf("enum %s: %s.String() is %q, the schema says %q", name, v.GoConst, s.String(), v.Name))
			}
		}
	}
}

// checkEnumMaps compares the maps of generated enums with the schema.
func checkEnumMaps(b *bind.Binder) {
	for name, m := range gentypes.EnumMaps {
		if !maps.Equal(m.Names, m.WantNames) {
			b.Problems = append(b.Problems, fmt.Sprintf("enum %s: the names by value are %v, the schema says %v", name, m.Names, m.WantNames))
		}
		if !maps.Equal(m.Values, m.WantValues) {
			b.Problems = append(b.Problems, fmt.Sprintf("enum %s: the values by name are %v, the schema says %v", name, m.Values, m.WantValues))
		}
	}
}

// getters checks the accessors of a generated type, if it has any: what they
// return for a filled, an empty and a nil message.
func (t *thread) getters(op Op, r *pm.Rng) {
	w := t.w
	s := w.shape(op)
	model := w.valueFor(s, r).Normalize()
	p := s.Build(model, r)
	for _, f := range s.M.Sorted() {
		fs := s.F[f.Num]
		if fs == nil {
			continue
		}
		name := s.T.Field(fs.Index).Name
		if fs.W != nil {
			name = fs.W.Field(0).Name
		}
		m := p.MethodByName("Get" + name)
		if !m.IsValid() || m.Type().NumIn() != 0 || m.Type().NumOut() != 1 {
			continue
		}
		var got, want, zero reflect.Value
		nilp := reflect.Zero(p.Type())
		ok := t.call("getter "+name, s, func() {
			got = m.Call(nil)[0]
			zero = nilp.MethodByName("Get" + name).Call(nil)[0]
		})
		if !ok {
			return
		}
		fv := p.Elem().Field(fs.Index)
		set := true
		if fs.W != nil {
			set = !fv.IsNil() && fv.Elem().Type() == reflect.PointerTo(fs.W)
			if set {
				fv = fv.Elem().Elem().Field(0)
			}
		} else if f.Kind != pm.Message_ && fv.Kind() == reflect.Pointer {
			set = !fv.IsNil()
			if set {
				fv = fv.Elem()
			}
		}
		want = reflect.Zero(got.Type())
		t.count("getter")
		if set {
			if !reflect.DeepEqual(snapVal(got), snapVal(fv)) {
				t.fail("getter", "%s.Get%s returns %v, the field holds %v", shapeName(s), name, got, fv)
				return
			}
		} else if f.Kind == pm.Enum {
			// the first constant or zero
			if got.Int() != zero.Int() {
				t.fail("getter", "%s.Get%s returns %v for an unset field, %v for a nil message", shapeName(s), name, got, zero)
				return
			}
		} else if !reflect.DeepEqual(snapVal(got), snapVal(want)) {
			t.fail("getter", "%s.Get%s returns %v, the field is unset", shapeName(s), name, got)
			return
		}
		if f.Kind != pm.Enum && !reflect.DeepEqual(snapVal(zero), snapVal(want)) {
			t.fail("getter", "%s.Get%s returns %v for a nil message", shapeName(s), name, zero)
			return
		}
	}
	if x, ok := p.Interface().(interface{ Reset() }); ok {
		if t.call("Reset", s, x.Reset) && !p.Elem().IsZero() {
			t.fail("getter", "%s is %v after Reset", shapeName(s), p.Elem())
		}
	}
}

// snapVal is what identifies a value: pointers, maps and slices by address.
func snapVal(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Pointer, reflect.Map:
		return v.Pointer()
	case reflect.Slice:
		return [2]uintptr{v.Pointer(), uintptr(v.Len())}
	case reflect.Float32, reflect.Float64:
		return fmt.Sprintf("%x", v.Float())
	case reflect.Struct:
		return fmt.Sprintf("%v", v)
	case reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return snapVal(v.Elem())
	}
	return v.Interface()
}
