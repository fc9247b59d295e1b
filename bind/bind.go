// Package bind connects reference-model messages (package pm) with Go message
// structs as users of the library write or generate them.
package bind

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"verif/pm"
)

// FShape is one field of a Go message struct.
type FShape struct {
	F     *pm.Field
	Index int          // field index in the struct
	W     reflect.Type // oneof wrapper struct
	Sub   *Shape       // message type
}

// Shape is a bound message type.
type Shape struct {
	M      *pm.Message
	T      reflect.Type
	F      map[int32]*FShape
	nums   []int32
	unkOff uintptr
	unk    pm.UnkMode
	guards []guard
}

// guard is memory of a message struct which belongs to no message field.
type guard struct {
	name      string
	off, size uintptr
}

const guardByte = 0xa5

// arm fills the guards of a struct.
func (s *Shape) arm(v reflect.Value) {
	for _, g := range s.guards {
		b := unsafe.Slice((*byte)(unsafe.Add(addr(v), g.off)), g.size)
		for i := range b {
			b[i] = guardByte
		}
	}
}

// inspect reports a guard that is neither as filled nor zero.
func (s *Shape) inspect(v reflect.Value) string {
	for _, g := range s.guards {
		b := unsafe.Slice((*byte)(unsafe.Add(addr(v), g.off)), g.size)
		for i := range b {
			if b[i] != 0 && b[i] != guardByte || b[i] != b[0] {
				return fmt.Sprintf("the struct field %s, which is no message field, was overwritten: %x", g.name, b)
			}
		}
	}
	return ""
}

func tagNum(tag string) int32 {
	for _, s := range strings.Split(tag, ",") {
		if n, err := strconv.Atoi(s); err == nil {
			return int32(n)
		}
	}
	return -1
}

// Binder resolves message types by schema.
type Binder struct {
	Lookup   func(m *pm.Message) (reflect.Type, []reflect.Type) // Go struct and its oneof wrapper structs
	shapes   map[*pm.Message]*Shape
	Problems []string
}

func NewBinder(lookup func(m *pm.Message) (reflect.Type, []reflect.Type)) *Binder {
	return &Binder{Lookup: lookup, shapes: map[*pm.Message]*Shape{}}
}

func (b *Binder) problem(f string, a ...any) { b.Problems = append(b.Problems, fmt.Sprintf(f, a...)) }

// Shape binds m (and everything it refers to).
func (b *Binder) Shape(m *pm.Message) *Shape {
	if s := b.shapes[m]; s != nil {
		return s
	}
	t, ws := b.Lookup(m)
	if t == nil {
		b.problem("message %s: no Go type", m.Name)
		return nil
	}
	s := &Shape{M: m, T: t, F: map[int32]*FShape{}}
	b.shapes[m] = s
	byNum := map[int32]int{}
	byOneof := map[string]int{}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if tag := f.Tag.Get("protobuf"); tag != "" {
			if _, twice := byNum[tagNum(tag)]; !twice {
				byNum[tagNum(tag)] = i
			}
		} else if f.Tag.Get("protobuf_oneof") != "" {
			byOneof[f.Name] = i
		}
		bt := reflect.TypeOf([]byte(nil))
		if strings.HasPrefix(f.Name, "guard") {
			s.guards = append(s.guards, guard{f.Name, f.Offset, f.Type.Size()})
		}
		switch {
		case f.Name == "unknownFields" && f.Type == bt:
			s.unk, s.unkOff = pm.UnkBytes, f.Offset
		case f.Name == "XXX_unrecognized" && f.Type == bt && s.unk == pm.UnkNone:
			s.unk, s.unkOff = pm.UnkXXX, f.Offset
		case f.Name == "unknownFields" && f.Type == reflect.PointerTo(bt):
			s.unk, s.unkOff = pm.UnkPtr, f.Offset
		}
	}
	if (s.unk == pm.UnkNone) != (m.Unk == pm.UnkNone) {
		b.problem("message %s: unknown-field storage %d, schema says %d", m.Name, s.unk, m.Unk)
	}
	for _, f := range m.Fields {
		if f.Bad != "" {
			continue
		}
		fs := &FShape{F: f, Index: -1}
		if f.Card == pm.Oneof {
			for _, w := range ws {
				if w.NumField() == 1 && tagNum(w.Field(0).Tag.Get("protobuf")) == f.Num {
					fs.W = w
				}
			}
			if fs.W == nil {
				b.problem("message %s: oneof member %s (#%d) has no wrapper type", m.Name, f.Name, f.Num)
				continue
			}
			for _, i := range byOneof {
				if reflect.PointerTo(fs.W).Implements(t.Field(i).Type) {
					fs.Index = i
				}
			}
			if fs.Index < 0 {
				b.problem("message %s: oneof member %s fits no oneof field", m.Name, f.Name)
				continue
			}
		} else {
			i, ok := byNum[f.Num]
			if !ok {
				b.problem("message %s: field %s (#%d) has no Go field", m.Name, f.Name, f.Num)
				continue
			}
			fs.Index = i
		}
		s.F[f.Num] = fs
		s.nums = append(s.nums, f.Num)
		if f.Kind == pm.Message_ {
			fs.Sub = b.Shape(f.Msg)
			if fs.Sub == nil {
				delete(s.F, f.Num)
				s.nums = s.nums[:len(s.nums)-1]
				continue
			}
		}
		if e := fs.checkType(t); e != "" {
			b.problem("message %s field %s (#%d, %s): %s", m.Name, f.Name, f.Num, f, e)
			delete(s.F, f.Num)
			s.nums = s.nums[:len(s.nums)-1]
		}
	}
	sort.Slice(s.nums, func(i, j int) bool { return s.nums[i] < s.nums[j] })
	return s
}

func scalarKindOK(k pm.Kind, t reflect.Type) bool {
	switch k.GoType() {
	case "int32":
		return t.Kind() == reflect.Int32
	case "int64":
		return t.Kind() == reflect.Int64
	case "uint32":
		return t.Kind() == reflect.Uint32
	case "uint64":
		return t.Kind() == reflect.Uint64
	case "float32":
		return t.Kind() == reflect.Float32
	case "float64":
		return t.Kind() == reflect.Float64
	case "bool":
		return t.Kind() == reflect.Bool
	case "string":
		return t.Kind() == reflect.String
	case "[]byte":
		return t == reflect.TypeOf([]byte(nil))
	}
	return false
}

func (fs *FShape) checkType(st reflect.Type) string {
	f := fs.F
	t := st.Field(fs.Index).Type
	if f.Card == pm.Oneof {
		t = fs.W.Field(0).Type
	}
	bad := func() string { return fmt.Sprintf("Go type %s does not fit", t) }
	elem := t
	switch {
	case f.Card == pm.Map:
		if t.Kind() != reflect.Map || !scalarKindOK(f.Key, t.Key()) {
			return bad()
		}
		elem = t.Elem()
	case f.IsList():
		if t.Kind() != reflect.Slice {
			return bad()
		}
		elem = t.Elem()
	}
	if f.Kind == pm.Message_ {
		if elem.Kind() == reflect.Pointer && elem.Elem() == fs.Sub.T {
			f.NoPtr = false
			return ""
		}
		if elem == fs.Sub.T {
			if !f.NoPtr {
				return "message held by value" // the schema model must say so
			}
			return ""
		}
		return bad()
	}
	if f.Card == pm.Optional || f.Card == pm.Required {
		if f.Kind == pm.Bytes && !f.Ptr {
			if scalarKindOK(f.Kind, elem) {
				return ""
			}
			return bad()
		}
		if elem.Kind() != reflect.Pointer || !scalarKindOK(f.Kind, elem.Elem()) {
			return bad()
		}
		return ""
	}
	if !scalarKindOK(f.Kind, elem) {
		return bad()
	}
	return ""
}

// New returns a pointer to a zero struct.
func (s *Shape) New() reflect.Value {
	p := reflect.New(s.T)
	s.arm(p.Elem())
	return p
}

// ---- building --------------------------------------------------------------

// addr gives access to an addressable value, also of unexported fields.
func addr(v reflect.Value) unsafe.Pointer { return v.Addr().UnsafePointer() }

func setScalar(k pm.Kind, p unsafe.Pointer, v pm.Val) {
	switch k {
	case pm.String:
		*(*string)(p) = string(v.B)
	case pm.Bytes:
		if v.B == nil {
			*(*[]byte)(p) = nil
		} else {
			*(*[]byte)(p) = append([]byte{}, v.B...)
		}
	case pm.Bool:
		*(*byte)(p) = byte(v.U)
	case pm.Int64, pm.Uint64, pm.Sint64, pm.Fixed64, pm.Sfixed64, pm.Double:
		*(*uint64)(p) = v.U
	default:
		*(*uint32)(p) = uint32(v.U)
	}
}

func getScalar(k pm.Kind, p unsafe.Pointer) pm.Val {
	switch k {
	case pm.String:
		return pm.Val{B: []byte(*(*string)(p))}
	case pm.Bytes:
		b := *(*[]byte)(p)
		if b == nil {
			return pm.Val{}
		}
		return pm.Val{B: append([]byte{}, b...)}
	case pm.Bool:
		return pm.Val{U: uint64(*(*byte)(p))}
	case pm.Int64, pm.Uint64, pm.Sint64, pm.Fixed64, pm.Sfixed64, pm.Double:
		return pm.Val{U: *(*uint64)(p)}
	case pm.Int32, pm.Sint32, pm.Sfixed32, pm.Enum:
		return pm.Val{U: uint64(int64(*(*int32)(p)))}
	}
	return pm.Val{U: uint64(*(*uint32)(p))}
}

// Build makes a Go message equal to m. With a generator, it varies what the
// value does not determine (nil or empty, spare capacity, nil list elements).
func (s *Shape) Build(m *pm.Msg, r *pm.Rng) reflect.Value {
	v := s.New()
	s.Fill(v.Elem(), m, r)
	return v
}

func chance(r *pm.Rng, p float64) bool { return r != nil && r.P(p) }

func (s *Shape) setElem(fs *FShape, dst reflect.Value, v pm.Val, r *pm.Rng) {
	if fs.F.Kind != pm.Message_ {
		setScalar(fs.F.Kind, addr(dst), v)
		return
	}
	if dst.Kind() == reflect.Pointer {
		if (v.M == nil || len(v.M.F) == 0 && len(v.M.Unk) == 0) && chance(r, 0.4) {
			return // a nil element stands for an empty message
		}
		p := fs.Sub.New()
		if v.M != nil {
			fs.Sub.Fill(p.Elem(), v.M, r)
		}
		dst.Set(p)
		return
	}
	if v.M != nil {
		fs.Sub.Fill(dst, v.M, r)
	}
}

// Fill sets the fields of an addressable zero struct.
func (s *Shape) Fill(dst reflect.Value, m *pm.Msg, r *pm.Rng) {
	s.arm(dst)
	for _, n := range s.nums {
		fs := s.F[n]
		fv := m.F[n]
		if fv == nil {
			if chance(r, 0.05) && (fs.F.IsList() || fs.F.Card == pm.Map) {
				f := dst.Field(fs.Index)
				if f.Kind() == reflect.Map {
					f.Set(reflect.MakeMap(f.Type()))
				} else {
					f.Set(reflect.MakeSlice(f.Type(), 0, r.N(4)))
				}
			}
			continue
		}
		s.SetField(dst, fs, fv, r)
	}
	if len(m.Unk) > 0 {
		s.SetUnknown(dst, m.Unk)
	}
}

// MapIndex returns the map value stored under a key.
func (s *Shape) MapIndex(v reflect.Value, fs *FShape, key pm.Val) reflect.Value {
	g := v.Field(fs.Index)
	k := reflect.New(g.Type().Key()).Elem()
	setScalar(fs.F.Key, addr(k), key)
	return g.MapIndex(k)
}

// SetField stores one field's content.
func (s *Shape) SetField(dst reflect.Value, fs *FShape, fv *pm.FV, r *pm.Rng) {
	f := fs.F
	g := dst.Field(fs.Index)
	switch {
	case f.Card == pm.Oneof:
		w := reflect.New(fs.W)
		e := w.Elem().Field(0)
		if f.Kind == pm.Message_ && e.Kind() == reflect.Struct {
			if fv.One.M != nil {
				fs.Sub.Fill(e, fv.One.M, r)
			} else {
				fs.Sub.arm(e)
			}
		} else if f.Kind == pm.Message_ {
			if fv.One.M == nil || len(fv.One.M.F) == 0 && len(fv.One.M.Unk) == 0 {
				e.Set(fs.Sub.New())
			} else {
				e.Set(fs.Sub.Build(fv.One.M, r))
			}
		} else {
			setScalar(f.Kind, addr(e), fv.One)
		}
		g.Set(w)
	case f.Card == pm.Map:
		mt := g.Type()
		g.Set(reflect.MakeMapWithSize(mt, len(fv.Map)))
		for _, e := range fv.Map {
			k := reflect.New(mt.Key()).Elem()
			setScalar(f.Key, addr(k), e.K)
			v := reflect.New(mt.Elem()).Elem()
			s.setElem(fs, v, e.V, r)
			g.SetMapIndex(k, v)
		}
	case f.IsList():
		n := len(fv.List)
		c := n
		if chance(r, 0.3) {
			c += r.N(5)
		}
		sl := reflect.MakeSlice(g.Type(), n, c)
		for i := range fv.List {
			s.setElem(fs, sl.Index(i), fv.List[i], r)
		}
		g.Set(sl)
	case f.Kind == pm.Message_:
		if g.Kind() == reflect.Pointer {
			p := fs.Sub.New()
			if fv.One.M != nil {
				fs.Sub.Fill(p.Elem(), fv.One.M, r)
			}
			g.Set(p)
		} else if fv.One.M != nil {
			fs.Sub.Fill(g, fv.One.M, r)
		}
	case g.Kind() == reflect.Pointer:
		p := reflect.New(g.Type().Elem())
		setScalar(f.Kind, p.UnsafePointer(), fv.One)
		g.Set(p)
	default:
		setScalar(f.Kind, addr(g), fv.One)
	}
}

func (s *Shape) unkSlice(v reflect.Value, create bool) *[]byte {
	p := unsafe.Add(addr(v), s.unkOff)
	switch s.unk {
	case pm.UnkNone:
		return nil
	case pm.UnkPtr:
		pp := (**[]byte)(p)
		if *pp == nil && create {
			*pp = &[]byte{}
		}
		return *pp
	}
	return (*[]byte)(p)
}

// SetUnknown stores unknown-field bytes.
func (s *Shape) SetUnknown(v reflect.Value, b []byte) {
	if p := s.unkSlice(v, true); p != nil {
		*p = append([]byte(nil), b...)
	}
}

// SetUnknownSlice stores the slice itself, with its capacity.
func (s *Shape) SetUnknownSlice(v reflect.Value, b []byte) {
	if p := s.unkSlice(v, true); p != nil {
		*p = b
	}
}

// Unknown returns the stored unknown-field bytes (not a copy).
func (s *Shape) Unknown(v reflect.Value) []byte {
	if p := s.unkSlice(v, false); p != nil {
		return *p
	}
	return nil
}

// ---- reading ---------------------------------------------------------------

// Read copies a Go message (pointer) into a normalized model value.
func (s *Shape) Read(p reflect.Value) *pm.Msg {
	return s.ReadRaw(p.Elem()).Normalize()
}

// ReadRaw copies an addressable struct without normalizing.
func (s *Shape) ReadRaw(v reflect.Value) *pm.Msg {
	m := pm.NewMsg(s.M)
	m.Damage = s.inspect(v)
	for _, n := range s.nums {
		fs := s.F[n]
		f := fs.F
		g := v.Field(fs.Index)
		switch {
		case f.Card == pm.Oneof:
			if g.IsNil() {
				continue
			}
			w := g.Elem()
			if w.Type() != reflect.PointerTo(fs.W) || w.IsNil() {
				continue
			}
			e := w.Elem().Field(0)
			fv := &pm.FV{F: f}
			if f.Kind == pm.Message_ {
				fv.One.M = pm.NewMsg(f.Msg)
				if e.Kind() == reflect.Struct {
					fv.One.M = fs.Sub.ReadRaw(e)
				} else if !e.IsNil() {
					fv.One.M = fs.Sub.ReadRaw(e.Elem())
				}
			} else {
				fv.One = getScalar(f.Kind, addr(e))
			}
			m.F[n] = fv
		case f.Card == pm.Map:
			if g.Len() == 0 {
				continue
			}
			fv := &pm.FV{F: f}
			kt := reflect.New(g.Type().Key()).Elem()
			vt := reflect.New(g.Type().Elem()).Elem()
			for it := g.MapRange(); it.Next(); {
				kt.Set(it.Key())
				vt.Set(it.Value())
				fv.Map = append(fv.Map, pm.Entry{K: getScalar(f.Key, addr(kt)), V: s.getElem(fs, vt)})
			}
			m.F[n] = fv
		case f.IsList():
			if g.Len() == 0 {
				continue
			}
			fv := &pm.FV{F: f}
			for i := 0; i < g.Len(); i++ {
				fv.List = append(fv.List, s.getElem(fs, g.Index(i)))
			}
			m.F[n] = fv
		case f.Kind == pm.Message_:
			if g.Kind() == reflect.Pointer {
				if g.IsNil() {
					continue
				}
				g = g.Elem()
			}
			m.F[n] = &pm.FV{F: f, One: pm.Val{M: fs.Sub.ReadRaw(g)}}
		case g.Kind() == reflect.Pointer:
			if g.IsNil() {
				continue
			}
			m.F[n] = &pm.FV{F: f, One: getScalar(f.Kind, g.UnsafePointer())}
		default:
			m.F[n] = &pm.FV{F: f, One: getScalar(f.Kind, addr(g))}
		}
	}
	if u := s.Unknown(v); len(u) > 0 {
		m.Unk = append([]byte(nil), u...)
	}
	return m
}

func (s *Shape) getElem(fs *FShape, v reflect.Value) pm.Val {
	if fs.F.Kind != pm.Message_ {
		return getScalar(fs.F.Kind, addr(v))
	}
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return pm.Val{M: pm.NewMsg(fs.F.Msg)}
		}
		v = v.Elem()
	}
	return pm.Val{M: fs.Sub.ReadRaw(v)}
}

// ---- snapshots -------------------------------------------------------------

type snap struct {
	h    uint64
	seen map[unsafe.Pointer]bool
}

func (s *snap) mix(x uint64) {
	s.h = (s.h ^ x) * 0x9e3779b97f4a7c15
	s.h ^= s.h >> 29
}

func (s *snap) bytes(b []byte) {
	s.mix(uint64(len(b)))
	for _, c := range b {
		s.h = (s.h ^ uint64(c)) * 0x100000001b3
	}
}

// Snapshot hashes everything reachable from a message pointer: contents,
// identities of pointers, slices with their spare capacity, maps, unknown
// fields and all other fields of the struct.
func Snapshot(p reflect.Value) uint64 {
	s := &snap{seen: map[unsafe.Pointer]bool{}}
	s.walk(p)
	return s.h
}

func (s *snap) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		p := v.UnsafePointer()
		s.mix(uint64(uintptr(p)))
		if p == nil || s.seen[p] {
			return
		}
		s.seen[p] = true
		s.walk(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			s.mix(1)
			return
		}
		s.walk(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			s.walk(v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s.walk(v.Index(i))
		}
	case reflect.Slice:
		s.mix(uint64(v.Pointer()))
		s.mix(uint64(v.Len()))
		s.mix(uint64(v.Cap()))
		if v.Cap() == 0 {
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			s.bytes(unsafe.Slice((*byte)(v.UnsafePointer()), v.Cap()))
			return
		}
		w := v.Slice(0, v.Cap())
		for i := 0; i < w.Len(); i++ {
			s.walk(w.Index(i))
		}
	case reflect.Map:
		s.mix(uint64(v.Pointer()))
		s.mix(uint64(v.Len()))
		var sum uint64
		for it := v.MapRange(); it.Next(); {
			t := &snap{seen: s.seen}
			t.walk(it.Key())
			t.walk(it.Value())
			sum += t.h
		}
		s.mix(sum)
	case reflect.String:
		s.bytes([]byte(v.String()))
	case reflect.Bool:
		if v.Bool() {
			s.mix(3)
		} else {
			s.mix(2)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		s.mix(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		s.mix(v.Uint())
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		s.mix(*(*uint64)(unsafe.Pointer(&f)))
	}
}
