package pm

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"
)

// Val is one value: U for numbers (the kind's canonical 64-bit form), B for
// string and bytes, M for messages.
type Val struct {
	U uint64
	B []byte
	M *Msg
}

type Entry struct{ K, V Val }

// FV is the content of one present field.
type FV struct {
	F    *Field
	One  Val
	List []Val
	Map  []Entry // unique keys, sorted by Normalize
}

// Msg is a message value: present fields by number, and unknown fields.
type Msg struct {
	T   *Message
	F   map[int32]*FV
	Unk []byte

	Damage string // what is wrong with the memory the message was read from
}

func NewMsg(t *Message) *Msg { return &Msg{T: t, F: map[int32]*FV{}} }

// canon brings a number into the kind's range: signed kinds are sign-extended.
func canon(k Kind, u uint64) uint64 {
	switch k {
	case Int32, Sint32, Sfixed32, Enum:
		return uint64(int64(int32(u)))
	case Uint32, Fixed32, Float:
		return uint64(uint32(u))
	case Bool:
		if u != 0 {
			return 1
		}
		return 0
	}
	return u
}

func zeroVal(f *Field, k Kind) Val {
	if k == Message_ {
		return Val{M: NewMsg(f.Msg)}
	}
	return Val{}
}

func isZero(k Kind, v Val) bool {
	switch k {
	case String, Bytes:
		return len(v.B) == 0
	case Message_:
		return v.M == nil
	}
	return v.U == 0
}

// Normalize removes what is not observable: implicit zero values, empty lists
// and maps; it sorts map entries and brings unknown fields into canonical form.
func (m *Msg) Normalize() *Msg {
	for num, fv := range m.F {
		f := fv.F
		switch {
		case f.IsList():
			if len(fv.List) == 0 {
				delete(m.F, num)
				continue
			}
			for i := range fv.List {
				if f.Kind == Message_ {
					if fv.List[i].M == nil {
						fv.List[i].M = NewMsg(f.Msg)
					}
					fv.List[i].M.Normalize()
				}
			}
		case f.Card == Map:
			if len(fv.Map) == 0 {
				delete(m.F, num)
				continue
			}
			for i := range fv.Map {
				if f.Kind == Message_ {
					if fv.Map[i].V.M == nil {
						fv.Map[i].V.M = NewMsg(f.Msg)
					}
					fv.Map[i].V.M.Normalize()
				}
			}
			sort.SliceStable(fv.Map, func(i, j int) bool { return keyLess(f.Key, fv.Map[i].K, fv.Map[j].K) })
		case f.Kind == Message_:
			if fv.One.M == nil {
				if f.Card == Oneof {
					fv.One.M = NewMsg(f.Msg)
				} else {
					delete(m.F, num)
					continue
				}
			}
			fv.One.M.Normalize()
			if !f.HasPresence() && len(fv.One.M.F) == 0 && len(fv.One.M.Unk) == 0 {
				delete(m.F, num)
			}
		default:
			if !f.HasPresence() && isZero(f.Kind, fv.One) {
				delete(m.F, num)
			}
		}
	}
	if len(m.Unk) > 0 {
		m.Unk = CanonUnknown(m.Unk)
	}
	return m
}

func keyLess(k Kind, a, b Val) bool {
	if k == String {
		return bytes.Compare(a.B, b.B) < 0
	}
	return a.U < b.U
}

// KeyEq compares map keys.
func KeyEq(k Kind, a, b Val) bool {
	if k == String {
		return bytes.Equal(a.B, b.B)
	}
	return a.U == b.U
}

// Diff describes the first difference between two normalized messages, or "".
func Diff(want, got *Msg) string { return diff("", want, got) }

func diff(path string, a, b *Msg) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return path + ": one message is missing"
	}
	if b.Damage != "" {
		return path + ": " + b.Damage
	}
	nums := map[int32]bool{}
	for n := range a.F {
		nums[n] = true
	}
	for n := range b.F {
		nums[n] = true
	}
	var ns []int
	for n := range nums {
		ns = append(ns, int(n))
	}
	sort.Ints(ns)
	for _, n := range ns {
		x, y := a.F[int32(n)], b.F[int32(n)]
		f := a.T.Field(int32(n))
		nm := fmt.Sprintf("%s.%s", path, f.Name)
		if f.Name == "" {
			nm = fmt.Sprintf("%s.#%d", path, n)
		}
		if x == nil {
			return fmt.Sprintf("%s (%s): want absent, got %s", nm, f, y)
		}
		if y == nil {
			return fmt.Sprintf("%s (%s): want %s, got absent", nm, f, x)
		}
		switch {
		case f.IsList():
			if len(x.List) != len(y.List) {
				return fmt.Sprintf("%s (%s): want %d elements, got %d", nm, f, len(x.List), len(y.List))
			}
			for i := range x.List {
				if d := diffVal(fmt.Sprintf("%s[%d]", nm, i), f.Kind, x.List[i], y.List[i]); d != "" {
					return d
				}
			}
		case f.Card == Map:
			if len(x.Map) != len(y.Map) {
				return fmt.Sprintf("%s (%s): want %d entries, got %d", nm, f, len(x.Map), len(y.Map))
			}
			for i := range x.Map {
				if !KeyEq(f.Key, x.Map[i].K, y.Map[i].K) {
					return fmt.Sprintf("%s (%s): want key %s, got key %s", nm, f, ValString(f.Key, x.Map[i].K), ValString(f.Key, y.Map[i].K))
				}
				if d := diffVal(fmt.Sprintf("%s[%s]", nm, ValString(f.Key, x.Map[i].K)), f.Kind, x.Map[i].V, y.Map[i].V); d != "" {
					return d
				}
			}
		default:
			if d := diffVal(nm, f.Kind, x.One, y.One); d != "" {
				return d
			}
		}
	}
	if !bytes.Equal(a.Unk, b.Unk) {
		return fmt.Sprintf("%s: unknown fields: want %x, got %x", path, clip(a.Unk), clip(b.Unk))
	}
	return ""
}

func clip(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

func diffVal(path string, k Kind, a, b Val) string {
	if k == Message_ {
		return diff(path, a.M, b.M)
	}
	if !valEq(k, a, b) {
		return fmt.Sprintf("%s: want %s, got %s", path, ValString(k, a), ValString(k, b))
	}
	return ""
}

func valEq(k Kind, a, b Val) bool {
	if k == String || k == Bytes {
		return bytes.Equal(a.B, b.B)
	}
	return a.U == b.U
}

func ValString(k Kind, v Val) string {
	switch k {
	case String, Bytes:
		if len(v.B) > 48 {
			return fmt.Sprintf("%q...(%d)", v.B[:48], len(v.B))
		}
		return fmt.Sprintf("%q", v.B)
	case Float:
		return fmt.Sprintf("%v(%#x)", math.Float32frombits(uint32(v.U)), v.U)
	case Double:
		return fmt.Sprintf("%v(%#x)", math.Float64frombits(v.U), v.U)
	case Uint32, Uint64, Fixed32, Fixed64, Bool:
		return fmt.Sprint(v.U)
	case Message_:
		return v.M.String()
	}
	return fmt.Sprint(int64(v.U))
}

func (fv *FV) String() string {
	f := fv.F
	switch {
	case f.IsList():
		return fmt.Sprintf("list of %d", len(fv.List))
	case f.Card == Map:
		return fmt.Sprintf("map of %d", len(fv.Map))
	}
	return ValString(f.Kind, fv.One)
}

// String renders a message compactly (fields by number).
func (m *Msg) String() string {
	if m == nil {
		return "nil"
	}
	var ns []int
	for n := range m.F {
		ns = append(ns, int(n))
	}
	sort.Ints(ns)
	var b strings.Builder
	b.WriteString("{")
	for i, n := range ns {
		if i > 0 {
			b.WriteString(" ")
		}
		fv := m.F[int32(n)]
		f := fv.F
		switch {
		case f.IsList():
			var p []string
			for j, v := range fv.List {
				if j == 4 {
					p = append(p, fmt.Sprintf("...%d", len(fv.List)))
					break
				}
				p = append(p, ValString(f.Kind, v))
			}
			fmt.Fprintf(&b, "%d:[%s]", n, strings.Join(p, " "))
		case f.Card == Map:
			var p []string
			for j, e := range fv.Map {
				if j == 4 {
					p = append(p, fmt.Sprintf("...%d", len(fv.Map)))
					break
				}
				p = append(p, ValString(f.Key, e.K)+":"+ValString(f.Kind, e.V))
			}
			fmt.Fprintf(&b, "%d:{%s}", n, strings.Join(p, " "))
		default:
			fmt.Fprintf(&b, "%d:%s", n, ValString(f.Kind, fv.One))
		}
	}
	if len(m.Unk) > 0 {
		fmt.Fprintf(&b, " ?%x", clip(m.Unk))
	}
	b.WriteString("}")
	return b.String()
}

// Clone makes a deep copy.
func (m *Msg) Clone() *Msg {
	if m == nil {
		return nil
	}
	c := NewMsg(m.T)
	for n, fv := range m.F {
		d := &FV{F: fv.F, One: fv.One.clone()}
		for _, v := range fv.List {
			d.List = append(d.List, v.clone())
		}
		for _, e := range fv.Map {
			d.Map = append(d.Map, Entry{e.K.clone(), e.V.clone()})
		}
		c.F[n] = d
	}
	c.Unk = append([]byte(nil), m.Unk...)
	return c
}

func (v Val) clone() Val {
	c := Val{U: v.U, M: v.M.Clone()}
	if v.B != nil {
		c.B = append([]byte{}, v.B...)
	}
	return c
}

// HasMaps reports whether any map with more than one entry is in the message,
// in which case the encoding order is not determined.
func (m *Msg) HasMaps() bool {
	for _, fv := range m.F {
		if len(fv.Map) > 1 {
			return true
		}
		if fv.F.Kind != Message_ {
			continue
		}
		if fv.One.M != nil && fv.One.M.HasMaps() {
			return true
		}
		for _, v := range fv.List {
			if v.M != nil && v.M.HasMaps() {
				return true
			}
		}
		for _, e := range fv.Map {
			if e.V.M != nil && e.V.M.HasMaps() {
				return true
			}
		}
	}
	return false
}

// Count returns the number of field values in the message (a size measure).
func (m *Msg) Count() int {
	n := 1
	for _, fv := range m.F {
		n += 1 + len(fv.List) + len(fv.Map)
		if fv.One.M != nil {
			n += fv.One.M.Count()
		}
		for _, v := range fv.List {
			if v.M != nil {
				n += v.M.Count()
			}
		}
		for _, e := range fv.Map {
			if e.V.M != nil {
				n += e.V.M.Count()
			}
		}
	}
	return n
}
