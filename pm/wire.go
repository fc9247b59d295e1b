package pm

import (
	"bytes"
	"errors"
	"math/bits"
	"sort"
	"unicode/utf8"
)

// ---- encoding --------------------------------------------------------------

func AppendVarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

// appendVarintPad encodes v with pad extra continuation bytes (non-minimal).
func appendVarintPad(b []byte, v uint64, pad int) []byte {
	n := 1
	if v > 0 {
		n = (bits.Len64(v) + 6) / 7
	}
	if n+pad > 10 {
		pad = 10 - n
	}
	for i := 0; i < n+pad-1; i++ {
		b = append(b, byte(v&0x7f)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func SizeVarint(v uint64) int {
	if v == 0 {
		return 1
	}
	return (bits.Len64(v) + 6) / 7
}

// Var selects legal encoding variations.
type Var struct {
	R *Rng
	// probabilities of each freedom a conforming encoder has
	Order      float64 // shuffle fields (parts of one list or map keep their order)
	PackFlip   float64 // encode a packed list unpacked and the other way round
	PackSplit  float64 // several pieces, possibly mixed packed and unpacked
	EntryOdd   float64 // map entry: omit default parts, value first, extra fields
	DupScalar  float64 // an earlier, overwritten occurrence of a singular field
	DupMessage float64 // a singular message sent in two pieces
	Pad        float64 // non-minimal varints in values and lengths
	PadTag     float64 // non-minimal varints in tags
	Bool       float64 // booleans encoded as other non-zero varints
	Wide       float64 // 32-bit varints with more bits, as sent for 64-bit fields: the low bits count
	Empty      float64 // empty packed list present
	WriteZero  float64 // implicit zero value written explicitly
}

type encoder struct {
	v *Var
}

func (e *encoder) p(f func(*Var) float64) bool {
	return e.v != nil && e.v.R.P(f(e.v))
}

func (e *encoder) varint(b []byte, u uint64) []byte {
	if e.p(func(v *Var) float64 { return v.Pad }) {
		return appendVarintPad(b, u, 1+e.v.R.N(3))
	}
	return AppendVarint(b, u)
}

func (e *encoder) tag(b []byte, num int32, wt int) []byte {
	t := uint64(uint32(num))<<3 | uint64(wt)
	if e.p(func(v *Var) float64 { return v.PadTag }) {
		// tags are at most 5 significant bytes; stay within 10
		return appendVarintPad(b, t, 1+e.v.R.N(2))
	}
	return AppendVarint(b, t)
}

func (e *encoder) bytes(b []byte, x []byte) []byte {
	b = e.varint(b, uint64(len(x)))
	return append(b, x...)
}

func zigzag(v int64) uint64 { return uint64(v<<1) ^ uint64(v>>63) }

func (e *encoder) scalar(b []byte, k Kind, v Val) []byte {
	u := v.U
	if e.p(func(v *Var) float64 { return v.Wide }) {
		switch k { // not sint32, for which implementations differ
		case Int32, Uint32, Enum:
			return e.varint(b, u&(1<<32-1)|e.v.R.U64()<<32)
		}
	}
	switch k {
	case Int32, Int64, Uint32, Uint64, Enum:
		return e.varint(b, u)
	case Sint32:
		return e.varint(b, uint64(uint32(zigzag(int64(u)))))
	case Sint64:
		return e.varint(b, zigzag(int64(u)))
	case Bool:
		if u != 0 && e.p(func(v *Var) float64 { return v.Bool }) {
			if e.v.R.P(0.5) { // any bits, also just the high ones
				return e.varint(b, (e.v.R.U64()|1)<<uint(e.v.R.N(64)))
			}
			return e.varint(b, 2+e.v.R.U64()%1000)
		}
		return e.varint(b, u)
	case Fixed32, Sfixed32, Float:
		x := uint32(u)
		return append(b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
	case Fixed64, Sfixed64, Double:
		for i := 0; i < 8; i++ {
			b = append(b, byte(u>>(8*i)))
		}
		return b
	case String, Bytes:
		return e.bytes(b, v.B)
	}
	panic("kind")
}

func (e *encoder) val(b []byte, f *Field, k Kind, v Val) []byte {
	if k == Message_ {
		var x []byte
		if v.M != nil {
			x = e.message(v.M)
		}
		return e.bytes(b, x)
	}
	return e.scalar(b, k, v)
}

// pieces returns the encoding of one field as ordered pieces.
func (e *encoder) pieces(f *Field, fv *FV) [][]byte {
	var out [][]byte
	add := func(b []byte) { out = append(out, b) }
	switch {
	case f.IsList():
		packed := f.Card == Packed
		if f.Kind.Packable() && e.p(func(v *Var) float64 { return v.PackFlip }) {
			packed = !packed
		}
		list := fv.List
		if f.Kind.Packable() && e.p(func(v *Var) float64 { return v.PackSplit }) {
			for len(list) > 0 {
				n := 1 + e.v.R.N(len(list))
				if e.v.R.P(0.5) {
					packed = !packed
				}
				e.list(f, list[:n], packed, add)
				list = list[n:]
			}
			break
		}
		e.list(f, list, packed, add)
	case f.Card == Map:
		for _, en := range fv.Map {
			var x []byte
			if e.p(func(v *Var) float64 { return v.EntryOdd }) && e.v.R.P(0.3) {
				// an entry which the next one overrides
				o := fv.Map[e.v.R.N(len(fv.Map))].V
				if f.Kind != Message_ && e.v.R.P(0.7) {
					o = genScalar(e.v.R, f.Kind)
				}
				k := e.scalar(e.tag(nil, 1, f.Key.Wire()), f.Key, en.K)
				add(e.bytes(e.tag(nil, f.Num, WLen), append(k, e.val(e.tag(nil, 2, f.Kind.Wire()), f, f.Kind, o)...)))
			}
			kk := e.scalar(e.tag(nil, 1, f.Key.Wire()), f.Key, en.K)
			vv := e.val(e.tag(nil, 2, f.Kind.Wire()), f, f.Kind, en.V)
			if e.p(func(v *Var) float64 { return v.EntryOdd }) {
				r := e.v.R
				if isZero(f.Key, en.K) && r.P(0.7) {
					kk = nil
				}
				zero := f.Kind != Message_ && isZero(f.Kind, en.V) ||
					f.Kind == Message_ && (en.V.M == nil || len(en.V.M.F) == 0 && len(en.V.M.Unk) == 0)
				if zero && r.P(0.7) {
					vv = nil
				}
				parts := [][]byte{kk, vv}
				if r.P(0.5) {
					parts[0], parts[1] = vv, kk
				}
				if r.P(0.3) { // unknown field in the entry: skipped by every implementation
					parts = append(parts, AppendUnknownField(nil, r, []int32{3, 15, 16, 5000}))
					i := r.N(3)
					parts[i], parts[2] = parts[2], parts[i]
				}
				if r.P(0.2) && len(kk) > 0 { // repeated key: last one counts
					o := genScalar(r, f.Key)
					parts = append([][]byte{e.scalar(e.tag(nil, 1, f.Key.Wire()), f.Key, o)}, parts...)
				}
				for _, p := range parts {
					x = append(x, p...)
				}
			} else {
				x = append(append(x, kk...), vv...)
			}
			add(e.bytes(e.tag(nil, f.Num, WLen), x))
		}
	case f.Kind == Message_ && fv.One.M != nil && e.p(func(v *Var) float64 { return v.DupMessage }):
		// split the fields into two occurrences
		a, b := NewMsg(f.Msg), NewMsg(f.Msg)
		for _, n := range fv.One.M.nums() {
			if e.v.R.P(0.5) {
				a.F[n] = fv.One.M.F[n]
			} else {
				b.F[n] = fv.One.M.F[n]
			}
		}
		a.Unk = fv.One.M.Unk
		add(e.bytes(e.tag(nil, f.Num, WLen), e.message(a)))
		add(e.bytes(e.tag(nil, f.Num, WLen), e.message(b)))
	default:
		if f.Kind != Message_ && e.p(func(v *Var) float64 { return v.DupScalar }) {
			add(e.scalar(e.tag(nil, f.Num, f.Kind.Wire()), f.Kind, genScalar(e.v.R, f.Kind)))
		}
		add(e.val(e.tag(nil, f.Num, f.Kind.Wire()), f, f.Kind, fv.One))
	}
	return out
}

func (e *encoder) list(f *Field, list []Val, packed bool, add func([]byte)) {
	if !packed {
		for _, v := range list {
			add(e.val(e.tag(nil, f.Num, f.Kind.Wire()), f, f.Kind, v))
		}
		return
	}
	var x []byte
	for _, v := range list {
		x = e.scalar(x, f.Kind, v)
	}
	add(e.bytes(e.tag(nil, f.Num, WLen), x))
}

func (m *Msg) nums() []int32 {
	ns := make([]int32, 0, len(m.F))
	for n := range m.F {
		ns = append(ns, n)
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
	return ns
}

func (e *encoder) message(m *Msg) []byte {
	type stream struct{ p [][]byte }
	var ss []*stream
	for _, n := range m.nums() {
		fv := m.F[n]
		ss = append(ss, &stream{e.pieces(fv.F, fv)})
	}
	if e.v != nil {
		for _, f := range m.T.Sorted() {
			if m.F[f.Num] != nil {
				continue
			}
			if f.Card == Packed && e.v.R.P(e.v.Empty) {
				ss = append(ss, &stream{[][]byte{e.bytes(e.tag(nil, f.Num, WLen), nil)}})
			}
			if f.Card == Implicit && f.Kind != Message_ && e.v.R.P(e.v.WriteZero) {
				ss = append(ss, &stream{[][]byte{e.scalar(e.tag(nil, f.Num, f.Kind.Wire()), f.Kind, Val{})}})
			}
		}
	}
	if len(m.Unk) > 0 {
		ss = append(ss, &stream{[][]byte{m.Unk}})
	}
	var out []byte
	if e.p(func(v *Var) float64 { return v.Order }) {
		// random merge of the streams: order within one field is kept. Members
		// of one oneof never coexist in a value, so they need no care here.
		left := 0
		for _, s := range ss {
			left += len(s.p)
		}
		for left > 0 {
			k := e.v.R.N(left)
			for _, s := range ss {
				if k < len(s.p) {
					out = append(out, s.p[0]...)
					s.p = s.p[1:]
					break
				}
				k -= len(s.p)
			}
			left--
		}
		return out
	}
	for _, s := range ss {
		for _, p := range s.p {
			out = append(out, p...)
		}
	}
	return out
}

// Encode gives the canonical encoding (v == nil) or a legal variation.
func Encode(m *Msg, v *Var) []byte {
	e := &encoder{v}
	b := e.message(m)
	if b == nil {
		b = []byte{}
	}
	return b
}

// ---- raw fields ------------------------------------------------------------

var (
	ErrTrunc      = errors.New("truncated")
	ErrVarint     = errors.New("varint too long")
	ErrVarintHigh = errors.New("varint overflow")
	ErrFieldNum   = errors.New("bad field number")
	ErrFieldRange = errors.New("field number beyond the maximum")
	ErrWireType   = errors.New("bad wire type")
	ErrGroup      = errors.New("mismatched group")
	ErrDepth      = errors.New("nesting too deep")
)

func Varint(b []byte) (uint64, int, error) {
	var v uint64
	for i := 0; i < 10; i++ {
		if i >= len(b) {
			return 0, 0, ErrTrunc
		}
		c := b[i]
		if i == 9 && c > 1 && c < 0x80 {
			return 0, 0, ErrVarintHigh
		}
		v |= uint64(c&0x7f) << (7 * i)
		if c < 0x80 {
			return v, i + 1, nil
		}
	}
	return 0, 0, ErrVarint
}

// Raw is one field occurrence.
type Raw struct {
	Num   int32
	WT    int
	U     uint64 // varint, i32, i64
	B     []byte // len: content; group: content up to the end tag
	Bytes []byte // everything, tag included
}

// Next parses one field occurrence.
func Next(b []byte, depth int) (r Raw, n int, err error) {
	t, n, err := Varint(b)
	if err != nil {
		return r, 0, err
	}
	if t>>3 == 0 || t>>3 > 1<<31-1 {
		return r, 0, ErrFieldNum
	}
	if t>>3 > 1<<29-1 {
		return r, 0, ErrFieldRange
	}
	r.Num, r.WT = int32(t>>3), int(t&7)
	switch r.WT {
	case WVarint:
		u, m, err := Varint(b[n:])
		if err != nil {
			return r, 0, err
		}
		r.U = u
		n += m
	case WI64:
		if len(b)-n < 8 {
			return r, 0, ErrTrunc
		}
		for i := 0; i < 8; i++ {
			r.U |= uint64(b[n+i]) << (8 * i)
		}
		n += 8
	case WI32:
		if len(b)-n < 4 {
			return r, 0, ErrTrunc
		}
		for i := 0; i < 4; i++ {
			r.U |= uint64(b[n+i]) << (8 * i)
		}
		n += 4
	case WLen:
		u, m, err := Varint(b[n:])
		if err != nil {
			return r, 0, err
		}
		n += m
		if u > uint64(len(b)-n) {
			return r, 0, ErrTrunc
		}
		r.B = b[n : n+int(u)]
		n += int(u)
	case WSGroup:
		if depth <= 0 {
			return r, 0, ErrDepth
		}
		start := n
		for {
			t2, m2, err := Varint(b[n:])
			if err != nil {
				return r, 0, err
			}
			if t2&7 == WEGroup {
				if int32(t2>>3) != r.Num || t2>>3 > 1<<29-1 {
					return r, 0, ErrGroup
				}
				r.B = b[start:n]
				n += m2
				break
			}
			_, m, err := Next(b[n:], depth-1)
			if err != nil {
				return r, 0, err
			}
			n += m
		}
	default:
		return r, 0, ErrWireType
	}
	r.Bytes = b[:n]
	return r, n, nil
}

// CanonUnknown brings unknown fields into a canonical form: minimal tags and
// lengths, stable order by number. Malformed bytes are returned as they are.
func CanonUnknown(b []byte) []byte {
	type rec struct {
		num int32
		b   []byte
	}
	var rs []rec
	for i := 0; i < len(b); {
		r, n, err := Next(b[i:], 10000)
		if err != nil {
			if bytes.HasPrefix(b, []byte("malformed:")) {
				return b
			}
			return append([]byte("malformed:"), b...)
		}
		var x []byte
		x = AppendVarint(x, uint64(uint32(r.Num))<<3|uint64(r.WT))
		switch r.WT {
		case WVarint:
			x = AppendVarint(x, r.U)
		case WLen:
			x = append(AppendVarint(x, uint64(len(r.B))), r.B...)
		default:
			_, tn, _ := Varint(r.Bytes)
			x = append(x, r.Bytes[tn:]...)
		}
		rs = append(rs, rec{r.Num, x})
		i += n
	}
	sort.SliceStable(rs, func(i, j int) bool { return rs[i].num < rs[j].num })
	var out []byte
	for _, r := range rs {
		out = append(out, r.b...)
	}
	return out
}

// AppendUnknownField appends a well-formed field with one of the given numbers.
func AppendUnknownField(b []byte, r *Rng, nums []int32) []byte {
	num := nums[r.N(len(nums))]
	tag := func(n int32, wt int) { b = AppendVarint(b, uint64(uint32(n))<<3|uint64(wt)) }
	switch r.Pick(4, 2, 4, 2, 2) {
	case 0:
		tag(num, WVarint)
		b = AppendVarint(b, r.U64()>>uint(r.N(64)))
	case 1:
		tag(num, WI64)
		for i := 0; i < 8; i++ {
			b = append(b, byte(r.U64()))
		}
	case 2:
		tag(num, WLen)
		n := r.N(20)
		if r.P(0.1) {
			n = r.N(300)
		}
		b = AppendVarint(b, uint64(n))
		for i := 0; i < n; i++ {
			b = append(b, byte(r.U64()))
		}
	case 3:
		tag(num, WI32)
		for i := 0; i < 4; i++ {
			b = append(b, byte(r.U64()))
		}
	case 4:
		tag(num, WSGroup)
		for i := r.N(3); i > 0; i-- {
			b = AppendUnknownField(b, r, []int32{1, 2, 77})
		}
		b = AppendVarint(b, uint64(uint32(num))<<3|WEGroup)
	}
	return b
}

// ---- decoding --------------------------------------------------------------

// Outcome of the reference decoder.
type Outcome struct {
	M   *Msg
	Err error
	// Loose: the bytes contain something on which conforming decoders differ
	// from each other (a known field with another wire type, an out-of-range
	// 32-bit zigzag value, a message field that occurs twice, nesting between the limits in use, invalid UTF-8):
	// an error or a value are both acceptable.
	Loose string
}

// depth limits: within MinDepth every decoder accepts, beyond MaxDepth every
// decoder rejects.
const (
	MinDepth = 90
	MaxDepth = 10000
)

type decoder struct {
	loose string
	drop  bool // drop unknown fields where the type has no storage for them
}

func (d *decoder) loosen(s string) {
	if d.loose == "" {
		d.loose = s
	}
}

// Decode is the reference decoder: merge semantics over one buffer.
func Decode(t *Message, b []byte) Outcome {
	d := &decoder{}
	m := NewMsg(t)
	err := d.message(m, b, 1)
	if err == ErrVarintHigh || err == ErrFieldRange {
		d.loosen(err.Error())
	}
	return Outcome{M: m, Err: err, Loose: d.loose}
}

// DecodeAs decodes as an implementation whose types store unknown fields only
// where the schema says so.
func DecodeAs(t *Message, b []byte) Outcome {
	d := &decoder{drop: true}
	m := NewMsg(t)
	err := d.message(m, b, 1)
	if err == ErrVarintHigh || err == ErrFieldRange {
		d.loosen(err.Error())
	}
	return Outcome{M: m, Err: err, Loose: d.loose}
}

// DecodeInto merges b into m.
func DecodeInto(m *Msg, b []byte) Outcome {
	d := &decoder{drop: true}
	err := d.message(m, b, 1)
	if err == ErrVarintHigh || err == ErrFieldRange {
		d.loosen(err.Error())
	}
	return Outcome{M: m, Err: err, Loose: d.loose}
}

func (d *decoder) num(k Kind, r Raw) Val {
	switch k {
	case Sint32:
		if r.U >= 1<<32 {
			d.loosen("zigzag32 out of range")
		}
		u := uint32(r.U)
		return Val{U: uint64(int64(int32(u>>1) ^ -int32(u&1)))}
	case Sint64:
		return Val{U: uint64(int64(r.U>>1) ^ -int64(r.U&1))}
	}
	return Val{U: canon(k, r.U)}
}

func (d *decoder) message(m *Msg, b []byte, depth int) error {
	if depth > MaxDepth {
		return ErrDepth
	}
	if depth > MinDepth {
		d.loosen("nesting depth")
	}
	for len(b) > 0 {
		r, n, err := Next(b, MaxDepth)
		if err != nil {
			return err
		}
		raw := b[:n]
		b = b[n:]
		f := m.T.Field(r.Num)
		if f == nil {
			if r.WT == WSGroup && groupDepth(r.B) > MinDepth {
				d.loosen("group depth")
			}
			if !d.drop || m.T.Unk != UnkNone {
				m.Unk = append(m.Unk, raw...)
			}
			continue
		}
		if err := d.field(m, f, r, depth); err != nil {
			return err
		}
	}
	return nil
}

func groupDepth(b []byte) int {
	depth, max := 1, 1
	for len(b) > 0 {
		t, n, err := Varint(b)
		if err != nil {
			return 1 << 20
		}
		switch t & 7 {
		case WSGroup:
			depth++
			if depth > max {
				max = depth
			}
		case WEGroup:
			depth--
		default:
			if _, n, err = Next(b, 0); err != nil {
				return 1 << 20
			}
		}
		b = b[n:]
	}
	return max
}

func (d *decoder) field(m *Msg, f *Field, r Raw, depth int) error {
	get := func() *FV {
		fv := m.F[f.Num]
		if fv == nil {
			fv = &FV{F: f}
			m.F[f.Num] = fv
		}
		return fv
	}
	if f.Card == Map {
		if r.WT != WLen {
			d.loosen("wire type of " + f.Name)
			return nil
		}
		k, v := Val{}, zeroVal(f, f.Kind)
		if f.Kind == Message_ {
			// an overridden message value may or may not be looked at
			vals := 0
			for b := r.B; len(b) > 0; {
				e, n, err := Next(b, MaxDepth)
				if err != nil {
					break
				}
				if e.Num == 2 {
					vals++
				}
				b = b[n:]
			}
			if vals > 1 {
				d.loosen("message field occurs twice")
			}
		}
		for b := r.B; len(b) > 0; {
			e, n, err := Next(b, MaxDepth)
			if err != nil {
				return err
			}
			b = b[n:]
			switch {
			case e.Num == 1:
				if e.WT != f.Key.Wire() {
					d.loosen("wire type of a map key")
					continue
				}
				if f.Key == String {
					if !utf8.Valid(e.B) {
						d.loosen("invalid UTF-8")
					}
					k = Val{B: e.B}
				} else {
					k = d.num(f.Key, e)
				}
			case e.Num == 2:
				if e.WT != f.Kind.Wire() {
					d.loosen("wire type of a map value")
					continue
				}
				switch f.Kind {
				case String, Bytes:
					if f.Kind == String && !utf8.Valid(e.B) {
						d.loosen("invalid UTF-8")
					}
					v = Val{B: e.B}
				case Message_:
					if err := d.message(v.M, e.B, depth+1); err != nil {
						return err
					}
				default:
					v = d.num(f.Kind, e)
				}
			}
		}
		fv := get()
		for i := range fv.Map {
			if KeyEq(f.Key, fv.Map[i].K, k) {
				fv.Map[i].V = v.clone()
				return nil
			}
		}
		fv.Map = append(fv.Map, Entry{k.clone(), v.clone()})
		return nil
	}
	if f.IsList() && f.Kind.Packable() && r.WT == WLen {
		fv := get()
		b := r.B
		for len(b) > 0 {
			var e Raw
			switch f.Kind.Wire() {
			case WVarint:
				u, n, err := Varint(b)
				if err != nil {
					return err
				}
				e.U = u
				b = b[n:]
			case WI32:
				if len(b) < 4 {
					return ErrTrunc
				}
				for i := 0; i < 4; i++ {
					e.U |= uint64(b[i]) << (8 * i)
				}
				b = b[4:]
			case WI64:
				if len(b) < 8 {
					return ErrTrunc
				}
				for i := 0; i < 8; i++ {
					e.U |= uint64(b[i]) << (8 * i)
				}
				b = b[8:]
			}
			fv.List = append(fv.List, d.num(f.Kind, e))
		}
		return nil
	}
	if r.WT != f.Kind.Wire() {
		d.loosen("wire type of " + f.Name)
		return nil
	}
	var v Val
	switch f.Kind {
	case String, Bytes:
		if f.Kind == String && !utf8.Valid(r.B) {
			d.loosen("invalid UTF-8")
		}
		v = Val{B: append([]byte{}, r.B...)}
	case Message_:
		var sub *Msg
		if !f.IsList() {
			if fv := m.F[f.Num]; fv != nil {
				d.loosen("message field occurs twice")
				sub = fv.One.M
			}
		}
		if sub == nil {
			sub = NewMsg(f.Msg)
		}
		if err := d.message(sub, r.B, depth+1); err != nil {
			return err
		}
		v = Val{M: sub}
	default:
		v = d.num(f.Kind, r)
	}
	if f.Card == Oneof {
		for _, o := range m.T.Fields {
			if o.Oneof == f.Oneof && o != f {
				delete(m.F, o.Num)
			}
		}
	}
	fv := get()
	if f.IsList() {
		fv.List = append(fv.List, v)
	} else {
		fv.One = v
	}
	return nil
}

// EncodeScalar gives one scalar field, tag included, in canonical form.
func EncodeScalar(k Kind, num int32, v Val) []byte {
	e := &encoder{}
	return e.scalar(e.tag(nil, num, k.Wire()), k, v)
}
