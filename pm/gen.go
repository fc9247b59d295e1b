package pm

import (
	"fmt"
	"math"
)

// ---- values ----------------------------------------------------------------

var edge = []uint64{0, 1, 2, 63, 64, 127, 128, 129, 255, 256, 16383, 16384, 2097151, 2097152, 268435455, 268435456,
	1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 35, 1 << 42, 1 << 49, 1 << 56, 1<<63 - 1, 1 << 63, math.MaxUint64, math.MaxUint64 - 1,
	uint64(math.MaxUint64 - 63), uint64(math.MaxUint64 - 127)}

func genText(r *Rng) []byte {
	n := 0
	switch r.Pick(20, 80, 40, 20, 10, 2) {
	case 1:
		n = 1 + r.N(12)
	case 2:
		n = 1 + r.N(40)
	case 3:
		n = 100 + r.N(60) // around the one-byte length limit
	case 4:
		n = 200 + r.N(1500)
	case 5:
		n = 900 + r.N(9000)
	}
	b := make([]byte, 0, n+4)
	for len(b) < n {
		switch r.Pick(12, 1, 1) {
		case 0:
			b = append(b, byte(' '+r.N(95)))
		case 1:
			b = append(b, []byte(string(rune(0xa1+r.N(0x700))))...)
		case 2:
			b = append(b, []byte(string(rune(0x4e00+r.N(0x1000))))...)
		}
	}
	return b
}

func genBytes(r *Rng) []byte {
	b := genText(r)
	if r.P(0.5) {
		for i := range b {
			b[i] = byte(r.U64())
		}
	}
	return b
}

// GenScalar makes a value of a scalar kind.
func GenScalar(r *Rng, k Kind) Val { return genScalar(r, k) }

func genScalar(r *Rng, k Kind) Val {
	switch k {
	case String:
		return Val{B: genText(r)}
	case Bytes:
		return Val{B: genBytes(r)}
	case Bool:
		return Val{U: uint64(r.N(2))}
	case Float:
		if r.P(0.5) {
			return Val{U: uint64(math.Float32bits(float32(r.N(2000)-1000) / 8))}
		}
		return Val{U: []uint64{0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x7f7fffff, 0x3f800000}[r.N(8)]}
	case Double:
		if r.P(0.5) {
			return Val{U: math.Float64bits(float64(r.N(2000)-1000) / 8)}
		}
		return Val{U: []uint64{0, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 1, 0x7fefffffffffffff, 0x3ff0000000000000}[r.N(8)]}
	}
	var u uint64
	switch r.Pick(4, 4, 3) {
	case 0:
		u = uint64(r.N(300))
	case 1:
		u = edge[r.N(len(edge))]
	case 2:
		u = r.U64() >> uint(r.N(64))
	}
	if r.P(0.2) {
		u = -u
	}
	return Val{U: canon(k, u)}
}

// Size knobs for message generation.
type Knobs struct {
	FieldP  float64 // probability a field is present
	MaxList int
	Depth   int  // nesting bound
	Unknown bool // add unknown fields where the type stores them
	Budget  int  // bound on the number of values
}

func RandKnobs(r *Rng) Knobs {
	return Knobs{FieldP: []float64{0.1, 0.3, 0.6, 0.95}[r.N(4)], MaxList: []int{2, 5, 12, 40}[r.Pick(4, 4, 3, 1)],
		Depth: 1 + r.N(5), Unknown: r.P(0.5), Budget: []int{20, 60, 200, 600}[r.Pick(4, 5, 3, 1)]}
}

// GenMsg makes a random message value.
func GenMsg(r *Rng, t *Message, k Knobs) *Msg {
	budget := k.Budget
	m := genMsg(r, t, k, k.Depth, &budget)
	return m.Normalize()
}

func genMsg(r *Rng, t *Message, k Knobs, depth int, budget *int) *Msg {
	m := NewMsg(t)
	*budget--
	p := k.FieldP
	if len(t.Fields) > 40 { // matrix messages
		p = math.Min(p, 20/float64(len(t.Fields)))
	}
	oneofs := map[string][]*Field{}
	val := func(f *Field) (Val, bool) {
		*budget--
		if f.Kind != Message_ {
			return genScalar(r, f.Kind), true
		}
		if depth <= 0 || *budget <= 0 {
			return Val{M: NewMsg(f.Msg)}, true
		}
		return Val{M: genMsg(r, f.Msg, k, depth-1, budget)}, true
	}
	for _, f := range t.Fields {
		if f.Bad != "" {
			continue
		}
		if f.Card == Oneof {
			oneofs[f.Oneof] = append(oneofs[f.Oneof], f)
			continue
		}
		if !r.P(p) || *budget <= 0 {
			continue
		}
		if f.Kind == Message_ && depth <= 0 && r.P(0.7) {
			continue
		}
		fv := &FV{F: f}
		switch {
		case f.IsList():
			n := r.N(k.MaxList + 1)
			if f.Kind == Message_ && n > 6 {
				n = 6
			}
			for i := 0; i < n; i++ {
				v, _ := val(f)
				fv.List = append(fv.List, v)
			}
		case f.Card == Map:
			n := r.N(k.MaxList + 1)
			for i := 0; i < n; i++ {
				kv := genScalar(r, f.Key)
				v, _ := val(f)
				dup := false
				for _, e := range fv.Map {
					dup = dup || KeyEq(f.Key, e.K, kv)
				}
				if !dup {
					fv.Map = append(fv.Map, Entry{kv, v})
				}
			}
		default:
			fv.One, _ = val(f)
			if r.P(0.08) { // explicit zero
				fv.One = zeroVal(f, f.Kind)
			}
		}
		m.F[f.Num] = fv
	}
	for _, f := range t.Fields { // in field order: deterministic
		ms := oneofs[f.Oneof]
		if f.Card != Oneof || len(ms) == 0 || ms[0] != f {
			continue
		}
		if r.P(math.Max(p, 0.3)) {
			c := ms[r.N(len(ms))]
			v, _ := val(c)
			if r.P(0.15) {
				v = zeroVal(c, c.Kind)
			}
			m.F[c.Num] = &FV{F: c, One: v}
		}
	}
	if k.Unknown && t.Unk != UnkNone && r.P(0.5) {
		for i := 1 + r.N(3); i > 0; i-- {
			m.Unk = AppendUnknownField(m.Unk, r, UnknownNums(t))
		}
	}
	return m
}

// UnknownNums gives field numbers the type does not define.
func UnknownNums(t *Message) []int32 {
	var out []int32
	for _, n := range []int32{1, 2, 7, 14, 15, 16, 90, 999, 1000, 1001, 2047, 2048, 70000, 1<<29 - 1, 1<<29 - 2} {
		if t.Field(n) == nil && !t.reserved(n) {
			out = append(out, n)
		}
	}
	return append(out, 190007)
}

func (m *Message) reserved(n int32) bool {
	for _, x := range m.Avoid {
		if x == n {
			return true
		}
	}
	return false
}

// ---- schemas ---------------------------------------------------------------

var mapKeys = []Kind{Int32, Int64, Uint32, Uint64, Sint32, Sint64, Fixed32, Fixed64, Sfixed32, Sfixed64, Bool, String}

// FamilyOpts steers the random schema generator.
type FamilyOpts struct {
	Msgs      int
	MaxFields int
	MsgW      int  // weight of message-typed fields, out of about 20
	NoPtr     bool // allow messages held by value
	Proto     bool // only what a .proto file can say (no NoPtr, no Go-only layouts)
	AllUnk    bool // every message stores unknown fields
}

// GenFamily makes a random schema family, a pure function of its arguments.
func GenFamily(name string, seed uint64, o FamilyOpts) *Family {
	r := NewRng(seed)
	f := &Family{Name: name}
	for i := 0; i < o.Msgs; i++ {
		m := &Message{Name: fmt.Sprintf("%sM%d", name, i), Style: r.N(2)}
		m.GoName = m.Name
		m.Unk = []UnkMode{UnkNone, UnkBytes, UnkXXX, UnkPtr}[r.Pick(2, 4, 2, 2)]
		if o.AllUnk && m.Unk == UnkNone {
			m.Unk = UnkBytes
		}
		f.Messages = append(f.Messages, m)
	}
	for i, m := range f.Messages {
		n := 1 + r.N(o.MaxFields)
		if r.P(0.05) {
			n = 0
		}
		used := map[int32]bool{}
		oneof, left := "", 0
		noneof := 0
		// some messages are narrow: scalars only, one kind only, no kind of some cards
		narrow := -1
		var only Kind
		if r.P(0.2) {
			narrow = r.N(4)
			only = Kind(r.N(int(Message_)))
			if narrow < 2 && m.Unk != UnkNone && !o.AllUnk && r.P(0.6) {
				m.Unk = UnkNone
			}
		}
		for j := 0; j < n; j++ {
			x := &Field{}
			for {
				switch r.Pick(12, 4, 2, 1, 1, 2) {
				case 0:
					x.Num = int32(1 + r.N(15))
				case 1:
					x.Num = int32(16 + r.N(200))
				case 2:
					x.Num = []int32{127, 128, 999, 1000, 1001, 1002, 2047, 2048}[r.N(8)]
				case 3:
					x.Num = int32(2000 + r.N(60000))
				case 4:
					x.Num = []int32{1<<29 - 1, 1<<29 - 2, 18999, 20000, 1 << 28, 262143, 262144}[r.N(7)]
				case 5: // the same low bits as another field, or just beside
					if j > 0 {
						x.Num = m.Fields[r.N(j)].Num&(1<<20-1) + int32(1)<<(4+r.N(24)) + int32(r.N(2))
					}
				}
				if x.Num < 1 || x.Num >= 19000 && x.Num < 20000 {
					continue
				}
				if !used[x.Num] {
					break
				}
			}
			used[x.Num] = true
			x.Name = fmt.Sprintf("f%d", x.Num)
			x.GoName = fmt.Sprintf("F%d", x.Num)
			x.Kind = Kind(r.N(int(Message_)))
			if r.N(20) < o.MsgW {
				x.Kind = Message_
			}
			switch narrow {
			case 0, 1: // nothing that needs memory of its own, but oneofs
				for x.Kind == String || x.Kind == Bytes || x.Kind == Message_ {
					x.Kind = Kind(r.N(int(Message_)))
				}
			case 2:
				x.Kind = only
			}
			if left > 0 {
				x.Card, x.Oneof = Oneof, oneof
				left--
			} else if narrow >= 0 && narrow < 2 {
				x.Card = []Card{Implicit, Oneof, Optional}[r.Pick(5, 3, narrow)]
				if x.Card == Oneof {
					noneof++
					oneof = fmt.Sprintf("O%d", noneof)
					x.Oneof = oneof
					left = r.N(4)
				}
			} else {
				x.Card = []Card{Implicit, Optional, Required, Repeated, Packed, Map, Oneof}[r.Pick(10, 5, 1, 5, 5, 6, 3)]
				if x.Card == Oneof {
					noneof++
					oneof = fmt.Sprintf("O%d", noneof)
					x.Oneof = oneof
					left = r.N(4)
				}
			}
			if x.Card == Packed && !x.Kind.Packable() {
				x.Card = Repeated
			}
			if x.Card == Map {
				x.Key = mapKeys[r.N(len(mapKeys))]
			}
			if !o.Proto && x.Kind != Message_ {
				switch {
				case x.Kind == Bytes && (x.Card == Optional || x.Card == Required):
					x.Ptr = r.P(0.2)
				case x.Kind != Bytes && x.Kind != Enum:
					x.Named = r.P(0.12)
				}
			}
			if !o.Proto && x.Card == Map {
				x.NamedK = r.P(0.15)
			}
			if x.Kind == Message_ {
				t := r.N(len(f.Messages))
				x.Msg = f.Messages[t]
				if x.Card == Optional || x.Card == Required {
					x.Card = Implicit
				}
				if o.NoPtr && !o.Proto && r.P(0.2) && (t > i || x.Card != Implicit) {
					x.NoPtr = true
				}
			}
			m.Fields = append(m.Fields, x)
		}
		m.Index()
	}
	return f
}

// Matrix is the family with every kind in every position and every pair of map
// key and value kinds.
func Matrix(name string) *Family {
	f := &Family{Name: name}
	leaf := &Message{Name: name + "Leaf", Unk: UnkBytes, Fields: []*Field{
		{Num: 1, Kind: Int32}, {Num: 2, Kind: String}, {Num: 3, Kind: Bytes, Card: Optional}}}
	leafv := &Message{Name: name + "LeafV", Fields: []*Field{{Num: 1, Kind: Int64}, {Num: 2, Kind: String}}}
	empty := &Message{Name: name + "Empty"}
	small := &Message{Name: name + "Small", Fields: []*Field{{Num: 1, Kind: Int32}}}
	none := &Message{Name: name + "None", Bare: 1}
	pad := &Message{Name: name + "Pad", Bare: 2}
	flat := &Message{Name: name + "Flat", Fields: []*Field{{Num: 1, Kind: Sint32}, {Num: 2, Kind: Fixed64},
		{Num: 3, Kind: Uint64, Card: Oneof, Oneof: "O0"}, {Num: 4, Kind: Bool, Card: Oneof, Oneof: "O0"}, {Num: 5, Kind: Float, Card: Oneof, Oneof: "O0"}}}
	all := []*Message{leaf, leafv, empty, small, none, pad, flat}
	for ci, c := range []Card{Implicit, Optional, Repeated, Packed, Oneof} {
		m := &Message{Name: fmt.Sprintf("%sS%d", name, ci), Unk: UnkMode(ci % 4), Style: ci % 2}
		for k := Kind(0); k < NKinds; k++ {
			cc := c
			if c == Packed && !k.Packable() {
				continue
			}
			if c == Optional && k == Message_ {
				cc = Implicit
			}
			x := &Field{Num: int32(k) + 1, Kind: k, Card: cc}
			if k == Message_ {
				x.Msg = leaf
			}
			if c == Oneof {
				x.Oneof = fmt.Sprintf("O%d", int(k)%2)
			}
			m.Fields = append(m.Fields, x)
		}
		if c == Oneof {
			m.Fields = append(m.Fields, &Field{Num: 30, Kind: Message_, Card: c, Oneof: "O1", Msg: leafv, NoPtr: true},
				&Field{Num: 31, Kind: Message_, Card: c, Oneof: "O0", Msg: none, NoPtr: true},
				&Field{Num: 32, Kind: Message_, Card: c, Oneof: "O0", Msg: none},
				&Field{Num: 33, Kind: String, Card: c, Oneof: "O0", Named: true},
				&Field{Num: 34, Kind: Message_, Card: c, Oneof: "O1", Msg: m})
		}
		if c == Optional {
			m.Fields = append(m.Fields, &Field{Num: 40, Kind: Bytes, Card: c, Ptr: true})
		}
		if c == Implicit || c == Repeated {
			m.Fields = append(m.Fields, &Field{Num: 30, Kind: Message_, Card: c, Msg: leafv, NoPtr: true},
				&Field{Num: 31, Kind: Message_, Card: c, Msg: empty, NoPtr: true},
				&Field{Num: 32, Kind: Message_, Card: c, Msg: small, NoPtr: true},
				&Field{Num: 33, Kind: Message_, Card: c, Msg: empty},
				&Field{Num: 35, Kind: Message_, Card: c, Msg: none, NoPtr: true},
				&Field{Num: 36, Kind: Message_, Card: c, Msg: pad, NoPtr: true},
				&Field{Num: 37, Kind: Message_, Card: c, Msg: none},
				&Field{Num: 38, Kind: Message_, Card: c, Msg: flat},
				&Field{Num: 39, Kind: Message_, Card: c, Msg: flat, NoPtr: true},
				&Field{Num: 34, Kind: Message_, Card: c, Msg: m})
		}
		all = append(all, m)
	}
	for i, k := range mapKeys {
		m := &Message{Name: fmt.Sprintf("%sMap%d", name, i), Unk: UnkMode(i % 4)}
		for v := Kind(0); v < NKinds; v++ {
			x := &Field{Num: int32(v) + 1, Kind: v, Card: Map, Key: k}
			if v == Message_ {
				x.Msg = leaf
			}
			m.Fields = append(m.Fields, x)
		}
		m.Fields = append(m.Fields, &Field{Num: 30, Kind: Message_, Card: Map, Key: k, Msg: leafv, NoPtr: true},
			&Field{Num: 31, Kind: Message_, Card: Map, Key: k, Msg: empty, NoPtr: true},
			&Field{Num: 32, Kind: Message_, Card: Map, Key: k, Msg: none, NoPtr: true},
			&Field{Num: 33, Kind: Message_, Card: Map, Key: k, Msg: pad, NoPtr: true, NamedK: true},
			&Field{Num: 34, Kind: Message_, Card: Map, Key: k, Msg: none, NamedK: true},
			&Field{Num: 35, Kind: Message_, Card: Map, Key: k, Msg: flat},
			&Field{Num: 36, Kind: Message_, Card: Map, Key: k, Msg: flat, NoPtr: true},
			&Field{Num: 1500, Kind: Message_, Card: Map, Key: k, Msg: m})
		all = append(all, m)
	}
	// numbers around every power of two, in two messages
	for v := 0; v < 2; v++ {
		m := &Message{Name: fmt.Sprintf("%sNum%d", name, v), Unk: UnkMode(1 + v)}
		seen := map[int32]bool{}
		for k := 2; k < 29; k++ {
			for d := -1; d <= 1; d++ {
				n := int32(1)<<k + int32(d)
				if seen[n] {
					continue
				}
				seen[n] = true
				if v == 1 && (k+d)%3 == 0 {
					continue
				}
				x := &Field{Num: n, Kind: Kind((k + d + v) % int(Message_)), Card: []Card{Implicit, Optional, Repeated, Packed}[(k*(d+1)+v)%4]}
				if x.Card == Packed && !x.Kind.Packable() {
					x.Card = Repeated
				}
				m.Fields = append(m.Fields, x)
			}
		}
		all = append(all, m)
	}
	for _, m := range all {
		m.GoName = m.Name
		for _, x := range m.Fields {
			x.Name = fmt.Sprintf("f%d", x.Num)
			x.GoName = fmt.Sprintf("F%d", x.Num)
		}
		m.Index()
	}
	f.Messages = all
	return f
}

// Versions derives older versions of a family: each has a subset of the fields
// of the previous one; message types lost with their last reference stay.
// Result[0] is the full version.
func Versions(f *Family, seed uint64, n int, keep float64) []*Family {
	r := NewRng(seed)
	out := []*Family{f}
	for v := 1; v < n; v++ {
		g := &Family{Name: fmt.Sprintf("%sv%d", f.Name, v)}
		by := map[*Message]*Message{}
		for _, m := range f.Messages {
			c := &Message{Name: m.Name + fmt.Sprintf("v%d", v), Unk: m.Unk, Style: r.N(2)}
			if r.P(0.5) {
				c.Unk = []UnkMode{UnkBytes, UnkXXX, UnkPtr}[r.N(3)]
			}
			c.GoName = c.Name
			by[m] = c
			g.Messages = append(g.Messages, c)
		}
		for _, m := range f.Messages {
			c := by[m]
			drop := map[string]bool{}
			for _, x := range m.Fields {
				if x.Card == Oneof {
					if _, ok := drop[x.Oneof]; !ok {
						drop[x.Oneof] = !r.P(keep)
					}
				}
			}
			for _, x := range m.Fields {
				k := r.P(keep)
				if x.Card == Oneof {
					k = !drop[x.Oneof] && r.P(0.7)
				}
				if !k {
					c.Avoid = append(c.Avoid, x.Num)
					continue
				}
				y := *x
				if x.Msg != nil {
					y.Msg = by[x.Msg]
				}
				c.Fields = append(c.Fields, &y)
			}
			c.Index()
		}
		out = append(out, g)
	}
	return out
}

// Enlarge makes one thing in a message big: a string, a list, the stored
// unknown fields. Sizes are often about where length prefixes grow.
func Enlarge(r *Rng, m *Msg) {
	var all []*Msg
	var visit func(m *Msg)
	visit = func(m *Msg) {
		all = append(all, m)
		for _, n := range m.nums() {
			fv := m.F[n]
			if fv.F.Kind != Message_ {
				continue
			}
			if fv.One.M != nil {
				visit(fv.One.M)
			}
			for _, v := range fv.List {
				if v.M != nil {
					visit(v.M)
				}
			}
			for _, e := range fv.Map {
				if e.V.M != nil {
					visit(e.V.M)
				}
			}
		}
	}
	visit(m)
	size := func() int {
		switch r.Pick(3, 3, 2, 2) {
		case 0:
			return 1<<14 - r.N(20) + 4
		case 1:
			return 1<<21 - r.N(30) + 4
		case 2:
			return 3000 + r.N(100000)
		}
		return 1 << (10 + r.N(9))
	}
	fill := func(n int) []byte {
		b := make([]byte, n)
		x := r.U64()
		for i := range b {
			b[i] = ' ' + byte(x>>(i&31))&63 + byte(i%23)
		}
		return b
	}
	for try := 0; try < 8; try++ {
		x := all[r.N(len(all))]
		if len(all) > 1 && r.P(0.7) {
			x = all[1+r.N(len(all)-1)]
		}
		if x.T.Unk != UnkNone && r.P(0.2) {
			n := size()
			if r.P(0.5) { // many small ones
				for len(x.Unk) < n {
					x.Unk = AppendUnknownField(x.Unk, r, UnknownNums(x.T))
				}
			} else {
				nums := UnknownNums(x.T)
				x.Unk = AppendVarint(x.Unk, uint64(uint32(nums[r.N(len(nums))]))<<3|WLen)
				x.Unk = append(AppendVarint(x.Unk, uint64(n)), fill(n)...)
			}
			return
		}
		if len(x.T.Fields) == 0 {
			continue
		}
		f := x.T.Fields[r.N(len(x.T.Fields))]
		fv := x.F[f.Num]
		if f.Bad != "" || f.Card == Oneof && fv == nil {
			continue
		}
		text := f.Kind == String || f.Kind == Bytes
		switch {
		case f.Card == Map:
			if fv == nil || len(fv.Map) == 0 || !text {
				continue
			}
			fv.Map[r.N(len(fv.Map))].V.B = fill(size())
		case f.IsList():
			if fv == nil {
				fv = &FV{F: f}
			}
			if text && r.P(0.5) {
				fv.List = append(fv.List, Val{B: fill(size())})
				x.F[f.Num] = fv
				return
			}
			n := 100 + r.N(6000)
			if f.Kind == Message_ {
				n = 20 + r.N(400)
			} else if f.Kind.Packable() && r.P(0.5) {
				n = []int{127, 128, 4095, 4096, 16383, 16384, 20000, 2048}[r.N(8)]
			}
			for len(fv.List) < n {
				switch {
				case f.Kind == Message_:
					fv.List = append(fv.List, Val{M: NewMsg(f.Msg)})
				case text:
					fv.List = append(fv.List, Val{B: fill(r.N(12))})
				default:
					fv.List = append(fv.List, genScalar(r, f.Kind))
				}
			}
			x.F[f.Num] = fv
		case text:
			x.F[f.Num] = &FV{F: f, One: Val{B: fill(size())}}
		default:
			continue
		}
		return
	}
}
