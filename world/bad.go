package world

import (
	"reflect"
	"runtime"

	"github.com/cloudwego/prutal"

	"verif/bind"
	"verif/pm"
	"verif/sim/simrt"
)

// damage applies what happens to bytes in storage and on the wire.
func damage(b []byte, r *pm.Rng) ([]byte, string) {
	b = append([]byte(nil), b...)
	kinds := ""
	for n := 1 + r.Pick(5, 3, 1); n > 0; n-- {
		switch r.Pick(4, 4, 2, 2, 2, 2, 2, 1, 2) {
		case 0:
			b = b[:r.N(len(b)+1)]
			kinds += "truncate "
		case 1:
			if len(b) > 0 {
				b[r.N(len(b))] ^= 1 << r.N(8)
			}
			kinds += "bitflip "
		case 2:
			i := r.N(len(b) + 1)
			x := make([]byte, 1+r.N(6))
			for j := range x {
				x[j] = byte(r.U64())
			}
			b = append(b[:i:i], append(x, b[i:]...)...)
			kinds += "insert "
		case 3:
			if len(b) > 0 {
				i := r.N(len(b))
				j := i + 1 + r.N(8)
				if j > len(b) {
					j = len(b)
				}
				b = append(b[:i:i], b[j:]...)
			}
			kinds += "delete "
		case 4: // a claimed length or value becomes huge
			if len(b) > 0 {
				i := r.N(len(b))
				x := pm.AppendVarint(nil, []uint64{1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1 << 20, 1 << 28, 1<<31 - 1}[r.N(9)])
				b = append(b[:i:i], append(x, b[i+1:]...)...)
			}
			kinds += "hugelen "
		case 5: // torn: a tail of other data
			i := r.N(len(b) + 1)
			x := make([]byte, len(b)-i)
			for j := range x {
				x[j] = byte(r.U64())
			}
			b = append(b[:i:i], x...)
			kinds += "torn "
		case 6: // duplicated or moved segment
			if len(b) > 1 {
				i := r.N(len(b))
				j := i + 1 + r.N(len(b)-i)
				k := r.N(len(b) + 1)
				seg := append([]byte(nil), b[i:j]...)
				b = append(b[:k:k], append(seg, b[k:]...)...)
			}
			kinds += "dup "
		case 7: // lost block
			if len(b) > 0 {
				i := r.N(len(b))
				for j := i; j < len(b) && j < i+16; j++ {
					b[j] = 0
				}
			}
			kinds += "zeroblock "
		case 8:
			if len(b) > 0 {
				b[r.N(len(b))] = []byte{0x03, 0x04, 0x0b, 0x0c, 0x06, 0x07, 0x00, 0xff, 0x80, 0x0a}[r.N(10)]
			}
			kinds += "overwrite "
		}
	}
	return b, kinds
}

// craft makes hostile input for a type: the biggest ones only where the cost of
// decoding is the question.
func craft(s *bind.Shape, r *pm.Rng, big bool) ([]byte, string) {
	tag := func(n int32, wt int) []byte { return pm.AppendVarint(nil, uint64(uint32(n))<<3|uint64(wt)) }
	pick := func(ok func(*pm.Field) bool) *pm.Field {
		var c []*pm.Field
		for _, f := range s.M.Fields {
			if ok(f) {
				c = append(c, f)
			}
		}
		if len(c) == 0 {
			return nil
		}
		return c[r.N(len(c))]
	}
	switch r.Pick(3, 3, 2, 3, 2, 3, 2) {
	case 0: // nested groups in an unknown field
		n := []int{1, 5, 80, 9000, 12000, 200000}[r.N(6)]
		num := pm.UnknownNums(s.M)[0]
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, tag(num, pm.WSGroup)...)
		}
		closed := n
		if r.P(0.3) {
			closed = r.N(n + 1)
		}
		for i := 0; i < closed; i++ {
			b = append(b, tag(num, pm.WEGroup)...)
		}
		return b, "groups"
	case 1: // many tiny occurrences of one field
		if r.P(0.35) {
			return craftMix(s, r, big), "many mixed"
		}
		f := pick(func(f *pm.Field) bool { return true })
		if f == nil {
			return []byte{}, "empty"
		}
		n := []int{10, 200, 3000, 20000}[r.Pick(4, 4, 4, 1)]
		var b []byte
		wt := f.Kind.Wire()
		if f.IsList() && r.P(0.5) || f.Card == pm.Map {
			wt = pm.WLen
		}
		if f.IsList() && f.Kind.Packable() && wt == pm.WLen && r.P(0.6) { // of one element each
			for i := 0; i < n; i++ {
				b = append(b, tag(f.Num, wt)...)
				switch f.Kind.Wire() {
				case pm.WI32:
					b = append(b, 4, 1, 0, 0, 0)
				case pm.WI64:
					b = append(b, 8, 1, 0, 0, 0, 0, 0, 0, 0)
				default:
					b = append(b, 1, 1)
				}
			}
			return b, "many packed"
		}
		for i := 0; i < n; i++ {
			b = append(b, tag(f.Num, wt)...)
			switch wt {
			case pm.WVarint, pm.WLen:
				b = append(b, 0)
			case pm.WI32:
				b = append(b, 1, 0, 0, 0)
			case pm.WI64:
				b = append(b, 1, 0, 0, 0, 0, 0, 0, 0)
			}
		}
		return b, "many"
	case 2: // claimed length far beyond the input
		f := pick(func(f *pm.Field) bool { return true })
		n := int32(1)
		if f != nil {
			n = f.Num
		}
		b := tag(n, pm.WLen)
		b = pm.AppendVarint(b, []uint64{1 << 30, 1 << 31, 1<<31 - 1, 1 << 32, 1 << 40, 1<<63 - 1, 1 << 63, 1<<64 - 1, 100}[r.N(9)])
		for i := r.N(8); i > 0; i-- {
			b = append(b, byte(r.U64()))
		}
		return b, "hugelen"
	case 3: // every wire type for a field, with some payload
		f := pick(func(f *pm.Field) bool { return true })
		if f == nil {
			return []byte{}, "empty"
		}
		var b []byte
		for i := 1 + r.N(3); i > 0; i-- {
			wt := r.N(8)
			b = append(b, tag(f.Num, wt)...)
			switch wt {
			case pm.WVarint:
				b = pm.AppendVarint(b, r.U64()>>uint(r.N(64)))
			case pm.WI64:
				b = append(b, 1, 2, 3, 4, 5, 6, 7, 8)
			case pm.WI32:
				b = append(b, 1, 2, 3, 4)
			case pm.WLen:
				n := r.N(20)
				b = pm.AppendVarint(b, uint64(n))
				for ; n > 0; n-- {
					b = append(b, byte(r.U64()))
				}
			case pm.WSGroup:
				if r.P(0.5) {
					b = append(b, 8, 1)
				}
				b = append(b, tag(f.Num, pm.WEGroup)...)
			}
		}
		return b, "wiretypes"
	case 4: // damaged map entry
		f := pick(func(f *pm.Field) bool { return f.Card == pm.Map })
		if f == nil {
			return []byte{0xff}, "junk"
		}
		m := pm.NewMsg(s.M)
		fv := &pm.FV{F: f, Map: []pm.Entry{{K: pm.GenScalar(r, f.Key), V: pm.Val{M: nil}}}}
		if f.Kind != pm.Message_ {
			fv.Map[0].V = pm.GenScalar(r, f.Kind)
		}
		m.F[f.Num] = fv
		raw, _, err := pm.Next(pm.Encode(m, nil), 10)
		if err != nil {
			return []byte{}, "empty"
		}
		e, k := damage(raw.B, r)
		b := tag(f.Num, pm.WLen)
		b = append(pm.AppendVarint(b, uint64(len(e))), e...)
		return b, "mapentry " + k
	case 5: // packed data that stops in the middle, or is empty
		f := pick(func(f *pm.Field) bool { return f.IsList() && f.Kind.Packable() })
		if f == nil {
			return []byte{0x80}, "junk"
		}
		n := r.N(40)
		x := make([]byte, n)
		for i := range x {
			x[i] = byte(r.U64())
			if r.P(0.5) {
				x[i] &= 0x7f
			}
		}
		if r.P(0.4) { // varints, one of which does not end in time
			x = x[:0]
			at := r.N(n + 1)
			for i := 0; i <= n; i++ {
				if i == at {
					for j := 9 + r.N(4); j > 0; j-- {
						x = append(x, 0x80|byte(r.U64()))
					}
				}
				x = pm.AppendVarint(x, r.U64()>>uint(r.N(64)))
			}
			n = len(x)
		}
		b := tag(f.Num, pm.WLen)
		return append(pm.AppendVarint(b, uint64(n)), x...), "packed"
	default:
		n := r.N(200)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.U64())
			if r.P(0.4) {
				b[i] &= 0x1f
			}
		}
		return b, "junk"
	}
}

// craftMix makes many small occurrences of a few fields, known and unknown, one
// after the other or in turn. Entries of a map get distinct keys.
func craftMix(s *bind.Shape, r *pm.Rng, big bool) []byte {
	unk := pm.UnknownNums(s.M)
	var gen []func(b []byte, i int) []byte
	for k := 1 + r.N(3); k > 0; k-- {
		if len(s.M.Fields) == 0 || r.P(0.45) {
			num := unk[r.N(len(unk))]
			switch r.N(5) {
			case 0:
				gen = append(gen, func(b []byte, i int) []byte {
					return append(pm.AppendVarint(b, uint64(num)<<3|2), 0)
				})
			case 1:
				n := r.N(20)
				gen = append(gen, func(b []byte, i int) []byte {
					b = append(pm.AppendVarint(b, uint64(num)<<3|2), byte(n))
					return append(b, make([]byte, n)...)
				})
			case 2:
				gen = append(gen, func(b []byte, i int) []byte {
					b = pm.AppendVarint(b, uint64(num)<<3|pm.WSGroup)
					return pm.AppendVarint(b, uint64(num)<<3|pm.WEGroup)
				})
			default:
				gen = append(gen, func(b []byte, i int) []byte {
					return append(pm.AppendVarint(b, uint64(num)<<3), byte(i&0x7f))
				})
			}
			continue
		}
		f := s.M.Fields[r.N(len(s.M.Fields))]
		gen = append(gen, func(b []byte, i int) []byte {
			wt := f.Kind.Wire()
			if f.Card == pm.Map {
				wt = pm.WLen
			}
			b = pm.AppendVarint(b, uint64(f.Num)<<3|uint64(wt))
			if f.Card == pm.Map {
				var e []byte
				switch kw := f.Key.Wire(); kw {
				case pm.WVarint:
					e = pm.AppendVarint([]byte{1 << 3}, uint64(i))
				case pm.WI32:
					e = append([]byte{1<<3 | pm.WI32}, byte(i), byte(i>>8), byte(i>>16), 0)
				case pm.WI64:
					e = append([]byte{1<<3 | pm.WI64}, byte(i), byte(i>>8), byte(i>>16), 0, 0, 0, 0, 0)
				default:
					e = append([]byte{1<<3 | pm.WLen}, 3, byte('a'+i&15), byte('a'+i>>4&15), byte('a'+i>>8&15))
				}
				return append(append(b, byte(len(e))), e...)
			}
			switch wt {
			case pm.WI32:
				return append(b, 1, 0, 0, 0)
			case pm.WI64:
				return append(b, 1, 0, 0, 0, 0, 0, 0, 0)
			}
			return append(b, 0)
		})
	}
	n := []int{10, 200, 3000, 20000}[r.Pick(3, 4, 4, 2)]
	if !big {
		n = min(n, 3000)
	}
	var b []byte
	if r.P(0.5) { // in turn
		for i := 0; i < n; i++ {
			b = gen[i%len(gen)](b, i)
		}
		return b
	}
	for k, g := range gen {
		for i := 0; i < n/len(gen); i++ {
			b = g(b, i+k)
		}
	}
	return b
}

// bad decodes damaged or hostile bytes. The call must report what is malformed,
// decode what is not, stay within bounds, leave only input and zeros behind,
// and disturb nothing else.
func (t *thread) bad(op Op, r *pm.Rng) {
	w := t.w
	s := w.shape(op)
	var in []byte
	kind := ""
	if r.P(0.65) {
		in, kind = damage(w.encodeRef(w.valueFor(s, r), r), r)
	} else {
		in, kind = craft(s, r, w.plan.Prop == "C06")
	}
	t.count("damage")
	in = embed(in, r)
	out := pm.DecodeAs(s.M, in)
	normOut(&out)
	if out.Err != nil {
		t.count("damage_malformed")
	}
	_ = kind
	t.decodeBad(s, in, out)
}

func (t *thread) decodeBad(s *bind.Shape, in []byte, out pm.Outcome) {
	cp := append([]byte(nil), in...)
	measure := t.w.plan.P["bounds"] == 1
	var dst [2]*pm.Msg
	var errs [2]error
	var ps [2]reflect.Value
	for i := 0; i < 2; i++ {
		p := s.New()
		ps[i] = p
		var ms0, ms1 runtime.MemStats
		var st0, sw0 int64
		if measure {
			simrt.NoPreempt(true)
			runtime.ReadMemStats(&ms0)
			st0, sw0 = simrt.Steps(), simrt.Switches()
		}
		ok := t.call("Unmarshal", s, func() { errs[i] = prutal.Unmarshal(in, p.Interface()) })
		if measure {
			st := simrt.Steps() - st0
			runtime.ReadMemStats(&ms1)
			simrt.NoPreempt(false)
			if ok && sw0 == simrt.Switches() { // nobody else ran meanwhile
				t.count("bounded")
				a := int64(ms1.TotalAlloc - ms0.TotalAlloc)
				if lim := int64(1<<20) + int64(len(in))*(512+4*maxStruct(s)); a > lim {
					t.fail("bound-alloc", "decoding %d bytes as %s allocated %d bytes: %x", len(in), s.M.Name, a, clipB(in))
					return
				}
				if lim := int64(200_000) + int64(len(in))*800; st > lim {
					t.fail("bound-steps", "decoding %d bytes as %s took %d steps: %x", len(in), s.M.Name, st, clipB(in))
					return
				}
			}
		}
		if !ok {
			return
		}
		if !t.call("reading the destination of a decode", s, func() { dst[i] = s.Read(p) }) {
			return
		}
	}
	t.count("decodes_bad")
	for i := range in {
		if in[i] != cp[i] {
			t.fail("input-mutated", "Unmarshal(%s) changed its input bytes", s.M.Name)
			return
		}
	}
	if (errs[0] == nil) != (errs[1] == nil) {
		t.fail("nondet", "decoding the same bytes twice as %s gave %v and %v: %x", s.M.Name, errs[0], errs[1], clipB(in))
		return
	}
	if d := pm.Diff(dst[0], dst[1]); d != "" {
		t.fail("residue", "decoding the same bytes twice as %s (error: %v) left different values in the destination: %s: %x", s.M.Name, errs[0], d, clipB(in))
		return
	}
	if out.Loose == "" {
		if out.Err != nil && errs[0] == nil {
			t.fail("dec-noerr", "Unmarshal(%s) accepted malformed bytes (%v): %x", s.M.Name, out.Err, clipB(in))
			return
		}
		if out.Err == nil {
			if errs[0] != nil {
				t.fail("dec-err", "Unmarshal(%s): error %v for well-formed bytes %x", s.M.Name, errs[0], clipB(in))
				return
			}
			if d := pm.Diff(out.M, dst[0]); d != "" {
				t.fail("dec-value", "Unmarshal(%s): wrong value: %s: %x", s.M.Name, d, clipB(in))
				return
			}
		}
	}
	// what a failed call left is the caller's too
	for i, p := range ps {
		if i == 0 || errs[i] != nil {
			t.keep(s, p, dst[i], "what decoding damaged bytes left")
		}
	}
	scribble(in[:cap(in)], pm.NewRng(uint64(len(in))))
	t.verify("decoding damaged bytes and overwriting the input buffer")
}

// selfPath finds a chain of singular pointer or list fields from a message
// back to itself.
func selfPath(s *bind.Shape) []*bind.FShape {
	type node struct {
		s    *bind.Shape
		path []*bind.FShape
	}
	q := []node{{s, nil}}
	seen := map[*bind.Shape]bool{s: true}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		for _, f := range n.s.M.Sorted() {
			fs := n.s.F[f.Num]
			if fs == nil || fs.Sub == nil || f.NoPtr {
				continue
			}
			p := append(append([]*bind.FShape(nil), n.path...), fs)
			if fs.Sub == s {
				return p
			}
			if !seen[fs.Sub] {
				seen[fs.Sub] = true
				q = append(q, node{fs.Sub, p})
			}
		}
	}
	return nil
}

// deepable reports the types that can be nested without end.
func (ty *Types) findDeepable() {
	ty.Deepable = map[*bind.Shape][]*bind.FShape{}
	all := append([]*bind.Shape(nil), ty.Codec...)
	next := map[*bind.Shape][]*bind.FShape{}
	for _, s := range all {
		for _, f := range s.M.Sorted() {
			if fs := s.F[f.Num]; fs != nil && fs.Sub != nil && !f.NoPtr {
				next[s] = append(next[s], fs)
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, s := range all {
			if next[s] == nil {
				continue
			}
			var keep []*bind.FShape
			for _, fs := range next[s] {
				if next[fs.Sub] != nil {
					keep = append(keep, fs)
				}
			}
			if len(keep) != len(next[s]) {
				next[s] = keep
				changed = true
			}
		}
	}
	for _, s := range all {
		if len(next[s]) > 0 {
			ty.Deepable[s] = next[s]
		}
	}
}

// nestPath draws a way of nesting messages into one of type s.
func (ty *Types) nestPath(s *bind.Shape, r *pm.Rng, n int) []*bind.FShape {
	var path []*bind.FShape
	same := r.P(0.4) // go the same way again and again
	turn := map[*bind.Shape]*bind.FShape{}
	for len(path) < n {
		c := ty.Deepable[s]
		if c == nil {
			return nil
		}
		fs := c[r.N(len(c))]
		if same {
			if t := turn[s]; t != nil {
				fs = t
			}
			turn[s] = fs
		}
		path = append(path, fs)
		s = fs.Sub
	}
	return path
}

// nested encodes len(path) messages within one of type s. With dress, the
// levels carry other fields beside the nested message.
func nested(s *bind.Shape, path []*bind.FShape, r *pm.Rng, dress bool) []byte {
	last := s.M
	if len(path) > 0 {
		last = path[len(path)-1].Sub.M
	}
	b := pm.AppendVarint(nil, uint64(pm.UnknownNums(last)[0])<<3)
	b = append(b, 1)
	var rev []byte // built inside out: prepend
	rev = appendRev(rev, b)
	pad := func(i int) []byte { // a field unknown to the message at level i; only with dress
		n := r.N(6)
		if len(rev) < 1<<17 && r.P(0.02) {
			n = len(rev) + r.N(40)
		}
		at := s.M
		if i > 0 {
			at = path[i-1].Sub.M
		}
		h := pm.AppendVarint(nil, uint64(pm.UnknownNums(at)[0])<<3|2)
		h = pm.AppendVarint(h, uint64(n))
		return append(h, make([]byte, n)...)
	}
	after := 0.1
	if len(path) > 200 { // it copies what is inside
		after = 20 / float64(len(path))
	}
	for i := len(path) - 1; i >= 0; i-- {
		f := path[i].F
		var h []byte
		var before []byte
		if dress && r.P(0.1) {
			before = pad(i)
		}
		if dress && r.P(after) { // after the nested message: it is further inside the reversed text
			p := pad(i)
			rev2 := appendRev(make([]byte, 0, len(rev)+len(p)), p)
			inner := len(rev)
			rev = append(rev2, rev...)
			h = head(f, inner, i)
		} else {
			h = head(f, len(rev), i)
		}
		rev = appendRev(rev, h)
		rev = appendRev(rev, before)
	}
	in := make([]byte, len(rev))
	for i := range rev {
		in[i] = rev[len(rev)-1-i]
	}
	return in
}

// head is what precedes a nested message of n bytes in field f.
func head(f *pm.Field, n, i int) []byte {
	h := pm.AppendVarint(nil, uint64(uint32(f.Num))<<3|2)
	if f.Card == pm.Map { // entry {1: key, 2: message}
		e := pm.EncodeScalar(f.Key, 1, pm.GenScalar(pm.NewRng(uint64(i)), f.Key))
		e = pm.AppendVarint(e, 2<<3|2)
		e = pm.AppendVarint(e, uint64(n))
		h = pm.AppendVarint(h, uint64(n+len(e)))
		return append(h, e...)
	}
	return pm.AppendVarint(h, uint64(n))
}

// calibrate finds out how deep plain singular messages may be nested: that is
// the limit for every other way of nesting too.
func (ty *Types) calibrate() {
	ty.findDeepable()
	ty.DecLimit, ty.EncLimit = pm.MaxDepth, pm.MaxDepth
	s := ty.ByName["MxS0"]
	if s == nil || s.F[34] == nil {
		return
	}
	fs := s.F[34]
	limit := func(ok func(n int) bool) int {
		lo, hi := pm.MinDepth, pm.MaxDepth+10
		if ok(hi) {
			return pm.MaxDepth
		}
		for lo+1 < hi {
			m := (lo + hi) / 2
			if ok(m) {
				lo = m
			} else {
				hi = m
			}
		}
		return lo
	}
	ty.DecLimit = limit(func(n int) (ok bool) {
		defer func() { recover() }()
		var path []*bind.FShape
		for i := 0; i < n; i++ {
			path = append(path, fs)
		}
		return prutal.Unmarshal(nested(s, path, nil, false), s.New().Interface()) == nil
	})
	// A message held by value is one more level, so a type without one tells.
	ty.EncLimit = 0
	tried := 0
	for _, s := range ty.Codec {
		for _, fs := range ty.Deepable[s] {
			if fs.Sub != s || fs.F.Card == pm.Map || fs.F.IsList() || tried == 12 {
				continue
			}
			tried++
			n := limit(func(n int) (ok bool) {
				defer func() { recover() }()
				root := s.New()
				cur := root
				for i := 0; i < n; i++ {
					next := s.New()
					link(s, fs, cur.Elem(), next, i, nil)
					cur = next
				}
				_, err := prutal.Marshal(root.Interface())
				return err == nil
			})
			if n > ty.EncLimit {
				ty.EncLimit = n
			}
		}
	}
	if ty.EncLimit == 0 {
		ty.EncLimit = pm.MaxDepth
	}
}

func depthFor(r *pm.Rng, limit int) int {
	switch r.Pick(2, 2, 5, 3) {
	case 0:
		return []int{3, 40, 80}[r.N(3)]
	case 1:
		return limit + r.N(3)
	case 2:
		return limit + 1 + r.N(14)
	}
	return []int{10100, 12000, 50000}[r.N(3)]
}

// deep sends a message nested to a chosen depth.
func (t *thread) deep(op Op, r *pm.Rng) {
	s := t.w.shape(op)
	limit := t.w.ty.DecLimit
	depth := depthFor(r, limit)
	path := t.w.ty.nestPath(s, r, depth)
	if path == nil {
		return
	}
	in := nested(s, path, r, r.P(0.6))
	t.count("deep")
	p := s.New()
	var err error
	if !t.call("Unmarshal", s, func() { err = prutal.Unmarshal(in, p.Interface()) }) {
		return
	}
	if depth > limit && err == nil {
		t.fail("dec-noerr", "Unmarshal(%s) accepted %d nested messages, the limit is %d", s.M.Name, depth, limit)
		return
	}
	if depth < pm.MinDepth && err != nil {
		maps := 0
		for _, fs := range path {
			if fs.F.Card == pm.Map {
				maps++
			}
		}
		if depth+maps < pm.MinDepth { // a map entry is a level too
			t.fail("dec-err", "Unmarshal(%s): error %v for %d nested messages", s.M.Name, err, depth)
		}
		return
	}
	t.verify("decoding a deeply nested message")
}

func appendRev(dst, b []byte) []byte {
	for i := len(b) - 1; i >= 0; i-- {
		dst = append(dst, b[i])
	}
	return dst
}

// cyclic encodes an object graph that is too deep or contains itself.
func (t *thread) cyclic(op Op, r *pm.Rng) {
	s := t.w.shape(op)
	limit := t.w.ty.EncLimit
	depth, n := 0, 0
	var path []*bind.FShape
	if r.P(0.35) { // a cycle
		path = selfPath(s)
		if path == nil {
			return
		}
		n = len(path) * (1 + op.Y%3)
	} else {
		n = depthFor(r, limit)
		if n > 20000 {
			n = 20000
		}
		depth = n
		path = t.w.ty.nestPath(s, r, n)
		if path == nil {
			return
		}
	}
	root := s.New()
	cur, cs := root, s
	for i := 0; i < n; i++ {
		fs := path[i%len(path)]
		next := fs.Sub.New()
		if depth == 0 && i == n-1 {
			next = root
		}
		link(cs, fs, cur.Elem(), next, i, r)
		cur, cs = next, fs.Sub
	}
	t.count("cyclic")
	for _, what := range []string{"Size", "Marshal"} {
		var err error
		if !t.call(what+" of a cyclic or deep message", s, func() {
			if what == "Size" {
				_, err = prutal.Size(root.Interface())
			} else {
				_, err = prutal.Marshal(root.Interface())
			}
		}) {
			return
		}
		bad := depth == 0 || depth > limit
		if bad && err == nil {
			t.fail("enc-noerr", "%s accepted a message %s that is cyclic or nested %d deep", what, s.M.Name, depth)
			return
		}
		if depth < pm.MinDepth/2 && !bad && err != nil {
			t.fail("enc-err", "%s(%s): error %v for %d nested messages", what, s.M.Name, err, depth)
			return
		}
	}
	t.verify("encoding a cyclic or deep message")
}

// link sets the message next into field fs of v, sometimes beside empty ones.
func link(cs *bind.Shape, fs *bind.FShape, v, next reflect.Value, i int, r *pm.Rng) {
	g := v.Field(fs.Index)
	switch {
	case fs.F.Card == pm.Oneof:
		w := reflect.New(fs.W)
		w.Elem().Field(0).Set(next)
		g.Set(w)
	case fs.F.Card == pm.Map:
		g.Set(reflect.MakeMap(g.Type()))
		k := reflect.New(g.Type().Key()).Elem()
		g.SetMapIndex(k, next)
	case fs.F.IsList():
		l := reflect.Zero(g.Type())
		k, at := 1, 0
		if r != nil && r.P(0.2) {
			k = 1 + r.N(3)
			at = r.N(k)
		}
		for j := 0; j < k; j++ {
			if j == at {
				l = reflect.Append(l, next)
			} else {
				l = reflect.Append(l, fs.Sub.New())
			}
		}
		g.Set(l)
	default:
		g.Set(next)
	}
}

// maxStruct is the size of the largest message struct reachable from s.
func maxStruct(s *bind.Shape) int64 {
	seen := map[*bind.Shape]bool{}
	n := int64(0)
	var visit func(s *bind.Shape)
	visit = func(s *bind.Shape) {
		if seen[s] {
			return
		}
		seen[s] = true
		if z := int64(s.T.Size()); z > n {
			n = z
		}
		for _, f := range s.F {
			if f.Sub != nil {
				visit(f.Sub)
			}
		}
	}
	visit(s)
	return n
}
