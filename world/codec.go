package world

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"

	"github.com/cloudwego/prutal"
	"github.com/cloudwego/prutal/pkg/grpccodec"
	"github.com/cloudwego/prutal/zzverif"

	"verif/bind"
	"verif/catalog"
	"verif/gentypes"
	"verif/pm"
	"verif/sim/simrt"
	"verif/sim/simsync"
)

// Types is the catalogue bound to Go types.
type Types struct {
	Cat    *catalog.Catalog
	Codec  []*bind.Shape // valid types
	Mixed  []*bind.Shape // valid and malformed types
	OK     []bool        // Mixed[i] is valid
	Vers   [][][]*bind.Shape
	Binder *bind.Binder
	ByName map[string]*bind.Shape

	Meet [][]int // types of Mixed which a table keyed by the low bits of their addresses takes for each other

	Deepable           map[*bind.Shape][]*bind.FShape // ways of nesting without end
	DecLimit, EncLimit int                            // nesting the tree accepts
}

func LoadTypes(kind string, seed uint64, extra int) *Types {
	t := &Types{ByName: map[string]*bind.Shape{}}
	if kind == "svc" {
		t.Cat = catalog.Svc(seed, extra)
	} else {
		t.Cat = catalog.New(seed, extra)
	}
	b := bind.NewBinder(func(m *pm.Message) (reflect.Type, []reflect.Type) {
		e := gentypes.Types[m.Name]
		return e.T, e.W
	})
	t.Binder = b
	shape := func(m *pm.Message) *bind.Shape {
		s := b.Shape(m)
		t.ByName[m.Name] = s
		return s
	}
	for _, f := range t.Cat.Codec {
		for _, m := range f.Messages {
			t.Codec = append(t.Codec, shape(m))
		}
	}
	for _, h := range t.Cat.Versions {
		var vs [][]*bind.Shape
		for _, f := range h {
			var ms []*bind.Shape
			for _, m := range f.Messages {
				ms = append(ms, shape(m))
			}
			vs = append(vs, ms)
		}
		t.Vers = append(t.Vers, vs)
	}
	for _, f := range t.Cat.Mixed {
		for _, m := range f.Messages {
			t.Mixed = append(t.Mixed, shape(m))
			t.OK = append(t.OK, catalog.Valid(m))
		}
	}
	t.meet()
	if kind == "svc" {
		b.CheckTags()
		checkEnums(b)
		checkEnumMaps(b)
	}
	if len(b.Problems) > 0 {
		fmt.Fprintln(os.Stderr, "binding problems:", strings.Join(b.Problems, "; "))
		os.Exit(3)
	}
	t.calibrate()
	return t
}

// meet groups the types whose descriptors' addresses agree in the low 16 bits.
func (t *Types) meet() {
	by := map[uintptr][]int{}
	for i, s := range t.Mixed {
		for j, rt := range []reflect.Type{s.T, reflect.PointerTo(s.T)} {
			k := reflect.ValueOf(rt).Pointer()&0xffff | uintptr(j)<<16
			by[k] = append(by[k], i)
		}
	}
	for i, s := range t.Mixed { // in a fixed order
		for j, rt := range []reflect.Type{s.T, reflect.PointerTo(s.T)} {
			if g := by[reflect.ValueOf(rt).Pointer()&0xffff|uintptr(j)<<16]; len(g) > 1 && g[0] == i {
				t.Meet = append(t.Meet, g)
			}
		}
	}
}

// ---- world state -----------------------------------------------------------

type live struct {
	s     *bind.Shape
	p     reflect.Value
	model *pm.Msg
	from  string
}

type retbuf struct {
	b, copy []byte
	from    string
}

type mail struct {
	s     *bind.Shape
	b     []byte
	model *pm.Msg
}

type sharedKey struct {
	T int
	S uint64
}

type shared struct {
	s     *bind.Shape
	p     reflect.Value
	model *pm.Msg
	snap  uint64
	maps  bool
}

type sharedIn struct {
	s    *bind.Shape
	b    []byte
	copy []byte
	out  pm.Outcome
}

// thread is the private state of one simulated caller.
type thread struct {
	w     *codecWorld
	id    int
	op    int
	live  []*live
	rets  []*retbuf
	frame []byte
	fmods []*live
	viol  []Violation
	stats map[string]int64
	first map[sharedKey][]byte
	_     [64]byte
}

type codecWorld struct {
	plan    *Plan
	ty      *Types
	threads []*thread
	shared  map[sharedKey]*shared
	inputs  map[sharedKey]*sharedIn
	mu      simsync.Mutex
	box     []*mail
}

func (t *thread) fail(class, f string, a ...any) {
	t.viol = append(t.viol, Violation{Class: class, Detail: fmt.Sprintf(f, a...), Thread: t.id, Op: t.op})
}

func (t *thread) failed() bool { return len(t.viol) > 0 }

func (t *thread) count(k string) { t.stats[k]++ }

type hookPanic struct{ name string }

// call runs one library call; it reports a panic as a violation unless the
// panic is the user code's own.
func (t *thread) call(what string, s *bind.Shape, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			if h, is := r.(hookPanic); is {
				t.count("user_panic_seen")
				_ = h
				return
			}
			st := string(debug.Stack())
			t.fail("panic", "%s(%s) panicked: %v\n%s", what, shapeName(s), r, clipStack(st))
		}
	}()
	f()
	return true
}

func shapeName(s *bind.Shape) string {
	if s == nil {
		return "?"
	}
	return s.M.Name
}

func clipStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "prutal") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// ---- generation of operands ------------------------------------------------

func (w *codecWorld) valueFor(s *bind.Shape, r *pm.Rng) *pm.Msg {
	k := pm.RandKnobs(r)
	if w.plan.P["small"] == 1 {
		k.Budget = 12
	}
	if n := w.plan.P["budget"]; n > 0 {
		k.Budget = n
	}
	if w.plan.P["unk"] == 1 {
		k.Unknown = true
	}
	m := pm.GenMsg(r, s.M, k)
	if w.plan.P["huge"] == 1 && r.P(0.6) {
		pm.Enlarge(r, m)
		m.Normalize()
	}
	return m
}

// variation draws legal encoding freedoms of a conforming peer.
func variation(r *pm.Rng) *pm.Var {
	v := &pm.Var{R: r}
	on := func(p float64) float64 {
		if r.P(0.4) {
			return p
		}
		return 0
	}
	v.Order = on(1)
	v.PackFlip = on(0.5)
	v.PackSplit = on(0.5)
	v.EntryOdd = on(0.5)
	v.DupScalar = on(0.3)
	v.Pad = on(0.2)
	v.PadTag = on(0.2)
	v.Bool = on(0.5)
	v.Wide = on(0.2)
	v.Empty = on(0.3)
	v.WriteZero = on(0.3)
	return v
}

func (w *codecWorld) encodeRef(m *pm.Msg, r *pm.Rng) []byte {
	if w.plan.P["canon"] == 1 || r.P(0.3) {
		return pm.Encode(m, nil)
	}
	return pm.Encode(m, variation(r))
}

// ---- oracles ---------------------------------------------------------------

// checkEncoding verifies the bytes a call produced for a model value.
func (t *thread) checkEncoding(what string, s *bind.Shape, enc []byte, model *pm.Msg) bool {
	out := pm.Decode(s.M, enc)
	if out.Err != nil {
		t.fail("enc-value", "%s(%s): the encoding is not decodable by the reference peer: %v\nvalue %s\nbytes %x", what, s.M.Name, out.Err, clipS(model.String()), clipB(enc))
		return false
	}
	if d := pm.Diff(model, out.M.Normalize()); d != "" {
		t.fail("enc-value", "%s(%s): the reference peer decodes another value: %s\nvalue %s\nbytes %x", what, s.M.Name, d, clipS(model.String()), clipB(enc))
		return false
	}
	return true
}

func clipS(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func clipB(b []byte) []byte {
	if len(b) > 300 {
		return b[:300]
	}
	return b
}

// encode performs one encoding call in one of its forms on p and verifies the
// result. It returns the encoded bytes.
func (t *thread) encode(what string, s *bind.Shape, p reflect.Value, model *pm.Msg, r *pm.Rng, snapshot bool) (res, enc []byte, ok bool) {
	var before uint64
	if snapshot {
		before = bind.Snapshot(p)
	}
	v := p.Interface()
	size := -1
	doSize := func() bool {
		if size >= 0 {
			return true
		}
		return t.call("Size", s, func() {
			n, err := prutal.Size(v)
			if err != nil {
				t.fail("enc-err", "Size(%s): unexpected error %v", s.M.Name, err)
				return
			}
			size = n
		}) && !t.failed()
	}
	if r.P(0.5) && !doSize() {
		return nil, nil, false
	}
	form := r.Pick(2, 6, 1)
	var prefix, back, spareCopy []byte
	var pre []byte
	if form == 1 {
		n := []int{0, 1, 3, 16, 100, 127, 128, 300}[r.N(8)]
		spare := []int{0, 1, 2, 3, 5, 8, 13, 64, 4096}[r.N(9)]
		if size >= 0 && r.P(0.5) {
			spare = size + r.N(5) - 2
			if spare < 0 {
				spare = 0
			}
		}
		guard := 16
		back = make([]byte, n+spare+guard)
		for i := range back {
			back[i] = byte(r.U64())
		}
		prefix = back[: n : n+spare]
		pre = append([]byte(nil), prefix...)
		spareCopy = append([]byte(nil), back[n+spare:]...)
	}
	var err error
	own := r.P(0.5) // by the message's method, if it has one
	if !t.call(what, s, func() {
		switch form {
		case 0:
			res, err = prutal.Marshal(v)
		case 1:
			if x, ok := v.(interface{ Marshal([]byte) ([]byte, error) }); ok && own {
				res, err = x.Marshal(prefix)
				return
			}
			res, err = prutal.MarshalAppend(prefix, v)
		case 2:
			res, err = grpccodec.PrutalCodec{}.Marshal(v)
		}
	}) {
		return nil, nil, false
	}
	if err != nil {
		t.fail("enc-err", "%s(%s): unexpected error %v\nvalue %s", what, s.M.Name, err, clipS(model.String()))
		return nil, nil, false
	}
	if form == 1 {
		if len(res) < len(pre) || !bytes.Equal(res[:len(pre)], pre) {
			t.fail("prefix", "MarshalAppend(%s) does not start with the destination's %d bytes", s.M.Name, len(pre))
			return nil, nil, false
		}
		if !bytes.Equal(prefix, pre) {
			t.fail("prefix", "MarshalAppend(%s) changed the destination's existing bytes", s.M.Name)
			return nil, nil, false
		}
		if !bytes.Equal(back[len(back)-16:], spareCopy) {
			t.fail("prefix", "MarshalAppend(%s) wrote beyond the destination's capacity", s.M.Name)
			return nil, nil, false
		}
	}
	enc = res[len(pre):]
	if !t.checkEncoding(what, s, enc, model) {
		return nil, nil, false
	}
	if !doSize() {
		return nil, nil, false
	}
	if size != len(enc) {
		t.fail("size", "Size(%s) = %d, but encoding appends %d bytes\nvalue %s", s.M.Name, size, len(enc), clipS(model.String()))
		return nil, nil, false
	}
	if snapshot {
		if bind.Snapshot(p) != before {
			t.fail("msg-mutated", "%s(%s) changed the message it was given\nvalue %s", what, s.M.Name, clipS(model.String()))
			return nil, nil, false
		}
	}
	t.count("encodes")
	return res, enc, true
}

// decode performs one decoding call and verifies it against the reference.
func (t *thread) decode(what string, s *bind.Shape, in []byte, p reflect.Value, out pm.Outcome) bool {
	cp := append([]byte(nil), in...)
	var err error
	codec := len(in)%7 == 3
	if !t.call(what, s, func() {
		if codec {
			err = grpccodec.PrutalCodec{}.Unmarshal(in, p.Interface())
		} else if x, ok := p.Interface().(interface{ Unmarshal([]byte) error }); ok && len(in)%2 == 0 {
			err = x.Unmarshal(in)
		} else {
			err = prutal.Unmarshal(in, p.Interface())
		}
	}) {
		return false
	}
	t.count("decodes")
	if t.w.plan.P["gcvis"] != 0 {
		if t.checkScanned(what, s.M.Name, p); t.failed() {
			return false
		}
	}
	if !bytes.Equal(cp, in) {
		t.fail("input-mutated", "%s(%s) changed its input bytes", what, s.M.Name)
		return false
	}
	if out.Loose != "" {
		t.count("loose")
		return false
	}
	if out.Err != nil {
		if err == nil {
			t.fail("dec-noerr", "%s(%s) accepted malformed bytes (%v): %x", what, s.M.Name, out.Err, clipB(in))
		}
		return false
	}
	if err != nil {
		t.fail("dec-err", "%s(%s): unexpected error %v\nwant %s\nbytes %x", what, s.M.Name, err, clipS(out.M.String()), clipB(in))
		return false
	}
	if d := pm.Diff(out.M, s.Read(p)); d != "" {
		t.fail("dec-value", "%s(%s): wrong value: %s\nbytes %x", what, s.M.Name, d, clipB(in))
		return false
	}
	return true
}

func (t *thread) keep(s *bind.Shape, p reflect.Value, m *pm.Msg, from string) {
	if len(t.live) >= 8 {
		copy(t.live, t.live[1:])
		t.live = t.live[:7]
	}
	t.live = append(t.live, &live{s: s, p: p, model: m, from: fmt.Sprintf("%s at op %d", from, t.op)})
}

func (t *thread) keepRet(b []byte, from string) {
	if len(t.rets) >= 6 {
		copy(t.rets, t.rets[1:])
		t.rets = t.rets[:5]
	}
	t.rets = append(t.rets, &retbuf{b: b, copy: append([]byte(nil), b...), from: fmt.Sprintf("%s at op %d", from, t.op)})
}

// verify re-reads everything this thread holds.
func (t *thread) verify(when string) {
	if t.failed() {
		return
	}
	for _, l := range t.live {
		if l == nil {
			continue
		}
		if !t.call("reading a decoded message", l.s, func() {
			if d := pm.Diff(l.model, l.s.Read(l.p)); d != "" {
				t.fail("live-changed", "message %s (%s) changed after %s: %s", l.s.M.Name, l.from, when, d)
			}
		}) || t.failed() {
			return
		}
	}
	for _, b := range t.rets {
		if !bytes.Equal(b.b, b.copy) {
			t.fail("ret-changed", "bytes returned by %s changed after %s", b.from, when)
			return
		}
	}
}

func scribble(b []byte, r *pm.Rng) {
	x := byte(r.U64())
	for i := range b {
		b[i] = b[i]*3 ^ x ^ 0x5a
	}
}

// ---- operations ------------------------------------------------------------

func (w *codecWorld) shape(op Op) *bind.Shape { return w.ty.Codec[op.T%len(w.ty.Codec)] }

func (t *thread) run(op Op) {
	w := t.w
	r := pm.NewRng(op.S)
	t.count("op_" + op.K)
	switch op.K {
	case "enc_shared":
		t.encShared(op)
	case "enc":
		s := w.shape(op)
		m := w.valueFor(s, r)
		p := s.Build(m, r)
		res, _, ok := t.encode("encode", s, p, m, r, op.X&1 == 1)
		if !ok {
			return
		}
		switch r.N(4) {
		case 0:
			t.keepRet(res, "encode")
		case 1: // overwrite the returned bytes: the message must not notice
			scribble(res[:cap(res)], r)
			if d := pm.Diff(m, s.Read(p)); d != "" {
				t.fail("msg-mutated", "changing the returned bytes changed the encoded message %s: %s", s.M.Name, d)
				return
			}
			t.count("scribble_ret")
		case 2:
			t.keep(s, p, m, "built")
		}
		if r.P(0.5) {
			t.verify("encoding")
		}
	case "dec_shared":
		in := w.inputs[sharedKey{op.T, op.S}]
		p := in.s.New()
		if !t.decode("decode", in.s, in.b, p, in.out) {
			return
		}
		if op.X&1 == 1 {
			t.keep(in.s, p, in.out.M, "decode of shared bytes")
		}
		t.verify("decoding")
	case "dec":
		s := w.shape(op)
		in := w.encodeRef(w.valueFor(s, r), r)
		in = embed(in, r)
		out := pm.DecodeAs(s.M, in)
		normOut(&out)
		p := s.New()
		ok := t.decode("decode", s, in, p, out)
		// the caller recycles its buffer
		scribble(in[:cap(in)], r)
		t.count("scribble_in")
		if !ok {
			return
		}
		t.keep(s, p, out.M, "decode")
		t.verify("decoding and overwriting the input buffer")
	case "bad":
		t.bad(op, r)
	case "deep":
		t.deep(op, r)
	case "cyclic":
		t.cyclic(op, r)
	case "smash":
		t.smash(op, r)
	case "drop":
		if len(t.live) > 0 {
			i := op.X % len(t.live)
			t.live = append(t.live[:i], t.live[i+1:]...)
		}
		if op.Y&1 == 1 {
			t.rets = nil
		}
	case "verify":
		t.verify("later calls")
	case "reuse":
		t.reuse(op, r)
	case "getters":
		t.getters(op, r)
	case "badarg":
		t.badarg(op, r)
	case "frame":
		t.framing(op, r)
	case "send":
		s := w.shape(op)
		m := w.valueFor(s, r)
		p := s.Build(m, r)
		_, enc, ok := t.encode("encode", s, p, m, r, false)
		if !ok {
			return
		}
		// the bytes travel to another thread, which owns them from here on
		b := append([]byte(nil), enc...)
		w.mu.Lock()
		w.box = append(w.box, &mail{s, b, m})
		w.mu.Unlock()
	case "recv":
		w.mu.Lock()
		var ml *mail
		if len(w.box) > 0 {
			ml = w.box[0]
			w.box = w.box[1:]
		}
		w.mu.Unlock()
		if ml == nil {
			return
		}
		t.count("mail")
		p := ml.s.New()
		if !t.decode("decode", ml.s, ml.b, p, pm.Outcome{M: ml.model}) {
			return
		}
		scribble(ml.b, r)
		t.keep(ml.s, p, ml.model, "decode of a received message")
		t.verify("decoding")
	case "use":
		t.use(op, r)
	default:
		panic("unknown op " + op.K)
	}
}

// normOut normalizes a reference outcome.
func normOut(o *pm.Outcome) {
	if o.Err == nil {
		o.M.Normalize()
	}
}

// embed puts the bytes into a larger buffer, with other data around them.
func embed(in []byte, r *pm.Rng) []byte {
	if r.P(0.3) {
		return in
	}
	a, z := r.N(9), r.N(40)
	b := make([]byte, a+len(in)+z)
	for i := range b {
		b[i] = byte(r.U64())
	}
	copy(b[a:], in)
	return b[a : a+len(in)]
}

func (t *thread) encShared(op Op) {
	w := t.w
	sh := w.shared[sharedKey{op.T, op.S}]
	r := pm.NewRng(op.S ^ uint64(op.Y)*0x9e37)
	res, enc, ok := t.encode("encode of a shared message", sh.s, sh.p, sh.model, r, op.X&1 == 1)
	if !ok {
		return
	}
	if !sh.maps {
		// the value determines the bytes: every call returns the same (compared
		// at the end of the run, so that no synchronisation is added here)
		k := sharedKey{op.T, op.S}
		if b, ok := t.first[k]; !ok {
			t.first[k] = append([]byte{}, enc...)
		} else if !bytes.Equal(b, enc) {
			t.fail("enc-nondet", "two encodings of the same message %s differ:\n%x\n%x", sh.s.M.Name, clipB(b), clipB(enc))
		}
	}
	t.keepRet(res, "encode")
}

func (t *thread) framing(op Op, r *pm.Rng) {
	s := t.w.shape(op)
	if op.X%3 != 0 || len(t.fmods) == 0 {
		m := t.w.valueFor(s, r)
		p := s.Build(m, r)
		old := append([]byte(nil), t.frame...)
		var err error
		var n int
		if !t.call("Size", s, func() { n, err = prutal.Size(p.Interface()) }) {
			return
		}
		if err != nil {
			t.fail("enc-err", "Size(%s): unexpected error %v", s.M.Name, err)
			return
		}
		if r.P(0.5) && cap(t.frame)-len(t.frame) < n+10 { // grow as callers do
			t.frame = append(make([]byte, 0, len(t.frame)+n+10+r.N(3)), t.frame...)
		}
		buf := pm.AppendVarint(t.frame, uint64(n))
		if !t.call("MarshalAppend", s, func() { buf, err = prutal.MarshalAppend(buf, p.Interface()) }) {
			return
		}
		if err != nil {
			t.fail("enc-err", "MarshalAppend(%s): unexpected error %v", s.M.Name, err)
			return
		}
		t.frame = buf
		t.fmods = append(t.fmods, &live{s: s, model: m})
		if len(old) > len(t.frame) || !bytes.Equal(old, t.frame[:len(old)]) {
			t.fail("prefix", "appending a record changed the records before it")
			return
		}
		t.count("frames")
		return
	}
	// read the records back
	b := t.frame
	for i, l := range t.fmods {
		n, k, err := pm.Varint(b)
		if err != nil || uint64(len(b)-k) < n {
			t.fail("size", "record %d of %d cannot be read back: wrong length prefix", i, len(t.fmods))
			return
		}
		rec := b[k : k+int(n)]
		b = b[k+int(n):]
		out := pm.DecodeAs(l.s.M, rec)
		normOut(&out)
		if out.Err != nil || pm.Diff(l.model, out.M) != "" {
			t.fail("size", "record %d (%s) of a log written with Size and MarshalAppend does not hold the message written: %v %s", i, l.s.M.Name, out.Err, pm.Diff(l.model, out.M))
			return
		}
		p := l.s.New()
		if !t.decode("decode of a record", l.s, rec, p, out) {
			return
		}
		t.keep(l.s, p, l.model, "decode of a record")
	}
	if len(b) > 0 {
		t.fail("size", "%d bytes are left after the last record", len(b))
	}
	scribble(t.frame, r)
	t.frame = t.frame[:0]
	t.fmods = nil
	t.verify("recycling the record buffer")
}

// ---- mutation of decoded messages ------------------------------------------

func (t *thread) smash(op Op, r *pm.Rng) {
	if len(t.live) == 0 {
		return
	}
	i := op.X % len(t.live)
	l := t.live[i]
	sv := l.p.Elem()
	if op.Y%3 == 0 {
		// change everything, then drop it: all others must stay
		smashVal(sv, r, 0)
		t.live = append(t.live[:i:i], t.live[i+1:]...)
		t.count("smash_all")
		t.verify("changing every field of another message")
		return
	}
	// change one Go field: all other fields must stay
	var cand []int
	for k := 0; k < sv.NumField(); k++ {
		if sv.Field(k).CanSet() {
			cand = append(cand, k)
		}
	}
	if len(cand) == 0 {
		return
	}
	k := cand[r.N(len(cand))]
	smashVal(sv.Field(k), r, 0)
	got := l.s.ReadRaw(sv)
	nm := l.model.Clone()
	for n, fs := range l.s.F {
		if fs.Index == k {
			delete(nm.F, n)
			if fv := got.F[n]; fv != nil {
				nm.F[n] = fv
			}
		}
	}
	nm.Unk = got.Unk
	l.model = nm.Normalize()
	t.count("smash_field")
	t.verify("changing one field (" + sv.Type().Field(k).Name + ")")
}

// smashVal changes memory reachable from an addressable value, in place
// wherever Go code could.
func smashVal(v reflect.Value, r *pm.Rng, depth int) {
	if depth > 40 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		if v.Kind() == reflect.Interface && e.Kind() == reflect.Pointer {
			if e.IsNil() {
				return
			}
			e = e.Elem()
		}
		smashVal(e, r, depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				if f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Uint8 { // unknown fields
					b := *(*[]byte)(f.Addr().UnsafePointer())
					b = b[:cap(b)]
					for j := range b {
						b[j] = 0x08
					}
				}
				continue
			}
			smashVal(f, r, depth+1)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := *(*[]byte)(v.Addr().UnsafePointer())
			full := b[:cap(b)]
			for j := range full {
				full[j] ^= 0xff
			}
			*(*[]byte)(v.Addr().UnsafePointer()) = append(b, "appended by the owner"...)
			return
		}
		n := v.Len()
		w := v
		if v.Cap() > 0 && v.CanSet() {
			w = v.Slice3(0, v.Cap(), v.Cap())
		}
		for i := 0; i < w.Len(); i++ {
			if i < n {
				smashVal(w.Index(i), r, depth+1)
			} else {
				smashScalar(w.Index(i), r)
			}
		}
		if v.CanSet() {
			v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		ks := v.MapKeys()
		// order of keys must not matter for determinism
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		for i, k := range ks {
			e := v.MapIndex(k)
			if e.Kind() == reflect.Pointer && !e.IsNil() {
				smashVal(e.Elem(), r, depth+1)
			} else if e.Kind() == reflect.Slice && e.Len() > 0 {
				b := e.Bytes()
				b = b[:cap(b)]
				for j := range b {
					b[j] ^= 0xff
				}
			}
			if i%2 == 1 {
				v.SetMapIndex(k, reflect.Value{})
			}
		}
		if len(ks) > 0 {
			v.SetMapIndex(ks[0], reflect.Zero(v.Type().Elem()))
		}
	default:
		smashScalar(v, r)
	}
}

func smashScalar(v reflect.Value, r *pm.Rng) {
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() ^ 0x2a2a2a)
	case reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() ^ 0x2a2a2a)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(12345.5)
	case reflect.String:
		v.SetString("changed by the owner")
	}
}

// ---- reuse -----------------------------------------------------------------

func (t *thread) reuse(op Op, r *pm.Rng) {
	w := t.w
	if len(t.live) == 0 {
		return
	}
	i := op.X % len(t.live)
	l := t.live[i]
	t.live = append(t.live[:i:i], t.live[i+1:]...)
	sv := l.p.Elem()
	in := w.encodeRef(w.valueFor(l.s, r), r)
	out := pm.DecodeAs(l.s.M, in)
	normOut(&out)
	// the user may have handed on bytes and strings of the message
	var held []heldBytes
	harvest(sv, &held, 0)
	handed := func() bool {
		var bad *heldBytes
		for i, h := range held {
			if !bytes.Equal(h.b, h.want) && (bad == nil || bytes.Compare(h.want, bad.want) < 0) {
				bad = &held[i]
			}
		}
		if bad != nil {
			t.fail("live-changed", "decoding into a used object of type %s changed bytes that it held before and that were handed on: %q became %q", l.s.M.Name, clipB(bad.want), clipB(bad.b))
			return false
		}
		t.count("handed_on")
		return true
	}
	how := ""
	switch op.Y % 3 {
	case 0:
		sv.SetZero()
		how = "reset"
	case 1:
		// reset as pooled objects are: keep the capacity of lists and of the
		// unknown-field storage
		unk := l.s.Unknown(sv)
		keep := map[int]reflect.Value{}
		for k := 0; k < sv.NumField(); k++ {
			f := sv.Field(k)
			if f.CanSet() && f.Kind() == reflect.Slice && f.Type().Elem().Kind() != reflect.Uint8 && !f.IsNil() {
				keep[k] = f.Slice3(0, 0, f.Cap())
			}
		}
		sv.SetZero()
		for k, v := range keep {
			sv.Field(k).Set(v)
		}
		if cap(unk) > 0 && l.s.M.Unk != pm.UnkPtr {
			l.s.SetUnknownSlice(sv, unk[:0])
		}
		how = "reset keeping list capacity"
	case 2:
		// not reset at all: only the unknown fields must be the new message's
		var err error
		if !t.call("decode", l.s, func() { err = prutal.Unmarshal(in, l.p.Interface()) }) {
			return
		}
		if out.Err != nil || out.Loose != "" {
			return
		}
		if err != nil {
			t.fail("dec-err", "decode(%s) into a used object: unexpected error %v", l.s.M.Name, err)
			return
		}
		if got := pm.CanonUnknown(l.s.Unknown(sv)); !bytes.Equal(got, out.M.Unk) {
			t.fail("unk-carry", "object of type %s reused for another message: unknown fields %x, the message has %x", l.s.M.Name, clipB(got), clipB(out.M.Unk))
			return
		}
		if d := carried(out.M, l.s.Read(l.p), l.s.M.Name); d != "" {
			t.fail("unk-carry", "object of type %s reused for another message: %s", l.s.M.Name, d)
			return
		}
		if !handed() {
			return
		}
		t.count("reuse_plain")
		t.verify("reusing another object")
		return
	}
	p := l.p
	if !t.decode("decode into a "+how+" object", l.s, in, p, out) {
		return
	}
	if !handed() {
		return
	}
	scribble(in, r)
	t.count("reuse_reset")
	t.keep(l.s, p, out.M, "decode into a "+how+" object")
	t.verify("reusing an object")
}

// heldBytes are bytes of a message that somebody else has as well.
type heldBytes struct{ b, want []byte }

// harvest collects the bytes and strings of a message.
func harvest(v reflect.Value, out *[]heldBytes, depth int) {
	if depth > 20 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			harvest(v.Elem(), out, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			// storage of unknown fields is used again, as documented
			if f := v.Type().Field(i); f.IsExported() && strings.Contains(string(f.Tag), "protobuf") {
				harvest(v.Field(i), out, depth+1)
			}
		}
	case reflect.String:
		if x := v.String(); x != "" {
			*out = append(*out, heldBytes{unsafe.Slice(unsafe.StringData(x), len(x)), []byte(x)})
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if b := v.Bytes(); len(b) > 0 {
				*out = append(*out, heldBytes{b, append([]byte(nil), b...)})
			}
			return
		}
		switch v.Type().Elem().Kind() {
		case reflect.String, reflect.Slice, reflect.Struct, reflect.Pointer:
			for i := 0; i < v.Len(); i++ {
				harvest(v.Index(i), out, depth+1)
			}
		}
	case reflect.Map: // in no order: they are only compared
		switch v.Type().Elem().Kind() {
		case reflect.String, reflect.Slice, reflect.Struct, reflect.Pointer:
			for it := v.MapRange(); it.Next(); {
				harvest(it.Value(), out, depth+1)
			}
		}
	}
}

// carried compares the unknown fields of a message with those of an object that
// had another message before: the object's fields that the message does not set
// are as before, and its lists have elements of the other message first.
func carried(want, got *pm.Msg, at string) string {
	if !bytes.Equal(want.Unk, got.Unk) {
		return fmt.Sprintf("%s: unknown fields %x, the message has %x", at, clipB(got.Unk), clipB(want.Unk))
	}
	for num, w := range want.F {
		g := got.F[num]
		if g == nil || w.F.Kind != pm.Message_ {
			continue
		}
		sub := at + "." + w.F.Name
		switch {
		case w.F.Card == pm.Map:
			for _, e := range w.Map {
				for _, x := range g.Map {
					if e.K.U == x.K.U && bytes.Equal(e.K.B, x.K.B) {
						if d := carried(e.V.M, x.V.M, sub); d != "" {
							return d
						}
					}
				}
			}
		case w.F.IsList():
			off := len(g.List) - len(w.List)
			if off < 0 {
				return fmt.Sprintf("%s: %d elements, the message has %d", sub, len(g.List), len(w.List))
			}
			for i := range w.List {
				if d := carried(w.List[i].M, g.List[off+i].M, sub); d != "" {
					return d
				}
			}
		default:
			if d := carried(w.One.M, g.One.M, sub); d != "" {
				return d
			}
		}
	}
	return ""
}

// ---- invalid arguments -----------------------------------------------------

func (t *thread) badarg(op Op, r *pm.Rng) {
	type notStruct int
	var ns notStruct
	s := t.w.shape(op)
	args := []any{nil, 5, s.New().Elem().Interface(), &ns, new(string), map[string]int{}, new([]byte), new(any), &[]int{1}, func() {}}
	a := args[op.X%len(args)]
	var err error
	what := ""
	if !t.call("badarg", nil, func() {
		switch op.Y % 3 {
		case 0:
			what = "Marshal"
			_, err = prutal.Marshal(a)
		case 1:
			what = "Unmarshal"
			err = prutal.Unmarshal([]byte{8, 1}, a)
		case 2:
			what = "Size"
			if a == nil {
				err = fmt.Errorf("n/a")
				return
			}
			_, err = prutal.Size(a)
		}
	}) {
		return
	}
	if err == nil {
		t.fail("accept", "%s(%T) returned no error", what, a)
	}
	t.count("badarg")
}

// ---- C02: first uses of valid and malformed types --------------------------

func (t *thread) use(op Op, r *pm.Rng) {
	w := t.w
	i := op.T % len(w.ty.Mixed)
	s, ok := w.ty.Mixed[i], w.ty.OK[i]
	if !ok {
		p := s.New()
		var err error
		what := []string{"Marshal", "Unmarshal", "Size", "Marshal(nil pointer)"}[op.X%4]
		if !t.call(what, s, func() {
			switch op.X % 4 {
			case 0:
				_, err = prutal.Marshal(p.Interface())
			case 1:
				err = prutal.Unmarshal([]byte{}, p.Interface())
			case 2:
				_, err = prutal.Size(p.Interface())
			case 3:
				_, err = prutal.Marshal(reflect.Zero(p.Type()).Interface())
			}
		}) {
			return
		}
		if err == nil {
			t.fail("accept", "%s accepted type %s, which reaches a malformed definition", what, s.M)
		}
		t.count("use_invalid")
		return
	}
	t.count("use_valid")
	m := w.valueFor(s, r)
	switch op.X % 3 {
	case 0:
		p := s.Build(m, r)
		var b []byte
		var err error
		if !t.call("Marshal", s, func() { b, err = prutal.Marshal(p.Interface()) }) {
			return
		}
		if err != nil {
			t.fail("reject", "Marshal rejected the valid type %s: %v", s.M, err)
			return
		}
		t.checkEncoding("Marshal", s, b, m)
	case 1:
		in := pm.Encode(m, nil)
		out := pm.DecodeAs(s.M, in)
		normOut(&out)
		p := s.New()
		var err error
		if !t.call("Unmarshal", s, func() { err = prutal.Unmarshal(in, p.Interface()) }) {
			return
		}
		if err != nil {
			t.fail("reject", "Unmarshal rejected the valid type %s: %v (input %x)", s.M, err, clipB(in))
			return
		}
		if d := pm.Diff(out.M, s.Read(p)); d != "" {
			t.fail("dec-value", "Unmarshal(%s): wrong value: %s", s.M, d)
		}
	case 2:
		p := s.Build(m, r)
		var n int
		var err error
		if !t.call("Size", s, func() { n, err = prutal.Size(p.Interface()) }) {
			return
		}
		if err != nil {
			t.fail("reject", "Size rejected the valid type %s: %v", s.M, err)
			return
		}
		var b []byte
		if !t.call("Marshal", s, func() { b, err = prutal.Marshal(p.Interface()) }) {
			return
		}
		if err != nil {
			t.fail("reject", "Marshal rejected the valid type %s: %v", s.M, err)
			return
		}
		if t.checkEncoding("Marshal", s, b, m) && n != len(b) {
			t.fail("size", "Size(%s) = %d, but the encoding has %d bytes", s.M, n, len(b))
		}
	}
}

// ---- runner ----------------------------------------------------------------

// RunCodec executes one plan of the codec world.
func RunCodec(ty *Types, plan *Plan) *Report {
	w := &codecWorld{plan: plan, ty: ty, shared: map[sharedKey]*shared{}, inputs: map[sharedKey]*sharedIn{}}
	rep := &Report{Stats: map[string]int64{}}
	simrt.SetRuntimeRand(plan.MapSeed | 1)
	zzverif.Reset() // cold process
	for ti, ops := range plan.Threads {
		t := &thread{w: w, id: ti, stats: map[string]int64{}, first: map[sharedKey][]byte{}}
		w.threads = append(w.threads, t)
		for _, op := range ops {
			k := sharedKey{op.T, op.S}
			switch op.K {
			case "enc_shared":
				if w.shared[k] == nil {
					r := pm.NewRng(op.S)
					s := w.shape(op)
					m := w.valueFor(s, r)
					p := s.Build(m, r)
					w.shared[k] = &shared{s: s, p: p, model: m, snap: bind.Snapshot(p), maps: m.HasMaps()}
				}
			case "dec_shared":
				if w.inputs[k] == nil {
					r := pm.NewRng(op.S)
					s := w.shape(op)
					b := w.encodeRef(w.valueFor(s, r), r)
					in := &sharedIn{s: s, b: b, copy: append([]byte(nil), b...), out: pm.DecodeAs(s.M, b)}
					normOut(&in.out)
					w.inputs[k] = in
				}
			}
		}
	}
	w.armHooks()
	races := simrt.RaceErrors()
	simrt.Begin(plan.Config())
	for ti := range plan.Threads {
		t := w.threads[ti]
		ops := plan.Threads[ti]
		simrt.Spawn(func() {
			for i, op := range ops {
				t.op = i
				t.run(op)
				if t.failed() {
					return
				}
				simrt.Yield(3)
			}
			t.op = len(ops)
			t.verify("the end of the run")
		})
	}
	rep.Res = simrt.Run()
	gentypes.Hook = func(string) {}
	simrt.SetRuntimeRand(plan.MapSeed | 1)
	aborted := rep.Res.Deadlock != "" || rep.Res.Livelock
	for _, t := range w.threads {
		rep.Viol = append(rep.Viol, t.viol...)
		for k, v := range t.stats {
			rep.Stats[k] += v
		}
	}
	if rep.Res.Panic != "" {
		rep.Viol = append(rep.Viol, Violation{Class: "panic", Detail: "a goroutine of the library panics: " + rep.Res.Panic})
	}
	if rep.Res.Deadlock != "" {
		rep.Viol = append(rep.Viol, Violation{Class: "deadlock", Detail: rep.Res.Deadlock})
	}
	if rep.Res.Livelock {
		rep.Viol = append(rep.Viol, Violation{Class: "livelock", Detail: fmt.Sprintf("no end after %d steps", rep.Res.Steps)})
	}
	if !aborted && len(rep.Viol) == 0 {
		for k, sh := range w.shared {
			if bind.Snapshot(sh.p) != sh.snap {
				rep.Viol = append(rep.Viol, Violation{Class: "msg-mutated", Detail: fmt.Sprintf("shared message %s (%d) was changed by encoding it; now %s", sh.s.M.Name, k.T, pm.Diff(sh.model, sh.s.Read(sh.p)))})
			}
		}
		for _, in := range w.inputs {
			if !bytes.Equal(in.b, in.copy) {
				rep.Viol = append(rep.Viol, Violation{Class: "input-mutated", Detail: fmt.Sprintf("shared input bytes of %s were changed by decoding them", in.s.M.Name)})
			}
		}
		all := map[sharedKey][]byte{}
		for _, t := range w.threads {
			for k, b := range t.first {
				if a, ok := all[k]; ok && !bytes.Equal(a, b) {
					rep.Viol = append(rep.Viol, Violation{Class: "enc-nondet", Detail: fmt.Sprintf("two threads got different encodings of one message %s:\n%x\n%x", w.shared[k].s.M.Name, clipB(a), clipB(b))})
				}
				all[k] = b
			}
		}
	}
	if n := simrt.RaceErrors() - races; n > 0 {
		rep.Races = n
		rep.Viol = append(rep.Viol, Violation{Class: "race", Detail: fmt.Sprintf("%d data races reported by the race detector", n)})
	}
	rep.SimNS = rep.Res.Steps * 1000
	return rep
}

// armHooks lets user code called by the library yield, and panic where the
// plan says so.
func (w *codecWorld) armHooks() {
	hookMu = simsync.Mutex{}
	left := map[string]int{}
	n := w.plan.P["hook_panics"]
	r := pm.NewRng(w.plan.Seed ^ 0x400c)
	if n > 0 {
		var names []string
		for _, s := range w.ty.Mixed[:w.ty.mixedSize()] {
			names = append(names, s.M.Name)
		}
		for i := 0; i < n*8; i++ {
			left[names[r.N(len(names))]] = 1 + r.N(2)
		}
	}
	gentypes.Hook = func(name string) {
		simrt.Yield(4)
		hookMu.Lock()
		k := left[name]
		if k > 0 {
			left[name] = k - 1
		}
		hookMu.Unlock()
		if k > 0 {
			panic(hookPanic{name})
		}
	}
}

var hookMu simsync.Mutex
