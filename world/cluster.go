package world

import (
	"fmt"
	"reflect"
	"sort"

	"github.com/cloudwego/prutal"
	"github.com/cloudwego/prutal/zzverif"

	"verif/bind"
	"verif/pm"
	"verif/sim/simrt"
	"verif/sim/simsync"
)

// The cluster world: services of one deployment, each running some version of
// a schema, joined by a network that delays, duplicates, reorders and loses
// packets and partitions. Messages travel from a sender over relays, which
// store and forward them and may change a field they know, to a reader. Nodes
// crash, lose everything but their journals, and come back, possibly with
// another version. The sender retransmits until the reader has acknowledged.

type envelope struct {
	id    int
	msg   int   // message type index
	path  []int // nodes still to visit
	bytes []byte
	want  *pm.Msg // what a reader of the full version must find
	at    int64   // delivery time
	seq   int
}

type journalRec struct {
	off  int // start of the length-prefixed record
	env  *envelope
	done bool
}

type cnode struct {
	id      int
	ver     int
	policy  int // object reuse: 0 fresh, 1 reset, 2 reset keeping capacity
	journal bool
	mu      simsync.Mutex
	inbox   []*envelope
	epoch   int // increases with every crash
	ready   int // the epoch whose recovery is complete
	downTo  int64
	log     []byte
	recs    []journalRec
	pool    map[int][]reflect.Value
}

// life is one incarnation of a node as a worker sees it.
type life struct {
	n          *cnode
	epoch, ver int
}

type flight struct {
	acked    bool
	arrivals int
	due      int64
	tries    int
}

type clusterWorld struct {
	cw     *codecWorld
	plan   *Plan
	vers   [][]*bind.Shape
	nodes  []*cnode
	mu     simsync.Mutex
	out    []*flight
	seq    int
	calm   int64 // faults end here
	start  int64
	parts  [][4]int64 // partition windows: node, node, from, to
	fanout int
	stop   bool
}

const ms = int64(1_000_000)

func (c *clusterWorld) now() int64 { return simrt.NowNS() - c.start }

// fault draws a fault decision while faults are on.
func (c *clusterWorld) fault(n int, p float64) int {
	if c.now() >= c.calm {
		return 0
	}
	return simrt.Choose(simrt.KFault, n, p)
}

func (c *clusterWorld) reachable(a, b int, now int64) bool {
	for _, w := range c.parts {
		if now >= w[2] && now < w[3] && (int64(a) == w[0] && int64(b) == w[1] || int64(a) == w[1] && int64(b) == w[0]) {
			return false
		}
	}
	return true
}

// transmit hands a packet to the network.
func (c *clusterWorld) transmit(t *thread, from int, e *envelope) {
	if len(e.path) == 0 {
		return
	}
	to := e.path[0]
	now := c.now()
	if !c.reachable(from, to, now) {
		t.count("fault_partitioned")
		return
	}
	copies := 1
	switch c.fault(4, c.plan.FaultP) {
	case 1:
		t.count("fault_lost")
		return
	case 2:
		copies = 2
		t.count("fault_duplicated")
	case 3:
		t.count("fault_delayed")
		now += 30 * ms
	}
	n := c.nodes[to]
	for i := 0; i < copies; i++ {
		p := *e
		p.bytes = append([]byte(nil), e.bytes...)
		p.at = now + 20_000 + int64(simrt.Choose(simrt.KUser, 64, 0.7))*40_000
		c.mu.Lock()
		c.seq++
		p.seq = c.seq
		c.mu.Unlock()
		n.mu.Lock()
		if n.downTo > now {
			n.mu.Unlock()
			t.count("fault_lost_at_stopped_node")
			continue
		}
		n.inbox = append(n.inbox, &p)
		if len(n.inbox) > 1 && n.inbox[len(n.inbox)-2].at > p.at {
			t.count("fault_reordered")
		}
		n.mu.Unlock()
	}
}

// take removes the next packet that has arrived.
func (n *cnode) take(now int64) (*envelope, int64) {
	n.mu.Lock()
	defer n.mu.Unlock()
	b := -1
	for i, e := range n.inbox {
		if b < 0 || e.at < n.inbox[b].at || e.at == n.inbox[b].at && e.seq < n.inbox[b].seq {
			b = i
		}
	}
	if b < 0 {
		return nil, now + ms
	}
	e := n.inbox[b]
	if e.at > now {
		return nil, e.at
	}
	n.inbox = append(n.inbox[:b:b], n.inbox[b+1:]...)
	return e, 0
}

// object gets a message object by the node's reuse policy.
func (c *clusterWorld) object(li life, msg int) reflect.Value {
	n := li.n
	s := c.vers[li.ver][msg]
	if n.policy == 0 {
		return s.New()
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	l := n.pool[msg]
	if n.epoch != li.epoch || len(l) == 0 || l[len(l)-1].Type().Elem() != s.T {
		return s.New()
	}
	p := l[len(l)-1]
	n.pool[msg] = l[:len(l)-1]
	if n.policy == 1 {
		p.Elem().SetZero()
	} else {
		resetKeep(s, p.Elem())
	}
	return p
}

func (c *clusterWorld) release(li life, msg int, p reflect.Value) {
	n := li.n
	if n.policy == 0 {
		return
	}
	n.mu.Lock()
	if n.epoch == li.epoch {
		n.pool[msg] = append(n.pool[msg], p)
	}
	n.mu.Unlock()
}

// resetKeep empties a message object as object pools do, keeping the capacity
// of its lists and of its unknown-field storage.
func resetKeep(s *bind.Shape, sv reflect.Value) {
	unk := s.Unknown(sv)
	keep := map[int]reflect.Value{}
	for k := 0; k < sv.NumField(); k++ {
		f := sv.Field(k)
		if f.CanSet() && f.Kind() == reflect.Slice && f.Type().Elem().Kind() != reflect.Uint8 && !f.IsNil() {
			keep[k] = f.Slice3(0, 0, f.Cap())
		}
	}
	sv.SetZero()
	for k, v := range keep {
		sv.Field(k).Set(v)
	}
	if cap(unk) > 0 && s.M.Unk != pm.UnkPtr {
		s.SetUnknownSlice(sv, unk[:0])
	}
}

// full views an encoding as the full version of the schema.
func (c *clusterWorld) full(msg int, b []byte) (*pm.Msg, error) {
	o := pm.Decode(c.vers[0][msg].M, b)
	if o.Err != nil {
		return nil, o.Err
	}
	return o.M.Normalize(), nil
}

func (c *clusterWorld) lost(t *thread, li life, what string, e *envelope, b []byte) bool {
	got, err := c.full(e.msg, b)
	if err != nil {
		t.fail("lost", "%s node %d (version %d): message %d is not well-formed any more: %v: %x", what, li.n.id, li.ver, e.id, err, clipB(b))
		return true
	}
	if d := pm.Diff(e.want, got); d != "" {
		t.fail("lost", "%s node %d (version %d): message %d (%s) does not carry what was sent: %s\nsent %s", what, li.n.id, li.ver, e.id, c.vers[0][e.msg].M.Name, d, clipS(e.want.String()))
		return true
	}
	return false
}

// receive decodes a packet into an object of the node's version and checks it.
func (c *clusterWorld) receive(t *thread, li life, e *envelope) (reflect.Value, *pm.Msg, bool) {
	s := c.vers[li.ver][e.msg]
	p := c.object(li, e.msg)
	out := pm.DecodeAs(s.M, e.bytes)
	normOut(&out)
	if !t.decode(fmt.Sprintf("decode at node %d (version %d)", li.n.id, li.ver), s, e.bytes, p, out) {
		if !t.failed() {
			t.fail("lost", "node %d: the packet of message %d is not well-formed: %v: %x", li.n.id, e.id, out.Err, clipB(e.bytes))
		}
		return p, nil, false
	}
	// the packet buffer is recycled
	for i := range e.bytes {
		e.bytes[i] = 0xa5
	}
	got := s.Read(p)
	if c.lost(t, li, "decoded at", e, pm.Encode(got, nil)) {
		return p, nil, false
	}
	return p, got, true
}

// mutate changes one known field of a message, in the Go object, in the
// version's model and in the full model.
func (c *clusterWorld) mutate(t *thread, s *bind.Shape, v reflect.Value, vm, fm *pm.Msg, r *pm.Rng, depth int) {
	if depth < 5 && r.P(0.6) {
		var c2 []int32
		for _, f := range s.M.Sorted() {
			if f.Kind == pm.Message_ && f.Card != pm.Oneof && vm.F[f.Num] != nil && fm.F[f.Num] != nil {
				c2 = append(c2, f.Num)
			}
		}
		if len(c2) > 0 {
			num := c2[r.N(len(c2))]
			fs := s.F[num]
			g := v.Field(fs.Index)
			vf, ff := vm.F[num], fm.F[num]
			var sub reflect.Value
			var sv, sf *pm.Msg
			switch {
			case fs.F.IsList():
				i := r.N(len(vf.List))
				sub, sv, sf = g.Index(i), vf.List[i].M, ff.List[i].M
			case fs.F.Card == pm.Map:
				i := r.N(len(vf.Map))
				k := vf.Map[i].K
				sv = vf.Map[i].V.M
				for j := range ff.Map {
					if pm.KeyEq(fs.F.Key, ff.Map[j].K, k) {
						sf = ff.Map[j].V.M
					}
				}
				sub = s.MapIndex(v, fs, k)
			default:
				sub, sv, sf = g, vf.One.M, ff.One.M
			}
			if sub.IsValid() && sub.Kind() == reflect.Pointer && !sub.IsNil() {
				sub = sub.Elem()
			}
			if sub.IsValid() && sub.Kind() == reflect.Struct && sub.CanAddr() && sv != nil && sf != nil {
				c.mutate(t, fs.Sub, sub, sv, sf, r, depth+1)
				return
			}
		}
	}
	var fs []*pm.Field
	for _, f := range s.M.Sorted() {
		if f.Card == pm.Oneof {
			// only if the oneof holds a member this version knows
			ok := false
			for _, o := range s.M.Fields {
				if o.Oneof == f.Oneof && vm.F[o.Num] != nil {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		fs = append(fs, f)
	}
	if len(fs) == 0 {
		return
	}
	f := fs[r.N(len(fs))]
	tmp := pm.NewMsg(s.M)
	if r.P(0.8) || f.Card == pm.Oneof {
		for i := 0; i < 20 && tmp.F[f.Num] == nil; i++ {
			k := pm.RandKnobs(r)
			k.FieldP, k.Budget, k.Unknown = 0.9, 12, false
			if fv := pm.GenMsg(r, s.M, k).F[f.Num]; fv != nil {
				tmp.F[f.Num] = fv
			}
		}
		if f.Card == pm.Oneof && tmp.F[f.Num] == nil {
			return
		}
	}
	shape := s.F[f.Num]
	v.Field(shape.Index).SetZero()
	if f.Card == pm.Oneof {
		for _, o := range fm.T.Fields {
			if o.Oneof == f.Oneof {
				delete(fm.F, o.Num)
				delete(vm.F, o.Num)
			}
		}
	}
	delete(vm.F, f.Num)
	delete(fm.F, f.Num)
	if fv := tmp.F[f.Num]; fv != nil {
		s.SetField(v, shape, fv, r)
		o := pm.Decode(fm.T, pm.Encode(tmp, nil))
		if x := o.M.F[f.Num]; x != nil {
			fm.F[f.Num] = x
		}
		vm.F[f.Num] = tmp.Clone().F[f.Num]
	}
	t.count("relay_changed_a_field")
}

// serve handles one packet at a node.
func (c *clusterWorld) serve(t *thread, li life, e *envelope, r *pm.Rng) {
	n, epoch := li.n, li.epoch
	e.path = e.path[1:]
	p, vm, ok := c.receive(t, li, e)
	if !ok {
		return
	}
	s := c.vers[li.ver][e.msg]
	if len(e.path) == 0 {
		t.count("arrived")
		c.mu.Lock()
		f := c.out[e.id]
		f.arrivals++
		c.mu.Unlock()
		if c.fault(2, c.plan.FaultP) != 0 {
			t.count("fault_ack_lost")
		} else {
			c.mu.Lock()
			f.acked = true
			c.mu.Unlock()
		}
		c.release(li, e.msg, p)
		return
	}
	t.count("relayed")
	want := e.want
	if r.P(0.35) {
		want = want.Clone()
		c.mutate(t, s, p.Elem(), vm, want, r, 0)
		vm.Normalize()
		want.Normalize()
	}
	simrt.Yield(6)
	fwd := *e
	fwd.want = want
	if n.journal && !c.journalAppend(t, li, s, p, &fwd) {
		return
	}
	// forward; sometimes two threads encode the object for two next hops at once
	second := r.P(0.25)
	if second {
		c.mu.Lock()
		second = c.fanout < 8
		if second {
			c.fanout++
		}
		c.mu.Unlock()
	}
	send := func(t *thread, r *pm.Rng) {
		_, enc, ok := t.encode(fmt.Sprintf("encode at node %d (version %d)", li.n.id, li.ver), s, p, vm, r, false)
		if !ok {
			return
		}
		x := fwd
		x.bytes = enc
		if c.lost(t, li, "forwarded by", &x, enc) {
			return
		}
		n.mu.Lock()
		dead := n.epoch != epoch
		n.mu.Unlock()
		if !dead {
			c.transmit(t, n.id, &x)
		}
	}
	if second {
		t.count("fanouts")
		t2 := c.helper(t)
		r2 := r.Fork()
		th := simrt.Spawn(func() { send(t2, r2) })
		send(t, r)
		simrt.Join(th)
		t.viol = append(t.viol, t2.viol...)
		for k, v := range t2.stats {
			t.stats[k] += v
		}
	} else {
		send(t, r)
	}
	c.release(li, e.msg, p)
}

func (c *clusterWorld) helper(t *thread) *thread {
	return &thread{w: c.cw, id: t.id, op: t.op, stats: map[string]int64{}, first: map[sharedKey][]byte{}}
}

// journalAppend writes the message to the node's durable log before forwarding.
func (c *clusterWorld) journalAppend(t *thread, li life, s *bind.Shape, p reflect.Value, e *envelope) bool {
	n, epoch := li.n, li.epoch
	size := 0
	var err error
	if !t.call("Size", s, func() { size, err = prutal.Size(p.Interface()) }) {
		return false
	}
	if err != nil {
		t.fail("enc-err", "Size(%s) at node %d: unexpected error %v", s.M.Name, n.id, err)
		return false
	}
	rec := pm.AppendVarint(nil, uint64(size))
	if !t.call("MarshalAppend", s, func() { rec, err = prutal.MarshalAppend(rec, p.Interface()) }) {
		return false
	}
	if err != nil {
		t.fail("enc-err", "MarshalAppend(%s) at node %d: unexpected error %v", s.M.Name, n.id, err)
		return false
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.epoch != epoch {
		return false
	}
	if c.fault(2, c.plan.FaultP/3) != 0 {
		// the machine stops in the middle of the write
		t.count("fault_torn_journal")
		cut := c.fault(len(rec), 0.95)
		n.log = append(n.log, rec[:cut]...)
		c.crashLocked(t, n, 3*ms, -1)
		return false
	}
	cp := *e
	cp.bytes = nil
	n.recs = append(n.recs, journalRec{off: len(n.log), env: &cp})
	n.log = append(n.log, rec...)
	if len(n.recs) > 6 { // the log is compacted
		n.log = append([]byte(nil), n.log[n.recs[3].off:]...)
		base := n.recs[3].off
		n.recs = append([]journalRec(nil), n.recs[3:]...)
		for i := range n.recs {
			n.recs[i].off -= base
		}
	}
	t.count("journalled")
	return true
}

// crashLocked stops a node: everything in memory is gone.
func (c *clusterWorld) crashLocked(t *thread, n *cnode, down int64, ver int) {
	t.count("fault_crash")
	n.epoch++
	n.inbox = nil
	n.pool = map[int][]reflect.Value{}
	n.downTo = c.now() + down
	if ver >= 0 && ver != n.ver {
		n.ver = ver
		t.count("fault_version_change")
	}
}

// recover replays the journal after a restart: whole records are forwarded
// again, by the code version that now runs.
func (c *clusterWorld) recover(t *thread, li life, r *pm.Rng) {
	n, epoch := li.n, li.epoch
	n.mu.Lock()
	log := append([]byte(nil), n.log...)
	recs := append([]journalRec(nil), n.recs...)
	n.mu.Unlock()
	for i, rec := range recs {
		b := log[rec.off:]
		l, k, err := pm.Varint(b)
		if err != nil || uint64(len(b)-k) < l {
			t.fail("size", "record %d of node %d's journal cannot be read back: wrong length prefix", i, n.id)
			return
		}
		if i+1 < len(recs) && rec.off+k+int(l) != recs[i+1].off {
			t.fail("size", "record %d of node %d's journal: the length prefix says %d bytes, the record has %d", i, n.id, l, recs[i+1].off-rec.off-k)
			return
		}
		e := *rec.env
		e.bytes = append([]byte(nil), b[k:k+int(l)]...)
		t.count("replayed")
		p, vm, ok := c.receive(t, li, &e)
		if !ok {
			return
		}
		s := c.vers[li.ver][e.msg]
		_, enc, ok := t.encode(fmt.Sprintf("encode at node %d (version %d) after a restart", li.n.id, li.ver), s, p, vm, r, false)
		if !ok {
			return
		}
		e.bytes = enc
		if c.lost(t, li, "forwarded after a restart by", &e, enc) {
			return
		}
		c.release(li, e.msg, p)
		c.transmit(t, n.id, &e)
		n.mu.Lock()
		dead := n.epoch != epoch
		n.mu.Unlock()
		if dead {
			return
		}
	}
	n.mu.Lock()
	if n.epoch == epoch { // cut off a torn tail
		end := 0
		if k := len(n.recs); k > 0 {
			l, w, _ := pm.Varint(n.log[n.recs[k-1].off:])
			end = n.recs[k-1].off + w + int(l)
		}
		if end < len(n.log) {
			t.count("torn_tail_cut")
			n.log = n.log[:end]
		}
		n.ready = epoch
	}
	n.mu.Unlock()
}

// RunCluster executes one plan of the cluster world.
func RunCluster(ty *Types, plan *Plan) *Report {
	cw := &codecWorld{plan: plan, ty: ty, shared: map[sharedKey]*shared{}, inputs: map[sharedKey]*sharedIn{}}
	c := &clusterWorld{cw: cw, plan: plan, vers: ty.Vers[plan.P["hist"]%len(ty.Vers)]}
	rep := &Report{Stats: map[string]int64{}}
	simrt.SetRuntimeRand(plan.MapSeed | 1)
	zzverif.Reset()
	r0 := pm.NewRng(plan.Seed ^ 0xc105)
	nrelay := max(plan.P["relays"], 1)
	nn := nrelay + 1 // the last is the reader
	for i := 0; i < nn; i++ {
		n := &cnode{id: i, ver: r0.N(len(c.vers)), policy: r0.N(3), journal: r0.P(0.5), pool: map[int][]reflect.Value{}}
		if i == nrelay {
			n.journal = false
			if r0.P(0.7) {
				n.ver = 0
			}
		}
		c.nodes = append(c.nodes, n)
	}
	c.calm = int64(plan.P["calm_ms"]) * ms
	limit := c.calm + int64(plan.P["limit_ms"])*ms
	msgs := plan.Threads[0]
	var events []Op
	if len(plan.Threads) > 1 {
		events = append(events, plan.Threads[1]...)
		sort.SliceStable(events, func(i, j int) bool { return events[i].Y < events[j].Y })
	}
	for _, ev := range events {
		if ev.K == "partition" {
			a, b := int64(ev.X%nn), int64(ev.T%nn)
			if ev.S%3 == 0 {
				a = -1 // the sender
			}
			from := int64(ev.Y%(max(plan.P["calm_ms"], 1)*100)) * 10_000
			c.parts = append(c.parts, [4]int64{a, b, from, min(from+int64(1+ev.S%20)*ms, c.calm)})
		}
	}
	var threads []*thread
	newThread := func() *thread {
		t := &thread{w: cw, id: len(threads), stats: map[string]int64{}, first: map[sharedKey][]byte{}}
		threads = append(threads, t)
		return t
	}
	c.out = make([]*flight, len(msgs))
	for i := range c.out {
		c.out[i] = &flight{}
	}
	failed := func() bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		return c.stop
	}
	fail := func(t *thread) bool {
		if t.failed() {
			c.mu.Lock()
			c.stop = true
			c.mu.Unlock()
			return true
		}
		return failed()
	}
	races := simrt.RaceErrors()
	simrt.Begin(plan.Config())
	c.start = simrt.NowNS()
	// the sender
	ts := newThread()
	simrt.Spawn(func() {
		type outgoing struct {
			op Op
			s  *bind.Shape
			p  reflect.Value
			m  *pm.Msg
			e  envelope
			r  *pm.Rng
		}
		var og []*outgoing
		for i, op := range msgs {
			r := pm.NewRng(op.S)
			ver := 0
			if op.Y%4 == 0 {
				ver = r.N(len(c.vers))
			}
			mi := op.T % len(c.vers[0])
			s := c.vers[ver][mi]
			m := cw.valueFor(s, r)
			o := &outgoing{op: op, s: s, m: m, p: s.Build(m, r), r: r}
			want, err := c.full(mi, pm.Encode(m, nil))
			if err != nil {
				panic(err)
			}
			o.e = envelope{id: i, msg: mi, want: want}
			for h := 1 + r.N(3); h > 0; h-- {
				o.e.path = append(o.e.path, r.N(nrelay))
			}
			o.e.path = append(o.e.path, nrelay)
			og = append(og, o)
		}
		for {
			pending := false
			for i, o := range og {
				c.mu.Lock()
				done := c.out[i].acked
				due := c.out[i].due
				tries := c.out[i].tries
				c.mu.Unlock()
				if done {
					continue
				}
				pending = true
				if c.now() < due {
					continue
				}
				if due > 0 {
					ts.count("retransmitted")
				}
				ts.op = i
				var enc []byte
				if o.op.Y%8 == 5 { // a peer that is not prutal
					enc = pm.Encode(o.m, variation(o.r))
				} else {
					var ok bool
					if _, enc, ok = ts.encode("encode at the sender", o.s, o.p, o.m, o.r, false); !ok {
						fail(ts)
						return
					}
				}
				e := o.e
				e.bytes = enc
				e.path = append([]int(nil), o.e.path...)
				c.transmit(ts, -1, &e)
				c.mu.Lock()
				c.out[i].due = c.now() + 15*ms<<min(tries, 5)
				c.out[i].tries++
				c.mu.Unlock()
			}
			if !pending || failed() {
				c.mu.Lock()
				c.stop = true
				c.mu.Unlock()
				return
			}
			if c.now() > limit {
				ts.fail("no-progress", "messages are still undelivered %d ms after the last fault", plan.P["limit_ms"])
				fail(ts)
				return
			}
			simrt.Sleep(2 * ms)
		}
	})
	// the nodes, some with two workers
	for i := range c.nodes {
		n := c.nodes[i]
		for k := 0; k < 1+(plan.P["workers"]>>uint(i))&1; k++ {
			t := newThread()
			r := pm.NewRng(plan.Seed + uint64(i)*131 + uint64(k))
			main := k == 0
			simrt.Spawn(func() {
				for !fail(t) {
					now := c.now()
					n.mu.Lock()
					down := n.downTo
					li := life{n, n.epoch, n.ver}
					ready := n.ready == n.epoch
					n.mu.Unlock()
					if now < down {
						simrt.Sleep(down - now)
						continue
					}
					if !ready {
						if main {
							t.count("restarts")
							c.recover(t, li, r)
						} else {
							simrt.Sleep(ms)
						}
						continue
					}
					e, next := n.take(now)
					if e == nil {
						simrt.Sleep(min(next-now, 5*ms) + 1000)
						continue
					}
					c.serve(t, li, e, r)
				}
			})
		}
	}
	// crashes and upgrades
	if len(events) > 0 {
		te := newThread()
		simrt.Spawn(func() {
			for i, ev := range events {
				te.op = i
				at := int64(ev.Y%(max(plan.P["calm_ms"], 1)*100)) * 10_000
				for at > c.now() && !failed() {
					simrt.Sleep(min(at-c.now(), 5*ms))
				}
				if failed() {
					return
				}
				n := c.nodes[ev.X%nn]
				switch ev.K {
				case "crash":
					n.mu.Lock()
					c.crashLocked(te, n, int64(1+ev.S%8)*ms, -1)
					n.mu.Unlock()
				case "upgrade":
					n.mu.Lock()
					c.crashLocked(te, n, ms/2, int(ev.S%uint64(len(c.vers))))
					n.mu.Unlock()
				case "partition":
					te.count("fault_partition")
				}
			}
		})
	}
	rep.Res = simrt.Run()
	simrt.SetRuntimeRand(plan.MapSeed | 1)
	for _, t := range threads {
		rep.Viol = append(rep.Viol, t.viol...)
		for k, v := range t.stats {
			rep.Stats[k] += v
		}
	}
	if rep.Res.Panic != "" {
		rep.Viol = append(rep.Viol, Violation{Class: "panic", Detail: "a goroutine of the library panics: " + rep.Res.Panic})
	}
	if rep.Res.Deadlock != "" {
		rep.Viol = append(rep.Viol, Violation{Class: "deadlock", Detail: rep.Res.Deadlock})
	}
	if rep.Res.Livelock {
		rep.Viol = append(rep.Viol, Violation{Class: "livelock", Detail: fmt.Sprintf("no end after %d steps", rep.Res.Steps)})
	}
	if n := simrt.RaceErrors() - races; n > 0 {
		rep.Races = n
		rep.Viol = append(rep.Viol, Violation{Class: "race", Detail: fmt.Sprintf("%d data races reported by the race detector", n)})
	}
	rep.SimNS = rep.Res.SimNS
	return rep
}
