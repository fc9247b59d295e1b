package world

import "verif/pm"

// opW is a weighted operation kind.
type opW struct {
	k string
	w int
}

func pickOp(r *pm.Rng, ws []opW) string {
	n := 0
	for _, w := range ws {
		n += w.w
	}
	x := r.N(n)
	for _, w := range ws {
		if x -= w.w; x < 0 {
			return w.k
		}
	}
	return ws[0].k
}

// typeSet chooses the types of a run: mostly one family, a few types.
func typeSet(r *pm.Rng, shapes int, fams [][2]int) []int {
	if len(fams) == 0 {
		return nil
	}
	f := fams[r.N(len(fams))]
	n := 1 + r.Pick(4, 3, 2, 1)
	var out []int
	for i := 0; i < n; i++ {
		if r.P(0.1) {
			f = fams[r.N(len(fams))]
		}
		out = append(out, f[0]+r.N(f[1]-f[0]))
	}
	return out
}

func (t *Types) codecFams() [][2]int {
	var out [][2]int
	n := 0
	for _, f := range t.Cat.Codec {
		out = append(out, [2]int{n, n + len(f.Messages)})
		n += len(f.Messages)
	}
	return out
}

func (t *Types) mixedFams() [][2]int {
	var out [][2]int
	n := 0
	for _, f := range t.Cat.Mixed {
		out = append(out, [2]int{n, n + len(f.Messages)})
		n += len(f.Messages)
	}
	return out
}

// mixedSize is the number of types in Mixed without the swarm.
func (t *Types) mixedSize() int {
	n := 0
	for i, f := range t.Cat.Mixed {
		if i < len(t.Cat.Mixed)-1 {
			n += len(f.Messages)
		}
	}
	return n
}

// MakePlan draws the plan of one run of a property's profile.
func (ty *Types) MakePlan(prop string, seed uint64) *Plan {
	r := pm.NewRng(seed)
	if prop == "C08" && r.P(0.8) || prop == "C12" && r.P(0.5) {
		return ty.clusterPlan(prop, seed, r)
	}
	p := &Plan{Prop: prop, World: "codec", Seed: seed, P: map[string]int{}}
	types := typeSet(r, len(ty.Codec), ty.codecFams())
	mixed := typeSet(r, len(ty.Mixed), ty.mixedFams())
	var nth, maxOps int
	var ws []opW
	var hostile []opW // thread 0, if set
	small := 0.6
	switch prop {
	case "C01":
		nth, maxOps = 2+r.Pick(5, 3, 2, 1, 1), 5
		ws = []opW{{"enc_shared", 8}, {"enc", 5}, {"dec_shared", 8}, {"dec", 5}, {"send", 2}, {"recv", 2}, {"bad", 2}, {"use", 2}, {"reuse", 1}, {"smash", 1}, {"frame", 1}}
		small = 0.8
	case "C02":
		nth, maxOps = 1+r.Pick(3, 3, 2, 1), 8
		ws = []opW{{"use", 20}, {"badarg", 1}, {"enc", 1}, {"dec", 1}}
		small = 1
		if r.P(0.35) {
			p.P["hook_panics"] = 1 + r.N(4)
		}
	case "C03":
		nth, maxOps = 1+r.Pick(3, 3, 1), 7
		ws = []opW{{"enc", 10}, {"enc_shared", 6}, {"frame", 5}, {"verify", 1}, {"dec", 1}, {"cyclic", 1}, {"smash", 2}}
		p.P["unk"] = r.N(2)
		small = 0.5
	case "C04":
		nth, maxOps = 1+r.Pick(3, 3, 1), 8
		ws = []opW{{"dec", 10}, {"smash", 6}, {"reuse", 4}, {"dec_shared", 3}, {"send", 2}, {"recv", 3}, {"frame", 2}, {"drop", 1}, {"bad", 1}, {"enc", 1}}
		p.P["unk"] = r.N(2)
		small = 0.5
	case "C05":
		nth, maxOps = 1+r.Pick(3, 3, 1), 7
		ws = []opW{{"dec", 6}, {"enc", 6}, {"bad", 8}, {"reuse", 3}, {"smash", 2}, {"enc_shared", 3}, {"dec_shared", 3}, {"drop", 2}, {"use", 1}, {"cyclic", 1}, {"frame", 1}}
		small = 0.4
		p.P["gcvis"] = 1
	case "C06":
		nth, maxOps = 1+r.Pick(3, 3, 1), 6
		ws = []opW{{"enc", 4}, {"dec", 4}, {"enc_shared", 2}, {"dec_shared", 2}, {"verify", 1}, {"bad", 6}, {"badarg", 1}, {"cyclic", 1}, {"deep", 1}}
		hostile = []opW{{"bad", 16}, {"deep", 2}, {"cyclic", 2}, {"badarg", 2}}
		p.P["bounds"] = r.N(2)
		small = 0.6
	case "C07":
		nth, maxOps = 1+r.Pick(4, 2), 6
		ws = []opW{{"enc", 6}, {"dec", 10}, {"frame", 1}, {"reuse", 1}}
		small = 0.25
	case "C08":
		nth, maxOps = 1+r.Pick(4, 1), 8
		ws = []opW{{"dec", 8}, {"reuse", 8}, {"enc", 3}, {"smash", 1}, {"frame", 1}, {"bad", 1}}
		p.P["unk"] = 1
	case "C12":
		nth, maxOps = 1+r.Pick(6, 1), 6
		ws = []opW{{"enc", 6}, {"dec", 8}, {"frame", 1}, {"reuse", 2}, {"getters", 4}}
		p.P["unk"] = 1
		small = 0.4
	default:
		panic("no codec profile for " + prop)
	}
	if r.P(small) {
		p.P["small"] = 1
	}
	if r.P(0.1) {
		p.P["canon"] = 1
	}
	if prop != "C02" && prop != "C06" && r.P(0.015) {
		p.P["huge"] = 1
	}
	if prop == "C02" && len(ty.Meet) > 0 && r.P(0.15) { // types which meet in one slot of a table
		mixed = ty.Meet[r.N(len(ty.Meet))]
		if r.P(0.3) {
			mixed = append(append([]int{}, mixed...), ty.Meet[r.N(len(ty.Meet))]...)
		}
	}
	sweep := prop == "C02" && r.P(0.01)
	// shared operands: few seeds, so that threads meet on them
	pool := []uint64{r.U64(), r.U64()}
	ops := 0
	for i := 0; i < nth; i++ {
		n := 1 + r.N(maxOps)
		var th []Op
		for j := 0; j < n; j++ {
			w := ws
			if i == 0 && hostile != nil && r.P(0.8) {
				w = hostile
			}
			op := Op{K: pickOp(r, w), T: types[r.N(len(types))], S: r.U64(), X: r.N(1 << 16), Y: r.N(1 << 16)}
			switch op.K {
			case "enc_shared", "dec_shared":
				op.S = pool[r.N(2)]
			case "use":
				op.T = mixed[r.N(len(mixed))]
			}
			if (op.K == "recv" || op.K == "smash" || op.K == "reuse" || op.K == "drop") && j == 0 && r.P(0.8) {
				op.K = "dec"
			}
			th = append(th, op)
		}
		ops += n
		p.Threads = append(p.Threads, th)
	}
	if sweep { // a lot of types are used in one run
		n := 50 + r.N(len(ty.Mixed)*2)
		for ; n > 0; n-- {
			i := r.N(nth)
			p.Threads[i] = append(p.Threads[i], Op{K: "use", T: r.N(len(ty.Mixed)), S: r.U64(), X: r.N(1 << 16), Y: r.N(1 << 16)})
			ops++
		}
		p.P["small"] = 1
	}
	p.Knobs(r, int64(ops)*1200)
	switch prop {
	case "C04":
		p.GCs = r.N(4)
	case "C05":
		p.GCs = 2 + r.N(7)
		p.Poison |= 1
	default:
		if r.P(0.15) {
			p.GCs = 1 + r.N(2)
		}
	}
	return p
}

// clusterPlan draws a run of the cluster world.
func (ty *Types) clusterPlan(prop string, seed uint64, r *pm.Rng) *Plan {
	p := &Plan{Prop: prop, World: "cluster", Seed: seed, P: map[string]int{}}
	p.P["hist"] = r.N(len(ty.Vers))
	p.P["relays"] = 1 + r.N(4)
	p.P["workers"] = r.N(64)
	p.P["calm_ms"] = []int{0, 10, 40, 100}[r.N(4)]
	p.P["limit_ms"] = 20000
	p.P["unk"] = r.N(2)
	if r.P(0.7) {
		p.P["small"] = 1
	}
	nm := len(ty.Vers[p.P["hist"]][0])
	var msgs, evs []Op
	for i := 1 + r.N(7); i > 0; i-- {
		msgs = append(msgs, Op{K: "msg", T: r.N(nm), S: r.U64(), Y: r.N(1 << 10)})
	}
	for i := r.N(7); i > 0 && p.P["calm_ms"] > 0; i-- {
		evs = append(evs, Op{K: []string{"crash", "upgrade", "upgrade", "partition"}[r.N(4)], T: r.N(16), X: r.N(16), S: r.U64(), Y: r.N(1 << 14)})
	}
	p.Threads = [][]Op{msgs, evs}
	p.Knobs(r, int64(len(msgs))*20000)
	p.FaultP = []float64{0, 0.05, 0.2, 0.4}[r.N(4)]
	if r.P(0.2) {
		p.GCs = 1 + r.N(2)
	}
	return p
}

// Run executes a plan.
func (ty *Types) Run(p *Plan) *Report {
	switch p.World {
	case "codec":
		return RunCodec(ty, p)
	case "cluster":
		return RunCluster(ty, p)
	case "probe":
		return RunProbe(ty, p)
	}
	panic("unknown world " + p.World)
}
