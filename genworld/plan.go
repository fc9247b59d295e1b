package genworld

import (
	"verif/plan"
	"verif/pm"
)

// MakePlan draws the plan of one run.
func (*World) MakePlan(prop string, seed uint64) *plan.Plan {
	r := pm.NewRng(seed)
	p := &plan.Plan{Prop: prop, World: "gen", Seed: seed, P: map[string]int{}}
	p.P["proj"] = r.N(1 << 30)
	p.P["size"] = r.N(72)
	switch prop {
	case "C09":
		var ops []plan.Op
		for i := 2 + r.N(5); i > 0; i-- {
			k := []string{"main", "lib", "damage"}[r.Pick(4, 2, 3)]
			ops = append(ops, plan.Op{K: k, S: r.U64(), X: r.N(1 << 16), Y: r.N(1 << 16)})
		}
		p.Threads = [][]plan.Op{ops}
	case "C10":
		var ops []plan.Op
		ks := []string{"crash", "version", "run", "fail", "broken", "mess", "clock", "other", "poweroff"}
		for i := 1 + r.N(6); i > 0; i-- {
			ops = append(ops, plan.Op{K: ks[r.Pick(8, 3, 2, 2, 1, 2, 1, 1, 1)], S: r.U64()})
		}
		p.Threads = [][]plan.Op{ops}
	case "C11":
		p.P["mode"] = r.Pick(1, 3)
		p.P["warm"] = r.N(2)
		if p.P["mode"] == 0 {
			var ops []plan.Op
			for i := 2 + r.N(3); i > 0; i-- {
				ops = append(ops, plan.Op{K: []string{"again", "alone"}[r.Pick(3, 2)], S: r.U64()})
			}
			p.Threads = [][]plan.Op{ops}
			break
		}
		ks := []string{"gen", "bad", "reuse", "late"}
		for i := 1 + r.Pick(2, 5, 3); i > 0; i-- {
			var ops []plan.Op
			for k := 1 + r.N(2); k > 0; k-- {
				ops = append(ops, plan.Op{K: ks[r.Pick(5, 3, 3, 2)], T: r.N(2), S: r.U64(), X: r.N(4)})
			}
			p.Threads = append(p.Threads, ops)
		}
	case "C12":
		var ops []plan.Op
		for i := 1 + r.N(4); i > 0; i-- {
			ops = append(ops, plan.Op{K: []string{"main", "lib"}[r.Pick(3, 1)], S: r.U64(), X: r.N(72), Y: r.N(1 << 16)})
		}
		p.Threads = [][]plan.Op{ops}
	default:
		panic("no plan for " + prop)
	}
	p.Knobs(r, 20000)
	p.GCs, p.Poison = 0, 0
	p.PreemptMean, p.PCT = 0, 0
	if len(p.Threads) > 1 {
		switch r.N(5) {
		case 0:
			p.PCT, p.PCTLen = 1+r.N(4), []int64{100000, 1000000, 8000000}[r.N(3)]
		default:
			p.PreemptMean = []int64{20, 200, 2000, 20000}[r.N(4)]
		}
	}
	p.MaxSteps = 400_000_000
	p.FaultP = []float64{0.01, 0.04, 0.15, 0.4}[r.N(4)]
	return p
}
