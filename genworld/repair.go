package genworld

import (
	"fmt"
	"sort"
	"strings"

	"verif/plan"
	"verif/pm"
	"verif/psrc"
	"verif/sim/simproc"
	"verif/sim/simrt"
)

// repair is the world of C10: a tree on which runs are interrupted, fail and
// are repeated, with schemas that change in between. A last undisturbed run
// must leave what it leaves in a clean tree, and no run may touch anything but
// its outputs.
func (w *run) repair() {
	pr := project(uint64(w.p.P["proj"]), w.p.P["size"])
	r := pm.NewRng(w.p.Seed ^ 0x10)
	t := newTree(pr, "/home/u/w", r)
	v := invoke(t, r)
	lib := r.P(0.3)
	outs := v.outputs(t)
	if r.P(0.5) {
		strangers(t, v, r)
	}
	base := t.fs.Files() // what nobody may touch
	cur := pr
	clock := int64(0)
	pid := 4242
	w.op = -1
	ref, res := w.reference(t, v, lib)
	if ref == nil {
		w.count("no_reference")
		return
	}
	// edit lets the harness change the tree.
	edit := func(f func()) {
		f()
		t.fs.Settle()
		fresh := map[string]string{}
		now := t.fs.Files()
		for fn := range base {
			if now[fn] != "" {
				fresh[fn] = now[fn]
			}
		}
		for fn := range t.in {
			if now[fn] != "" {
				fresh[fn] = now[fn]
			}
		}
		base = fresh
	}
	prepare := func(p *simproc.Proc) {
		p.Clock, p.Pid = clock, pid
	}
	w.prepare = prepare
	defer func() { w.prepare = nil }()
	root := pm.NewRng(w.p.Seed ^ 0x1010).P(0.4) // permission bits do not matter
	go1 := func(v *invocation, f simproc.Faults, r *pm.Rng) *result {
		if lib {
			return w.lib(t, v, f, r, root)
		}
		return w.main(t, v, t.dir, f, root)
	}
	check := func(before map[string]string, res *result, what string, outs map[string]*psrc.File, whole bool) bool {
		if d := touched(base, before, t.fs.Files(), outs, whole); d != "" {
			w.fail("touched", "%s: %s\n    %s", what, d, traceOf(res.proc))
			return false
		}
		return true
	}
	for i, o := range w.p.Threads[0] {
		w.op = i
		r := pm.NewRng(o.S)
		before := t.fs.Files()
		w.count("op_" + o.K)
		switch o.K {
		case "version": // the schema is changed
			to := pr
			if r.P(0.8) {
				to = pr.Derive(pr.Name, "example.com/"+pr.Name, r.U64(), 0.3+float64(r.N(60))/100)
			}
			cur = to
			edit(func() {
				write(t.fs, to, t.dir)
				if r.P(0.5) {
					for _, f := range to.Files {
						t.fs.PutTime(inPath(t, f), int64(r.N(1<<30))*4e9)
					}
				}
			})
		case "clock":
			clock = (int64(r.N(1<<20)) - 1<<19) * 3600e9
			if r.P(0.5) {
				pid = 2 + r.N(30000)
			}
		case "mess":
			edit(func() {
				for fn := range outs {
					t.fs.Remove(fn)
				}
				mess(t, v, ref, r, false)
			})
		case "run":
			res := go1(v, simproc.Faults{}, r)
			check(before, res, "an undisturbed run", outs, true)
		case "other": // another invocation, with its own outputs
			v2 := invoke(t, r)
			o2 := v2.outputs(t)
			res := w.main(t, v2, t.dir, simproc.Faults{}, root)
			if !res.ok {
				w.count("other_failed")
			}
			if check(before, res, "an undisturbed run", o2, true) {
				t.fs.Settle()
				now := t.fs.Files()
				for fn := range o2 {
					if outs[fn] == nil && now[fn] != "" {
						base[fn] = now[fn]
					}
				}
			}
		case "fail":
			f := outFaults(w.p.FaultP, r)
			f.Errors = true
			res := go1(v, f, r)
			t.fs.NoSpace, t.fs.Dead, t.fs.ReadOnly = false, false, false
			check(before, res, "a run with failing operations", outs, false)
		case "broken": // the schema cannot be used for a while
			save := map[string][]byte{}
			edit(func() {
				for fn := range t.in {
					if b, ok := t.fs.Read(fn); ok {
						save[fn] = append([]byte(nil), b...)
					}
				}
				fs := closure(v.files)
				for k := 0; k < 5 && damage(t, v, r, fs[r.N(len(fs))], r.N(11)) == ""; k++ {
				}
			})
			before = t.fs.Files()
			res := go1(v, simproc.Faults{}, r)
			check(before, res, "a run on a broken schema", outs, false)
			edit(func() {
				for fn := range t.in {
					t.fs.RemoveAll(fn)
				}
				for _, fn := range sorted(save) {
					t.fs.Put(fn, save[fn], 0o644)
				}
			})
		case "crash":
			f := simproc.Faults{P: []float64{0.005, 0.02, 0.1}[r.N(3)], Benign: r.P(0.2)}
			f.Power = r.P(0.5)
			f.Kill = !f.Power
			if r.P(0.6) {
				f.Only = []string{"open", "write /", "close", "mkdir", "read", "rename"}[r.Pick(3, 5, 3, 2, 1, 1)]
				f.P = 0.4
			}
			res := go1(v, f, r)
			if res.proc.Killed != "" {
				w.count("ended_by_" + res.proc.Killed)
			}
			check(before, res, "an interrupted run", outs, false)
		case "poweroff":
			t.fs.PowerLoss(func(desc string, write bool) int {
				n := 2
				if write {
					n = 1000
				}
				return simrt.Choose(simrt.KFault, n, 0.4)
			})
			w.count("ended_by_power")
		}
		if len(w.viol) > 0 {
			return
		}
	}
	w.op = len(w.p.Threads[0])
	if cur != pr {
		// the reference is that of the present schema
		c := newTree(pr, t.dir, pm.NewRng(w.p.Seed^0x10))
		write(c.fs, cur, c.dir)
		if ref, res = w.reference(c, v, lib); ref == nil {
			w.count("no_reference")
			return
		}
	}
	before := t.fs.Files()
	res = go1(v, simproc.Faults{P: 0.1, Benign: true}, r)
	ctx := strings.Join(v.argv(), " ") + " after " + opNames(w.p.Threads[0])
	w.count("final_runs")
	if !res.ok {
		w.fail("rerun-fails", "the last run fails: %s (%s)\n    %s\n%s", res.ended, ctx, traceOf(res.proc), strings.Join(res.lines, "\n"))
		return
	}
	for _, fn := range sorted(ref) {
		got, ok := t.fs.Read(fn)
		if !ok {
			w.fail("not-repaired", "there is no %s after the last run (%s)\n    %s", fn, ctx, traceOf(res.proc))
		} else if string(got) != string(ref[fn]) {
			w.fail("not-repaired", "%s has %s after the last run (%s)\n    %s", fn, diffText(got, ref[fn]), ctx, traceOf(res.proc))
		}
		w.count("outputs_compared")
	}
	check(before, res, "the last run ("+ctx+")", outs, true)
}

func opNames(ops []plan.Op) string {
	var l []string
	for _, o := range ops {
		l = append(l, o.K)
	}
	return strings.Join(l, ", ")
}

func sorted[T any](m map[string]T) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// touched compares what was there before the tool ever ran (base) and what
// was there before this run with what is there now. A run that did not come
// to its end may leave temporary files behind, but no sources; such files are
// nobody's.
func touched(base, before, after map[string]string, outs map[string]*psrc.File, whole bool) string {
	var l []string
	for fn, d := range base {
		if _, ok := outs[fn]; ok {
			continue
		}
		if after[fn] == "" {
			l = append(l, fn+" is gone")
		} else if after[fn] != d {
			l = append(l, fmt.Sprintf("%s changed from %s to %s", fn, d, after[fn]))
		}
	}
	for fn, d := range after {
		if _, ok := outs[fn]; ok || before[fn] != "" || base[fn] != "" {
			continue
		}
		if !whole && !strings.HasSuffix(fn, ".go") && !strings.HasSuffix(fn, ".proto") {
			continue
		}
		l = append(l, fmt.Sprintf("%s appeared (%s)", fn, d))
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}
