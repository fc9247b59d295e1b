package genworld

import (
	"strings"

	"verif/plan"
	"verif/pm"
	"verif/sim/simproc"
)

// success is the world of C09: runs on a failing file system and on inputs
// that cannot be used. What is reported as success must be one.
func (w *run) success() {
	pr := project(uint64(w.p.P["proj"]), w.p.P["size"])
	for i, o := range w.p.Threads[0] {
		w.op = i
		r := pm.NewRng(o.S)
		t := newTree(pr, "/home/u/w", r)
		v := invoke(t, r)
		if o.K == "damage" {
			w.damaged(t, v, r, o)
			continue
		}
		lib := o.K == "lib"
		w.look = true
		ref, res := w.reference(t, v, lib)
		if ref == nil {
			w.fail("gen-fails", "the generator fails on valid input: %s (%s)\n    %s", res.ended, strings.Join(v.argv(), " "), traceOf(res.proc)+strings.Join(res.lines, "\n"))
			continue
		}
		w.count("references")
		for fn, f := range v.outputs(t) {
			if l := f.CheckGo(ref[fn]); len(l) > 0 {
				w.fail("gen-wrong", "%s does not have the schema's contents: %s", fn, strings.Join(l, "; "))
			}
			w.count("outputs_compared_with_schema")
		}
		what, _ := mess(t, v, ref, r, o.X%3 == 0)
		f := outFaults(w.p.FaultP, r)
		got := w.faulty(t, v, lib, f, r, o)
		w.look = false
		w.judge(t, v, ref, got, what)
		if got.ok && len(got.wrong) > 0 {
			w.fail("descr-wrong", "the loaded descriptor does not have the schema's contents: %s", strings.Join(got.wrong, "; "))
		}
	}
}

func (w *run) faulty(t *tree, v *invocation, lib bool, f simproc.Faults, r *pm.Rng, o plan.Op) *result {
	if lib {
		return w.lib(t, v, f, r, o.X%4 != 0)
	}
	return w.main(t, v, t.dir, f, o.X%4 != 0)
}

func (w *run) judge(t *tree, v *invocation, ref map[string][]byte, res *result, what []string) {
	if !res.ok {
		w.count("reported_failures")
		return
	}
	w.count("reported_successes")
	if len(res.proc.Injects) > 0 {
		w.count("successes_despite_faults")
	}
	ctx := strings.Join(v.argv(), " ") + "; before: " + strings.Join(what, ", ")
	for fn, want := range ref {
		got, ok := t.fs.Read(fn)
		switch {
		case !ok:
			w.fail("false-success", "success is reported (%s), but there is no %s; %s\n    %s", res.ended, fn, ctx, traceOf(res.proc))
		case string(got) != string(want):
			w.fail("false-success", "success is reported (%s), but %s has %s; %s\n    %s", res.ended, fn, diffText(got, want), ctx, traceOf(res.proc))
		}
	}
	if len(res.proc.Hard) > 0 {
		w.fail("false-success", "success is reported (%s), but this failed: %s; %s\n    %s", res.ended, strings.Join(res.proc.Hard, "; "), ctx, traceOf(res.proc))
	}
}

// damaged: an input that cannot be used must not lead to success.
func (w *run) damaged(t *tree, v *invocation, r *pm.Rng, o plan.Op) {
	fs := closure(v.files)
	what := ""
	kind := 0
	for k := 0; what == "" && k < 5; k++ {
		kind = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 10, 10, 10}[r.N(14)]
		what = damage(t, v, r, fs[r.N(len(fs))], kind)
	}
	if what == "" {
		return
	}
	w.count([]string{"damage_truncated", "damage_zeroed", "damage_garbage", "damage_missing", "damage_undefined_type", "damage_not_a_file", "damage_brace", "damage_number", "damage_group", "damage_unreadable", "damage_contradiction"}[kind])
	f := simproc.Faults{P: w.p.FaultP, Benign: r.P(0.3)}
	var res *result
	if o.X%2 == 0 {
		res = w.lib(t, v, f, r, false)
	} else {
		res = w.main(t, v, t.dir, f, false)
	}
	if res.ok {
		w.fail("bad-input-accepted", "success is reported (%s), although %s (%s)\n    %s", res.ended, what, strings.Join(v.argv(), " "), traceOf(res.proc))
	}
}
