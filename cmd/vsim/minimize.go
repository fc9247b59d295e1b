package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"verif/plan"
	"verif/sim/simrt"
)

func clonePlan(p *plan.Plan) *plan.Plan {
	js, _ := json.Marshal(p)
	q := &plan.Plan{}
	json.Unmarshal(js, q)
	if q.P == nil {
		q.P = map[string]int{}
	}
	return q
}

// minimiser shrinks a failing plan while the same class of violation stays.
type minimiser struct {
	s     *server
	class string
	until time.Time
	runs  int
}

// group joins classes that are one failure seen at different places.
func group(c string) string {
	switch c {
	case "crash", "panic":
		return "crash"
	case "deadlock", "livelock", "hang":
		return "stuck"
	}
	return c
}

func (m *minimiser) fails(p *plan.Plan) (*plan.Report, bool) {
	limit := 60 * time.Second
	if group(m.class) == "stuck" {
		limit = 20 * time.Second
	}
	rep, _, err := m.s.run(p, limit)
	m.runs++
	if err != nil || len(rep.Viol) == 0 {
		return nil, false
	}
	for _, v := range rep.Viol {
		if group(v.Class) == group(m.class) {
			return rep, true
		}
	}
	return nil, false
}

func (m *minimiser) out() bool { return time.Now().After(m.until) }

// try runs a candidate under several schedules.
func (m *minimiser) try(p *plan.Plan, seeds int) (*plan.Plan, bool) {
	q := clonePlan(p)
	if _, ok := m.fails(q); ok {
		return q, true
	}
	if q.Replay || q.Threads == nil {
		return nil, false
	}
	for i := 1; i <= seeds && !m.out(); i++ {
		q.Sched = simrt.Mix(p.Seed, uint64(i)+77)
		switch i % 4 {
		case 1:
			q.PCT, q.PreemptMean = p.PCT, p.PreemptMean
		case 2:
			if len(q.Threads) > 1 {
				q.PCT, q.PreemptMean = 1+i%3, 0
			}
		case 3:
			if len(q.Threads) > 1 {
				q.PCT, q.PreemptMean = 0, 5
			}
		}
		if _, ok := m.fails(q); ok {
			return clonePlan(q), true
		}
	}
	return nil, false
}

// minimise returns the smallest plan found and its report.
func (m *minimiser) minimise(p *plan.Plan) (*plan.Plan, *plan.Report) {
	best, ok := m.try(p, 0)
	if !ok {
		return nil, nil
	}
	seeds := 12
	if len(best.Threads) <= 1 {
		seeds = 1
	}
	// 1. threads and operations
	for changed := true; changed && !m.out(); {
		changed = false
		for t := len(best.Threads) - 1; t >= 0 && !m.out() && len(best.Threads) > 1; t-- {
			q := clonePlan(best)
			q.Threads = append(q.Threads[:t], q.Threads[t+1:]...)
			if q, ok := m.try(q, seeds); ok {
				best, changed = q, true
			}
		}
		for t := len(best.Threads) - 1; t >= 0 && !m.out(); t-- {
			for n := len(best.Threads[t]) / 2; n >= 1 && !m.out(); n /= 2 {
				for at := len(best.Threads[t]) - n; at >= 0 && !m.out(); at -= n {
					if at+n > len(best.Threads[t]) {
						continue
					}
					q := clonePlan(best)
					q.Threads[t] = append(q.Threads[t][:at:at], q.Threads[t][at+n:]...)
					if q, ok := m.try(q, seeds); ok {
						best, changed = q, true
					}
				}
			}
		}
		for t := len(best.Threads) - 1; t >= 0; t-- { // threads without operations
			if len(best.Threads[t]) == 0 && len(best.Threads) > 1 {
				q := clonePlan(best)
				q.Threads = append(q.Threads[:t], q.Threads[t+1:]...)
				if q, ok := m.try(q, 2); ok {
					best = q
				}
			}
		}
	}
	// 2. faults and knobs
	knobs := []func(q *plan.Plan) bool{
		func(q *plan.Plan) bool { ch := q.GCs > 0; q.GCs = 0; return ch },
		func(q *plan.Plan) bool {
			ch := q.PoolMissP+q.PoolDropP+q.PoolOldP > 0
			q.PoolMissP, q.PoolDropP, q.PoolOldP = 0, 0, 0
			return ch
		},
		func(q *plan.Plan) bool { ch := q.PoolDropP > 0; q.PoolDropP = 0; return ch },
		func(q *plan.Plan) bool { ch := q.PoolOldP > 0; q.PoolOldP = 0; return ch },
		func(q *plan.Plan) bool { ch := q.PoolMissP > 0; q.PoolMissP = 0; return ch },
		func(q *plan.Plan) bool {
			ch := q.Poison != simrt.PoisonZero && q.Poison != 0
			q.Poison = simrt.PoisonZero
			return ch
		},
		func(q *plan.Plan) bool {
			ch := q.PreemptMean+int64(q.PCT) > 0
			q.PreemptMean, q.PCT = 0, 0
			return ch
		},
		func(q *plan.Plan) bool { ch := q.FaultP > 0; q.FaultP = 0; return ch },
		func(q *plan.Plan) bool {
			if q.World != "codec" || q.P["budget"] == 3 {
				return false
			}
			q.P["budget"] = 3
			return true
		},
	}
	var keys []string
	for k := range best.P {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		k := k
		if k == "budget" || strings.HasSuffix(k, "_ms") || best.P[k] == 0 {
			continue
		}
		knobs = append(knobs, func(q *plan.Plan) bool { q.P[k] = 0; return true })
	}
	for _, f := range knobs {
		if m.out() {
			break
		}
		q := clonePlan(best)
		if f(q) {
			if q, ok := m.try(q, 3); ok {
				best = q
			}
		}
	}
	// 3. the schedule itself: explicit choices, as few as possible
	rep, ok := m.fails(best)
	if !ok {
		return best, nil
	}
	if !best.Replay && !rep.Res.Truncated && rep.Res.Steps > 0 {
		q := clonePlan(best)
		q.Replay, q.Choices = true, rep.Res.Choices
		if _, ok := m.fails(q); ok {
			best = q
			best.Choices = m.ddmin(best)
		}
	}
	best.Trace = true
	rep, ok = m.fails(best)
	if !ok {
		best.Trace = false
		rep, _ = m.fails(best)
	}
	return best, rep
}

func (m *minimiser) ddmin(p *plan.Plan) []simrt.Choice {
	cur := p.Choices
	test := func(c []simrt.Choice) bool {
		q := clonePlan(p)
		q.Choices = c
		_, ok := m.fails(q)
		return ok
	}
	if len(cur) > 0 && test(nil) {
		return nil
	}
	n := 2
	for len(cur) >= 2 && !m.out() {
		sz := (len(cur) + n - 1) / n
		reduced := false
		for i := 0; i < len(cur) && !m.out(); i += sz {
			j := min(i+sz, len(cur))
			var c []simrt.Choice
			c = append(append(c, cur[:i]...), cur[j:]...)
			if test(c) {
				cur = c
				n = max(n-1, 2)
				reduced = true
				break
			}
		}
		if !reduced {
			if n >= len(cur) {
				break
			}
			n = min(n*2, len(cur))
		}
	}
	return cur
}

// traceText renders the decisions of a run.
func traceText(rep *plan.Report, sites map[uint32]string) []string {
	var out []string
	for _, e := range rep.Res.Trace {
		switch e.K {
		case "preempt":
			out = append(out, fmt.Sprintf("step %d: thread %d stopped before %s; thread %d runs", e.Step, e.Thread, sites[e.Site], e.V))
		case "gc":
			out = append(out, fmt.Sprintf("step %d: garbage collection while thread %d is before %s", e.Step, e.Thread, sites[e.Site]))
		case "block":
			out = append(out, fmt.Sprintf("decision %d: thread %d runs when thread %d blocks or ends", e.Step, e.V-1, e.Thread))
		case "pool":
			out = append(out, fmt.Sprintf("pool operation %d (thread %d): %s", e.Step, e.Thread, []string{"", "miss", "oldest item", "item dropped"}[min(int(e.V), 3)]))
		default:
			out = append(out, fmt.Sprintf("%s decision %d (thread %d): %d", e.K, e.Step, e.Thread, e.V))
		}
		if len(out) > 300 {
			break
		}
	}
	return out
}
