package main

import (
	"encoding/json"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/plan"
)

func r3(x float64) float64 { return math.Round(x*1000) / 1000 }

func (c *check) evidence(viol int) error {
	tot := &plan.Batch{Stats: map[string]int64{}, Choices: map[string]int64{}}
	parts := map[string]any{}
	for n, b := range c.stats {
		tot.Add(b)
		parts[n] = map[string]any{"runs": b.Runs, "operations": b.Ops, "steps": b.Steps, "simulated_seconds": r3(float64(b.SimNS) / 1e9), "cpu_seconds": r3(float64(b.WallNS) / 1e9)}
	}
	faults := map[string]int64{
		"preemptions":              tot.Choices["preempt"],
		"forced_collections":       tot.GCs,
		"pool_misses":              tot.Pool[2],
		"pool_drops":               tot.Pool[3],
		"non_lifo_or_missed_gets":  tot.Choices["pool"],
		"environment_faults":       tot.Choices["fault"],
		"harness_choices":          tot.Choices["user"],
		"unzeroed_allocs_poisoned": tot.Mallocs,
	}
	act := map[string]int64{}
	var keys []string
	for k := range tot.Stats {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if len(k) > 6 && k[:6] == "fault_" {
			faults[k[6:]] = tot.Stats[k]
		} else {
			act[k] = tot.Stats[k]
		}
	}
	perHour := 0.0
	if c.wallRun > 0 {
		perHour = float64(tot.Runs) / c.wallRun * 3600
	}
	cov := map[string]any{
		"evaluations":             tot.Runs,
		"distinct_nontrivial":     len(c.hashes),
		"rule":                    c.spec.rule,
		"samples":                 c.samples,
		"runs_per_hour":           math.Round(perHour),
		"seeds_per_hour":          math.Round(perHour),
		"simulated_seconds":       r3(float64(tot.SimNS) / 1e9),
		"statements_executed":     tot.Steps,
		"context_switches":        tot.Switches,
		"lock_waits":              tot.LockWait,
		"longest_run_statements":  tot.MaxSteps,
		"faults_injected":         faults,
		"activity":                act,
		"parts":                   parts,
		"rounds":                  c.rounds,
		"type_catalogues_built":   c.builds,
		"distinctness_measure":    "64-bit hash of plan and of the sequence of (from thread, to thread, statement) at context switches",
		"determinism_twins":       tot.Twins,
		"determinism_mismatches":  len(c.nondet),
		"components_real":         c.spec.real,
		"components_stub":         c.spec.stub,
		"off_property_violations": c.offText,
		"cut_by_wall_clock":       c.cut,
		"minimisation_runs":       c.minRuns,
	}
	type pkgCov struct {
		Lines    int `json:"lines"`
		Executed int `json:"executed"`
	}
	lines := map[string]*pkgCov{}
	var not []string
	for l, hit := range c.reached {
		d, _ := filepath.Rel(c.repo, filepath.Dir(l))
		if lines[d] == nil {
			lines[d] = &pkgCov{}
		}
		lines[d].Lines++
		if hit {
			lines[d].Executed++
		} else {
			not = append(not, l)
		}
	}
	cov["code_lines_executed_in_simulated_runs"] = lines
	sort.Strings(not)
	os.WriteFile(filepath.Join(c.dir, "not-executed.txt"), []byte(strings.Join(not, "\n")+"\n"), 0o644)
	if c.samples == nil {
		cov["samples"] = []any{}
	}
	if len(c.nondet) > 0 {
		cov["determinism_first_mismatch"] = c.nondet[0]
	}
	e := map[string]any{
		"property": c.spec.id, "tier": c.tier, "seed": c.seed, "level": "exploration",
		"coverage": cov, "wall_s": r3(time.Since(c.t0).Seconds()), "violations": viol,
		"assumptions": append([]string{
			"threads are switched at statements and synchronisation operations, under sequential consistency; torn or reordered memory accesses are left to the race detector runs",
			"the collector runs to completion at the chosen point; write barriers of a concurrent collection are not simulated",
		}, c.spec.note...),
	}
	js, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	return os.WriteFile(filepath.Join(c.verif, "evidence", c.spec.id+".json"), js, 0o644)
}
