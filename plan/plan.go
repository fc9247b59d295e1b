// Package plan defines what a simulated run is made from and what it reports.
package plan

import (
	"encoding/json"
	"fmt"
	"hash/fnv"

	"verif/pm"
	"verif/sim/simrt"
)

// Op is one operation of a simulated thread.
type Op struct {
	K string `json:"k"`
	T int    `json:"t,omitempty"` // type
	S uint64 `json:"s,omitempty"` // seed of everything random in the operation
	X int    `json:"x,omitempty"`
	Y int    `json:"y,omitempty"`
}

// Plan is one simulated run: a pure function of it and the code under test.
type Plan struct {
	Prop    string         `json:"prop"`
	World   string         `json:"world"`
	Seed    uint64         `json:"seed"`
	Sched   uint64         `json:"sched,omitempty"` // seed of the schedule, if not Seed
	Trace   bool           `json:"trace,omitempty"`
	Threads [][]Op         `json:"threads"`
	MapSeed uint64         `json:"map_seed"` // runtime map seeds and iteration starts
	P       map[string]int `json:"p,omitempty"`

	// scheduler and fault knobs (random mode), or explicit choices
	MaxSteps    int64          `json:"max_steps"`
	PreemptMean int64          `json:"preempt_mean,omitempty"`
	PCT         int            `json:"pct,omitempty"`
	PCTLen      int64          `json:"pct_len,omitempty"`
	GCs         int            `json:"gcs,omitempty"`
	PoolMissP   float64        `json:"pool_miss,omitempty"`
	PoolDropP   float64        `json:"pool_drop,omitempty"`
	PoolOldP    float64        `json:"pool_old,omitempty"`
	Poison      uint64         `json:"poison,omitempty"`
	Replay      bool           `json:"replay,omitempty"`
	Choices     []simrt.Choice `json:"choices,omitempty"`
	FaultP      float64        `json:"fault_p,omitempty"`
}

func (p *Plan) Config() simrt.Config {
	seed := p.Seed
	if p.Sched != 0 {
		seed = p.Sched
	}
	return simrt.Config{Seed: seed, Trace: p.Trace, Replay: p.Replay, Choices: p.Choices, MaxSteps: p.MaxSteps, PreemptMean: p.PreemptMean,
		PCT: p.PCT, PCTLen: p.PCTLen, GCs: p.GCs, PoolMissP: p.PoolMissP, PoolDropP: p.PoolDropP, PoolOldP: p.PoolOldP, Poison: p.Poison}
}

func (p *Plan) Ops() int {
	n := 0
	for _, t := range p.Threads {
		n += len(t)
	}
	return n
}

// Hash identifies a plan (without its schedule).
func (p *Plan) Hash() uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s %v %v %d", p.World, p.Threads, p.P, p.MapSeed)
	return h.Sum64()
}

// Violation is one observed breach.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
	Thread int    `json:"thread"`
	Op     int    `json:"op"`
}

// Report is what one run returns.
type Report struct {
	Viol  []Violation
	Res   simrt.Result
	Races int
	Stats map[string]int64
	SimNS int64
}

// Knobs draws the scheduler and fault configuration of a run, swarm style.
func (p *Plan) Knobs(r *pm.Rng, estSteps int64) {
	p.MaxSteps = 400_000_000
	p.MapSeed = r.U64() | 1
	if estSteps < 200 {
		estSteps = 200
	}
	p.PCTLen = estSteps
	switch r.Pick(2, 3, 3, 2, 3, 1) {
	case 0:
		p.PreemptMean = 3
	case 1:
		p.PreemptMean = 12
	case 2:
		p.PreemptMean = 60
	case 3:
		p.PreemptMean = 400
	case 4:
		p.PCT = 1 + r.N(4)
	}
	if len(p.Threads) == 1 {
		p.PreemptMean, p.PCT = 0, 0
	}
	if r.P(0.5) {
		p.PoolMissP = []float64{0.05, 0.3, 0.9, 1}[r.N(4)]
	}
	if r.P(0.3) {
		p.PoolDropP = []float64{0.05, 0.3, 0.9}[r.N(3)]
	}
	if r.P(0.4) {
		p.PoolOldP = []float64{0.2, 0.8}[r.N(2)]
	}
	if r.P(0.85) {
		p.Poison = r.U64()>>1 | 1
	}
}

// Batch is the summary of a batch.
type Batch struct {
	Runs     int
	Ops      int64
	Steps    int64
	Switches int64
	SimNS    int64
	Stats    map[string]int64
	Choices  map[string]int64
	Hashes   []uint64 // schedule hashes of interleaved runs
	GCs      int64
	Pool     [4]int64
	Mallocs  int64
	LockWait int64
	MaxSteps int64
	WallNS   int64
	Twins    int
	Samples  []json.RawMessage
	Sites    []uint32 // statements executed
}

// Add accumulates another batch, except for hashes and samples.
func (b *Batch) Add(o *Batch) {
	b.Runs += o.Runs
	b.Ops += o.Ops
	b.Steps += o.Steps
	b.Switches += o.Switches
	b.SimNS += o.SimNS
	b.GCs += o.GCs
	for i := range b.Pool {
		b.Pool[i] += o.Pool[i]
	}
	b.Mallocs += o.Mallocs
	b.LockWait += o.LockWait
	b.MaxSteps = max(b.MaxSteps, o.MaxSteps)
	b.WallNS += o.WallNS
	b.Twins += o.Twins
	for k, v := range o.Stats {
		b.Stats[k] += v
	}
	for k, v := range o.Choices {
		b.Choices[k] += v
	}
}
