package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/plan"
	"verif/sim/simrt"
)

// check is one execution of one property's check.
type check struct {
	spec    *propSpec
	tier    string
	seed    uint64
	verif   string
	repo    string
	dir     string
	t0      time.Time
	wall    time.Duration   // search stops after this
	reached map[string]bool // lines of code: executed in a simulated run?

	mu      sync.Mutex
	stats   map[string]*plan.Batch // per part
	hashes  map[uint64]struct{}
	off     map[string]int // off-property violations by signature
	offText []string
	nondet  []string
	samples []any
	cut     bool
	servers map[*workerBin]*server
	rounds  int
	hit     *found
	minRuns int
	replay  string
	wallRun float64
	builds  int
}

func partName(p part) string {
	n := p.kind + "/" + p.prof
	if p.race {
		n += "/race"
	}
	return n
}

// lock makes concurrent checks with the same build directory take turns.
func lock(path string) (*os.File, error) {
	os.MkdirAll(filepath.Dir(path), 0o755)
	f, err := os.OpenFile(path, os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		return nil, err
	}
	return f, syscall.Flock(int(f.Fd()), syscall.LOCK_EX)
}

func (c *check) build(kind string, race bool, seed uint64, extra int) (*workerBin, error) {
	b, err := newBuilder(c.verif, c.repo, c.dir)
	if err != nil {
		return nil, err
	}
	c.builds++
	w, err := b.worker(kind, race, seed, extra)
	if err == nil {
		w.sites = map[uint32]string{}
		for _, s := range b.in.sites {
			w.sites[uint32(s.ID)] = fmt.Sprintf("%s:%d", s.File, s.Line)
			if _, ok := c.reached[w.sites[uint32(s.ID)]]; !ok {
				c.reached[w.sites[uint32(s.ID)]] = false
			}
		}
	}
	return w, err
}

func (c *check) stillFails(f *found, p *plan.Plan) bool {
	m := &minimiser{s: c.server(f.W), class: f.Viol.Class}
	_, bad := m.fails(p)
	return bad
}

func (c *check) server(w *workerBin) *server {
	if c.servers[w] == nil {
		c.servers[w] = &server{w: w}
	}
	return c.servers[w]
}

type job struct {
	w       *workerBin
	p       part
	base    uint64
	from, n int
}

func strHash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// errHarness is a failure of the machinery itself: no verdict.
type errHarness struct{ error }

func (c *check) run() (err error) {
	c.t0 = time.Now()
	c.stats = map[string]*plan.Batch{}
	c.hashes = map[uint64]struct{}{}
	c.off = map[string]int{}
	c.servers = map[*workerBin]*server{}
	c.reached = map[string]bool{}
	defer func() {
		for _, s := range c.servers {
			s.close()
		}
	}()
	for round := 0; ; round++ {
		catSeed, extra := c.seed, 0
		if c.tier == "thorough" {
			catSeed, extra = c.seed+uint64(round)*1000003, 3
		}
		if round > 0 && (c.tier == "quick" || time.Since(c.t0) > c.wall*85/100) {
			return nil
		}
		var jobs []job
		for pi, p := range c.spec.parts {
			w, err := c.build(p.kind, p.race, catSeed, extra)
			var bv *errBuildViol
			if errors.As(err, &bv) {
				c.buildViolation(bv, p.kind, catSeed, extra)
				return nil
			}
			if err != nil {
				return errHarness{err}
			}
			n := p.quick
			if c.tier == "thorough" {
				n = p.deep
			}
			base := simrt.Mix(simrt.Mix(c.seed, strHash(partName(p))), uint64(round)*16+uint64(pi))
			for from := 0; from < n; from += p.batch {
				jobs = append(jobs, job{w, p, base, from, min(p.batch, n-from)})
			}
		}
		// interleave the parts, so that a time limit cuts all of them alike
		sort.SliceStable(jobs, func(i, j int) bool {
			return float64(jobs[i].from)/float64(jobs[i].p.quick) < float64(jobs[j].from)/float64(jobs[j].p.quick)
		})
		tr := time.Now()
		err := c.search(jobs)
		c.wallRun += time.Since(tr).Seconds()
		c.rounds++
		if err != nil || c.hit != nil || c.cut {
			return err
		}
	}
}

func (c *check) search(jobs []job) error {
	var next int64 = -1
	cancel := make(chan struct{})
	var once sync.Once
	stop := func() { once.Do(func() { close(cancel) }) }
	viols := make(chan *foundJob, 4096)
	var wg sync.WaitGroup
	var herr atomic.Value
	twin := 97
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				k := atomic.AddInt64(&next, 1)
				if k >= int64(len(jobs)) {
					return
				}
				j := jobs[k]
				for j.n > 0 {
					select {
					case <-cancel:
						return
					default:
					}
					if time.Since(c.t0) > c.wall {
						c.mu.Lock()
						c.cut = true
						c.mu.Unlock()
						return
					}
					o := runBatch(j.w, j.p.prof, j.base, j.from, j.n, twin, cancel)
					select {
					case <-cancel:
						return
					default:
					}
					if o.harness != "" {
						herr.Store(o.harness)
						stop()
						return
					}
					c.mu.Lock()
					if o.nondet != "" && len(c.nondet) < 20 {
						c.nondet = append(c.nondet, o.nondet)
					}
					if o.stats != nil {
						c.merge(partName(j.p), o.stats)
						for _, s := range o.stats.Sites {
							if l := j.w.sites[s]; l != "" {
								c.reached[l] = true
							}
						}
					}
					c.mu.Unlock()
					if o.viol == nil {
						break
					}
					select {
					case viols <- &foundJob{o.viol, j}:
					default:
					}
					j.n -= o.viol.I + 1 - j.from
					j.from = o.viol.I + 1
				}
			}
		}()
	}
	go func() { wg.Wait(); close(viols) }()
	n := 0
	for fj := range viols {
		if c.hit != nil {
			continue
		}
		n++
		if c.judge(fj.f) {
			c.hit = fj.f
			stop()
		} else if n > 150 {
			c.mu.Lock()
			c.offText = append(c.offText, "search ended early: too many violations of other properties")
			c.cut = true
			c.mu.Unlock()
			stop()
		}
	}
	if e, _ := herr.Load().(string); e != "" && c.hit == nil {
		return errHarness{fmt.Errorf("%s", e)}
	}
	return nil
}

type foundJob struct {
	f *found
	j job
}

func (c *check) merge(name string, b *plan.Batch) {
	t := c.stats[name]
	if t == nil {
		t = &plan.Batch{Stats: map[string]int64{}, Choices: map[string]int64{}}
		c.stats[name] = t
	}
	t.Add(b)
	for _, h := range b.Hashes {
		c.hashes[h] = struct{}{}
	}
	for _, s := range b.Samples {
		if len(c.samples) < 4 {
			c.samples = append(c.samples, s)
		}
	}
}

// judge minimises a violation and decides whether it is this property's.
func (c *check) judge(f *found) bool {
	sig := group(f.Viol.Class) + " " + firstWords(f.Viol.Detail)
	if c.off[sig] >= 3 {
		c.off[sig]++
		return false
	}
	budget := 40 * time.Second
	if c.tier == "thorough" {
		budget = 90 * time.Second
	}
	m := &minimiser{s: c.server(f.W), class: f.Viol.Class, until: time.Now().Add(budget)}
	best, rep := m.minimise(f.Plan)
	c.minRuns += m.runs
	rf := &replayFile{Property: c.spec.id, Kind: f.W.Kind, Race: f.W.Race, CatSeed: f.W.Seed, CatExtra: f.W.Xtra,
		Profile: f.Prof, Base: f.Base, From: f.From, Run: f.I, Original: f.Plan}
	if best == nil || rep == nil || len(rep.Viol) == 0 {
		// it needs the runs before it in the same process
		best = f.Plan
		rf.Mode = "batch"
		rf.Violation = f.Viol
		rf.Stderr = firstLines(f.Err, 60)
	} else {
		// confirm in a fresh process
		fresh := &server{w: f.W}
		r2, se, err := fresh.run(best, 60*time.Second)
		fresh.close()
		if err == nil && len(r2.Viol) > 0 {
			rep = r2
			rf.Mode = "plan"
			rf.Stderr = firstLines(se, 60)
		} else {
			rf.Mode = "batch"
			best = f.Plan
		}
		rf.Violation = rep.Viol[0]
		for _, v := range rep.Viol {
			if group(v.Class) == group(f.Viol.Class) {
				rf.Violation = v
				break
			}
		}
		rf.Trace = traceText(rep, f.W.sites)
	}
	rf.Plan = best
	f.Viol = rf.Violation
	if !c.spec.owns(c, f, best) {
		c.off[sig]++
		if len(c.offText) < 10 {
			c.offText = append(c.offText, fmt.Sprintf("class=%s %s [plan %s]", f.Viol.Class, firstLines(f.Viol.Detail, 3), planText(best)))
		}
		return false
	}
	c.writeReplay(rf)
	f.Plan = best
	f.Trace = rf.Trace
	f.Err = rf.Stderr
	return true
}

// buildViolation records a violation found while building a worker.
func (c *check) buildViolation(bv *errBuildViol, kind string, seed uint64, extra int) {
	rf := &replayFile{Property: c.spec.id, Mode: "build", Kind: kind, CatSeed: seed, CatExtra: extra,
		Violation: bv.viol, Project: bv.proj, Drop: bv.drop}
	c.writeReplay(rf)
	c.hit = &found{Viol: bv.viol, Plan: &plan.Plan{}}
}

func (c *check) writeReplay(rf *replayFile) {
	js, _ := json.MarshalIndent(rf, "", " ")
	h := strHash(string(js))
	c.replay = filepath.Join(c.verif, "build", "replays", fmt.Sprintf("%s-%08x.json", c.spec.id, uint32(h)))
	os.MkdirAll(filepath.Dir(c.replay), 0o755)
	os.WriteFile(c.replay, js, 0o644)
}

func firstWords(s string) string {
	f := strings.Fields(s)
	var out []string
	for _, w := range f {
		if strings.ContainsAny(w, "0123456789(") {
			continue
		}
		out = append(out, w)
		if len(out) > 7 {
			break
		}
	}
	return strings.Join(out, " ")
}

func planText(p *plan.Plan) string {
	var b strings.Builder
	for i, t := range p.Threads {
		if i > 0 {
			b.WriteString(" | ")
		}
		for j, o := range t {
			if j > 0 {
				b.WriteString(",")
			}
			fmt.Fprintf(&b, "%s(t%d)", o.K, o.T)
		}
	}
	fmt.Fprintf(&b, "; %d choices", len(p.Choices))
	if b.Len() > 600 {
		return b.String()[:600] + "..."
	}
	return b.String()
}

// replayFile is what a violation leaves behind.
type replayFile struct {
	Property  string         `json:"property"`
	Mode      string         `json:"mode"` // plan: one run; batch: the whole batch in one process
	Kind      string         `json:"worker"`
	Race      bool           `json:"race"`
	CatSeed   uint64         `json:"catalog_seed"`
	CatExtra  int            `json:"catalog_extra"`
	Profile   string         `json:"profile"`
	Base      uint64         `json:"base_seed"`
	From      int            `json:"batch_from"`
	Run       int            `json:"run"`
	Violation plan.Violation `json:"violation"`
	Plan      *plan.Plan     `json:"plan"`
	Trace     []string       `json:"trace"`
	Stderr    string         `json:"stderr,omitempty"`
	Original  *plan.Plan     `json:"original_plan"`
	Project   string         `json:"project,omitempty"` // mode build
	Drop      []string       `json:"dropped_fields,omitempty"`
}

func (c *check) runReplay(rf *replayFile) (plan.Violation, bool, error) {
	c.servers = map[*workerBin]*server{}
	c.reached = map[string]bool{}
	if rf.Mode == "build" {
		b, err := newBuilder(c.verif, c.repo, c.dir)
		if err != nil {
			return plan.Violation{}, false, err
		}
		return b.replayBuild(rf)
	}
	w, err := c.build(rf.Kind, rf.Race, rf.CatSeed, rf.CatExtra)
	if err != nil {
		return plan.Violation{}, false, err
	}
	if rf.Mode == "batch" {
		o := runBatch(w, rf.Profile, rf.Base, rf.From, rf.Run-rf.From+1, 0, nil)
		if o.harness != "" {
			return plan.Violation{}, false, fmt.Errorf("%s", o.harness)
		}
		if o.viol == nil {
			return plan.Violation{}, false, nil
		}
		return o.viol.Viol, true, nil
	}
	s := &server{w: w}
	defer s.close()
	rep, se, err := s.run(rf.Plan, hangSec*time.Second)
	if err != nil {
		return plan.Violation{}, false, err
	}
	if len(rep.Viol) == 0 {
		return plan.Violation{}, false, nil
	}
	for _, l := range traceText(rep, w.sites) {
		fmt.Println("  " + l)
	}
	if se != "" {
		fmt.Println(firstLines(se, 40))
	}
	v := rep.Viol[0]
	for _, x := range rep.Viol {
		if x.Class == rf.Violation.Class {
			v = x
		}
	}
	return v, true, nil
}
