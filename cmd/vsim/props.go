package main

import (
	"verif/plan"
	"verif/sim/simrt"
)

// part is a search campaign of a check.
type part struct {
	kind  string // worker
	race  bool
	prof  string // plan profile
	quick int    // runs in the quick tier
	deep  int    // runs per round of the thorough tier
	batch int    // runs per process
}

type propSpec struct {
	id     string
	parts  []part
	rule   string
	faults []string // what the simulator injects, by statistics key
	// owns reports whether a violation (minimised) is a breach of this property.
	owns func(c *check, f *found, min *plan.Plan) bool
	real []string
	stub []string
	note []string
}

func classIn(c string, l ...string) bool {
	for _, x := range l {
		if c == x {
			return true
		}
	}
	return false
}

func isStuck(c string) bool { return classIn(c, "deadlock", "livelock", "hang") }

func hasOp(p *plan.Plan, kinds ...string) bool {
	for _, t := range p.Threads {
		for _, o := range t {
			if classIn(o.K, kinds...) {
				return true
			}
		}
	}
	return false
}

// history reports whether the failure needs more than one operation on its
// own: other operations before or beside it, or scheduling and fault choices.
func history(p *plan.Plan) bool { return p.Ops() > 1 || len(p.Choices) > 0 }

var codecReal = []string{"prutal (Marshal, MarshalAppend, Size, Unmarshal)", "prutal/internal/{desc,encoder,decoder,hack,wire,protowire}", "prutal/pkg/grpccodec", "Go runtime: memory allocator, garbage collector, maps, reflect"}
var codecStub = []string{"goroutine scheduler (one simulated thread runs at a time, switched at statements)", "sync.Mutex/RWMutex/Map/Pool/Once/Cond/WaitGroup (simulated, same contracts)", "runtime.mallocgc without zeroing returns arbitrary bytes", "map seeds and iteration starts come from the plan", "protobuf peers (reference model pm)"}

const codecRule = "one evaluation is one simulated run: a plan (threads, operations, types, values, fault knobs) and a schedule drawn from one seed, executed by the instrumented repository code. Runs are distinct if plan and hash of the sequence of (thread, statement) switch points differ; non-trivial if at least one library call was checked against the oracle"

const clusterRule = "one evaluation is one simulated deployment: nodes with schema versions, a message load, a network and crash/upgrade schedule, all drawn from one seed and executed with the instrumented repository code encoding and decoding at every node (a fifth of the runs are single-process histories of decoding into reused objects). Distinct as for the codec world; non-trivial if at least one message was checked at a node"

const svcRule = "one evaluation is one simulated deployment of services whose message types were generated by the tree's prutalgen from seeded schema projects (several files, packages, syntaxes and options; rolling upgrades between derived versions), or a single-process history of encoding, decoding and accessor calls on those types; distinct and non-trivial as for the cluster and codec worlds. The generated code's types, struct tags and constants are compared with the schema before the first run. In the second part (gen/C12) one evaluation is one simulated history of undisturbed prutalgen runs on projects of that kind, all drawn from one seed; the texts are compared with the schema and type-checked as Go packages. It is non-trivial if at least one output was judged"

const genRule = "one evaluation is one simulated history of prutalgen runs on schema projects drawn from one seed: processes (the command's own main function) and library users on a simulated file system, with the faults the rule of the property names. Distinct if the plan or the sequence of context switches differs; non-trivial if at least one run's outcome or output was judged"

var genReal = []string{"prutalgen command (main), prutalgen/pkg/prutalgen, pkg/utils, internal/{antlr,parser,protoreflect}", "Go standard library: os, io, path/filepath, flag, log, go/format"}
var genStub = []string{"operating system below package syscall: file system (in memory, with durable state and a log of unsynced operations), process identity, clock, exit", "goroutine scheduler and package sync in prutalgen's packages", "random numbers and map iteration starts (seeded)", "compiler and caller of the generated code (C12 has them); here the text is compared with a reference run and its declarations with the schema"}

func specs() []*propSpec {
	codec := func(prof string, plain, race int) []part {
		ps := []part{{kind: "codec", prof: prof, quick: plain, deep: plain * 2, batch: 64}}
		if race > 0 {
			ps = append(ps, part{kind: "codec", race: true, prof: prof, quick: race, deep: race * 2, batch: 32})
		}
		return ps
	}
	return []*propSpec{
		{id: "C01", parts: codec("C01", 36000, 9000), rule: codecRule, real: codecReal, stub: codecStub,
			owns: func(c *check, f *found, p *plan.Plan) bool {
				if f.Viol.Class == "race" || isStuck(f.Viol.Class) && len(p.Threads) > 1 {
					return true
				}
				return history(p)
			}},
		{id: "C02", parts: codec("C02", 48000, 10000), rule: codecRule, real: codecReal, stub: codecStub,
			owns: func(c *check, f *found, p *plan.Plan) bool {
				if classIn(f.Viol.Class, "accept", "reject", "panic", "crash", "race") || isStuck(f.Viol.Class) {
					return hasOp(p, "use", "badarg") || history(p)
				}
				return history(p)
			}},
		{id: "C03", parts: codec("C03", 54000, 10000), rule: codecRule, real: codecReal, stub: codecStub,
			owns: func(c *check, f *found, p *plan.Plan) bool {
				return classIn(f.Viol.Class, "msg-mutated", "prefix", "size", "ret-changed", "race", "enc-nondet", "enc-value", "enc-err") ||
					classIn(f.Viol.Class, "panic", "crash", "live-changed") && history(p)
			}},
		{id: "C04", parts: codec("C04", 54000, 10000), rule: codecRule, real: codecReal, stub: codecStub,
			owns: func(c *check, f *found, p *plan.Plan) bool {
				return classIn(f.Viol.Class, "live-changed", "input-mutated", "race", "ret-changed", "msg-mutated") ||
					classIn(f.Viol.Class, "dec-value", "crash", "panic", "enc-value") && history(p)
			}},
		{id: "C05", parts: codec("C05", 48000, 0), rule: codecRule, real: codecReal, stub: codecStub,
			owns: func(c *check, f *found, p *plan.Plan) bool {
				if classIn(f.Viol.Class, "residue", "nondet", "gc-invisible") {
					return true
				}
				// the same run with pools that never recycle, zeroed memory and no
				// collection: if that is fine, the environment made the difference
				q := clonePlan(p)
				q.GCs, q.PoolMissP, q.Poison = 0, 2, simrt.PoisonZero
				var ch []simrt.Choice
				for _, x := range q.Choices {
					if x.K == simrt.KPreempt || x.K == simrt.KBlock {
						ch = append(ch, x)
					}
				}
				q.Choices = ch
				return !c.stillFails(f, q)
			}},
		{id: "C06", parts: codec("C06", 72000, 0), rule: codecRule, real: codecReal, stub: codecStub,
			owns: func(c *check, f *found, p *plan.Plan) bool {
				return hasOp(p, "bad", "deep", "cyclic", "badarg") || classIn(f.Viol.Class, "hang", "memory", "crash")
			}},
		{id: "C07", parts: codec("C07", 90000, 0), rule: codecRule, real: codecReal, stub: codecStub,
			owns: func(c *check, f *found, p *plan.Plan) bool {
				return !classIn(f.Viol.Class, "race", "size", "prefix", "msg-mutated", "ret-changed", "unk-carry")
			}},
		{id: "C08", parts: codec("C08", 42000, 7000), rule: clusterRule, real: codecReal, stub: append([]string{"network, clocks, node crashes and restarts, journals (simulated)"}, codecStub...),
			owns: func(c *check, f *found, p *plan.Plan) bool {
				return p.World == "cluster" || !classIn(f.Viol.Class, "race")
			}},
		{id: "C09", parts: []part{{kind: "gen", prof: "C09", quick: 4800, deep: 8000, batch: 24}}, rule: genRule, real: genReal, stub: genStub,
			owns: func(c *check, f *found, p *plan.Plan) bool {
				return classIn(f.Viol.Class, "false-success", "gen-wrong", "gen-missing", "descr-wrong", "bad-input-accepted") || isStuck(f.Viol.Class)
			}},
		{id: "C10", parts: []part{{kind: "gen", prof: "C10", quick: 6000, deep: 10000, batch: 24}}, rule: genRule, real: genReal, stub: genStub,
			owns: func(c *check, f *found, p *plan.Plan) bool { return true }},
		{id: "C11", parts: []part{{kind: "gen", prof: "C11", quick: 2400, deep: 4000, batch: 16}, {kind: "gen", race: true, prof: "C11", quick: 640, deep: 1200, batch: 16}}, rule: genRule, real: genReal, stub: genStub,
			owns: func(c *check, f *found, p *plan.Plan) bool { return true }},
		{id: "C12", parts: []part{{kind: "svc", prof: "C12", quick: 90000, deep: 120000, batch: 64}, {kind: "gen", prof: "C12", quick: 9000, deep: 30000, batch: 24}}, rule: svcRule,
			real: append([]string{"prutalgen (part svc: built and run as users do, on schema projects drawn from the seed; part gen: the command and the library in simulated processes)", "the code it generates, compiled into the simulation"}, codecReal...),
			stub: append([]string{"network, clocks, node crashes and restarts, journals (simulated)", "part gen: operating system below package syscall; Go compiler (go/types instead, packages from elsewhere unknown)"}, codecStub...),
			owns: func(c *check, f *found, p *plan.Plan) bool {
				return !classIn(f.Viol.Class, "race", "size", "prefix", "msg-mutated", "ret-changed")
			}},
	}
}

func spec(id string) *propSpec {
	for _, s := range specs() {
		if s.id == id {
			return s
		}
	}
	return nil
}
