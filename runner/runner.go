// Package runner is the main loop of the worker processes, which run simulated
// executions; cmd/vsim builds them against the instrumented repository and
// drives them.
package runner

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"time"

	"verif/plan"
	"verif/sim/simrt"
)

var (
	fProp  = flag.String("profile", "", "property profile")
	fSeed  = flag.Uint64("seed", 1, "base seed")
	fFrom  = flag.Int("from", 0, "first run")
	fN     = flag.Int("n", 64, "number of runs")
	fPlan  = flag.String("plan", "", "replay a plan file")
	fServe = flag.Bool("serve", false, "run plans from stdin, one per line")
	fDump  = flag.Bool("dump", false, "print the plan of run -from")
	fProf  = flag.String("cpuprofile", "", "write a CPU profile")
	fTwin  = flag.Int("twin", 0, "run every n-th plan twice and compare: the determinism self-check")
)

func out(tag string, v any) {
	js, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	fmt.Printf("%s %s\n", tag, js)
}

// World makes and runs plans.
type World interface {
	MakePlan(prop string, seed uint64) *plan.Plan
	Run(p *plan.Plan) *plan.Report
}

// Main is the main function of a worker.
func Main(newWorld func() World) {
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMaxStack(256 << 20)
	w := newWorld()
	if *fPlan != "" || *fServe {
		var in io.Reader = os.Stdin
		if *fPlan != "" {
			f, err := os.Open(*fPlan)
			if err != nil {
				panic(err)
			}
			in = f
		}
		dec := json.NewDecoder(bufio.NewReader(in))
		for {
			var p plan.Plan
			if err := dec.Decode(&p); err == io.EOF {
				return
			} else if err != nil {
				panic(err)
			}
			fmt.Println("S 0")
			out("P", w.Run(&p))
			runtime.GC()
		}
	}
	if *fDump {
		out("D", w.MakePlan(*fProp, simrt.Mix(*fSeed, uint64(*fFrom))))
		return
	}
	if *fProf != "" {
		f, _ := os.Create(*fProf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	b := plan.Batch{Stats: map[string]int64{}, Choices: map[string]int64{}}
	t0 := time.Now()
	simrt.Reached()
	for i := *fFrom; i < *fFrom+*fN; i++ {
		fmt.Printf("S %d\n", i)
		p := w.MakePlan(*fProp, simrt.Mix(*fSeed, uint64(i)))
		rep := w.Run(p)
		if len(rep.Viol) > 0 {
			out("V", map[string]any{"i": i, "plan": p, "report": rep})
			break
		}
		if *fTwin > 0 && i%*fTwin == 0 {
			r2 := w.Run(p)
			b.Twins++
			if r2.Res.SchedHash != rep.Res.SchedHash || r2.Res.Steps != rep.Res.Steps || len(r2.Viol) != 0 {
				out("N", map[string]any{"i": i, "plan": p, "report": rep, "second": r2})
				break
			}
		}
		b.Runs++
		b.Ops += int64(p.Ops())
		b.Steps += rep.Res.Steps
		b.Switches += rep.Res.Switches
		b.SimNS += rep.SimNS
		b.GCs += rep.Res.GCs
		b.Pool[0] += rep.Res.PoolGets
		b.Pool[1] += rep.Res.PoolHits
		b.Pool[2] += rep.Res.PoolMiss
		b.Pool[3] += rep.Res.PoolDrops
		b.Mallocs += rep.Res.Mallocs
		b.LockWait += rep.Res.LockWaits
		if rep.Res.Steps > b.MaxSteps {
			b.MaxSteps = rep.Res.Steps
		}
		for k, v := range rep.Stats {
			b.Stats[k] += v
		}
		for k, n := range rep.Res.Count {
			b.Choices[simrt.KindNames[k]] += n
		}
		if i%(64*7) == 5 && len(b.Samples) == 0 {
			js, _ := json.Marshal(map[string]any{"run": i, "plan": p, "steps": rep.Res.Steps, "switches": rep.Res.Switches, "choices": len(rep.Res.Choices), "checked": rep.Stats})
			b.Samples = append(b.Samples, js)
		}
		b.Hashes = append(b.Hashes, rep.Res.SchedHash^p.Hash())
		if i%8 == 7 {
			runtime.GC()
		}
	}
	b.Sites = simrt.Reached()
	b.WallNS = int64(time.Since(t0))
	out("R", b)
}
