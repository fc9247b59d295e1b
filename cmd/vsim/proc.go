package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/plan"
)

// workerBin is a built worker.
type workerBin struct {
	Kind string // codec, svc, gen
	Race bool
	Path string
	Dir  string
	Seed uint64 // catalogue
	Xtra int

	sites map[uint32]string // where the statements are
}

const (
	memCap  = 4 << 30 // a worker holding more than this is stopped
	hangSec = 150     // no run takes this long on any machine
)

// proc is a running worker process.
type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	lines  chan string
	errBuf *tailBuf
	killed atomic.Value // reason
	done   chan struct{}
	err    error
}

// tailBuf keeps the head and tail of what is written.
type tailBuf struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (t *tailBuf) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(b)
	if room := 6000 - len(t.head); room > 0 {
		k := min(room, len(b))
		t.head = append(t.head, b[:k]...)
		b = b[k:]
	}
	t.tail = append(t.tail, b...)
	if len(t.tail) > 20000 {
		t.tail = append([]byte(nil), t.tail[len(t.tail)-4000:]...)
	}
	return n, nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := string(t.head)
	if len(t.tail) > 0 {
		s += "\n...\n" + string(t.tail)
	}
	return s
}

func (t *tailBuf) reset() {
	t.mu.Lock()
	t.head, t.tail = nil, nil
	t.mu.Unlock()
}

func start(w *workerBin, args ...string) (*proc, error) {
	p := &proc{errBuf: &tailBuf{}, lines: make(chan string, 64), done: make(chan struct{})}
	p.cmd = exec.Command(w.Path, args...)
	p.cmd.Dir = w.Dir
	p.cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=/nonexistent", "GODEBUG=clobberfree=1,asyncpreemptoff=1",
		"GORACE=atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0", "GOTRACEBACK=single"}
	p.cmd.Stderr = p.errBuf
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	so, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		br := bufio.NewReaderSize(so, 1<<20)
		for {
			l, err := br.ReadString('\n')
			if len(l) > 0 {
				p.lines <- strings.TrimSuffix(l, "\n")
			}
			if err != nil {
				break
			}
		}
		p.err = p.cmd.Wait()
		close(p.lines)
		close(p.done)
	}()
	go func() { // memory watchdog
		for {
			select {
			case <-p.done:
				return
			case <-time.After(500 * time.Millisecond):
				b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", p.cmd.Process.Pid))
				if err != nil {
					continue
				}
				f := strings.Fields(string(b))
				if len(f) > 1 {
					if n, _ := strconv.ParseInt(f[1], 10, 64); n*int64(os.Getpagesize()) > memCap {
						p.kill("memory")
					}
				}
			}
		}
	}()
	return p, nil
}

func (p *proc) kill(why string) {
	p.killed.CompareAndSwap(nil, why)
	p.cmd.Process.Kill()
}

// found is a violation as a batch or a single plan reports it.
type found struct {
	W     *workerBin
	Prof  string
	Base  uint64
	From  int
	I     int
	Plan  *plan.Plan
	Viol  plan.Violation
	Trace []string // decisions, for people
	Err   string   // stderr
}

// classify turns the end of a process without a report into a violation.
func (p *proc) crash() plan.Violation {
	if why, _ := p.killed.Load().(string); why != "" {
		d := map[string]string{"hang": "no progress: the run does not end", "memory": "the process uses more than 4 GB"}[why]
		return plan.Violation{Class: why, Detail: d, Thread: -1}
	}
	e := p.errBuf.String()
	return plan.Violation{Class: "crash", Detail: fmt.Sprintf("the process died (%v): %s", p.err, firstLines(e, 30)), Thread: -1}
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// batchOut is what a batch run ends with.
type batchOut struct {
	stats   *plan.Batch
	viol    *found
	nondet  string
	harness string // the worker could not run at all
}

// runBatch runs one batch in a fresh process.
func runBatch(w *workerBin, prof string, base uint64, from, n, twin int, cancel <-chan struct{}) batchOut {
	p, err := start(w, "-profile", prof, "-seed", fmt.Sprint(base), "-from", fmt.Sprint(from), "-n", fmt.Sprint(n), "-twin", fmt.Sprint(twin))
	if err != nil {
		return batchOut{harness: err.Error()}
	}
	var o batchOut
	last := -1
	timer := time.NewTimer(hangSec * time.Second)
	defer timer.Stop()
loop:
	for {
		select {
		case l, ok := <-p.lines:
			if !ok {
				break loop
			}
			timer.Reset(hangSec * time.Second)
			switch {
			case strings.HasPrefix(l, "S "):
				last, _ = strconv.Atoi(l[2:])
			case strings.HasPrefix(l, "R "):
				o.stats = &plan.Batch{}
				json.Unmarshal([]byte(l[2:]), o.stats)
			case strings.HasPrefix(l, "N "):
				o.nondet = l[2:]
			case strings.HasPrefix(l, "V "):
				var v struct {
					I      int
					Plan   *plan.Plan
					Report *plan.Report
				}
				if err := json.Unmarshal([]byte(l[2:]), &v); err != nil {
					return batchOut{harness: "bad report: " + err.Error()}
				}
				o.viol = &found{W: w, Prof: prof, Base: base, From: from, I: v.I, Plan: v.Plan, Viol: v.Report.Viol[0]}
			}
		case <-timer.C:
			p.kill("hang")
		case <-cancel:
			p.kill("cancelled")
			for range p.lines {
			}
			return o
		}
	}
	if o.viol != nil {
		o.viol.Err = p.errBuf.String()
		return o
	}
	if o.stats == nil {
		e := p.errBuf.String()
		if last < 0 || strings.Contains(e, "binding problems") {
			o.harness = fmt.Sprintf("worker did not start: %v\n%s", p.err, firstLines(e, 40))
			return o
		}
		f := &found{W: w, Prof: prof, Base: base, From: from, I: last, Viol: p.crash(), Err: e}
		f.Plan, err = dumpPlan(w, prof, base, last)
		if err != nil {
			o.harness = err.Error()
			return o
		}
		o.viol = f
	}
	return o
}

// dumpPlan asks a worker for the plan of one run.
func dumpPlan(w *workerBin, prof string, base uint64, i int) (*plan.Plan, error) {
	p, err := start(w, "-profile", prof, "-seed", fmt.Sprint(base), "-from", fmt.Sprint(i), "-dump")
	if err != nil {
		return nil, err
	}
	var pl *plan.Plan
	for l := range p.lines {
		if strings.HasPrefix(l, "D ") {
			pl = &plan.Plan{}
			if err := json.Unmarshal([]byte(l[2:]), pl); err != nil {
				return nil, err
			}
		}
	}
	if pl == nil {
		return nil, fmt.Errorf("no plan: %s", p.errBuf.String())
	}
	return pl, nil
}

// server runs single plans in a long-lived process.
type server struct {
	w *workerBin
	p *proc
	n int // plans run by this process
}

func (s *server) close() {
	if s.p != nil {
		s.p.kill("closed")
		for range s.p.lines {
		}
		s.p = nil
	}
}

// run executes a plan; a died process is reported as a crash.
func (s *server) run(pl *plan.Plan, limit time.Duration) (*plan.Report, string, error) {
	if s.p != nil && s.n >= 400 {
		s.close()
	}
	if s.p == nil {
		p, err := start(s.w, "-serve")
		if err != nil {
			return nil, "", err
		}
		s.p, s.n = p, 0
	}
	s.n++
	s.p.errBuf.reset()
	var bb bytes.Buffer
	if err := json.NewEncoder(&bb).Encode(pl); err != nil {
		return nil, "", err
	}
	if _, err := s.p.in.Write(bb.Bytes()); err != nil {
		// it died; fall through to see why
		_ = err
	}
	started := false
	t := time.NewTimer(limit)
	defer t.Stop()
	for {
		select {
		case l, ok := <-s.p.lines:
			if !ok {
				v := s.p.crash()
				e := s.p.errBuf.String()
				s.p = nil
				if !started {
					return nil, e, fmt.Errorf("worker does not start: %s", e)
				}
				return &plan.Report{Viol: []plan.Violation{v}}, e, nil
			}
			if strings.HasPrefix(l, "S ") {
				started = true
			}
			if strings.HasPrefix(l, "P ") {
				rep := &plan.Report{}
				if err := json.Unmarshal([]byte(l[2:]), rep); err != nil {
					return nil, "", err
				}
				return rep, s.p.errBuf.String(), nil
			}
		case <-t.C:
			s.p.kill("hang")
		}
	}
}
