package genworld

import (
	"bytes"
	"fmt"
	"path"
	"runtime"
	"strings"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"

	"verif/plan"
	"verif/pm"
	"verif/psrc"
	"verif/sim/simproc"
	"verif/sim/simrt"
)

// independent is the world of C11: what is generated must be the same whoever
// else, whenever and wherever it is generated.
func (w *run) independent() {
	if w.p.P["mode"] == 0 {
		w.processes()
	} else {
		w.library()
	}
}

func (w *run) projects() []*psrc.Project {
	var ps []*psrc.Project
	for i := 0; i < 2; i++ {
		ps = append(ps, project(uint64(w.p.P["proj"]+i), w.p.P["size"]))
	}
	if r := pm.NewRng(w.p.Seed ^ 0x1111); r.P(0.4) { // the second is a version of the first
		ps[1] = ps[0].Derive(ps[0].Name, "example.com/"+ps[0].Name, r.U64(), 0.3+float64(r.N(60))/100)
	}
	return ps
}

// ---- many processes --------------------------------------------------------

// processes runs the command again and again in processes that differ in
// everything but the inputs and the command line.
func (w *run) processes() {
	pr := w.projects()[0]
	r := pm.NewRng(w.p.Seed ^ 0x11)
	t := newTree(pr, "/home/u/w", r)
	v := invoke(t, r)
	anywhere := r.P(0.4) // the working directory does not matter
	if anywhere {
		v.absolute(t)
	}
	for v.abs && !anywhere {
		v = invoke(t, r)
	}
	w.op = -1
	ref, res := w.reference(t, v, false)
	if ref == nil {
		w.count("no_reference")
		return
	}
	defer simrt.SetRuntimeRand(w.p.MapSeed)
	strip := func(b []byte) []byte { // without the command line
		i := bytes.Index(b, []byte("\npackage "))
		return b[max(i, 0):]
	}
	for i, o := range w.p.Threads[0] {
		w.op = i
		r := pm.NewRng(o.S)
		simrt.SetRuntimeRand(r.U64() | 1)
		dir := []string{"/home/u/w", "/home/u/w", "/srv/other place/w", "/w", "/home/u/a.proto/src/example.com"}[r.N(5)]
		cwd := dir
		if anywhere {
			cwd, dir = []string{dir, "/", "/home/u", "/srv/other place/w", "/home/u/w/inc"}[r.N(5)], "/home/u/w"
		}
		c := newTree(pr, dir, pm.NewRng(w.p.Seed^0x11))
		c.fs.MkdirAll(cwd)
		c.fs.MkdirAll("/tmp")
		c.fs.MkdirAll("/var/tmp")
		for _, f := range pr.Files {
			c.fs.Put("/home/u/decoy/"+f.Path, []byte("syntax = \"proto3\";\npackage decoy;\noption go_package = \"example.com/decoy\";\nmessage Decoy { int32 x = 1; }\n"), 0o644)
		}
		for _, fn := range sorted(c.fs.Files()) {
			c.fs.PutTime(fn, int64(r.N(1<<30))*4e9)
		}
		if r.P(0.5) { // other files do not matter
			strangers(c, v, r)
			for k := r.N(6); k > 0; k-- {
				c.fs.Put(fmt.Sprintf("%s/%s/z%d.go", dir, []string{"inc", "out", "other", "."}[r.N(4)], k), []byte("package z\n"), 0o644)
			}
		}
		vv := *v
		alone := o.K == "alone" && len(v.files) > 1
		if alone {
			k := r.N(len(v.files))
			vv.files, vv.names = v.files[k:k+1], v.names[k:k+1]
		}
		seed := r.U64()
		w.prepare = func(p *simproc.Proc) {
			p.Rand = seed
			p.Pid = 2 + int(seed%30000)
			p.Clock = (int64(seed>>20%(1<<20)) - 1<<19) * 3600e9
			environment(p, res.proc.Asked[:], dir, pr, r)
		}
		res := w.main(c, &vv, cwd, simproc.Faults{P: 0.05, Benign: r.P(0.5)}, true)
		w.prepare = nil
		what := fmt.Sprintf("in another process in %s, project in %s", cwd, dir)
		if alone {
			what = "alone"
		}
		if !res.ok {
			w.fail("not-same", "generating %s fails: %s (%s)\n    %s", what, res.ended, strings.Join(v.argv(), " "), traceOf(res.proc))
			return
		}
		for _, f := range vv.files {
			got, ok := c.fs.Read(vv.output(c, f))
			want := ref[v.output(t, f)]
			if alone {
				got, want = strip(got), strip(want)
			}
			if !ok || string(got) != string(want) {
				w.fail("not-same", "generating %s gives other code for %s: %s (%s)", what, f.Path, diffText(got, want), strings.Join(v.argv(), " "))
				return
			}
			w.count("outputs_compared")
		}
	}
	_ = res
}

// variables are what programs use the environment for, rightly.
var variables = [][]string{
	{"TZ", "", "UTC", "Asia/Tokyo", "America/New_York"},
	{"HOME", "/home/u", "/root", ""},
	{"USER", "u", "root"},
	{"HOSTNAME", "host1", "host2", "host3"},
	{"LANG", "C", "de_DE.UTF-8", "tr_TR.UTF-8"},
	{"TMPDIR", "", "/tmp", "/var/tmp"},
	{"GOPATH", "", "/go", "/home/u/w"},
	{"GOFLAGS", "", "-mod=mod"},
	{"GOROOT", "", "/usr/lib/go"},
	{"PATH", "/bin", "/usr/bin:/bin"},
	{"XDG_CACHE_HOME", "", "/home/u/.cache"},
	{"SOURCE_DATE_EPOCH", "", "1700000000"},
}

// environment draws a process's environment variables: also others, if the
// command has asked for them before.
func environment(p *simproc.Proc, asked []string, dir string, pr *psrc.Project, r *pm.Rng) {
	for _, k := range asked {
		v := []string{"", "1", "true", "0", dir, dir + "/inc", "/home/u/decoy", dir + "/out", ".", "inc", "example.com/x", "/home/u/decoy:" + dir, "x,y=z"}[r.N(13)]
		if len(pr.Roots) > 0 && r.P(0.3) {
			v = path.Join(dir, pr.Roots[r.N(len(pr.Roots))])
		}
		if k != "" && r.P(0.8) {
			p.Setenv(k, v, true)
		}
	}
	for _, v := range variables {
		p.Setenv(v[0], v[1+r.N(len(v)-1)], r.P(0.9))
	}
	p.Setenv("PWD", p.Cwd, r.P(0.7))
}

// ---- one process -----------------------------------------------------------

// job is an operation of a library user.
type job struct {
	op   plan.Op
	t    *tree
	v    *invocation
	pick []int // order of files: first the warm-up of the loader, then what counts
	warm int
	late bool // generate after all loads
	want *outcome
	got  *outcome
}

type outcome struct {
	files map[string]string
	text  string // errors and log
	stack string
}

func (o *outcome) diff(want *outcome) string {
	for _, fn := range sorted(want.files) {
		if g, ok := o.files[fn]; !ok {
			return fmt.Sprintf("there is no %s; %s", fn, o.text)
		} else if g != want.files[fn] {
			return fmt.Sprintf("%s has %s", fn, diffText([]byte(g), []byte(want.files[fn])))
		}
	}
	for _, fn := range sorted(o.files) {
		if _, ok := want.files[fn]; !ok {
			return fmt.Sprintf("there is also %s", fn)
		}
	}
	if o.text != want.text {
		return fmt.Sprintf("the report is\n%s\ninstead of\n%s\n%s", o.text, want.text, o.stack)
	}
	return ""
}

// library runs loaders and generators in one process: together, one after the
// other, with reused loaders, after failures. Each must do what it does alone
// in a fresh process.
func (w *run) library() {
	ps := w.projects()
	defer become([]string{"kitex-like-tool", "-x"})()
	var jobs [][]*job
	for th, ops := range w.p.Threads {
		var l []*job
		for i, o := range ops {
			r := pm.NewRng(o.S)
			j := &job{op: o}
			pr := ps[o.T%len(ps)]
			j.t = newTree(pr, "/home/u/w", r)
			j.v = invoke(j.t, r)
			if o.K == "bad" {
				fs := closure(j.v.files)
				if o.X == 0 || o.X == 1 {
					mutate(j.t, fs[r.N(len(fs))], r)
				}
				for k := 0; o.X > 0 && k < 5 && damage(j.t, j.v, r, fs[r.N(len(fs))], []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 10}[r.N(11)]) == ""; k++ {
				}
				j.t.fs.Settle()
			}
			if o.K == "reuse" || o.K == "late" {
				j.warm = 1 + r.N(2)
			}
			j.late = o.K == "late"
			for k := 0; k < j.warm; k++ {
				j.pick = append(j.pick, r.N(len(pr.Files)+1))
			}
			w.thr, w.op = th, i
			j.want = w.solo(j)
			if j.want.stack != "" {
				w.count("panics_alone")
			}
			l = append(l, j)
		}
		jobs = append(jobs, l)
	}
	cold()
	if w.p.P["warm"] > 0 { // something has been parsed before
		j := *jobs[0][0]
		w.solo1(&j)
	}
	var ths []*simrt.Thread
	for i := range jobs {
		l := jobs[i]
		p := simproc.NewProc(nil, "/home/u/w")
		th := simrt.Spawn(func() {
			for _, j := range l {
				p.FS = j.t.fs
				j.got = j.run(true)
			}
		})
		simproc.Attach(th.ID, p)
		ths = append(ths, th)
	}
	for i, th := range ths {
		simrt.Join(th)
		simproc.End(th.ID)
		for k, j := range jobs[i] {
			w.thr, w.op = i, k
			w.count("results_compared")
			if j.got == nil {
				w.fail("not-same", "the operation did not end")
				continue
			}
			if d := j.got.diff(j.want); d != "" {
				w.fail("not-same", "%s of %v in %s gives another result than alone in a fresh process: %s", j.op.K, j.v.names, j.t.proj.Name, d)
			}
		}
	}
}

// solo is what the job does alone in a fresh process.
func (w *run) solo(j *job) *outcome {
	cold()
	return w.solo1(j)
}

func (w *run) solo1(j *job) *outcome {
	c := *j
	c.t = j.t.clone()
	c.pick, c.warm, c.late = nil, 0, false
	p := simproc.NewProc(c.t.fs, c.t.dir)
	var res *outcome
	th := simrt.Spawn(func() { res = c.run(false) })
	simproc.Attach(th.ID, p)
	simrt.Join(th)
	simproc.End(th.ID)
	w.count("library_processes")
	if res == nil {
		panic("no result")
	}
	return res
}

// run executes the job in the current thread.
func (j *job) run(history bool) (out *outcome) {
	out = &outcome{files: map[string]string{}}
	l := &logger{}
	x := prutalgen.NewLoader(j.v.incl, j.v.pkgs)
	x.SetLogger(l)
	before := j.t.fs.Files()
	errText := ""
	guard := func(f func()) {
		defer func() {
			if v := recover(); v != nil {
				if s, ok := v.(sentinel); ok {
					errText += "fatal: " + s.msg + "\n"
					return
				}
				if _, ok := v.(runtime.Error); ok {
					b := make([]byte, 3000)
					out.stack = string(b[:runtime.Stack(b, false)])
				}
				errText += fmt.Sprintf("panic: %v\n", v)
			}
		}()
		f()
	}
	newGen := func() *prutalgen.GoCodeGen {
		g := prutalgen.NewGoCodeGen()
		g.Getter = j.v.getter
		g.Format = !j.v.noFmt
		if j.v.mars {
			g.Marshaler = prutalgen.MarshalerKitexProtobuf
		}
		return g
	}
	gt := prutalgen.GenPathType(prutalgen.GenByImport)
	if j.v.srcRel {
		gt = prutalgen.GenBySourceRelative
	}
	load := func(name string) (p *prutalgen.Proto) {
		guard(func() { p = x.LoadProto(name)[0] })
		return p
	}
	warm := func() {
		for _, k := range j.pick {
			name := "no/such.proto"
			if k < len(j.t.proj.Files) {
				name = j.t.proj.Files[k].Path
			}
			// the loader's earlier use, of which nothing must remain
			if p := load(name); p != nil && j.op.X%2 == 0 {
				w := prutalgen.NewCodeWriter("// x", "example.com/x")
				guard(func() { newGen().ProtoGen(p, w) })
			}
		}
	}
	if history && !j.late {
		warm()
		l.lines, errText = nil, ""
	}
	g := newGen()
	for _, f := range j.v.files {
		p := load(f.Path)
		if p == nil {
			break
		}
		if history && j.late {
			keepLines, keepErr := l.lines, errText
			warm()
			l.lines, errText = keepLines, keepErr
		}
		stop := false
		guard(func() {
			if err := g.Gen(p, gt, j.v.out); err != nil {
				errText += "error: " + err.Error() + "\n"
				stop = true
			}
		})
		if stop {
			break
		}
		guard(func() { out.files["descriptor of "+f.Path] = describe(p) })
	}
	for fn, d := range j.t.fs.Files() {
		if before[fn] != d {
			b, _ := j.t.fs.Read(fn)
			out.files[strings.TrimPrefix(path.Clean(fn), j.t.dir)] = string(b)
		}
	}
	out.text = errText + strings.Join(l.lines, "")
	return out
}
