// Package genworld simulates runs of prutalgen: processes and library users
// on a simulated file system which fails, fills up and loses power, and
// loaders and generators that share a process.
package genworld

import (
	"bytes"
	"flag"
	"fmt"
	"log"
	"os"
	"path"
	"regexp"
	"strings"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
	"github.com/cloudwego/prutal/prutalgen/zzmain"
	"github.com/cloudwego/prutal/prutalgen/zzverif"

	"verif/plan"
	"verif/pm"
	"verif/psrc"
	"verif/sim/simproc"
	"verif/sim/simrt"
)

type World struct{}

// New makes the world.
func New() *World {
	simproc.Install()
	return &World{}
}

type run struct {
	p     *plan.Plan
	stats map[string]int64
	viol  []plan.Violation
	op    int
	thr   int

	prepare func(*simproc.Proc)
	look    bool // compare what the library loads with the schema
}

func (w *run) fail(class, f string, a ...any) {
	w.viol = append(w.viol, plan.Violation{Class: class, Detail: fmt.Sprintf(f, a...), Thread: w.thr, Op: w.op})
}

func (w *run) count(k string) { w.stats[k]++ }

// ---- trees -----------------------------------------------------------------

// tree is a project on a file system.
type tree struct {
	proj *psrc.Project
	dir  string
	fs   *simproc.FS
	in   map[string]bool // input files
}

func project(seed uint64, size int) *psrc.Project {
	n := fmt.Sprintf("p%d", seed)
	p := psrc.Gen(n, seed, psrc.Opts{Base: "example.com/" + n, Files: 1 + size%4, Msgs: 1 + size/4%3, Fields: 2 + size/12%6})
	if len(p.Roots) == 1 && seed%5 == 0 { // the include directory is the project's own
		p.Roots[0] = "."
		for _, f := range p.Files {
			f.Root = "."
		}
	}
	return p
}

// write puts a project's files below dir.
func write(fs *simproc.FS, p *psrc.Project, dir string) map[string]bool {
	in := map[string]bool{}
	for _, r := range p.Roots {
		fs.MkdirAll(dir + "/" + r)
	}
	for _, f := range p.Files {
		fn := path.Join(dir, f.Root, f.Path)
		fs.Put(fn, []byte(f.Text(p)+wellKnown(p, f)), 0o644)
		in[fn] = true
	}
	return in
}

// wellKnown is a message of types which prutalgen itself brings along, for
// some files.
func wellKnown(p *psrc.Project, f *psrc.File) string {
	h := uint64(len(p.Files))
	no := 0
	for i, x := range p.Files {
		if x == f {
			no = i
		}
	}
	for _, c := range p.Name + f.Path {
		h = h*31 + uint64(c)
	}
	r := pm.NewRng(h)
	if !r.P(0.2) {
		return ""
	}
	known := []struct{ file, typ string }{
		{"any", "Any"}, {"api", "Api"}, {"api", "Method"}, {"descriptor", "FileDescriptorProto"}, {"descriptor", "FieldDescriptorProto.Type"},
		{"duration", "Duration"}, {"empty", "Empty"}, {"field_mask", "FieldMask"}, {"source_context", "SourceContext"}, {"struct", "Value"},
		{"timestamp", "Timestamp"}, {"type", "Type"}, {"type", "Field.Kind"}, {"wrappers", "BytesValue"},
	}
	label := ""
	if f.Syntax == psrc.Proto2 {
		label = "optional "
	}
	files := map[string]bool{}
	imps, fields := "", ""
	for i := 1; i <= 1+r.N(3); i++ {
		k := known[r.N(len(known))]
		if r.P(0.3) || k.file == "descriptor" && r.P(0.8) { // (a long one)
			k = known[11]
		}
		if !files[k.file] {
			files[k.file] = true
			imps += fmt.Sprintf("import \"google/protobuf/%s.proto\";\n", k.file)
		}
		fields += fmt.Sprintf("  %s.google.protobuf.%s f%d = %d;\n", []string{label, "repeated "}[r.N(2)], k.typ, i, i)
	}
	return fmt.Sprintf("\n%smessage ZzWell%d {\n%s}\n", imps, no, fields)
}

// strangers puts files into the directories of outputs which no run may touch.
func strangers(t *tree, v *invocation, r *pm.Rng) {
	outs := v.outputs(t)
	for _, fn := range sorted(outs) {
		if r.P(0.3) {
			continue
		}
		dir, base := path.Dir(fn), strings.TrimSuffix(path.Base(fn), ".pb.go")
		if t.fs.MkdirAll(dir) == nil {
			continue
		}
		for _, s := range []string{"/zz_removed.pb.go", "/" + base + "_grpc.pb.go", "/" + base + "_old.pb.go", "/a.pb.go", "/" + base + ".pb.validate.go", "/" + base + ".go", "/" + base + ".pb.go.orig", "/" + base + ".pb.go.bak", "/" + base + "_test.go"} {
			if r.P(0.6) || outs[dir+s] != nil || t.fs.Exists(dir+s) {
				continue
			}
			head := []string{"// Code generated by prutalgen. DO NOT EDIT.\n// " + strings.Join(v.argv(), " ") + "\n", "// Code generated by prutalgen. DO NOT EDIT.\n", "// Code generated by protoc-gen-go. DO NOT EDIT.\n", "// by hand\n"}[r.N(4)]
			t.fs.Put(dir+s, []byte(head+fmt.Sprintf("\npackage %s\n\nconst X = %d\n", v.files[0].GoName, r.N(1000))), 0o644)
		}
	}
	t.fs.Settle()
}

var goPackage = regexp.MustCompile(`option\s+go_package\s*=\s*("[^"]*"|'[^']*')\s*;`)

func newTree(p *psrc.Project, dir string, r *pm.Rng) *tree {
	t := &tree{proj: p, dir: dir, fs: simproc.NewFS()}
	t.in = write(t.fs, p, dir)
	// other files, which are nobody's business
	for _, f := range []string{"go.mod", "main.go", "README.md", "inc/notes.txt", "out/keep.go"} {
		if r.P(0.7) {
			t.fs.Put(dir+"/"+f, []byte(fmt.Sprintf("// %s %d\npackage x\n", f, r.N(1000))), []uint32{0o644, 0o600, 0o755}[r.N(3)])
		}
	}
	// files of the same names which the include order hides
	if len(p.Roots) > 1 || r.P(0.5) {
		for _, f := range p.Files {
			if !r.P(0.4) {
				continue
			}
			decoy := fmt.Sprintf("syntax = \"proto3\";\npackage decoy;\noption go_package = \"example.com/decoy\";\nmessage Decoy%d { int32 x = 1; }\n", r.N(100))
			if b, _ := t.fs.Read(path.Join(dir, f.Root, f.Path)); r.P(0.7) { // a copy, moved to another package
				decoy = goPackage.ReplaceAllString(string(b), `option go_package = "example.com/old/decoy;decoy";`)
			}
			later := false
			for _, x := range append(append([]string(nil), p.Roots...), "") {
				fn := path.Join(dir, x, f.Path)
				if x == f.Root {
					later = true
				} else if later && !t.fs.Exists(fn) {
					t.fs.Put(fn, []byte(decoy), 0o644)
					t.in[fn] = true
				}
			}
		}
	}
	t.fs.MkdirAll(dir)
	t.fs.Settle()
	return t
}

func (t *tree) clone() *tree {
	c := *t
	c.fs = t.fs.Clone()
	return &c
}

// ---- invocations -----------------------------------------------------------

type invocation struct {
	files  []*psrc.File
	names  []string // as given
	args   []string // options
	incl   []string
	pkgs   map[string]string
	out    string
	srcRel bool
	abs    bool
	getter bool
	mars   bool
	noFmt  bool
	here   bool // no include directory is given: the working directory
}

// invoke draws the way the generator is called.
func invoke(t *tree, r *pm.Rng) *invocation {
	v := &invocation{pkgs: map[string]string{}}
	p := t.proj
	abs := r.P(0.25)
	v.abs = abs
	for _, root := range p.Roots {
		d := root
		if abs {
			d = path.Join(t.dir, root)
		}
		v.incl = append(v.incl, d)
		if d == "." && r.P(0.6) { // by default
			v.here = true
			continue
		}
		switch r.N(3) {
		case 0:
			v.args = append(v.args, "-I", d)
		case 1:
			v.args = append(v.args, "-I="+d)
		default:
			v.args = append(v.args, "--proto_path="+d)
		}
	}
	for _, f := range p.Files {
		if f.MOpt {
			v.pkgs[f.Path] = f.GoOpt
			v.args = append(v.args, "--go_opt=M"+f.Path+"="+f.GoOpt)
		}
	}
	v.out = "."
	switch r.N(5) {
	case 0:
	case 1:
		v.out = "gen/code/go"
	case 2:
		v.out = t.dir + "/gen"
		v.abs = true
	default:
		v.out = "out"
	}
	if v.out != "." {
		v.args = append(v.args, "--go_out="+v.out)
	}
	if r.P(0.3) {
		v.srcRel = true
		v.args = append(v.args, "--go_opt=paths=source_relative")
	} else if r.P(0.2) {
		v.args = append(v.args, "--go_opt=paths=import")
	}
	if r.P(0.5) {
		v.getter = true
		v.args = append(v.args, "-gen_getter")
	}
	v.mars, v.noFmt = r.P(0.3), r.P(0.15)
	for _, f := range p.Files {
		if r.P(0.75) {
			v.files = append(v.files, f)
		}
	}
	if len(v.files) == 0 {
		v.files = append(v.files, p.Files[r.N(len(p.Files))])
	}
	for i := len(v.files) - 1; i > 0; i-- {
		j := r.N(i + 1)
		v.files[i], v.files[j] = v.files[j], v.files[i]
	}
	for _, f := range v.files {
		n := f.Path
		if !f.MOpt && r.P(0.2) {
			n = "./" + n
		}
		v.names = append(v.names, n)
	}
	return v
}

// absolute makes an invocation independent of the working directory.
func (v *invocation) absolute(t *tree) {
	abs := func(s string) string {
		if path.IsAbs(s) {
			return s
		}
		return path.Join(t.dir, s)
	}
	if v.here {
		v.here = false
		v.args = append([]string{"-I=" + v.incl[0]}, v.args...)
	}
	for i, d := range v.incl {
		for k, a := range v.args {
			if strings.HasSuffix(a, "="+d) && !strings.HasPrefix(a, "--go_") {
				v.args[k] = strings.TrimSuffix(a, d) + abs(d)
			} else if a == d && k > 0 && v.args[k-1] == "-I" {
				v.args[k] = abs(d)
			}
		}
		v.incl[i] = abs(d)
	}
	if v.out == "." {
		v.args = append(v.args, "--go_out="+t.dir)
	}
	for k, a := range v.args {
		if a == "--go_out="+v.out {
			v.args[k] = "--go_out=" + abs(v.out)
		}
	}
	v.out = abs(v.out)
	v.abs = true
}

func (v *invocation) argv() []string {
	return append(append([]string{"prutalgen"}, v.args...), v.names...)
}

// output is where a file's code goes.
func (v *invocation) output(t *tree, f *psrc.File) string {
	if v.srcRel {
		return strings.TrimSuffix(path.Join(t.dir, f.Root, f.Path), ".proto") + ".pb.go"
	}
	o := v.out
	if !path.IsAbs(o) {
		o = path.Join(t.dir, o)
	}
	return path.Join(o, f.Output())
}

func (v *invocation) outputs(t *tree) map[string]*psrc.File {
	m := map[string]*psrc.File{}
	for _, f := range v.files {
		m[v.output(t, f)] = f
	}
	return m
}

// ---- running ---------------------------------------------------------------

type sentinel struct{ msg string }

// logger is a library user's logger.
type logger struct {
	lines []string
	fatal string
	exit  bool // as the default logger does
}

func (l *logger) Printf(f string, a ...any) { l.lines = append(l.lines, fmt.Sprintf(f, a...)) }
func (l *logger) Fatalf(f string, a ...any) {
	l.fatal = fmt.Sprintf(f, a...)
	l.lines = append(l.lines, l.fatal)
	if l.exit {
		os.Exit(1)
	}
	panic(sentinel{l.fatal})
}

type result struct {
	proc  *simproc.Proc
	ok    bool // exit 0, or no error and no fatal report
	ended string
	lines []string
	wrong []string // what is wrong with the loaded descriptors
}

// spawn runs f as a process and waits for its end.
func (w *run) spawn(p *simproc.Proc, f func()) *result {
	res := &result{proc: p}
	done := false
	th := simrt.Spawn(func() {
		f()
		done = true
		simrt.KillGroup(simrt.Group())
	})
	simproc.Attach(th.ID, p)
	simrt.Join(th)
	simproc.End(th.ID)
	for k, n := range p.Injects {
		w.stats["fault_"+k] += n
	}
	for k := range p.Unknown {
		w.count("unsimulated_" + k)
	}
	w.stats["system_calls"] += int64(p.Ops)
	v, stk := th.Panicked()
	switch {
	case p.Killed != "":
		res.ended = p.Killed
	case p.Exited:
		res.ok = p.Code == 0
		res.ended = fmt.Sprintf("exit %d", p.Code)
	case v != nil:
		res.ended = fmt.Sprintf("panic: %v", v)
		if s, ok := v.(sentinel); ok {
			res.ended = "fatal: " + s.msg
		} else {
			w.count("process_panics")
			res.lines = append(res.lines, clipStack(stk))
		}
	case done:
		res.ok = true
		res.ended = "exit 0"
	default:
		res.ended = "ended"
	}
	return res
}

func clipStack(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// become sets a process's arguments.
func become(argv []string) func() {
	args := os.Args
	os.Args = argv
	return func() { os.Args = args }
}

// boot starts a process: all package-level state is new.
func (w *run) boot(p *simproc.Proc) {
	if w.prepare != nil {
		w.prepare(p)
	}
	simproc.Boot(p, cold)
}

// cold gives package-level variables the values of a new process.
func cold() {
	flag.CommandLine = flag.NewFlagSet(os.Args[0], flag.ExitOnError)
	flag.Usage = func() { flag.CommandLine.Usage() }
	log.Default().SetFlags(log.LstdFlags)
	log.Default().SetPrefix("")
	log.Default().SetOutput(os.Stderr)
	zzverif.Reset()
}

// main runs the command as a new process.
func (w *run) main(t *tree, v *invocation, cwd string, f simproc.Faults, root bool) *result {
	p := simproc.NewProc(t.fs, cwd)
	p.Root = root
	p.Faults = f
	p.Input = func(fn string) bool { return t.in[fn] }
	defer become(v.argv())()
	w.boot(p)
	w.count("processes")
	return w.spawn(p, zzmain.Main)
}

// lib runs the library in a new process; a failure is an error from Gen or a
// fatal report to the logger.
func (w *run) lib(t *tree, v *invocation, f simproc.Faults, r *pm.Rng, root bool) *result {
	p := simproc.NewProc(t.fs, t.dir)
	p.Root = root
	p.Faults = f
	p.Input = func(fn string) bool { return t.in[fn] }
	l := &logger{exit: r.P(0.3)}
	var err error
	defer become(v.argv())()
	w.boot(p)
	oneLoader := r.P(0.5)
	w.count("library_processes")
	var wrong []string
	look := func(p *prutalgen.Proto, f *psrc.File) {
		if w.look {
			wrong = append(wrong, checkDescr(p, f)...)
			w.count("descriptors_compared_with_schema")
		}
	}
	res := w.spawn(p, func() { err = libRun(t, v, l, oneLoader, look) })
	res.wrong = wrong
	if err != nil {
		res.ok = false
		res.ended = "error: " + err.Error()
	}
	res.lines = append(res.lines, l.lines...)
	return res
}

func libRun(t *tree, v *invocation, l *logger, oneLoader bool, look func(*prutalgen.Proto, *psrc.File)) error {
	gt := prutalgen.GenPathType(prutalgen.GenByImport)
	if v.srcRel {
		gt = prutalgen.GenBySourceRelative
	}
	x := prutalgen.NewLoader(v.incl, v.pkgs)
	x.SetLogger(l)
	g := prutalgen.NewGoCodeGen()
	g.Getter = v.getter
	g.Format = !v.noFmt
	if v.mars {
		g.Marshaler = prutalgen.MarshalerKitexProtobuf
	}
	for _, f := range v.files {
		if !oneLoader {
			x = prutalgen.NewLoader(v.incl, v.pkgs)
			x.SetLogger(l)
		}
		ps := x.LoadProto(f.Path)
		if err := g.Gen(ps[0], gt, v.out); err != nil {
			return err
		}
		look(ps[0], f)
	}
	return nil
}

// reference runs the generator undisturbed on a copy of a clean tree.
func (w *run) reference(t *tree, v *invocation, lib bool) (map[string][]byte, *result) {
	c := t.clone()
	var res *result
	if lib {
		res = w.lib(c, v, simproc.Faults{}, pm.NewRng(1), true)
	} else {
		res = w.main(c, v, c.dir, simproc.Faults{}, true)
	}
	if !res.ok {
		return nil, res
	}
	out := map[string][]byte{}
	for fn := range v.outputs(c) {
		b, ok := c.fs.Read(fn)
		if !ok {
			return nil, res
		}
		out[fn] = b
	}
	return out, res
}

func diffText(got, want []byte) string {
	if len(got) == 0 {
		return "empty"
	}
	n := 0
	for n < len(got) && n < len(want) && got[n] == want[n] {
		n++
	}
	line := 1 + bytes.Count(want[:n], []byte("\n"))
	a := func(b []byte) string {
		e := min(n+60, len(b))
		return fmt.Sprintf("%q", b[min(max(n-20, 0), len(b)):e])
	}
	return fmt.Sprintf("%d bytes instead of %d, first difference in line %d: %s instead of %s", len(got), len(want), line, a(got), a(want))
}

func traceOf(p *simproc.Proc) string {
	var l []string
	for i, e := range p.Trace {
		s := e.Text
		if e.Inject != "" {
			s += "  <-- " + e.Inject
		} else if len(p.Trace) > 30 && i < len(p.Trace)-30 {
			continue
		}
		l = append(l, s)
	}
	s := strings.Join(l, "\n    ")
	if len(p.Stderr) > 0 {
		e := string(p.Stderr)
		if len(e) > 400 {
			e = e[len(e)-400:]
		}
		s += "\n    stderr ends: " + strings.ReplaceAll(e, "\n", "\n      ")
	}
	return s
}

// Run executes a plan.
func (*World) Run(p *plan.Plan) *plan.Report {
	w := &run{p: p, stats: map[string]int64{}}
	rep := &plan.Report{Stats: w.stats}
	races := simrt.RaceErrors()
	simrt.Begin(p.Config())
	simrt.SetRuntimeRand(p.MapSeed)
	cold()
	drv := simrt.Spawn(func() {
		switch p.Prop {
		case "C09":
			w.success()
		case "C10":
			w.repair()
		case "C11":
			w.independent()
		case "C12":
			w.schema()
		default:
			panic("no such property")
		}
	})
	rep.Res = simrt.Run()
	simproc.Detach()
	simrt.SetRuntimeRand(0)
	rep.SimNS = rep.Res.SimNS
	rep.Viol = w.viol
	if v, stk := drv.Panicked(); v != nil {
		fmt.Fprintf(os.Stderr, "harness panic: %v\n%s\n", v, stk)
		os.Exit(3)
	}
	if rep.Res.Deadlock != "" {
		rep.Viol = append(rep.Viol, plan.Violation{Class: "deadlock", Detail: rep.Res.Deadlock})
	}
	if rep.Res.Livelock {
		rep.Viol = append(rep.Viol, plan.Violation{Class: "livelock", Detail: "the run does not end within the step bound"})
	}
	if n := simrt.RaceErrors() - races; n > 0 {
		rep.Races = n
		rep.Viol = append(rep.Viol, plan.Violation{Class: "race", Detail: fmt.Sprintf("%d data races", n)})
	}
	return rep
}
