package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/catalog"
	"verif/plan"
	"verif/pm"
	"verif/psrc"
	"verif/sim/simrt"
)

// The svc worker runs on message types generated by the real prutalgen from
// schema projects. What goes wrong before there is a worker (prutalgen rejects
// a project or its output does not compile or bind) is a violation too.

// errBuildViol is a violation found while building.
type errBuildViol struct {
	viol plan.Violation
	proj string // project, if it is one's
	drop []string
}

func (e *errBuildViol) Error() string { return e.viol.Class + ": " + e.viol.Detail }

// plainGen builds prutalgen as users do.
func (b *builder) plainGen() (string, error) {
	out := filepath.Join(b.dir, "prutalgen")
	cmd := exec.Command("go", "build", "-o", out, "./prutalgen")
	cmd.Dir = b.repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")
	if o, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building prutalgen: %v\n%s", err, firstLines(string(o), 30))
	}
	lib := exec.Command("go", "build", "-o", out+"-lib", "./cmd/libgen")
	lib.Dir = b.verif
	lib.Env = cmd.Env
	if o, err := lib.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building a user of the prutalgen library: %v\n%s", err, firstLines(string(o), 30))
	}
	return out, nil
}

func runLimited(dir string, d time.Duration, name string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.WaitDelay = time.Second
	var bb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &bb, &bb
	err := cmd.Run()
	if ctx.Err() != nil {
		err = fmt.Errorf("no end after %v", d)
	}
	return bb.String(), err
}

// genProject writes a project below root and runs prutalgen on it. It returns
// the generated files: virtual path below /verif -> real path.
func (b *builder) genProject(gen, root string, p *psrc.Project, seed uint64) (map[string]string, error) {
	dir := filepath.Join(root, p.Name)
	if err := os.RemoveAll(dir); err != nil {
		return nil, err
	}
	var files []string
	for _, f := range p.Files {
		fn := filepath.Join(dir, f.Root, f.Path)
		if err := os.MkdirAll(filepath.Dir(fn), 0o755); err != nil {
			return nil, err
		}
		if err := os.WriteFile(fn, []byte(f.Text(p)), 0o644); err != nil {
			return nil, err
		}
		files = append(files, f.Path)
	}
	r := pm.NewRng(simrt.Mix(seed, strHash(p.Name)))
	opts := p.Args("")
	srcRel := r.P(0.25)
	if srcRel {
		opts = append(opts, "--go_opt=paths=source_relative")
	} else {
		opts = append(opts, "--go_out=out")
	}
	if r.P(0.6) {
		opts = append(opts, "--gen_getter")
	}
	if r.P(0.35) {
		gen += "-lib"
		if r.P(0.5) {
			opts = append(opts, "-late")
		}
	}
	var cmds [][]string
	switch r.N(3) {
	case 0: // one by one
		for _, f := range files {
			cmds = append(cmds, append(append([]string(nil), opts...), f))
		}
	case 1: // all together, importers first
		for i, j := 0, len(files)-1; i < j; i, j = i+1, j-1 {
			files[i], files[j] = files[j], files[i]
		}
		fallthrough
	default:
		cmds = append(cmds, append(append([]string(nil), opts...), files...))
	}
	for _, c := range cmds {
		out, err := runLimited(dir, 60*time.Second, gen, c...)
		if err != nil {
			var l []string
			for _, s := range strings.Split(out, "\n") {
				if s != "" && !strings.HasPrefix(s, "[INFO ]") {
					l = append(l, s)
				}
			}
			return nil, &errBuildViol{viol: plan.Violation{Class: "gen-fails", Thread: -1,
				Detail: fmt.Sprintf("%s %s: %v: %s", filepath.Base(gen), strings.Join(c, " "), err, firstLines(strings.Join(l, "\n"), 8))}, proj: p.Name}
		}
	}
	m := map[string]string{}
	for _, f := range p.Files {
		real := filepath.Join(dir, "out", f.Output())
		if srcRel {
			real = filepath.Join(dir, f.Root, strings.TrimSuffix(f.Path, ".proto")+".pb.go")
		}
		if _, err := os.Stat(real); err != nil {
			return nil, &errBuildViol{viol: plan.Violation{Class: "gen-missing", Thread: -1,
				Detail: fmt.Sprintf("prutalgen succeeded, but there is no output of %s: %v", f.Path, err)}, proj: p.Name}
		}
		m[filepath.Join(b.verif, strings.TrimPrefix(f.Output(), "verif/"))] = real
	}
	return m, nil
}

// registry writes the Go file that registers the generated types.
func registry(ps []*psrc.Project, seed uint64, extra int) string {
	var s, imp strings.Builder
	alias := map[string]string{}
	pkg := func(f *psrc.File) string {
		if alias[f.GoImport] == "" {
			alias[f.GoImport] = fmt.Sprintf("g%d", len(alias))
			fmt.Fprintf(&imp, "import %s %q\n", alias[f.GoImport], f.GoImport)
		}
		return alias[f.GoImport]
	}
	for _, p := range ps {
		for _, m := range p.Msgs {
			fmt.Fprintf(&s, "\tregGen(%q, (*%s.%s)(nil))\n", m.PM.Name, pkg(m.File), m.GoName)
		}
		for _, e := range p.Enums {
			fmt.Fprintf(&s, "\tregEnum(%q", p.Name+":"+e.Path())
			seen := map[int32]bool{}
			for _, v := range e.Vals {
				n := v.Name
				if seen[v.Num] {
					n = ""
				}
				seen[v.Num] = true
				fmt.Fprintf(&s, ",\n\t\tEnumVal{%s.%s, %d, %q, %q}", pkg(e.File), v.GoName, v.Num, n, v.GoName)
			}
			s.WriteString(")\n")
			if !e.NoMap && !e.File.NoMap {
				names, values := map[int32]string{}, map[string]int32{}
				for _, v := range e.Vals {
					if names[v.Num] == "" {
						names[v.Num] = v.Name
					}
					values[v.Name] = v.Num
				}
				fmt.Fprintf(&s, "\tregEnumMaps(%q, %s.%s_name, %s.%s_value, %#v, %#v)\n", p.Name+":"+e.Path(), pkg(e.File), e.GoName, pkg(e.File), e.GoName, names, values)
			}
		}
	}
	return "package gentypes\n\n" + imp.String() + "\nfunc init() {\n" + fmt.Sprintf("\tCatKind, CatSeed, CatExtra = \"svc\", %d, %d\n", seed, extra) + s.String() + "}\n"
}

func (b *builder) writeOverlay(name string, m map[string]string) (string, error) {
	js, _ := json.MarshalIndent(map[string]any{"Replace": m}, "", " ")
	fn := filepath.Join(b.dir, name)
	return fn, os.WriteFile(fn, js, 0o644)
}

var scratchRE = regexp.MustCompile(`/[^ :]*/svc/`)

// compileGen compiles generated code and the registry without anything of the
// simulator.
func (b *builder) compileGen(ps []*psrc.Project, files map[string]string, reg string) error {
	rf := filepath.Join(b.dir, "svc", "types-"+ps[0].Name+".go")
	if err := os.WriteFile(rf, []byte(reg), 0o644); err != nil {
		return err
	}
	ov := map[string]string{filepath.Join(b.verif, "gentypes", "types.go"): rf}
	for k, v := range files {
		ov[k] = v
	}
	fn, err := b.writeOverlay("overlay-gen.json", ov)
	if err != nil {
		return err
	}
	cmd := exec.Command("go", "build", "-overlay", fn, "./gentypes")
	cmd.Dir = b.verif
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")
	out, err := cmd.CombinedOutput()
	if err == nil {
		return nil
	}
	return &errBuildViol{viol: plan.Violation{Class: "gen-compile", Thread: -1,
		Detail: "generated code does not compile: " + firstLines(scratchRE.ReplaceAllString(string(out), ""), 8)}}
}

// svcWorker generates the projects and builds the worker.
func (b *builder) svcWorker(w *workerBin) error {
	set := catalog.SvcProjects(w.Seed, w.Xtra)
	gen, err := b.plainGen()
	if err != nil {
		return err
	}
	root := filepath.Join(b.dir, "svc")
	if err := os.MkdirAll(root, 0o755); err != nil {
		return err
	}
	all := set.All()
	files := map[string]string{}
	type res struct {
		m   map[string]string
		err error
	}
	rs := make([]res, len(all))
	var wg sync.WaitGroup
	for c := 0; c < runtime.NumCPU(); c++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := c; i < len(all); i += runtime.NumCPU() {
				rs[i].m, rs[i].err = b.genProject(gen, root, all[i], w.Seed)
			}
		}()
	}
	wg.Wait()
	for i, p := range all {
		if rs[i].err != nil {
			return b.shrink(rs[i].err, gen, root, p, w.Seed)
		}
		for k, v := range rs[i].m {
			files[k] = v
		}
	}
	reg := registry(all, w.Seed, w.Xtra)
	if err := b.compileGen(all, files, reg); err != nil {
		// which project is it?
		text := err.Error()
		order := append([]*psrc.Project(nil), all...)
		sort.SliceStable(order, func(i, j int) bool {
			in := func(p *psrc.Project) bool { return strings.Contains(text, "gensvc/"+p.Name+"/") }
			return in(order[i]) && !in(order[j])
		})
		for _, p := range order {
			if e := b.tryProject(gen, root, p, w.Seed); e != nil {
				return b.shrink(e, gen, root, p, w.Seed)
			}
		}
		return err
	}
	tf := filepath.Join(b.dir, "types.go")
	if err := os.WriteFile(tf, []byte(reg), 0o644); err != nil {
		return err
	}
	files[filepath.Join(b.verif, "gentypes", "types.go")] = tf
	ov, err := b.prepare(false, files)
	if err != nil {
		return err
	}
	if err := b.goBuild(ov, "./cmd/worker", w.Path, w.Race); err != nil {
		return err
	}
	// does it bind?
	out, err := runLimited(b.dir, 60*time.Second, w.Path, "-profile", "C12", "-dump")
	if err != nil && strings.Contains(out, "binding problems:") {
		t := strings.TrimSpace(out[strings.Index(out, "binding problems:")+len("binding problems:"):])
		l := strings.Split(t, "; ")
		sort.Strings(l)
		return &errBuildViol{viol: plan.Violation{Class: "gen-binding", Thread: -1,
			Detail: fmt.Sprintf("generated types differ from the schema (%d problems): %s", len(l), firstLines(strings.Join(l, "\n"), 6))}}
	}
	if err != nil {
		return fmt.Errorf("worker does not start: %v\n%s", err, firstLines(out, 20))
	}
	return nil
}

// tryProject generates and compiles one project alone.
func (b *builder) tryProject(gen, root string, p *psrc.Project, seed uint64) error {
	m, err := b.genProject(gen, root, p, seed)
	if err != nil {
		return err
	}
	err = b.compileGen([]*psrc.Project{p}, m, registry([]*psrc.Project{p}, 0, 0))
	var bv *errBuildViol
	if errors.As(err, &bv) {
		bv.proj = p.Name
	}
	return err
}

// shrink removes fields from a project as long as it fails in the same way.
func (b *builder) shrink(err error, gen, root string, p *psrc.Project, seed uint64) error {
	var bv *errBuildViol
	if !errors.As(err, &bv) {
		return err
	}
	until := time.Now().Add(40 * time.Second)
	cur := p
	best := bv
	var drop []string
	names := p.FieldNames()
	for chunk := (len(names) + 1) / 2; chunk > 0; chunk /= 2 {
		for at := 0; at < len(names) && time.Now().Before(until); {
			n := min(chunk, len(names)-at)
			try := append(append([]string(nil), drop...), names[at:at+n]...)
			q := p.Without(try)
			var e2 *errBuildViol
			if e := b.tryProject(gen, root, q, seed); errors.As(e, &e2) && e2.viol.Class == bv.viol.Class {
				drop, cur, best = try, q, e2
				names = append(names[:at:at], names[at+n:]...)
			} else {
				at += n
			}
		}
	}
	best.drop = drop
	best.proj = p.Name
	var t strings.Builder
	for _, f := range cur.Files {
		if len(t.String()) < 6000 {
			fmt.Fprintf(&t, "\n---- %s\n%s", f.Path, f.Text(cur))
		}
	}
	best.viol.Detail = fmt.Sprintf("project %s: %s%s", p.Name, best.viol.Detail, t.String())
	return best
}

// replayBuild repeats a violation that was found while building.
func (b *builder) replayBuild(rf *replayFile) (plan.Violation, bool, error) {
	w := &workerBin{Kind: rf.Kind, Seed: rf.CatSeed, Xtra: rf.CatExtra, Dir: b.dir, Path: filepath.Join(b.dir, "worker-svc")}
	if err := os.MkdirAll(filepath.Join(b.dir, "svc"), 0o755); err != nil {
		return plan.Violation{}, false, err
	}
	var err error
	if rf.Project != "" {
		gen, e := b.plainGen()
		if e != nil {
			return plan.Violation{}, false, e
		}
		for _, p := range catalog.SvcProjects(rf.CatSeed, rf.CatExtra).All() {
			if p.Name == rf.Project {
				err = b.tryProject(gen, filepath.Join(b.dir, "svc"), p.Without(rf.Drop), rf.CatSeed)
			}
		}
	} else {
		err = b.svcWorker(w)
	}
	if err == nil {
		return plan.Violation{}, false, nil
	}
	var bv *errBuildViol
	if errors.As(err, &bv) {
		if rf.Project != "" {
			// the recorded text includes the project
			if i := strings.Index(rf.Violation.Detail, bv.viol.Detail); i >= 0 {
				bv.viol.Detail = rf.Violation.Detail
			}
		}
		return bv.viol, true, nil
	}
	return plan.Violation{}, false, err
}
