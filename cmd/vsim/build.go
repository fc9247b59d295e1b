package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"verif/catalog"
)

type builder struct {
	verif  string // /verif
	repo   string // /repo
	dir    string // scratch build directory
	goroot string
	in     *instrumenter
	sys    bool // with the system-call seams
}

func newBuilder(verif, repo, dir string) (*builder, error) {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return nil, fmt.Errorf("go env: %w", err)
	}
	b := &builder{verif: verif, repo: repo, dir: dir, goroot: strings.TrimSpace(string(out))}
	b.in = newInstrumenter(repo, dir)
	return b, nil
}

func isGenPkg(ip string) bool { return strings.HasPrefix(ip, modPath+"/prutalgen") }

// prepare writes the overlay. Extra files (generated types) are given as
// virtual path -> real path.
func (b *builder) prepare(yieldGen bool, extra map[string]string) (string, error) {
	pkgs, err := b.in.listPackages()
	if err != nil {
		return "", err
	}
	if len(pkgs) == 0 {
		return "", fmt.Errorf("no packages found in %s", b.repo)
	}
	var rt, gen []pkgInst
	for _, p := range pkgs {
		if p.Name == "main" {
			if p.ImportPath == modPath+"/prutalgen" {
				p.Virtual = filepath.Join(b.repo, "prutalgen", "zzmain")
				p.ImportPath += "/zzmain"
				if err := b.in.instrument(p, yieldGen, true); err != nil {
					return "", err
				}
				gen = append(gen, p)
			}
			continue
		}
		isGen := isGenPkg(p.ImportPath)
		if err := b.in.instrument(p, !isGen || yieldGen, true); err != nil {
			return "", err
		}
		if isGen {
			gen = append(gen, p)
		} else if !strings.Contains(p.ImportPath, "testutils") {
			rt = append(rt, p)
		}
	}
	if err := b.bridge(filepath.Join(b.repo, "zzverif", "bridge.go"), rt); err != nil {
		return "", err
	}
	if err := b.bridge(filepath.Join(b.repo, "prutalgen", "zzverif", "bridge.go"), gen); err != nil {
		return "", err
	}
	if err := stdOverlay(b.goroot, b.dir, b.in.replace); err != nil {
		return "", err
	}
	if b.sys {
		if err := sysOverlay(b.goroot, b.dir, b.in.replace); err != nil {
			return "", err
		}
	}
	for k, v := range extra {
		b.in.replace[k] = v
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": b.in.replace}, "", " ")
	ov := filepath.Join(b.dir, "overlay.json")
	if err := os.WriteFile(ov, js, 0o644); err != nil {
		return "", err
	}
	sj, _ := json.Marshal(b.in.sites)
	return ov, os.WriteFile(filepath.Join(b.dir, "sites.json"), sj, 0o644)
}

// bridge writes a virtual package that can import the internal packages and
// resets them in dependency order.
func (b *builder) bridge(virtual string, pkgs []pkgInst) error {
	var s strings.Builder
	s.WriteString("// Package zzverif gives the simulator access to internal packages.\npackage zzverif\n\n")
	order := b.topo(pkgs)
	for i, p := range order {
		fmt.Fprintf(&s, "import p%d %q\n", i, p.ImportPath)
	}
	s.WriteString("\n// Reset re-runs all package-level initialisation: a cold process.\nfunc Reset() {\n")
	for i := range order {
		fmt.Fprintf(&s, "\tp%d.SimReset__()\n", i)
	}
	s.WriteString("}\n\n// Packages lists what Reset covers.\nvar Packages = []string{\n")
	for _, p := range order {
		fmt.Fprintf(&s, "\t%q,\n", p.ImportPath)
	}
	s.WriteString("}\n")
	name := strings.NewReplacer("/", "_").Replace(strings.TrimPrefix(virtual, b.repo+"/"))
	real := filepath.Join(b.dir, "bridge", name)
	if err := os.MkdirAll(filepath.Dir(real), 0o755); err != nil {
		return err
	}
	if err := os.WriteFile(real, []byte(s.String()), 0o644); err != nil {
		return err
	}
	b.in.replace[virtual] = real
	return nil
}

func (b *builder) topo(pkgs []pkgInst) []pkgInst {
	by := map[string]*pkgInst{}
	for i := range pkgs {
		by[pkgs[i].ImportPath] = &pkgs[i]
	}
	var out []pkgInst
	seen := map[string]bool{}
	var visit func(p *pkgInst)
	visit = func(p *pkgInst) {
		if seen[p.ImportPath] {
			return
		}
		seen[p.ImportPath] = true
		imps := b.in.pkgImports[p.ImportPath]
		sort.Strings(imps)
		for _, im := range imps {
			if q := by[im]; q != nil {
				visit(q)
			}
		}
		out = append(out, *p)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].ImportPath < pkgs[j].ImportPath })
	for i := range pkgs {
		visit(&pkgs[i])
	}
	return out
}

// goBuild compiles a package of the harness with the overlay.
func (b *builder) goBuild(overlay, pkg, out string, race bool) error {
	args := []string{"build", "-overlay", overlay, "-o", out}
	if race {
		args = append(args, "-race", "-gcflags=all=-d=checkptr=0")
	}
	args = append(args, pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = b.verif
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")
	if race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	var eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &eb, &eb
	if err := cmd.Run(); err != nil {
		t := eb.String()
		if len(t) > 6000 {
			t = t[:6000]
		}
		return fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, t)
	}
	return nil
}

// worker builds one of the worker programs.
func (b *builder) worker(kind string, race bool, seed uint64, extra int) (*workerBin, error) {
	if err := os.MkdirAll(b.dir, 0o755); err != nil {
		return nil, err
	}
	w := &workerBin{Kind: kind, Race: race, Seed: seed, Xtra: extra, Dir: b.dir}
	w.Path = filepath.Join(b.dir, "worker-"+kind)
	if race {
		w.Path += ".race"
	}
	extraFiles := map[string]string{}
	pkg, sys := "./cmd/worker", false
	switch kind {
	case "codec":
		for i, at := range []string{"gentypes", "gentypes/alt/gentypes"} {
			src, err := emitTypes(catalog.New(seed, extra).All(), seed, extra, i == 1)
			if err != nil {
				return nil, err
			}
			tf := filepath.Join(b.dir, fmt.Sprintf("types%d.go", i))
			if err := os.WriteFile(tf, []byte(src), 0o644); err != nil {
				return nil, err
			}
			extraFiles[filepath.Join(b.verif, at, "types.go")] = tf
		}
	case "svc":
		return w, b.svcWorker(w)
	case "gen":
		pkg, sys = "./cmd/genworker", true
	default:
		return nil, fmt.Errorf("unknown worker %q", kind)
	}
	b.sys = sys
	ov, err := b.prepare(sys, extraFiles)
	if err != nil {
		return nil, err
	}
	return w, b.goBuild(ov, pkg, w.Path, race)
}
