package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The instrumenter rewrites the packages of /repo, as they are in the working
// tree, into an overlay for `go build -overlay`. It works on source text by
// inserting at statement positions, so line numbers stay and any code style is
// accepted:
//
//   - a scheduler step before every statement,
//   - package sync replaced by simsync, go statements by simulated threads,
//   - direct uses of the runtime allocator routed through the simulator,
//   - time.Sleep routed through the simulated clock,
//   - one reset function per package that re-runs its package-level
//     initialisation: an in-process cold restart.

const (
	modPath  = "github.com/cloudwego/prutal"
	simrtImp = "verif/sim/simrt"
	simSync  = "verif/sim/simsync"
)

type edit struct {
	off, end int // replaces src[off:end]
	text     string
	seq      int
}

type pkgInst struct {
	ImportPath string
	Dir        string
	Name       string
	Files      []string // base names
	Virtual    string   // directory to show the package in, if not Dir; its function main becomes Main
}

type siteInfo struct {
	ID   int
	File string
	Line int
}

type instrumenter struct {
	repo    string
	out     string            // directory for rewritten files
	replace map[string]string // overlay
	nsite   int
	sites   []siteInfo
	stats   map[string]int

	pkgImports map[string][]string
}

func newInstrumenter(repo, out string) *instrumenter {
	return &instrumenter{repo: repo, out: out, replace: map[string]string{}, nsite: 100, stats: map[string]int{}, pkgImports: map[string][]string{}}
}

// listPackages finds all non-test packages of the repository's root module.
func (in *instrumenter) listPackages() ([]pkgInst, error) {
	var res []pkgInst
	err := filepath.WalkDir(in.repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if !d.IsDir() {
			return nil
		}
		base := filepath.Base(p)
		if p != in.repo {
			if strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" {
				return filepath.SkipDir
			}
			if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
				return filepath.SkipDir
			}
		}
		bp, err := build.Default.ImportDir(p, 0)
		if err != nil {
			return nil // no buildable Go files
		}
		rel, _ := filepath.Rel(in.repo, p)
		ip := modPath
		if rel != "." {
			ip += "/" + filepath.ToSlash(rel)
		}
		if len(bp.GoFiles)+len(bp.CgoFiles) == 0 {
			return nil
		}
		res = append(res, pkgInst{ImportPath: ip, Dir: p, Name: bp.Name, Files: bp.GoFiles})
		return nil
	})
	return res, err
}

type fileCtx struct {
	in      *instrumenter
	fset    *token.FileSet
	path    string
	src     []byte
	f       *ast.File
	edits   []edit
	yields  bool
	useRT   bool
	imports map[string]string // local name -> import path
	info    *types.Info       // of packages which have channels
	two     map[*ast.UnaryExpr]bool
}

func (c *fileCtx) off(p token.Pos) int { return c.fset.Position(p).Offset }

func (c *fileCtx) ins(off int, text string) { c.rep(off, off, text) }
func (c *fileCtx) rep(off, end int, text string) {
	c.edits = append(c.edits, edit{off, end, text, len(c.edits)})
}

func (c *fileCtx) site(p token.Pos) int {
	c.in.nsite++
	c.in.sites = append(c.in.sites, siteInfo{c.in.nsite, c.path, c.fset.Position(p).Line})
	return c.in.nsite
}

// apply returns src[from:to] with the edits inside that range applied.
func (c *fileCtx) apply(from, to int) string {
	es := make([]edit, 0, len(c.edits))
	for _, e := range c.edits {
		if e.off >= from && e.end <= to {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		return es[i].seq < es[j].seq
	})
	var b strings.Builder
	pos := from
	for _, e := range es {
		if e.off < pos {
			continue // overlapping: the outer edit wins
		}
		b.Write(c.src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(c.src[pos:to])
	return b.String()
}

func hasDirective(doc *ast.CommentGroup, prefix string) bool {
	if doc == nil {
		return false
	}
	for _, l := range doc.List {
		if strings.HasPrefix(l.Text, prefix) {
			return true
		}
	}
	return false
}

func (c *fileCtx) isPkg(e ast.Expr, path, name string) bool {
	s, ok := e.(*ast.SelectorExpr)
	if !ok || s.Sel.Name != name {
		return false
	}
	id, ok := s.X.(*ast.Ident)
	return ok && c.imports[id.Name] == path && id.Obj == nil
}

func (c *fileCtx) stmts(list []ast.Stmt) {
	if !c.yields {
		return
	}
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		c.useRT = true
		c.ins(c.off(s.Pos()), fmt.Sprintf("simrt__.Yield(%d); ", c.site(s.Pos())))
	}
}

func (c *fileCtx) walk(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if hasDirective(x.Doc, "//go:nosplit") {
				return false
			}
		case *ast.BlockStmt:
			c.stmts(x.List)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 && c.yields {
				c.useRT = true
				c.ins(c.off(x.Body.Lbrace)+1, fmt.Sprintf(" simrt__.Yield(%d); ", c.site(x.Pos())))
			}
		case *ast.CaseClause:
			c.stmts(x.Body)
		case *ast.CommClause:
			c.stmts(x.Body)
		case *ast.GoStmt:
			c.goStmt(x)
		case *ast.SendStmt:
			c.call("Send(", x.Chan.Pos(), x.Chan.Pos())
			c.rep(c.off(x.Arrow), c.off(x.Arrow)+2, ")(")
			c.ins(c.off(x.End()), ")")
			c.in.stats["chan"]++
		case *ast.AssignStmt:
			if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && len(x.Lhs) == 2 && len(x.Rhs) == 1 && u.Op == token.ARROW {
				c.two[u] = true
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := ast.Unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					c.two[u] = true
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				f := "Recv("
				if c.two[x] {
					f = "Recv2("
				}
				c.call(f, x.OpPos, x.OpPos+2)
				c.ins(c.off(x.End()), ")")
				c.in.stats["chan"]++
			}
		case *ast.SelectStmt:
			c.selectStmt(x)
		case *ast.RangeStmt:
			if c.info != nil && c.info.Types[x.X].Type != nil {
				if _, ok := c.info.Types[x.X].Type.Underlying().(*types.Chan); ok {
					c.rangeChan(x)
				}
			}
		case *ast.CallExpr:
			if c.isPkg(x.Fun, "time", "Sleep") {
				c.useRT = true
				c.rep(c.off(x.Fun.Pos()), c.off(x.Fun.End()), "simrt__.SleepD")
				c.in.stats["sleep"]++
			}
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && c.info != nil {
				if _, ok := c.info.Uses[id].(*types.Builtin); ok {
					c.call("Close", id.Pos(), id.End())
				}
			}
		}
		return true
	})
}

// call replaces what is between from and to by a name of package simrt.
func (c *fileCtx) call(name string, from, to token.Pos) {
	c.useRT = true
	c.rep(c.off(from), c.off(to), "simrt__."+name)
}

func (c *fileCtx) text(n ast.Node) string { return c.apply(c.off(n.Pos()), c.off(n.End())) }

// selectStmt makes a switch over the operation that takes place.
func (c *fileCtx) selectStmt(s *ast.SelectStmt) {
	c.useRT = true
	c.in.stats["select"]++
	if len(s.Body.List) == 0 {
		c.rep(c.off(s.Pos()), c.off(s.End()), "{ simrt__.Forever(); panic(0) }")
		return
	}
	dflt := false
	for _, x := range s.Body.List {
		dflt = dflt || x.(*ast.CommClause).Comm == nil
	}
	var names, ops []string
	n := c.site(s.Pos())
	for i, x := range s.Body.List {
		cc := x.(*ast.CommClause)
		if cc.Comm == nil {
			continue
		}
		nm := fmt.Sprintf("simC%d_%d__", n, len(names))
		head := fmt.Sprintf("case %d: ", len(names))
		if i == len(s.Body.List)-1 && !dflt {
			head = "default: "
		}
		var ch ast.Expr
		switch cs := cc.Comm.(type) {
		case *ast.SendStmt:
			c.walk(cs.Chan)
			c.walk(cs.Value)
			ops = append(ops, fmt.Sprintf("simrt__.SendCase(%s)(%s)", c.text(cs.Chan), c.text(cs.Value)))
		case *ast.ExprStmt:
			ch = cs.X
		case *ast.AssignStmt:
			ch = cs.Rhs[0]
			for _, l := range cs.Lhs {
				c.walk(l)
			}
			head += c.text(cs.Lhs[0])
			if len(cs.Lhs) == 2 {
				head += ", " + c.text(cs.Lhs[1])
			}
			head += " " + cs.Tok.String() + " " + nm + ".Val"
			if len(cs.Lhs) == 2 {
				head += ", " + nm + ".OK"
			}
			head += "; "
		}
		if ch != nil {
			u := ast.Unparen(ch).(*ast.UnaryExpr)
			c.walk(u.X)
			ops = append(ops, "simrt__.RecvCase("+c.text(u.X)+")")
		}
		names = append(names, nm)
		c.rep(c.off(cc.Case), c.off(cc.Colon)+1, head)
	}
	let := ""
	if len(names) > 0 {
		let = strings.Join(names, ", ") + " := " + strings.Join(ops, ", ") + "; "
	}
	c.rep(c.off(s.Select), c.off(s.Select)+len("select"), fmt.Sprintf("switch %ssimrt__.Select(%s) ", let, strings.Join(append([]string{fmt.Sprint(dflt)}, names...), ", ")))
}

// rangeChan makes a loop of receives.
func (c *fileCtx) rangeChan(s *ast.RangeStmt) {
	c.useRT = true
	c.in.stats["chan"]++
	n := c.site(s.Pos())
	c.walk(s.X)
	ch, ok := fmt.Sprintf("simC%d__", n), fmt.Sprintf("simK%d__", n)
	body := fmt.Sprintf(" _, %s := simrt__.Recv2(%s); ", ok, ch)
	if s.Key != nil {
		c.walk(s.Key)
		body = fmt.Sprintf(" %s, %s := simrt__.Recv2(%s); ", c.text(s.Key), ok, ch)
		if s.Tok == token.ASSIGN {
			body = fmt.Sprintf(" var %s bool; %s, %s = simrt__.Recv2(%s); ", ok, c.text(s.Key), ok, ch)
		}
	}
	c.rep(c.off(s.For), c.off(s.Body.Lbrace)+1, fmt.Sprintf("for %s := %s; ; { %sif !%s { break }; ", ch, c.text(s.X), body, ok))
}

// typeInfo is what can be known about a package's expressions without its imports.
func typeInfo(fset *token.FileSet, files []*ast.File) *types.Info {
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Error: func(error) {}, Importer: noImports{}, FakeImportC: true}
	conf.Check("p", fset, files, info)
	return info
}

type noImports struct{}

func (noImports) Import(path string) (*types.Package, error) {
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	return p, nil
}

func (c *fileCtx) goStmt(g *ast.GoStmt) {
	c.useRT = true
	c.in.stats["go"]++
	call := g.Call
	end := c.off(g.End())
	if fl, ok := call.Fun.(*ast.FuncLit); ok {
		if len(call.Args) == 0 {
			c.rep(c.off(g.Go), c.off(fl.Pos()), "simrt__.Go(")
			c.rep(c.off(fl.End()), end, ")")
			return
		}
		// go func(P) {BODY}(ARGS) -> func(P) { simrt__.Go(func() RES {BODY}) }(ARGS)
		// the parameters are copies, so that the body can have them as they are
		c.rep(c.off(g.Go), c.off(fl.Pos()), "")
		c.ins(c.off(fl.Body.Lbrace)+1, " simrt__.Go(func() { ")
		if r := fl.Type.Results; r != nil && len(r.List) > 0 {
			c.rep(c.off(r.Pos()), c.off(r.End()), "")
			c.edits[len(c.edits)-2].text = " simrt__.Go(func() { func() " + string(c.src[c.off(r.Pos()):c.off(r.End())]) + " { "
			c.ins(c.off(fl.Body.Rbrace), " }() ")
		}
		c.ins(c.off(fl.Body.Rbrace), " }) ")
		return
	}
	// go FUN(ARGS) -> func() { f, a0.. := FUN, ARGS..; simrt__.Go(func() { f(a0..) }) }()
	c.walk(call.Fun)
	for _, a := range call.Args {
		c.walk(a)
	}
	var names, args []string
	call2 := make([]string, 0, len(call.Args))
	for i, a := range call.Args {
		if constExpr(a) {
			call2 = append(call2, string(c.src[c.off(a.Pos()):c.off(a.End())]))
			continue
		}
		nm := fmt.Sprintf("simA%d__", i)
		names = append(names, nm)
		args = append(args, c.apply(c.off(a.Pos()), c.off(a.End())))
		call2 = append(call2, nm)
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	fun := c.apply(c.off(call.Fun.Pos()), c.off(call.Fun.End()))
	if id, ok := call.Fun.(*ast.Ident); !ok || id.Obj != nil && id.Obj.Kind != ast.Fun {
		names = append([]string{"simF__"}, names...)
		args = append([]string{fun}, args...)
		fun = "simF__"
	}
	let := ""
	if len(names) > 0 {
		let = strings.Join(names, ", ") + " := " + strings.Join(args, ", ") + "; "
	}
	c.rep(c.off(g.Go), end, fmt.Sprintf("func() { %ssimrt__.Go(func() { %s(%s%s) }) }()", let, fun, strings.Join(call2, ", "), ell))
}

// constExpr tells if an expression is made of literals alone, so that giving
// it to a variable first could change its type.
func constExpr(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.BasicLit:
		return true
	case *ast.Ident:
		return x.Name == "nil" || x.Name == "true" || x.Name == "false"
	case *ast.ParenExpr:
		return constExpr(x.X)
	case *ast.UnaryExpr:
		return x.Op != token.ARROW && x.Op != token.AND && constExpr(x.X)
	case *ast.BinaryExpr:
		return constExpr(x.X) && constExpr(x.Y)
	}
	return false
}

type pkgVar struct {
	names  []string
	assign string // statement text that re-initialises the names
	deps   map[string]bool
	file   int
	ord    int
	fn     string // generated function name
}

// identsIn collects all identifiers used in n (over-approximate).
func identsIn(n ast.Node, out map[string]bool) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			identsIn(x.X, out)
			out["."+x.Sel.Name] = true // methods by name
			return false
		case *ast.Ident:
			out[x.Name] = true
		}
		return true
	})
}

func (in *instrumenter) instrument(p pkgInst, yields bool, withReset bool) error {
	fset := token.NewFileSet()
	var ctxs []*fileCtx
	funcDeps := map[string]map[string]bool{} // function or ".method" -> identifiers
	var vars []*pkgVar
	var inits []string
	ninit := 0
	sort.Strings(p.Files)
	tag := strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(strings.TrimPrefix(p.ImportPath, modPath))
	var files []*ast.File
	chans := false
	for _, name := range p.Files {
		path := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			return err
		}
		ctxs = append(ctxs, &fileCtx{in: in, fset: fset, path: path, src: src, f: f, yields: yields, imports: map[string]string{}, two: map[*ast.UnaryExpr]bool{}})
		files = append(files, f)
		chans = chans || bytes.Contains(src, []byte("chan")) || bytes.Contains(src, []byte("<-"))
	}
	var info *types.Info
	if chans {
		info = typeInfo(fset, files)
	}
	for fi, c := range ctxs {
		f := c.f
		c.info = info
		if p.Virtual != "" {
			c.rep(c.off(f.Name.Pos()), c.off(f.Name.End()), filepath.Base(p.Virtual))
		}
		for _, im := range f.Imports {
			ip, _ := strconv.Unquote(im.Path.Value)
			local := filepath.Base(ip)
			if im.Name != nil {
				local = im.Name.Name
			}
			c.imports[local] = ip
			in.pkgImports[p.ImportPath] = append(in.pkgImports[p.ImportPath], ip)
			if ip == "sync" {
				nm := "sync"
				if im.Name != nil {
					nm = im.Name.Name
				}
				c.rep(c.off(im.Pos()), c.off(im.End()), nm+" "+strconv.Quote(simSync))
				in.stats["sync"]++
			}
		}
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				key := x.Name.Name
				if x.Recv != nil {
					key = "." + key
				}
				m := funcDeps[key]
				if m == nil {
					m = map[string]bool{}
					funcDeps[key] = m
				}
				if x.Body == nil {
					if link := linknameTarget(f, x); link == "runtime.mallocgc" {
						c.routeMalloc(x)
					}
					continue
				}
				identsIn(x.Body, m)
				if x.Recv == nil && x.Name.Name == "main" && p.Virtual != "" {
					c.rep(c.off(x.Name.Pos()), c.off(x.Name.End()), "Main")
				}
				if x.Recv == nil && x.Name.Name == "init" && withReset {
					nm := fmt.Sprintf("simInit%d__", ninit)
					ninit++
					c.rep(c.off(x.Name.Pos()), c.off(x.Name.End()), nm)
					inits = append(inits, nm)
				}
				c.walk(x)
			case *ast.GenDecl:
				c.walk(x)
				if x.Tok != token.VAR || !withReset {
					continue
				}
				for _, sp := range x.Specs {
					vs := sp.(*ast.ValueSpec)
					if hasDirective(x.Doc, "//go:embed") || hasDirective(vs.Doc, "//go:embed") ||
						hasDirective(x.Doc, "//go:linkname") {
						continue
					}
					in.collectVar(c, vs, fi, &vars)
				}
			}
		}
	}

	// order of initialisation: repeatedly the first variable in declaration
	// order whose (transitive) dependencies are initialised
	var order []*pkgVar
	if withReset {
		order = initOrder(vars, funcDeps)
		for i, v := range order {
			v.fn = fmt.Sprintf("simVar%d__", i)
		}
	}
	for fi, c := range ctxs {
		var tail strings.Builder
		for _, v := range order {
			if v.file == fi {
				fmt.Fprintf(&tail, "\nfunc %s() { %s }\n", v.fn, v.assign)
			}
		}
		if fi == 0 && withReset {
			tail.WriteString("\n// SimReset__ re-runs the package's initialisation.\nfunc SimReset__() {\n")
			for _, v := range order {
				fmt.Fprintf(&tail, "\t%s()\n", v.fn)
			}
			for _, n := range inits {
				fmt.Fprintf(&tail, "\t%s()\n", n)
			}
			tail.WriteString("}\n\nfunc init() {\n")
			for _, n := range inits {
				fmt.Fprintf(&tail, "\t%s()\n", n)
			}
			tail.WriteString("}\n")
		}
		if c.useRT {
			c.ins(c.off(c.f.Name.End()), "; import simrt__ "+strconv.Quote(simrtImp))
		}
		text := c.apply(0, len(c.src)) + tail.String()
		op := filepath.Join(in.out, "repo"+tag, filepath.Base(c.path))
		if err := os.MkdirAll(filepath.Dir(op), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(op, []byte(text), 0o644); err != nil {
			return err
		}
		if p.Virtual != "" {
			in.replace[filepath.Join(p.Virtual, filepath.Base(c.path))] = op
		} else {
			in.replace[c.path] = op
		}
	}
	in.stats["packages"]++
	in.stats["vars"] += len(vars)
	in.stats["inits"] += len(inits)
	return nil
}

func (in *instrumenter) collectVar(c *fileCtx, vs *ast.ValueSpec, fi int, vars *[]*pkgVar) {
	text := func(n ast.Node) string { return c.apply(c.off(n.Pos()), c.off(n.End())) }
	add := func(names []string, assign string, deps map[string]bool) {
		*vars = append(*vars, &pkgVar{names: names, assign: assign, deps: deps, file: fi, ord: len(*vars)})
	}
	typed := ""
	if vs.Type != nil {
		typed = text(vs.Type)
	}
	switch {
	case len(vs.Values) == 0:
		for _, n := range vs.Names {
			if n.Name == "_" {
				continue
			}
			deps := map[string]bool{}
			add([]string{n.Name}, fmt.Sprintf("%s = *new(%s)", n.Name, typed), deps)
		}
	case len(vs.Values) == len(vs.Names):
		for i, n := range vs.Names {
			deps := map[string]bool{}
			identsIn(vs.Values[i], deps)
			val := text(vs.Values[i])
			if n.Name == "_" {
				if typed != "" {
					add(nil, fmt.Sprintf("var _ %s = %s", typed, val), deps)
				} else {
					add(nil, fmt.Sprintf("_ = %s", val), deps)
				}
				continue
			}
			add([]string{n.Name}, fmt.Sprintf("%s = %s", n.Name, val), deps)
		}
	default: // var a, b = f()
		var ns []string
		var lhs []string
		for _, n := range vs.Names {
			lhs = append(lhs, n.Name)
			if n.Name != "_" {
				ns = append(ns, n.Name)
			}
		}
		deps := map[string]bool{}
		identsIn(vs.Values[0], deps)
		add(ns, fmt.Sprintf("%s = %s", strings.Join(lhs, ", "), text(vs.Values[0])), deps)
	}
}

func initOrder(vars []*pkgVar, funcDeps map[string]map[string]bool) []*pkgVar {
	byName := map[string]*pkgVar{}
	for _, v := range vars {
		for _, n := range v.names {
			byName[n] = v
		}
	}
	// transitive closure from a variable's initialiser to variables
	reach := func(v *pkgVar) map[*pkgVar]bool {
		out := map[*pkgVar]bool{}
		seen := map[string]bool{}
		var visit func(ids map[string]bool)
		visit = func(ids map[string]bool) {
			for id := range ids {
				if seen[id] {
					continue
				}
				seen[id] = true
				if w := byName[id]; w != nil && w != v {
					out[w] = true
				}
				if fd := funcDeps[id]; fd != nil {
					visit(fd)
				}
			}
		}
		visit(v.deps)
		return out
	}
	deps := map[*pkgVar]map[*pkgVar]bool{}
	for _, v := range vars {
		deps[v] = reach(v)
	}
	var order []*pkgVar
	done := map[*pkgVar]bool{}
	for len(order) < len(vars) {
		progress := false
		for _, v := range vars {
			if done[v] {
				continue
			}
			ok := true
			for w := range deps[v] {
				if !done[w] {
					ok = false
					break
				}
			}
			if ok {
				order = append(order, v)
				done[v] = true
				progress = true
				break
			}
		}
		if !progress { // over-approximated cycle: take declaration order
			for _, v := range vars {
				if !done[v] {
					order = append(order, v)
					done[v] = true
					break
				}
			}
		}
	}
	return order
}

// linknameTarget returns the target of a //go:linkname for a bodyless function.
func linknameTarget(f *ast.File, fd *ast.FuncDecl) string {
	for _, cg := range f.Comments {
		for _, cm := range cg.List {
			fs := strings.Fields(cm.Text)
			if len(fs) == 3 && fs[0] == "//go:linkname" && fs[1] == fd.Name.Name {
				return fs[2]
			}
		}
	}
	return ""
}

// routeMalloc gives a bodyless function linked to runtime.mallocgc a body that
// calls the simulated allocator.
func (c *fileCtx) routeMalloc(fd *ast.FuncDecl) {
	c.useRT = true
	c.in.stats["mallocgc"]++
	for _, cg := range c.f.Comments {
		for _, cm := range cg.List {
			fs := strings.Fields(cm.Text)
			if len(fs) == 3 && fs[0] == "//go:linkname" && fs[1] == fd.Name.Name {
				c.rep(c.off(cm.Pos()), c.off(cm.End()), "// routed to the simulated allocator")
			}
		}
	}
	// rewrite the signature with known parameter names
	c.rep(c.off(fd.Type.Params.Pos()), c.off(fd.End()),
		"(simSize__ uintptr, simTyp__ unsafe.Pointer, simZero__ bool) unsafe.Pointer { return simrt__.Mallocgc(simSize__, simTyp__, simZero__) }")
}
