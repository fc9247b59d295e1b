package genworld

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path"
	"reflect"
	"strings"

	"verif/pm"
	"verif/psrc"
	"verif/sim/simproc"
)

// schema is the world of C12 without a compiler: many projects, all of whose
// files are generated by one or several undisturbed runs. The texts must have
// the schema's contents and be Go packages.
func (w *run) schema() {
	w.look = true
	for i, o := range w.p.Threads[0] {
		w.op = i
		r := pm.NewRng(o.S)
		pr := project(o.S, o.X)
		t := newTree(pr, "/home/u/w", r)
		v := invoke(t, r)
		v.all(t, r)
		outs := v.outputs(t)
		texts := map[string][]byte{}
		ok := true
		for _, s := range v.split(r, o.Y) {
			var res *result
			if o.K == "lib" {
				res = w.lib(t, s, simproc.Faults{}, r, true)
			} else {
				res = w.main(t, s, t.dir, simproc.Faults{}, true)
			}
			if !res.ok {
				w.fail("gen-fails", "the generator fails on valid input: %s (%s)\n    %s", res.ended, strings.Join(s.argv(), " "), traceOf(res.proc)+strings.Join(res.lines, "\n"))
				ok = false
				break
			}
			if len(res.wrong) > 0 {
				w.fail("descr-wrong", "a loaded descriptor does not have the schema's contents: %s", strings.Join(res.wrong, "; "))
			}
		}
		if !ok {
			continue
		}
		w.count("projects")
		for _, fn := range sorted(outs) {
			b, have := t.fs.Read(fn)
			if !have {
				w.fail("gen-missing", "success is reported (%s), but there is no %s", strings.Join(v.argv(), " "), fn)
				continue
			}
			texts[fn] = b
			if l := outs[fn].CheckGo(b); len(l) > 0 {
				w.fail("gen-wrong", "%s does not have the schema's contents: %s", fn, strings.Join(l, "; "))
			}
			w.count("outputs_compared_with_schema")
		}
		if l := checkPackages(outs, texts, v.getter); len(l) > 0 {
			w.fail("gen-compile", "generated code does not compile (%s): %s", strings.Join(v.argv(), " "), strings.Join(l, "; "))
		}
	}
}

// all makes an invocation generate every file of the project.
func (v *invocation) all(t *tree, r *pm.Rng) {
	have := map[*psrc.File]bool{}
	for _, f := range v.files {
		have[f] = true
	}
	for _, f := range t.proj.Files {
		if !have[f] {
			i := r.N(len(v.files) + 1)
			v.files = append(v.files[:i:i], append([]*psrc.File{f}, v.files[i:]...)...)
			v.names = append(v.names[:i:i], append([]string{f.Path}, v.names[i:]...)...)
		}
	}
}

// split makes several invocations of one.
func (v *invocation) split(r *pm.Rng, how int) []*invocation {
	var l []*invocation
	for i := 0; i < len(v.files); {
		n := len(v.files) - i
		switch how % 4 {
		case 0:
			n = 1
		case 1:
			n = 1 + r.N(n)
		}
		s := *v
		s.files, s.names = v.files[i:i+n], v.names[i:i+n]
		l = append(l, &s)
		i += n
	}
	return l
}

// checkPackages type-checks the packages which the outputs are. Packages from
// elsewhere are not known; nothing is said about what uses them.
func checkPackages(outs map[string]*psrc.File, texts map[string][]byte, getters bool) []string {
	fset := token.NewFileSet()
	pkgs := map[string][]*ast.File{}
	var bad []string
	problem := func(s string) {
		if len(bad) < 5 {
			bad = append(bad, s)
		}
	}
	for _, fn := range sorted(outs) {
		if texts[fn] == nil {
			return nil
		}
		a, err := parser.ParseFile(fset, path.Base(path.Dir(fn))+"/"+path.Base(fn), texts[fn], parser.SkipObjectResolution)
		if err != nil {
			problem(err.Error())
			return bad
		}
		imp := outs[fn].GoImport
		pkgs[imp] = append(pkgs[imp], a)
	}
	im := &importer{fset: fset, files: pkgs, done: map[string]*types.Package{}, problem: problem}
	for _, p := range sorted(pkgs) {
		im.Import(p)
	}
	if len(bad) > 0 || !getters {
		return bad
	}
	for _, fn := range sorted(outs) {
		for _, m := range outs[fn].AllMsgs() {
			checkGetters(im.done[outs[fn].GoImport], m, problem)
		}
	}
	return bad
}

// checkGetters checks that every field has an accessor of its type.
func checkGetters(p *types.Package, m *psrc.Msg, problem func(string)) {
	if p == nil || p.Scope().Lookup(m.GoName) == nil {
		return
	}
	t := p.Scope().Lookup(m.GoName).Type()
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	ms := types.NewMethodSet(types.NewPointer(t))
	get := func(x *types.Var) {
		s := ms.Lookup(p, "Get"+x.Name())
		if s == nil {
			problem(fmt.Sprintf("%s.%s has no accessor Get%s", p.Path(), m.GoName, x.Name()))
			return
		}
		sig := s.Type().(*types.Signature)
		want := x.Type()
		if q, ok := want.(*types.Pointer); ok {
			if _, msg := q.Elem().Underlying().(*types.Struct); !msg {
				want = q.Elem()
			}
		}
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
			problem(fmt.Sprintf("%s.%s.Get%s is %s", p.Path(), m.GoName, x.Name(), sig))
			return
		}
		is := sig.Results().At(0).Type()
		if q, ok := is.(*types.Pointer); ok && !types.Identical(is, want) {
			is = q.Elem()
		}
		if !types.Identical(is, want) {
			problem(fmt.Sprintf("%s.%s.Get%s returns %s; the field is %s", p.Path(), m.GoName, x.Name(), is, x.Type()))
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		tag := reflect.StructTag(st.Tag(i))
		if tag.Get("protobuf") != "" || tag.Get("protobuf_oneof") != "" {
			get(st.Field(i))
		}
		if it, ok := st.Field(i).Type().Underlying().(*types.Interface); ok && tag.Get("protobuf_oneof") != "" {
			for _, n := range p.Scope().Names() {
				w := p.Scope().Lookup(n).Type()
				ws, ok := w.Underlying().(*types.Struct)
				if _, tn := p.Scope().Lookup(n).(*types.TypeName); tn && ok && ws.NumFields() == 1 && types.Implements(types.NewPointer(w), it) {
					get(ws.Field(0))
				}
			}
		}
	}
}

type importer struct {
	fset    *token.FileSet
	files   map[string][]*ast.File
	done    map[string]*types.Package
	problem func(string)
}

type unknownPackage struct{}

func (unknownPackage) Error() string { return "not here" }

func (im *importer) Import(p string) (*types.Package, error) {
	if t, ok := im.done[p]; ok {
		if t == nil {
			im.problem("import cycle through " + p)
			return nil, unknownPackage{}
		}
		return t, nil
	}
	fs := im.files[p]
	if fs == nil {
		return nil, unknownPackage{}
	}
	im.done[p] = nil
	c := types.Config{Importer: im, Error: func(err error) {
		e, ok := err.(types.Error)
		if ok && strings.HasPrefix(e.Msg, "could not import") {
			return
		}
		im.problem(err.Error())
	}}
	t, _ := c.Check(p, im.fset, fs, nil)
	im.done[p] = t
	return t, nil
}
