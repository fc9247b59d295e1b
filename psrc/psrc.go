// Package psrc makes schema projects: sets of .proto files as text together
// with what they mean, worked out from the protobuf language alone.
package psrc

import (
	"fmt"
	"sort"
	"strings"

	"verif/pm"
)

const (
	Proto2 = iota
	Proto3
	Edition2023
)

type Project struct {
	Name  string
	Roots []string // include directories
	Files []*File  // imports come before importers
	Msgs  []*Msg   // all, outer before inner
	Enums []*Enum
	Fam   *pm.Family // the same messages as reference schemas
}

type Import struct {
	F      *File
	Public bool
	Weak   bool
}

type File struct {
	Path     string // as imported
	Root     string
	Syntax   int
	Package  string
	GoImport string
	GoName   string // Go package name
	GoOpt    string // go_package value
	MOpt     bool   // Go package given by an M option instead
	Imports  []*Import
	Enums    []*Enum
	Msgs     []*Msg
	Unk      int    // 0 no, 1 directive, 2 gogoproto option
	Presence string // edition features at file level
	Encoding string
	NoPrefix bool
	NoMap    bool
	Services []*Service
	seed     uint64 // layout
}

type Service struct {
	Name    string
	Methods []*Method
}

type Method struct {
	Name      string
	In, Out   *Msg
	SIn, SOut bool
	// how the types are named
	InRef, OutRef string
}

type Msg struct {
	Name   string
	File   *File
	Parent *Msg
	Msgs   []*Msg
	Enums  []*Enum
	Fields []*Field
	Gone   []int32 // numbers other versions use
	Unk    int     // 0 as the file, 1/-1 directive on/off, 2/-2 option on/off
	NoPtr  bool    // directive for all fields
	GoName string
	PM     *pm.Message
}

type EnumVal struct {
	Name     string
	Num      int32
	GoName   string
	NoPrefix bool
}

type Enum struct {
	Name     string
	File     *File
	Parent   *Msg
	Vals     []EnumVal
	NoPrefix bool
	NoMap    bool
	GoName   string
}

type Field struct {
	Name     string
	Num      int32
	Label    string // "", optional, required, repeated
	Kind     pm.Kind
	Map      bool
	Key      pm.Kind
	Msg      *Msg
	Enum     *Enum
	Oneof    string
	Packed   string // packed option: "", true, false
	Presence string // edition features
	Encoding string
	NoPtr    int // 1 directive, 2 gogoproto option
	Ref      string
	pmf      *pm.Field
}

// Full is the name after the package.
func (m *Msg) Path() string {
	if m.Parent != nil {
		return m.Parent.Path() + "." + m.Name
	}
	return m.Name
}

func (e *Enum) Path() string {
	if e.Parent != nil {
		return e.Parent.Path() + "." + e.Name
	}
	return e.Name
}

func join(a, b string) string {
	if a == "" {
		return b
	}
	return a + "." + b
}

// ---- names -----------------------------------------------------------------

func lower(c byte) bool { return 'a' <= c && c <= 'z' }

// camel is protoc-gen-go's rule for Go names.
func camel(s string) string {
	var b []byte
	up := true // the next lower-case letter starts a word
	for i := 0; i < len(s); i++ {
		c := s[i]
		nextLower := i+1 < len(s) && lower(s[i+1])
		switch {
		case c == '.':
			if !nextLower {
				b = append(b, '_')
			}
			up = true
		case c == '_' && (i == 0 || s[i-1] == '.'):
			b = append(b, 'X')
			up = true
		case c == '_':
			if !nextLower {
				b = append(b, '_')
			}
			up = true
		case c >= '0' && c <= '9':
			b = append(b, c)
			up = true
		case lower(c) && up:
			b = append(b, c-'a'+'A')
			up = false
		default:
			b = append(b, c)
			up = false
		}
	}
	return string(b)
}

var typeWords = []string{"User", "Order", "Item", "Meta", "Node", "Leaf", "Conf", "Req", "Event", "foo_bar", "Data2", "base", "RespV1", "URLInfo", "X", "Is", "A1b",
	"streamed", "service", "max", "returnsX", "optionalX", "int32x", "map_x", "reservedName",
	"User_", "Order_", "Item_", "Meta_", "Leaf_", "M1_2", "M12", "M1_12", "M_112"}
var fieldWords = []string{"id", "name", "value", "items", "parent", "f", "user_id", "fooBar", "data_2", "type", "count", "Title", "a1b", "URL", "x", "map_of", "range", "func",
	"reset", "string", "marshal", "unmarshal", "proto_message", "descriptor", "get_id", "get_name", "unknown_fields", "message", "state", "size_cache", "package", "extension_map", "user", "order", "item", "meta", "node", "leaf",
	"optional", "repeated", "map", "stream", "returns", "rpc", "import", "oneof", "enum", "reserved", "max", "to", "syntax", "weak", "public", "option", "service", "stream_id", "n1_2", "n12", "n_1_2"}
var valWords = []string{"ZERO", "ONE", "TWO", "ACTIVE", "off", "Max", "MIN_1", "UNKNOWN", "LAST", "neg"}

type namer struct {
	used map[string]bool // Go identifiers of a package
}

// ---- generation ------------------------------------------------------------

type Opts struct {
	Base   string // Go import path prefix
	Files  int
	Msgs   int // per file, at most
	Fields int
	AllUnk bool
	Simple bool // smaller, no directives by value
}

// Gen makes a project, a pure function of its arguments.
func Gen(name string, seed uint64, o Opts) *Project {
	r := pm.NewRng(seed)
	p := &Project{Name: name, Roots: []string{"inc"}}
	if r.P(0.3) {
		p.Roots = append(p.Roots, "third_party/inc")
	}
	nf := 1 + r.N(o.Files)
	pkgs := []string{"", "acme", "acme.v1", "acme.common", "zeta", "zeta.v1"}
	dirs := []string{"", "a/", "b/", "a/v1/", "b/v1/", "c-d/"}
	names := map[string]*namer{}
	paths := map[string]bool{}
	imp := map[string][]string{} // Go import graph
	for i := 0; i < nf; i++ {
		f := &File{Root: p.Roots[r.N(len(p.Roots))], Syntax: r.Pick(3, 5, 3), seed: r.U64()}
		f.Package = pkgs[r.N(len(pkgs))]
		for {
			f.Path = dirs[r.N(len(dirs))] + []string{"api", "types", "model", "common", "user_api", "v1"}[r.N(6)] + ".proto"
			if r.P(0.2) {
				f.Path = strings.TrimSuffix(f.Path, ".proto") + fmt.Sprint(i) + ".proto"
			}
			if !paths[f.Path] {
				paths[f.Path] = true
				break
			}
		}
		for _, g := range p.Files {
			if r.P(0.45) {
				f.Imports = append(f.Imports, &Import{F: g, Public: r.P(0.2), Weak: r.P(0.05)})
			}
		}
		if r.P(0.3) { // import order is free
			for a := range f.Imports {
				b := r.N(a + 1)
				f.Imports[a], f.Imports[b] = f.Imports[b], f.Imports[a]
			}
		}
		// the Go package: its own, or an earlier file's
		placed := false
		if i > 0 && r.P(0.35) {
			g := p.Files[r.N(i)]
			edges := map[string]bool{}
			for _, v := range f.visible() {
				if v.GoImport != g.GoImport {
					edges[v.GoImport] = true
				}
			}
			cyc := false
			for e := range edges {
				cyc = cyc || reaches(imp, e, g.GoImport, map[string]bool{})
			}
			if !cyc {
				f.GoImport, f.GoName, f.GoOpt = g.GoImport, g.GoName, g.GoOpt
				placed = true
			}
		}
		if !placed {
			last := []string{"v1", "api", "types", "common", "foo-go", "model.v2", "strconv", ""}[r.Pick(4, 3, 3, 3, 2, 1, 1, 2)]
			if last == "" { // what the generated code has other uses for, and what is no name in Go
				last = hardPackages[r.N(len(hardPackages))]
			}
			f.GoImport = fmt.Sprintf("%s/p%d/%s", o.Base, i, last)
			f.GoName = packageName(last)
			f.GoOpt = f.GoImport
			if r.P(0.25) {
				f.GoName = []string{"pb", "apiv1", "common", "types", "mypkg", "x", "string"}[r.N(7)]
				f.GoOpt += ";" + f.GoName
			}
		}
		// a file of the same Go package in the same directory must have another output name
		for {
			clash := false
			for _, g := range p.Files {
				clash = clash || g.GoImport == f.GoImport && base(g.Path) == base(f.Path)
			}
			if !clash {
				break
			}
			delete(paths, f.Path)
			f.Path = strings.TrimSuffix(f.Path, ".proto") + "x.proto"
			paths[f.Path] = true
		}
		f.MOpt = r.P(0.1)
		if names[f.GoImport] == nil {
			names[f.GoImport] = &namer{used: map[string]bool{"strconv": true, "prutal": true}}
		}
		for _, v := range f.visible() {
			if v.GoImport != f.GoImport {
				imp[f.GoImport] = append(imp[f.GoImport], v.GoImport)
			}
		}
		if o.AllUnk {
			f.Unk = 1 + r.N(2)
		} else {
			f.Unk = r.Pick(5, 3, 2)
		}
		if f.Syntax == Edition2023 {
			f.Presence = []string{"", "", "EXPLICIT", "IMPLICIT"}[r.N(4)]
			f.Encoding = []string{"", "", "PACKED", "EXPANDED"}[r.N(4)]
		}
		f.NoPrefix, f.NoMap = r.P(0.1), r.P(0.1)
		p.Files = append(p.Files, f)
		p.decls(f, r, o, names[f.GoImport])
	}
	for _, f := range p.Files {
		p.fields(f, r, o, names[f.GoImport])
	}
	for _, f := range p.Files {
		p.methods(f, r)
	}
	p.finish(name, r)
	return p
}

var hardPackages = []string{"string", "error", "x", "p", "s", "ok", "prutal", "int32", "nil", "type", "func", "2fa", "byte", "bool"}

// packageName is the package name that follows from the last element of an import path.
func packageName(s string) string {
	s = strings.NewReplacer("-", "_", ".", "_").Replace(s)
	switch s {
	case "type", "func", "2fa":
		return "_" + s
	}
	return s
}

func base(s string) string { return s[strings.LastIndexByte(s, '/')+1:] }

func reaches(g map[string][]string, from, to string, seen map[string]bool) bool {
	if from == to {
		return true
	}
	if seen[from] {
		return false
	}
	seen[from] = true
	for _, n := range g[from] {
		if reaches(g, n, to, seen) {
			return true
		}
	}
	return false
}

// visible lists the files whose types f can use besides its own.
func (f *File) visible() []*File {
	var out []*File
	seen := map[*File]bool{}
	var add func(g *File)
	add = func(g *File) {
		if seen[g] {
			return
		}
		seen[g] = true
		out = append(out, g)
		for _, i := range g.Imports {
			if i.Public {
				add(i.F)
			}
		}
	}
	for _, i := range f.Imports {
		add(i.F)
	}
	return out
}

func (p *Project) fullNames() map[string]bool {
	out := map[string]bool{}
	for _, m := range p.Msgs {
		out[join(m.File.Package, m.Path())] = true
	}
	for _, e := range p.Enums {
		out[join(e.File.Package, e.Path())] = true
		sc := e.File.Package
		if e.Parent != nil {
			sc = join(sc, e.Parent.Path())
		}
		for _, v := range e.Vals {
			out[join(sc, v.Name)] = true
		}
	}
	for _, f := range p.Files {
		pk := ""
		for _, s := range strings.Split(f.Package, ".") {
			pk = join(pk, s)
			out[pk] = true
		}
		for _, s := range f.Services {
			out[join(f.Package, s.Name)] = true
		}
	}
	return out
}

// decls makes the messages and enums of a file, without fields.
func (p *Project) decls(f *File, r *pm.Rng, o Opts, nm *namer) {
	var mk func(parent *Msg, depth int) *Msg
	var mkEnum func(parent *Msg)
	mkEnum = func(parent *Msg) {
		taken := p.fullNames()
		sc := f.Package
		pgo := ""
		if parent != nil {
			sc = join(sc, parent.Path())
			pgo = parent.Path() + "."
		}
		for try := 0; try < 40; try++ {
			e := &Enum{File: f, Parent: parent, NoMap: r.P(0.1), NoPrefix: r.P(0.1)}
			e.Name = typeWords[r.N(len(typeWords))] + []string{"", "Kind", "_status", "Enum"}[r.N(4)]
			if try > 20 {
				e.Name += fmt.Sprint(try)
			}
			e.GoName = camel(pgo + e.Name)
			if taken[join(sc, e.Name)] {
				continue
			}
			n := 1 + r.N(5)
			names := map[string]bool{}
			nums := map[int32]bool{}
			for i := 0; i < n; i++ {
				v := EnumVal{Num: int32(r.N(8))}
				switch r.N(6) {
				case 0:
					v.Num = -int32(r.N(100))
				case 1:
					v.Num = []int32{1<<31 - 1, -(1<<31 - 1), -1 << 31, 127, 128, 1 << 20, 19000, 19999, 536870912}[r.N(9)]
				}
				if k := len(e.Vals); k > 0 && r.P(0.1) { // like another one in its low bits
					v.Num = e.Vals[r.N(k)].Num ^ 1<<[]int{7, 8, 15, 16, 24, 31}[r.N(6)]
				}
				if i == 0 && (f.Syntax != Proto2 || r.P(0.5)) {
					v.Num = 0
				}
				v.Name = strings.ToUpper(e.Name) + "_" + valWords[r.N(len(valWords))]
				if r.P(0.5) {
					v.Name = valWords[r.N(len(valWords))]
				}
				if r.P(0.3) {
					v.Name += fmt.Sprint(r.N(10))
				}
				if names[v.Name] || taken[join(sc, v.Name)] || v.Name == e.Name {
					continue
				}
				v.NoPrefix = r.P(0.05)
				switch {
				case e.NoPrefix || f.NoPrefix || v.NoPrefix:
					v.GoName = camel(v.Name)
				case parent != nil:
					v.GoName = parent.GoName + "_" + v.Name
				default:
					v.GoName = e.GoName + "_" + v.Name
				}
				names[v.Name] = true
				nums[v.Num] = true
				e.Vals = append(e.Vals, v)
			}
			if len(e.Vals) == 0 {
				continue
			}
			ids := []string{e.GoName, e.GoName + "_name", e.GoName + "_value"}
			for _, v := range e.Vals {
				ids = append(ids, v.GoName)
			}
			if !nm.take(ids...) {
				continue
			}
			if parent != nil {
				parent.Enums = append(parent.Enums, e)
			} else {
				f.Enums = append(f.Enums, e)
			}
			p.Enums = append(p.Enums, e)
			return
		}
	}
	mk = func(parent *Msg, depth int) *Msg {
		taken := p.fullNames()
		for try := 0; try < 40; try++ {
			m := &Msg{File: f, Parent: parent}
			m.Name = typeWords[r.N(len(typeWords))]
			if try > 15 {
				m.Name += fmt.Sprint(try)
			}
			full := join(f.Package, m.Path())
			if r.P(0.06) && f.Package != "" { // like a part of the package's name
				l := strings.Split(f.Package, ".")
				m.Name = l[r.N(len(l))]
				full = join(f.Package, m.Path())
			}
			if taken[full] {
				continue
			}
			m.GoName = camel(m.Path())
			if !nm.take(m.GoName) {
				continue
			}
			switch {
			case o.AllUnk:
				m.Unk = []int{0, 1, 0, 2}[r.N(4)]
			default:
				m.Unk = []int{0, 1, -1, 2, -2}[r.Pick(6, 2, 1, 1, 1)]
			}
			p.Msgs = append(p.Msgs, m)
			if parent != nil {
				parent.Msgs = append(parent.Msgs, m)
			} else {
				f.Msgs = append(f.Msgs, m)
			}
			for r.P(0.3) {
				mkEnum(m)
			}
			for depth < 3 && r.P(0.35) {
				mk(m, depth+1)
			}
			return m
		}
		return nil
	}
	for r.P(0.5) && len(f.Enums) < 3 {
		mkEnum(nil)
	}
	for i := 1 + r.N(o.Msgs); i > 0; i-- {
		mk(nil, 0)
	}
	for try := 0; try < 5 && r.P(0.35); try++ {
		s := &Service{Name: []string{"Svc", "svc_", "Service"}[r.N(3)] + fmt.Sprint(try)}
		if !p.fullNames()[join(f.Package, s.Name)] {
			f.Services = append(f.Services, s)
		}
	}
}

func (n *namer) take(ids ...string) bool {
	own := map[string]bool{}
	for _, s := range ids {
		if n.used[s] || own[s] {
			return false
		}
		own[s] = true
	}
	for _, s := range ids {
		n.used[s] = true
	}
	return true
}

var keyKinds = []pm.Kind{pm.Int32, pm.Int64, pm.Uint32, pm.Uint64, pm.Sint32, pm.Sint64, pm.Fixed32, pm.Fixed64, pm.Sfixed32, pm.Sfixed64, pm.Bool, pm.String}

func (p *Project) fields(f *File, r *pm.Rng, o Opts, nm *namer) {
	vis := append([]*File{f}, f.visible()...)
	in := map[*File]bool{}
	for _, v := range vis {
		in[v] = true
	}
	var msgs []*Msg
	var enums []*Enum
	for _, m := range p.Msgs {
		if in[m.File] {
			msgs = append(msgs, m)
		}
	}
	for _, e := range p.Enums {
		if in[e.File] {
			enums = append(enums, e)
		}
	}
	for idx, m := range p.Msgs {
		if m.File != f {
			continue
		}
		m.NoPtr = !o.Simple && r.P(0.06)
		n := r.N(o.Fields + 1)
		used := map[int32]bool{}
		names := map[string]bool{}
		oneof, left, nones := "", 0, 0
		for j := 0; j < n; j++ {
			x := &Field{}
			for {
				switch r.Pick(12, 4, 2, 1, 1) {
				case 0:
					x.Num = int32(1 + r.N(15))
				case 1:
					x.Num = int32(16 + r.N(200))
				case 2:
					x.Num = []int32{127, 128, 999, 1000, 1001, 1002, 2047, 2048}[r.N(8)]
				case 3:
					x.Num = int32(2000 + r.N(16000))
				case 4:
					x.Num = []int32{1<<29 - 1, 1<<29 - 2, 18999, 20000, 1 << 28, 262143, 262144}[r.N(7)]
				}
				if !used[x.Num] {
					used[x.Num] = true
					break
				}
			}
			nested := map[string]bool{}
			for _, q := range m.Msgs {
				nested[q.GoName] = true
				names[q.Name] = true // field and nested type are symbols of one scope
			}
			for _, q := range m.Enums {
				nested[q.GoName] = true
				names[q.Name] = true
				for _, v := range q.Vals {
					names[v.Name] = true
				}
			}
			if left == 0 && r.P(0.12) {
				nones++
				for try := 0; ; try++ {
					oneof = []string{"kind", "body", "choice", "result", "id_or_name", "reset", "string", "descriptor", "proto_message", "type"}[r.N(10)]
					if try > 3 {
						oneof += fmt.Sprint(try)
					}
					if !names[oneof] && !names["~"+squash(oneof)] && nm.take("is"+m.GoName+"_"+camel(oneof)) {
						break
					}
				}
				names[oneof], names["~"+squash(oneof)] = true, true
				left = 1 + r.N(4)
			}
			if left > 0 {
				x.Oneof = oneof
				left--
			}
			for try := 0; ; try++ {
				x.Name = fieldWords[r.N(len(fieldWords))]
				if try > 3 {
					x.Name += fmt.Sprint(r.N(30))
				}
				if names[x.Name] || names["~"+squash(x.Name)] {
					continue
				}
				if x.Oneof != "" {
					// the wrapper becomes another name, by rule, where a nested type has it
					var ids []string
					for w := m.GoName + "_" + camel(x.Name); len(ids) < 3; w += "_" {
						if !nested[w] {
							ids = append(ids, w)
						}
					}
					if !nm.take(ids...) {
						continue
					}
				}
				break
			}
			names[x.Name], names["~"+squash(x.Name)] = true, true
			switch {
			case r.P(0.3) && len(msgs) > 0:
				x.Kind, x.Msg = pm.Message_, msgs[r.N(len(msgs))]
			case r.P(0.2) && len(enums) > 0:
				x.Kind, x.Enum = pm.Enum, enums[r.N(len(enums))]
				if x.Enum.File.Syntax == Proto2 && f.Syntax == Proto3 { // not allowed
					x.Kind, x.Enum = pm.Int32, nil
				}
			default:
				x.Kind = pm.Kind(r.N(int(pm.Enum)))
			}
			if x.Oneof == "" {
				switch r.Pick(10, 6, 3) {
				case 0: // singular
					switch f.Syntax {
					case Proto2:
						x.Label = []string{"optional", "optional", "optional", "required"}[r.N(4)]
					case Proto3:
						x.Label = []string{"", "", "optional"}[r.N(3)]
					case Edition2023:
						if x.Msg == nil {
							x.Presence = []string{"", "", "EXPLICIT", "IMPLICIT", "LEGACY_REQUIRED"}[r.N(5)]
							if x.Enum != nil && x.Enum.File.Syntax == Proto2 && x.Presence == "IMPLICIT" || x.Presence == "" && f.Presence == "IMPLICIT" && x.Enum != nil && x.Enum.File.Syntax == Proto2 {
								x.Presence = "EXPLICIT"
							}
						} else if r.P(0.1) {
							x.Presence = "EXPLICIT"
						}
					}
					if x.Label == "required" && x.Msg != nil {
						x.Label = "optional"
					}
				case 1:
					x.Label = "repeated"
					if x.Kind.Packable() {
						if f.Syntax == Edition2023 {
							x.Encoding = []string{"", "", "PACKED", "EXPANDED"}[r.N(4)]
						} else {
							x.Packed = []string{"", "", "true", "false"}[r.N(4)]
						}
					}
				case 2:
					x.Map = true
					x.Key = keyKinds[r.N(len(keyKinds))]
					if x.Enum != nil && x.Enum.Vals[0].Num != 0 { // must start with zero
						x.Enum, x.Kind = nil, pm.String
					}
					names[mapEntry(x.Name)] = true
				}
				if !o.Simple && r.P(0.07) && x.Label != "required" && x.Presence != "LEGACY_REQUIRED" {
					x.NoPtr = 1 + r.N(2)
				}
			}
			if x.Msg != nil && (m.NoPtr || x.NoPtr != 0) {
				// by value: only messages that cannot contain this one
				late := -1
				for k, q := range p.Msgs {
					if q == x.Msg {
						late = k
					}
				}
				if late <= idx && (x.Label != "repeated" && !x.Map) || x.Oneof != "" {
					x.NoPtr = 0
					if m.NoPtr {
						x.Msg, x.Kind = nil, pm.Bytes
					}
				}
			}
			if x.Label == "required" && m.NoPtr {
				x.Label = "optional"
			}
			if x.Presence == "LEGACY_REQUIRED" && m.NoPtr {
				x.Presence = ""
			}
			m.Fields = append(m.Fields, x)
		}
	}
	for _, m := range p.Msgs {
		if m.File == f {
			for _, x := range m.Fields {
				x.Ref = p.ref(m, x, r)
			}
		}
	}
}

func squash(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

func mapEntry(s string) string { return camel(s) + "Entry" }

// lookup resolves a type name as the protobuf language says, from within a
// message or package of a file.
func (p *Project) lookup(in *File, scope, name string) any {
	vis := map[*File]bool{in: true}
	for _, f := range in.visible() {
		vis[f] = true
	}
	types := map[string]any{}
	agg := map[string]bool{}
	for _, x := range p.Msgs {
		if vis[x.File] {
			types[join(x.File.Package, x.Path())] = x
			agg[join(x.File.Package, x.Path())] = true
		}
	}
	for _, x := range p.Enums {
		if vis[x.File] {
			types[join(x.File.Package, x.Path())] = x
		}
	}
	for f := range vis {
		pk := ""
		for _, s := range strings.Split(f.Package, ".") {
			pk = join(pk, s)
			agg[pk] = true
		}
	}
	if strings.HasPrefix(name, ".") {
		return types[name[1:]]
	}
	first, rest, multi := strings.Cut(name, ".")
	for {
		c := join(scope, first)
		if multi {
			if agg[c] {
				return types[c+"."+rest]
			}
		} else if t := types[c]; t != nil {
			return t
		}
		if scope == "" {
			return nil
		}
		if i := strings.LastIndexByte(scope, '.'); i >= 0 {
			scope = scope[:i]
		} else {
			scope = ""
		}
	}
}

// ref chooses how a field names its type.
func (p *Project) ref(m *Msg, x *Field, r *pm.Rng) string {
	if x.Msg == nil && x.Enum == nil {
		return ""
	}
	if s := p.name(m.File, m, x.Msg, x.Enum, r); s != "" {
		return s
	}
	// cannot be named: use something else
	x.Msg, x.Enum = nil, nil
	x.NoPtr = 0
	x.Kind = pm.Int64
	return ""
}

// name chooses a name of a type within a message (or nil) of a file.
func (p *Project) name(in *File, m *Msg, xm *Msg, xe *Enum, r *pm.Rng) string {
	var f *File
	var path string
	var want any
	if xm != nil {
		f, path, want = xm.File, xm.Path(), xm
	} else {
		f, path, want = xe.File, xe.Path(), xe
	}
	scope := in.Package
	if m != nil {
		scope = join(in.Package, m.Path())
	}
	var c []string
	if f.Package == in.Package {
		c = append(c, path)
		if f == in {
			for q := m; q != nil; q = q.Parent {
				if s, ok := strings.CutPrefix(path, q.Path()+"."); ok {
					c = append(c, s, s)
				}
			}
		}
		if f.Package != "" {
			c = append(c, f.Package+"."+path, "."+f.Package+"."+path)
		}
	} else {
		full := join(f.Package, path)
		c = append(c, full, full, "."+full)
		// without what the packages have in common
		for a, b := f.Package, in.Package; ; {
			x, ra, _ := strings.Cut(a, ".")
			y, rb, _ := strings.Cut(b, ".")
			if x != y || ra == "" {
				break
			}
			a, b = ra, rb
			c = append(c, join(a, path))
		}
	}
	// only names that mean the type, and that the generator's documented
	// subset covers: the file itself, its imports by package
	var ok []string
	for _, s := range c {
		if p.lookup(in, scope, s) == want {
			ok = append(ok, s)
		}
	}
	if len(ok) > 0 {
		return ok[r.N(len(ok))]
	}
	return ""
}

// methods gives the services of a file their methods.
func (p *Project) methods(f *File, r *pm.Rng) {
	var ms []*Msg
	for _, m := range p.Msgs {
		if m.File == f {
			ms = append(ms, m)
		}
		for _, g := range f.visible() {
			if m.File == g {
				ms = append(ms, m)
			}
		}
	}
	for _, s := range f.Services {
		for i := r.N(4); i > 0 && len(ms) > 0; i-- {
			x := &Method{Name: []string{"Do", "do_it_", "Get", "X"}[r.N(4)] + fmt.Sprint(i), In: ms[r.N(len(ms))], Out: ms[r.N(len(ms))], SIn: r.P(0.3), SOut: r.P(0.3)}
			x.InRef, x.OutRef = p.name(f, nil, x.In, nil, r), p.name(f, nil, x.Out, nil, r)
			if x.InRef != "" && x.OutRef != "" {
				s.Methods = append(s.Methods, x)
			}
		}
	}
}

// ---- meaning ---------------------------------------------------------------

func (p *Project) finish(name string, r *pm.Rng) {
	p.Fam = &pm.Family{Name: name}
	for _, m := range p.Msgs {
		m.PM = &pm.Message{Name: name + ":" + join(m.File.Package, m.Path()), GoName: m.GoName, Avoid: m.Gone}
		unk := m.File.Unk != 0
		if m.File.Unk == 2 && m.Unk == 0 {
			unk = true
		}
		// a directive on the message, then on the file, then an option on the message, then on the file
		switch {
		case m.Unk == 1 || m.Unk == -1:
			unk = m.Unk > 0
		case m.File.Unk == 1:
			unk = true
		case m.Unk == 2 || m.Unk == -2:
			unk = m.Unk > 0
		}
		if unk {
			m.PM.Unk = pm.UnkBytes
		}
		p.Fam.Messages = append(p.Fam.Messages, m.PM)
	}
	for _, m := range p.Msgs {
		for _, x := range m.Fields {
			f := &pm.Field{Num: x.Num, Name: x.Name, GoName: camel(x.Name), Kind: x.Kind, Card: x.Card(m)}
			if x.Map {
				f.Key = x.Key
			}
			if x.Msg != nil {
				f.Msg = x.Msg.PM
				f.NoPtr = x.byValue(m)
			}
			if x.Enum != nil {
				f.EnumT = x.Enum.GoName
			}
			if x.Oneof != "" {
				f.Oneof = camel(x.Oneof)
			}
			x.pmf = f
			m.PM.Fields = append(m.PM.Fields, f)
		}
		m.PM.Reindex()
	}
}

func (x *Field) byValue(m *Msg) bool { return x.NoPtr != 0 || m.NoPtr }

// Card is the field's cardinality in the Go representation.
func (x *Field) Card(m *Msg) pm.Card {
	f := m.File
	switch {
	case x.Oneof != "":
		return pm.Oneof
	case x.Map:
		return pm.Map
	case x.Label == "repeated":
		if !x.Kind.Packable() {
			return pm.Repeated
		}
		packed := false
		switch f.Syntax {
		case Proto2:
			packed = x.Packed == "true"
		case Proto3:
			packed = x.Packed != "false"
		case Edition2023:
			e := x.Encoding
			if e == "" {
				e = f.Encoding
			}
			packed = e != "EXPANDED"
		}
		if packed {
			return pm.Packed
		}
		return pm.Repeated
	case x.Kind == pm.Message_ || x.byValue(m):
		return pm.Implicit
	case x.Label == "required":
		return pm.Required
	case x.Label == "optional":
		return pm.Optional
	case f.Syntax == Edition2023:
		e := x.Presence
		if e == "" {
			e = f.Presence
		}
		switch e {
		case "IMPLICIT":
			return pm.Implicit
		case "LEGACY_REQUIRED":
			return pm.Required
		}
		return pm.Optional
	}
	return pm.Implicit
}

// ---- versions --------------------------------------------------------------

// Derive makes an older version of the project: some fields and enum values
// are missing.
func (p *Project) Derive(name, base string, seed uint64, keep float64) *Project {
	r := pm.NewRng(seed)
	q := &Project{Name: name, Roots: p.Roots}
	files := map[*File]*File{}
	msgs := map[*Msg]*Msg{}
	enums := map[*Enum]*Enum{}
	old := commonBase(p)
	for _, f := range p.Files {
		g := *f
		g.GoImport = base + strings.TrimPrefix(f.GoImport, old)
		g.GoOpt = base + strings.TrimPrefix(f.GoOpt, old)
		g.Enums, g.Msgs, g.Imports, g.Services = nil, nil, nil, nil
		g.seed = r.U64()
		for _, i := range f.Imports {
			g.Imports = append(g.Imports, &Import{files[i.F], i.Public, i.Weak})
		}
		files[f] = &g
		q.Files = append(q.Files, &g)
	}
	for _, m := range p.Msgs {
		c := *m
		c.File = files[m.File]
		c.Fields, c.Msgs, c.Enums, c.PM = nil, nil, nil, nil
		c.Gone = append([]int32(nil), m.Gone...)
		if m.Parent != nil {
			c.Parent = msgs[m.Parent]
			c.Parent.Msgs = append(c.Parent.Msgs, &c)
		} else {
			c.File.Msgs = append(c.File.Msgs, &c)
		}
		msgs[m] = &c
		q.Msgs = append(q.Msgs, &c)
	}
	for _, e := range p.Enums {
		c := *e
		c.File = files[e.File]
		c.Vals = append([]EnumVal(nil), e.Vals...)
		for len(c.Vals) > 1 && r.P(1-keep) {
			c.Vals = c.Vals[:len(c.Vals)-1]
		}
		if e.Parent != nil {
			c.Parent = msgs[e.Parent]
			c.Parent.Enums = append(c.Parent.Enums, &c)
		} else {
			c.File.Enums = append(c.File.Enums, &c)
		}
		enums[e] = &c
		q.Enums = append(q.Enums, &c)
	}
	for _, m := range p.Msgs {
		c := msgs[m]
		gone := map[string]bool{}
		for _, x := range m.Fields {
			if x.Oneof != "" {
				if _, ok := gone[x.Oneof]; !ok {
					gone[x.Oneof] = !r.P(keep)
				}
			}
		}
		for _, x := range m.Fields {
			k := r.P(keep)
			if x.Oneof != "" {
				k = !gone[x.Oneof] && r.P(0.7)
			}
			if !k {
				c.Gone = append(c.Gone, x.Num)
				continue
			}
			y := *x
			if x.Msg != nil {
				y.Msg = msgs[x.Msg]
			}
			if x.Enum != nil {
				y.Enum = enums[x.Enum]
			}
			c.Fields = append(c.Fields, &y)
		}
	}
	for i, f := range p.Files {
		for _, s := range f.Services {
			c := &Service{Name: s.Name}
			for _, x := range s.Methods {
				y := *x
				y.In, y.Out = msgs[x.In], msgs[x.Out]
				c.Methods = append(c.Methods, &y)
			}
			q.Files[i].Services = append(q.Files[i].Services, c)
		}
	}
	q.finish(name, r)
	return q
}

func commonBase(p *Project) string {
	s := p.Files[0].GoImport
	return s[:strings.LastIndex(s[:strings.LastIndexByte(s, '/')], "/")]
}

// GoPackages lists the project's Go packages in a fixed order.
func (p *Project) GoPackages() []string {
	seen := map[string]bool{}
	var out []string
	for _, f := range p.Files {
		if !seen[f.GoImport] {
			seen[f.GoImport] = true
			out = append(out, f.GoImport)
		}
	}
	sort.Strings(out)
	return out
}

// Output is where a file's code goes below the output directory, with
// paths=import.
func (f *File) Output() string {
	return f.GoImport + "/" + strings.TrimSuffix(base(f.Path), ".proto") + ".pb.go"
}

// Args are the command-line options that the project needs.
func (p *Project) Args(dir string) []string {
	var out []string
	for _, r := range p.Roots {
		out = append(out, "-I", dir+r)
	}
	for _, f := range p.Files {
		if f.MOpt {
			out = append(out, "--go_opt=M"+f.Path+"="+f.GoOpt)
		}
	}
	return out
}

// FieldNames lists the fields of a project, for taking some away.
func (p *Project) FieldNames() []string {
	var out []string
	for _, m := range p.Msgs {
		for _, x := range m.Fields {
			out = append(out, m.PM.Name+"."+x.Name)
		}
	}
	return out
}

// Without is the same project without some fields.
func (p *Project) Without(drop []string) *Project {
	gone := map[string]bool{}
	for _, n := range drop {
		gone[n] = true
	}
	q := p.Derive(p.Name, commonBase(p), 1, 2)
	for i, f := range q.Files {
		f.seed = p.Files[i].seed
		f.Services = nil
	}
	for _, m := range q.Msgs {
		var keep []*Field
		for _, x := range m.Fields {
			if !gone[m.PM.Name+"."+x.Name] {
				keep = append(keep, x)
			}
		}
		m.Fields = keep
	}
	q.finish(p.Name, nil)
	return q
}
