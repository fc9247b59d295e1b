package psrc

import (
	"fmt"
	"sort"
	"strings"

	"verif/pm"
)

// writer lays out a file; the layout is free and drawn from the file's seed.
type writer struct {
	b     strings.Builder
	r     *pm.Rng
	plain bool
}

var comments = []string{"a comment", "100% of %d", "TODO(x): \"quoted\" 'text'", "message Foo { int32 x = 1; }", "prutalgen generates this", "ünï¢ødé ✓", "`raw`", "{}; [deprecated]", "\\n \\t"}

func (w *writer) f(indent int, s string, a ...any) {
	w.b.WriteString(strings.Repeat([]string{"  ", "\t"}[w.mode()], indent))
	fmt.Fprintf(&w.b, s, a...)
}

func (w *writer) mode() int { return 0 }

func (w *writer) nl() {
	w.b.WriteByte('\n')
	if !w.plain && w.r.P(0.1) {
		w.b.WriteByte('\n')
	}
}

// head writes comments and directives before a definition.
func (w *writer) head(indent int, dirs ...string) {
	if !w.plain && w.r.P(0.25) {
		c := comments[w.r.N(len(comments))]
		if w.r.P(0.3) {
			w.f(indent, "/* %s */\n", c)
		} else {
			w.f(indent, "// %s\n", c)
		}
		if w.r.P(0.2) {
			w.b.WriteByte('\n')
		}
	}
	var ds []string
	for _, d := range dirs {
		if d != "" {
			ds = append(ds, d)
		}
	}
	if len(ds) == 0 {
		return
	}
	if w.r.P(0.5) {
		w.f(indent, "//prutalgen:%s\n", strings.Join(ds, ","))
		return
	}
	for _, d := range ds {
		w.f(indent, "//prutalgen:%s\n", d)
	}
}

func (w *writer) tail(dirs ...string) {
	for _, d := range dirs {
		if d != "" {
			w.b.WriteString(" //prutalgen:" + d)
			w.b.WriteByte('\n')
			return
		}
	}
	if !w.plain && w.r.P(0.12) {
		w.b.WriteString(" // " + comments[w.r.N(len(comments))])
	}
	w.nl()
}

func (w *writer) num(n int64) string {
	if n >= 0 && !w.plain {
		switch w.r.N(30) {
		case 0:
			return fmt.Sprintf("0x%x", n)
		case 1:
			if n > 0 {
				return fmt.Sprintf("0%o", n)
			}
		}
	}
	return fmt.Sprint(n)
}

func (w *writer) str(s string) string {
	q := `"`
	if !w.plain && w.r.P(0.2) {
		q = "'"
	}
	if !w.plain && len(s) > 1 && w.r.P(0.08) { // adjacent literals make one string
		k := 1 + w.r.N(len(s)-1)
		return q + s[:k] + q + []string{" ", "", "\n  ", " /* and */ "}[w.r.N(4)] + q + s[k:] + q
	}
	return q + s + q
}

// custom writes an option prutalgen has nothing to do with.
func (w *writer) custom(ind int) {
	if w.plain || !w.r.P(0.08) {
		return
	}
	n := []string{"(acme.opt)", "(opt).x", "(acme.deep.opt).a.b", "(x.y)"}[w.r.N(4)]
	v := []string{"1", "-2.5e3", "true", `"x\ty\"z" 'w'`, "SOME_VALUE", `{ a: 1, b: "m { }"; c: { d: true } }`, "{ }", "- 7", "inf"}[w.r.N(9)]
	w.f(ind, "option %s = %s;\n", n, v)
}

// gap is what may stand between two tokens.
func (w *writer) gap() string {
	if w.plain || w.r.P(0.97) {
		return " "
	}
	return []string{"  ", "\n\t\t", " /* gap; } */ ", "\t", " // gap {\n"}[w.r.N(5)]
}

// Text is the file's source.
func (f *File) Text(p *Project) string {
	w := &writer{r: pm.NewRng(f.seed)}
	w.plain = w.r.P(0.3)
	var dirs []string
	if f.Unk == 1 {
		dirs = append(dirs, "unknown_fields")
	}
	if f.NoPrefix {
		dirs = append(dirs, "no_enum_prefix")
	}
	if f.NoMap {
		dirs = append(dirs, "no_enum_mapping")
	}
	if w.r.P(0.3) { // a licence that is no part of the file's comment
		w.f(0, "// Copyright\n// all rights reserved\n\n")
	}
	for _, d := range dirs {
		w.f(0, "//prutalgen:%s\n", d)
	}
	w.f(0, "%s =%s%s;", []string{"syntax", "syntax", "edition"}[f.Syntax], w.gap(), w.str([]string{"proto2", "proto3", "2023"}[f.Syntax]))
	w.nl()
	// top-level definitions in any order
	type def struct{ write func() }
	var ds []def
	late := !w.plain && w.r.P(0.25) // statements may be anywhere
	if f.Package != "" {
		pack := func() {
			w.f(0, "package %s;", f.Package)
			w.nl()
		}
		if late && w.r.P(0.3) {
			ds = append(ds, def{pack})
		} else {
			pack()
		}
	}
	var opts []string
	if !f.MOpt {
		opts = append(opts, "option go_package = "+w.str(f.GoOpt)+";")
	}
	if f.Unk == 2 {
		opts = append(opts, "option (gogoproto.goproto_unrecognized_all) = true;")
	}
	if f.Presence != "" {
		opts = append(opts, "option features.field_presence = "+f.Presence+";")
	}
	if f.Encoding != "" {
		opts = append(opts, "option features.repeated_field_encoding = "+f.Encoding+";")
	}
	if w.r.P(0.2) {
		opts = append(opts, `option java_package = "com.example";`)
	}
	if w.r.P(0.1) {
		opts = append(opts, `option optimize_for = SPEED;`)
	}
	imps := func() {
		for _, i := range f.Imports {
			k := ""
			if i.Public {
				k = "public "
			} else if i.Weak {
				k = "weak "
			}
			imp := func() {
				w.f(0, "import %s%s;", k, w.str(i.F.Path))
				w.tail()
			}
			if late && w.r.P(0.5) {
				ds = append(ds, def{imp})
			} else {
				imp()
			}
		}
	}
	if w.r.P(0.5) {
		imps()
		imps = func() {}
	}
	for _, o := range opts {
		opt := func() {
			w.f(0, "%s", o)
			w.tail()
		}
		if late && w.r.P(0.5) {
			ds = append(ds, def{opt})
		} else {
			opt()
		}
	}
	imps()
	w.custom(0)
	w.nl()
	for _, e := range f.Enums {
		ds = append(ds, def{func() { w.enum(0, e) }})
	}
	for _, m := range f.Msgs {
		ds = append(ds, def{func() { w.msg(0, m) }})
	}
	for _, m := range f.Msgs {
		if m.extendable() && w.r.P(0.5) {
			ds = append(ds, def{func() { w.extend(0, m) }})
		}
	}
	for _, s := range f.Services {
		ds = append(ds, def{func() { w.service(p, f, s) }})
	}
	w.shuffle(len(ds), func(i, j int) { ds[i], ds[j] = ds[j], ds[i] })
	for _, d := range ds {
		d.write()
	}
	s := w.b.String()
	if w.r.P(0.2) {
		s = strings.TrimRight(s, "\n")
	}
	if w.r.P(0.1) {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	return s
}

func (w *writer) shuffle(n int, swap func(i, j int)) {
	if w.plain {
		return
	}
	for i := n - 1; i > 0; i-- {
		swap(i, w.r.N(i+1))
	}
}

func (w *writer) enum(ind int, e *Enum) {
	np, nm := "", ""
	if e.NoPrefix {
		np = "no_enum_prefix"
	}
	if e.NoMap {
		nm = "no_enum_mapping"
	}
	w.head(ind, np, nm)
	w.f(ind, "enum %s {", e.Name)
	w.nl()
	seen := map[int32]bool{}
	dup := false
	for _, v := range e.Vals {
		dup = dup || seen[v.Num]
		seen[v.Num] = true
	}
	if dup {
		w.f(ind+1, "option allow_alias = true;\n")
	}
	w.custom(ind + 1)
	for _, v := range e.Vals {
		dir, tdir := "", ""
		if v.NoPrefix && w.r.P(0.5) {
			dir = "no_enum_prefix"
		} else if v.NoPrefix {
			tdir = "no_enum_prefix"
		}
		w.head(ind+1, dir)
		o := ""
		if !w.plain && w.r.P(0.08) {
			o = " [deprecated = true]"
		}
		if v.Num < 0 {
			w.f(ind+1, "%s = -%s%s;", v.Name, w.num(-int64(v.Num)), o)
		} else {
			w.f(ind+1, "%s = %s%s;", v.Name, w.num(int64(v.Num)), o)
		}
		w.tail(tdir)
	}
	w.f(ind, "}")
	w.tail()
}

func scalarName(k pm.Kind) string { return k.ProtoName() }

func (x *Field) typ() string {
	if x.Msg != nil || x.Enum != nil {
		return x.Ref
	}
	return scalarName(x.Kind)
}

func (w *writer) field(ind int, m *Msg, x *Field) {
	dir, tdir := "", ""
	if x.NoPtr == 1 {
		if w.r.P(0.5) {
			dir = "no_pointer"
		} else {
			tdir = "no_pointer"
		}
	}
	w.head(ind, dir)
	var opts []string
	if x.Packed != "" {
		opts = append(opts, "packed = "+x.Packed)
	}
	if x.Presence != "" {
		opts = append(opts, "features.field_presence = "+x.Presence)
	}
	if x.Encoding != "" {
		opts = append(opts, "features.repeated_field_encoding = "+x.Encoding)
	}
	if x.NoPtr == 2 {
		opts = append(opts, "(gogoproto.nullable) = false")
	}
	if !w.plain && w.r.P(0.08) {
		opts = append(opts, "deprecated = true")
	}
	if s := w.deflt(m, x); s != "" {
		opts = append(opts, "default = "+s)
	}
	if !w.plain && w.r.P(0.04) {
		opts = append(opts, []string{`(acme.f) = { a: 1, b: "]" }`, "(f).x = -1", "(acme.s) = 'x' \"y\"", "debug_redact = true"}[w.r.N(4)])
	}
	if !w.plain && w.r.P(0.05) {
		opts = append(opts, `json_name = "j`+fmt.Sprint(x.Num)+`"`)
	}
	w.shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	o := ""
	if len(opts) > 0 {
		o = " [" + strings.Join(opts, ", ") + "]"
	}
	label := ""
	if x.Label != "" {
		label = x.Label + " "
	}
	t := x.typ()
	if x.Map {
		sp := []string{"", " "}[w.r.N(2)]
		t = fmt.Sprintf("map%s<%s%s,%s%s>", "", sp, scalarName(x.Key), " ", t)
	}
	w.f(ind, "%s%s%s%s%s=%s%s%s;", label, t, w.gap(), x.Name, w.gap(), w.gap(), w.num(int64(x.Num)), o)
	w.tail(tdir)
}

func (w *writer) msg(ind int, m *Msg) {
	unk, np := "", ""
	switch m.Unk {
	case 1:
		unk = "unknown_fields"
	case -1:
		unk = "no_unknown_fields"
	}
	if m.NoPtr {
		np = "no_pointer"
	}
	w.head(ind, unk, np)
	w.f(ind, "message %s {", m.Name)
	w.nl()
	var parts []func()
	switch m.Unk {
	case 2, -2:
		w.f(ind+1, "option (gogoproto.goproto_unrecognized) = %v;\n", m.Unk > 0)
	}
	if len(m.Gone) > 0 && w.r.P(0.5) {
		g := append([]int32(nil), m.Gone...)
		sort.Slice(g, func(i, j int) bool { return g[i] < g[j] })
		var s []string
		for _, n := range g {
			s = append(s, w.num(int64(n)))
		}
		w.f(ind+1, "reserved %s;\n", strings.Join(s, ", "))
	}
	if len(m.Gone) == 0 && !w.plain && !m.extendable() && w.r.P(0.1) {
		w.unused(ind+1, m)
	}
	if w.r.P(0.05) {
		w.f(ind+1, "reserved \"old_name\", \"older\";\n")
	}
	w.custom(ind + 1)
	if m.extendable() {
		w.f(ind+1, "extensions %s to max;\n", w.num(int64(m.lastNum()+1)))
		if w.r.P(0.3) {
			parts = append(parts, func() { w.extend(ind+1, m) })
		}
	}
	for _, e := range m.Enums {
		parts = append(parts, func() { w.enum(ind+1, e) })
	}
	for _, q := range m.Msgs {
		parts = append(parts, func() { w.msg(ind+1, q) })
	}
	w.shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	k := w.r.N(len(parts) + 1)
	for _, f := range parts[:k] {
		f()
	}
	for i := 0; i < len(m.Fields); i++ {
		x := m.Fields[i]
		if x.Oneof == "" {
			w.field(ind+1, m, x)
			continue
		}
		w.head(ind + 1)
		w.f(ind+1, "oneof %s {\n", x.Oneof)
		w.custom(ind + 2)
		for ; i < len(m.Fields) && m.Fields[i].Oneof == x.Oneof; i++ {
			w.field(ind+2, m, m.Fields[i])
		}
		i--
		w.f(ind+1, "}\n")
	}
	for _, f := range parts[k:] {
		f()
	}
	if !w.plain && w.r.P(0.05) {
		w.f(ind+1, ";\n")
	}
	w.f(ind, "}")
	w.tail()
}

// unused reserves numbers no field has.
func (w *writer) unused(ind int, m *Msg) {
	num := func(n int32) string {
		switch w.r.N(4) {
		case 0:
			return fmt.Sprintf("0x%x", n)
		case 1:
			return fmt.Sprintf("0%o", n)
		}
		return fmt.Sprint(n)
	}
	used := map[int32]bool{}
	for _, x := range m.Fields {
		used[x.Num] = true
	}
	var s []string
	last := int32(0)
	for i := 0; i < 1+w.r.N(4); i++ {
		from := last + 1 + int32(w.r.N(12))
		if used[from] {
			continue
		}
		last = from
		if w.r.P(0.5) {
			s = append(s, num(from))
			continue
		}
		for w.r.P(0.7) && !used[last+1] {
			last++
		}
		s = append(s, num(from)+" to "+num(last))
	}
	if n := m.lastNum(); w.r.P(0.2) && last < n && n < 1<<29-1 {
		s = append(s, num(n+1)+" to max")
	}
	w.shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
	if len(s) > 0 {
		w.f(ind, "reserved %s;\n", strings.Join(s, ", "))
	}
}

func (w *writer) service(p *Project, f *File, s *Service) {
	w.head(0)
	w.f(0, "service %s {\n", s.Name)
	st := func(b bool) string {
		if b {
			return "stream "
		}
		return ""
	}
	w.custom(1)
	for _, m := range s.Methods {
		w.head(1)
		w.f(1, "rpc%s%s%s(%s%s) returns%s(%s%s)", w.gap(), m.Name, w.may(" "), st(m.SIn), m.InRef, w.may(" "), st(m.SOut), m.OutRef)
		switch {
		case w.r.P(0.3):
			w.f(0, " { option deprecated = true; }")
			w.nl()
		case w.r.P(0.2):
			w.f(0, " {")
			w.nl()
			w.custom(2)
			w.f(1, "}")
			w.tail()
		case w.r.P(0.1):
			w.f(0, " { };")
			w.nl()
		default:
			w.f(0, ";")
			w.tail()
		}
	}
	w.f(0, "}")
	w.tail()
}

func (w *writer) may(s string) string {
	if w.r.P(0.5) {
		return s
	}
	return ""
}

// deflt is the default value a field declares: the wire does not know it.
func (w *writer) deflt(m *Msg, x *Field) string {
	if w.plain || m.File.Syntax == Proto3 || x.Msg != nil || x.Map || x.Label == "repeated" || m.File.Presence != "" || x.Presence != "" || !w.r.P(0.1) {
		return ""
	}
	if x.Enum != nil {
		return x.Enum.Vals[w.r.N(len(x.Enum.Vals))].Name
	}
	switch scalarName(x.Kind) {
	case "string", "bytes":
		return []string{`"abc"`, `''`, `"a\001\x02\"\'" "b"`}[w.r.N(3)]
	case "bool":
		return []string{"true", "false"}[w.r.N(2)]
	case "float", "double":
		return []string{"1.5", "-inf", "nan", "1e9", "-0.0", "7"}[w.r.N(6)]
	case "uint32", "uint64", "fixed32", "fixed64":
		return []string{"0", "17", "0xff", "010"}[w.r.N(4)]
	}
	return []string{"0", "-1", "-0x10", "99"}[w.r.N(4)]
}

// extendable tells if the message declares extension numbers.
func (m *Msg) extendable() bool {
	n := m.lastNum()
	return m.File.Syntax != Proto3 && n < 1<<28 && (n < 18000 || n > 20000) && (n+int32(len(m.Name)))%4 == 0 && len(m.Gone) == 0
}

func (m *Msg) lastNum() int32 {
	n := int32(0)
	for _, x := range m.Fields {
		n = max(n, x.Num)
	}
	return n
}

// extend writes extensions, which are no fields of the message.
func (w *writer) extend(ind int, m *Msg) {
	label := "optional "
	if m.File.Syntax == Edition2023 {
		label = ""
	}
	ref := "." + join(m.File.Package, m.Path())
	w.f(ind, "extend %s {\n", ref)
	for i := 0; i < 1+w.r.N(2); i++ {
		n := m.lastNum() + 20000 + int32(w.r.N(1000)*2+i)
		if w.r.P(0.3) {
			w.f(ind+1, "repeated %s zz_ext%d = %d;\n", []string{"int32", "string", ref}[w.r.N(3)], n, n)
		} else {
			w.f(ind+1, "%s%s zz_ext%d = %d;\n", label, []string{"int32", "string", ref}[w.r.N(3)], n, n)
		}
	}
	w.f(ind, "}\n")
}
