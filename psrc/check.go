package psrc

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"reflect"
	"strconv"
	"strings"

	"verif/pm"
)

// CheckGo compares generated code with what the file declares: every message,
// field and enum value with its number, kind, label and type. It returns what
// differs.
func (f *File) CheckGo(src []byte) []string {
	fset := token.NewFileSet()
	a, err := parser.ParseFile(fset, "x.go", src, parser.SkipObjectResolution)
	if err != nil {
		return []string{"it is not valid Go: " + err.Error()}
	}
	var bad []string
	problem := func(s string, x ...any) {
		if len(bad) < 5 {
			bad = append(bad, fmt.Sprintf(s, x...))
		}
	}
	if a.Name.Name != f.GoName {
		problem("package is %s, not %s", a.Name.Name, f.GoName)
	}
	imports := map[string]string{} // local name -> path
	for _, i := range a.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		n := p[strings.LastIndexByte(p, '/')+1:]
		if i.Name != nil {
			n = i.Name.Name
		}
		imports[n] = p
	}
	structs := map[string]*ast.StructType{}
	types := map[string]ast.Expr{}
	consts := map[string]ast.Expr{}
	ctypes := map[string]ast.Expr{}
	methods := map[string][]string{} // method name -> receivers
	for _, d := range a.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv != nil && len(fd.Recv.List) == 1 {
			t := fd.Recv.List[0].Type
			if st, ok := t.(*ast.StarExpr); ok {
				t = st.X
			}
			if id, ok := t.(*ast.Ident); ok {
				methods[fd.Name.Name] = append(methods[fd.Name.Name], id.Name)
			}
		}
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range g.Specs {
			switch x := s.(type) {
			case *ast.TypeSpec:
				if st, ok := x.Type.(*ast.StructType); ok {
					structs[x.Name.Name] = st
				}
				types[x.Name.Name] = x.Type
			case *ast.ValueSpec:
				if g.Tok == token.CONST {
					for i, n := range x.Names {
						if i < len(x.Values) {
							consts[n.Name] = x.Values[i]
							ctypes[n.Name] = x.Type
						}
					}
				}
			}
		}
	}
	// qualified type name as import path and name
	named := func(e ast.Expr) (string, string) {
		switch x := e.(type) {
		case *ast.Ident:
			return "", x.Name
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				return imports[id.Name], x.Sel.Name
			}
		}
		return "?", "?"
	}
	is := func(e ast.Expr, imp, name string) bool {
		p, n := named(e)
		if imp == f.GoImport {
			imp = ""
		}
		return p == imp && n == name
	}
	basic := func(e ast.Expr, name string) bool {
		if name == "[]byte" {
			at, ok := e.(*ast.ArrayType)
			return ok && at.Len == nil && is(at.Elt, "", "byte")
		}
		return is(e, "", name)
	}
	elem := func(m *Msg, x *Field, e ast.Expr) bool {
		switch {
		case x.Msg != nil:
			if st, ok := e.(*ast.StarExpr); ok {
				return !(x.byValue(m) && x.Oneof == "") && is(st.X, x.Msg.File.GoImport, x.Msg.GoName)
			}
			return x.byValue(m) && x.Oneof == "" && is(e, x.Msg.File.GoImport, x.Msg.GoName)
		case x.Enum != nil:
			return is(e, x.Enum.File.GoImport, x.Enum.GoName)
		}
		return basic(e, x.Kind.GoType())
	}
	typeOK := func(m *Msg, x *Field, e ast.Expr) bool {
		switch x.pmf.Card {
		case pm.Map:
			mt, ok := e.(*ast.MapType)
			return ok && basic(mt.Key, x.Key.GoType()) && elem(m, x, mt.Value)
		case pm.Repeated, pm.Packed:
			at, ok := e.(*ast.ArrayType)
			return ok && at.Len == nil && elem(m, x, at.Elt)
		case pm.Optional, pm.Required:
			if x.Msg != nil || x.Kind == pm.Bytes {
				return elem(m, x, e)
			}
			st, ok := e.(*ast.StarExpr)
			return ok && elem(m, x, st.X)
		}
		return elem(m, x, e)
	}
	fieldNo := func(tag string) int32 {
		for _, s := range strings.Split(tag, ",") {
			if n, err := strconv.ParseInt(s, 10, 32); err == nil {
				return int32(n)
			}
		}
		return -1
	}
	tagOf := func(fl *ast.Field) reflect.StructTag {
		if fl.Tag == nil {
			return ""
		}
		s, _ := strconv.Unquote(fl.Tag.Value)
		return reflect.StructTag(s)
	}
	var msg func(m *Msg)
	msg = func(m *Msg) {
		st := structs[m.GoName]
		if st == nil {
			problem("no type %s for message %s", m.GoName, m.Path())
			return
		}
		byNum := map[int32]*ast.Field{}
		iface := map[string]map[string]bool{} // oneof -> types of its fields
		unk := false
		for _, fl := range st.Fields.List {
			t := tagOf(fl)
			for _, n := range fl.Names {
				if n.Name == "unknownFields" || n.Name == "XXX_unrecognized" {
					unk = true
				}
			}
			if s := t.Get("protobuf"); s != "" {
				n := fieldNo(s)
				if byNum[n] != nil {
					problem("%s has two fields with number %d", m.GoName, n)
				}
				byNum[n] = fl
			}
			if s := t.Get("protobuf_oneof"); s != "" {
				iface[s] = map[string]bool{}
				if id, ok := fl.Type.(*ast.Ident); ok {
					if it, ok := types[id.Name].(*ast.InterfaceType); ok {
						for _, im := range it.Methods.List {
							for _, n := range im.Names {
								for _, w := range methods[n.Name] {
									iface[s][w] = true
								}
							}
						}
					}
				}
			}
		}
		if unk != (m.PM.Unk != pm.UnkNone) {
			problem("%s keeps unknown fields: %v, by the schema %v", m.GoName, unk, !unk)
		}
		seen := 0
		for _, x := range m.Fields {
			fl := byNum[x.Num]
			if x.Oneof != "" {
				if iface[x.Oneof] == nil {
					problem("%s has no field of oneof %s", m.GoName, x.Oneof)
				}
				fl = nil
				for n := range iface[x.Oneof] {
					w := structs[n]
					if w == nil || len(w.Fields.List) != 1 {
						continue
					}
					if t := tagOf(w.Fields.List[0]).Get("protobuf"); t != "" && fieldNo(t) == x.Num && strings.Contains(t+",", ",name="+x.Name+",") {
						fl = w.Fields.List[0]
						break
					}
				}
			} else {
				seen++
			}
			if fl == nil {
				problem("%s has no field for %s = %d", m.GoName, x.Name, x.Num)
				continue
			}
			t := tagOf(fl)
			if e := pm.TagProblem(x.pmf, t.Get("protobuf"), t.Get("protobuf_key"), t.Get("protobuf_val")); e != "" {
				problem("%s, field %s = %d: %s (tag %s)", m.GoName, x.Name, x.Num, e, t)
			}
			if !typeOK(m, x, fl.Type) {
				problem("%s, field %s = %d: the Go type is wrong (%s)", m.GoName, x.Name, x.Num, string(src[fset.Position(fl.Type.Pos()).Offset:fset.Position(fl.Type.End()).Offset]))
			}
		}
		if len(byNum) > seen {
			problem("%s has %d tagged fields for %d declared ones", m.GoName, len(byNum), seen)
		}
		for _, c := range m.Msgs {
			msg(c)
		}
		for _, e := range m.Enums {
			e.checkGo(types, consts, ctypes, problem)
		}
	}
	for _, m := range f.Msgs {
		msg(m)
	}
	for _, e := range f.Enums {
		e.checkGo(types, consts, ctypes, problem)
	}
	return bad
}

func (e *Enum) checkGo(types, consts, ctypes map[string]ast.Expr, problem func(string, ...any)) {
	if id, ok := types[e.GoName].(*ast.Ident); !ok || id.Name != "int32" {
		problem("no type %s for enum %s", e.GoName, e.Path())
		return
	}
	for _, v := range e.Vals {
		x := consts[v.GoName]
		if x == nil {
			problem("enum %s has no constant %s", e.GoName, v.GoName)
			continue
		}
		if id, ok := ctypes[v.GoName].(*ast.Ident); ok && id.Name != e.GoName {
			problem("constant %s is no %s", v.GoName, e.GoName)
		}
		if n, ok := intOf(x); !ok || n != int64(v.Num) {
			problem("constant %s is %d, not %d", v.GoName, n, v.Num)
		}
	}
}

func intOf(e ast.Expr) (int64, bool) {
	switch x := e.(type) {
	case *ast.BasicLit:
		return constant.Int64Val(constant.ToInt(constant.MakeFromLiteral(x.Value, x.Kind, 0)))
	case *ast.UnaryExpr:
		n, ok := intOf(x.X)
		if x.Op == token.SUB {
			n = -n
		}
		return n, ok
	case *ast.ParenExpr:
		return intOf(x.X)
	case *ast.CallExpr:
		if len(x.Args) == 1 {
			return intOf(x.Args[0])
		}
	}
	return 0, false
}

// AllMsgs are a file's messages, nested ones too.
func (f *File) AllMsgs() []*Msg {
	var l []*Msg
	var walk func(ms []*Msg)
	walk = func(ms []*Msg) {
		for _, m := range ms {
			l = append(l, m)
			walk(m.Msgs)
		}
	}
	walk(f.Msgs)
	return l
}
