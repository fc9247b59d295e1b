package genworld

import (
	"fmt"
	"path"
	"reflect"
	"sort"
	"strings"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"

	"verif/pm"
	"verif/psrc"
)

// Other code generators use the library for the loaded descriptors.

// checkDescr compares the descriptor of a loaded file with what the file
// declares, as far as the generated code does not say it already.
func checkDescr(p *prutalgen.Proto, f *psrc.File) []string {
	var bad []string
	problem := func(s string, x ...any) {
		if len(bad) < 5 {
			bad = append(bad, fmt.Sprintf(s, x...))
		}
	}
	same := func(what string, is, want any) {
		if is != want {
			problem("%s is %v, not %v", what, is, want)
		}
	}
	full := func(f *psrc.File, s string) string {
		if f.Package == "" {
			return s
		}
		return f.Package + "." + s
	}
	if !strings.HasSuffix(p.ProtoFile, path.Base(f.Path)) {
		problem("the file is %s, not %s", p.ProtoFile, f.Path)
	}
	same("the package", p.Package, f.Package)
	same("the Go import path", p.GoImport, f.GoImport)
	same("the Go package", p.GoPackage, f.GoName)
	same("proto2", p.IsProto2(), f.Syntax == psrc.Proto2)
	same("proto3", p.IsProto3(), f.Syntax == psrc.Proto3)
	same("edition 2023", p.IsEdition2023(), f.Syntax == psrc.Edition2023)
	imports := map[*psrc.Import][]*prutalgen.Import{}
	for _, j := range p.Imports {
		var best *psrc.Import
		for _, i := range f.Imports {
			if strings.HasSuffix(j.ProtoFile, "/"+i.F.Path) && (best == nil || len(i.F.Path) > len(best.F.Path)) {
				best = i
			}
		}
		if best != nil && !strings.Contains(j.ProtoFile, "google/protobuf/") {
			imports[best] = append(imports[best], j)
		}
	}
	for _, i := range f.Imports {
		same("number of imports of "+i.F.Path, len(imports[i]), 1)
		for _, j := range imports[i] {
			same("import of "+i.F.Path+": public", j.Public, i.Public)
			same("import of "+i.F.Path+": Go import path", j.GoImport, i.F.GoImport)
		}
	}
	enums := func(in string, l []*prutalgen.Enum, want []*psrc.Enum) {
		same("number of enums of "+in, len(l), len(want))
		for _, e := range want {
			n := 0
			for _, x := range l {
				if x.Name != e.Name {
					continue
				}
				n++
				same("full name of enum "+e.Name, x.FullName(), full(f, e.Path()))
				same("number of values of "+e.Path(), len(x.Fields), len(e.Vals))
				for i := range x.Fields {
					if i < len(e.Vals) {
						same("a value of "+e.Path(), fmt.Sprint(x.Fields[i].Name, " = ", x.Fields[i].Value), fmt.Sprint(e.Vals[i].Name, " = ", e.Vals[i].Num))
					}
				}
			}
			same("number of enums "+e.Path(), n, 1)
		}
	}
	typ := func(what string, t *prutalgen.Type, k pm.Kind, m *psrc.Msg, e *psrc.Enum) {
		switch {
		case t == nil:
			problem("%s has no type", what)
		case m != nil:
			if x := t.Message(); x == nil || !t.IsMessage() {
				problem("%s is no message", what)
			} else {
				same("type of "+what, x.FullName(), full(m.File, m.Path()))
				same("Go package of "+what, t.GoImport(), m.File.GoImport)
				same("whether the type is from elsewhere of "+what, t.IsExternalType(), m.File.GoImport != f.GoImport)
			}
		case e != nil:
			if x := t.Enum(); x == nil || !t.IsEnum() {
				problem("%s is no enum", what)
			} else {
				same("type of "+what, x.FullName(), full(e.File, e.Path()))
				same("Go package of "+what, t.GoImport(), e.File.GoImport)
				same("whether the type is from elsewhere of "+what, t.IsExternalType(), e.File.GoImport != f.GoImport)
			}
		default:
			same("type of "+what, t.Name, k.ProtoName())
			if t.IsMessage() || t.IsEnum() || t.Message() != nil || t.Enum() != nil {
				problem("%s is not a scalar", what)
			}
		}
	}
	var msgs func(in string, l []*prutalgen.Message, want []*psrc.Msg)
	msgs = func(in string, l []*prutalgen.Message, want []*psrc.Msg) {
		var is []string
		for _, x := range l {
			if !strings.HasPrefix(x.Name, "ZzWell") { // put in by the world
				is = append(is, x.Name)
			}
		}
		if len(is) != len(want) {
			problem("%s has %d messages, not %d: %v", in, len(l), len(want), is)
		}
		for _, m := range want {
			n := 0
			for _, x := range l {
				if x.Name != m.Name {
					continue
				}
				n++
				same("full name of "+m.Path(), x.FullName(), full(f, m.Path()))
				enums(m.Path(), x.Enums, m.Enums)
				msgs(m.Path(), x.Messages, m.Msgs)
				byName := map[string]*prutalgen.Field{}
				for _, y := range x.Fields {
					byName[y.Name] = y
				}
				same("number of fields of "+m.Path(), len(x.Fields), len(m.Fields))
				for _, y := range m.Fields {
					what := m.Path() + "." + y.Name
					z := byName[y.Name]
					if z == nil {
						problem("there is no %s", what)
						continue
					}
					same("number of "+what, z.FieldNumber, y.Num)
					same("map "+what, z.IsMap(), y.Map)
					same("repeated "+what, z.Repeated, y.Label == "repeated")
					same("required "+what, z.Required, y.Label == "required" || y.Presence == "LEGACY_REQUIRED")
					same("optional "+what, z.Optional, y.Label == "optional")
					one := ""
					if z.Oneof != nil {
						one = z.Oneof.Name
					}
					same("oneof of "+what, one, y.Oneof)
					if y.Map {
						typ("key of "+what, z.Key, y.Key, nil, nil)
						same("message "+what, z.IsMessage(), false)
						same("enum "+what, z.IsEnum(), false)
					} else {
						same("message "+what, z.IsMessage(), y.Msg != nil)
						same("enum "+what, z.IsEnum(), y.Enum != nil)
					}
					typ(what, z.Type, y.Kind, y.Msg, y.Enum)
					// the Go type is compared with the schema in the generated code
					same("pointer "+what, z.IsPointer(), strings.HasPrefix(z.GoTypeName(), "*"))
					if y.Label == "repeated" {
						same("packed "+what, z.IsPackedEncoding(), y.Card(m) == pm.Packed)
					}
				}
			}
			same("number of messages "+m.Path(), n, 1)
		}
	}
	enums("the file", p.Enums, f.Enums)
	msgs("the file", p.Messages, f.Msgs)
	same("number of services", len(p.Services), len(f.Services))
	for _, s := range f.Services {
		n := 0
		for _, x := range p.Services {
			if x.Name != s.Name {
				continue
			}
			n++
			same("number of methods of "+s.Name, len(x.Methods), len(s.Methods))
			for i, m := range s.Methods {
				if i >= len(x.Methods) {
					break
				}
				y := x.Methods[i]
				what := s.Name + "." + m.Name
				same("name of "+what, y.Name, m.Name)
				if y.Service != x {
					problem("%s belongs to another service", what)
				}
				typ("request of "+what, y.Request, 0, m.In, nil)
				typ("response of "+what, y.Return, 0, m.Out, nil)
				same("request stream of "+what, y.RequestStream, m.SIn)
				same("response stream of "+what, y.ReturnStream, m.SOut)
			}
		}
		same("number of services "+s.Name, n, 1)
	}
	return bad
}

// describe is everything which a descriptor tells its users.
func describe(p *prutalgen.Proto) string {
	d := &describer{seen: map[any]int{}}
	d.value(reflect.ValueOf(p), 0)
	return d.b.String()
}

type describer struct {
	b    strings.Builder
	seen map[any]int
}

func (d *describer) value(v reflect.Value, ind int) {
	nl := func(n int) { d.b.WriteString("\n" + strings.Repeat(" ", n)) }
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		if n, ok := d.seen[v.Interface()]; ok {
			fmt.Fprintf(&d.b, "#%d", n)
			return
		}
		d.seen[v.Interface()] = len(d.seen)
		fmt.Fprintf(&d.b, "%s #%d", v.Type().Elem().Name(), len(d.seen)-1)
		switch x := v.Interface().(type) {
		case *prutalgen.Type: // what it is resolved to is behind methods
			nl(ind + 1)
			fmt.Fprintf(&d.b, "%s = %s, %s, external %v", x.Name, x.GoName(), x.EncodingType(), x.IsExternalType())
			if m := x.Message(); m != nil {
				d.value(reflect.ValueOf(m), ind+1)
			}
			if e := x.Enum(); e != nil {
				d.value(reflect.ValueOf(e), ind+1)
			}
			return
		case *prutalgen.Field:
			nl(ind + 1)
			fmt.Fprintf(&d.b, "%s packed %v, %s, pointer %v, zero %s", x, x.IsPackedEncoding(), x.GoTypeName(), x.IsPointer(), x.GoZero())
		}
		d.value(v.Elem(), ind)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				nl(ind + 1)
				d.b.WriteString(f.Name + ": ")
				d.value(v.Field(i), ind+1)
			}
		}
	case reflect.Slice:
		fmt.Fprintf(&d.b, "%d", v.Len())
		for i := 0; i < v.Len(); i++ {
			nl(ind + 1)
			d.value(v.Index(i), ind+1)
		}
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			l = append(l, fmt.Sprint(k, ": ", v.MapIndex(k)))
		}
		sort.Strings(l)
		fmt.Fprintf(&d.b, "%q", l)
	case reflect.String:
		fmt.Fprintf(&d.b, "%q", v.String())
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(&d.b, v.Interface())
	case reflect.Interface:
		d.value(v.Elem(), ind)
	}
}
