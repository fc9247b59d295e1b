package main

import (
	"fmt"
	"go/format"
	"strings"

	"verif/pm"
)

func elemType(k pm.Kind, enum string) string {
	if k == pm.Enum {
		if enum != "" {
			return enum
		}
		return "Enum"
	}
	return k.GoType()
}

// ownType is the name of a user's own type of a kind.
func ownType(k pm.Kind) string {
	t := k.GoType()
	return "My" + strings.ToUpper(t[:1]) + t[1:]
}

const ownTypes = `
type (
	MyInt32   int32
	MyInt64   int64
	MyUint32  uint32
	MyUint64  uint64
	MyFloat32 float32
	MyFloat64 float64
	MyBool    bool
	MyString  string
)

`

// emitTypes writes the Go structs of the families, or of those in the other
// package.
func emitTypes(fams []*pm.Family, seed uint64, extra int, alt bool) (string, error) {
	var b strings.Builder
	if alt {
		b.WriteString("package gentypes\n\nimport \"reflect\"\n\ntype Enum int32\n\n" + ownTypes)
	} else {
		fmt.Fprintf(&b, "package gentypes\n\nimport \"reflect\"\n\ntype Enum int32\n\nfunc init() { CatSeed, CatExtra = %d, %d }\n\n%s", seed, extra, ownTypes)
	}
	var regs strings.Builder
	for fi, f := range fams {
		if f.Alt != alt {
			continue
		}
		for mi, m := range f.Messages {
			emitMsg(&b, &regs, m, fi*31+mi)
		}
	}
	fmt.Fprintf(&b, "func init() {\n%s}\n", regs.String())
	out, err := format.Source([]byte(b.String()))
	if err != nil {
		return "", fmt.Errorf("emitter: %w", err)
	}
	return string(out), nil
}

func emitMsg(b, regs *strings.Builder, m *pm.Message, salt int) {
	var decl, wraps strings.Builder
	var wl []string
	done := map[string]bool{}
	fmt.Fprintf(b, "type %s struct {\n", m.GoName)
	if m.Bare == 2 {
		b.WriteString("\t_ [0]uint64\n")
	}
	if salt%3 == 0 && m.Bare == 0 {
		b.WriteString("\tstate [2]uintptr\n")
	}
	if salt%4 == 1 && m.Bare == 0 {
		b.WriteString("\tsizeCache int32\n")
	}
	// things beside the message fields
	ng := 0
	guard := func(when bool) {
		if when && m.Bare == 0 {
			fmt.Fprintf(b, "\tguard%d %s\n", ng, []string{"uint32", "uint8", "uint64", "[3]byte", "uint16"}[(salt+ng)%5])
			ng++
		}
	}
	guard(salt%6 == 2)
	switch {
	case m.Bare != 0:
	case salt%7 == 3:
		b.WriteString("\tHolder\n") // whose unknown fields are not the message's
	case salt%7 == 5 && m.Unk == pm.UnkNone:
		b.WriteString("\tXXX_unrecognized string\n")
	case salt%7 == 6 && m.Unk == pm.UnkXXX:
		b.WriteString("\tunknownFields [2]uint16\n")
	}
	unk := func() {
		switch m.Unk {
		case pm.UnkBytes:
			b.WriteString("\tunknownFields []byte\n")
		case pm.UnkXXX:
			b.WriteString("\tXXX_NoUnkeyedLiteral struct{}\n\tXXX_unrecognized []byte\n")
		case pm.UnkPtr:
			b.WriteString("\tunknownFields *[]byte\n")
		}
	}
	if salt%5 < 2 {
		unk()
	}
	for i, f := range m.Fields {
		guard(salt%3 == 1 && i > 0 && (salt/3+i)%2 == 0 && (f.Card != pm.Oneof || !done[f.Oneof]))
		if f.Bad != "" {
			at := func(s string) string { return strings.ReplaceAll(s, "@", m.GoName) }
			fmt.Fprintf(b, "\t%s\n", at(f.Bad))
			if f.BadDef != "" {
				fmt.Fprintf(&decl, "%s\n\n", at(f.BadDef))
			}
			if f.BadOne != "" {
				fmt.Fprintf(&wraps, "%s, ", at(f.BadOne))
			}
			continue
		}
		if f.Card == pm.Oneof {
			in := "is" + m.GoName + "_" + f.Oneof
			if !done[f.Oneof] {
				done[f.Oneof] = true
				fmt.Fprintf(b, "\t%s %s `protobuf_oneof:\"%s\"`\n", f.Oneof, in, strings.ToLower(f.Oneof))
				fmt.Fprintf(&decl, "type %s interface{ %s() }\n\n", in, in)
			}
			w := m.GoName + "_" + f.GoName
			ft := ""
			if f.Kind == pm.Message_ {
				ft = "*" + f.Msg.GoName
				if f.NoPtr {
					ft = f.Msg.GoName
				}
			} else if f.Named {
				ft = ownType(f.Kind)
			} else {
				ft = elemType(f.Kind, f.EnumT)
			}
			fmt.Fprintf(&decl, "type %s struct {\n\t%s %s `protobuf:\"%s,%d,opt,name=%s,oneof\"`\n}\n\nfunc (*%s) %s() {}\n\n",
				w, f.GoName, ft, f.Kind.Tag(), f.Num, f.Name, w, in)
			wl = append(wl, w)
			fmt.Fprintf(&wraps, "(*%s)(nil), ", w)
			continue
		}
		et := ""
		if f.Kind == pm.Message_ {
			et = "*" + f.Msg.GoName
			if f.NoPtr {
				et = f.Msg.GoName
			}
		} else if f.Named {
			et = ownType(f.Kind)
		} else {
			et = elemType(f.Kind, f.EnumT)
		}
		label, more, kv := "opt", "", ""
		switch f.Card {
		case pm.Optional:
			if f.Ptr || f.Kind != pm.Bytes && f.Kind != pm.Message_ {
				et = "*" + et
			}
			if salt%2 == 0 {
				more = ",proto3,oneof"
			}
		case pm.Required:
			label = "req"
			if f.Ptr || f.Kind != pm.Bytes && f.Kind != pm.Message_ {
				et = "*" + et
			}
		case pm.Repeated:
			label, et = "rep", "[]"+et
		case pm.Packed:
			label, et, more = "rep", "[]"+et, ",packed"
		case pm.Map:
			label = "rep"
			kt := f.Key.GoType()
			if f.NamedK {
				kt = ownType(f.Key)
			}
			et = "map[" + kt + "]" + et
			kv = fmt.Sprintf(" protobuf_key:\"%s,1,opt,name=key\" protobuf_val:\"%s,2,opt,name=value\"", f.Key.Tag(), f.Kind.Tag())
		case pm.Implicit:
			more = ",proto3"
		}
		tag := f.Kind.Tag()
		if f.Card == pm.Map {
			tag = "bytes"
		}
		fmt.Fprintf(b, "\t%s %s `protobuf:\"%s,%d,%s,name=%s%s\"%s json:\"%s,omitempty\"`\n", f.GoName, et, tag, f.Num, label, f.Name, more, kv, f.Name)
	}
	guard(salt%3 == 1)
	if salt%5 >= 2 {
		unk()
	}
	b.WriteString("}\n\n")
	b.WriteString(decl.String())
	if wraps.Len() > 0 {
		switch m.Style {
		case 0:
			fmt.Fprintf(b, "func (*%s) XXX_OneofWrappers() []any {\n\tHook(%q)\n\treturn []any{%s}\n}\n\n", m.GoName, m.Name, wraps.String())
		default:
			fmt.Fprintf(b, "func (*%s) ProtoReflect() *reflectMsg {\n\tHook(%q)\n\treturn &reflectMsg{mi: &protoImpl{OneofWrappers: []any{%s}}}\n}\n\n", m.GoName, m.Name, wraps.String())
		}
	}
	if salt%4 == 2 { // a method makes the descriptor of the type longer
		fmt.Fprintf(b, "func (*%s) Extra() {}\n\n", m.GoName)
	}
	fmt.Fprintf(regs, "\treg(%q, reflect.TypeOf(%s{})", m.Name, m.GoName)
	for _, w := range wl {
		fmt.Fprintf(regs, ", reflect.TypeOf(%s{})", w)
	}
	regs.WriteString(")\n")
}
