// Package pm is the reference model: protobuf schemas, values and a wire codec
// written from the protobuf specification alone. It shares no code with the
// repository under test and favours the obvious over the fast.
package pm

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
)

type Kind uint8

const (
	Int32 Kind = iota
	Int64
	Uint32
	Uint64
	Sint32
	Sint64
	Fixed32
	Fixed64
	Sfixed32
	Sfixed64
	Float
	Double
	Bool
	String
	Bytes
	Enum
	Message_
	NKinds
)

var kindNames = [...]string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
	"sfixed32", "sfixed64", "float", "double", "bool", "string", "bytes", "enum", "message"}

func (k Kind) String() string { return kindNames[k] }

// ProtoName is the type keyword in a .proto file.
func (k Kind) ProtoName() string { return kindNames[k] }

func (k Kind) Scalar() bool   { return k != Message_ }
func (k Kind) Packable() bool { return k < String || k == Enum }

// wire types
const (
	WVarint = 0
	WI64    = 1
	WLen    = 2
	WSGroup = 3
	WEGroup = 4
	WI32    = 5
)

func (k Kind) Wire() int {
	switch k {
	case Fixed32, Sfixed32, Float:
		return WI32
	case Fixed64, Sfixed64, Double:
		return WI64
	case String, Bytes, Message_:
		return WLen
	}
	return WVarint
}

// Tag is the encoding name used in Go struct tags.
func (k Kind) Tag() string {
	switch k {
	case Sint32:
		return "zigzag32"
	case Sint64:
		return "zigzag64"
	case Fixed32, Sfixed32, Float:
		return "fixed32"
	case Fixed64, Sfixed64, Double:
		return "fixed64"
	case String, Bytes, Message_:
		return "bytes"
	}
	return "varint"
}

// GoType is the Go type of a plain value.
func (k Kind) GoType() string {
	switch k {
	case Int32, Sint32, Sfixed32, Enum:
		return "int32"
	case Int64, Sint64, Sfixed64:
		return "int64"
	case Uint32, Fixed32:
		return "uint32"
	case Uint64, Fixed64:
		return "uint64"
	case Float:
		return "float32"
	case Double:
		return "float64"
	case Bool:
		return "bool"
	case String:
		return "string"
	case Bytes:
		return "[]byte"
	}
	panic("message")
}

type Card uint8

const (
	Implicit Card = iota // singular without presence (scalars); singular message
	Optional             // singular with presence
	Required
	Repeated // unpacked
	Packed
	Map
	Oneof
)

var cardNames = [...]string{"implicit", "optional", "required", "repeated", "packed", "map", "oneof"}

func (c Card) String() string { return cardNames[c] }

type Field struct {
	Num    int32
	Name   string // proto name
	GoName string
	Kind   Kind
	Card   Card
	Key    Kind     // Map
	Msg    *Message // Message_
	EnumT  string   // proto enum type name, when declared (C12)
	Oneof  string   // Go name of the oneof field
	NoPtr  bool     // message held by value
	Ptr    bool     // optional bytes held by pointer
	Named  bool     // a user's own Go type of the kind
	NamedK bool     // for map keys
	Bad    string   // Go source of a malformed field definition (C02)
	BadDef string   // with it: more declarations
	BadOne string   // with it: an expression in the list of oneof wrappers
}

func (f *Field) IsList() bool { return f.Card == Repeated || f.Card == Packed }

// HasPresence: an explicitly set zero value is different from an unset one.
// Bytes fields cannot express presence separately from emptiness in the
// library's Go representation unless in a oneof.
func (f *Field) HasPresence() bool {
	if f.Card == Oneof {
		return true
	}
	if f.Kind == Message_ {
		return !f.NoPtr && !f.IsList() && f.Card != Map
	}
	if f.Card == Optional || f.Card == Required {
		return f.Kind != Bytes || f.Ptr
	}
	return false
}

type UnkMode uint8

const (
	UnkNone UnkMode = iota
	UnkBytes
	UnkXXX
	UnkPtr
)

type Message struct {
	Name   string
	GoName string
	Fields []*Field
	Unk    UnkMode
	Style  int     // 0: XXX_OneofWrappers, 1: ProtoReflect
	Bare   int     // 1: the Go struct holds nothing but the fields; 2: and is aligned
	Avoid  []int32 // numbers other versions of the message define

	// Go side, filled by Bind
	GoType   reflect.Type
	Wrappers map[int32]reflect.Type // oneof member number -> wrapper struct type

	byNum map[int32]*Field
}

// Reindex forgets the lookup table after the fields have changed.
func (m *Message) Reindex() { m.byNum = nil; m.Field(0) }

func (m *Message) Field(num int32) *Field {
	if m.byNum == nil {
		b := map[int32]*Field{}
		for _, f := range m.Fields {
			b[f.Num] = f
		}
		m.byNum = b
	}
	return m.byNum[num]
}

// Index builds the lookup tables (so that later use is read-only).
func (m *Message) Index() { m.Field(0) }

// Family is a set of messages referring to each other.
type Family struct {
	Name     string
	Alt      bool // its Go types are in another package of the same name
	Messages []*Message
}

func (f *Family) Message(name string) *Message {
	for _, m := range f.Messages {
		if m.Name == name {
			return m
		}
	}
	return nil
}

// Sorted returns fields by number.
func (m *Message) Sorted() []*Field {
	fs := append([]*Field(nil), m.Fields...)
	sort.Slice(fs, func(i, j int) bool { return fs[i].Num < fs[j].Num })
	return fs
}

func (m *Message) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "message %s {", m.Name)
	for _, f := range m.Sorted() {
		fmt.Fprintf(&b, " %s;", f)
	}
	b.WriteString(" }")
	return b.String()
}

func (f *Field) String() string {
	t := f.Kind.String()
	if f.Msg != nil {
		t = f.Msg.Name
	}
	if f.Card == Map {
		return fmt.Sprintf("map<%s,%s> %s = %d", f.Key, t, f.Name, f.Num)
	}
	return fmt.Sprintf("%s %s %s = %d", f.Card, t, f.Name, f.Num)
}
