// Package gentypes holds the Go message types of package catalog; cmd/vsim
// writes them at build time (overlay file types.go).
package gentypes

import "reflect"

type Entry struct {
	T reflect.Type
	W []reflect.Type
}

// Types by message name.
var Types = map[string]Entry{}

// Hook is called at the start of every wrapper-listing method (user code that
// runs inside the library's first use of a type).
var Hook = func(name string) {}

func reg(name string, t reflect.Type, w ...reflect.Type) { Types[name] = Entry{t, w} }

// what messages generated by protoc-gen-go give access to
type protoImpl struct {
	GoReflectType reflect.Type
	Desc          any
	OneofWrappers []any
}

type reflectMsg struct {
	pad  int
	mi   *protoImpl
	impl struct{ ptr uintptr }
}

// The catalogue the types were emitted from.
var (
	CatSeed  uint64
	CatExtra int
	CatKind  string
)

// EnumVal is a constant as generated, and what the schema says.
type EnumVal struct {
	V       any
	Want    int32
	Name    string // name String must give, if not empty
	GoConst string
}

// Enums by name.
var Enums = map[string][]EnumVal{}

// regGen registers a message type generated by prutalgen.
func regGen(name string, p any) {
	var w []reflect.Type
	if x, ok := p.(interface{ XXX_OneofWrappers() []interface{} }); ok {
		for _, v := range x.XXX_OneofWrappers() {
			w = append(w, reflect.TypeOf(v).Elem())
		}
	}
	reg(name, reflect.TypeOf(p).Elem(), w...)
}

func regEnum(name string, v ...EnumVal) { Enums[name] = v }

// EnumMap is a generated pair of maps, and what the schema says.
type EnumMap struct {
	Names, WantNames   map[int32]string
	Values, WantValues map[string]int32
}

// EnumMaps by name of the enum.
var EnumMaps = map[string]EnumMap{}

func regEnumMaps(name string, n map[int32]string, v map[string]int32, wn map[int32]string, wv map[string]int32) {
	EnumMaps[name] = EnumMap{n, wn, v, wv}
}

// Holder is embedded in some messages.
type Holder struct {
	unknownFields    []byte
	XXX_unrecognized []byte
}
