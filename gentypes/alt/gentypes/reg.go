// Package gentypes holds more message types of package catalog, some of which
// have the name of one in verif/gentypes: only the import path differs.
package gentypes

import (
	"reflect"

	main "verif/gentypes"
)

// Hook is the other package's.
func Hook(name string) { main.Hook(name) }

func reg(name string, t reflect.Type, w ...reflect.Type) { main.Types[name] = main.Entry{T: t, W: w} }

type protoImpl struct {
	GoReflectType reflect.Type
	Desc          any
	OneofWrappers []any
}

type reflectMsg struct {
	pad  int
	mi   *protoImpl
	impl struct{ ptr uintptr }
}

// Holder is embedded in some messages.
type Holder struct {
	unknownFields    []byte
	XXX_unrecognized []byte
}
