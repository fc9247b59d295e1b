package pm

import "strings"

// TagProblem says what is wrong with the struct tags of a field, or "".
func TagProblem(f *Field, tag, key, val string) string {
	parts := map[string]bool{}
	for _, p := range strings.Split(tag, ",") {
		parts[p] = true
	}
	enc := f.Kind.Tag()
	if f.Card == Map {
		enc = "bytes"
	}
	if !parts[enc] {
		return "the encoding is not " + enc
	}
	label := "opt"
	switch {
	case f.IsList() || f.Card == Map:
		label = "rep"
	case f.Card == Required:
		label = "req"
	}
	if !parts[label] {
		return "the label is not " + label
	}
	if parts["packed"] != (f.Card == Packed) {
		return "packing differs"
	}
	if !parts["name="+f.Name] {
		return "the name is not " + f.Name
	}
	if f.Card == Map {
		if !strings.HasPrefix(key, f.Key.Tag()+",1,") {
			return "the map key's encoding is not " + f.Key.Tag()
		}
		if !strings.HasPrefix(val, f.Kind.Tag()+",2,") {
			return "the map value's encoding is not " + f.Kind.Tag()
		}
	}
	return ""
}
