package genworld

import (
	"regexp"
	"strings"

	"verif/pm"
	"verif/psrc"
)

var tokens = regexp.MustCompile(`"(?:[^"\\\n]|\\.)*"|'(?:[^'\\\n]|\\.)*'|//[^\n]*|/\*(?s:.*?)\*/|[A-Za-z_][A-Za-z0-9_.]*|[0-9][A-Za-z0-9.+-]*|[^\sA-Za-z0-9_]`)

// mutate makes small changes to a file. The result may be a schema or not:
// there is no saying what becomes of it, except that it is always the same.
func mutate(t *tree, f *psrc.File, r *pm.Rng) {
	fn := inPath(t, f)
	b, _ := t.fs.Read(fn)
	s := string(b)
	for n := 1 + r.Pick(4, 2, 1); n > 0; n-- {
		l := tokens.FindAllStringIndex(s, -1)
		if len(l) == 0 {
			return
		}
		at := l[r.N(len(l))]
		cut := func(x string) { s = s[:at[0]] + x + s[at[1]:] }
		pick := func(re string) string { // a place like that
			l := regexp.MustCompile(re).FindAllStringSubmatchIndex(s, -1)
			if len(l) == 0 {
				return ""
			}
			m := l[r.N(len(l))]
			at = m[len(m)-2:]
			return s[at[0]:at[1]]
		}
		other := l[r.N(len(l))]
		switch r.N(9) {
		case 0:
			cut("")
		case 1:
			x := s[at[0]:at[1]]
			cut(x + " " + x)
		case 2:
			cut(s[other[0]:other[1]])
		case 3: // an option's value
			if pick(`[a-z_.)]\s*=\s*([A-Za-z"'][^\s;,\]]*)\s*[;,\]]`) != "" {
				cut(odd[r.N(len(odd))])
			}
		case 4: // a number
			if pick(`=\s*(-?[0-9][0-9a-fA-Fx]*)`) != "" {
				cut([]string{"0", "1", "2", "15", "16", "100", "18999", "19000", "536870911", "536870912", "-1", "0x10", "017"}[r.N(13)])
			}
		case 5: // a further option
			if pick(`(\{)`) != "" {
				o := []string{"allow_alias", "deprecated", "no_standard_descriptor_accessor", "message_set_wire_format", "map_entry", "features.enum_type", "features.repeated_field_encoding", "features.field_presence", "(x.y)"}[r.N(9)]
				cut("{\n  option " + o + " = " + odd[r.N(len(odd))] + ";\n")
			}
		case 6:
			if m := regexp.MustCompile(`=\s*[0-9]+\s*;`).FindAllStringIndex(s, -1); len(m) > 0 {
				i := m[r.N(len(m))][1] - 1
				o := []string{"packed", "deprecated", "default", "json_name", "lazy", "jstype", "ctype", "(gogoproto.nullable)", "features.field_presence", "features.repeated_field_encoding", "features.message_encoding"}[r.N(11)]
				s = s[:i] + " [" + o + " = " + odd[r.N(len(odd))] + "]" + s[i:]
			}
		case 7: // a file option
			o := []string{"go_package", "java_package", "optimize_for", "features.field_presence", "features.enum_type", "features.utf8_validation", "features.json_format", "cc_enable_arenas"}[r.N(8)]
			s += "\noption " + o + " = " + odd[r.N(len(odd))] + ";\n"
		case 8: // names are what matters
			if x := pick(`\b(message|enum|service|oneof|extend|rpc|stream|repeated|optional|required|map|group|reserved|extensions|import|public|weak|package|syntax|edition|option|int32|string|bytes|double|sint64|fixed32|bool)\b`); x != "" {
				y := []string{"message", "enum", "service", "oneof", "repeated", "optional", "required", "int32", "string", "bytes", "bool", "float", "sint32"}[r.N(13)]
				if strings.ToUpper(x) != y {
					cut(y)
				}
			}
		}
	}
	t.fs.Put(fn, []byte(s), 0o644)
	t.fs.Settle()
}

// odd are values of options.
var odd = []string{"true", "false", "1", "0", "TRUE", `"true"`, `"x"`, "EXPANDED", "PACKED", "LENGTH_PREFIXED", "DELIMITED", "EXPLICIT", "IMPLICIT", "LEGACY_REQUIRED", "CLOSED", "OPEN", "SPEED", "-1", "1.5", "inf", `"example.com/zz"`, `"example.com/zz;zz"`, "{a: 1}", "X"}
