package genworld

import (
	"fmt"
	"path"
	"regexp"
	"strconv"
	"strings"

	"verif/pm"
	"verif/psrc"
	"verif/sim/simproc"
)

// scan tells for every byte of a schema text whether it is code (0), comment
// (1) or string (2), and if the text up to it ends within a declaration.
func scan(s string) (kind []byte, open []bool) {
	kind = make([]byte, len(s))
	open = make([]bool, len(s)+1)
	depth := 0
	last := byte(';')
	for i := 0; i < len(s); {
		j := i + 1
		k := byte(0)
		switch {
		case strings.HasPrefix(s[i:], "//"):
			k = 1
			if n := strings.IndexByte(s[i:], '\n'); n < 0 {
				j = len(s)
			} else {
				j = i + n
			}
		case strings.HasPrefix(s[i:], "/*"):
			k = 1
			if n := strings.Index(s[i+2:], "*/"); n < 0 {
				j = len(s)
			} else {
				j = i + 2 + n + 2
			}
		case s[i] == '"' || s[i] == '\'':
			k = 2
			for j < len(s) && s[j] != s[i] {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			j = min(j+1, len(s))
			last = 'x'
		default:
			switch s[i] {
			case '{', '[', '(':
				depth++
			case '}', ']', ')':
				depth--
			}
			if !strings.ContainsRune(" \t\r\n", rune(s[i])) {
				last = s[i]
			}
		}
		for x := i; x < j; x++ {
			kind[x] = k
			if k == 1 {
				open[x+1] = depth > 0 || last != ';' && last != '}' || x+1 < j && strings.HasPrefix(s[i:], "/*") && x > i
			} else {
				open[x+1] = depth > 0 || last != ';' && last != '}' || k == 2
			}
		}
		i = j
	}
	return kind, open
}

// closure lists the files a run reads.
func closure(fs []*psrc.File) []*psrc.File {
	var out []*psrc.File
	seen := map[*psrc.File]bool{}
	var rec func(f *psrc.File)
	rec = func(f *psrc.File) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, i := range f.Imports {
			rec(i.F)
		}
		out = append(out, f)
	}
	for _, f := range fs {
		rec(f)
	}
	return out
}

func inPath(t *tree, f *psrc.File) string { return path.Join(t.dir, f.Root, f.Path) }

// hide removes a file wherever the include order finds it.
func (t *tree) hide(f *psrc.File) {
	t.fs.Remove(inPath(t, f))
	for _, x := range append(append([]string(nil), t.proj.Roots...), "") {
		t.fs.Remove(path.Join(t.dir, x, f.Path))
	}
}

// damage makes the input unusable and says how; "" if this draw cannot.
func damage(t *tree, v *invocation, r *pm.Rng, f *psrc.File, what int) string {
	fn := inPath(t, f)
	b, _ := t.fs.Read(fn)
	s := string(b)
	kind, open := scan(s)
	put := func(x string) { t.fs.Put(fn, []byte(x), 0o644) }
	at := func(ok func(i int) bool) int {
		for k := 0; k < 200; k++ {
			if i := r.N(len(s)); ok(i) {
				return i
			}
		}
		return -1
	}
	switch what {
	case 0: // the rest of the file is missing
		i := at(func(i int) bool { return open[i] })
		if i < 0 {
			return ""
		}
		put(s[:i])
		return fmt.Sprintf("%s ends after byte %d, within a declaration: %q", fn, i, tail(s[:i]))
	case 1: // a block of zeros
		// (not the line break after a comment: the zeros would belong to it)
		i := at(func(i int) bool { return kind[i] == 0 && (i == 0 || kind[i-1] != 1) })
		if i < 0 {
			return ""
		}
		n := min(1+r.N(600), len(s)-i)
		put(s[:i] + strings.Repeat("\x00", n) + s[i+n:])
		return fmt.Sprintf("%d bytes of %s from %d on are zero, after %q", n, fn, i, tail(s[:i]))
	case 2: // characters the language does not have
		i := at(func(i int) bool { return kind[i] == 0 && (i == 0 || kind[i-1] == 0) })
		if i < 0 {
			return ""
		}
		c := []string{"@", "#", "`", "\x01", "\x7f", "\xff", "\xc3\x28", "?", "!", "~", "\x00"}[r.N(11)]
		put(s[:i] + c + s[i:])
		return fmt.Sprintf("%q in %s at byte %d, after %q", c, fn, i, tail(s[:i]))
	case 3: // no such file
		t.hide(f)
		return "there is no " + f.Path
	case 4: // a type that is nowhere defined
		lab := ""
		if f.Syntax == psrc.Proto2 {
			lab = []string{"optional ", "required ", "repeated "}[r.N(3)]
		} else if r.P(0.3) {
			lab = "repeated "
		}
		typ := []string{"ZzNowhere", "zz.no.Where", ".zz.NoWhere", "ZzBroken.Inner", "ZzBroken.ZzBroken", ".ZzNowhere", "x"}[r.N(7)]
		if f.Package != "" && r.P(0.2) {
			typ = f.Package + ".ZzNowhere"
		}
		if r.P(0.2) {
			lab, typ = "", "map<int32, "+typ+">"
		}
		put(s + fmt.Sprintf("\nmessage ZzBroken {\n  %s%s x = 1;\n}\n", lab, typ))
		return fmt.Sprintf("%s has a field of the undefined type %s", fn, typ)
	case 5: // not a file
		t.hide(f)
		if r.P(0.5) {
			t.fs.MkdirAll(fn)
			return fn + " is a directory"
		}
		t.fs.Symlink("zz-not-there", fn)
		return fn + " is a link to nothing"
	case 6: // the disk loses a block: what follows moves up
		i := at(func(i int) bool { return kind[i] == 0 && s[i] == '}' })
		if i < 0 {
			return ""
		}
		put(s[:i] + s[i+1:])
		return fmt.Sprintf("a closing brace of %s is missing at byte %d", fn, i)
	}
	if what == 7 { // a number no field can have
		lab := ""
		if f.Syntax == psrc.Proto2 {
			lab = []string{"optional ", "required ", "repeated "}[r.N(3)]
		}
		n := []string{"0", "536870912", "2147483647", "19000", "19999", "0x20000000", "4294967297", "-1"}[r.N(8)]
		put(s + fmt.Sprintf("\nmessage ZzBroken {\n  %sint32 x = %s;\n}\n", lab, n))
		return fmt.Sprintf("%s has a field with number %s", fn, n)
	}
	if what == 8 { // an encoding the runtime does not have
		switch f.Syntax {
		case psrc.Proto2:
			put(s + "\nmessage ZzBroken {\n  optional group Zz = 1 { optional int32 a = 1; }\n}\n")
		case psrc.Proto3:
			return ""
		default:
			put(s + "\nmessage ZzBroken {\n  ZzBroken x = 1 [features.message_encoding = DELIMITED];\n}\n")
		}
		return fn + " has a group"
	}
	if what == 10 {
		x, how := contradict(t, f, s, r)
		if x == "" {
			return ""
		}
		put(x)
		return fn + " " + how
	}
	// permission
	t.hide(f)
	t.fs.Put(fn, b, 0o000)
	return fn + " may not be read"
}

var syntaxStmt = regexp.MustCompile(`(syntax|edition)\s*=\s*("[^"\n]*"|'[^'\n]*')\s*;`)

// rsv returns statements that reserve 2, 5 to 9 and 100 to max.
func rsv(r *pm.Rng) string {
	n := func(x int) string { // in any notation
		switch r.N(8) {
		case 0:
			return fmt.Sprintf("0x%X", x)
		case 1:
			return fmt.Sprintf("0%o", x)
		}
		return strconv.Itoa(x)
	}
	l := []string{n(2), n(5) + " to " + n(9), n(100) + " to max", n(3)}
	for i := range l {
		k := r.N(i + 1)
		l[i], l[k] = l[k], l[i]
	}
	if r.P(0.3) {
		k := 1 + r.N(3)
		return "reserved " + strings.Join(l[:k], ", ") + "; reserved \"zz\"; reserved " + strings.Join(l[k:], ", ") + "; "
	}
	return "reserved " + strings.Join(l, ", ") + "; "
}

// contradict changes the text of a file so that it defines no schema, and says
// how.
func contradict(t *tree, f *psrc.File, s string, r *pm.Rng) (string, string) {
	lab := ""
	if f.Syntax == psrc.Proto2 {
		lab = "optional "
	}
	one := func(l ...string) string { return l[r.N(len(l))] }
	// somewhere in a message, maybe
	in := func(decl string) string {
		switch r.N(3) {
		case 0:
			return s + "\nmessage ZzOuter {\n  " + decl + "\n}\n"
		case 1:
			return s + "\nmessage ZzOuter {\n  message ZzInner {\n    " + decl + "\n  }\n}\n"
		}
		return s + "\n" + decl + "\n"
	}
	k := r.N(15)
	switch k {
	case 0:
		if r.P(0.5) {
			return in(clash(r, lab, true)), "has a field with a reserved number"
		}
		return in("message ZzBroken { " + rsv(r) + lab + "int32 x = " + one("2", "5", "7", "9", "100", "5000", "536870911") + "; }"), "has a field with a reserved number"
	case 1:
		if r.P(0.6) {
			return in(clash(r, lab, false)), "has two fields with the same number"
		}
		b := lab + "int32 b = 3;"
		if r.P(0.5) {
			b = "oneof o { string b = 3; bytes c = 4; }"
		}
		return in("message ZzBroken { " + lab + "bool a = 3; " + b + " }"), "has two fields with the same number"
	case 2:
		return in("enum ZzBroken { " + one("", "option allow_alias = false; ") + "ZZ_A = 0; ZZ_B = 5; ZZ_C = " + one("0", "5", "0x5") + "; }"), "has two enum values with the same number"
	case 3:
		return in("enum ZzBroken { " + rsv(r) + "ZZ_A = 0; ZZ_B = " + one("2", "5", "9", "100", "2147483647") + "; }"), "has an enum value with a reserved number"
	case 4:
		if f.Syntax == psrc.Proto2 {
			return "", ""
		}
		return in("message ZzBroken { required int32 x = 1; }"), "has a required field"
	case 5:
		return s + "\npackage zz.a;\npackage zz.b;\n", "has more than one package"
	case 6:
		return s + fmt.Sprintf("\nimport %q;\n", f.Path), "imports itself"
	case 7:
		for _, m := range f.Imports {
			g := m.F
			b, ok := t.fs.Read(inPath(t, g))
			if ok && r.P(0.7) {
				t.fs.Put(inPath(t, g), append(b, fmt.Sprintf("\nimport %q;\n", f.Path)...), 0o644)
				return s + "\n", "is imported by " + g.Path + ", which it imports"
			}
		}
		if r.P(0.5) { // a cycle the file is not part of
			n := 1 + r.N(4)
			at := r.N(n)
			name := func(i int) string { return fmt.Sprintf("zz/loop%d.proto", i) }
			for i := 0; i < n; i++ {
				to := i + 1
				if to == n {
					to = at
				}
				x := fmt.Sprintf("syntax = \"proto3\";\npackage zz.loop%d;\noption go_package = \"zz.example/loop%d\";\nimport %q;\n", i, i, name(to))
				if r.P(0.5) {
					x += "message M { bool a = 1; }\n"
				}
				t.fs.Put(path.Join(t.dir, f.Root, name(i)), []byte(x), 0o644)
			}
			return s + fmt.Sprintf("\nimport %q;\n", name(0)), fmt.Sprintf("imports a file that imports itself through %d files", n-at)
		}
		return s + "\nimport \"zz/not/there.proto\";\n", "imports a file that is not there"
	case 8:
		return in(one("message ZzBroken { } enum ZzBroken { ZZ_A = 0; }", "message ZzBroken { } message ZzBroken { "+lab+"int32 a = 1; }", "enum ZzBroken { ZZ_A = 0; } enum ZzBroken { ZZ_B = 0; }")), "defines a type twice"
	case 9:
		return in("enum ZzBroken { " + one("", "option allow_alias = true; ") + "ZZ_A = 0; ZZ_B = 1; ZZ_A = " + one("0", "2") + "; }"), "defines an enum value twice"
	case 10:
		kind, _ := scan(s)
		m := syntaxStmt.FindStringIndex(s)
		if m == nil || kind[m[0]] != 0 {
			return "", ""
		}
		return s[:m[0]] + one(`syntax = "proto4";`, `edition = "2999";`, `syntax = "";`, `syntax = "Proto3";`) + s[m[1]:], "has an unknown syntax"
	case 11:
		m := goPackage.FindStringIndex(s)
		if m == nil || f.MOpt {
			return "", ""
		}
		kind, _ := scan(s)
		if kind[m[0]] != 0 {
			return "", ""
		}
		return s[:m[0]] + s[m[1]:], "does not say its Go package"
	case 12:
		bad := one("ZzNowhere", "zz.Nowhere", ".zz.Nowhere", "ZzOk.Inner", "int32", "ZzBroken", "ZzKind")
		a, b := one("", "stream ")+"ZzOk", one("", "stream ")+bad
		if r.P(0.5) {
			a, b = b, a
		}
		return s + "\nmessage ZzOk { }\n" + one("", "service ZzFine { rpc Get(ZzOk) returns (ZzOk); }\n") + "service ZzBroken { " + one("", "rpc Put(ZzOk) returns (ZzOk); ") + "rpc Get(" + a + ") returns (" + b + "); }\n", "has a service with an undefined type"
	}
	if k == 13 {
		// a value the option does not have, or an encoding prutal does not have
		o := one("features.field_presence = ZZ", "features.repeated_field_encoding = ZZ", "features.message_encoding = ZZ", "features.message_encoding = DELIMITED", "features = { field_presence: IMPLICIT }", "features.field_presence = true")
		switch r.N(6) {
		case 0:
			return s + "\noption " + o + ";\n", "has an option with a value it cannot have: " + o
		case 1:
			return in("message ZzBroken { option " + o + "; " + lab + "int32 x = 1; }"), "has a message option with a value it cannot have: " + o
		case 2:
			return in("message ZzBroken { " + lab + "int32 x = 1 [" + o + "]; }"), "has a field option with a value it cannot have: " + o
		case 3:
			return in("message ZzBroken { oneof o { int32 x = 1 [deprecated = true, " + o + "]; } }"), "has a oneof field option with a value it cannot have: " + o
		case 4:
			return in("message ZzBroken { repeated int32 x = 1 [packed = " + one("maybe", "1", "0", "True") + "]; }"), "has a field that is neither packed nor not"
		}
		return in("enum ZzBroken { option allow_alias = " + one("maybe", "1", "0", "True") + "; ZZ_A = 0; ZZ_B = 0; }"), "has an enum of which it does not say whether it has aliases"
	}
	return in(one(
		"enum ZzBroken { ZZ_A = 0; ZZ_B = 2147483648; }",
		"enum ZzBroken { ZZ_A = 0; ZZ_B = -2147483649; }",
		"enum ZzBroken { ZZ_A = 0; ZZ_B = 1.5; }",
		"message ZzBroken { "+lab+"int32 x = 1.5; }",
		"message ZzBroken { "+lab+"int32 int64 x = 1; }",
		"message ZzBroken { map<float, int32> x = 1; }",
		"message ZzBroken { map<int32, map<int32, int32>> x = 1; }",
		"message ZzBroken { repeated map<int32, int32> x = 1; }",
		"message ZzBroken { oneof o { map<int32, int32> x = 1; } }",
		"message ZzBroken { oneof o { repeated int32 x = 1; } }",
	)), "has a definition the language does not have"
}

// clash makes a message with fields of all sorts, one of which has the number of
// another one, or a reserved one (see rsv).
func clash(r *pm.Rng, lab string, reserved bool) string {
	n := 1 + r.N(6)
	if !reserved {
		n++
	}
	nums := make([]int, n)
	for i := range nums {
		for { // what rsv does not have
			nums[i] = 10 + r.N(89)
			ok := true
			for _, x := range nums[:i] {
				ok = ok && x != nums[i]
			}
			if ok {
				break
			}
		}
	}
	i := r.N(n)
	if reserved {
		nums[i] = []int{2, 5, 7, 9, 100, 5000, 1<<29 - 1}[r.N(7)]
	} else {
		j := r.N(n - 1)
		if j >= i {
			j++
		}
		nums[j] = nums[i]
	}
	var b strings.Builder
	b.WriteString("message ZzBroken { ")
	if reserved {
		b.WriteString(rsv(r))
	}
	left := 0
	for i, x := range nums {
		if r.P(0.15) && left == 0 {
			switch r.N(3) {
			case 0:
				fmt.Fprintf(&b, "enum ZzE%d { ZZ_X%d = 0; } ", i, i)
			case 1:
				fmt.Fprintf(&b, "message ZzM%d { %sint32 y = %d [deprecated = true]; } ", i, lab, nums[r.N(n)])
			case 2:
				b.WriteString("; ")
			}
		}
		num := strconv.Itoa(x)
		if r.P(0.2) {
			num = fmt.Sprintf("0x%x", x)
		}
		if left == 0 && r.P(0.35) {
			left = 1 + r.N(3)
			fmt.Fprintf(&b, "oneof o%d { ", i)
		}
		if left > 0 {
			fmt.Fprintf(&b, "%s x%d = %s; ", []string{"int32", "string", "bytes", "ZzBroken"}[r.N(4)], i, num)
			if left--; left == 0 || i == n-1 {
				left = 0
				b.WriteString("} ")
			}
			continue
		}
		switch r.N(4) {
		case 0:
			fmt.Fprintf(&b, "repeated int64 x%d = %s; ", i, num)
		case 1:
			fmt.Fprintf(&b, "map<string, ZzBroken> x%d = %s; ", i, num)
		default:
			fmt.Fprintf(&b, "%s%s x%d = %s; ", lab, []string{"int32", "ZzBroken"}[r.N(2)], i, num)
		}
	}
	b.WriteString("}")
	return b.String()
}

func tail(s string) string {
	if len(s) > 40 {
		return s[len(s)-40:]
	}
	return s
}

// mess puts something into the place of outputs; clean says that a run should
// get over it.
func mess(t *tree, v *invocation, ref map[string][]byte, r *pm.Rng, hard bool) (what []string, clean bool) {
	clean = true
	for _, f := range v.files {
		fn := v.output(t, f)
		n := 7
		if hard {
			n = 10
		}
		switch k := r.N(n); k {
		case 0, 1:
		case 2:
			t.fs.Put(fn, append(append([]byte("// older\n"), ref[fn]...), "\nvar older int\n"...), 0o644)
			what = append(what, fn+": longer")
		case 3:
			if b := ref[fn]; len(b) > 0 {
				t.fs.Put(fn, b[:r.N(len(b))], 0o644)
				what = append(what, fn+": truncated")
			}
		case 4:
			t.fs.Put(fn, nil, 0o600)
			what = append(what, fn+": empty")
		case 5:
			b := append([]byte(nil), ref[fn]...)
			if len(b) > 0 {
				i := r.N(len(b))
				clear(b[i:min(i+512, len(b))])
			}
			t.fs.Put(fn, b, 0o644)
			t.fs.PutTime(fn, int64(r.N(1<<30))*4e9)
			what = append(what, fn+": a block of zeros")
		case 6:
			t.fs.Put(fn, ref[fn], 0o644)
			t.fs.PutTime(fn, int64(r.N(1<<30))*4e9)
			what = append(what, fn+": as it should be")
		case 7:
			t.fs.Remove(fn)
			t.fs.MkdirAll(fn + "/sub")
			what = append(what, fn+": a directory")
			clean = false
		case 8:
			t.fs.Put(fn, []byte("package x\n"), 0o444)
			what = append(what, fn+": write-protected")
			clean = false
		case 9:
			d := path.Dir(fn)
			if !t.fs.Exists(d) {
				t.fs.Put(d, []byte("a file\n"), 0o644)
				what = append(what, d+": a file where a directory should be")
				clean = false
			}
		}
	}
	return what, clean
}

func outFaults(p float64, r *pm.Rng) simproc.Faults {
	f := simproc.Faults{P: p}
	f.Benign = r.P(0.7)
	f.Errors = r.P(0.8)
	f.Sticky = f.Errors && r.P(0.3)
	if r.P(0.5) {
		f.Only = []string{"open", "read", "write /", "close", "mkdir", "stat", "fstat"}[r.Pick(4, 6, 6, 6, 2, 2, 3)]
		f.P = 0.4
	}
	return f
}
