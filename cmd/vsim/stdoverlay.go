package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// The standard library is used as it is, except for a few seams that the
// simulator owns: the runtime's random source (map seeds and iteration starts),
// the clock behind time.Now, the file-related system calls under package os,
// and os.Exit. Each is a guarded addition that does nothing until a simulated
// run installs a hook.

type patch struct{ old, new string }

func patchFile(goroot, rel, outDir string, replace map[string]string, ps []patch) error {
	src := filepath.Join(goroot, "src", rel)
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	s := string(b)
	for _, p := range ps {
		if strings.Count(s, p.old) != 1 {
			return fmt.Errorf("std overlay: %s: pattern occurs %d times: %q", rel, strings.Count(s, p.old), p.old)
		}
		s = strings.Replace(s, p.old, p.new, 1)
	}
	dst := filepath.Join(outDir, "std", rel)
	if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
		return err
	}
	if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
		return err
	}
	replace[src] = dst
	return nil
}

func addFile(goroot, rel, outDir string, replace map[string]string, text string) error {
	dst := filepath.Join(outDir, "std", rel)
	if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
		return err
	}
	if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
		return err
	}
	replace[filepath.Join(goroot, "src", rel)] = dst
	return nil
}

func stdOverlay(goroot, outDir string, replace map[string]string) error {
	err := patchFile(goroot, "runtime/rand.go", outDir, replace, []patch{
		{"	seed := &globalRand.seed\n", "	seed := &globalRand.seed\n	startupRand = nil\n	for i := range seed {\n		seed[i] = byte(i*37 + 11)\n	}\n	if false {\n"},
		{"	} else {\n		if readRandom(seed[:]) != len(seed)", "	} else if false {\n		if readRandom(seed[:]) != len(seed)"},
		{"	globalRand.state.Init(*seed)\n	clear(seed[:])\n\n	if startupRand != nil {", "	globalRand.state.Init(*seed)\n	clear(seed[:])\n\n	if startupRand != nil {"},
	})
	if err != nil {
		return err
	}
	// the first patch opened an if block around the original if/else
	fn := replace[filepath.Join(goroot, "src", "runtime/rand.go")]
	b, _ := os.ReadFile(fn)
	s := string(b)
	s = strings.Replace(s, "	if false {\n	if len(startupRand) >= 16 &&", "	if len(startupRand) >= 16 &&", 1)
	s = strings.Replace(s, "func maps_rand() uint64 {\n", "func maps_rand() uint64 {\n	if simRandFn != nil {\n		return simRandFn()\n	}\n", 1)
	if !strings.Contains(s, "return simRandFn()") {
		return fmt.Errorf("std overlay: maps_rand not found")
	}
	s += `
var simRandFn func() uint64

//go:linkname simSetRandFn
func simSetRandFn(f func() uint64) { simRandFn = f }

// simHeapClass: -1 not a heap object, 0 scanned by the collector, 1 not scanned.
//
//go:linkname simHeapClass
func simHeapClass(p uintptr) int {
	s := spanOfHeap(p)
	if s == nil {
		return -1
	}
	if s.spanclass.noscan() {
		return 1
	}
	return 0
}
`
	return os.WriteFile(fn, []byte(s), 0o644)
}

// sysOverlay adds the seams of the generator world: system calls made through
// package syscall, the clock, process identity, random numbers and os.Exit.
func sysOverlay(goroot, outDir string, replace map[string]string) error {
	fn := replace[filepath.Join(goroot, "src", "runtime/rand.go")]
	b, err := os.ReadFile(fn)
	if err != nil {
		return err
	}
	err = os.WriteFile(fn, []byte(string(b)+`
var simUserRandFn func() uint64

//go:linkname simSetUserRandFn
func simSetUserRandFn(f func() uint64) { simUserRandFn = f }

//go:linkname simUserRand
func simUserRand() uint64 {
	if simUserRandFn != nil {
		return simUserRandFn()
	}
	return rand()
}
`), 0o644)
	if err != nil {
		return err
	}
	ur := []patch{{"//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime.simUserRand\n"}}
	for _, f := range []string{"os/tempfile.go", "math/rand/rand.go", "math/rand/v2/rand.go"} {
		if err := patchFile(goroot, f, outDir, replace, ur); err != nil {
			return err
		}
	}
	// pointers passed as uintptr must be on the heap, because a hook may grow the stack
	err = patchFile(goroot, "syscall/syscall_linux.go", outDir, replace, []patch{
		{"//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall\nfunc Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n",
			`// SimHook handles system calls of simulated processes.
var SimHook func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno, ok bool)

//go:uintptrescapes
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	if SimHook != nil {
		if r1, r2, err, ok := SimHook(trap, a1, a2, a3, 0, 0, 0); ok {
			return r1, r2, err
		}
	}
	return simSyscall6(trap, a1, a2, a3, 0, 0, 0)
}

//go:uintptrkeepalive
//go:nosplit
func simSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
`},
		{"	r1, r2, err = RawSyscall6(trap, a1, a2, a3, 0, 0, 0)\n	runtime_exitsyscall()", "	r1, r2, err = RawSyscall6(trap, a1, a2, a3, a4, a5, a6)\n	runtime_exitsyscall()"},
		{"//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall6\nfunc Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n",
			`//go:uintptrescapes
//go:linkname Syscall6
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	if SimHook != nil {
		if r1, r2, err, ok := SimHook(trap, a1, a2, a3, a4, a5, a6); ok {
			return r1, r2, err
		}
	}
`},
	})
	if err != nil {
		return err
	}
	hook := func(name, ret string) patch {
		return patch{"func " + name + "() (" + ret + " int) {\n", "func " + name + "() (" + ret + ` int) {
	if SimHook != nil {
		if r, _, _, ok := SimHook(SYS_` + strings.ToUpper(name) + `, 0, 0, 0, 0, 0, 0); ok {
			return int(r)
		}
	}
`}
	}
	if err := patchFile(goroot, "syscall/zsyscall_linux_amd64.go", outDir, replace, []patch{hook("Getpid", "pid"), hook("Getppid", "ppid")}); err != nil {
		return err
	}
	if err := patchFile(goroot, "os/proc.go", outDir, replace, []patch{
		{"func Exit(code int) {\n", "func Exit(code int) {\n	if SimExit != nil {\n		SimExit(code)\n	}\n"},
		{"func runtime_beforeExit(", "// SimExit ends a simulated process.\nvar SimExit func(code int)\n\nfunc runtime_beforeExit("},
	}); err != nil {
		return err
	}
	if err := patchFile(goroot, "syscall/env_unix.go", outDir, replace, []patch{
		{"func Getenv(key string) (value string, found bool) {\n", `// SimGetenv, SimSetenv and SimEnviron are the environment of simulated processes.
var (
	SimGetenv  func(key string) (value string, found, ok bool)
	SimSetenv  func(key, value string, set bool) bool
	SimEnviron func() ([]string, bool)
)

func Getenv(key string) (value string, found bool) {
	if SimGetenv != nil {
		if value, found, ok := SimGetenv(key); ok {
			return value, found
		}
	}
`},
		{"func Setenv(key, value string) error {\n", `func Setenv(key, value string) error {
	if SimSetenv != nil && SimSetenv(key, value, true) {
		return nil
	}
`},
		{"func Unsetenv(key string) error {\n", `func Unsetenv(key string) error {
	if SimSetenv != nil && SimSetenv(key, "", false) {
		return nil
	}
`},
		{"func Environ() []string {\n", `func Environ() []string {
	if SimEnviron != nil {
		if l, ok := SimEnviron(); ok {
			return l
		}
	}
`},
	}); err != nil {
		return err
	}
	return patchFile(goroot, "time/time.go", outDir, replace, []patch{
		{"func Now() Time {\n	sec, nsec, mono := runtimeNow()\n", `func Now() Time {
	if SimNow != nil {
		if ns := SimNow(); ns != 0 {
			return unixTime(ns/1e9, int32(ns%1e9))
		}
	}
	sec, nsec, mono := runtimeNow()
`},
		{"func unixTime(sec int64, nsec int32) Time {", "// SimNow is the clock of simulated processes.\nvar SimNow func() int64\n\nfunc unixTime(sec int64, nsec int32) Time {"},
	})
}
