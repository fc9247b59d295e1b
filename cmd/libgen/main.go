// libgen is a code generator that uses prutalgen as a library, as Kitex does:
// the same options as the command, and methods Marshal and Unmarshal.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
	"github.com/cloudwego/prutal/prutalgen/pkg/utils/args"
)

type list []string

func (l *list) String() string     { return strings.Join(*l, ",") }
func (l *list) Set(s string) error { *l = append(*l, s); return nil }

func main() {
	var incl list
	var opts args.GoOpts
	fs := flag.NewFlagSet("libgen", flag.ExitOnError)
	fs.Var(&incl, "proto_path", "")
	fs.Var(&incl, "I", "")
	out := fs.String("go_out", ".", "")
	fs.Var(&opts, "go_opt", "")
	getter := fs.Bool("gen_getter", false, "")
	late := fs.Bool("late", false, "load all files, then generate")
	fs.Parse(os.Args[1:])
	if len(incl) == 0 {
		incl = list{"."}
	}
	x := prutalgen.NewLoader(incl, opts.Proto2pkg())
	g := prutalgen.NewGoCodeGen()
	g.Getter = *getter
	g.Marshaler = prutalgen.MarshalerKitexProtobuf
	gen := func(p *prutalgen.Proto) {
		if err := g.Gen(p, opts.GenPathType(), *out); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
	var ps []*prutalgen.Proto
	for _, a := range fs.Args() {
		p := x.LoadProto(filepath.Clean(a))[0]
		ps = append(ps, p)
		if !*late {
			gen(p)
		}
	}
	if *late {
		for _, p := range ps {
			gen(p)
		}
	}
}
