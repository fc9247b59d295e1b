package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verif/plan"
)

// finding is a recorded defect of the unchanged tree that was not repaired.
type finding struct {
	prop, probe, text string
}

func findings(verif, prop string) []finding {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) != 3 {
			continue
		}
		x := finding{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "probe="), f[2]}
		if x.prop == prop {
			out = append(out, x)
		}
	}
	return out
}

// probeFindings runs the exact failing input of each listed finding.
func (c *check) probeFindings() {
	for _, f := range findings(c.verif, c.spec.id) {
		w, err := c.build("codec", false, c.seed, 0)
		if err != nil {
			return
		}
		s := &server{w: w}
		rep, _, err := s.run(&plan.Plan{Prop: f.prop, World: "probe", Threads: [][]plan.Op{{{K: f.probe}}}}, 60*time.Second)
		s.close()
		if err == nil && len(rep.Viol) > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", f.prop, f.text)
		}
	}
}
