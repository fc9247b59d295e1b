// Command vsim builds the simulation workers from the repository's working
// tree and runs checks and replays.
package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"time"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

func main() {
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	if len(os.Args) < 2 {
		die("usage: vsim build|check|replay ...")
	}
	seed := uint64(1)
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	switch os.Args[1] {
	case "build": // build DIR KIND [race]
		b, err := newBuilder(verif, repo, os.Args[2])
		if err != nil {
			die("%v", err)
		}
		w, err := b.worker(os.Args[3], len(os.Args) > 4, seed, 0)
		if err != nil {
			die("%v", err)
		}
		fmt.Println(w.Path, b.in.stats, len(b.in.sites))
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		prop := fs.String("property", "", "property")
		tier := fs.String("tier", "quick", "quick or thorough")
		scale := fs.Float64("scale", 1, "scale the number of runs")
		wall := fs.Int("wall", 0, "wall clock limit of the search, seconds")
		fs.Parse(os.Args[2:])
		sp := spec(*prop)
		if sp == nil {
			die("no such property %q", *prop)
		}
		for i := range sp.parts {
			sp.parts[i].quick = max(1, int(float64(sp.parts[i].quick)**scale))
			sp.parts[i].deep = max(1, int(float64(sp.parts[i].deep)**scale))
		}
		c := &check{spec: sp, tier: *tier, seed: seed, verif: verif, repo: repo, dir: filepath.Join(verif, "build", *prop+"."+*tier)}
		l, err := lock(c.dir + ".lock")
		if err != nil {
			die("lock: %v", err)
		}
		defer l.Close()
		c.wall = 300 * time.Second
		if c.tier == "thorough" {
			c.wall = 720 * time.Second
		}
		if *wall > 0 {
			c.wall = time.Duration(*wall) * time.Second
		}
		err = c.run()
		var he errHarness
		if errors.As(err, &he) {
			c.evidence(0)
			die("check error: %v", he.error)
		}
		c.probeFindings()
		viol := 0
		if c.hit != nil {
			viol = 1
		}
		if err := c.evidence(viol); err != nil {
			die("evidence: %v", err)
		}
		for _, t := range c.offText {
			fmt.Println("OFF-PROPERTY:", t)
		}
		if len(c.nondet) > 0 {
			fmt.Printf("NOTE: %d runs were not repeatable (see evidence)\n", len(c.nondet))
		}
		runs := 0
		for _, b := range c.stats {
			runs += b.Runs
		}
		fmt.Printf("%s %s: %d runs, %d distinct, %.0f s\n", sp.id, c.tier, runs, len(c.hashes), time.Since(c.t0).Seconds())
		if c.hit != nil {
			fmt.Printf("class %s: %s\nplan: %s\n", c.hit.Viol.Class, firstLines(c.hit.Viol.Detail, 12), planText(c.hit.Plan))
			for i, t := range c.hit.Trace {
				if i < 40 {
					fmt.Println("  " + t)
				}
			}
			if c.hit.Err != "" {
				fmt.Println(firstLines(c.hit.Err, 30))
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", sp.id, c.replay)
			os.Exit(1)
		}
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			die("%v", err)
		}
		rf := &replayFile{}
		if err := json.Unmarshal(b, rf); err != nil {
			die("%v", err)
		}
		c := &check{verif: verif, repo: repo, dir: filepath.Join(verif, "build", "replay")}
		l, err := lock(c.dir + ".lock")
		if err != nil {
			die("lock: %v", err)
		}
		defer l.Close()
		v, bad, err := c.runReplay(rf)
		if err != nil {
			die("replay error: %v", err)
		}
		if !bad {
			fmt.Println("not reproduced: the run holds on this tree")
			return
		}
		fmt.Printf("class %s: %s\n", v.Class, v.Detail)
		same := v.Class == rf.Violation.Class && v.Detail == rf.Violation.Detail
		fmt.Printf("identical to the recorded violation: %v\n", same)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, os.Args[2])
		os.Exit(1)
	default:
		die("unknown command %q", os.Args[1])
	}
}
