// plzsa decides properties of v2pro/plz from its source.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"time"

	"plzsa/sim"
)

type check struct {
	id   string
	rule string
	run  func(p *sim.Program, r *Report)
}

var checks = map[string]*check{}

func register(id, rule string, run func(p *sim.Program, r *Report)) {
	checks[id] = &check{id, rule, run}
}

func main() {
	prop := flag.String("prop", "", "property id, or all")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "framework directory")
	dump := flag.String("dump", "", "pkg:func - dump the paths of a function")
	flag.Parse()
	p, err := sim.Load(*repo, "")
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	if *dump != "" {
		dumpFunc(p, *dump)
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = []string{*prop}
	}
	rc := 0
	for _, id := range ids {
		c := checks[id]
		if c == nil {
			fmt.Fprintln(os.Stderr, "unknown property", id)
			os.Exit(2)
		}
		r := newReport(id)
		sim.Deadline = time.Now().Add(7 * time.Minute)
		r.Rule = c.rule
		func() {
			defer func() {
				if e := recover(); e != nil {
					fmt.Fprintf(os.Stderr, "%s: the analysis failed: %v\n%s", id, e, debug.Stack())
					r.Incomplete = append(r.Incomplete, fmt.Sprintf("internal error of the analyzer: %v", e))
					rc = 2
				}
			}()
			c.run(p, r)
		}()
		if r.Obligations == 0 {
			r.Ob("analysis", "vacuous", false, id, "no obligation was generated")
		}
		if n := r.finish(*verif, tier, seed); n > rc {
			rc = n
		}
	}
	os.Exit(rc)
}
