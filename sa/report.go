package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"plzsa/sim"
)

// Violation is one broken obligation.
type Violation struct {
	Key   string   `json:"key"`   // rule + construct, stable under line shifts
	Where string   `json:"where"` // file:line (function)
	Msg   string   `json:"msg"`
	Path  []string `json:"path,omitempty"`
}

// Report collects what one check analysed.
type Report struct {
	Prop        string
	Rule        string
	Obligations int
	Discharged  int
	Rules       map[string]int
	Viol        []Violation
	Samples     []string
	Notes       []string
	Funcs       map[string]bool
	Paths       int
	Steps       int
	Assumptions []string
	Incomplete  []string // why parts were left unexamined
	seen        map[string]bool
	t0          time.Time
}

func newReport(prop string) *Report {
	return &Report{Prop: prop, Rules: map[string]int{}, Funcs: map[string]bool{}, seen: map[string]bool{}, t0: time.Now()}
}

// Ob records one obligation of a rule on a construct.
func (r *Report) Ob(rule, construct string, ok bool, where, msg string, path ...string) bool {
	r.Obligations++
	r.Rules[rule]++
	if ok {
		r.Discharged++
		if r.Rules[rule] <= 2 && len(r.Samples) < 24 {
			r.Samples = append(r.Samples, rule+" | "+construct+" | holds")
		}
		return true
	}
	if sim.TimeUp() && (rule == "coverage" || rule == "anchor") {
		// a consequence of not having examined everything
		r.Incomplete = append(r.Incomplete, rule+" of "+construct+" not established in the time there is")
		return false
	}
	key := rule + "@" + construct
	if r.seen[key] {
		return false
	}
	r.seen[key] = true
	r.Viol = append(r.Viol, Violation{Key: key, Where: where, Msg: msg, Path: path})
	if t := time.Now().Add(2 * time.Minute); t.Before(sim.Deadline) {
		sim.Deadline = t // there is something to report: do not look for more for long
	}
	return false
}

// Merge adds what another report found on the same machine.
func (r *Report) Merge(o *Report) {
	r.Obligations += o.Obligations
	r.Discharged += o.Discharged
	for k, n := range o.Rules {
		r.Rules[k] += n
	}
	for _, v := range o.Viol {
		if !r.seen[v.Key] {
			r.seen[v.Key] = true
			r.Viol = append(r.Viol, v)
		}
	}
	for _, n := range o.Notes {
		r.Note("%s", n)
	}
	r.Incomplete = append(r.Incomplete, o.Incomplete...)
}

// Need reports a missing anchor.
func (r *Report) Need(ok bool, what string) bool {
	return r.Ob("anchor", what, ok, what, "the construct this property is anchored to is missing")
}

func (r *Report) Note(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for _, n := range r.Notes {
		if n == s {
			return
		}
	}
	if len(r.Notes) < 60 {
		r.Notes = append(r.Notes, s)
	}
}

func (r *Report) Absorb(m *sim.Machine) {
	for f := range m.Funcs {
		r.Funcs[f.String()] = true
	}
	r.Paths += m.Paths
	r.Steps += m.Steps
	if m.Overflow {
		r.Incomplete = append(r.Incomplete, "the exploration budget was exhausted: only part of the paths was examined")
	}
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // known | fixed
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks []knownFinding
	if err := json.Unmarshal(b, &ks); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
	}
	return ks
}

func (r *Report) finish(verif, tier string, seed int) int {
	var left []Violation
	known := loadKnown(filepath.Join(verif, "known_findings.json"))
	nKnown := 0
	for _, v := range r.Viol {
		match := false
		for _, k := range known {
			if k.Property == r.Prop && k.Status == "known" && k.Key == v.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, k.What)
				match = true
				nKnown++
			}
		}
		if !match {
			left = append(left, v)
		}
	}
	var funcs []string
	for f := range r.Funcs {
		funcs = append(funcs, strings.ReplaceAll(f, "github.com/v2pro/plz", "plz"))
	}
	sort.Strings(funcs)
	ev := map[string]interface{}{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":         r.Rule,
			"obligations":         r.Obligations,
			"discharged":          r.Discharged,
			"obligations_by_rule": r.Rules,
			"functions_analysed":  len(funcs),
			"functions":           funcs,
			"paths":               r.Paths,
			"abstract_steps":      r.Steps,
			"samples":             r.Samples,
			"notes":               r.Notes,
			"known_findings":      nKnown,
			"incomplete":          r.Incomplete,
		},
		"assumptions": r.Assumptions,
		"wall_s":      time.Since(r.t0).Seconds(),
		"violations":  len(left),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.Prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %d paths\n", r.Prop, r.Obligations, r.Discharged, len(funcs), r.Paths)
	for _, s := range r.Incomplete {
		fmt.Printf("INCOMPLETE property=%s %s\n", r.Prop, s)
	}
	if len(left) == 0 {
		return 0
	}
	rp := filepath.Join(verif, "evidence", r.Prop+".violation.txt")
	var sb strings.Builder
	for _, v := range left {
		fmt.Fprintf(&sb, "%s\n  at   %s\n  what %s\n", v.Key, v.Where, v.Msg)
		for _, p := range v.Path {
			fmt.Fprintf(&sb, "       %s\n", p)
		}
	}
	os.WriteFile(rp, []byte(sb.String()), 0644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rp)
	return 1
}
