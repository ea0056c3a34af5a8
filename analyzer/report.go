package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Violation struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Msg       string   `json:"message"`
	Config    string   `json:"config"`
	Path      []string `json:"path,omitempty"`
}

// Report collects the obligations of one property.
type Report struct {
	Prop   string
	Config string
	obl    map[string]bool // rule|construct -> discharged
	evals  int
	viol   map[string]*Violation
	rules  map[string]int
	notes  map[string]int
	fns    map[*ssa.Function]bool
	paths  int
	joins  int
	steps  int
	expl   []string
	assume []string
	// survive: possible run-time failures are obligations (C26)
	survive  bool
	disabled bool // the scenes are analysed with the processor disabled
}

func newReport(prop string) *Report {
	return &Report{Prop: prop, obl: map[string]bool{}, viol: map[string]*Violation{}, rules: map[string]int{},
		notes: map[string]int{}, fns: map[*ssa.Function]bool{}}
}

// Check records one evaluation of an obligation.
func (r *Report) Check(rule, construct string, ok bool, st *State, format string, a ...interface{}) bool {
	if r == nil {
		return ok
	}
	r.evals++
	k := rule + "|" + construct
	if old, seen := r.obl[k]; !seen {
		r.obl[k] = ok
		r.rules[rule]++
	} else {
		r.obl[k] = old && ok
	}
	if !ok {
		if _, dup := r.viol[k]; !dup {
			v := &Violation{Rule: rule, Construct: construct, Msg: fmt.Sprintf(format, a...), Config: r.Config}
			if st != nil {
				v.Path = st.trace()
			}
			r.viol[k] = v
		}
	}
	return ok
}

func (r *Report) Fail(rule, construct string, st *State, format string, a ...interface{}) {
	r.Check(rule, construct, false, st, format, a...)
}

func (r *Report) Note(k string, n int) { r.notes[k] += n }
func (r *Report) Notes(k string) int   { return r.notes[k] }

// absorb takes over the statistics of an interpreter run.
func (r *Report) absorb(in *Interp) {
	for f := range in.fns {
		r.fns[f] = true
	}
	r.paths += in.paths
	r.joins += in.joins
	r.steps += in.steps
	if in.over {
		r.Fail("analysis", "budget", nil, "the analysis did not finish within its step budget")
	}
	for u := range in.undec {
		r.Fail("analysis", u, nil, "the analysis could not interpret this construct")
	}
}

// attempts runs the analysis under successively stronger (and then also
// checked) assumptions; the first run without violations counts, else the last.
func (r *Report) attempts(runs ...func(*Report)) {
	for i, run := range runs {
		if i == len(runs)-1 {
			run(r)
			return
		}
		s := newReport(r.Prop)
		s.Config, s.survive = r.Config, r.survive
		run(s)
		if len(s.viol) == 0 {
			r.merge(s)
			return
		}
	}
}

func (r *Report) merge(s *Report) {
	for k, ok := range s.obl {
		if old, seen := r.obl[k]; !seen {
			r.obl[k] = ok
		} else {
			r.obl[k] = old && ok
		}
	}
	for k, v := range s.viol {
		if _, dup := r.viol[k]; !dup {
			r.viol[k] = v
		}
	}
	for k, n := range s.rules {
		r.rules[k] += n
	}
	for k, n := range s.notes {
		r.notes[k] += n
	}
	for f := range s.fns {
		r.fns[f] = true
	}
	r.evals += s.evals
	r.paths += s.paths
	r.joins += s.joins
	r.steps += s.steps
}

type knownFinding struct{ prop, key string }

func loadKnown(path, prop string) map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		m[strings.TrimSpace(strings.TrimPrefix(l, "known: property="+prop+" "))] = true
	}
	return m
}

func (r *Report) finish(verif, tier string, seed int, start time.Time, configs []string) int {
	known := loadKnown(filepath.Join(verif, "known_findings.txt"), r.Prop)
	var keys []string
	for k := range r.viol {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var out []*Violation
	for _, k := range keys {
		if known[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, k)
			continue
		}
		out = append(out, r.viol[k])
	}
	discharged := 0
	for _, ok := range r.obl {
		if ok {
			discharged++
		}
	}
	var fns []string
	for f := range r.fns {
		fns = append(fns, short(f))
	}
	sort.Strings(fns)
	var samples []string
	var oks []string
	for k := range r.obl {
		oks = append(oks, k)
	}
	sort.Strings(oks)
	for i := 0; i < len(oks); i += 1 + len(oks)/12 {
		st := "holds"
		if !r.obl[oks[i]] {
			st = "FAILS"
		}
		samples = append(samples, oks[i]+": "+st)
	}
	cov := map[string]interface{}{
		"explanation":          strings.Join(r.expl, " "),
		"obligations":          len(r.obl),
		"discharged":           discharged,
		"rule_evaluations":     r.evals,
		"obligations_per_rule": r.rules,
		"functions_analysed":   len(fns),
		"functions":            fns,
		"abstract_paths":       r.paths,
		"loop_joins":           r.joins,
		"instructions":         r.steps,
		"configurations":       configs,
		"samples":              samples,
		"counts":               r.notes,
	}
	ev := map[string]interface{}{
		"property":    r.Prop,
		"tier":        tier,
		"seed":        seed,
		"level":       "other",
		"coverage":    cov,
		"assumptions": r.assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(out),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", r.Prop+".json"), append(b, '\n'), 0644)
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %d abstract paths, %d violations\n",
		r.Prop, len(r.obl), discharged, len(fns), r.paths, len(out))
	if len(out) == 0 {
		return 0
	}
	rp := filepath.Join(verif, "evidence", r.Prop+".violations.json")
	b, _ = json.MarshalIndent(out, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0644)
	for _, v := range out {
		fmt.Printf("  %s at %s: %s\n", v.Rule, v.Construct, v.Msg)
		for _, p := range v.Path {
			fmt.Printf("      %s\n", p)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rp)
	return 1
}
