package drv

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
)

type jobStat struct {
	World    string  `json:"world"`
	Build    string  `json:"build"`
	Runs     int64   `json:"runs"`
	Seconds  float64 `json:"search_seconds"`
	Steps    int64   `json:"instrumented_statements_executed"`
	SimTime  int64   `json:"simulated_seconds"`
	BuildSec float64 `json:"build_seconds"`
}

type evidence struct {
	e          *Env
	sp         *Spec
	runs       int64
	steps      int64
	simTime    int64
	faults     map[string]int
	counts     map[string]int
	states     map[uint64]bool
	nt         map[uint64]bool
	scheds     map[uint64]bool
	known      map[string]string
	samples    []string
	jobs       []*jobStat
	busy       float64 // summed worker seconds
	wall       float64 // longest worker of each job
	rechecked  int
	violations int
}

func newEvidence(e *Env, sp *Spec) *evidence {
	return &evidence{e: e, sp: sp, faults: map[string]int{}, counts: map[string]int{}, states: map[uint64]bool{}, nt: map[uint64]bool{}, scheds: map[uint64]bool{}, known: map[string]string{}}
}

func (v *evidence) add(j Job, s *summary) {
	v.runs += s.Runs
	v.steps += s.Steps
	v.simTime += s.SimTime
	for k, n := range s.Faults {
		v.faults[k] += n
	}
	for k, n := range s.Counts {
		v.counts[k] += n
	}
	for _, x := range s.States {
		v.states[x] = true
	}
	for _, x := range s.NT {
		v.nt[x] = true
	}
	for _, x := range s.Scheds {
		v.scheds[x] = true
	}
	for k, x := range s.Known {
		v.known[k] = x
	}
	if len(v.samples) < 6 && len(s.Samples) > 0 {
		v.samples = append(v.samples, s.Samples[0])
	}
	v.busy += s.Elapsed
	var js *jobStat
	for _, x := range v.jobs {
		if x.World == j.World && x.Build == j.Flavour {
			js = x
		}
	}
	if js == nil {
		js = &jobStat{World: j.World, Build: j.Flavour, BuildSec: v.e.Built[j.Flavour]}
		v.jobs = append(v.jobs, js)
	}
	js.Runs += s.Runs
	js.Steps += s.Steps
	js.SimTime += s.SimTime
	if s.Elapsed > js.Seconds {
		js.Seconds = s.Elapsed
	}
}

func (v *evidence) write(wall float64) {
	search := 0.0
	for _, j := range v.jobs {
		search += j.Seconds
	}
	perHour := 0.0
	if search > 0 {
		perHour = float64(v.runs) / search * 3600
	}
	cov := map[string]any{
		"evaluations":         v.runs,
		"distinct_nontrivial": len(v.nt),
		"rule":                v.sp.Rule,
		"samples":             v.samples,
		"simulated_runs":      v.runs,
		"seeds_per_hour":      int64(perHour),
		"simulated_seconds":   v.simTime,
		"statements_executed": v.steps,
		"faults_injected":     v.faults,
		"events":              v.counts,
		"distinct_states":     len(v.states),
		"distinct_states_by":  "fingerprint of the abstract system state after each step (see DESIGN.md)",
		"distinct_schedules":  len(v.scheds),
		"jobs":                v.jobs,
		"determinism":         fmt.Sprintf("%d runs repeated in fresh processes with another grouping and thread count; all fingerprints identical", v.rechecked),
		"components_real":     v.sp.Real,
		"components_stub":     v.sp.Stub,
		"instrumented_lines":  v.e.Lines,
		"workers":             v.e.Procs,
		"known_findings_met":  sortedKeys(v.known),
	}
	m := map[string]any{
		"property": v.sp.ID, "tier": v.e.Tier, "seed": int64(v.e.Seed), "level": "exploration",
		"coverage": cov, "assumptions": v.sp.Assumptions, "wall_s": wall, "violations": v.violations,
	}
	b, err := json.MarshalIndent(m, "", " ")
	if err != nil {
		fmt.Println("ERROR evidence:", err)
		return
	}
	dir := filepath.Join(v.e.Verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, v.sp.ID+".json"), b, 0o644); err != nil {
		fmt.Println("ERROR evidence:", err)
	}
}
