// Package drv drives the checks: it builds the simulated program from the
// repository's current source, searches seeds in parallel worker processes,
// proves the runs repeatable, turns a violation into a confirmed replay file
// and writes the evidence.
package drv

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/gen"
)

// Job is one world simulated for a property.
type Job struct {
	World   string
	Flavour string // plain, fine, race
	Share   float64
}

type Spec struct {
	ID          string
	Jobs        []Job
	Rule        string
	Real, Stub  []string
	Assumptions []string
	QuickSecs   float64
	DeepSecs    float64
}

type Violation struct {
	Prop  string `json:"property"`
	Kind  string `json:"kind"`
	Msg   string `json:"message"`
	Step  int    `json:"step"`
	Known string `json:"known,omitempty"`
}

type summary struct {
	Prop     string            `json:"prop"`
	World    string            `json:"world"`
	Shard    int               `json:"shard"`
	Runs     int64             `json:"runs"`
	SimTime  int64             `json:"sim_time"`
	Steps    int64             `json:"steps"`
	Faults   map[string]int    `json:"faults"`
	Counts   map[string]int    `json:"counts"`
	States   []uint64          `json:"states"`
	NT       []uint64          `json:"nontrivial"`
	Scheds   []uint64          `json:"schedules"`
	Known    map[string]string `json:"known"`
	Samples  []string          `json:"samples"`
	Hashes   map[string]string `json:"hashes"`
	Viol     *Violation        `json:"violation"`
	VRun     int64             `json:"violation_run"`
	VSeed    uint64            `json:"violation_seed"`
	Trace    json.RawMessage   `json:"trace"`
	Raw      json.RawMessage   `json:"raw_trace"`
	Elapsed  float64           `json:"elapsed"`
	InitTime float64           `json:"init_time"`
}

// ReplayFile is everything needed to repeat one violation.
type ReplayFile struct {
	Property  string          `json:"property"`
	World     string          `json:"world"`
	Flavour   string          `json:"flavour"`
	Seed      uint64          `json:"seed"`
	Run       int64           `json:"run"`
	RunSeed   uint64          `json:"run_seed"`
	Mode      string          `json:"mode"` // trace: replay the minimised trace; seed: rerun the seed; prefix: rerun the worker's runs up to it
	Shard     int             `json:"shard"`
	Of        int             `json:"of"`
	Tier      string          `json:"tier"`
	Violation *Violation      `json:"violation"`
	Trace     json.RawMessage `json:"trace,omitempty"`
	Raw       json.RawMessage `json:"raw_trace,omitempty"`
	HowTo     string          `json:"how_to"`
}

type Env struct {
	Verif   string // /verif
	Repo    string
	Scratch string
	GoCmd   string
	GoEnv   []string
	Tier    string
	Seed    uint64
	Procs   int
	built   map[string]string
	Built   map[string]float64 // seconds
	Lines   int
}

func NewEnv(verif, repo, scratch string) (*Env, error) {
	goCmd, err := exec.LookPath("go")
	if err != nil {
		return nil, err
	}
	e := &Env{Verif: verif, Repo: repo, Scratch: scratch, GoCmd: goCmd, Tier: "quick", Seed: 1, Procs: 8, built: map[string]string{}, Built: map[string]float64{}}
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		e.Tier = t
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return nil, fmt.Errorf("VERIF_SEED: %v", err)
		}
		e.Seed = uint64(n)
	}
	if p, err := strconv.Atoi(os.Getenv("VERIF_PROCS")); err == nil && p > 0 {
		e.Procs = p
	}
	e.GoEnv = append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")
	return e, nil
}

// Build generates and compiles the worker of a flavour.
func (e *Env) Build(flavour string) (string, error) {
	if w := e.built[flavour]; w != "" {
		return w, nil
	}
	start := time.Now()
	out := filepath.Join(e.Scratch, "src-"+flavour)
	if err := os.MkdirAll(out, 0o755); err != nil {
		return "", err
	}
	r, err := gen.Generate(gen.Config{Repo: e.Repo, RT: filepath.Join(e.Verif, "rt"), Out: out, Tags: []string{"verif"}, Env: e.GoEnv, GoCmd: e.GoCmd,
		Taps: map[string][]string{"lib/pool": {"Pool"}, "lib/executor": {"Execution"}}, Package: "app", Fine: flavour != "plain"})
	if err != nil {
		return "", fmt.Errorf("instrumenting: %v", err)
	}
	e.Lines = r.Lines
	bin := filepath.Join(e.Scratch, "worker-"+flavour)
	args := []string{"build", "-trimpath", "-tags", "verif", "-o", bin}
	env := e.GoEnv
	if flavour == "race" {
		args = append(args, "-race")
		env = append(append([]string(nil), env...), "CGO_ENABLED=1")
	}
	cmd := exec.Command(e.GoCmd, append(args, "./zsim/worker")...)
	cmd.Dir, cmd.Env = out, env
	if b, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building the simulated program: %v\n%s", err, b)
	}
	e.built[flavour] = bin
	e.Built[flavour] = time.Since(start).Seconds()
	return bin, nil
}

type runArgs struct {
	job    Job
	prop   string
	shard  int
	of     int
	secs   float64
	shrink float64
	max    int64
	only   string
	replay string
	procs  int
	limit  time.Duration
	seed   uint64
	tier   string
}

type died struct {
	out     string
	timeout bool
	at      string // run it was in
}

func (d *died) Error() string { return "worker died: " + d.out }

func (e *Env) worker(a runArgs) (*summary, error) {
	bin, err := e.Build(a.job.Flavour)
	if err != nil {
		return nil, err
	}
	f, err := os.CreateTemp(e.Scratch, "out-*.json")
	if err != nil {
		return nil, err
	}
	f.Close()
	defer os.Remove(f.Name())
	defer os.Remove(f.Name() + ".at")
	args := []string{"-prop", a.prop, "-world", a.job.World, "-seed", strconv.FormatUint(a.seed, 10), "-shard", strconv.Itoa(a.shard), "-of", strconv.Itoa(a.of),
		"-tier", a.tier, "-secs", fmt.Sprint(a.secs), "-shrink", fmt.Sprint(a.shrink), "-out", f.Name(), "-known", filepath.Join(e.Verif, "known_findings.json")}
	if a.max > 0 {
		args = append(args, "-max", strconv.FormatInt(a.max, 10))
	}
	if a.only != "" {
		args = append(args, "-only", a.only)
	}
	if a.replay != "" {
		args = append(args, "-replay", a.replay)
	}
	cmd := exec.Command(bin, args...)
	procs := a.procs
	if procs == 0 {
		procs = 1
	}
	logp := f.Name() + ".race"
	cmd.Env = append(os.Environ(), "GOMAXPROCS="+strconv.Itoa(procs), "GOTRACEBACK=single", "GORACE=log_path="+logp+" halt_on_error=0 exitcode=0 history_size=3 suppress_equal_stacks=0 suppress_equal_addresses=0", "VERIF_RACELOG="+logp)
	cmd.Dir = e.Scratch
	var eb bytes.Buffer
	cmd.Stderr = &eb
	cmd.Stdout = &eb
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	defer os.Remove(logp + "." + strconv.Itoa(cmd.Process.Pid))
	timeout := false
	tm := time.AfterFunc(a.limit, func() { timeout = true; cmd.Process.Kill() })
	err = cmd.Wait()
	tm.Stop()
	if err != nil {
		at, _ := os.ReadFile(f.Name() + ".at")
		o := eb.String()
		if len(o) > 3000 {
			o = o[:3000]
		}
		return nil, &died{fmt.Sprintf("%v\n%s", err, o), timeout, strings.TrimSpace(string(at))}
	}
	b, err := os.ReadFile(f.Name())
	if err != nil {
		return nil, err
	}
	var s summary
	if err := json.Unmarshal(b, &s); err != nil {
		return nil, fmt.Errorf("worker output: %v\n%s", err, eb.String())
	}
	return &s, nil
}

func (e *Env) knownFindings() (fixed []string, err error) {
	b, err := os.ReadFile(filepath.Join(e.Verif, "known_findings.json"))
	if err != nil {
		return nil, err
	}
	var k struct {
		Fixed []string `json:"fixed"`
	}
	return k.Fixed, json.Unmarshal(b, &k)
}

// Check decides one property. It returns the process exit status.
func (e *Env) Check(sp *Spec) int {
	begin := time.Now()
	secs := sp.QuickSecs
	if e.Tier == "thorough" {
		secs = sp.DeepSecs
	}
	if x, err := strconv.ParseFloat(os.Getenv("VERIF_SECS"), 64); err == nil {
		secs = x
	}
	// Build every flavour needed, at the same time.
	for _, j := range sp.Jobs {
		if _, err := e.Build(j.Flavour); err != nil {
			fmt.Println("ERROR", sp.ID, err)
			return 2
		}
	}
	ev := newEvidence(e, sp)
	for _, j := range sp.Jobs {
		e.timing(begin, "build or previous job")
		ss, viol, err := e.search(sp, j, secs*j.Share)
		e.timing(begin, "search "+j.World+" "+j.Flavour)
		for _, s := range ss {
			ev.add(j, s)
		}
		if err != nil {
			fmt.Println("ERROR", sp.ID, err)
			return 2
		}
		if viol != nil {
			path, err := e.confirm(sp, j, viol)
			if err != nil {
				fmt.Println("ERROR", sp.ID, err)
				return 2
			}
			ev.violations++
			ev.write(time.Since(begin).Seconds())
			v := viol.Violation
			fmt.Printf("%s\n", v.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", sp.ID, path)
			return 1
		}
		if j.Flavour == "race" && e.Tier != "thorough" {
			continue // starting a process takes 35 s there; the same world is resampled without the detector
		}
		mism, n, err := e.resample(sp, j, ss)
		e.timing(begin, "resampling "+j.World+" "+j.Flavour)
		if err != nil {
			fmt.Println("ERROR", sp.ID, err)
			return 2
		}
		ev.rechecked += n
		if mism != "" {
			fmt.Println("ERROR", sp.ID, "the simulation is not repeatable:", mism)
			return 2
		}
	}
	ev.write(time.Since(begin).Seconds())
	for _, id := range sortedKeys(ev.known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", sp.ID, id, ev.known[id])
	}
	fmt.Printf("OK property=%s tier=%s seed=%d runs=%d distinct=%d wall=%.0fs\n", sp.ID, e.Tier, e.Seed, ev.runs, len(ev.nt), time.Since(begin).Seconds())
	return 0
}

func (e *Env) timing(begin time.Time, what string) {
	if os.Getenv("VERIF_TIMING") != "" {
		fmt.Fprintf(os.Stderr, "%6.1f s: end of %s\n", time.Since(begin).Seconds(), what)
	}
}

// search runs one worker per processor over disjoint seeds.
func (e *Env) search(sp *Spec, j Job, secs float64) ([]*summary, *ReplayFile, error) {
	ss := make([]*summary, e.Procs)
	errs := make([]error, e.Procs)
	shrink := 20.0
	if e.Tier == "thorough" {
		shrink = 60
	}
	var wg sync.WaitGroup
	args := func(i int) runArgs {
		return runArgs{job: j, prop: sp.ID, shard: i, of: e.Procs, secs: secs, shrink: shrink, seed: e.Seed, tier: e.Tier,
			limit: time.Duration((secs + shrink*2 + 120) * float64(time.Second))}
	}
	for i := 0; i < e.Procs; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ss[i], errs[i] = e.worker(args(i))
		}(i)
	}
	wg.Wait()
	var ok []*summary
	var best *ReplayFile
	for i := range ss {
		if s := ss[i]; s != nil {
			ok = append(ok, s)
			if s.Viol != nil {
				r := &ReplayFile{Property: sp.ID, World: j.World, Flavour: j.Flavour, Seed: e.Seed, Run: s.VRun, RunSeed: s.VSeed, Shard: s.Shard, Of: e.Procs, Tier: e.Tier, Violation: s.Viol, Trace: s.Trace, Raw: s.Raw}
				if best == nil || len(r.Trace) > 0 && (len(best.Trace) == 0 || len(r.Trace) < len(best.Trace)) {
					best = r
				}
			}
		}
	}
	if best != nil {
		return ok, best, nil
	}
	// A worker that died: does the run it was in kill a fresh process too?
	for i, err := range errs {
		if err == nil {
			continue
		}
		var d *died
		if !errors.As(err, &d) || d.at == "" {
			return ok, nil, err
		}
		run, perr := strconv.ParseInt(d.at, 10, 64)
		if perr != nil {
			return ok, nil, err
		}
		a := args(i)
		a.only, a.limit = d.at, 180*time.Second
		_, err2 := e.worker(a)
		var d2 *died
		if !errors.As(err2, &d2) {
			return ok, nil, fmt.Errorf("worker %d died in run %s but not when repeated: %v", i, d.at, err)
		}
		// Panics of the program are caught and judged; only what the Go runtime
		// cannot be stopped from (fatal errors) is the program's own doing.
		if !d2.timeout && strings.Contains(d2.out, "panic: ") && !strings.Contains(d2.out, "fatal error: ") {
			return ok, nil, fmt.Errorf("the harness failed in run %s: %s", d.at, first(d2.out, 1500))
		}
		kind := "process-crash"
		if d2.timeout {
			kind = "no-progress"
		}
		return ok, &ReplayFile{Property: sp.ID, World: j.World, Flavour: j.Flavour, Seed: e.Seed, Run: run, Shard: i, Of: e.Procs, Tier: e.Tier, Mode: "seed",
			Violation: &Violation{Prop: sp.ID, Kind: kind, Msg: "the simulated program takes its whole process down: " + first(d2.out, 600)}}, nil
	}
	return ok, nil, nil
}

func first(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// resample repeats a sample of the runs in fresh processes, grouped otherwise
// and with another number of threads, and compares everything observable.
func (e *Env) resample(sp *Spec, j Job, ss []*summary) (string, int, error) {
	want := map[string]string{}
	var idx []int64
	per := 6
	if e.Tier == "thorough" {
		per = 40
	}
	for _, s := range ss {
		var ks []int64
		for k := range s.Hashes {
			n, _ := strconv.ParseInt(k, 10, 64)
			ks = append(ks, n)
		}
		sort.Slice(ks, func(a, b int) bool { return ks[a] < ks[b] })
		// the first ones and some further on, after the worker has a history
		var pick []int64
		for i := 0; i < len(ks) && len(pick) < per/2; i++ {
			pick = append(pick, ks[i])
		}
		for i := len(ks) - 1; i >= per/2 && len(pick) < per; i -= 1 + len(ks)/per {
			pick = append(pick, ks[i])
		}
		for _, n := range pick {
			want[strconv.FormatInt(n, 10)] = s.Hashes[strconv.FormatInt(n, 10)]
			idx = append(idx, n)
		}
	}
	if len(idx) == 0 {
		return "", 0, nil
	}
	// deal them so that no process repeats its own shard's order
	groups := make([][]string, e.Procs)
	sort.Slice(idx, func(a, b int) bool { return idx[a] > idx[b] })
	for i, n := range idx {
		g := (i*5 + i/e.Procs) % e.Procs
		groups[g] = append(groups[g], strconv.FormatInt(n, 10))
	}
	secs := 5.0
	if e.Tier == "thorough" {
		secs = 60
	}
	res := make([]*summary, len(groups))
	errs := make([]error, len(groups))
	var wg sync.WaitGroup
	for i := range groups {
		if len(groups[i]) == 0 {
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			res[i], errs[i] = e.worker(runArgs{job: j, prop: sp.ID, of: 1, secs: secs, only: strings.Join(groups[i], ","), procs: 1 + i%4, limit: time.Duration(secs+180) * time.Second, seed: e.Seed, tier: e.Tier})
		}(i)
	}
	wg.Wait()
	n := 0
	for i := range res {
		if errs[i] != nil {
			return "", n, errs[i]
		}
		if res[i] == nil {
			continue
		}
		for k, h := range res[i].Hashes {
			n++
			if want[k] != h {
				return fmt.Sprintf("run %s gave %s and then %s", k, want[k], h), n, nil
			}
		}
	}
	return "", n, nil
}

// confirm repeats the violation in a fresh process and writes the replay file.
func (e *Env) confirm(sp *Spec, j Job, r *ReplayFile) (string, error) {
	dir := filepath.Join(e.Verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", sp.ID, r.Seed, r.Run))
	r.HowTo = "cd " + e.Verif + " && ./check --replay " + path
	modes := []string{"trace", "raw", "seed", "prefix"}
	if r.Mode != "" {
		modes = []string{r.Mode}
	}
	for _, m := range modes {
		x := *r
		x.Mode = m
		if m == "raw" {
			x.Mode, x.Trace = "trace", r.Raw
		}
		if x.Mode == "trace" && len(x.Trace) == 0 {
			continue
		}
		v, err := e.replay(&x)
		if err != nil {
			return "", err
		}
		if v != nil && (v.Kind == r.Violation.Kind || v.Prop == r.Violation.Prop) {
			x.Violation = v
			if m != "raw" {
				x.Raw = r.Raw
			} else {
				x.Raw = nil
			}
			b, err := json.MarshalIndent(&x, "", " ")
			if err != nil {
				return "", err
			}
			r.Violation = v
			return path, os.WriteFile(path, b, 0o644)
		}
	}
	return "", fmt.Errorf("violation of run %d (%s: %s) could not be reproduced in a fresh process", r.Run, r.Violation.Kind, r.Violation.Msg)
}

func (e *Env) replay(r *ReplayFile) (*Violation, error) {
	j := Job{World: r.World, Flavour: r.Flavour}
	a := runArgs{job: j, prop: r.Property, of: 1, secs: 600, seed: r.Seed, tier: r.Tier, limit: 300 * time.Second}
	switch r.Mode {
	case "trace":
		f := filepath.Join(e.Scratch, "replay.json")
		if err := os.WriteFile(f, r.Trace, 0o644); err != nil {
			return nil, err
		}
		a.replay = f
	case "seed":
		a.only = strconv.FormatInt(r.Run, 10)
	case "prefix":
		a.shard, a.of, a.max = r.Shard, r.Of, (r.Run-int64(r.Shard))/int64(r.Of)+1
	default:
		return nil, fmt.Errorf("replay mode %q", r.Mode)
	}
	s, err := e.worker(a)
	if err != nil {
		var d *died
		if errors.As(err, &d) && r.Violation != nil && (r.Violation.Kind == "process-crash" || r.Violation.Kind == "no-progress") {
			return r.Violation, nil
		}
		return nil, err
	}
	return s.Viol, nil
}

// Replay repeats a replay file.
func (e *Env) Replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	var r ReplayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	v, err := e.replay(&r)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	if v == nil {
		fmt.Printf("property %s holds on this trace\n", r.Property)
		return 0
	}
	fmt.Printf("step %d [%s] %s\n", v.Step, v.Kind, v.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
	return 1
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
