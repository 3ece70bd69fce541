// Command worker simulates seeds of one world and judges one property.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"uniswap-simulator/zsim/rng"
	"uniswap-simulator/zsim/worlds"
)

type summary struct {
	Prop     string            `json:"prop"`
	World    string            `json:"world"`
	Shard    int               `json:"shard"`
	Runs     int64             `json:"runs"`
	SimTime  int64             `json:"sim_time"`
	Steps    int64             `json:"steps"`
	Faults   map[string]int    `json:"faults"`
	Counts   map[string]int    `json:"counts"`
	States   []uint64          `json:"states"`
	NT       []uint64          `json:"nontrivial"`
	Scheds   []uint64          `json:"schedules"`
	Known    map[string]string `json:"known"`
	Samples  []string          `json:"samples"`
	Hashes   map[string]string `json:"hashes"` // run index -> fingerprint
	Viol     *worlds.Violation `json:"violation,omitempty"`
	VRun     int64             `json:"violation_run"`
	VSeed    uint64            `json:"violation_seed"`
	Trace    json.RawMessage   `json:"trace,omitempty"`
	Raw      json.RawMessage   `json:"raw_trace,omitempty"`
	Elapsed  float64           `json:"elapsed"`
	InitTime float64           `json:"init_time"`
}

func main() {
	begin := time.Now()
	prop := flag.String("prop", "", "property")
	world := flag.String("world", "", "world")
	seed := flag.Uint64("seed", 1, "master seed")
	shard := flag.Int("shard", 0, "this worker")
	of := flag.Int("of", 1, "number of workers")
	tier := flag.String("tier", "quick", "quick or thorough")
	secs := flag.Float64("secs", 10, "time for searching")
	max := flag.Int64("max", 1<<60, "most runs")
	shrink := flag.Float64("shrink", 20, "time for minimising")
	out := flag.String("out", "", "summary file")
	replay := flag.String("replay", "", "trace to replay")
	only := flag.String("only", "", "run indices to run, comma separated")
	known := flag.String("known", "", "known findings")
	prof := flag.String("prof", "", "cpu profile")
	flag.Parse()
	debug.SetGCPercent(400)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	w := worlds.Get(*world, *known)
	if w == nil {
		fmt.Fprintln(os.Stderr, "unknown world", *world)
		os.Exit(2)
	}
	s := &summary{Prop: *prop, World: *world, Shard: *shard, Faults: map[string]int{}, Counts: map[string]int{}, Known: map[string]string{}, Hashes: map[string]string{}}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		rep := w.Replay(b, *prop)
		s.Viol = rep.Viol
		s.Runs = 1
		s.Known = rep.Known
		s.Hashes["0"] = strconv.FormatUint(rep.Hash, 16)
		write(*out, s)
		return
	}
	var at *os.File
	if *out != "" {
		at, _ = os.Create(*out + ".at") // the run in progress, for a run that kills the process
	}
	var idx []int64
	if *only != "" {
		for _, x := range strings.Split(*only, ",") {
			n, err := strconv.ParseInt(x, 10, 64)
			if err != nil {
				panic(err)
			}
			idx = append(idx, n)
		}
	}
	states, nt, scheds := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	s.InitTime = time.Since(begin).Seconds()
	start := time.Now()
	deadline := start.Add(time.Duration(*secs * float64(time.Second)))
	for n := int64(0); n < *max; n++ {
		k := n*int64(*of) + int64(*shard)
		if idx != nil {
			if n >= int64(len(idx)) || n > 0 && !time.Now().Before(deadline) {
				break
			}
			k = idx[n]
		} else if n > 0 && !time.Now().Before(deadline) {
			break
		}
		if at != nil {
			at.WriteAt([]byte(fmt.Sprintf("%-20d", k)), 0)
		}
		sd := rng.Derive(*seed, uint64(k), hash(*prop))
		rep := w.Run(sd, *prop, *tier)
		s.Runs++
		s.SimTime += rep.SimTime
		s.Steps += rep.Steps
		for f, c := range rep.Faults {
			s.Faults[f] += c
		}
		for f, c := range rep.Counts {
			s.Counts[f] += c
		}
		for x := range rep.States {
			if len(states) < 200_000 {
				states[x] = true
			}
		}
		if rep.Nontriv && len(nt) < 200_000 {
			nt[rep.NTKey] = true
		}
		if rep.Schedule != 0 && len(scheds) < 200_000 {
			scheds[rep.Schedule] = true
		}
		for id, what := range rep.Known {
			if _, ok := s.Known[id]; !ok {
				s.Known[id] = what
			}
		}
		if n < 3 && rep.Sample != "" {
			s.Samples = append(s.Samples, fmt.Sprintf("run %d (seed %d): %s", k, sd, rep.Sample))
		}
		if n < 200 || idx != nil {
			s.Hashes[strconv.FormatInt(k, 10)] = strconv.FormatUint(rep.Hash, 16)
		}
		if rep.Viol != nil {
			s.Viol, s.VRun, s.VSeed, s.Raw = rep.Viol, k, sd, rep.Trace
			if *shrink > 0 {
				stop := time.Now().Add(time.Duration(*shrink * float64(time.Second)))
				small := w.Shrink(rep.Trace, *prop, rep.Viol, func() bool { return time.Now().Before(stop) })
				if r2 := w.Replay(small, *prop); r2.Viol != nil && r2.Viol.Kind == rep.Viol.Kind {
					s.Viol, s.Trace = r2.Viol, small
				}
			}
			break
		}
	}
	s.Elapsed = time.Since(start).Seconds()
	s.States, s.NT, s.Scheds = keys(states), keys(nt), keys(scheds)
	write(*out, s)
}

func keys(m map[uint64]bool) []uint64 {
	ks := make([]uint64, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func write(path string, s *summary) {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	if path == "" {
		fmt.Println(string(b))
		return
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
}
