package worlds

import (
	"encoding/json"
	"fmt"
	realos "os"
	"strings"

	"uniswap-simulator/lib/executor"
	"uniswap-simulator/lib/pool"
	strat "uniswap-simulator/lib/strategy"
	ent "uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zsim/rng"
	"uniswap-simulator/zsim/simrt"
	"uniswap-simulator/zsim/sync"
	"uniswap-simulator/zsim/verifall"
)

// ConcWorld: several backtests of different strategies in one process, started
// from the same pool, start amounts and transaction list, interleaved statement
// by statement.
type ConcWorld struct{}

// ConcTrace is one scenario. Pool, funds and base liquidity are those of the
// first run; the others differ in strategy, parameters, window and intervals.
type ConcTrace struct {
	Runs     []ExecCfg        `json:"runs"`
	Txs      []TxRec          `json:"txs"`
	Late     []bool           `json:"late"`           // prepared by its own task, while others run
	Waves    int              `json:"waves"`          // started in this many groups, one after another
	Wind     []bool           `json:"wind,omitempty"` // asks for its amounts once more when done
	Policy   simrt.Policy     `json:"policy"`
	Seed     uint64           `json:"seed"`
	Schedule []simrt.Decision `json:"schedule,omitempty"`
	Exact    bool             `json:"exact,omitempty"`
	Kill     int64            `json:"kill,omitempty"` // the process is killed at this step and everything is run again from the same inputs
}

// shared is what all runs start from.
type shared struct {
	pool   *pool.Pool
	a0, a1 *ui.Int
	txs    []ent.Transaction
}

// result is what one run gave.
type concResult struct {
	prepared bool
	ended    bool
	values   []string
	idle     string
	price    string
}

func (c *concResult) String() string {
	if c == nil {
		return "not run"
	}
	return fmt.Sprintf("values %v, final funds %s, pool %s", c.values, c.idle, c.price)
}

type concRun struct {
	t     *ConcTrace
	rep   *Report
	solo  []*concResult
	first error
	ticks map[int]bool
}

func (r *concRun) fail(kind, f string, a ...any) {
	if id := knownID("C08", kind, ""); id != "" {
		r.rep.Known[id] = kind + ": " + fmt.Sprintf(f, a...)
		return
	}
	if r.rep.Viol == nil {
		r.rep.Viol = &Violation{Prop: "C08", Kind: kind, Msg: fmt.Sprintf(f, a...)}
	}
}

func (t *ConcTrace) inputs() (*shared, Call) {
	p, c := basePool(t.Runs[0])
	if p == nil || c.Panicked {
		return nil, c
	}
	return &shared{pool: p, a0: U(t.Runs[0].A0), a1: U(t.Runs[0].A1), txs: entities(t.Txs)}, c
}

func prepare(c ExecCfg, in *shared) *executor.Execution {
	s := newStrategy(c, in.a0, in.a1, in.pool)
	return executor.CreateExecution(s, c.Start, c.End, c.Upd, c.Snap, c.PI, in.txs)
}

func outcomeOf(e *executor.Execution, s strat.Strategy, res *concResult) {
	for _, v := range e.AmountUSDSnapshots {
		res.values = append(res.values, B(v).String())
	}
	a, b := s.GetAmounts()
	res.idle = fmt.Sprint(B(a), " ", B(b))
	p := s.GetPool()
	res.price = fmt.Sprint(B(p.SqrtRatioX96), " ", p.TickCurrent, " ", B(p.Liquidity))
	res.ended = true
}

func strategyOf(e *executor.Execution) strat.Strategy {
	if f := execField(e, "Strategy"); f.IsValid() {
		if s, ok := f.Interface().(strat.Strategy); ok {
			return s
		}
	}
	return nil
}

// alone runs one configuration by itself.
func alone(c ExecCfg, in *shared) (*concResult, Call) {
	res := &concResult{}
	simrt.ResetTaps()
	simrt.SeedMaps(1)
	call := DoQuiet(1<<36, func() {
		e := prepare(c, in)
		res.prepared = true
		e.Run()
		outcomeOf(e, strategyOf(e), res)
	})
	return res, call
}

// look writes down the shared inputs.
func (r *concRun) look(in *shared) string {
	o := &poolRun{ticks: r.ticks}
	var b strings.Builder
	b.WriteString(o.observe(in.pool))
	fmt.Fprintf(&b, ";fee %d %s/%s;funds %v %v", in.pool.Fee, in.pool.Token0, in.pool.Token1, B(in.a0), B(in.a1))
	for i := range in.txs {
		x := &in.txs[i]
		fmt.Fprintf(&b, ";%s %s %d %d %d %d %v", x.Type, x.ID, x.Timestamp, x.Tick, x.TickLower, x.TickUpper, x.UseX96)
		for _, z := range []*ui.Int{x.Amount, x.Amount0, x.Amount1, x.SqrtPriceX96} {
			if z == nil {
				b.WriteString(" nil")
			} else {
				fmt.Fprintf(&b, " %x.%x.%x.%x", z[3], z[2], z[1], z[0])
			}
		}
	}
	return b.String()
}

func diffLook(a, b string) string {
	x, y := strings.Split(a, ";"), strings.Split(b, ";")
	for i := range x {
		if i >= len(y) {
			return fmt.Sprintf("%q is gone", x[i])
		}
		if x[i] != y[i] {
			return fmt.Sprintf("%q became %q", x[i], y[i])
		}
	}
	return fmt.Sprintf("%q is new", y[len(x)])
}

func (c ExecCfg) label() string {
	return fmt.Sprintf("%s w=%d/%d n=%d mul=%d every %d/%d/%d s", c.Strat, c.W, c.Sec, c.N, c.Mul, c.Upd, c.Snap, c.PI)
}

func runConc(t *ConcTrace, record bool) (r *concRun, sched []simrt.Decision) {
	r = &concRun{t: t, rep: NewReport(), ticks: map[int]bool{}}
	rep := r.rep
	simrt.TapHandler = nil
	for _, x := range t.Txs {
		if simrt.RaceBuild {
			break // asking for absent ticks panics, which confuses the race detector's stacks
		}
		r.ticks[x.Lo], r.ticks[x.Hi] = true, true
	}
	for _, b := range t.Runs[0].Base {
		r.ticks[b.Lo], r.ticks[b.Hi] = true, true
	}
	// what each run gives alone, in a fresh process
	var cfgs []ExecCfg
	var late, wind []bool
	var steps int64
	most := int64(30_000_000)
	if simrt.RaceBuild {
		most = 4_000_000
	}
	for i, c := range t.Runs {
		verifall.Reset()
		in, bc := t.inputs()
		if in == nil {
			rep.Counts["no base pool: "+bc.String()]++
			return r, nil
		}
		before := r.look(in)
		res, call := alone(c, in)
		if call.Panicked {
			// not this property's business
			rep.Counts["runs that do not end alone"]++
			continue
		}
		if steps += call.Steps; steps > most {
			steps -= call.Steps
			rep.Counts["runs too long for this build"]++
			continue
		}
		if after := r.look(in); after != before {
			r.fail("shared inputs modified", "a single run of %s modified what it was given: %s", c.label(), diffLook(before, after))
			return r, nil
		}
		again, call := alone(c, in)
		if call.Panicked || again.String() != res.String() {
			r.fail("not repeatable", "%s run a second time on the same pool, funds and transactions: %s (%s); the first time: %s", c.label(), again, call, res)
			return r, nil
		}
		r.solo = append(r.solo, res)
		cfgs = append(cfgs, c)
		late = append(late, i < len(t.Late) && t.Late[i])
		wind = append(wind, i < len(t.Wind) && t.Wind[i])
		rep.mixStr(res.String())
	}
	if len(cfgs) == 0 {
		return r, nil
	}
	verifall.Reset()
	in, _ := t.inputs()
	before := r.look(in)
	kill := t.Kill
	if kill > 0 && steps > 0 {
		kill = 1 + kill%(steps+1)
	}
	tries := 1
	if kill > 0 {
		tries = 2
	}
	for try := 0; try < tries; try++ {
		res := make([]*concResult, len(cfgs))
		races := simrt.RaceErrors()
		cfg := simrt.Config{Seed: rng.Derive(t.Seed, uint64(try)), Policy: t.Policy, Budget: 40*steps + 1<<22, Record: record, IsReplay: t.Exact, Replay: t.Schedule}
		if tries == 2 && try == 0 {
			cfg.CrashStep = kill
		}
		simrt.ResetTaps()
		out := simrt.Run(cfg, func() {
			var wg sync.WaitGroup
			es := make([]*executor.Execution, len(cfgs))
			for i, c := range cfgs {
				res[i] = &concResult{}
				if !late[i] {
					es[i] = prepare(c, in)
				}
			}
			w := max(1, t.Waves)
			per := (len(cfgs) + w - 1) / w
			for from := 0; from < len(cfgs); from += per {
				for i := from; i < len(cfgs) && i < from+per; i++ {
					i := i
					wg.Add(1)
					simrt.Go(func() {
						defer wg.Done()
						e := es[i]
						if late[i] {
							e = prepare(cfgs[i], in)
						}
						e.Run()
						s := strategyOf(e)
						if wind[i] {
							s.GetAmounts()
						}
						outcomeOf(e, s, res[i])
					})
				}
				wg.Wait()
			}
		})
		if record && try == tries-1 {
			sched = out.Decisions
		}
		rep.Steps += out.Steps
		rep.Counts["preemptions"] += int(out.Preempts)
		rep.Counts["task switches"] += int(out.Switches)
		rep.Counts["concurrent runs"] += len(cfgs)
		rep.Faults["schedule: "+t.Policy.Kind]++
		rep.mix(out.Hash, uint64(out.Exit))
		if out.Switches > int64(2*len(cfgs)) {
			rep.Schedule = rng.Derive(rep.Schedule, out.Hash)
			rep.Nontriv = len(cfgs) > 1
		}
		if out.Crashed {
			rep.Faults["process killed in the middle of the runs"]++
		}
		switch {
		case out.Panic != "" || out.Deadlock:
			r.fail("broken by concurrency", "%d runs that end alone: together the process dies of %s at %s", len(cfgs), out.Panic, simrt.ShortStack(out.Stack))
		case out.OverRun:
			r.fail("no progress", "%d runs that take %d steps alone do not end within %d steps together", len(cfgs), steps, out.Steps)
		}
		if n := simrt.RaceErrors() - races; n > 0 {
			rep.Counts["reports of the race detector"] += n
			for _, x := range newRaces() {
				if x.program {
					r.fail("unsynchronised access", "%s", x.text)
				} else {
					rep.Counts["races of the harness, ignored"]++
				}
			}
		}
		if rep.Viol != nil {
			return
		}
		for i := range cfgs {
			if out.Crashed && (res[i] == nil || !res[i].ended) {
				continue
			}
			if got, want := res[i].String(), r.solo[i].String(); got != want {
				r.fail("influenced", "run %d of %d (%s) gives %s; alone it gives %s", i+1, len(cfgs), cfgs[i].label(), got, want)
				return
			}
			rep.Counts["results compared with a run alone"]++
		}
		if after := r.look(in); after != before {
			r.fail("shared inputs modified", "running %d strategies together modified what they were given: %s", len(cfgs), diffLook(before, after))
			return
		}
		if tries == 2 && try == 0 {
			verifall.Reset()
		}
	}
	// once more, one after another, in the same process
	for i, c := range cfgs {
		again, call := alone(c, in)
		if got, want := again.String(), r.solo[i].String(); call.Panicked || got != want {
			r.fail("not repeatable", "%s run again after the concurrent runs gives %s (%s); in a fresh process %s", c.label(), got, call, want)
			return
		}
		rep.Counts["repetitions compared"]++
	}
	if after := r.look(in); after != before {
		r.fail("shared inputs modified", "running again modified what the runs were given: %s", diffLook(before, after))
	}
	for _, s := range r.solo {
		rep.state(fnv(s.String()), uint64(len(cfgs)))
	}
	if len(t.Txs) > 0 {
		rep.SimTime = int64(t.Txs[len(t.Txs)-1].T - t.Txs[0].T)
	}
	return
}

// ---- reports of the race detector ----------------------------------------------------

type raceReport struct {
	program bool
	text    string
}

var raceOff int64

// newRaces reads what the race detector has written since the last call.
func newRaces() (rs []raceReport) {
	f := realos.Getenv("VERIF_RACELOG")
	if f == "" {
		return []raceReport{{true, "the race detector reports an unsynchronised access"}}
	}
	b, err := realos.ReadFile(fmt.Sprintf("%s.%d", f, realos.Getpid()))
	if err != nil || int64(len(b)) < raceOff {
		return []raceReport{{true, "the race detector reports an unsynchronised access"}}
	}
	n := int64(len(b))
	b = b[raceOff:]
	raceOff = n
	for _, w := range strings.Split(string(b), "WARNING: DATA RACE")[1:] {
		if i := strings.Index(w, "=================="); i >= 0 {
			w = w[:i]
		}
		var acc []string
		for _, blk := range strings.Split(w, "\n\n") {
			ls := strings.Split(strings.TrimSpace(blk), "\n")
			h := ls[0]
			if !strings.Contains(h, " at 0x") || !strings.Contains(h, " by ") {
				continue
			}
			acc = append(acc, access(h, ls[1:]))
		}
		x := raceReport{program: len(acc) >= 2}
		for _, a := range acc {
			if strings.Contains(a, "?") {
				x.program = false
			}
		}
		x.text = strings.Join(acc, ", and ") + ", without synchronisation"
		rs = append(rs, x)
	}
	return
}

// access names the program's own frame of one access, or "?".
func access(head string, ls []string) string {
	kind := strings.ToLower(head[:strings.Index(head, " at 0x")])
	for i := 0; i+1 < len(ls); i += 2 {
		fn := strings.TrimSpace(ls[i])
		if strings.HasPrefix(fn, "uniswap-simulator/zsim/simrt.MapIter") || strings.HasPrefix(fn, "uniswap-simulator/zsim/simrt.(*MapIt") {
			continue // walking a map of the program
		}
		if strings.HasPrefix(fn, "uniswap-simulator/zsim/") {
			break // the simulator's own memory
		}
		if !strings.HasPrefix(fn, "uniswap-simulator/") {
			continue // the standard library working for the program
		}
		at := strings.TrimSpace(ls[i+1])
		if j := strings.Index(at, " +0x"); j > 0 {
			at = at[:j]
		}
		if j := strings.LastIndexByte(at, '/'); j >= 0 {
			at = at[j+1:]
		}
		return kind + " in " + strings.TrimSuffix(strings.TrimPrefix(fn, "uniswap-simulator/"), "()") + " " + at
	}
	return "?"
}

// ---- scenarios ----------------------------------------------------------------------

func concScenario(seed uint64, prop, tier string) (*ConcTrace, map[string]int) {
	r := rng.New(seed)
	g := newExecGen(r, prop, tier)
	_, txs := g.market()
	t := &ConcTrace{Txs: accepted(g.cfg, txs), Seed: r.U64(), Waves: 1}
	n := r.Range(2, 5)
	if tier == "thorough" && r.P(0.1) {
		n = r.Range(5, 16)
	}
	if len(t.Txs) > 25 && r.P(0.5) {
		t.Txs = t.Txs[:r.Range(8, 25)]
	}
	g.txs = t.Txs
	same := r.P(0.25) // the same strategy with one parameter changed, as in a sweep
	for len(t.Runs) < n {
		c := g.cfg
		if k := len(t.Runs); k > 0 {
			switch {
			case r.P(0.1):
				g.cfg = t.Runs[r.Intn(k)]
			case same && g.cfg.Mul > 0:
				g.cfg.Mul = r.Range(1, 4096)
			default:
				g.strategy()
				if g.cfg.Strat == "IntervalAroundPriceAndSwap" && len(g.cfg.Base) == 0 {
					g.cfg = c
					continue
				}
			}
		}
		if len(t.Runs) == 0 || g.cfg.N > 0 || r.P(0.7) {
			g.window()
		}
		t.Runs = append(t.Runs, g.cfg)
		t.Late = append(t.Late, r.P(0.4))
		t.Wind = append(t.Wind, r.P(0.2))
	}
	if r.P(0.2) {
		t.Waves = r.Range(1, 3)
	}
	work := float64(len(t.Txs)*n) * 15000
	k := []string{"walk", "pct", "rr", "stall", "lifo"}[r.Weighted([]float64{5, 3, 2, 2, 0.5})]
	gap := []float64{3, 12, 60, 400, 4000}[r.Intn(5)]
	if m := work / 30000; gap < m {
		gap = m
	}
	t.Policy = simrt.Policy{Kind: k, Gap: gap, Depth: r.Range(1, 12), Len: int64(work)}
	if r.P(0.1) {
		t.Kill = 1 + int64(r.U64()>>20)
	}
	return t, g.faults
}

func (t *ConcTrace) seal(r *concRun) *Report {
	rep := r.rep
	rep.Trace = mustJSON(t)
	rep.NTKey = rep.Hash
	var ls []string
	for _, c := range t.Runs {
		ls = append(ls, c.label())
	}
	n := min(len(t.Txs), 4)
	rep.Sample = fmt.Sprintf("%d transactions, runs [%s], policy %s; %s ...", len(t.Txs), strings.Join(ls, "; "), mustJSON(t.Policy), mustJSON(t.Txs[:n]))
	return rep
}

func (ConcWorld) Run(seed uint64, prop, tier string) *Report {
	t, faults := concScenario(seed, prop, tier)
	r, _ := runConc(t, false)
	for k, n := range faults {
		r.rep.Faults[k] += n
	}
	return t.seal(r)
}

func (ConcWorld) Replay(tr json.RawMessage, prop string) *Report {
	var t ConcTrace
	if err := json.Unmarshal(tr, &t); err != nil {
		panic(err)
	}
	r, _ := runConc(&t, false)
	return t.seal(r)
}

func (ConcWorld) Shrink(tr json.RawMessage, prop string, v *Violation, more func() bool) json.RawMessage {
	var t ConcTrace
	if err := json.Unmarshal(tr, &t); err != nil {
		panic(err)
	}
	try := func(x *ConcTrace) bool {
		if !more() || len(x.Runs) == 0 {
			return false
		}
		r, _ := runConc(x, false)
		return r.rep.Viol != nil && r.rep.Viol.Kind == v.Kind
	}
	set := func(f func(x *ConcTrace)) bool {
		x := t
		f(&x)
		if try(&x) {
			t = x
			return true
		}
		return false
	}
	set(func(x *ConcTrace) { x.Kill = 0 })
	set(func(x *ConcTrace) { x.Waves = 1 })
	set(func(x *ConcTrace) { x.Late = make([]bool, len(x.Runs)); x.Wind = nil })
	for i := len(t.Runs) - 1; i >= 0 && len(t.Runs) > 1; i-- {
		if i >= len(t.Runs) {
			continue
		}
		set(func(x *ConcTrace) {
			// the first run's pool and funds stay
			runs := append(append([]ExecCfg(nil), x.Runs[:i]...), x.Runs[i+1:]...)
			b := x.Runs[0]
			runs[0].Fee, runs[0].Sqrt, runs[0].A0, runs[0].A1, runs[0].Base = b.Fee, b.Sqrt, b.A0, b.A1, b.Base
			x.Runs = runs
			x.Late = append(append([]bool(nil), x.Late[:i]...), x.Late[i+1:]...)
			if len(x.Wind) > i {
				x.Wind = append(append([]bool(nil), x.Wind[:i]...), x.Wind[i+1:]...)
			}
		})
	}
	t.Txs = DDMin(t.Txs, more, func(txs []TxRec) bool {
		x := t
		x.Txs = accepted(t.Runs[0], txs)
		return len(txs) > 0 && len(x.Txs) == len(txs) && try(&x)
	})
	if !set(func(x *ConcTrace) { x.Policy = simrt.Policy{Kind: "fifo"} }) && !t.Exact {
		if _, d := runConc(&t, true); len(d) > 0 && set(func(x *ConcTrace) { x.Exact, x.Schedule = true, d }) {
			t.Schedule = DDMin(t.Schedule, more, func(d []simrt.Decision) bool {
				x := t
				x.Schedule = d
				return try(&x)
			})
		}
	}
	return mustJSON(&t)
}
