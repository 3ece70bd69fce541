package worlds

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"uniswap-simulator/lib/executor"
	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/prices"
	strat "uniswap-simulator/lib/strategy"
	ent "uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zsim/ref"
	"uniswap-simulator/zsim/rng"
	"uniswap-simulator/zsim/simrt"
	"uniswap-simulator/zsim/verifall"
)

// ExecWorld: one backtest run of one strategy over a simulated market, with
// the recorded feed stalling, bursting and jumping.
type ExecWorld struct{}

type ExecCfg struct {
	Fee   int      `json:"fee"`
	Sqrt  *big.Int `json:"sqrt"`
	Strat string   `json:"strategy"`
	W     int      `json:"w,omitempty"`
	Sec   int      `json:"b,omitempty"`
	N     int      `json:"n,omitempty"`
	Mul   int      `json:"mul,omitempty"`
	A0    *big.Int `json:"a0"`
	A1    *big.Int `json:"a1"`
	Start int      `json:"start"`
	End   int      `json:"end"`
	Upd   int      `json:"upd"`
	Snap  int      `json:"snap"`
	PI    int      `json:"pi"`
	Base  []PoolOp `json:"base,omitempty"`
	Reads uint64   `json:"reads,omitempty"` // seed of the extra reads
	Feed  *Feed    `json:"feed,omitempty"`
}

type TxRec struct {
	T    int      `json:"t"`
	K    string   `json:"k"`
	Lo   int      `json:"lo,omitempty"`
	Hi   int      `json:"hi,omitempty"`
	A    *big.Int `json:"a,omitempty"`
	A0   *big.Int `json:"a0,omitempty"`
	A1   *big.Int `json:"a1,omitempty"`
	Sqrt *big.Int `json:"sqrt,omitempty"`
	Tick int      `json:"tick,omitempty"`
	X96  bool     `json:"x96,omitempty"`
	ID   string   `json:"id,omitempty"` // "": one of its own; "-": none
}

// name is the transaction's recorded id.
func (t TxRec) name(own string) string {
	switch t.ID {
	case "":
		return own
	case "-":
		return ""
	}
	return t.ID
}

type ExecTrace struct {
	Cfg ExecCfg `json:"cfg"`
	Txs []TxRec `json:"txs"`
}

var strategies = []string{"NoProvision", "V2", "ConstantInterval", "IntervalAroundPrice", "IntervalAroundPriceAndSwap", "TwoIntervalAroundPrice", "FillUp", "LimitOrder", "IntervalAroundAverage", "BollingerBands", "BollingerBandsFillUp", "VolatilitySized"}

func hasHistory(s string) bool {
	switch s {
	case "IntervalAroundAverage", "BollingerBands", "BollingerBandsFillUp", "VolatilitySized":
		return true
	}
	return false
}

func newStrategy(c ExecCfg, a0, a1 *ui.Int, p *pool.Pool) strat.Strategy {
	switch c.Strat {
	case "NoProvision":
		return strat.NewNoProvisionStrategy(a0, a1, p)
	case "V2":
		return strat.NewV2Strategy(a0, a1, p)
	case "ConstantInterval":
		return strat.NewConstantIntervalStrategy(a0, a1, p, c.W)
	case "IntervalAroundPrice":
		return strat.NewIntervalAroundPriceStrategy(a0, a1, p, c.W)
	case "IntervalAroundPriceAndSwap":
		return strat.NewIntervalAroundPriceAndSwapStrategy(a0, a1, p, c.W)
	case "TwoIntervalAroundPrice":
		return strat.NewTwoIntervalAroundPriceStrategy(a0, a1, p, c.W, c.Sec)
	case "FillUp":
		return strat.NewFillUpStrategy(a0, a1, p, c.W)
	case "LimitOrder":
		return strat.NewLimitOrderStrategy(a0, a1, p, c.W)
	case "IntervalAroundAverage":
		return strat.NewIntervalAroundAverageStrategy(a0, a1, p, c.W, c.N)
	case "BollingerBands":
		return strat.NewBollingerBandsStrategy(a0, a1, p, c.N, c.Mul)
	case "BollingerBandsFillUp":
		return strat.NewBollingerBandsFillUpStrategy(a0, a1, p, c.N, c.Mul)
	case "VolatilitySized":
		return strat.NewVolatilitySizedIntervalStrategy(a0, a1, p, c.N, c.Mul)
	}
	panic("unknown strategy " + c.Strat)
}

func uOrZero(x *big.Int) *ui.Int {
	if x == nil {
		return new(ui.Int)
	}
	return U(x)
}

func (t TxRec) entity(i int) ent.Transaction {
	return ent.Transaction{Type: t.K, Amount: uOrZero(t.A), Amount0: uOrZero(t.A0), Amount1: uOrZero(t.A1), ID: t.name(fmt.Sprintf("tx%d", i)),
		SqrtPriceX96: uOrZero(t.Sqrt), Tick: t.Tick, TickLower: t.Lo, TickUpper: t.Hi, Timestamp: t.T, UseX96: t.X96}
}

func entities(txs []TxRec) []ent.Transaction {
	es := make([]ent.Transaction, len(txs))
	for i, t := range txs {
		es[i] = t.entity(i)
	}
	return es
}

// op is what a recorded transaction does to a pool; ok is false for a swap
// that moved nothing in.
func (t TxRec) op() (o PoolOp, ok bool) {
	switch t.K {
	case "Mint":
		return PoolOp{K: "adep", Lo: t.Lo, Hi: t.Hi, A: t.A}, true
	case "Burn":
		return PoolOp{K: "awd", Lo: t.Lo, Hi: t.Hi, A: t.A}, true
	case "Flash":
		return PoolOp{K: "flash", A: t.A0, B: t.A1}, true
	case "Swap":
		if t.A0.Sign() > 0 {
			return PoolOp{K: "swap", Zfo: true, A: t.A0}, true
		}
		if t.A1.Sign() > 0 {
			return PoolOp{K: "swap", A: t.A1}, true
		}
	}
	return PoolOp{}, false
}

// impossible: no pool in any state accepts it.
func (t TxRec) impossible() bool {
	return (t.K == "Mint" || t.K == "Burn") && (t.Lo >= t.Hi || t.Lo < ref.MinTick || t.Hi > ref.MaxTick) || t.K == "Mint" && t.A.Sign() == 0
}

func basePool(c ExecCfg) (*pool.Pool, Call) {
	p, call := newSut(PoolCfg{Fee: c.Fee, Sqrt: c.Sqrt})
	if call.Panicked {
		return nil, call
	}
	for _, op := range c.Base {
		if o := execOp(p, op, 1<<40); o.Panicked {
			return nil, o.Call
		}
	}
	return p, call
}

// accepted drops what no contract would accept (left over from minimising).
func accepted(c ExecCfg, txs []TxRec) []TxRec {
	m := ref.NewPool(c.Fee, spacingOf(c.Fee), c.Sqrt)
	for _, op := range c.Base {
		q, rev := m.Try(func(q *ref.Pool) { modelOp(q, op) })
		if rev != nil {
			return nil
		}
		m = q
	}
	var out []TxRec
	for _, t := range txs {
		if op, ok := t.op(); ok {
			q, rev := m.Try(func(q *ref.Pool) { modelOp(q, op) })
			if rev != nil && !t.impossible() {
				continue
			}
			if rev == nil {
				m = q
			}
		}
		out = append(out, t)
	}
	return out
}

// ---- one run -------------------------------------------------------------------

type stratCall struct {
	name string
	at   int // market operations applied before
	reb  int // rebalances begun before
}

type valueAt struct {
	at, reb int
	inited  bool
	final   bool
}

type mintRec struct {
	rg     ref.Range
	liq    *big.Int
	i0, i1 *big.Int // idle funds just before
	sqrt   *big.Int
	tick   int
}

type execRun struct {
	prop string
	cfg  ExecCfg
	txs  []TxRec
	rep  *Report

	pool  *pool.Pool
	real  strat.Strategy
	ex    *executor.Execution
	hist  *prices.Prices
	ended bool
	muted bool // the harness itself is calling

	ops      []PoolOp // market operations due, in order
	opTx     []int
	opsUpTo  []int // market operations of earlier transactions
	applied  []PoolOp
	inMarket string
	failing  PoolOp   // the market operation begun last
	log      []PoolOp // everything done to the pool
	inCall   string
	known    int // nesting of recorded pool operations
	unknown  int

	calls  []stratCall
	rebs   int
	inits  int
	burned int

	idle0, idle1 *big.Int
	open         map[ref.Range]*big.Int
	touched      map[ref.Range]bool
	mints        []mintRec
	callTick     int
	callSqrt     *big.Int
	fixed        *ref.Range
	placed       []mintRec // deposits of the last Init or Rebalance
	initSqrt     *big.Int
	initTick     int

	values   int // recorded values seen so far
	valueLog []valueAt
	samples  []*big.Int
	extra    *rng.R
	lastSqrt *big.Int // as the last recorded operation left it
	lastTick int
}

func (r *execRun) fail(prop, kind, site, f string, a ...any) {
	if prop != r.prop {
		r.rep.Counts["other-property alarms"]++
		return
	}
	if id := knownID(prop, kind, site); id != "" {
		r.rep.Known[id] = fmt.Sprintf("%s %s: %s", site, kind, fmt.Sprintf(f, a...))
		return
	}
	if r.rep.Viol == nil {
		k := kind
		if site != "" {
			k += " " + site
		}
		r.rep.Viol = &Violation{Prop: prop, Kind: k, Msg: fmt.Sprintf(f, a...), Step: len(r.applied)}
	}
	r.ended = true
}

// proxy stands between the executor and the real strategy.
type proxy struct {
	strat.Strategy
	r *execRun
}

func (p *proxy) Init() (*ui.Int, *ui.Int) {
	p.r.enter("Init")
	a, b := p.Strategy.Init()
	p.r.leave("Init", a, b)
	return a, b
}

func (p *proxy) Rebalance() (*ui.Int, *ui.Int) {
	p.r.enter("Rebalance")
	a, b := p.Strategy.Rebalance()
	p.r.leave("Rebalance", a, b)
	return a, b
}

func (p *proxy) BurnAll() (*ui.Int, *ui.Int) {
	p.r.enter("BurnAll")
	a, b := p.Strategy.BurnAll()
	p.r.leave("BurnAll", a, b)
	return a, b
}

func (p *proxy) GetAmounts() (*ui.Int, *ui.Int) {
	p.r.enter("GetAmounts")
	a, b := p.Strategy.GetAmounts()
	p.r.leave("GetAmounts", a, b)
	return a, b
}

func (p *proxy) MakeSnapshot() {
	p.r.enter("MakeSnapshot")
	p.Strategy.MakeSnapshot()
	p.r.leave("MakeSnapshot", nil, nil)
}

// poll notices values recorded since the last event.
func (r *execRun) poll(final bool) {
	if r.ex == nil {
		return
	}
	for len(r.ex.AmountUSDSnapshots) > r.values {
		v := r.ex.AmountUSDSnapshots[r.values]
		r.values++
		e := valueAt{at: len(r.applied), reb: r.rebs, inited: r.inits > 0, final: final && r.values == len(r.ex.AmountUSDSnapshots)}
		r.valueLog = append(r.valueLog, e)
		r.judgeValue(B(v), e)
	}
}

func (r *execRun) enter(name string) {
	if r.ended {
		return
	}
	r.poll(false)
	r.inCall = name
	r.calls = append(r.calls, stratCall{name, len(r.applied), r.rebs})
	r.callTick, r.callSqrt = r.pool.TickCurrent, B(r.pool.SqrtRatioX96)
	// the interleaving of timers and transactions, and the state a timer meets
	r.rep.Schedule = rng.Derive(r.rep.Schedule, fnv(name), uint64(len(r.applied)))
	if r.idle0 != nil && r.idle1 != nil {
		in := uint64(0)
		for rg := range r.open {
			if rg.Lo <= r.callTick && r.callTick < rg.Hi {
				in++
			}
		}
		r.rep.state(12, fnv(r.cfg.Strat), fnv(name), uint64(len(r.open)), in, bucket(r.idle0), bucket(r.idle1), uint64(r.callSqrt.BitLen()/16))
	}
	r.mints = nil
	if r.beyond() {
		return
	}
	if name == "Init" {
		r.initSqrt = B(r.pool.SqrtRatioX96)
	}
	r.rep.mixStr(name)
	if name == "Rebalance" {
		r.rebs++
	}
	if (name == "Init" || name == "Rebalance") && hasHistory(r.cfg.Strat) && len(r.samples) < r.cfg.N {
		// outside what the property speaks about
		r.rep.Counts["runs ended: price history not full"]++
		r.ended = true
	}
}

var (
	sqrtLow  = new(big.Int).Lsh(bi(1), 64)
	sqrtHigh = new(big.Int).Lsh(bi(1), 115)
)

// beyond ends a run whose price has left the range the program supports.
func (r *execRun) beyond() bool {
	sqrt := B(r.pool.SqrtRatioX96)
	if sqrt.Cmp(sqrtLow) < 0 || sqrt.Cmp(sqrtHigh) >= 0 {
		r.rep.Counts["runs ended: price beyond the supported range"]++
		r.ended = true
	}
	return r.ended
}

func (r *execRun) leave(name string, a, b *ui.Int) {
	r.inCall = ""
	if r.ended {
		return
	}
	if a != nil && b != nil {
		r.rep.mix(a[0], b[0])
	}
	switch name {
	case "Init":
		r.inits++
		r.placed = r.mints
		r.placement(true)
	case "Rebalance":
		r.placed = r.mints
		r.placement(false)
		r.rep.Counts["rebalances"]++
	case "BurnAll":
		r.burned++
		r.woundUp(a, b)
	case "GetAmounts":
		r.reported("valuation", a, b)
	case "MakeSnapshot":
		r.samples = append(r.samples, B(r.pool.SqrtRatioX96))
		r.statistics("after a sample")
		if r.extra.P(0.2) {
			r.statistics("again")
		}
	}
	r.funds(name)
	if !r.ended && r.extra.P(0.15) {
		r.extraRead()
	}
}

// quietly calls the code under test for the harness's own purposes.
func (r *execRun) quietly(f func()) Call {
	r.muted = true
	defer func() { r.muted = false }()
	c := nested(f)
	return c
}

// nested runs f inside a run that is already counting steps.
func nested(f func()) (c Call) {
	defer func() {
		if x := recover(); x != nil {
			if b, ok := x.(simrt.Budget); ok {
				panic(b)
			}
			c.Panicked = true
			c.Msg = fmt.Sprint(x)
		}
	}()
	f()
	return
}

func (r *execRun) extraRead() {
	var a, b *ui.Int
	c := r.quietly(func() { a, b = r.real.GetAmounts() })
	if c.Panicked {
		r.fail("C15", "reporting fails", r.cfg.Strat, "GetAmounts fails: %s", c.Msg)
		return
	}
	r.rep.Counts["extra reports read"]++
	r.reported("report", a, b)
	r.funds("an extra report")
}

// tap sees every exported operation of every pool.
func (r *execRun) tap(ev *simrt.TapEvent) {
	if r.muted || r.ended || ev.Recv != any(r.pool) {
		return
	}
	op, ok := tappedOp(ev)
	if !ok {
		return
	}
	if ev.Enter {
		r.known++
		if r.known > 1 {
			return
		}
		if r.unmoved("before " + ev.Name); r.ended {
			return
		}
		if r.inCall == "" {
			r.poll(false)
			r.inMarket, r.failing = ev.Name, op
		} else if op.K == "dep" {
			r.mints = append(r.mints, mintRec{ref.Range{Lo: op.Lo, Hi: op.Hi}, op.A, new(big.Int).Set(r.idle0), new(big.Int).Set(r.idle1), B(r.pool.SqrtRatioX96), r.pool.TickCurrent})
		}
		return
	}
	r.known--
	if r.known > 0 {
		return
	}
	if !ev.Ok {
		return // keep inMarket: the run is breaking off inside this operation
	}
	r.inMarket = ""
	r.lastSqrt, r.lastTick = B(r.pool.SqrtRatioX96), r.pool.TickCurrent
	r.log = append(r.log, op)
	r.rep.mixStr(op.K)
	if r.inCall == "" {
		r.applied = append(r.applied, op)
		r.rep.Counts["market operations"]++
		r.rep.mix(uint64(r.pool.TickCurrent), r.pool.Liquidity[0])
		if !r.ended && r.extra.P(0.05) {
			r.extraRead()
		}
		return
	}
	rg := ref.Range{Lo: op.Lo, Hi: op.Hi}
	res := func(i int) *big.Int {
		if i < len(ev.Results) {
			if z, ok := ev.Results[i].(*ui.Int); ok && z != nil {
				return S(z)
			}
		}
		return new(big.Int)
	}
	switch op.K {
	case "dep":
		r.idle0.Sub(r.idle0, res(0))
		r.idle1.Sub(r.idle1, res(1))
		r.touched[rg] = true
		if r.open[rg] == nil {
			r.open[rg] = new(big.Int)
		}
		r.open[rg].Add(r.open[rg], op.A)
		r.rep.Counts["positions opened"]++
	case "wd":
		if r.open[rg] == nil {
			r.open[rg] = new(big.Int)
		}
		r.open[rg].Sub(r.open[rg], op.A)
		if r.open[rg].Sign() < 0 {
			r.fail("C15", "withdraws more than it has", r.cfg.Strat, "%s withdraws %v more from [%d,%d) than it has there", r.inCall, new(big.Int).Neg(r.open[rg]), rg.Lo, rg.Hi)
		}
		if r.open[rg].Sign() == 0 {
			delete(r.open, rg)
		}
	case "col":
		r.idle0.Add(r.idle0, res(0))
		r.idle1.Add(r.idle1, res(1))
		if res(0).Sign() > 0 || res(1).Sign() > 0 {
			r.rep.Counts["collects paying something"]++
		}
	case "swap":
		r.idle0.Sub(r.idle0, res(0))
		r.idle1.Sub(r.idle1, res(1))
		r.rep.Counts["strategy swaps"]++
	}
	if r.idle0.Sign() < 0 || r.idle1.Sign() < 0 {
		r.fail("C15", "overspends", r.cfg.Strat, "%s leaves it with (%v, %v) after %v", r.inCall, r.idle0, r.idle1, op)
	}
}

// tappedOp translates a recorded pool call.
func tappedOp(ev *simrt.TapEvent) (PoolOp, bool) {
	num := func(i int) *big.Int {
		z, _ := ev.Args[i].(*ui.Int)
		return S(z)
	}
	rng2 := func(k string) (PoolOp, bool) {
		lo, _ := ev.Args[0].(int)
		hi, _ := ev.Args[1].(int)
		o := PoolOp{K: k, Lo: lo, Hi: hi}
		if len(ev.Args) > 2 {
			o.A = num(2)
		}
		return o, true
	}
	switch ev.Name {
	case "Pool.Mint":
		return rng2("adep")
	case "Pool.Burn":
		return rng2("awd")
	case "Pool.MintStrategy":
		return rng2("dep")
	case "Pool.BurnStrategy":
		return rng2("wd")
	case "Pool.CollectStrategy":
		return rng2("col")
	case "Pool.Flash":
		return PoolOp{K: "flash", A: num(0), B: num(1)}, true
	case "Pool.ExactInputSwap", "Pool.ExactOutputSwap":
		tok, _ := ev.Args[1].(string)
		o := PoolOp{K: "swap", A: num(0)}
		o.Zfo = (tok == tok0) == (ev.Name == "Pool.ExactInputSwap")
		if l := num(2); l.Sign() != 0 {
			o.Lim = l
		}
		return o, true
	}
	return PoolOp{}, false
}

func runExec(cfg ExecCfg, txs []TxRec, prop string) *execRun {
	verifall.Reset()
	simrt.SeedMaps(1)
	simrt.ResetTaps()
	r := &execRun{prop: prop, cfg: cfg, txs: txs, rep: NewReport(), idle0: new(big.Int).Set(cfg.A0), idle1: new(big.Int).Set(cfg.A1),
		open: map[ref.Range]*big.Int{}, touched: map[ref.Range]bool{}, extra: rng.New(cfg.Reads)}
	if len(txs) == 0 {
		return r
	}
	n := 0
	for i, t := range txs {
		r.opsUpTo = append(r.opsUpTo, n)
		if t.T > cfg.End {
			continue
		}
		if op, ok := t.op(); ok {
			r.ops = append(r.ops, op)
			r.opTx = append(r.opTx, i)
			n++
		}
	}
	r.rep.SimTime = int64(txs[len(txs)-1].T - txs[0].T)
	shared, c := basePool(cfg)
	if c.Panicked {
		r.rep.Counts["other-property alarms"]++
		return r
	}
	c = Do(slack*1000, func() {
		r.real = newStrategy(cfg, U(cfg.A0), U(cfg.A1), shared)
		r.pool = r.real.GetPool()
	})
	if c.Panicked {
		r.fail("C15", "cannot be created", cfg.Strat, "the strategy cannot be created: %s", c)
		return r
	}
	r.hist = historyOf(r.real)
	var budget int64 = 4_000_000 + int64(len(txs))*int64(len(txs)+20)*20_000
	simrt.TapHandler = r.tap
	c = Do(budget, func() {
		r.ex = executor.CreateExecution(&proxy{r.real, r}, cfg.Start, cfg.End, cfg.Upd, cfg.Snap, cfg.PI, entities(txs))
		r.ex.Run()
	})
	simrt.TapHandler = nil
	r.rep.Steps = c.Steps
	if r.ended {
		if r.rep.Viol == nil { // judged no further than this
			r.soFar()
		}
		return r
	}
	if c.Panicked {
		r.broke(c)
		return r
	}
	r.poll(true)
	r.finish()
	return r
}

func historyOf(s strat.Strategy) *prices.Prices {
	v := reflect.Indirect(reflect.ValueOf(s))
	if v.Kind() != reflect.Struct {
		return nil
	}
	f := v.FieldByName("PriceHistory")
	if !f.IsValid() || !f.CanInterface() {
		return nil
	}
	h, _ := f.Interface().(*prices.Prices)
	return h
}

// broke handles a run that did not reach its end.
func (r *execRun) broke(c Call) {
	if r.soFar(); r.ended {
		return
	}
	if n := len(r.applied); r.inCall == "" && r.inMarket != "" && (n >= len(r.ops) || !r.asRecorded(n, r.failing)) {
		if n >= len(r.ops) {
			r.fail("C12", "surplus", "", "%v is applied to the pool after all %d transactions up to the end time", r.failing, n)
			return
		}
		r.fail("C12", "altered", "", "transaction %d, %+v, must be applied as %v, but %v is applied (and refused: %s)", r.opTx[n], r.txs[r.opTx[n]], r.ops[n], r.failing, c)
		return
	}
	if r.beyond() {
		return
	}
	switch {
	case c.Over:
		r.fail("C18", "run does not end", "", "the run is still going after %d steps, in %s", c.Steps, c.Where)
		r.fail("C12", "run does not end", "", "the run is still going after %d steps, in %s", c.Steps, c.Where)
	case r.inCall != "":
		if !r.documentedRangePossible() {
			r.rep.Counts["runs ended: documented range outside the tick bounds"]++
			return
		}
		if r.inCall == "Init" || r.inCall == "Rebalance" {
			r.placement(r.inCall == "Init") // what it tried to open, and what is not open now
		}
		r.fail("C15", "aborts", r.cfg.Strat, "%s fails at price %v, tick %d with idle funds (%v, %v): %s", r.inCall, r.callSqrt, r.callTick, r.idle0, r.idle1, c)
		switch {
		case r.inCall == "GetAmounts" || r.inCall == "BurnAll":
			r.fail("C14", "no value", r.cfg.Strat, "%s fails at price %v, tick %d, so that no value is recorded: %s", r.inCall, r.callSqrt, r.callTick, c)
		case r.inCall == "MakeSnapshot":
			r.fail("C13", "no sample", r.cfg.Strat, "the price sample at price %v, tick %d fails: %s", r.callSqrt, r.callTick, c)
			r.fail("C17", "no sample", r.cfg.Strat, "the price sample at price %v, tick %d fails: %s", r.callSqrt, r.callTick, c)
		case strings.Contains(c.Where, "lib/prices."):
			r.fail("C17", "no figure", r.cfg.Strat, "%s cannot tell the average or volatility of its %d samples: %s", r.inCall, len(r.samples), c)
		}
	case r.inMarket != "":
		// with the strategy taking part the market may take another path, on
		// which the contract would refuse this operation too
		m := ref.NewPool(r.cfg.Fee, spacingOf(r.cfg.Fee), r.cfg.Sqrt)
		ok := true
		for _, op := range append(append(append([]PoolOp(nil), r.cfg.Base...), r.log...), r.failing) {
			q, rev := m.Try(func(q *ref.Pool) { modelOp(q, op) })
			if rev != nil {
				ok = false
				break
			}
			m = q
		}
		if !ok {
			r.rep.Counts["runs ended: market operation refused on this path"]++
			return
		}
		r.fail("C12", "run fails", "", "the run fails applying %v after %d of %d transactions: %s", r.failing, len(r.applied), len(r.ops), c)
	default:
		for _, t := range r.txs {
			if t.impossible() {
				r.rep.Counts["runs ended: recording with a record no pool accepts"]++
				return
			}
		}
		for _, p := range []string{"C12", "C13", "C14"} {
			r.fail(p, "run fails", "", "the run fails after %d of %d transactions: %s", len(r.applied), len(r.ops), c)
		}
	}
}

// ---- C12, C13 --------------------------------------------------------------------

func sameOp(want, got PoolOp, limitToo *big.Int) bool {
	if want.K != got.K || want.Lo != got.Lo || want.Hi != got.Hi || want.Zfo != got.Zfo {
		return false
	}
	eq := func(a, b *big.Int) bool {
		if a == nil {
			a = new(big.Int)
		}
		if b == nil {
			b = new(big.Int)
		}
		return a.Cmp(b) == 0
	}
	if !eq(want.A, got.A) || !eq(want.B, got.B) {
		return false
	}
	return got.Lim == nil || limitToo != nil && got.Lim.Cmp(limitToo) == 0
}

// unmoved: only operations move a pool, whatever is read in between.
func (r *execRun) unmoved(when string) {
	if r.lastSqrt != nil && (B(r.pool.SqrtRatioX96).Cmp(r.lastSqrt) != 0 || r.pool.TickCurrent != r.lastTick) {
		r.fail("C12", "moved", "", "%s the pool's price is %v (tick %d) although the last operation, %v, left it at %v (tick %d)", when, B(r.pool.SqrtRatioX96), r.pool.TickCurrent, r.log[len(r.log)-1], r.lastSqrt, r.lastTick)
	}
}

func (r *execRun) finish() {
	if r.unmoved("at the end"); r.ended {
		return
	}
	r.judgeMarket()
	if r.ended {
		return
	}
	r.judgeSchedule(true)
	if r.ended {
		return
	}
	r.afterwards()
}

// soFar judges the part of a run that came before it broke off.
func (r *execRun) soFar() {
	over := r.ended
	r.ended = false
	if r.judgeApplied(); !r.ended {
		r.judgeSchedule(false)
	}
	r.rep.Counts["broken-off runs judged"]++
	r.ended = r.ended || over
}

// judgeApplied: what has been applied so far is what is recorded, in order.
func (r *execRun) judgeApplied() {
	for i, got := range r.applied {
		if i >= len(r.ops) {
			r.fail("C12", "surplus", "", "%v is applied to the pool after all %d transactions up to the end time", got, len(r.ops))
			return
		}
		if !r.asRecorded(i, got) {
			r.fail("C12", "altered", "", "transaction %d, %+v, must be applied as %v, but %v is applied", r.opTx[i], r.txs[r.opTx[i]], r.ops[i], got)
			return
		}
	}
}

func (r *execRun) asRecorded(i int, got PoolOp) bool {
	t := r.txs[r.opTx[i]]
	var lim *big.Int
	if t.X96 {
		lim = t.Sqrt
	}
	return sameOp(r.ops[i], got, lim)
}

func (r *execRun) judgeMarket() {
	if r.judgeApplied(); r.ended {
		return
	}
	if i := len(r.applied); i < len(r.ops) {
		t := r.opTx[i]
		r.fail("C12", "missing", "", "transaction %d of %d (%+v), which is not later than the end time %d, is never applied", t, len(r.txs), r.txs[t], r.cfg.End)
	}
}

// schedule lists the transactions at which something with the given interval
// is due: the k-th at the first transaction not earlier than k intervals after
// the start and later than the previous one.
func (r *execRun) schedule(from, start, interval, k int, strictly bool) []int {
	var out []int
	next := start + k*interval
	for i := from; i < len(r.txs); i++ {
		t := r.txs[i].T
		if t > r.cfg.End {
			break
		}
		if t > next || t == next && !strictly {
			out = append(out, i)
			next += interval
		}
	}
	return out
}

// A run that broke off is judged by what had happened until then: everything
// due before its last transaction and nothing else.
func (r *execRun) judgeSchedule(whole bool) {
	cut := len(r.applied)
	if whole {
		cut = 1 << 60
	}
	differ := func(got, want []int) bool {
		for i, w := range want {
			if i >= len(got) {
				return w < cut
			}
			if got[i] != w {
				return true
			}
		}
		return len(got) > len(want)
	}
	started := -1
	for i, t := range r.txs {
		if t.T > r.cfg.End {
			break
		}
		if t.T >= r.cfg.Start {
			started = i
			break
		}
	}
	byName := map[string][]stratCall{}
	for _, c := range r.calls {
		byName[c.name] = append(byName[c.name], c)
	}
	// C12: start and end
	in := byName["Init"]
	switch {
	case started < 0 && len(in) > 0:
		r.fail("C12", "started", "", "no transaction lies between start time %d and end time %d, yet the strategy is started", r.cfg.Start, r.cfg.End)
	case started >= 0 && len(in) != 1 && !(len(in) == 0 && r.opsUpTo[started] >= cut):
		r.fail("C12", "started", "", "the strategy is started %d times (start time %d, first transaction at or after it is %d of %d)", len(in), r.cfg.Start, started, len(r.txs))
	case len(in) > 0 && in[0].at != r.opsUpTo[started]:
		r.fail("C12", "started", "", "the strategy is started after %d transactions; the first at or after its start time %d is number %d (time %d)", in[0].at, r.cfg.Start, started, r.txs[started].T)
	}
	if r.ended {
		return
	}
	bu := byName["BurnAll"]
	if len(bu) != 1 && (whole || len(bu) > 1) {
		r.fail("C12", "wound up", "", "the strategy is wound up %d times", len(bu))
	} else if len(bu) > 0 && bu[0].at != len(r.ops) {
		r.fail("C12", "wound up", "", "the strategy is wound up after %d of %d transactions", bu[0].at, len(r.ops))
	}
	if r.ended {
		return
	}
	// C13
	var reb, val []int
	if started >= 0 {
		reb = r.schedule(started, r.txs[started].T, r.cfg.Upd, 1, false)
		val = r.schedule(started, r.txs[started].T, r.cfg.Snap, 1, false)
	}
	at := func(cs []stratCall) []int {
		var out []int
		for _, c := range cs {
			out = append(out, c.at)
		}
		return out
	}
	ops := func(txs []int) []int {
		var out []int
		for _, t := range txs {
			out = append(out, r.opsUpTo[t])
		}
		return out
	}
	if g, w := at(byName["Rebalance"]), ops(reb); differ(g, w) {
		r.fail("C13", "rebalances", "", "rebalances happen after %v transactions; due every %d from time %s they must happen after %v", g, r.cfg.Upd, r.timeOf(started), w)
		return
	}
	var vals []int
	var vreb []int
	start, final := 0, 0
	for i, v := range r.valueLog {
		switch {
		case v.final && i == len(r.valueLog)-1:
			final++
		case start == 0 && started >= 0 && v.at == r.opsUpTo[started]:
			start++
		default:
			vals = append(vals, v.at)
			vreb = append(vreb, v.reb)
		}
	}
	if g, w := vals, ops(val); differ(g, w) {
		r.fail("C13", "valuations", "", "valuations happen after %v transactions; due every %d from time %s they must happen after %v", g, r.cfg.Snap, r.timeOf(started), w)
		r.fail("C14", "number of values", "", "%d values are recorded (valuations after %v transactions); one for the start (%v), one for each of the %d valuations due and one for the end are expected", len(r.valueLog), g, started >= 0, len(w))
		return
	}
	if whole && (final != 1 || started >= 0 && start != 1) {
		r.fail("C14", "number of values", "", "%d values are recorded; start %d, end %d, valuations %d", len(r.valueLog), start, final, len(vals))
		return
	}
	if r.prop == "C13" {
		// valuation before the rebalance of the same transaction
		for i := range vals {
			t, before := val[i], 0
			for _, x := range reb {
				if x < t {
					before++
				}
			}
			if vreb[i] != before {
				r.fail("C13", "order", "", "the valuation at transaction %d is made after %d rebalances; %d come before it", t, vreb[i], before)
				return
			}
		}
	}
	{
		g := at(byName["MakeSnapshot"])
		w1 := ops(r.schedule(0, r.txs[0].T, r.cfg.PI, 0, false))
		w2 := []int{}
		if r.txs[0].T <= r.cfg.End {
			// the same with "has passed" read strictly
			w2 = append(w2, ops([]int{0})...)
			w2 = append(w2, ops(r.schedule(1, r.txs[0].T, r.cfg.PI, 1, true))...)
		}
		if differ(g, w1) && differ(g, w2) {
			r.fail("C13", "samples", "", "price samples are taken after %v transactions; one at the first and then every %d from time %d they must be taken after %v", g, r.cfg.PI, r.txs[0].T, w1)
			return
		}
		if len(g) > 1 {
			r.rep.Counts["price samples"] += len(g)
		}
	}
	r.rep.Counts["valuations"] += len(vals)
	if started < 0 {
		r.rep.Counts["runs never started"]++
	}
}

func (r *execRun) timeOf(i int) string {
	if i < 0 {
		return "never"
	}
	return fmt.Sprint(r.txs[i].T)
}

// ---- C14 ---------------------------------------------------------------------------

func usd(a0, a1, sqrt *big.Int) *big.Int {
	x := new(big.Int).Lsh(a1, 192)
	x.Div(x, new(big.Int).Mul(sqrt, sqrt))
	return x.Add(x, a0)
}

// worth is what the strategy owns: idle funds plus what its open positions
// would return if withdrawn right now.
func (r *execRun) worth() (a0, a1 *big.Int) {
	a0, a1 = new(big.Int).Set(r.idle0), new(big.Int).Set(r.idle1)
	sqrt, tick := B(r.pool.SqrtRatioX96), r.pool.TickCurrent
	for rg, l := range r.open {
		if l.Sign() > 0 {
			x0, x1 := ref.DepositAmounts(sqrt, tick, rg, new(big.Int).Neg(l))
			a0.Sub(a0, x0)
			a1.Sub(a1, x1)
		}
	}
	return
}

func within(got, want *big.Int, below int64) bool {
	d := new(big.Int).Sub(want, got)
	return d.Sign() >= 0 && d.Cmp(bi(below)) <= 0
}

func (r *execRun) reported(what string, a, b *ui.Int) {
	w0, w1 := r.worth()
	g0, g1 := B(a), B(b)
	n := r.sharedParts()
	if !within(g0, w0, n) || !within(g1, w1, n) {
		r.fail("C14", "report", r.cfg.Strat, "its %s is (%v, %v); its idle funds (%v, %v) and open positions %v are worth (%v, %v) at price %v", what, g0, g1, r.idle0, r.idle1, r.openList(), w0, w1, B(r.pool.SqrtRatioX96))
	}
}

// sharedParts: how many deposits beyond one per range the open ranges consist of.
func (r *execRun) sharedParts() int64 {
	seen := map[ref.Range]int{}
	for _, m := range r.placed {
		seen[m.rg]++
	}
	n := int64(0)
	for _, c := range seen {
		n += int64(c - 1)
	}
	return n
}

func (r *execRun) openList() string {
	s := ""
	for _, rg := range sortedRanges(r.open) {
		s += fmt.Sprintf("[%d,%d):%v ", rg.Lo, rg.Hi, r.open[rg])
	}
	return s
}

func (r *execRun) judgeValue(v *big.Int, e valueAt) {
	if r.beyond() {
		return
	}
	sqrt := B(r.pool.SqrtRatioX96)
	first := len(r.valueLog) == 1 && e.inited
	var want []*big.Int
	n := r.sharedParts()
	if first {
		want = []*big.Int{usd(r.cfg.A0, r.cfg.A1, sqrt), usd(r.cfg.A0, r.cfg.A1, r.initSqrt)}
		n = 0
	} else {
		a0, a1 := r.worth()
		want = []*big.Int{usd(a0, a1, sqrt)}
		if n > 0 {
			d := new(big.Int).Lsh(bi(n), 192)
			d.Div(d, new(big.Int).Mul(sqrt, sqrt))
			n += d.Int64() + 2
		}
	}
	for _, w := range want {
		if within(v, w, n) {
			r.rep.Counts["recorded values checked"]++
			r.rep.mix(lowWord(v))
			return
		}
	}
	what := fmt.Sprintf("value %d", len(r.valueLog)-1)
	if first {
		what = "the first value"
	} else if e.final {
		what = "the last value"
	}
	r.fail("C14", "value", "", "%s is %v; idle funds (%v, %v) and open positions %v at price %v are worth %v", what, v, r.idle0, r.idle1, r.openList(), sqrt, want[0])
}

// ---- C15 ---------------------------------------------------------------------------

func (r *execRun) idleFields() (a, b *big.Int, ok bool) {
	v := reflect.Indirect(reflect.ValueOf(r.real))
	if v.Kind() != reflect.Struct {
		return
	}
	get := func(n string) *big.Int {
		f := v.FieldByName(n)
		if !f.IsValid() || !f.CanInterface() {
			return nil
		}
		z, _ := f.Interface().(*ui.Int)
		if z == nil {
			return nil
		}
		return B(z)
	}
	a, b = get("Amount0"), get("Amount1")
	return a, b, a != nil && b != nil
}

func (r *execRun) funds(after string) {
	if r.ended {
		return
	}
	a, b, ok := r.idleFields()
	if !ok {
		r.rep.Counts["idle funds not visible"]++
		return
	}
	if a.Cmp(r.idle0) != 0 || b.Cmp(r.idle1) != 0 {
		r.fail("C15", "funds", r.cfg.Strat, "after %s it holds (%v, %v) idle; start funds minus payments to plus receipts from the pool are (%v, %v)", after, a, b, r.idle0, r.idle1)
	}
}

func (r *execRun) woundUp(a, b *ui.Int) {
	if B(a).Cmp(r.idle0) != 0 || B(b).Cmp(r.idle1) != 0 {
		r.fail("C15", "final amounts", r.cfg.Strat, "winding up reports (%v, %v); it owns (%v, %v)", B(a), B(b), r.idle0, r.idle1)
	}
	for _, rg := range sortedRanges(r.open) {
		r.fail("C15", "liquidity left", r.cfg.Strat, "after winding up %v of its liquidity is left in [%d,%d)", r.open[rg], rg.Lo, rg.Hi)
	}
	for k, p := range r.pool.Positions {
		if p == nil {
			continue
		}
		if !p.Liquidity.IsZero() {
			r.fail("C15", "liquidity left", r.cfg.Strat, "after winding up %v liquidity is left in position %q", B(p.Liquidity), k)
		}
		if !p.TokensOwed0.IsZero() || !p.TokensOwed1.IsZero() {
			r.fail("C15", "uncollected", r.cfg.Strat, "after winding up (%v, %v) are left uncollected in position %q", B(p.TokensOwed0), B(p.TokensOwed1), k)
		}
	}
}

// afterwards: reporting or winding up again must not count anything twice.
func (r *execRun) afterwards() {
	if r.prop != "C15" {
		return
	}
	before := r.digest()
	for i, name := range []string{"GetAmounts", "BurnAll", "GetAmounts", "BurnAll"} {
		var a, b *ui.Int
		r.muted = true
		c := Do(slack*100, func() {
			if name == "BurnAll" {
				a, b = r.real.BurnAll()
			} else {
				a, b = r.real.GetAmounts()
			}
		})
		r.muted = false
		if c.Panicked {
			r.fail("C15", "again", r.cfg.Strat, "%s after winding up fails: %s", name, c)
			return
		}
		if B(a).Cmp(r.idle0) != 0 || B(b).Cmp(r.idle1) != 0 {
			r.fail("C15", "again", r.cfg.Strat, "%s after winding up (call %d) gives (%v, %v); it owns (%v, %v)", name, i, B(a), B(b), r.idle0, r.idle1)
			return
		}
		r.funds(name + " after winding up")
		if r.ended {
			return
		}
	}
	if after := r.digest(); after != before {
		r.fail("C15", "again", r.cfg.Strat, "reporting and winding up again changed the pool: %s", diff(before, after))
	}
}

func (r *execRun) digest() string {
	o := &poolRun{ticks: map[int]bool{}}
	for _, t := range r.txs {
		o.ticks[t.Lo], o.ticks[t.Hi] = true, true
	}
	for rg := range r.touched {
		o.ticks[rg.Lo], o.ticks[rg.Hi] = true, true
	}
	for _, b := range r.cfg.Base {
		o.ticks[b.Lo], o.ticks[b.Hi] = true, true
	}
	return o.observe(r.pool)
}

// ---- C17 ---------------------------------------------------------------------------

func statsOf(sqrts []*big.Int) (mean, sd *big.Int) {
	n := int64(len(sqrts))
	sum := new(big.Int)
	var sq []*big.Int
	for _, s := range sqrts {
		x := new(big.Int).Mul(s, s)
		sq = append(sq, x)
		sum.Add(sum, x)
	}
	mean = new(big.Int).Div(sum, bi(n))
	// sum (n x - sum)^2 / n^2 / (n-1)
	v := new(big.Int)
	for _, x := range sq {
		d := new(big.Int).Mul(x, bi(n))
		d.Sub(d, sum)
		v.Add(v, d.Mul(d, d))
	}
	v.Div(v, bi(n*n*(n-1)))
	return mean, v.Sqrt(v)
}

func near(a, b *big.Int, tol int64) bool {
	d := new(big.Int).Sub(a, b)
	return d.CmpAbs(bi(tol)) <= 0
}

func (r *execRun) statistics(when string) {
	if r.hist == nil || r.prop != "C17" || r.ended {
		return
	}
	n := r.cfg.N
	var avg, vol *ui.Int
	c := r.quietly(func() {
		if r.extra.P(0.5) {
			avg, vol = r.hist.Average(), r.hist.Volatility()
		} else {
			vol = r.hist.Volatility()
			avg = r.hist.Average()
		}
	})
	if len(r.samples) < n {
		r.rep.Counts["statistics read early"]++
		return
	}
	if c.Panicked {
		r.fail("C17", "fails", "", "reading average and volatility of %d samples fails: %s", n, c.Msg)
		return
	}
	mean, sd := statsOf(r.samples[len(r.samples)-n:])
	r.rep.Counts["statistics checked"]++
	r.rep.mix(avg[0], vol[0])
	r.rep.state(17, uint64(n), uint64(len(r.samples)%n), bucket(mean), bucket(sd))
	if !near(B(avg), mean, 1) {
		r.fail("C17", "average", "", "%s %d of %d, the average of the last %d is given as %v; it is %v", when, len(r.samples), len(r.samples), n, B(avg), mean)
		return
	}
	if !near(B(vol), sd, 2) {
		r.fail("C17", "volatility", "", "%s %d, the volatility of the last %d is given as %v; it is %v", when, len(r.samples), n, B(vol), sd)
	}
}

// ---- world -------------------------------------------------------------------------

func (r *execRun) report() *Report {
	r.feed()
	r.rep.Trace = mustJSON(ExecTrace{r.cfg, r.txs})
	c := r.rep.Counts
	switch r.prop {
	case "C12":
		r.rep.Nontriv = len(r.applied) > 3 && len(r.calls) > 0
	case "C13":
		r.rep.Nontriv = c["rebalances"] > 0 && c["valuations"] > 0
	case "C14":
		r.rep.Nontriv = c["recorded values checked"] > 2
	case "C15":
		r.rep.Nontriv = c["positions opened"] > 1 && r.burned > 0
	case "C16":
		r.rep.Nontriv = c["positions opened"] > 0
	case "C17":
		r.rep.Nontriv = c["statistics checked"] > 1
	}
	r.rep.NTKey = r.rep.Hash
	r.rep.Counts["runs of "+r.cfg.Strat]++
	return r.rep
}

func (ExecWorld) Replay(tr json.RawMessage, prop string) *Report {
	var t ExecTrace
	if err := json.Unmarshal(tr, &t); err != nil {
		panic(err)
	}
	return runExec(t.Cfg, accepted(t.Cfg, t.Txs), prop).report()
}

func (w ExecWorld) Shrink(tr json.RawMessage, prop string, v *Violation, more func() bool) json.RawMessage {
	var t ExecTrace
	if err := json.Unmarshal(tr, &t); err != nil {
		panic(err)
	}
	same := func(cfg ExecCfg, txs []TxRec) bool {
		txs = accepted(cfg, txs)
		if len(txs) == 0 {
			return false
		}
		rep := runExec(cfg, txs, prop).report()
		return rep.Viol != nil && rep.Viol.Kind == v.Kind
	}
	t.Txs = DDMin(t.Txs, more, func(x []TxRec) bool { return same(t.Cfg, x) })
	t.Cfg.Base = DDMin(t.Cfg.Base, more, func(b []PoolOp) bool {
		c := t.Cfg
		c.Base = b
		return same(c, t.Txs)
	})
	if t.Cfg.Feed != nil {
		c := t.Cfg
		c.Feed = nil
		if same(c, t.Txs) {
			t.Cfg = c
		} else {
			feed := *t.Cfg.Feed
			feed.Samples = DDMin(feed.Samples, more, func(x []FeedItem) bool {
				c := t.Cfg
				c.Feed = &Feed{feed.N, x}
				return same(c, t.Txs)
			})
			t.Cfg.Feed = &feed
		}
	}
	t.Txs = accepted(t.Cfg, t.Txs)
	return mustJSON(t)
}

func (ExecWorld) Run(seed uint64, prop, tier string) *Report {
	g := newExecGen(rng.New(seed), prop, tier)
	cfg, txs := g.market()
	if prop == "C17" {
		cfg.Feed = genFeed(rng.New(rng.Derive(seed, 17)), g.faults)
	}
	txs = accepted(cfg, txs)
	if prop == "C12" && len(txs) > 0 && g.r.P(0.04) {
		txs = poison(g.r, txs)
		g.faults["record no pool accepts"]++
	}
	r := runExec(cfg, txs, prop)
	for k, v := range g.faults {
		r.rep.Faults[k] += v
	}
	rep := r.report()
	n := len(txs)
	if n > 8 {
		n = 8
	}
	rep.Sample = fmt.Sprintf("%s w=%d n=%d mul=%d fee %d price %v funds (%v, %v), window %d..%d, every %d/%d/%d s, %d transactions: %s ...", cfg.Strat, cfg.W, cfg.N, cfg.Mul, cfg.Fee, cfg.Sqrt, cfg.A0, cfg.A1, cfg.Start, cfg.End, cfg.Upd, cfg.Snap, cfg.PI, len(txs), mustJSON(txs[:n]))
	return rep
}
