package worlds

import (
	"fmt"
	"math"
	"math/big"

	"uniswap-simulator/zsim/ref"
	"uniswap-simulator/zsim/rng"
)

// execGen simulates the market that gets recorded: traders, providers and
// flash borrowers on a model pool, with a clock that stalls, bursts and jumps,
// crashes and dried-up liquidity; and draws the configuration of the backtest.
type execGen struct {
	exact  bool // prices move to whole ticks only
	goal   int
	target *big.Int   // of the next swap
	chase  bool       // traders move the price to the ends of the strategy's range
	past   []*big.Int // in that case: the prices at every transaction
	r      *rng.R
	prop   string
	tier   string
	faults map[string]int

	cfg  ExecCfg
	m    *ref.Pool
	txs  []TxRec
	mine map[ref.Range]*big.Int // what the recorded providers hold
	now  int
	lmag int // magnitude of liquidity in bits
	unit int
}

func newExecGen(r *rng.R, prop, tier string) *execGen {
	return &execGen{r: r, prop: prop, tier: tier, faults: map[string]int{}, mine: map[ref.Range]*big.Int{}}
}

var (
	genLow  = new(big.Int).Lsh(bi(1), 72)
	genHigh = new(big.Int).Lsh(bi(1), 112)
)

func (g *execGen) inBand(sqrt *big.Int) bool {
	return sqrt.Cmp(genLow) > 0 && sqrt.Cmp(genHigh) < 0
}

func (g *execGen) try(op PoolOp) (a0, a1 *big.Int, ok bool) {
	q, rev := g.m.Try(func(q *ref.Pool) { a0, a1 = modelOp(q, op) })
	if rev != nil || !g.inBand(q.Sqrt) {
		return nil, nil, false
	}
	g.m = q
	return a0, a1, true
}

// start draws pool, strategy and funds.
func (g *execGen) start() {
	r := g.r
	c := &g.cfg
	c.Fee = []int{500, 3000, 10000}[r.Weighted([]float64{6, 2, 2})]
	s := spacingOf(c.Fee)
	var tick int
	switch r.Weighted([]float64{4, 2, 4}) {
	case 0:
		tick = r.Range(190000, 205000)
	case 1:
		tick = r.Range(-3*s, 3*s)
	default:
		tick = r.Range(-250000, 150000)
	}
	if r.P(0.15) {
		tick = ref.FloorTo(tick, s)
	}
	a, b := ref.SqrtAt(tick), ref.SqrtAt(tick+1)
	d := new(big.Int).Sub(b, a)
	d.Mul(d, bi(int64(r.Intn(1000)))).Div(d, bi(1000))
	if r.P(0.15) {
		d.SetInt64(0)
	}
	c.Sqrt = a.Add(a, d)
	if r.P(0.2) && g.prop != "C17" {
		c.Sqrt, _ = new(big.Int).SetString("1350174849792634181862360983626536", 10)
	}
	g.strategy()
	// pool
	g.m = ref.NewPool(c.Fee, s, c.Sqrt)
	g.lmag = r.Range(48, 80)
	base := r.P(0.7) || c.Strat == "IntervalAroundPriceAndSwap"
	if base {
		m := ref.FloorTo(ref.MaxTick, s)
		ops := []PoolOp{{K: "adep", Lo: -m, Hi: m, A: logUniform(r, g.lmag-2, g.lmag+2)}}
		for i := r.Intn(3); i > 0; i-- {
			rg := g.ranges()
			ops = append(ops, PoolOp{K: "adep", Lo: rg.Lo, Hi: rg.Hi, A: logUniform(r, g.lmag-4, g.lmag+1)})
		}
		for _, op := range ops {
			if _, _, ok := g.try(op); ok {
				c.Base = append(c.Base, op)
			}
		}
	} else {
		g.faults["pool empty at the beginning"]++
	}
	// funds: a share of what the pool's liquidity is worth
	shift := r.Range(4, 16)
	if r.P(0.2) {
		shift = r.Range(10, g.lmag)
	}
	l := new(big.Int).Rsh(new(big.Int).Lsh(bi(1), uint(g.lmag)), uint(shift))
	a0 := new(big.Int).Div(new(big.Int).Mul(l, ref.Q96), c.Sqrt)
	a1 := new(big.Int).Div(new(big.Int).Mul(l, c.Sqrt), ref.Q96)
	some := func(x *big.Int) *big.Int {
		x.Mul(x, bi(int64(r.Range(200, 3000))))
		return x.Div(x, bi(1000))
	}
	c.A0, c.A1 = some(a0), some(a1)
	switch {
	case r.P(0.05):
		c.A0 = bi(int64(r.Intn(3)))
		g.faults["strategy starts with (nearly) one token only"]++
	case r.P(0.05):
		c.A1 = bi(int64(r.Intn(3)))
		g.faults["strategy starts with (nearly) one token only"]++
	case r.P(0.03):
		c.A0, c.A1 = bi(int64(r.Intn(2))), bi(int64(r.Intn(2)))
		g.faults["strategy starts without funds"]++
	case r.P(0.1):
		c.A0, c.A1 = bi(1_000_000), bi(366874042000000)
	}
	c.Reads = r.U64()
}

// strategy draws a strategy and its parameters.
func (g *execGen) strategy() {
	r, c := g.r, &g.cfg
	s := spacingOf(c.Fee)
	c.W, c.Sec, c.N, c.Mul = 0, 0, 0, 0
	w := make([]float64, len(strategies))
	for i, n := range strategies {
		w[i] = 1
		if g.prop == "C17" && !hasHistory(n) {
			w[i] = 0
		}
		if n == "NoProvision" {
			w[i] *= 0.3
		}
		if n == "BollingerBandsFillUp" {
			w[i] *= 1.5
		}
	}
	c.Strat = strategies[r.Weighted(w)]
	width := func() int {
		switch r.Weighted([]float64{3, 3, 2, 1}) {
		case 0:
			return s * r.Range(1, 6)
		case 1:
			return s + r.Intn(30*s)
		case 2:
			return s*r.Range(1, 400) + r.Intn(s)
		default:
			return s * r.Range(1, 2000)
		}
	}
	switch c.Strat {
	case "ConstantInterval", "IntervalAroundPrice", "IntervalAroundPriceAndSwap", "FillUp", "LimitOrder":
		c.W = width()
	case "TwoIntervalAroundPrice":
		c.W, c.Sec = width(), width()
	case "IntervalAroundAverage":
		c.W, c.N = width(), r.Range(2, 9)
	case "BollingerBands", "BollingerBandsFillUp", "VolatilitySized":
		c.N = r.Range(2, 9)
		switch r.Weighted([]float64{2, 3, 2}) {
		case 0:
			c.Mul = r.Range(1, 64)
		case 1:
			c.Mul = r.Range(64, 4096)
		default:
			c.Mul = r.Range(1, 65535)
		}
	}
}

func (g *execGen) ranges() ref.Range {
	r := g.r
	s := spacingOf(g.cfg.Fee)
	t := g.m.Tick
	var lo, hi int
	switch r.Weighted([]float64{4, 2, 2, 2}) {
	case 0:
		lo = ref.FloorTo(t-r.Intn(60*s), s)
		hi = ref.CeilTo(t+1+r.Intn(60*s), s)
	case 1: // touching the price
		lo = ref.FloorTo(t, s)
		hi = lo + s*r.Range(1, 4)
		if r.P(0.5) {
			lo, hi = lo-s*r.Range(1, 4), lo
		}
	case 2: // one side
		lo = ref.FloorTo(t, s) + s*r.Range(-200, 200)
		hi = lo + s*r.Range(1, 50)
	default:
		lo = ref.FloorTo(t-r.Intn(5000*s/10), s)
		hi = ref.CeilTo(t+1+r.Intn(5000*s/10), s)
	}
	m := ref.FloorTo(ref.MaxTick, s)
	if lo < -m {
		lo = -m
	}
	if hi > m {
		hi = m
	}
	if lo >= hi {
		lo, hi = -m, m
	}
	return ref.Range{Lo: lo, Hi: hi}
}

// record appends what the pool accepted.
func (g *execGen) record(t TxRec) {
	t.T = g.now
	t.Sqrt = new(big.Int).Set(g.m.Sqrt)
	t.Tick = g.m.Tick
	if t.K == "Swap" {
		t.X96 = g.r.P(0.3)
	}
	g.txs = append(g.txs, t)
}

func (g *execGen) mint() bool {
	rg := g.ranges()
	amt := logUniform(g.r, g.lmag-5, g.lmag+1)
	if g.m.Liq.Sign() == 0 && g.r.P(0.7) {
		s := spacingOf(g.cfg.Fee)
		rg = ref.Range{Lo: ref.FloorTo(g.m.Tick-s*g.r.Range(1, 3000), s), Hi: ref.CeilTo(g.m.Tick+s*g.r.Range(1, 3000), s)}
	}
	a0, a1 := ref.DepositAmounts(g.m.Sqrt, g.m.Tick, rg, amt)
	if _, _, ok := g.try(PoolOp{K: "adep", Lo: rg.Lo, Hi: rg.Hi, A: amt}); !ok {
		return false
	}
	if g.mine[rg] == nil {
		g.mine[rg] = new(big.Int)
	}
	g.mine[rg].Add(g.mine[rg], amt)
	g.record(TxRec{K: "Mint", Lo: rg.Lo, Hi: rg.Hi, A: amt, A0: a0, A1: a1})
	return true
}

func (g *execGen) burn(rg ref.Range, amt *big.Int) bool {
	if _, _, ok := g.try(PoolOp{K: "awd", Lo: rg.Lo, Hi: rg.Hi, A: amt}); !ok {
		return false
	}
	a0, a1 := ref.DepositAmounts(g.m.Sqrt, g.m.Tick, rg, amt)
	left := g.mine[rg].Sub(g.mine[rg], amt)
	if left.Sign() == 0 {
		delete(g.mine, rg)
	}
	g.record(TxRec{K: "Burn", Lo: rg.Lo, Hi: rg.Hi, A: new(big.Int).Set(amt), A0: a0, A1: a1})
	return true
}

func (g *execGen) someBurn() bool {
	rs := sortedRanges(g.mine)
	if len(rs) == 0 {
		return false
	}
	rg := rs[g.r.Intn(len(rs))]
	amt := new(big.Int).Set(g.mine[rg])
	if g.r.P(0.5) {
		amt.Mul(amt, bi(int64(g.r.Range(1, 999)))).Div(amt, bi(1000))
	}
	if g.r.P(0.05) {
		amt.SetInt64(0)
	}
	return g.burn(rg, amt)
}

// swap moves the price by about the given number of ticks.
func (g *execGen) swap(ticks float64) bool {
	zfo := ticks < 0
	t := g.m.Tick + int(ticks)
	if g.exact {
		if g.goal == 0 {
			g.goal = g.m.Tick
		}
		g.goal += int(ticks)
		t = g.goal
		if ref.SqrtAt(t).Cmp(g.m.Sqrt) < 0 != zfo {
			return false
		}
	}
	snap := !g.exact && g.r.P(0.12)
	if snap { // onto a usable tick, or right below one
		k := ref.FloorTo(t, spacingOf(g.cfg.Fee))
		if g.r.P(0.25) {
			k--
		}
		if k != g.m.Tick && k < g.m.Tick == zfo && k > ref.MinTick {
			t = k
		}
	}
	if t < ref.MinTick+1 {
		t = ref.MinTick + 1
	}
	if t > ref.MaxTick-1 {
		t = ref.MaxTick - 1
	}
	target := ref.SqrtAt(t)
	if !g.exact && g.r.P(0.7) {
		d := new(big.Int).Sub(ref.SqrtAt(t+1), target)
		target.Add(target, d.Mul(d, bi(int64(g.r.Intn(100)))).Div(d, bi(100)))
	}
	if g.target != nil {
		target, snap = g.target, true
	}
	liq := g.m.Liq
	if liq.Sign() == 0 {
		liq = new(big.Int).Lsh(bi(1), uint(g.lmag-4))
	}
	var amt *big.Int
	if zfo {
		amt = ref.Amount0Delta(target, g.m.Sqrt, liq, true)
	} else {
		amt = ref.Amount1Delta(g.m.Sqrt, target, liq, true)
	}
	if g.exact || snap { // what is left after the fee gets there
		f := int64(g.cfg.Fee)
		amt.Mul(amt, bi(1000000)).Add(amt, bi(999999-f)).Div(amt, bi(1000000-f))
	}
	amt.Add(amt, bi(1))
	a0, a1, ok := g.try(PoolOp{K: "swap", Zfo: zfo, A: amt})
	if !ok {
		return false
	}
	// the record holds the amount really taken; partial fills do not happen
	// inside the band
	g.record(TxRec{K: "Swap", A0: a0, A1: a1, A: new(big.Int).Set(g.m.Liq)})
	return true
}

// edge moves the price to an end of the range the strategy will choose once
// it has seen that price: an adversary that knows the strategy.
func (g *execGen) edge() bool {
	c, s := &g.cfg, spacingOf(g.cfg.Fee)
	if len(g.past) < c.N {
		return false
	}
	w := append([]*big.Int(nil), g.past[len(g.past)-c.N+1:]...)
	w = append(w, nil)
	from := ref.FloorTo(g.m.Tick, s)
	upper := g.r.P(0.4)
	dir := g.r.Range(0, 1)*2 - 1
	for k := 1; k <= 80; k++ {
		t := from + dir*(k/2)*s
		if k%2 == 1 {
			t = from - dir*(k/2)*s
		}
		a := ref.SqrtAt(t)
		a.Add(a, ref.SqrtAt(t+1)).Rsh(a, 1)
		if !g.inBand(a) || a.Cmp(g.m.Sqrt) == 0 {
			continue
		}
		w[len(w)-1] = a
		mean, sd := statsOf(w)
		mid := new(big.Int).Sqrt(mean)
		var lo, hi int
		if c.Strat == "IntervalAroundAverage" {
			lo, hi = ref.TickAt(mid)-c.W, ref.TickAt(mid)+c.W
		} else {
			sd.Mul(sd, bi(int64(c.Mul))).Rsh(sd, 10).Sqrt(sd)
			if c.Strat == "VolatilitySized" {
				mid = a
			}
			lo, hi = clampTick(new(big.Int).Sub(mid, sd)), clampTick(new(big.Int).Add(mid, sd))
		}
		if upper {
			lo = hi
		}
		if nearest(lo, s).has(t) {
			g.target = a
			ok := g.swap(math.Copysign(1, float64(a.Cmp(g.m.Sqrt))))
			g.target = nil
			return ok
		}
	}
	return false
}

func (g *execGen) flash() bool {
	if g.m.Liq.Sign() == 0 {
		return false
	}
	pick := func(b *big.Int) *big.Int {
		if b.Sign() <= 0 || g.r.P(0.3) {
			return new(big.Int)
		}
		return new(big.Int).Rsh(b, uint(g.r.Range(1, 10)))
	}
	a, b := pick(g.m.Bal0), pick(g.m.Bal1)
	if _, _, ok := g.try(PoolOp{K: "flash", A: a, B: b}); !ok {
		return false
	}
	g.record(TxRec{K: "Flash", A0: a, A1: b})
	return true
}

func (g *execGen) one() bool {
	r := g.r
	sigma := []float64{1, 10, 100, 1000}[r.Weighted([]float64{2, 4, 4, 1})]
	switch r.Weighted([]float64{12, 4, 3, 1}) {
	case 0:
		t := r.Norm() * sigma
		if math.Abs(t) < 1 {
			t = math.Copysign(0.5, t)
		}
		return g.swap(t)
	case 1:
		return g.mint()
	case 2:
		return g.someBurn()
	default:
		return g.flash()
	}
}

// market draws a configuration and records a market.
func (g *execGen) market() (ExecCfg, []TxRec) {
	r := g.r
	g.start()
	g.unit = []int{1, 12, 60, 600, 3600}[r.Intn(5)]
	g.now = 1_600_000_000 + r.Intn(60_000_000)
	if r.P(0.3) {
		g.now -= g.now % 3600
	}
	n := r.Range(20, 70)
	if g.prop == "C17" {
		n = r.Range(40, 120)
	}
	if r.P(0.05) {
		n = r.Range(1, 6)
	}
	still := r.P(0.1) // a market without any price movement
	if still {
		g.faults["quiet market"]++
	}
	burst := 0
	g.chase = !still && g.cfg.N > 0 && r.P(0.25)
	for i := 0; len(g.txs) < n && i < 20*n; i++ {
		if g.chase && len(g.past) <= len(g.txs) {
			g.past = append(g.past, g.m.Sqrt)
		}
		switch {
		case len(g.txs) == 0:
		case burst > 0:
			burst--
		case r.P(0.06):
			burst = r.Range(2, 8)
			g.faults["burst at one timestamp"]++
		case r.P(0.06):
			g.now += g.unit * r.Range(20, 300)
			g.faults["stalled feed"]++
		case r.P(0.02):
			g.now += g.unit * r.Range(1000, 20000)
			g.faults["clock jump"]++
		default:
			g.now += g.unit * r.Intn(5)
			if r.P(0.1) {
				g.now += r.Intn(g.unit + 1)
			}
		}
		switch {
		case still:
			if !g.mint() {
				g.someBurn()
			}
		case g.chase && r.P(0.2):
			if g.edge() {
				g.faults["price moved to the end of the strategy's next range"]++
			}
		case r.P(0.03):
			if g.swap(r.Norm() * 20000) {
				g.faults["price crash or spike"]++
			}
		case r.P(0.02):
			dried := false
			for _, rg := range sortedRanges(g.mine) {
				if rg.Lo <= g.m.Tick && g.m.Tick < rg.Hi && g.burn(rg, new(big.Int).Set(g.mine[rg])) {
					dried = true
				}
			}
			if dried {
				g.faults["providers leave"]++
			}
		case r.P(0.03) && len(g.txs) > 0:
			t := g.txs[len(g.txs)-1-r.Intn(min(3, len(g.txs)))]
			if op, ok := t.op(); ok {
				if _, _, ok := g.try(op); ok {
					t.T = g.now
					g.txs = append(g.txs, t)
					g.faults["transaction recorded twice"]++
					rg := ref.Range{Lo: t.Lo, Hi: t.Hi}
					if h := g.mine[rg]; t.K == "Burn" && h != nil {
						h.Sub(h, t.A)
						if h.Sign() <= 0 {
							delete(g.mine, rg)
						}
					}
				}
			}
		default:
			g.one()
		}
	}
	if len(g.txs) == 0 {
		g.mint()
	}
	g.window()
	ids(g.r, g.txs, g.faults)
	return g.cfg, g.txs
}

// window draws intervals, start and end.
func (g *execGen) window() {
	r, c := g.r, &g.cfg
	if len(g.txs) == 0 {
		c.Upd, c.Snap, c.PI, c.End = 1, 1, 1, 1
		return
	}
	first, last := g.txs[0].T, g.txs[len(g.txs)-1].T
	span := last - first
	interval := func() int {
		switch r.Weighted([]float64{5, 3, 1}) {
		case 0:
			return g.unit * r.Range(1, 12)
		case 1:
			return max(1, span/r.Range(2, 30))
		default:
			return r.Range(1, max(2, 2*span))
		}
	}
	c.Upd, c.Snap, c.PI = interval(), interval(), interval()
	if r.P(0.2) {
		c.Snap = c.Upd
	}
	if c.N > 0 {
		c.PI = max(1, min(c.PI, span/(c.N+2)))
		if r.P(0.5) {
			c.PI = g.unit
		}
	}
	if g.chase { // every transaction is sampled, most are followed by a rebalance
		c.PI = 1
		if r.P(0.8) {
			c.Upd = r.Range(1, g.unit)
		}
	}
	at := func() int { return g.txs[r.Intn(len(g.txs))].T }
	switch r.Weighted([]float64{3, 4, 3, 2, 1, 1}) {
	case 0:
		c.Start = first
	case 1:
		c.Start = g.txs[r.Intn(len(g.txs)*2/3+1)%len(g.txs)].T
	case 2:
		c.Start = first + r.Intn(span+1)/2
	case 3:
		c.Start = first - r.Intn(100*g.unit+1)
	case 4:
		c.Start = last
	default:
		c.Start = last + 1 + r.Intn(20*g.unit)
	}
	switch r.Weighted([]float64{6, 2, 2, 1, 1}) {
	case 0:
		c.End = 90000000000000
	case 1:
		c.End = at()
	case 2:
		c.End = first + r.Intn(span+1)
	case 3:
		c.End = last
	default:
		c.End = c.Start - r.Intn(10*g.unit+1)
	}
	if c.N > 0 {
		// the price history must be full when the strategy starts
		next, n := first, 0
		for _, t := range g.txs {
			if n >= c.N+1 {
				if c.Start < t.T {
					c.Start = t.T
				}
				break
			}
			if t.T >= next {
				n++
				next += c.PI
			}
		}
		if n < c.N+1 && c.Start <= last {
			c.Start = last + 1
		}
		if r.P(0.8) && c.End < c.Start {
			c.End = 90000000000000
		}
	}
	switch {
	case c.Start > last:
		g.faults["start after the last transaction"]++
	case c.Start < first:
		g.faults["start before the first transaction"]++
	}
	if c.End < c.Start {
		g.faults["end before start"]++
	} else if c.End < last {
		g.faults["end inside the recording"]++
	}
}

// ids gives the transactions the ids of a real recording: those of one block
// chain transaction share a hash, some tools leave the id out, and ids need not
// ascend.
func ids(r *rng.R, txs []TxRec, faults map[string]int) {
	style := r.Intn(6)
	if style >= 3 {
		return
	}
	faults["several transactions with one id"]++
	last := ""
	for i := range txs {
		if i == 0 || !r.P(0.35) {
			last = fmt.Sprintf("0x%x", r.U64()>>40)
		}
		switch style {
		case 0:
			txs[i].ID = last
		case 1:
			txs[i].ID = "-"
			if r.P(0.3) {
				txs[i].ID = last
			}
		case 2: // only within a timestamp
			if i > 0 && txs[i].T == txs[i-1].T && r.P(0.6) {
				txs[i].ID = last
				txs[i-1].ID = last
			} else {
				last = fmt.Sprintf("0x%x", r.U64()>>40)
			}
		}
	}
}
