package worlds

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/tickdata"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zsim/ref"
	"uniswap-simulator/zsim/rng"
	"uniswap-simulator/zsim/simrt"
	"uniswap-simulator/zsim/verifall"
)

const (
	tok0 = "T0"
	tok1 = "T1"
)

// PoolWorld: one pool, many participants reaching it through an unreliable
// network, checkpoints and crashes.
type PoolWorld struct{}

type PoolCfg struct {
	Fee  int      `json:"fee"`
	Sqrt *big.Int `json:"sqrt"`
	Fg0  *big.Int `json:"fg0,omitempty"`
	Fg1  *big.Int `json:"fg1,omitempty"`
}

// PoolOp is one operation as it reaches the pool.
type PoolOp struct {
	K   string   `json:"k"` // dep wd adep awd col swap flash rtl rts fork mark crash
	At  int64    `json:"at,omitempty"`
	Br  int      `json:"br,omitempty"`
	Lo  int      `json:"lo,omitempty"`
	Hi  int      `json:"hi,omitempty"`
	A   *big.Int `json:"a,omitempty"`
	B   *big.Int `json:"b,omitempty"`
	Zfo bool     `json:"zfo,omitempty"`
	Lim *big.Int `json:"lim,omitempty"`
	N   int64    `json:"n,omitempty"` // crash: steps into the operation described by the rest
	Sub string   `json:"sub,omitempty"`
}

func (o PoolOp) String() string {
	b, _ := json.Marshal(o)
	return string(b)
}

type PoolTrace struct {
	Cfg PoolCfg  `json:"cfg"`
	Ops []PoolOp `json:"ops"`
}

type poolBranch struct {
	sut   *pool.Pool
	model *ref.Pool
	twin  *pool.Pool
	log   []PoolOp
	last  string
	dead  bool
	// checkpoint
	ck      *pool.Pool
	ckLast  string
	ckModel *ref.Pool
	ckLog   int
}

type poolRun struct {
	prop       string
	cfg        PoolCfg
	rep        *Report
	br         []*poolBranch
	step       int
	ticks      map[int]bool
	tickSorted []int
	bal0       *big.Int
	bal1       *big.Int
	ended      bool
	checks     int
}

func spacingOf(fee int) int {
	switch fee {
	case 500:
		return 10
	case 3000:
		return 60
	default:
		return 200
	}
}

func newSut(c PoolCfg) (p *pool.Pool, call Call) {
	call = Do(1<<40, func() {
		p = pool.NewPool(tok0, tok1, c.Fee, U(c.Sqrt))
		if c.Fg0 != nil {
			p.FeeGrowthGlobal0X128 = U(c.Fg0)
		}
		if c.Fg1 != nil {
			p.FeeGrowthGlobal1X128 = U(c.Fg1)
		}
	})
	return
}

func newPoolRun(cfg PoolCfg, prop string) *poolRun {
	verifall.Reset()
	simrt.SeedMaps(1)
	r := &poolRun{prop: prop, cfg: cfg, rep: NewReport(), ticks: map[int]bool{}, bal0: new(big.Int), bal1: new(big.Int)}
	m := ref.NewPool(cfg.Fee, spacingOf(cfg.Fee), cfg.Sqrt)
	if cfg.Fg0 != nil {
		m.Fg0.Set(cfg.Fg0)
	}
	if cfg.Fg1 != nil {
		m.Fg1.Set(cfg.Fg1)
	}
	b := &poolBranch{model: m}
	var c Call
	b.sut, c = newSut(cfg)
	if c.Panicked {
		r.fail("C01", "new", "a new pool at price %v cannot be created: %s", cfg.Sqrt, c)
		r.ended = true
		return r
	}
	if prop == "C06" || prop == "C07" {
		b.twin, _ = newSut(cfg)
	}
	r.br = []*poolBranch{b}
	if prop == "C07" {
		b.last = r.observe(b.sut)
	}
	return r
}

// fail records the first violation of the property under check.
func (r *poolRun) fail(prop, kind, f string, a ...any) {
	if prop != r.prop {
		r.rep.Counts["other-property alarms"]++
		return
	}
	if r.rep.Viol == nil {
		r.rep.Viol = &Violation{Prop: prop, Kind: kind, Msg: fmt.Sprintf(f, a...), Step: r.step}
	}
	r.ended = true
}

type poolOut struct {
	Call
	A0, A1 *big.Int
}

func (o poolOut) String() string {
	if o.Panicked {
		return "failed: " + o.Call.String()
	}
	if o.A0 == nil {
		return "done"
	}
	return fmt.Sprintf("(%v, %v)", o.A0, o.A1)
}

func (o poolOut) same(p poolOut) bool {
	if o.Panicked || p.Panicked {
		return o.Panicked == p.Panicked
	}
	if o.A0 == nil || p.A0 == nil {
		return o.A0 == nil && p.A0 == nil
	}
	return o.A0.Cmp(p.A0) == 0 && o.A1.Cmp(p.A1) == 0
}

func limArg(l *big.Int) *ui.Int {
	if l == nil {
		return new(ui.Int)
	}
	return U(l)
}

// execOp performs one primitive operation on the real pool.
func execOp(p *pool.Pool, op PoolOp, budget int64) (o poolOut) {
	var a0, a1 *ui.Int
	o.Call = Do(budget, func() {
		switch op.K {
		case "dep":
			a0, a1 = p.MintStrategy(op.Lo, op.Hi, U(op.A))
		case "wd":
			a0, a1 = p.BurnStrategy(op.Lo, op.Hi, U(op.A))
		case "col":
			a0, a1 = p.CollectStrategy(op.Lo, op.Hi)
		case "adep":
			p.Mint(op.Lo, op.Hi, U(op.A))
		case "awd":
			p.Burn(op.Lo, op.Hi, U(op.A))
		case "flash":
			p.Flash(U(op.A), U(op.B))
		case "swap":
			in, out := tok0, tok1
			if !op.Zfo {
				in, out = tok1, tok0
			}
			if op.A.Sign() >= 0 {
				a0, a1 = p.ExactInputSwap(U(op.A), in, limArg(op.Lim))
			} else {
				a0, a1 = p.ExactOutputSwap(U(op.A), out, limArg(op.Lim))
			}
		default:
			panic("unknown op " + op.K)
		}
	})
	if o.Panicked {
		return
	}
	switch op.K {
	case "dep", "wd", "col", "swap":
		if a0 == nil || a1 == nil {
			o.Panicked, o.Runtime, o.Msg, o.Where = true, true, "it completes without returning both amounts", op.K
			return
		}
		o.A0, o.A1 = S(a0), S(a1)
	}
	return
}

// modelOp performs it on the reference contract.
func modelOp(m *ref.Pool, op PoolOp) (a0, a1 *big.Int) {
	rg := ref.Range{Lo: op.Lo, Hi: op.Hi}
	switch op.K {
	case "dep":
		return m.Deposit(rg, op.A, true)
	case "wd":
		return m.Withdraw(rg, op.A, true)
	case "col":
		return m.Collect(rg)
	case "adep":
		m.Deposit(rg, op.A, false)
	case "awd":
		m.Withdraw(rg, op.A, false)
	case "flash":
		m.Flash(op.A, op.B)
	case "swap":
		lim := op.Lim
		if lim == nil {
			lim = ref.NoLimit(op.Zfo)
		}
		return m.Swap(op.Zfo, op.A, lim)
	}
	return nil, nil
}

// mustRefuse: the operations the property lists as invalid, judged against
// the pool's own visible state.
func mustRefuse(p *pool.Pool, m *ref.Pool, op PoolOp) bool {
	bad := op.Lo >= op.Hi || op.Lo < ref.MinTick || op.Hi > ref.MaxTick
	switch op.K {
	case "dep", "adep":
		return bad || op.A.Sign() == 0
	case "awd":
		return bad
	case "wd":
		return bad || overdraws(m, op)
	case "flash":
		return B(p.Liquidity).Sign() == 0
	case "swap":
		if op.A.Sign() == 0 {
			return true
		}
		lim := op.Lim
		if lim == nil {
			lim = ref.NoLimit(op.Zfo)
		}
		cur := B(p.SqrtRatioX96)
		if op.Zfo {
			return lim.Cmp(cur) >= 0 || lim.Cmp(ref.MinSqrt) <= 0
		}
		return lim.Cmp(cur) <= 0 || lim.Cmp(ref.MaxSqrt) >= 0
	}
	return false
}

// overdraws: a withdrawal of more liquidity than the position has.
func overdraws(m *ref.Pool, op PoolOp) bool {
	if op.K != "wd" {
		return false
	}
	pos := m.Acc[ref.Range{Lo: op.Lo, Hi: op.Hi}]
	return op.A.Sign() > 0 && (pos == nil || op.A.Cmp(pos.Liq) > 0)
}

const slack = 300_000

// budgetFor bounds the work of an operation by the words and ticks it passes.
func budgetFor(m *ref.Pool, op PoolOp) int64 {
	n := int64(len(m.Ticks()))
	if op.K == "swap" {
		return slack + int64(m.LastSteps)*20_000 + n*200
	}
	return slack + n*2_000
}

// apply performs one recorded step on everything that takes part.
func (r *poolRun) apply(op PoolOp) {
	if r.ended || op.Br >= len(r.br) {
		return
	}
	b := r.br[op.Br]
	if b.dead {
		return
	}
	if op.At > r.rep.SimTime {
		r.rep.SimTime = op.At
	}
	// the interleaving: who acts on which fork and range, in delivery order
	dir := uint64(0)
	if op.Zfo {
		dir = 1
	}
	r.rep.Schedule = rng.Derive(r.rep.Schedule, fnv(op.K), uint64(op.Br), uint64(op.Lo), uint64(op.Hi), dir)
	switch op.K {
	case "fork":
		r.fork(b)
	case "mark":
		r.mark(b)
	case "crash":
		r.crash(b, op)
	case "rtl":
		r.roundTripLiquidity(b, op)
	case "rts":
		r.roundTripSwap(b, op)
	default:
		r.primitive(b, op)
	}
	if !r.ended && r.prop == "C07" {
		r.bystanders(b)
	}
}

func (r *poolRun) primitive(b *poolBranch, op PoolOp) (out poolOut, delivered bool) {
	var e0, e1 *big.Int
	q, rev := b.model.Try(func(q *ref.Pool) { e0, e1 = modelOp(q, op) })
	if rev != nil {
		if r.prop == "C05" && overdraws(b.model, op) {
			r.overdraw(b, op)
			return
		}
		if mustRefuse(b.sut, b.model, op) {
			if r.prop == "C06" || r.prop == "C18" {
				r.refused(b, op, rev)
			}
			return
		}
		r.rep.Counts["rejected by the contract, not submitted"]++
		return
	}
	if r.prop == "C05" && (op.K == "adep" || op.K == "awd") {
		return
	}
	r.rep.Counts[op.K]++
	if op.K == "dep" || op.K == "adep" {
		r.ticks[op.Lo], r.ticks[op.Hi] = true, true
	}
	before := snap(b.sut)
	out = execOp(b.sut, op, budgetFor(q, op))
	pre := b.model
	b.model = q
	b.log = append(b.log, op)
	r.rep.Steps += out.Steps
	r.rep.mixStr(op.K)
	r.rep.mix(uint64(out.Steps))
	if out.A0 != nil {
		r.rep.mix(lowWord(out.A0), lowWord(out.A1))
	}
	r.fingerprint(b, op, q)
	r.judge(b, op, pre, before, out, e0, e1)
	return out, true
}

// refused submits an invalid operation.
func (r *poolRun) refused(b *poolBranch, op PoolOp, rev error) {
	r.rep.Counts["invalid operations submitted"]++
	r.rep.Faults["invalid operation"]++
	before, entries := r.observe(b.sut), len(b.sut.Positions)
	out := execOp(b.sut, op, slack)
	r.rep.state(201, fnv(op.K), fnv(rev.Error()))
	if out.Over {
		r.fail("C18", "refusal does not end", "%v must be refused (%v) but is still running after %d steps, in %s", op, rev, out.Steps, out.Where)
		r.ended = true
		return
	}
	if !out.Panicked {
		r.fail("C06", "accepted "+op.K, "%v must be refused (%v) but was accepted with %s", op, rev, out)
		r.ended = true
		return
	}
	if after := r.observe(b.sut); after != before {
		r.fail("C06", "trace left "+op.K, "refused %v changed the pool: %s", op, diff(before, after))
		r.ended = true
	} else if n := len(b.sut.Positions); n != entries {
		r.fail("C06", "trace left "+op.K, "refused %v changed the number of recorded positions from %d to %d", op, entries, n)
		r.ended = true
	}
}

// overdraw: somebody asks for more than the position holds. The pool may refuse
// or pay what there is.
func (r *poolRun) overdraw(b *poolBranch, op PoolOp) {
	r.rep.Counts["attempts to withdraw too much"]++
	r.rep.Faults["invalid operation"]++
	out := execOp(b.sut, op, slack)
	if out.Panicked {
		return
	}
	r.ended = true
	e0, e1 := new(big.Int), new(big.Int)
	rg := ref.Range{Lo: op.Lo, Hi: op.Hi}
	if pos := b.model.Acc[rg]; pos != nil && pos.Liq.Sign() > 0 {
		_, rev := b.model.Try(func(q *ref.Pool) { e0, e1 = q.Withdraw(rg, pos.Liq, true) })
		if rev != nil {
			return
		}
	}
	if out.A0 != nil && (out.A0.Cmp(e0) > 0 || out.A1.Cmp(e1) > 0) {
		r.fail("C05", "overdrawn", "%v credits (%v, %v), although the whole position is worth no more than (%v, %v)", op, out.A0, out.A1, e0, e1)
	}
}

type psnap struct {
	sqrt, liq *big.Int
	tick      int
}

func snap(p *pool.Pool) psnap {
	return psnap{B(p.SqrtRatioX96), B(p.Liquidity), p.TickCurrent}
}

func (r *poolRun) judge(b *poolBranch, op PoolOp, pre *ref.Pool, before psnap, out poolOut, e0, e1 *big.Int) {
	m := b.model
	rg := ref.Range{Lo: op.Lo, Hi: op.Hi}
	if out.Panicked {
		if out.Over {
			r.fail("C18", "does not end "+op.K, "%v is still running after %d steps (the contract passes %d word or tick boundaries), in %s", op, out.Steps, m.LastSteps, out.Where)
		}
		switch op.K {
		case "swap":
			r.fail("C01", "swap fails", "%v at price %v, tick %d is accepted by the contract, which returns (%v, %v), but fails: %s", op, before.sqrt, before.tick, e0, e1, out.Call)
			if m.LastEndedAtLimit && !out.Over {
				r.fail("C18", "no rest at limit", "%v runs out of liquidity and must come to rest at its price limit, but fails: %s", op, out.Call)
			}
		case "dep", "wd", "adep", "awd":
			r.fail("C03", op.K+" fails", "%v at price %v, tick %d is accepted by the contract, which gives (%v, %v), but fails: %s", op, before.sqrt, before.tick, e0, e1, out.Call)
			if op.K == "wd" {
				r.fail("C04", "touch fails", "touching the position with %v fails: %s", op, out.Call)
			}
		case "col":
			r.fail("C04", "collect fails", "%v fails: %s; the contract pays (%v, %v)", op, out.Call, e0, e1)
		case "flash":
			r.fail("C04", "flash fails", "%v is accepted by the contract but fails: %s", op, out.Call)
		}
		if out.Runtime {
			r.fail("C18", "breaks down", "%v neither completes nor is refused: %s", op, out.Call)
		}
		if r.prop == "C02" {
			r.booksAfterFailure(b, op, pre, out)
		}
		if b.twin != nil && !r.ended {
			t := execOp(b.twin, op, slack*100)
			if !t.Panicked {
				prop := r.prop
				r.fail(prop, "diverges "+op.K, "%v fails (%s) although it completes with %s in the pool that %s", op, out.Call, t, r.twinName())
			}
		}
		r.ended = true
		return
	}
	after := snap(b.sut)
	if op.K == "swap" {
		if out.A0.Cmp(e0) != 0 || out.A1.Cmp(e1) != 0 {
			r.fail("C01", "amounts", "%v at price %v, tick %d, liquidity %v returns (%v, %v); the contract computes (%v, %v)", op, before.sqrt, before.tick, before.liq, out.A0, out.A1, e0, e1)
		}
		if after.sqrt.Cmp(m.Sqrt) != 0 || after.tick != m.Tick || after.liq.Cmp(m.Liq) != 0 {
			r.fail("C01", "state", "%v at price %v, tick %d leaves price %v, tick %d, liquidity %v; the contract: %v, %d, %v", op, before.sqrt, before.tick, after.sqrt, after.tick, after.liq, m.Sqrt, m.Tick, m.Liq)
		}
		lim := op.Lim
		if lim == nil {
			lim = ref.NoLimit(op.Zfo)
		}
		spec := out.A1
		if op.Zfo == (op.A.Sign() > 0) {
			spec = out.A0
		}
		if spec.Cmp(op.A) != 0 && after.sqrt.Cmp(lim) != 0 {
			r.fail("C18", "no rest at limit", "%v ran out of liquidity after %v of its amount but rests at price %v instead of its limit %v", op, spec, after.sqrt, lim)
		}
	} else {
		if after.sqrt.Cmp(before.sqrt) != 0 || after.tick != before.tick {
			r.fail("C01", "moved", "%v moved the price from %v (tick %d) to %v (tick %d)", op, before.sqrt, before.tick, after.sqrt, after.tick)
		}
		if op.K == "flash" && after.liq.Cmp(before.liq) != 0 {
			r.fail("C02", "flash liquidity", "%v changed the liquidity from %v to %v", op, before.liq, after.liq)
		}
	}
	switch op.K {
	case "dep", "wd":
		// priced at the pool's own price, so that only this operation is judged
		l := op.A
		if op.K == "wd" {
			l = new(big.Int).Neg(op.A)
		}
		x0, x1 := new(big.Int), new(big.Int)
		if op.A.Sign() > 0 {
			x0, x1 = ref.DepositAmounts(before.sqrt, before.tick, rg, l)
		}
		if op.K == "wd" {
			x0.Neg(x0)
			x1.Neg(x1)
		}
		if out.A0.Cmp(x0) != 0 || out.A1.Cmp(x1) != 0 {
			r.fail("C03", "amounts "+op.K, "%v at price %v, tick %d gives (%v, %v); the contract gives (%v, %v)", op, before.sqrt, before.tick, out.A0, out.A1, x0, x1)
		}
	case "col":
		if out.A0.Cmp(e0) != 0 || out.A1.Cmp(e1) != 0 {
			r.fail("C04", "collected", "%v pays (%v, %v); the contract pays (%v, %v)", op, out.A0, out.A1, e0, e1)
		}
		if (e0.Sign() != 0 || e1.Sign() != 0) && r.prop == "C04" {
			r.rep.Counts["collects paying something"]++
		}
	}
	if r.prop == "C05" {
		r.ledger(b, op, out)
	}
	if r.prop == "C02" && !r.ended {
		r.checks++
		r.books(b, op.String(), r.checks%24 == 0)
	}
	if b.twin != nil && !r.ended {
		t := execOp(b.twin, op, slack*100)
		if !t.same(out) {
			r.fail(r.prop, "diverges "+op.K, "%v gives %s, but %s in the pool that %s", op, out, t, r.twinName())
		} else if x, y := r.observe(b.sut), r.observe(b.twin); x != y {
			r.fail(r.prop, "diverges "+op.K, "after %v the pool differs from the one that %s: %s", op, r.twinName(), diff(y, x))
		}
	}
}

func (r *poolRun) twinName() string {
	if r.prop == "C06" {
		return "never saw the refused operations"
	}
	return "was never cloned or interrupted"
}

// fingerprint feeds the coverage measure.
func (r *poolRun) fingerprint(b *poolBranch, op PoolOp, m *ref.Pool) {
	where := uint64(0)
	if op.K != "swap" && op.K != "flash" {
		switch {
		case m.Tick < op.Lo:
			where = 1
		case m.Tick >= op.Hi:
			where = 2
		}
		if len(m.Ticks()) > 0 {
			where |= uint64(sort.SearchInts(m.Ticks(), op.Lo))<<4&0x70 | uint64(len(m.Ticks())/4)<<8
		}
		r.rep.state(fnv(op.K), where, uint64(r.cfg.Fee), uint64(m.Sqrt.BitLen()/16))
		return
	}
	if op.K == "flash" {
		r.rep.state(3, bucket(m.Liq), bucket(op.A), bucket(op.B))
		return
	}
	x := uint64(0)
	for i, f := range []bool{op.Zfo, op.A.Sign() > 0, op.Lim == nil, m.LastEndedAtLimit, m.LastExact, m.LastZeroLiq, m.LastWordStop} {
		if f {
			x |= 1 << i
		}
	}
	cross := m.LastX
	if cross > 6 {
		cross = 6
	}
	r.rep.state(4, x, uint64(cross), uint64(r.cfg.Fee), uint64(m.Sqrt.BitLen()/16), uint64(m.Liq.BitLen()/16))
	r.rep.Counts["initialised ticks crossed"] += m.LastX
	if m.LastX > 0 {
		r.rep.Counts["swaps crossing a tick"]++
	}
	if m.LastEndedAtLimit {
		r.rep.Counts["swaps ending at their limit"]++
	}
	if m.LastZeroLiq {
		r.rep.Counts["swaps through zero liquidity"]++
	}
	if m.LastWordStop {
		r.rep.Counts["swaps stepping over a word boundary"]++
	}
}

// ---- observation -------------------------------------------------------------

func getTick(p *pool.Pool, t int) (tk tickdata.Tick, ok bool, c Call) {
	c = DoQuiet(slack, func() { tk = p.TickData.GetTick(t) })
	return tk, !c.Panicked && tk.Index == t && tk.LiquidityGross != nil, c
}

// observe writes down the meaning of a pool's state (numbers in hexadecimal).
func (r *poolRun) observe(p *pool.Pool) string {
	s := make([]byte, 0, 256+len(r.ticks)*128+len(p.Positions)*256)
	num := func(z *ui.Int) {
		s = append(s, ' ')
		if z == nil {
			s = append(s, "nil"...)
			return
		}
		top := 3
		for top > 0 && z[top] == 0 {
			top--
		}
		s = strconv.AppendUint(s, z[top], 16)
		for i := top - 1; i >= 0; i-- {
			for sh := 60; sh >= 0; sh -= 4 {
				s = append(s, "0123456789abcdef"[z[i]>>uint(sh)&15])
			}
		}
	}
	s = append(s, "price"...)
	num(p.SqrtRatioX96)
	s = append(s, ";tick "...)
	s = strconv.AppendInt(s, int64(p.TickCurrent), 10)
	s = append(s, ";liquidity"...)
	num(p.Liquidity)
	s = append(s, ";fees"...)
	num(p.FeeGrowthGlobal0X128)
	num(p.FeeGrowthGlobal1X128)
	for _, t := range r.tickList() {
		tk, ok, _ := getTick(p, t)
		if ok {
			s = append(s, ";tick "...)
			s = strconv.AppendInt(s, int64(t), 10)
			s = append(s, ':')
			num(tk.LiquidityNet)
			num(tk.LiquidityGross)
			num(tk.FeeGrowthOutside0X128)
			num(tk.FeeGrowthOutside1X128)
		}
	}
	for _, k := range sortedKeys(p.Positions) {
		x := p.Positions[k]
		if x == nil || x.Liquidity.IsZero() && x.FeeGrowthInside0LastX128.IsZero() && x.FeeGrowthInside1LastX128.IsZero() && x.TokensOwed0.IsZero() && x.TokensOwed1.IsZero() {
			continue
		}
		s = append(s, ";position "...)
		s = strconv.AppendQuote(s, k)
		num(x.Liquidity)
		s = append(s, " owed"...)
		num(x.TokensOwed0)
		num(x.TokensOwed1)
		s = append(s, " fees at"...)
		num(x.FeeGrowthInside0LastX128)
		num(x.FeeGrowthInside1LastX128)
	}
	return string(s)
}

// tickList returns every tick ever used, in order.
func (r *poolRun) tickList() []int {
	if len(r.tickSorted) != len(r.ticks) {
		r.tickSorted = sortedKeys(r.ticks)
	}
	return r.tickSorted
}

// diff names the parts in which two observations differ.
func diff(a, b string) string {
	x, y := strings.Split(a, ";"), strings.Split(b, ";")
	in := func(l []string, s string) bool {
		for _, t := range l {
			if t == s {
				return true
			}
		}
		return false
	}
	var was, is []string
	for _, s := range x {
		if !in(y, s) {
			was = append(was, s)
		}
	}
	for _, s := range y {
		if !in(x, s) {
			is = append(is, s)
		}
	}
	return fmt.Sprintf("expected {%s}, got {%s}", strings.Join(was, "; "), strings.Join(is, "; "))
}

// ---- C02: books --------------------------------------------------------------

// nextInit follows the pool's own word-wise search to the next initialised tick.
func (r *poolRun) nextInit(p *pool.Pool, t int, lte bool) (found int, ok bool, problem string) {
	for i := 0; i < 3000; i++ {
		var n int
		var in bool
		c := Do(slack, func() { n, in = p.TickData.NextInitializedTickWithinOneWord(t, lte) })
		if c.Over {
			r.fail("C18", "search does not end", "looking for the next tick from %d (down %v) is still running after %d steps, in %s", t, lte, c.Steps, c.Where)
		}
		if c.Panicked {
			return 0, false, "fails: " + c.String()
		}
		if lte && n > t || !lte && n <= t {
			r.fail("C18", "search goes backwards", "looking for the next tick from %d (down %v) leads to %d", t, lte, n)
			return 0, false, fmt.Sprintf("leads to %d, the wrong way", n)
		}
		if in {
			return n, true, ""
		}
		if lte {
			t = n - 1
			if t < ref.MinTick {
				return 0, false, ""
			}
		} else {
			t = n
			if t >= ref.MaxTick {
				return 0, false, ""
			}
		}
	}
	r.fail("C18", "search does not end", "looking for the next tick passes more than 3000 words")
	return 0, false, "does not end"
}

func sumInRange(m *ref.Pool, tick int) *big.Int {
	s := new(big.Int)
	for rg, p := range m.Acc {
		if rg.Lo <= tick && tick < rg.Hi {
			s.Add(s, p.Liq)
		}
	}
	for rg, l := range m.Anon {
		if rg.Lo <= tick && tick < rg.Hi {
			s.Add(s, l)
		}
	}
	return s
}

// booksDiff compares the pool's books with the open positions of m.
func (r *poolRun) booksDiff(p *pool.Pool, m *ref.Pool, full bool) (kind, msg string) {
	if want := sumInRange(m, p.TickCurrent); B(p.Liquidity).Cmp(want) != 0 {
		return "liquidity", fmt.Sprintf("in-range liquidity is %v but the open positions containing tick %d sum to %v", B(p.Liquidity), p.TickCurrent, want)
	}
	for _, t := range m.Ticks() {
		net, gross, _ := m.TickInfo(t)
		tk, ok, c := getTick(p, t)
		if !ok {
			return "tick missing", fmt.Sprintf("tick %d, where an open position starts or ends, is not initialised (%s)", t, c)
		}
		if S(tk.LiquidityNet).Cmp(net) != 0 || B(tk.LiquidityGross).Cmp(gross) != 0 {
			return "tick sums", fmt.Sprintf("tick %d has net %v and gross %v; the open positions sum to %v and %v", t, S(tk.LiquidityNet), B(tk.LiquidityGross), net, gross)
		}
	}
	froms := []int{p.TickCurrent}
	for i, t := range m.Ticks() {
		if i%3 == r.checks%3 {
			froms = append(froms, t, t-1, t+1)
		}
	}
	if full {
		froms = append(froms, ref.MinTick, ref.MaxTick-1)
		for t := range r.ticks {
			froms = append(froms, t)
		}
		sort.Ints(froms)
	} else if len(froms) > 10 {
		froms = froms[:10]
	}
	ts := m.Ticks()
	for _, f := range froms {
		if f < ref.MinTick || f >= ref.MaxTick {
			continue
		}
		for _, lte := range []bool{true, false} {
			n, ok, problem := r.nextInit(p, f, lte)
			if problem != "" {
				return "search", fmt.Sprintf("looking for the next tick from %d (downwards: %v) %s", f, lte, problem)
			}
			k := sort.SearchInts(ts, f+1)
			if lte {
				k--
			}
			wok := k >= 0 && k < len(ts)
			if ok != wok || ok && n != ts[k] {
				want := "none"
				if wok {
					want = fmt.Sprint(ts[k])
				}
				got := "none"
				if ok {
					got = fmt.Sprint(n)
				}
				return "search", fmt.Sprintf("looking for the next tick from %d (downwards: %v) finds %s; the open positions say %s", f, lte, got, want)
			}
		}
	}
	if full {
		// one complete walk
		var got []int
		f := ref.MinTick - 1
		for {
			n, ok, problem := r.nextInit(p, f, false)
			if problem != "" {
				return "walk", fmt.Sprintf("walking up from tick %d %s", f, problem)
			}
			if !ok {
				break
			}
			got = append(got, n)
			f = n
			if len(got) > len(ts)+5 {
				break
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(ts) {
			return "walk", fmt.Sprintf("the pool's initialised ticks are %v; the open positions say %v", got, ts)
		}
	}
	return "", ""
}

func (r *poolRun) books(b *poolBranch, what string, full bool) {
	if kind, msg := r.booksDiff(b.sut, b.model, full); kind != "" {
		r.fail("C02", kind, "after %s: %s", what, msg)
	}
	if full {
		r.rep.Counts["complete walks over the tick range"]++
	}
}

// booksAfterFailure: an operation the contract accepts broke down; the books
// must be those of before or of after.
func (r *poolRun) booksAfterFailure(b *poolBranch, op PoolOp, pre *ref.Pool, out poolOut) {
	k1, m1 := r.booksDiff(b.sut, b.model, true)
	if k1 == "" {
		return
	}
	r.ended = false
	k0, m0 := r.booksDiff(b.sut, pre, true)
	if k0 == "" {
		return
	}
	r.fail("C02", k1, "after %v broke down (%s): %s (with its effect), %s (without)", op, out.Call, m1, m0)
}

// ---- C05: solvency -------------------------------------------------------------

func (r *poolRun) ledger(b *poolBranch, op PoolOp, out poolOut) {
	switch op.K {
	case "dep", "swap":
		r.bal0.Add(r.bal0, out.A0)
		r.bal1.Add(r.bal1, out.A1)
	case "col":
		r.bal0.Sub(r.bal0, out.A0)
		r.bal1.Sub(r.bal1, out.A1)
	case "flash":
		fee := func(a *big.Int) *big.Int {
			x := new(big.Int).Mul(a, bi(int64(r.cfg.Fee)))
			x.Add(x, bi(999_999))
			return x.Div(x, bi(1_000_000))
		}
		r.bal0.Add(r.bal0, fee(op.A))
		r.bal1.Add(r.bal1, fee(op.B))
	}
	if r.bal0.Sign() < 0 || r.bal1.Sign() < 0 {
		r.fail("C05", "insolvent", "after %v = %s the tokens paid in minus paid out are (%v, %v)", op, out, r.bal0, r.bal1)
	}
	if op.K == "dep" && (out.A0.Sign() < 0 || out.A1.Sign() < 0) {
		r.fail("C05", "deposit pays", "%v pays the depositor: %s", op, out)
	}
	if op.K == "swap" && (out.A0.Sign() < 0 && out.A1.Sign() <= 0 || out.A0.Sign() <= 0 && out.A1.Sign() < 0) {
		r.fail("C05", "free swap", "%v pays out without taking anything in: %s", op, out)
	}
}

// roundTripLiquidity deposits, withdraws and collects in one go.
func (r *poolRun) roundTripLiquidity(b *poolBranch, op PoolOp) {
	rg := ref.Range{Lo: op.Lo, Hi: op.Hi}
	if b.model.Acc[rg] != nil {
		return
	}
	d, ok := r.primitive(b, PoolOp{K: "dep", Lo: op.Lo, Hi: op.Hi, A: op.A})
	if !ok || r.ended || d.Panicked {
		return
	}
	if w, ok := r.primitive(b, PoolOp{K: "wd", Lo: op.Lo, Hi: op.Hi, A: op.A}); !ok || r.ended || w.Panicked {
		return
	}
	c, ok := r.primitive(b, PoolOp{K: "col", Lo: op.Lo, Hi: op.Hi})
	if !ok || r.ended || c.Panicked {
		return
	}
	r.rep.Counts["liquidity round trips"]++
	if c.A0.Cmp(d.A0) > 0 || c.A1.Cmp(d.A1) > 0 {
		r.fail("C05", "round trip", "depositing %v into [%d,%d) costs (%v, %v); withdrawing at once pays (%v, %v)", op.A, op.Lo, op.Hi, d.A0, d.A1, c.A0, c.A1)
	}
}

// roundTripSwap swaps and swaps straight back what it received.
func (r *poolRun) roundTripSwap(b *poolBranch, op PoolOp) {
	a, ok := r.primitive(b, PoolOp{K: "swap", A: op.A, Zfo: op.Zfo, Lim: op.Lim})
	if !ok || r.ended || a.Panicked {
		return
	}
	got := a.A1
	if !op.Zfo {
		got = a.A0
	}
	got = new(big.Int).Neg(got)
	if got.Sign() <= 0 {
		return
	}
	c, ok := r.primitive(b, PoolOp{K: "swap", A: got, Zfo: !op.Zfo})
	if !ok || r.ended || c.Panicked {
		return
	}
	r.rep.Counts["swap round trips"]++
	n0 := new(big.Int).Add(a.A0, c.A0)
	n1 := new(big.Int).Add(a.A1, c.A1)
	if n0.Sign() < 0 && n1.Sign() <= 0 || n0.Sign() <= 0 && n1.Sign() < 0 {
		r.fail("C05", "round trip", "swapping %v (token0 in: %v) and back nets the trader (%v, %v) out of the pool", op.A, op.Zfo, n0.Neg(n0), n1.Neg(n1))
	}
}

// ---- C07: forks ------------------------------------------------------------------

func cloneSut(p *pool.Pool) (q *pool.Pool, c Call) {
	c = Do(1<<30, func() { q = p.Clone() })
	return
}

// rebuild replays a history on a new pool that was never cloned.
func (r *poolRun) rebuild(log []PoolOp) *pool.Pool {
	p, _ := newSut(r.cfg)
	for _, op := range log {
		execOp(p, op, slack*100)
	}
	return p
}

func (r *poolRun) fork(b *poolBranch) {
	if r.prop != "C07" || len(r.br) >= 6 {
		return
	}
	p, c := cloneSut(b.sut)
	if c.Panicked {
		r.fail("C07", "clone fails", "cloning fails: %s", c)
		return
	}
	n := &poolBranch{sut: p, model: b.model, twin: r.rebuild(b.log), log: append([]PoolOp(nil), b.log...)}
	r.rep.Counts["forks"]++
	n.last = r.observe(p)
	if n.last != b.last {
		r.fail("C07", "clone differs", "the clone differs from the original: %s", diff(b.last, n.last))
	}
	r.br = append(r.br, n)
}

func (r *poolRun) mark(b *poolBranch) {
	if r.prop != "C07" {
		return
	}
	p, c := cloneSut(b.sut)
	if c.Panicked {
		r.fail("C07", "clone fails", "cloning fails: %s", c)
		return
	}
	b.ck, b.ckModel, b.ckLog = p, b.model, len(b.log)
	b.ckLast = r.observe(p)
	r.rep.Counts["checkpoints"]++
	if b.ckLast != b.last {
		r.fail("C07", "clone differs", "the clone differs from the original: %s", diff(b.last, b.ckLast))
	}
}

// crash kills the branch in the middle of an operation and restores it from
// its checkpoint, replaying what was applied since.
func (r *poolRun) crash(b *poolBranch, op PoolOp) {
	if r.prop != "C07" || b.ck == nil {
		return
	}
	if op.Sub != "" {
		in := op
		in.K = op.Sub
		if _, rev := b.model.Try(func(q *ref.Pool) { modelOp(q, in) }); rev == nil {
			execOp(b.sut, in, op.N)
			r.rep.Faults["crash inside an operation"]++
		}
	} else {
		r.rep.Faults["crash between operations"]++
	}
	// the working copy is gone; the checkpoint survives
	p, c := cloneSut(b.ck)
	if c.Panicked {
		r.fail("C07", "clone fails", "cloning the checkpoint fails: %s", c)
		return
	}
	for _, o := range b.log[b.ckLog:] {
		execOp(p, o, slack*100)
	}
	b.sut = p
	r.rep.Counts["restores"]++
	b.last = r.observe(p)
	if t := r.observe(b.twin); t != b.last {
		r.fail("C07", "restore differs", "after restoring the checkpoint and replaying %d operations the pool differs from one never interrupted: %s", len(b.log)-b.ckLog, diff(t, b.last))
	}
}

// bystanders: nobody but the branch that moved may have changed.
func (r *poolRun) bystanders(moved *poolBranch) {
	for i, b := range r.br {
		now := r.observe(b.sut)
		if b != moved && now != b.last {
			r.fail("C07", "not independent", "an operation on another clone changed pool %d: %s", i, diff(b.last, now))
			return
		}
		b.last = now
		if b.ck != nil {
			if now := r.observe(b.ck); now != b.ckLast {
				// ticks first used after the checkpoint appear in neither
				r.fail("C07", "not independent", "a later operation changed the checkpoint of pool %d: %s", i, diff(b.ckLast, now))
				return
			}
		}
	}
}

// ---- end of a run ---------------------------------------------------------------

func (r *poolRun) finish() {
	if r.ended {
		return
	}
	switch r.prop {
	case "C02":
		r.books(r.br[0], "the whole history", true)
		m := r.br[0].model
		if !r.ended && len(m.Ticks()) == 0 && len(r.ticks) > 0 {
			r.rep.Counts["pools emptied completely"]++
		}
	case "C07":
		for i, b := range r.br {
			if x, y := r.observe(b.sut), r.observe(b.twin); x != y {
				r.fail("C07", "diverges at the end", "pool %d differs from the same history without cloning: %s", i, diff(y, x))
			}
		}
	}
}

func (r *poolRun) report(ops []PoolOp) *Report {
	r.rep.Trace = mustJSON(PoolTrace{r.cfg, ops})
	r.rep.Nontriv, r.rep.NTKey = r.nontrivial()
	return r.rep
}

func (r *poolRun) nontrivial() (bool, uint64) {
	c := r.rep.Counts
	ok := false
	switch r.prop {
	case "C01", "C18":
		ok = c["initialised ticks crossed"] > 0
	case "C02":
		ok = c["initialised ticks crossed"] > 0 && c["wd"]+c["awd"] > 0
	case "C03":
		ok = c["dep"] > 0 && c["wd"] > 0 && c["swap"] > 0
	case "C04":
		ok = c["collects paying something"] > 0 && c["initialised ticks crossed"] > 0
	case "C05":
		ok = c["col"] > 0 && c["swap"] > 0
	case "C06":
		ok = c["invalid operations submitted"] > 0 && c["swap"] > 0
	case "C07":
		ok = c["forks"]+c["restores"] > 0 && c["swap"] > 0
	}
	return ok, r.rep.Hash
}

func (PoolWorld) Replay(tr json.RawMessage, prop string) *Report {
	var t PoolTrace
	if err := json.Unmarshal(tr, &t); err != nil {
		panic(err)
	}
	r := newPoolRun(t.Cfg, prop)
	for i, op := range t.Ops {
		r.step = i
		r.apply(op)
	}
	r.step = len(t.Ops)
	r.finish()
	return r.report(t.Ops)
}

func (w PoolWorld) Shrink(tr json.RawMessage, prop string, v *Violation, more func() bool) json.RawMessage {
	var t PoolTrace
	if err := json.Unmarshal(tr, &t); err != nil {
		panic(err)
	}
	same := func(ops []PoolOp) bool {
		rep := w.Replay(mustJSON(PoolTrace{t.Cfg, ops}), prop)
		return rep.Viol != nil && rep.Viol.Kind == v.Kind
	}
	if v.Step+1 < len(t.Ops) && same(t.Ops[:v.Step+1]) {
		t.Ops = t.Ops[:v.Step+1]
	}
	t.Ops = DDMin(t.Ops, more, same)
	// smaller numbers where they do
	for i := range t.Ops {
		for _, f := range []func(*PoolOp) **big.Int{func(o *PoolOp) **big.Int { return &o.A }, func(o *PoolOp) **big.Int { return &o.B }} {
			for more() {
				p := f(&t.Ops[i])
				if *p == nil || (*p).CmpAbs(bi(1000)) <= 0 {
					break
				}
				old := *p
				done := true
				for _, d := range []int64{1 << 20, 1024, 10, 2} {
					x := new(big.Int).Quo(old, bi(d))
					if x.Sign() == 0 {
						continue
					}
					*p = x
					if same(t.Ops) {
						done = false
						break
					}
					*p = old
				}
				if done {
					break
				}
			}
		}
	}
	return mustJSON(t)
}

func (w PoolWorld) Run(seed uint64, prop, tier string) *Report {
	g := newPoolGen(rng.New(seed), prop, tier)
	r := newPoolRun(g.cfg, prop)
	g.run = r
	var ops []PoolOp
	for !r.ended {
		op := g.next()
		if op == nil {
			break
		}
		r.step = len(ops)
		ops = append(ops, *op)
		r.apply(*op)
	}
	r.step = len(ops)
	r.finish()
	for k, v := range g.faults {
		r.rep.Faults[k] += v
	}
	rep := r.report(ops)
	if len(ops) > 0 {
		n := len(ops)
		if n > 12 {
			n = 12
		}
		rep.Sample = fmt.Sprintf("fee %d, price %v, %d operations: %v ...", g.cfg.Fee, g.cfg.Sqrt, len(ops), ops[:n])
	}
	return rep
}
