package ref

import (
	"math/big"
	"sort"
)

type Range struct{ Lo, Hi int }

type tickInfo struct {
	gross, net, out0, out1 *big.Int
}

type Position struct {
	Liq, in0, in1, Owed0, Owed1 *big.Int
}

// Pool is the contract's pool state. Deposits come in two kinds, as in the
// code under test: accounts (positions with fee accounting, keyed by range)
// and anonymous liquidity (recorded market participants).
type Pool struct {
	Fee, Spacing       int
	Sqrt               *big.Int
	Tick               int
	Liq                *big.Int
	Fg0, Fg1           *big.Int
	ticks              map[int]*tickInfo
	sorted             []int
	Acc                map[Range]*Position
	Anon               map[Range]*big.Int
	Bal0, Bal1         *big.Int // tokens held by the pool
	maxPerTick         *big.Int
	RequireAligned     bool
	LastSteps, LastX   int // loop iterations and ticks crossed by the last swap
	LastExact          bool
	LastEndedAtLimit   bool
	LastWordStop       bool
	LastRestAtTick     bool
	LastZeroLiq        bool
	LastCrossedAligned bool
}

func NewPool(fee, spacing int, sqrt *big.Int) *Pool {
	p := &Pool{Fee: fee, Spacing: spacing, Sqrt: new(big.Int).Set(sqrt), Tick: TickAt(sqrt),
		Liq: new(big.Int), Fg0: new(big.Int), Fg1: new(big.Int),
		ticks: map[int]*tickInfo{}, Acc: map[Range]*Position{}, Anon: map[Range]*big.Int{},
		Bal0: new(big.Int), Bal1: new(big.Int), RequireAligned: true}
	min := (MinTick / spacing) * spacing
	max := (MaxTick / spacing) * spacing
	p.maxPerTick = new(big.Int).Div(max128, bi(int64((max-min)/spacing+1)))
	return p
}

func (p *Pool) Clone() *Pool {
	c := *p
	cp := func(x *big.Int) *big.Int { return new(big.Int).Set(x) }
	c.Sqrt, c.Liq, c.Fg0, c.Fg1, c.Bal0, c.Bal1 = cp(p.Sqrt), cp(p.Liq), cp(p.Fg0), cp(p.Fg1), cp(p.Bal0), cp(p.Bal1)
	c.ticks = make(map[int]*tickInfo, len(p.ticks))
	for k, t := range p.ticks {
		c.ticks[k] = &tickInfo{cp(t.gross), cp(t.net), cp(t.out0), cp(t.out1)}
	}
	c.sorted = append([]int(nil), p.sorted...)
	c.Acc = make(map[Range]*Position, len(p.Acc))
	for k, x := range p.Acc {
		c.Acc[k] = &Position{cp(x.Liq), cp(x.in0), cp(x.in1), cp(x.Owed0), cp(x.Owed1)}
	}
	c.Anon = make(map[Range]*big.Int, len(p.Anon))
	for k, x := range p.Anon {
		c.Anon[k] = cp(x)
	}
	return &c
}

// Ticks returns the initialised ticks in order.
func (p *Pool) Ticks() []int { return p.sorted }

func (p *Pool) TickInfo(t int) (net, gross *big.Int, ok bool) {
	i, ok := p.ticks[t]
	if !ok {
		return nil, nil, false
	}
	return i.net, i.gross, true
}

func (p *Pool) MaxPerTick() *big.Int { return p.maxPerTick }

func (p *Pool) addTick(t int) *tickInfo {
	i, ok := p.ticks[t]
	if ok {
		return i
	}
	i = &tickInfo{new(big.Int), new(big.Int), new(big.Int), new(big.Int)}
	if t <= p.Tick {
		i.out0.Set(p.Fg0)
		i.out1.Set(p.Fg1)
	}
	p.ticks[t] = i
	k := sort.SearchInts(p.sorted, t)
	p.sorted = append(p.sorted, 0)
	copy(p.sorted[k+1:], p.sorted[k:])
	p.sorted[k] = t
	return i
}

func (p *Pool) delTick(t int) {
	delete(p.ticks, t)
	k := sort.SearchInts(p.sorted, t)
	p.sorted = append(p.sorted[:k], p.sorted[k+1:]...)
}

func (p *Pool) updateTick(t int, delta *big.Int, upper bool) {
	i := p.addTick(t)
	i.gross.Add(i.gross, delta)
	need(i.gross.Sign() >= 0, "LS")
	need(i.gross.Cmp(p.maxPerTick) <= 0, "LO")
	if upper {
		i.net.Sub(i.net, delta)
	} else {
		i.net.Add(i.net, delta)
	}
	need(i.net.BitLen() < 128, "net overflow")
}

func (p *Pool) checkRange(r Range) {
	need(r.Lo < r.Hi, "TLU")
	need(r.Lo >= MinTick, "TLM")
	need(r.Hi <= MaxTick, "TUM")
	if p.RequireAligned {
		need(r.Lo%p.Spacing == 0 && r.Hi%p.Spacing == 0, "unaligned")
	}
}

func (p *Pool) feesInside(r Range) (*big.Int, *big.Int) {
	lo, hi := p.ticks[r.Lo], p.ticks[r.Hi]
	if lo == nil || hi == nil {
		revert("no tick")
	}
	f := func(g, lout, hout *big.Int) *big.Int {
		below := new(big.Int).Set(lout)
		if p.Tick < r.Lo {
			wrap(below.Sub(g, lout))
		}
		above := new(big.Int).Set(hout)
		if p.Tick >= r.Hi {
			wrap(above.Sub(g, hout))
		}
		x := new(big.Int).Sub(g, below)
		return wrap(x.Sub(x, above))
	}
	return f(p.Fg0, lo.out0, hi.out0), f(p.Fg1, lo.out1, hi.out1)
}

// change applies a signed liquidity delta and returns the signed token
// amounts (positive: owed to the pool).
func (p *Pool) change(r Range, delta *big.Int, account bool) (*big.Int, *big.Int) {
	p.checkRange(r)
	if delta.Sign() != 0 {
		p.updateTick(r.Lo, delta, false)
		p.updateTick(r.Hi, delta, true)
	}
	if account {
		pos := p.Acc[r]
		if pos == nil {
			pos = &Position{new(big.Int), new(big.Int), new(big.Int), new(big.Int), new(big.Int)}
			p.Acc[r] = pos
		}
		if delta.Sign() == 0 {
			need(pos.Liq.Sign() > 0, "NP")
		}
		f0, f1 := p.feesInside(r)
		owe := func(now, last, owed *big.Int) {
			d := new(big.Int).Sub(now, last)
			wrap(d)
			d.Mul(d, pos.Liq)
			d.Rsh(d, 128)
			need(d.BitLen() <= 256, "mulDiv")
			owed.Add(owed, d)
			need(owed.BitLen() <= 128, "owed overflow")
		}
		owe(f0, pos.in0, pos.Owed0)
		owe(f1, pos.in1, pos.Owed1)
		pos.in0, pos.in1 = f0, f1
		pos.Liq.Add(pos.Liq, delta)
		need(pos.Liq.Sign() >= 0 && pos.Liq.BitLen() <= 128, "position liquidity")
	} else {
		l := p.Anon[r]
		if l == nil {
			l = new(big.Int)
			p.Anon[r] = l
		}
		l.Add(l, delta)
		need(l.Sign() >= 0, "position liquidity")
		if l.Sign() == 0 {
			delete(p.Anon, r)
		}
	}
	if delta.Sign() < 0 {
		for _, t := range []int{r.Lo, r.Hi} {
			if p.ticks[t].gross.Sign() == 0 {
				p.delTick(t)
			}
		}
	}
	a0, a1 := new(big.Int), new(big.Int)
	if delta.Sign() == 0 {
		return a0, a1
	}
	abs := new(big.Int).Abs(delta)
	up := delta.Sign() > 0
	sa, sb := SqrtAt(r.Lo), SqrtAt(r.Hi)
	switch {
	case p.Tick < r.Lo:
		a0 = Amount0Delta(sa, sb, abs, up)
	case p.Tick < r.Hi:
		a0 = Amount0Delta(p.Sqrt, sb, abs, up)
		a1 = Amount1Delta(sa, p.Sqrt, abs, up)
		p.Liq.Add(p.Liq, delta)
		need(p.Liq.Sign() >= 0 && p.Liq.BitLen() <= 128, "pool liquidity")
	default:
		a1 = Amount1Delta(sa, sb, abs, up)
	}
	need(a0.BitLen() < 256 && a1.BitLen() < 256, "amount overflow")
	if delta.Sign() < 0 {
		a0.Neg(a0)
		a1.Neg(a1)
	}
	return a0, a1
}

// DepositAmounts is what the contract would charge (liq>0, rounded up) or pay
// (liq<0, rounded down, negative) at the given price and tick.
func DepositAmounts(sqrt *big.Int, tick int, r Range, liq *big.Int) (a0, a1 *big.Int) {
	abs := new(big.Int).Abs(liq)
	up := liq.Sign() > 0
	sa, sb := SqrtAt(r.Lo), SqrtAt(r.Hi)
	a0, a1 = new(big.Int), new(big.Int)
	switch {
	case tick < r.Lo:
		a0 = Amount0Delta(sa, sb, abs, up)
	case tick < r.Hi:
		a0 = Amount0Delta(sqrt, sb, abs, up)
		a1 = Amount1Delta(sa, sqrt, abs, up)
	default:
		a1 = Amount1Delta(sa, sb, abs, up)
	}
	if !up {
		a0.Neg(a0)
		a1.Neg(a1)
	}
	return
}

func (p *Pool) Deposit(r Range, liq *big.Int, account bool) (*big.Int, *big.Int) {
	need(liq.Sign() > 0 && liq.BitLen() <= 127, "zero or oversized deposit")
	a0, a1 := p.change(r, liq, account)
	p.Bal0.Add(p.Bal0, a0)
	p.Bal1.Add(p.Bal1, a1)
	return a0, a1
}

// Withdraw returns the (non-negative) amounts credited; anonymous
// participants take them at once, accounts when they collect.
func (p *Pool) Withdraw(r Range, liq *big.Int, account bool) (*big.Int, *big.Int) {
	need(liq.Sign() >= 0 && liq.BitLen() <= 127, "bad amount")
	if !account && liq.Sign() == 0 {
		// touching a position without an account changes nothing visible
		p.checkRange(r)
		need(p.Anon[r] != nil, "NP")
		return new(big.Int), new(big.Int)
	}
	a0, a1 := p.change(r, new(big.Int).Neg(liq), account)
	a0.Neg(a0)
	a1.Neg(a1)
	if account {
		pos := p.Acc[r]
		pos.Owed0.Add(pos.Owed0, a0)
		pos.Owed1.Add(pos.Owed1, a1)
		need(pos.Owed0.BitLen() <= 128 && pos.Owed1.BitLen() <= 128, "owed overflow")
	} else {
		p.Bal0.Sub(p.Bal0, a0)
		p.Bal1.Sub(p.Bal1, a1)
		need(p.Bal0.Sign() >= 0 && p.Bal1.Sign() >= 0, "balance")
	}
	return a0, a1
}

func (p *Pool) Collect(r Range) (*big.Int, *big.Int) {
	pos := p.Acc[r]
	need(pos != nil, "no position")
	a0, a1 := pos.Owed0, pos.Owed1
	pos.Owed0, pos.Owed1 = new(big.Int), new(big.Int)
	p.Bal0.Sub(p.Bal0, a0)
	p.Bal1.Sub(p.Bal1, a1)
	need(p.Bal0.Sign() >= 0 && p.Bal1.Sign() >= 0, "balance")
	return a0, a1
}

func (p *Pool) Flash(a0, a1 *big.Int) (*big.Int, *big.Int) {
	need(p.Liq.Sign() > 0, "L")
	need(a0.Cmp(p.Bal0) <= 0 && a1.Cmp(p.Bal1) <= 0, "balance")
	f0 := mulDivUp(a0, bi(int64(p.Fee)), e6)
	f1 := mulDivUp(a1, bi(int64(p.Fee)), e6)
	g0, g1 := mulDiv(f0, Q128, p.Liq), mulDiv(f1, Q128, p.Liq)
	p.Fg0 = wrap(new(big.Int).Add(p.Fg0, g0))
	p.Fg1 = wrap(new(big.Int).Add(p.Fg1, g1))
	p.Bal0.Add(p.Bal0, f0)
	p.Bal1.Add(p.Bal1, f1)
	return f0, f1
}

// Next is the contract's nextInitializedTickWithinOneWord.
func (p *Pool) Next(tick int, lte bool) (int, bool) {
	c := floorDiv(tick, p.Spacing)
	if lte {
		min := (c >> 8 << 8) * p.Spacing
		k := sort.SearchInts(p.sorted, tick+1) - 1
		if k >= 0 && p.sorted[k] >= min {
			return p.sorted[k], true
		}
		return min, false
	}
	max := ((((c + 1) >> 8) + 1) << 8) - 1
	max *= p.Spacing
	k := sort.SearchInts(p.sorted, tick+1)
	if k < len(p.sorted) && p.sorted[k] <= max {
		return p.sorted[k], true
	}
	return max, false
}

// NoLimit is the widest admissible price limit in the given direction.
func NoLimit(zeroForOne bool) *big.Int {
	if zeroForOne {
		return new(big.Int).Add(MinSqrt, one)
	}
	return new(big.Int).Sub(MaxSqrt, one)
}

const MaxSwapSteps = 20000

// Swap executes one swap; amount > 0 is exact input, < 0 exact output.
func (p *Pool) Swap(zeroForOne bool, amount, limit *big.Int) (*big.Int, *big.Int) {
	need(amount.Sign() != 0, "AS")
	need(amount.Cmp(maxI256) <= 0 && amount.BitLen() <= 255, "int256")
	if zeroForOne {
		need(limit.Cmp(p.Sqrt) < 0 && limit.Cmp(MinSqrt) > 0, "SPL")
	} else {
		need(limit.Cmp(p.Sqrt) > 0 && limit.Cmp(MaxSqrt) < 0, "SPL")
	}
	exactIn := amount.Sign() > 0
	rem := new(big.Int).Set(amount)
	calc := new(big.Int)
	price := new(big.Int).Set(p.Sqrt)
	tick := p.Tick
	liq := new(big.Int).Set(p.Liq)
	fg := p.Fg1
	if zeroForOne {
		fg = p.Fg0
	}
	fg = new(big.Int).Set(fg)
	p.LastSteps, p.LastX = 0, 0
	p.LastWordStop, p.LastZeroLiq = false, false
	for rem.Sign() != 0 && price.Cmp(limit) != 0 {
		p.LastSteps++
		need(p.LastSteps <= MaxSwapSteps, "too long")
		start := price
		next, init := p.Next(tick, zeroForOne)
		if next < MinTick {
			next = MinTick
		} else if next > MaxTick {
			next = MaxTick
		}
		sqrtNext := SqrtAt(next)
		target := sqrtNext
		if zeroForOne && target.Cmp(limit) < 0 || !zeroForOne && target.Cmp(limit) > 0 {
			target = limit
		}
		if liq.Sign() == 0 {
			p.LastZeroLiq = true
		}
		var in, out, feeAmt *big.Int
		price, in, out, feeAmt = step(price, target, liq, rem, int64(p.Fee))
		cost := new(big.Int).Add(in, feeAmt)
		need(cost.Cmp(maxI256) <= 0 && out.Cmp(maxI256) <= 0, "int256")
		if exactIn {
			rem.Sub(rem, cost)
			calc.Sub(calc, out)
		} else {
			rem.Add(rem, out)
			calc.Add(calc, cost)
		}
		need(calc.BitLen() <= 255, "int256")
		if liq.Sign() > 0 {
			fg.Add(fg, mulDiv(feeAmt, Q128, liq))
			wrap(fg)
		}
		if price.Cmp(sqrtNext) == 0 {
			if init {
				p.LastX++
				t := p.ticks[next]
				g0, g1 := p.Fg0, p.Fg1
				if zeroForOne {
					g0 = fg
				} else {
					g1 = fg
				}
				t.out0 = wrap(new(big.Int).Sub(g0, t.out0))
				t.out1 = wrap(new(big.Int).Sub(g1, t.out1))
				if zeroForOne {
					liq.Sub(liq, t.net)
				} else {
					liq.Add(liq, t.net)
				}
				need(liq.Sign() >= 0 && liq.BitLen() <= 128, "liquidity")
			} else {
				p.LastWordStop = true
			}
			if zeroForOne {
				tick = next - 1
			} else {
				tick = next
			}
		} else if price.Cmp(start) != 0 {
			tick = TickAt(price)
		}
	}
	p.LastEndedAtLimit = price.Cmp(limit) == 0
	p.LastExact = rem.Sign() == 0
	p.Sqrt, p.Tick, p.Liq = price, tick, liq
	if zeroForOne {
		p.Fg0 = fg
	} else {
		p.Fg1 = fg
	}
	done := new(big.Int).Sub(amount, rem)
	a0, a1 := done, calc
	if zeroForOne != exactIn {
		a0, a1 = calc, done
	}
	p.Bal0.Add(p.Bal0, a0)
	p.Bal1.Add(p.Bal1, a1)
	need(p.Bal0.Sign() >= 0 && p.Bal1.Sign() >= 0, "balance")
	return a0, a1
}

// Try runs f against a copy of the pool; if the contract would revert, the
// pool is returned unchanged with the reason.
func (p *Pool) Try(f func(q *Pool)) (res *Pool, rev error) {
	q := p.Clone()
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(Revert); ok {
				res, rev = p, e
				return
			}
			panic(r)
		}
	}()
	f(q)
	return q, nil
}
