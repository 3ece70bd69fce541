package ref

import "math/big"

// Revert is what the contract does with an operation it does not accept.
type Revert struct{ Why string }

func (r Revert) Error() string { return "revert: " + r.Why }

func revert(why string) { panic(Revert{why}) }

func need(ok bool, why string) {
	if !ok {
		revert(why)
	}
}

func divUp(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	if m.Sign() != 0 {
		q.Add(q, one)
	}
	return q
}

func u256(x *big.Int) *big.Int {
	need(x.Sign() >= 0 && x.BitLen() <= 256, "uint256 overflow")
	return x
}

func mulDiv(a, b, c *big.Int) *big.Int {
	need(c.Sign() > 0, "div by zero")
	r := new(big.Int).Mul(a, b)
	return u256(r.Div(r, c))
}

func mulDivUp(a, b, c *big.Int) *big.Int {
	need(c.Sign() > 0, "div by zero")
	return u256(divUp(new(big.Int).Mul(a, b), c))
}

// wrap reduces modulo 2^256, as unchecked contract arithmetic does.
func wrap(x *big.Int) *big.Int { return x.And(x, max256) }

func order(a, b *big.Int) (*big.Int, *big.Int) {
	if a.Cmp(b) > 0 {
		return b, a
	}
	return a, b
}

// Amount0Delta = L * (1/sqrt(lower) - 1/sqrt(upper))
func Amount0Delta(a, b, liq *big.Int, up bool) *big.Int {
	a, b = order(a, b)
	need(a.Sign() > 0, "zero price")
	n1 := new(big.Int).Lsh(liq, 96)
	n2 := new(big.Int).Sub(b, a)
	if up {
		return divUp(mulDivUp(n1, n2, b), a)
	}
	r := mulDiv(n1, n2, b)
	return r.Div(r, a)
}

// Amount1Delta = L * (sqrt(upper) - sqrt(lower))
func Amount1Delta(a, b, liq *big.Int, up bool) *big.Int {
	a, b = order(a, b)
	d := new(big.Int).Sub(b, a)
	if up {
		return mulDivUp(liq, d, Q96)
	}
	return mulDiv(liq, d, Q96)
}

func u160(x *big.Int) *big.Int {
	need(x.Sign() >= 0 && x.BitLen() <= 160, "uint160 overflow")
	return x
}

func nextFrom0Up(p, liq, amt *big.Int, add bool) *big.Int {
	if amt.Sign() == 0 {
		return new(big.Int).Set(p)
	}
	n1 := new(big.Int).Lsh(liq, 96)
	prod := new(big.Int).Mul(amt, p)
	if add {
		if prod.BitLen() <= 256 {
			den := new(big.Int).Add(n1, prod)
			if den.BitLen() <= 256 {
				return u160(mulDivUp(n1, p, den))
			}
		}
		d := new(big.Int).Div(n1, p)
		d.Add(d, amt)
		u256(d)
		return u160(divUp(n1, d))
	}
	need(prod.BitLen() <= 256 && n1.Cmp(prod) > 0, "price overflow")
	return u160(mulDivUp(n1, p, new(big.Int).Sub(n1, prod)))
}

func nextFrom1Down(p, liq, amt *big.Int, add bool) *big.Int {
	if add {
		q := mulDiv(amt, Q96, liq)
		return u160(q.Add(q, p))
	}
	q := mulDivUp(amt, Q96, liq)
	need(p.Cmp(q) > 0, "price underflow")
	return q.Sub(p, q)
}

var e6 = bi(1000000)

// step is the contract's computeSwapStep. remaining >= 0 is exact input.
func step(cur, target, liq, remaining *big.Int, fee int64) (next, in, out, feeAmt *big.Int) {
	zeroForOne := cur.Cmp(target) >= 0
	exactIn := remaining.Sign() >= 0
	rest := bi(1000000 - fee)
	absRem := new(big.Int).Abs(remaining)
	in, out = new(big.Int), new(big.Int)
	if exactIn {
		less := mulDiv(absRem, rest, e6)
		if zeroForOne {
			in = Amount0Delta(target, cur, liq, true)
		} else {
			in = Amount1Delta(cur, target, liq, true)
		}
		if less.Cmp(in) >= 0 {
			next = new(big.Int).Set(target)
		} else {
			need(liq.Sign() > 0, "no liquidity")
			if zeroForOne {
				next = nextFrom0Up(cur, liq, less, true)
			} else {
				next = nextFrom1Down(cur, liq, less, true)
			}
		}
	} else {
		if zeroForOne {
			out = Amount1Delta(target, cur, liq, false)
		} else {
			out = Amount0Delta(cur, target, liq, false)
		}
		if absRem.Cmp(out) >= 0 {
			next = new(big.Int).Set(target)
		} else {
			need(liq.Sign() > 0, "no liquidity")
			if zeroForOne {
				next = nextFrom1Down(cur, liq, absRem, false)
			} else {
				next = nextFrom0Up(cur, liq, absRem, false)
			}
		}
	}
	reached := next.Cmp(target) == 0
	if zeroForOne {
		if !(reached && exactIn) {
			in = Amount0Delta(next, cur, liq, true)
		}
		if !(reached && !exactIn) {
			out = Amount1Delta(next, cur, liq, false)
		}
	} else {
		if !(reached && exactIn) {
			in = Amount1Delta(cur, next, liq, true)
		}
		if !(reached && !exactIn) {
			out = Amount0Delta(cur, next, liq, false)
		}
	}
	if !exactIn && out.Cmp(absRem) > 0 {
		out = absRem
	}
	if exactIn && !reached {
		feeAmt = new(big.Int).Sub(absRem, in)
	} else {
		feeAmt = mulDivUp(in, bi(fee), rest)
	}
	return
}

// LiquidityForAmounts is the periphery's getLiquidityForAmounts.
func LiquidityForAmounts(p, a, b, amt0, amt1 *big.Int) *big.Int {
	a, b = order(a, b)
	l0 := func(a, b *big.Int) *big.Int {
		m := new(big.Int).Mul(a, b)
		m.Div(m, Q96)
		m.Mul(m, amt0)
		return m.Div(m, new(big.Int).Sub(b, a))
	}
	l1 := func(a, b *big.Int) *big.Int {
		m := new(big.Int).Mul(amt1, Q96)
		return m.Div(m, new(big.Int).Sub(b, a))
	}
	switch {
	case p.Cmp(a) <= 0:
		return l0(a, b)
	case p.Cmp(b) < 0:
		x, y := l0(p, b), l1(a, p)
		if x.Cmp(y) < 0 {
			return x
		}
		return y
	default:
		return l1(a, b)
	}
}

// AmountsFor is what liquidity liq in [lo,hi) pays out if withdrawn at price p.
func AmountsFor(p *big.Int, lo, hi int, liq *big.Int) (*big.Int, *big.Int) {
	a, b := SqrtAt(lo), SqrtAt(hi)
	c := p
	if c.Cmp(a) < 0 {
		c = a
	}
	if c.Cmp(b) > 0 {
		c = b
	}
	return Amount0Delta(c, b, liq, false), Amount1Delta(a, c, liq, false)
}
