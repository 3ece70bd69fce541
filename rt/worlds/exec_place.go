package worlds

import (
	"fmt"
	"math/big"

	"uniswap-simulator/zsim/ref"
)

// The documented placement of each strategy (property C16).

// ends are the acceptable positions of one end of a range, in order of
// preference.
type ends []int

func (e ends) has(t int) bool {
	for _, x := range e {
		if x == t {
			return true
		}
	}
	return false
}

func (e ends) sorted() ends {
	m := map[int]bool{}
	for _, x := range e {
		m[x] = true
	}
	return ends(sortedKeys(m))
}

// nearest returns the multiple(s) of s nearest to t.
func nearest(t, s int) ends {
	f := ref.FloorTo(t, s)
	switch d := t - f; {
	case 2*d < s:
		return ends{f}
	case 2*d > s:
		return ends{f + s}
	default:
		return ends{f, f + s}
	}
}

func nearestAll(ts ends, s int) ends {
	var out ends
	for _, t := range ts {
		out = append(out, nearest(t, s)...)
	}
	return out.sorted()
}

// usable are the usable ticks nearest to the given ends, inside the bounds.
func usable(ts ends, s int) ends {
	m := ref.FloorTo(ref.MaxTick, s)
	var out ends
	for _, t := range nearestAll(ts, s) {
		out = append(out, max(-m, min(m, t)))
	}
	return out.sorted()
}

type role struct {
	name   string
	lo, hi ends
	half   bool // half of what the range could take
	opt    bool
}

func (o role) takes(rg ref.Range) bool { return o.lo.has(rg.Lo) && o.hi.has(rg.Hi) }

func (o role) String() string {
	show := func(e ends) string {
		if len(e) == 1 {
			return fmt.Sprint(e[0])
		}
		return fmt.Sprint([]int(e))
	}
	return fmt.Sprintf("%s position from %s to %s", o.name, show(o.lo), show(o.hi))
}

// isqrts are the square roots of a value known up to a tolerance.
func isqrts(x *big.Int, tol int64) []*big.Int {
	var out []*big.Int
	for _, d := range []int64{0, -1, 1} {
		y := new(big.Int).Add(x, bi(d*tol))
		if y.Sign() < 0 {
			continue
		}
		y.Sqrt(y)
		dup := false
		for _, z := range out {
			dup = dup || z.Cmp(y) == 0
		}
		if !dup {
			out = append(out, y)
		}
	}
	return out
}

func clampTick(sqrt *big.Int) int {
	switch {
	case sqrt.Cmp(ref.MinSqrt) < 0:
		return ref.MinTick
	case sqrt.Cmp(ref.MaxSqrt) >= 0:
		return ref.MaxTick
	}
	return ref.TickAt(sqrt)
}

func (r *execRun) window() []*big.Int {
	if len(r.samples) < r.cfg.N {
		return nil
	}
	return r.samples[len(r.samples)-r.cfg.N:]
}

// bands are the ends of a band of the given width around the centre.
func (r *execRun) bands(centres []*big.Int) (lo, hi ends) {
	_, sd := statsOf(r.window())
	seen := map[string]bool{}
	for _, d := range []int64{0, -2, -1, 1, 2} {
		v := new(big.Int).Add(sd, bi(d))
		if v.Sign() < 0 {
			continue
		}
		v.Mul(v, bi(int64(r.cfg.Mul)))
		v.Rsh(v, 10)
		v.Sqrt(v)
		for _, c := range centres {
			k := c.String() + "/" + v.String()
			if seen[k] {
				continue
			}
			seen[k] = true
			lo = append(lo, clampTick(new(big.Int).Sub(c, v)))
			hi = append(hi, clampTick(new(big.Int).Add(c, v)))
		}
	}
	return lo.sorted(), hi.sorted()
}

// expected lists the positions the strategy describes for this moment.
func (r *execRun) expected(init bool) []role {
	c := r.cfg
	s := spacingOf(c.Fee)
	t := r.callTick
	fixed := func(ts ends) role {
		var lo, hi ends
		for _, t := range ts {
			lo = append(lo, t-c.W)
			hi = append(hi, t+c.W)
		}
		return role{name: "main", lo: nearestAll(lo, s), hi: nearestAll(hi, s)}
	}
	above := func(b int) role {
		lo := ref.CeilTo(t, s)
		return role{name: "upper", lo: ends{lo}, hi: nearest(lo+b, s)}
	}
	below := func(b int) role {
		hi := ref.FloorTo(t, s)
		return role{name: "lower", lo: nearest(hi-b, s), hi: ends{hi}}
	}
	switch c.Strat {
	case "V2":
		m := ref.FloorTo(ref.MaxTick, s)
		return []role{{name: "main", lo: ends{-m}, hi: ends{m}}}
	case "ConstantInterval":
		if !init && r.fixed != nil {
			return []role{{name: "main", lo: ends{r.fixed.Lo}, hi: ends{r.fixed.Hi}}}
		}
		if !init {
			t = r.initTick
		}
		return []role{fixed(ends{t})}
	case "IntervalAroundPrice", "IntervalAroundPriceAndSwap":
		return []role{fixed(ends{t})}
	case "TwoIntervalAroundPrice":
		return []role{fixed(ends{t}), above(c.Sec), below(c.Sec)}
	case "LimitOrder":
		a, b := above(s), below(s)
		a.half, b.half = true, true
		return []role{fixed(ends{t}), a, b}
	case "FillUp":
		return []role{fixed(ends{t})} // the rest follows from the main position
	case "IntervalAroundAverage":
		mean, _ := statsOf(r.window())
		var ts ends
		for _, q := range isqrts(mean, 1) {
			ts = append(ts, clampTick(q))
		}
		return []role{fixed(ts.sorted())}
	case "BollingerBands", "BollingerBandsFillUp":
		mean, _ := statsOf(r.window())
		lo, hi := r.bands(isqrts(mean, 1))
		return []role{{name: "main", lo: usable(lo, s), hi: usable(hi, s)}}
	case "VolatilitySized":
		lo, hi := r.bands([]*big.Int{r.callSqrt})
		return []role{{name: "main", lo: usable(lo, s), hi: usable(hi, s)}}
	}
	return nil
}

// fill is the second position of the strategies that fill up one side.
func (r *execRun) fill(main role, opened *ref.Range, init bool, i0, i1 *big.Int) (o role, want bool) {
	if r.cfg.Strat != "FillUp" && (r.cfg.Strat != "BollingerBandsFillUp" || init) {
		return
	}
	t, s := r.callTick, spacingOf(r.cfg.Fee)
	lo, hi := main.lo, main.hi
	if opened != nil {
		lo, hi = ends{opened.Lo}, ends{opened.Hi}
	}
	if r.cfg.Strat == "BollingerBandsFillUp" && (t < lo[0] || t > hi[len(hi)-1]) {
		return
	}
	if i0.Sign() > 0 {
		return role{name: "fill", lo: ends{ref.CeilTo(t, s)}, hi: hi}, true
	}
	if i1.Sign() > 0 {
		return role{name: "fill", lo: lo, hi: ends{ref.FloorTo(t, s)}}, true
	}
	return
}

// documentedRangePossible tells whether the interval the strategy describes
// for this moment lies inside the tick bounds at all.
func (r *execRun) documentedRangePossible() bool {
	if r.callSqrt == nil {
		return true
	}
	init := r.inits == 0
	for _, o := range r.expected(init) {
		for _, e := range []ends{o.lo, o.hi} {
			for _, t := range e {
				if t < ref.MinTick || t > ref.MaxTick {
					return false
				}
			}
		}
	}
	return true
}

func (r *execRun) most(rg ref.Range, i0, i1, sqrt *big.Int) *big.Int {
	if rg.Lo >= rg.Hi || rg.Lo < ref.MinTick || rg.Hi > ref.MaxTick {
		return new(big.Int)
	}
	return ref.LiquidityForAmounts(sqrt, ref.SqrtAt(rg.Lo), ref.SqrtAt(rg.Hi), i0, i1)
}

// placement judges the positions just opened by Init or Rebalance.
func (r *execRun) placement(init bool) {
	if init {
		r.initTick = r.callTick
	}
	if r.prop != "C16" || r.ended {
		return
	}
	s := spacingOf(r.cfg.Fee)
	strat := r.cfg.Strat
	what := "Rebalance"
	if init {
		what = "Init"
	}
	ctx := func() string {
		return fmt.Sprintf("%s at price %v, tick %d (spacing %d, w=%d b=%d n=%d mul=%d, %d samples)", what, r.callSqrt, r.callTick, s, r.cfg.W, r.cfg.Sec, r.cfg.N, r.cfg.Mul, len(r.samples))
	}
	roles := r.expected(init)
	idx := 0
	var mainRange *ref.Range
	for n := 0; n < len(roles); n++ {
		o := roles[n]
		i0, i1, sqrt := r.idle0, r.idle1, B(r.pool.SqrtRatioX96)
		if idx < len(r.mints) {
			i0, i1, sqrt = r.mints[idx].i0, r.mints[idx].i1, r.mints[idx].sqrt
		}
		if idx < len(r.mints) && o.takes(r.mints[idx].rg) {
			m := r.mints[idx]
			idx++
			r.check(o, m, ctx)
			if r.ended {
				return
			}
			if o.name == "main" {
				rg := m.rg
				mainRange = &rg
				if init {
					r.fixed = &rg
				}
			}
		} else if r.wanted(o, i0, i1, sqrt) {
			if idx < len(r.mints) {
				m := r.mints[idx]
				r.fail("C16", "range", strat+"/"+o.name, "%s: it opens [%d,%d) but describes a %v", ctx(), m.rg.Lo, m.rg.Hi, o)
			} else {
				r.fail("C16", "missing", strat+"/"+o.name, "%s: it opens no %v although it holds (%v, %v)", ctx(), o, i0, i1)
			}
			return
		}
		if o.name == "main" {
			j0, j1 := r.idle0, r.idle1
			if idx < len(r.mints) {
				j0, j1 = r.mints[idx].i0, r.mints[idx].i1
			}
			if f, ok := r.fill(o, mainRange, init, j0, j1); ok {
				roles = append(roles, f)
			}
		}
	}
	if idx < len(r.mints) {
		m := r.mints[idx]
		r.fail("C16", "range", strat+"/extra", "%s: it opens [%d,%d) with %v liquidity, which is none of the positions it describes (%v)", ctx(), m.rg.Lo, m.rg.Hi, m.liq, roles)
		return
	}
	r.rep.Counts["placements judged"]++
	for _, m := range r.mints {
		r.rep.state(16, fnv(strat), uint64(r.cfg.Fee), uint64(m.rg.Hi-m.rg.Lo), uint64(m.rg.Lo-r.callTick))
	}
}

// wanted tells whether a position must be opened: the funds are enough for
// some liquidity in every acceptable range.
func (r *execRun) wanted(o role, i0, i1, sqrt *big.Int) bool {
	if o.opt {
		return false
	}
	for _, lo := range o.lo {
		for _, hi := range o.hi {
			l := r.most(ref.Range{Lo: lo, Hi: hi}, i0, i1, sqrt)
			if o.half {
				l.Rsh(l, 1)
			}
			if l.Cmp(bi(2)) < 0 {
				return false
			}
		}
	}
	return true
}

func (r *execRun) check(o role, m mintRec, ctx func() string) {
	s := spacingOf(r.cfg.Fee)
	site := r.cfg.Strat + "/" + o.name
	switch {
	case m.rg.Lo >= m.rg.Hi:
		r.fail("C16", "empty", site, "%s: it opens the empty range [%d,%d)", ctx(), m.rg.Lo, m.rg.Hi)
		return
	case m.rg.Lo < ref.MinTick || m.rg.Hi > ref.MaxTick:
		r.fail("C16", "outside", site, "%s: it opens [%d,%d), outside the tick bounds", ctx(), m.rg.Lo, m.rg.Hi)
		return
	case m.rg.Lo%s != 0 || m.rg.Hi%s != 0:
		r.fail("C16", "unaligned", site, "%s: it opens [%d,%d), which is not on the tick spacing %d", ctx(), m.rg.Lo, m.rg.Hi, s)
		if r.ended {
			return
		}
	}
	want := r.most(m.rg, m.i0, m.i1, m.sqrt)
	if o.half {
		want.Rsh(want, 1)
	}
	tol := new(big.Int).Div(want, bi(1_000_000))
	tol.Add(tol, bi(2))
	d := new(big.Int).Sub(want, m.liq)
	if d.Sign() < 0 || d.Cmp(tol) > 0 {
		r.fail("C16", "liquidity", site, "%s: it deposits %v into [%d,%d); with (%v, %v) at price %v the range takes %v", ctx(), m.liq, m.rg.Lo, m.rg.Hi, m.i0, m.i1, m.sqrt, want)
	}
}
