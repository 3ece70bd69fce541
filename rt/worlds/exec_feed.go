package worlds

import (
	"math/big"

	"uniswap-simulator/lib/prices"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zsim/rng"
)

// A price feed with stalls, jumps and prices that come back: what the market
// rarely produces, since a traded price hardly ever returns to the very same value.

// Feed is one price history and the samples it is sent.
type Feed struct {
	N       int        `json:"n"`
	Samples []FeedItem `json:"samples"`
}

// FeedItem is one sample; it is read R times afterwards.
type FeedItem struct {
	P *big.Int `json:"p"`
	R int      `json:"r,omitempty"`
}

func genFeed(r *rng.R, faults map[string]int) *Feed {
	f := &Feed{N: 2 + r.Intn(11)}
	switch {
	case r.P(0.3):
		f.N = 2 + r.Intn(3)
	case r.P(0.05):
		f.N = 100
	case r.P(0.01):
		f.N = r.Range(250, 800)
	}
	price := func() *big.Int { return logUniform(r, 33, 115) }
	base := price()
	known := []*big.Int{base}
	n := f.N + 1 + r.Intn(2*f.N+3)
	if f.N <= 12 && r.P(0.2) {
		n += 6 * f.N
	}
	back := r.Float()
	reads := r.Float()
	if r.P(0.1) {
		// windows of the same average and another volatility: 1+8*8 = 4*4+7*7
		faults["equal average, other volatility"]++
		k := logUniform(r, 33, 111)
		for b := 0; b < 2+r.Intn(3); b++ {
			x, y := int64(1), int64(8)
			if b%2 == 1 {
				x, y = 4, 7
			}
			for i := 0; i < f.N; i++ {
				p := base
				if i == f.N-2 {
					p = new(big.Int).Mul(k, big.NewInt(x))
				} else if i == f.N-1 {
					p = new(big.Int).Mul(k, big.NewInt(y))
				}
				it := FeedItem{P: p}
				if i == f.N-1 || r.P(reads) {
					it.R = 1 + r.Intn(3)
				}
				f.Samples = append(f.Samples, it)
			}
		}
		return f
	}
	for i := 0; i < n; i++ {
		p := base
		switch {
		case r.P(0.25):
			faults["price feed stalled"]++
		case r.P(back):
			faults["price came back"]++
			p = known[r.Intn(len(known))]
		case r.P(0.3):
			faults["price feed jumped"]++
			p = price()
		default:
			d := new(big.Int).Rsh(base, uint(1+r.Intn(40)))
			p = new(big.Int).Add(base, d)
			if r.P(0.5) {
				p = new(big.Int).Sub(base, d)
			}
			if p.BitLen() > 115 {
				p = base
			}
		}
		base = p
		if len(known) < 5 {
			known = append(known, p)
		}
		it := FeedItem{P: p}
		if r.P(reads) {
			it.R = 1 + r.Intn(3)
		}
		f.Samples = append(f.Samples, it)
	}
	return f
}

func (r *execRun) feed() {
	f := r.cfg.Feed
	if f == nil || r.prop != "C17" || r.rep.Viol != nil {
		return
	}
	var h *prices.Prices
	var sent []*big.Int
	r.muted = true
	defer func() { r.muted = false }()
	if c := DoQuiet(slack*100, func() { h = prices.NewPrices(f.N) }); c.Panicked {
		r.fail("C17", "fails", "", "making a history of %d samples fails: %s", f.N, c.Msg)
		return
	}
	for i, it := range f.Samples {
		z := U(it.P)
		if c := DoQuiet(slack*100, func() { h.Add(z) }); c.Panicked {
			r.fail("C17", "fails", "", "sample %d, √price %v, is refused: %s", i, it.P, c.Msg)
			return
		}
		if B(z).Cmp(it.P) != 0 {
			r.fail("C17", "alters", "", "sampling changed the √price %v to %v", it.P, B(z))
			return
		}
		sent = append(sent, it.P)
		for k := 0; k < it.R; k++ {
			var avg, vol *ui.Int
			c := DoQuiet(slack*1000, func() {
				if (i+k)%2 == 0 {
					avg, vol = h.Average(), h.Volatility()
				} else {
					vol = h.Volatility()
					avg = h.Average()
				}
			})
			if len(sent) < f.N {
				r.rep.Counts["statistics read early"]++
				continue
			}
			if c.Panicked || avg == nil || vol == nil {
				r.fail("C17", "fails", "", "reading average and volatility of %d samples fails: %s", f.N, c.Msg)
				return
			}
			mean, sd := statsOf(sent[len(sent)-f.N:])
			r.rep.Counts["statistics checked"]++
			r.rep.mix(avg[0], vol[0])
			if !near(B(avg), mean, 1) {
				r.fail("C17", "average", "", "after sample %d of %v the average of the last %d is given as %v; it is %v", len(sent), sent, f.N, B(avg), mean)
				return
			}
			if !near(B(vol), sd, 2) {
				r.fail("C17", "volatility", "", "after sample %d of %v the volatility of the last %d is given as %v; it is %v", len(sent), sent, f.N, B(vol), sd)
				return
			}
		}
	}
}
