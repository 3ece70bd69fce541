package worlds

import (
	"math/big"
	"sort"

	"uniswap-simulator/zsim/ref"
	"uniswap-simulator/zsim/rng"
)

// poolGen plays the participants of one run and the network between them and
// the pool. It sees the reference state only, never the code under test.
type poolGen struct {
	r      *rng.R
	prop   string
	cfg    PoolCfg
	run    *poolRun
	faults map[string]int
	clock  int64
	made   int
	total  int
	queue  []pmsg
	seq    int
	phase  int // 0 trading, 1 draining, 2 after the drain
	drain  bool
	after  int
	drainQ []PoolOp

	// swarm configuration of the run
	w                   []float64
	kinds               []string
	liqLo, liqHi        int
	delay               float64
	pDrop, pDup, pFar   float64
	pInvalid            float64
	pHuge               float64
	sameLiq             *big.Int
	pSameLiq            float64
	pAnon               float64
	pLimit, pExact, pTo float64
	branches            bool
}

type pmsg struct {
	at  int64
	seq int
	op  PoolOp
}

func newPoolGen(r *rng.R, prop, tier string) *poolGen {
	g := &poolGen{r: r, prop: prop, faults: map[string]int{}}
	g.cfg.Fee = []int{500, 3000, 10000}[r.Intn(3)]
	sp := spacingOf(g.cfg.Fee)
	tickSqrt := func(t int) *big.Int {
		if t < ref.MinTick {
			t = ref.MinTick
		}
		if t >= ref.MaxTick {
			t = ref.MaxTick - 1
		}
		return new(big.Int).Set(ref.SqrtAt(t))
	}
	inside := func(t int) *big.Int {
		if t < ref.MinTick {
			t = ref.MinTick
		}
		if t > ref.MaxTick-1 {
			t = ref.MaxTick - 1
		}
		lo, hi := ref.SqrtAt(t), ref.SqrtAt(t+1)
		d := new(big.Int).Sub(hi, lo)
		x := new(big.Int).SetUint64(r.U64())
		x.Mul(x, d)
		x.Rsh(x, 64)
		x.Add(x, lo)
		if x.Cmp(ref.MaxSqrt) >= 0 {
			x.Sub(ref.MaxSqrt, bi(1))
		}
		return x
	}
	switch r.Weighted([]float64{25, 25, 20, 8, 12, 10}) {
	case 0:
		g.cfg.Sqrt, _ = new(big.Int).SetString("1350174849792634181862360983626536", 10)
		if r.P(0.5) {
			g.cfg.Sqrt = inside(194_000 + r.Range(-6000, 6000))
		}
	case 1:
		g.cfg.Sqrt = inside(r.Range(-400, 400))
	case 2:
		g.cfg.Sqrt = inside(r.Range(ref.MinTick, ref.MaxTick-1))
	case 3:
		k := r.Range(0, 3*sp)
		if r.P(0.5) {
			g.cfg.Sqrt = inside(ref.MinTick + k)
		} else {
			g.cfg.Sqrt = inside(ref.MaxTick - 1 - k)
		}
	case 4:
		g.cfg.Sqrt = tickSqrt(sp * r.Range(-600, 600))
		if r.P(0.3) {
			g.cfg.Sqrt.Add(g.cfg.Sqrt, bi(int64(r.Range(-1, 1))))
		}
	case 5:
		g.cfg.Sqrt = tickSqrt(sp*256*r.Range(-12, 12) + r.Range(-1, 1))
	}
	if g.cfg.Sqrt.Cmp(ref.MinSqrt) < 0 {
		g.cfg.Sqrt.Set(ref.MinSqrt)
	}
	if (prop == "C04" || prop == "C07") && r.P(0.35) {
		near := func() *big.Int {
			x := new(big.Int).Sub(two256, logUniform(r, 1, 200))
			return x
		}
		g.cfg.Fg0, g.cfg.Fg1 = near(), near()
	}

	g.liqLo = r.Range(1, 100)
	if r.P(0.7) {
		g.liqLo = r.Range(40, 70)
	}
	if prop == "C04" && r.P(0.2) {
		// positions so small that what they are owed is a handful of units
		g.liqLo = r.Range(1, 16)
	}
	g.liqHi = g.liqLo + r.Range(2, 26)
	if g.liqHi > 108 {
		g.liqHi = 108
	}
	g.sameLiq = logUniform(r, g.liqLo, g.liqHi)
	g.pSameLiq = []float64{0, 0.2, 0.6}[r.Intn(3)]
	g.pAnon = []float64{0.15, 0.4, 0.7}[r.Intn(3)]
	g.delay = []float64{1, 20, 90}[r.Intn(3)]
	if r.P(0.7) {
		g.pDrop = 0.05 * r.Float()
		g.pDup = 0.08 * r.Float()
	}
	g.pFar = 0.08 * r.Float()
	g.pHuge = []float64{0, 0.02, 0.1}[r.Intn(3)]
	g.pLimit = []float64{0.1, 0.4, 0.8}[r.Intn(3)]
	g.pExact = []float64{0.15, 0.4, 0.7}[r.Intn(3)]
	g.pTo = []float64{0.1, 0.3, 0.6}[r.Intn(3)]
	g.drain = r.P(0.7)
	g.total = r.Range(8, 60)
	if r.P(0.3) {
		g.total = r.Range(40, 130)
	}
	if tier == "thorough" && r.P(0.3) {
		g.total = r.Range(100, 320)
	}
	g.kinds = []string{"dep", "wd", "col", "adep", "awd", "swap", "flash", "rtl", "rts", "fork", "mark", "crash"}
	w := map[string]float64{"dep": 20, "wd": 12, "col": 6, "adep": 8, "awd": 5, "swap": 35, "flash": 3}
	switch prop {
	case "C01":
		w["swap"] = 55
		w["adep"] = 14
	case "C02":
		w["awd"], w["wd"] = 10, 16
	case "C03":
		w["dep"], w["wd"] = 35, 20
	case "C04":
		w["col"], w["wd"] = 14, 18
		w["flash"] = 6
		g.pAnon *= 0.5
	case "C05":
		w["rtl"], w["rts"], w["col"] = 5, 5, 10
		w["adep"], w["awd"] = 0, 0
		g.pAnon = 0
	case "C06":
		g.pInvalid = 0.3
	case "C07":
		w["fork"], w["mark"], w["crash"] = 5, 4, 6
		g.branches = true
		if g.total > 60 {
			g.total = 60
		}
	case "C18":
		g.pInvalid = 0.08
		w["swap"] = 50
		g.pHuge = 0.15
	}
	for _, k := range g.kinds {
		x := w[k]
		if x > 0 {
			x *= []float64{0.4, 1, 2}[r.Intn(3)]
		}
		g.w = append(g.w, x)
	}
	return g
}

func (g *poolGen) model(br int) *ref.Pool {
	if br >= len(g.run.br) {
		br = 0
	}
	return g.run.br[br].model
}

func (g *poolGen) branch() int {
	if !g.branches || len(g.run.br) < 2 {
		return 0
	}
	return g.r.Intn(len(g.run.br))
}

// next returns the next message that reaches the pool, or nil at the end.
func (g *poolGen) next() *PoolOp {
	for {
		switch g.phase {
		case 0:
			// participants act until the earliest message is due
			for g.made < g.total && (len(g.queue) == 0 || g.clock <= g.queue[0].at) {
				g.clock += g.r.Geo(15)
				g.made++
				g.send(g.act())
			}
			if len(g.queue) > 0 {
				m := g.queue[0]
				g.queue = g.queue[1:]
				if g.clock < m.at {
					g.clock = m.at
				}
				m.op.At = m.at
				return &m.op
			}
			g.phase = 1
			if g.drain {
				g.planDrain()
			}
		case 1:
			if len(g.drainQ) > 0 {
				op := g.drainQ[0]
				g.drainQ = g.drainQ[1:]
				g.clock += 10
				op.At = g.clock
				return &op
			}
			g.phase = 2
			if g.drain && g.r.P(0.4) {
				g.after = g.r.Range(1, 12)
			}
		case 2:
			if g.after == 0 {
				return nil
			}
			g.after--
			g.clock += 10
			op := g.act()
			op.At = g.clock
			return &op
		}
	}
}

// send puts a message on the unreliable network.
func (g *poolGen) send(op PoolOp) {
	if op.K == "fork" || op.K == "mark" || op.K == "crash" {
		g.enqueue(g.clock, op)
		return
	}
	if g.r.P(g.pDrop) {
		g.faults["message lost"]++
		return
	}
	at := g.clock + g.r.Geo(g.delay)
	if g.r.P(g.pFar) {
		at += int64(g.r.Range(200, 2000))
		g.faults["message delayed for long"]++
	}
	g.enqueue(at, op)
	if g.r.P(g.pDup) {
		g.faults["message duplicated"]++
		g.enqueue(at+g.r.Geo(g.delay*2), op)
	}
}

func (g *poolGen) enqueue(at int64, op PoolOp) {
	g.seq++
	m := pmsg{at, g.seq, op}
	k := sort.Search(len(g.queue), func(i int) bool { return g.queue[i].at > at })
	if k < len(g.queue) {
		g.faults["message overtaking"]++
	}
	g.queue = append(g.queue, pmsg{})
	copy(g.queue[k+1:], g.queue[k:])
	g.queue[k] = m
}

func (g *poolGen) planDrain() {
	for br := range g.run.br {
		m := g.model(br)
		var ops []PoolOp
		for _, rg := range sortedRanges(m.Acc) {
			p := m.Acc[rg]
			if p.Liq.Sign() > 0 {
				ops = append(ops, PoolOp{K: "wd", Br: br, Lo: rg.Lo, Hi: rg.Hi, A: new(big.Int).Set(p.Liq)})
			}
			ops = append(ops, PoolOp{K: "col", Br: br, Lo: rg.Lo, Hi: rg.Hi})
		}
		for _, rg := range sortedRanges(m.Anon) {
			ops = append(ops, PoolOp{K: "awd", Br: br, Lo: rg.Lo, Hi: rg.Hi, A: new(big.Int).Set(m.Anon[rg])})
		}
		// a random order that keeps withdrawing before collecting
		perm := make([]int, len(ops))
		for i := range perm {
			j := g.r.Intn(i + 1)
			perm[i] = perm[j]
			perm[j] = i
		}
		var rest []PoolOp
		for _, i := range perm {
			if ops[i].K == "col" {
				rest = append(rest, ops[i])
				if g.r.P(0.25) {
					// somebody asks again for what was just paid out
					rest = append(rest, ops[i])
				}
				if g.r.P(0.3) {
					g.drainQ = append(g.drainQ, ops[i])
				}
			} else {
				g.drainQ = append(g.drainQ, ops[i])
			}
		}
		if g.r.P(0.3) {
			// somebody still trades while the others leave
			s := g.swap(br)
			k := g.r.Intn(len(g.drainQ) + 1)
			g.drainQ = append(g.drainQ[:k], append([]PoolOp{s}, g.drainQ[k:]...)...)
		}
		g.drainQ = append(g.drainQ, rest...)
	}
}

func sortedRanges[V any](m map[ref.Range]V) []ref.Range {
	var rs []ref.Range
	for r := range m {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool {
		if rs[i].Lo != rs[j].Lo {
			return rs[i].Lo < rs[j].Lo
		}
		return rs[i].Hi < rs[j].Hi
	})
	return rs
}

func (g *poolGen) act() PoolOp {
	br := g.branch()
	if g.pInvalid > 0 && g.r.P(g.pInvalid) {
		return g.invalid(br)
	}
	if g.prop == "C05" && g.r.P(0.03) {
		return g.tooMuch(br)
	}
	m := g.model(br)
	if len(m.Acc) == 0 && len(m.Anon) == 0 && g.r.P(0.8) {
		return g.deposit(br, g.r.P(g.pAnon))
	}
	return g.ofKind(g.kinds[g.r.Weighted(g.w)], br)
}

func (g *poolGen) ofKind(k string, br int) PoolOp {
	m := g.model(br)
	switch k {
	case "dep", "adep":
		return g.deposit(br, k == "adep" || g.prop != "C05" && g.r.P(g.pAnon))
	case "wd", "awd":
		return g.withdraw(br, k == "awd")
	case "col":
		rs := sortedRanges(m.Acc)
		if len(rs) == 0 {
			return g.deposit(br, false)
		}
		rg := rs[g.r.Intn(len(rs))]
		return PoolOp{K: "col", Br: br, Lo: rg.Lo, Hi: rg.Hi}
	case "flash":
		part := func(b *big.Int) *big.Int {
			switch g.r.Intn(5) {
			case 0:
				return new(big.Int)
			case 1:
				return new(big.Int).Set(b)
			case 2:
				return new(big.Int).Rsh(b, uint(g.r.Range(0, 30)))
			default:
				x := logUniform(g.r, 1, b.BitLen())
				if x.Cmp(b) > 0 {
					x.Set(b)
				}
				return x
			}
		}
		return PoolOp{K: "flash", Br: br, A: part(m.Bal0), B: part(m.Bal1)}
	case "rtl":
		o := g.deposit(br, false)
		o.K = "rtl"
		return o
	case "rts":
		o := g.swap(br)
		o.K = "rts"
		o.Lim = nil
		return o
	case "fork", "mark":
		return PoolOp{K: k, Br: br}
	case "crash":
		if g.r.P(0.35) {
			return PoolOp{K: "crash", Br: br}
		}
		o := g.ofKind([]string{"dep", "wd", "swap", "col", "adep"}[g.r.Intn(5)], br)
		o.Sub, o.K, o.N = o.K, "crash", int64(g.r.Range(1, 1500))
		if g.r.P(0.3) {
			o.N = int64(g.r.Range(1, 12000))
		}
		return o
	}
	return g.swap(br)
}

func (g *poolGen) deposit(br int, anon bool) PoolOp {
	rg := g.pickRange(br, 0.3)
	l := logUniform(g.r, g.liqLo, g.liqHi)
	if g.r.P(g.pSameLiq) {
		l = new(big.Int).Set(g.sameLiq)
	}
	if g.r.P(0.02) {
		l = bi(1)
	}
	if max := g.model(br).MaxPerTick(); l.Cmp(max) > 0 {
		l = new(big.Int).Rsh(max, uint(g.r.Range(1, 8)))
	}
	k := "dep"
	if anon {
		k = "adep"
	}
	return PoolOp{K: k, Br: br, Lo: rg.Lo, Hi: rg.Hi, A: l}
}

func (g *poolGen) withdraw(br int, anon bool) PoolOp {
	m := g.model(br)
	rs := sortedRanges(m.Acc)
	k := "wd"
	if anon {
		rs = sortedRanges(m.Anon)
		k = "awd"
	}
	if len(rs) == 0 {
		return g.deposit(br, anon)
	}
	rg := rs[g.r.Intn(len(rs))]
	var have *big.Int
	if anon {
		have = m.Anon[rg]
	} else {
		have = m.Acc[rg].Liq
	}
	var l *big.Int
	switch g.r.Weighted([]float64{35, 15, 10, 25, 15}) {
	case 0:
		l = new(big.Int).Set(have)
	case 1:
		l = new(big.Int).Rsh(have, 1)
	case 2:
		l = bi(1)
	case 3:
		l = logUniform(g.r, 1, have.BitLen())
		if l.Cmp(have) > 0 {
			l.Set(have)
		}
	case 4:
		l = new(big.Int)
	}
	return PoolOp{K: k, Br: br, Lo: rg.Lo, Hi: rg.Hi, A: l}
}

func (g *poolGen) swap(br int) PoolOp {
	m := g.model(br)
	o := PoolOp{K: "swap", Br: br, Zfo: g.r.P(0.5)}
	exactOut := g.r.P(g.pExact)
	// exactly to a tick, give or take one
	if m.Liq.Sign() > 0 && g.r.P(g.pTo) {
		if t, ok := g.someTick(m, o.Zfo); ok {
			huge := new(big.Int).Lsh(bi(1), 200)
			if exactOut {
				huge.Neg(huge)
			}
			var a0, a1 *big.Int
			lim := ref.SqrtAt(t)
			_, rev := m.Try(func(q *ref.Pool) { a0, a1 = q.Swap(o.Zfo, huge, lim) })
			if rev == nil {
				a := a0
				if o.Zfo == exactOut {
					a = a1
				}
				if a.Sign() != 0 && (a.Sign() < 0) == exactOut {
					o.A = new(big.Int).Add(a, bi(int64(g.r.Range(-1, 1))))
					if o.A.Sign() != 0 && (o.A.Sign() < 0) == exactOut {
						if g.r.P(0.3) {
							o.Lim = g.limit(m, o.Zfo)
						}
						return o
					}
				}
			}
		}
	}
	switch {
	case g.r.P(g.pHuge):
		o.A = logUniform(g.r, 100, 254)
	case m.Liq.Sign() > 0 && g.r.P(0.8):
		// in proportion to what is there
		v := new(big.Int)
		if o.Zfo != exactOut {
			v.Lsh(m.Liq, 96)
			v.Div(v, m.Sqrt)
		} else {
			v.Mul(m.Liq, m.Sqrt)
			v.Rsh(v, 96)
		}
		s := g.r.Range(-3, 24)
		if g.r.P(0.5) {
			s = g.r.Range(-2, 9)
		}
		if s >= 0 {
			v.Rsh(v, uint(s))
		} else {
			v.Lsh(v, uint(-s))
		}
		x := logUniform(g.r, v.BitLen()-1, v.BitLen()+1)
		o.A = x
	default:
		o.A = logUniform(g.r, 1, 120)
	}
	if g.r.P(0.03) {
		o.A = bi(int64(g.r.Range(1, 3)))
	}
	if exactOut {
		o.A.Neg(o.A)
	}
	if g.r.P(g.pLimit) || o.A.BitLen() > 130 && g.r.P(0.5) {
		o.Lim = g.limit(m, o.Zfo)
	}
	return o
}

// someTick picks a tick the price could be brought to in the given direction.
func (g *poolGen) someTick(m *ref.Pool, down bool) (int, bool) {
	ts := m.Ticks()
	var cand []int
	for _, t := range ts {
		if down && ref.SqrtAt(t).Cmp(m.Sqrt) < 0 || !down && t > m.Tick {
			cand = append(cand, t)
		}
	}
	sp := m.Spacing
	word := sp * 256
	if down {
		cand = append(cand, ref.FloorTo(m.Tick-1, sp), ref.FloorTo(m.Tick-1, word))
	} else {
		cand = append(cand, ref.CeilTo(m.Tick+1, sp), ref.FloorTo(m.Tick, word)+word-sp)
	}
	if len(cand) == 0 {
		return 0, false
	}
	t := cand[g.r.Intn(len(cand))]
	if g.r.P(0.6) { // prefer the nearest
		for _, c := range cand {
			if down && c > t || !down && c < t {
				t = c
			}
		}
	}
	if t <= ref.MinTick || t >= ref.MaxTick {
		return 0, false
	}
	s := ref.SqrtAt(t)
	if down && s.Cmp(m.Sqrt) >= 0 || !down && s.Cmp(m.Sqrt) <= 0 {
		return 0, false
	}
	return t, true
}

// limit is an admissible price limit (nil: none).
func (g *poolGen) limit(m *ref.Pool, down bool) *big.Int {
	ok := func(x *big.Int) bool {
		if down {
			return x.Cmp(m.Sqrt) < 0 && x.Cmp(ref.MinSqrt) > 0
		}
		return x.Cmp(m.Sqrt) > 0 && x.Cmp(ref.MaxSqrt) < 0
	}
	var x *big.Int
	switch g.r.Intn(5) {
	case 0: // at or beside a tick
		if t, found := g.someTick(m, down); found {
			x = new(big.Int).Add(ref.SqrtAt(t), bi(int64(g.r.Range(-1, 1))))
		}
	case 1: // next to the price
		x = logUniform(g.r, 0, 20)
		if down {
			x.Sub(m.Sqrt, x)
		} else {
			x.Add(m.Sqrt, x)
		}
	case 2: // a fraction of the price away
		x = new(big.Int).Rsh(m.Sqrt, uint(g.r.Range(1, 40)))
		if down {
			x.Sub(m.Sqrt, x)
		} else {
			x.Add(m.Sqrt, x)
		}
	case 3: // the widest
		x = ref.NoLimit(down)
	case 4:
		t := g.r.Range(ref.MinTick+1, m.Tick)
		if !down {
			t = g.r.Range(m.Tick+1, ref.MaxTick)
		}
		if t >= ref.MinTick && t <= ref.MaxTick {
			x = new(big.Int).Set(ref.SqrtAt(t))
		}
	}
	if x == nil || !ok(x) {
		return nil
	}
	return x
}

func (g *poolGen) pickRange(br int, pOld float64) ref.Range {
	m := g.model(br)
	r := g.r
	sp := m.Spacing
	lim := ref.MaxTick / sp * sp
	clamp := func(lo, hi int) ref.Range {
		lo, hi = ref.FloorTo(lo, sp), ref.CeilTo(hi, sp)
		if lo < -lim {
			lo = -lim
		}
		if hi > lim {
			hi = lim
		}
		if lo > lim-sp {
			lo = lim - sp
		}
		if hi < -lim+sp {
			hi = -lim + sp
		}
		if lo >= hi {
			hi = lo + sp
		}
		return ref.Range{Lo: lo, Hi: hi}
	}
	span := func() int { // log-uniform number of spacings
		return int(logUniform(r, 1, r.Range(1, 10)).Int64())
	}
	if r.P(pOld) {
		rs := append(sortedRanges(m.Acc), sortedRanges(m.Anon)...)
		if len(rs) > 0 {
			return rs[r.Intn(len(rs))]
		}
	}
	c := ref.FloorTo(m.Tick, sp)
	switch r.Weighted([]float64{30, 16, 8, 18, 12, 10, 6}) {
	case 0:
		return clamp(c-span()*sp, c+span()*sp)
	case 1:
		k := r.Range(-2, 2)
		return clamp(c+k*sp, c+(k+1)*sp)
	case 2:
		return clamp(-lim, lim)
	case 3:
		ts := m.Ticks()
		if len(ts) == 0 {
			return clamp(c-span()*sp, c+span()*sp)
		}
		t := ts[r.Intn(len(ts))]
		if r.P(0.5) {
			return clamp(t, t+span()*sp)
		}
		return clamp(t-span()*sp, t)
	case 4:
		w := sp * 256
		b := ref.FloorTo(m.Tick, w) + w*r.Range(-1, 2)
		switch r.Intn(4) {
		case 0:
			return clamp(b, b+span()*sp)
		case 1:
			return clamp(b-span()*sp, b)
		case 2:
			return clamp(b-sp, b+span()*sp)
		default:
			return clamp(b, b+w*r.Range(1, 3))
		}
	case 5: // above or below the price
		d := span() * sp
		if r.P(0.5) {
			return clamp(c+d, c+d+span()*sp)
		}
		return clamp(c-d-span()*sp, c-d)
	default: // anywhere
		a, b := r.Range(-lim, lim), r.Range(-lim, lim)
		if a > b {
			a, b = b, a
		}
		return clamp(a, b)
	}
}

// invalid is an operation the pool has to refuse.
// tooMuch asks for more liquidity than a position has.
func (g *poolGen) tooMuch(br int) PoolOp {
	m, r := g.model(br), g.r
	rg := g.pickRange(br, 0.9)
	rs := sortedRanges(m.Acc)
	if len(rs) > 0 && r.P(0.8) {
		rg = rs[r.Intn(len(rs))]
	}
	l := new(big.Int)
	if p := m.Acc[rg]; p != nil {
		l.Set(p.Liq)
	}
	switch r.Intn(4) {
	case 0:
		l.Add(l, bi(1))
	case 1:
		l.Add(l, l).Add(l, bi(1))
	case 2:
		l.Add(l, logUniform(r, 1, 127))
	default: // what the pool holds altogether
		l.Add(l, m.Liq).Add(l, bi(1))
	}
	return PoolOp{K: "wd", Br: br, Lo: rg.Lo, Hi: rg.Hi, A: l}
}

func (g *poolGen) invalid(br int) PoolOp {
	m := g.model(br)
	r := g.r
	rg := g.pickRange(br, 0.5)
	k := []string{"dep", "adep", "wd", "awd"}[r.Weighted([]float64{2, 1, 1.2, 0.8})]
	l := logUniform(r, g.liqLo, g.liqHi)
	if r.P(0.2) {
		l = bi(1)
	}
	if (k == "wd" || k == "awd") && r.P(0.4) { // touching a range that cannot exist
		l = new(big.Int)
	}
	sp := m.Spacing
	switch r.Intn(10) {
	case 9:
		return g.tooMuch(br)
	case 0: // zero deposit
		switch k {
		case "wd":
			k = "dep"
		case "awd":
			k = "adep"
		}
		return PoolOp{K: k, Br: br, Lo: rg.Lo, Hi: rg.Hi, A: new(big.Int)}
	case 1: // empty
		return PoolOp{K: k, Br: br, Lo: rg.Lo, Hi: rg.Lo, A: l}
	case 2: // inverted
		return PoolOp{K: k, Br: br, Lo: rg.Hi, Hi: rg.Lo, A: l}
	case 3: // too low
		lo := ref.FloorTo(ref.MinTick-r.Range(1, 3*sp), sp)
		if r.P(0.5) {
			lo = ref.MinTick - 1
		}
		return PoolOp{K: k, Br: br, Lo: lo, Hi: rg.Hi, A: l}
	case 4: // too high
		hi := ref.CeilTo(ref.MaxTick+r.Range(1, 3*sp), sp)
		if r.P(0.5) {
			hi = ref.MaxTick + 1
		}
		return PoolOp{K: k, Br: br, Lo: rg.Lo, Hi: hi, A: l}
	case 5: // swap of nothing
		o := PoolOp{K: "swap", Br: br, Zfo: r.P(0.5), A: new(big.Int)}
		if r.P(0.5) {
			o.Lim = g.limit(m, o.Zfo)
		}
		return o
	case 6, 7: // limit on the wrong side or out of bounds
		o := g.swap(br)
		down := o.Zfo
		var x *big.Int
		switch r.Intn(4) {
		case 0:
			x = new(big.Int).Set(m.Sqrt)
		case 1:
			x = logUniform(r, 0, 30)
			if down {
				x.Add(m.Sqrt, x)
			} else {
				x.Sub(m.Sqrt, x)
			}
		case 2:
			if down {
				x = new(big.Int).Sub(ref.MinSqrt, bi(int64(r.Range(0, 2))))
			} else {
				x = new(big.Int).Add(ref.MaxSqrt, bi(int64(r.Range(0, 2))))
			}
		default:
			if down {
				x = logUniform(r, 1, 31)
			} else {
				x = logUniform(r, 161, 250)
			}
		}
		if x.Sign() <= 0 {
			x = bi(1)
		}
		o.Lim = x
		return o
	default: // flash loan without liquidity (judged when it arrives)
		return PoolOp{K: "flash", Br: br, A: new(big.Int).Rsh(m.Bal0, 3), B: new(big.Int).Rsh(m.Bal1, 2)}
	}
}
