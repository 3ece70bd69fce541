package worlds

import (
	"fmt"
	"math"
	"math/big"
	"path"

	"uniswap-simulator/zsim/disk"
	"uniswap-simulator/zsim/ref"
	"uniswap-simulator/zsim/rng"
	"uniswap-simulator/zsim/simrt"
)

type appGen struct {
	r      *rng.R
	prop   string
	tier   string
	g      *execGen
	faults map[string]int
}

func newAppGen(r *rng.R, prop, tier string) *appGen {
	return &appGen{r: r, prop: prop, tier: tier, g: newExecGen(r, prop, tier), faults: map[string]int{}}
}

// open starts the market the program's constants belong to.
func (a *appGen) open() {
	g, r := a.g, a.r
	g.cfg = ExecCfg{Fee: appFee, Sqrt: appSqrt}
	g.m = ref.NewPool(appFee, 10, appSqrt)
	g.lmag = r.Range(52, 66)
	g.now = 1_600_000_000 + r.Intn(60_000_000)
	if r.P(0.3) {
		g.now -= g.now % 3600
	}
	m := ref.FloorTo(ref.MaxTick, 10)
	rg := ref.Range{Lo: -m, Hi: m}
	if r.P(0.5) {
		rg = ref.Range{Lo: 194880 - 10*r.Range(1000, 9000), Hi: 194880 + 10*r.Range(1000, 9000)}
	}
	amt := logUniform(r, g.lmag-1, g.lmag+2)
	a0, a1 := ref.DepositAmounts(g.m.Sqrt, g.m.Tick, rg, amt)
	if _, _, ok := g.try(PoolOp{K: "adep", Lo: rg.Lo, Hi: rg.Hi, A: amt}); ok {
		g.record(TxRec{K: "Mint", Lo: rg.Lo, Hi: rg.Hi, A: amt, A0: a0, A1: a1})
	}
}

// warmUp fills the price history before the start time.
func (a *appGen) warmUp(n int) {
	g, r := a.g, a.r
	first := g.txs[0].T
	room := appStart / (n + 2)
	sigma := []float64{0.6, 3, 20, 80}[r.Intn(4)]
	for i := 0; i < n; i++ {
		g.now += 864 + r.Intn(max(1, room-900))
		if g.now > first+appStart {
			g.now = first + appStart
		}
		ok := false
		if r.P(0.9) {
			t := r.Norm() * sigma
			if math.Abs(t) < 1 {
				t = math.Copysign(0.5, t)
			}
			// keep the price near its home
			if d := g.m.Tick - 194880; d > 1500 && t > 0 || d < -1500 && t < 0 {
				t = -t
			}
			ok = g.swap(t)
		}
		if !ok {
			g.mint()
		}
	}
}

// trade records n transactions from the start time on.
func (a *appGen) trade(n int, step int, sigma float64, drift float64) {
	g, r := a.g, a.r
	if t := g.txs[0].T + appStart; g.now < t {
		g.now = t + r.Intn(3)*r.Intn(step+1)
	}
	for i := 0; i < n; i++ {
		switch {
		case i == 0:
		case g.exact:
			g.now += step
		case r.P(0.05):
			g.faults["burst at one timestamp"]++
		case r.P(0.02):
			g.now += step * r.Range(5, 60)
			g.faults["stalled feed"]++
		case drift != 0 || r.P(0.5):
			g.now += step
		default:
			g.now += 1 + r.Intn(2*step)
		}
		if drift != 0 {
			g.swap(drift)
			continue
		}
		t := r.Norm() * sigma
		if math.Abs(t) < 1 {
			t = math.Copysign(0.5, t)
		}
		if d := g.m.Tick - 194880; d > 4000 && t > 0 || d < -4000 && t < 0 {
			t = -t
		}
		switch {
		case r.P(0.85):
			g.swap(t)
		case r.P(0.6):
			g.mint()
		case r.P(0.7):
			g.someBurn()
		default:
			g.flash()
		}
	}
}

// tiny records a handful of transactions, all before the start time.
func (a *appGen) tiny() {
	g, r := a.g, a.r
	for i := r.Intn(4); i > 0; i-- {
		g.now += r.Intn(5000)
		g.one()
	}
}

// oddities changes recorded texts that no run depends on.
func (a *appGen) oddities(txs []TxRec) {
	r := a.r
	for i := range txs {
		if !r.P(0.15) {
			continue
		}
		t := &txs[i]
		x := logUniform(r, 1, 256)
		neg := new(big.Int).Neg(logUniform(r, 1, 255))
		switch {
		case t.K == "Swap":
			t.Sqrt = x
			t.Tick = r.Range(-887272, 887272)
			t.X96 = r.P(0.5)
		case t.K == "Mint" || t.K == "Burn":
			t.A0 = neg
			t.A1 = x
			if r.P(0.5) || t.A1.BitLen() == 256 && a.prop == "C11" {
				t.A1 = new(big.Int).Neg(logUniform(r, 1, 255))
			}
		}
	}
}

// twice repeats records word by word: recordings overlap, and one transaction
// may do the same thing twice.
func (a *appGen) twice(txs []TxRec) []TxRec {
	r := a.r
	if len(txs) == 0 || len(txs) > 400 || !r.P(0.2) {
		return txs
	}
	for n := r.Range(1, 3); n > 0; n-- {
		i := r.Intn(len(txs))
		if txs[i].K == "Burn" {
			continue // would withdraw what is not there
		}
		if txs[i].ID == "" {
			txs[i].ID = fmt.Sprintf("0x%x", r.U64()>>40)
		}
		j := i + 1
		for j < len(txs) && txs[j].T == txs[i].T && r.P(0.5) {
			j++
		}
		t := txs[i]
		txs = append(txs[:j], append([]TxRec{t}, txs[j:]...)...)
		a.faults["record repeated word by word"]++
	}
	return txs
}

// poison adds a record that no pool accepts: a deposit of nothing, a range that
// cannot exist. No run gets past it, so there is nothing a sweep could report.
func poison(r *rng.R, txs []TxRec) []TxRec {
	i := r.Range(1, len(txs))
	if r.P(0.3) {
		i = len(txs)
	}
	t := TxRec{T: txs[i-1].T, K: "Mint", Lo: -887270, Hi: 887270, A: bi(0), A0: bi(0), A1: bi(0)}
	if n := r.Intn(3); n > 0 {
		if r.P(0.4) {
			t.K = "Burn"
		}
		t.A = logUniform(r, 10, 60)
		if t.Lo = 10 * r.Range(-1000, 1000); n == 1 {
			t.Hi = t.Lo - 10*r.Intn(100)
		} else {
			t.Hi = 887280 + 10*r.Intn(100)
		}
	}
	return append(txs[:i:i], append([]TxRec{t}, txs[i:]...)...)
}

func (a *appGen) policy(steps int64) simrt.Policy {
	r := a.r
	k := []string{"walk", "pct", "rr", "stall", "lifo"}[r.Weighted([]float64{5, 3, 2, 2, 1})]
	gap := math.Pow(10, 0.7+3.3*r.Float())
	if m := float64(steps) / 20000; gap < m {
		gap = m
	}
	return simrt.Policy{Kind: k, Gap: gap, Depth: r.Range(1, 8), Len: steps}
}

func (a *appGen) layout(t *AppTrace) {
	r := a.r
	t.Layout = r.U64()
	t.Tool = r.P(0.3)
	t.Style = r.Intn(3)
	if r.P(0.7) {
		t.Hours = []int{1, 2, 6, 24, 168, 720}[r.Intn(6)]
		if r.P(0.2) {
			t.Hours = r.Range(1, 2000)
		}
		if r.P(0.05) {
			t.Hours = 20000000000
		}
	}
	if r.P(0.7) {
		t.File = []string{"2_hours.json", "out.json", "a", "30_day.json", "x y.json"}[r.Intn(5)]
		if r.P(0.2) {
			t.File = []string{"sweeps/3.json", "a/b/c", "50%d.json", "größe.json", ".hidden", "no.ext.json.1", "./4.json", "1_day.json.tmp"}[r.Intn(8)]
		}
	}
}

func (a *appGen) leftovers(t *AppTrace, p float64) {
	r := a.r
	if r.P(p) {
		t.Left = append(t.Left, Left{t.name(), []string{"short", "long", "torn", "zeros", "empty", "foreign", "same"}[r.Intn(7)], r.U64()})
	}
	for _, n := range []string{"old.json", "1_day.json", t.name() + ".bak", t.name() + ".tmp", "." + t.name(), "2_hours.json", path.Base(t.name())} {
		if r.P(p*0.4) && n != path.Clean(t.name()) && n != t.name() {
			t.Left = append(t.Left, Left{n, []string{"short", "torn", "foreign"}[r.Intn(3)], r.U64()})
		}
	}
}

func (a *appGen) scenario() *AppTrace {
	r := a.r
	t := &AppTrace{}
	a.layout(t)
	a.open()
	switch a.prop {
	case "C08", "C09":
		a.sweep(t)
	case "C10":
		a.saving(t)
	case "C11":
		a.loading(t)
	default:
		a.reporting(t)
	}
	ids(r, a.g.txs, a.faults)
	t.Txs = a.g.txs
	if a.prop != "C11" || r.P(0.6) {
		a.oddities(t.Txs)
	}
	if a.prop == "C11" {
		t.Txs = a.twice(t.Txs)
	}
	if a.prop == "C09" && t.Bound < 1000 && len(t.Txs) > 0 && r.P(0.05) {
		t.Txs = poison(r, t.Txs)
		a.faults["record no pool accepts"]++
	}
	if t.Tool {
		for i := range t.Txs {
			// the tool writes signed texts
			for _, p := range []**big.Int{&t.Txs[i].A, &t.Txs[i].A0, &t.Txs[i].A1, &t.Txs[i].Sqrt} {
				if *p != nil && (*p).BitLen() > 255 {
					*p = new(big.Int).Rsh(*p, 1)
				}
			}
		}
	}
	return t
}

func (a *appGen) size(n int) int64 { return int64(n) * (6000 + int64(len(a.g.txs))*6000) }

func (a *appGen) sweep(t *AppTrace) {
	r := a.r
	big := r.P(0.004)
	if a.tier == "thorough" {
		big = r.P(0.02)
	} else if simrt.RaceBuild {
		big = false // takes most of a minute
	}
	switch {
	case big && simrt.RaceBuild: // the race detector takes 8000 goroutines
		a.tiny()
		t.Bound = 5002 + r.Intn(20)
	case big:
		t.Bound = []int{5000, 5001, 5002, 4999 + r.Intn(20), 10001, 10002, 7000}[r.Intn(7)]
		if a.tier == "thorough" && r.P(0.1) {
			t.Bound = 1 << 16
		}
		a.faults["sweep of several batches"]++
	case r.P(0.5): // many runs, next to nothing to do: the schedule is what matters
		a.tiny()
		t.Bound = 1 + r.Range(1, 40)
	case r.P(0.5):
		a.warmUp(r.Range(1, 15))
		a.trade(r.Range(1, 12), 3600*r.Range(1, 30), 30, 0)
		t.Bound = 1 + r.Range(2, 8)
	default:
		a.warmUp(r.Range(101, 120))
		a.trade(r.Range(2, 25), 3600*r.Range(1, 30), 60, 0)
		t.Bound = 1 + r.Range(2, 6)
	}
	steps := a.size(t.Bound)
	n := r.Range(1, 4)
	if big {
		n = 1
	}
	for i := 0; i < n; i++ {
		p := a.policy(steps)
		if big {
			p = simrt.Policy{Kind: []string{"walk", "lifo", "rr"}[r.Intn(3)], Gap: 3000}
		}
		t.Attempts = append(t.Attempts, Attempt{Policy: p, Seed: r.U64()})
	}
}

func (a *appGen) saving(t *AppTrace) {
	r := a.r
	if r.P(0.7) {
		a.tiny()
	} else {
		a.warmUp(r.Range(1, 20))
		a.trade(r.Range(1, 10), 3600*r.Range(1, 30), 30, 0)
	}
	t.Bound = 1 + r.Range(1, 6)
	if r.P(0.2) {
		t.Bound = 1 + r.Range(1, 60)
	}
	a.leftovers(t, 0.5)
	steps := a.size(t.Bound)
	one := func() Attempt {
		x := Attempt{Policy: simrt.Policy{Kind: "fifo"}, Seed: r.U64()}
		res := "/" + t.name()
		switch r.Weighted([]float64{3, 3, 2, 2, 2, 3, 2, 3, 1, 2}) {
		case 0: // the disk fills up while writing
			x.Room = 1 + int64(r.Intn(700*t.Bound))
			if r.P(0.2) {
				x.Room = 1
			}
		case 1: // a write fails after a part of it
			x.Faults = append(x.Faults, disk.Fault{Op: "write", N: r.Range(1, 2), Kind: []string{"EIO", "ENOSPC", "EDQUOT"}[r.Intn(3)], Bytes: r.Intn(700 * t.Bound)})
			if r.P(0.5) {
				x.Faults[0].N, x.Faults[0].Path = 0, res
			}
		case 2:
			x.Faults = append(x.Faults, disk.Fault{Op: "create", N: 1, Kind: []string{"EACCES", "EMFILE", "EROFS", "ENOSPC", "EIO"}[r.Intn(5)]})
		case 3:
			x.Faults = append(x.Faults, disk.Fault{Op: "close", Path: res, Kind: []string{"EIO", "ENOSPC", "EDQUOT"}[r.Intn(3)], Bytes: r.Intn(700 * t.Bound)})
		case 4:
			x.Faults = append(x.Faults, disk.Fault{Op: "mkdir", N: 1, Kind: []string{"EACCES", "ENOSPC", "EROFS", "EIO"}[r.Intn(4)]})
		case 5: // killed in the middle of the write
			x.Faults = append(x.Faults, disk.Fault{Op: "write", N: r.Range(1, 2), Kind: []string{"crash", "powerloss"}[r.Intn(2)], Bytes: r.Intn(700 * t.Bound)})
			if x.Faults[0].Kind == "powerloss" || r.P(0.3) {
				x.PowerLoss = r.U64() | 1
			}
		case 6: // killed before some operation
			x.Faults = append(x.Faults, disk.Fault{Op: []string{"create", "mkdir", "close", "any", "open", "read", "rename", "sync"}[r.Intn(8)], N: r.Range(1, 3), Kind: "crash"})
			if r.P(0.3) {
				x.PowerLoss = r.U64() | 1
			}
		case 7: // killed anywhere
			x.CrashStep = 1 + int64(r.Float()*float64(steps))
			if r.P(0.3) {
				x.PowerLoss = r.U64() | 1
			}
		case 8: // any operation fails
			x.Faults = append(x.Faults, disk.Fault{Op: "any", N: r.Range(1, 12), Kind: []string{"EIO", "EACCES", "ENOSPC"}[r.Intn(3)]})
		case 9:
			for _, op := range []string{"rename", "sync", "remove", "stat"} {
				x.Faults = append(x.Faults, disk.Fault{Op: op, N: 1, Kind: "EIO"})
			}
			x.Room = 1 + int64(r.Intn(700*t.Bound))
		}
		return x
	}
	for i := r.Range(1, 3); i > 0; i-- {
		t.Attempts = append(t.Attempts, one())
	}
	t.Attempts = append(t.Attempts, Attempt{Policy: simrt.Policy{Kind: "fifo"}, Seed: r.U64(), Short: r.P(0.3)})
}

func (a *appGen) loading(t *AppTrace) {
	r := a.r
	a.tiny()
	for i := r.Intn(20); i > 0; i-- {
		a.g.now += r.Intn(2000)
		a.g.one()
	}
	t.Bound = 2
	a.leftovers(t, 0.3)
	n := len(a.g.txs)
	fifo := simrt.Policy{Kind: "fifo"}
	x := Attempt{Policy: fifo, Seed: r.U64(), Short: r.P(0.5)}
	switch r.Weighted([]float64{3, 3, 4, 2, 1, 1, 1, 2, 2, 1}) {
	case 0: // reads split at random
		x.Short = true
	case 1:
		op := []string{"open", "read"}[r.Weighted([]float64{1, 3})]
		f := disk.Fault{Op: op, N: 1, Kind: []string{"EIO", "EACCES", "EMFILE"}[r.Intn(3)]}
		if op == "read" {
			x.Short = r.P(0.7)
			f.N = r.Range(1, 12)
		}
		x.Faults = append(x.Faults, f)
	case 2:
		c := &Corrupt{Kind: "number", Rec: r.Intn(n)}
		k := a.g.txs[c.Rec].K
		f := []string{"amount0", "amount1"}
		switch k {
		case "Swap":
			f = append(f, "sqrtPriceX96")
		case "Mint", "Burn":
			f = append(f, "amount")
		}
		c.Field = f[r.Intn(len(f))]
		c.Text = a.badNumber()
		t.Corrupt = c
	case 3:
		t.Corrupt = &Corrupt{Kind: "truncated", At: r.Intn(1000)}
		if r.P(0.2) {
			t.Corrupt.At = 999
		}
	case 4:
		t.Corrupt = &Corrupt{Kind: []string{"missing", "directory", "unreadable"}[r.Intn(3)]}
	case 5:
		t.Corrupt = &Corrupt{Kind: "trailing", Text: []string{"]", "x", "[]", "\x00", "{}", "null", ","}[r.Intn(7)]}
	case 6:
		t.Corrupt = &Corrupt{Kind: "zeroed", At: r.Intn(1000)}
	case 7:
		t.Corrupt = &Corrupt{Kind: "structure", At: r.Intn(1000)}
	case 8:
		c := &Corrupt{Kind: "integer", Rec: r.Intn(n)}
		c.Field = []string{"timestamp", "timestamp", "tickLower", "tickUpper", "tick"}[r.Intn(5)]
		c.Text = []string{`"1600000000"`, "1.5", "1e400", "99999999999999999999", `"x"`, "{}", "true", "1e3"}[r.Intn(8)]
		t.Corrupt = c
	case 9:
		x.Short = true
		x.Faults = append(x.Faults, disk.Fault{Op: "read", N: r.Range(2, 40), Kind: "EIO"})
	}
	t.Attempts = append(t.Attempts, x)
	if r.P(0.3) && t.Corrupt == nil {
		t.Attempts = append(t.Attempts, Attempt{Policy: fifo, Seed: r.U64(), Short: true})
	}
}

// badNumber is a text that is not a decimal integer of 256 bits.
func (a *appGen) badNumber() string {
	r := a.r
	x := logUniform(r, 1, 255).String()
	over := new(big.Int).Lsh(bi(1), 256)
	switch r.Intn(12) {
	case 0:
		return over.Add(over, logUniform(r, 0, 250)).String()
	case 1:
		return over.String()
	case 2:
		return over.Lsh(over, uint(r.Intn(300))).String()
	case 3:
		return "-" + over.Add(over, logUniform(r, 0, 250)).String()
	case 4:
		return "0x" + x
	case 5:
		return x + ".0"
	case 6:
		return x + "e3"
	case 7:
		k := r.Intn(len(x) + 1)
		return x[:k] + string("abcdefxyzOIl ,_-+.%\u00a0"[r.Intn(19)]) + x[k:] + "!"
	case 8:
		return " " + x
	case 9:
		return []string{"NaN", "null", "-", "+", "--1", "1 000", "1,000", "inf"}[r.Intn(8)]
	case 10:
		return x + x + x + x + fmt.Sprint(r.Intn(10)) + "00000000000000000000000000000000000000000000000000000000000000000000000000000000"
	default:
		return "\t" + x + "\n"
	}
}

// reporting makes runs of every length, from a single value upward.
func (a *appGen) reporting(t *AppTrace) {
	r := a.r
	t.Bound = 1 + r.Range(1, 3)
	if r.P(0.8) && t.Hours > 24 {
		t.Hours = []int{2, 6, 24}[r.Intn(3)]
	}
	step := 3600
	sigma := []float64{0.6, 5, 60, 200}[r.Intn(4)]
	switch r.Weighted([]float64{2, 4, 5, 1.5, 3}) {
	case 0:
		a.tiny()
		if r.P(0.5) {
			a.trade(r.Range(1, 3), step, sigma, 0)
		}
	case 1:
		a.warmUp(r.Range(101, 110))
		a.trade(r.Range(1, 30), step, sigma, 0)
	case 2:
		a.warmUp(r.Range(101, 110))
		a.trade(r.Range(30, 130), step, sigma, 0)
	case 3: // long enough for weekly figures
		a.warmUp(101)
		n := r.Range(505, 620)
		if r.P(0.3) { // or months
			n = r.Range(640, 1500)
			a.faults["months of trading"]++
		}
		a.trade(n, step, sigma, 0)
		t.Bound = 2
		a.faults["weeks of trading"]++
	default: // a market that moves by the same factor every hour
		a.warmUp(101)
		d := float64(r.Range(1, 40))
		if r.P(0.5) {
			d = -d
		}
		n := r.Range(2, 80)
		if r.P(0.5) { // the same, violently, from the top of a bubble
			a.g.exact = true
			a.g.swap(-float64(r.Range(1000, 300000)))
			d = float64(r.Range(1, 9000))
			if r.P(0.2) {
				d = -d
			}
			n = r.Range(3, 12)
			a.g.goal = 0
			a.g.swap(d)
		}
		a.trade(n, step, 1, d)
		a.faults["steady drift"]++
	}
	t.Attempts = append(t.Attempts, Attempt{Policy: a.policy(a.size(t.Bound)), Seed: r.U64()})
}
