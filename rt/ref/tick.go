// Package ref is the reference model: the Uniswap v3 core pool written from
// the contract's specification over math/big, independent of the code under
// test. Nothing in it imports the code under test.
package ref

import (
	"math"
	"math/big"
)

const (
	MinTick = -887272
	MaxTick = 887272
)

func bi(x int64) *big.Int { return big.NewInt(x) }

func pow2(n uint) *big.Int { return new(big.Int).Lsh(bi(1), n) }

var (
	zero    = bi(0)
	one     = bi(1)
	Q96     = pow2(96)
	Q128    = pow2(128)
	Q192    = pow2(192)
	two256  = pow2(256)
	max256  = new(big.Int).Sub(pow2(256), one)
	max160  = new(big.Int).Sub(pow2(160), one)
	max128  = new(big.Int).Sub(pow2(128), one)
	maxI256 = new(big.Int).Sub(pow2(255), one)

	ratios   [20]*big.Int // Q128 of 1.0001^(-2^k/2)
	MinSqrt  *big.Int     // contract: MIN_SQRT_RATIO
	MaxSqrt  *big.Int     // contract: MAX_SQRT_RATIO
	sqrtMemo = map[int]*big.Int{}
)

func init() {
	// sqrt(1/1.0001)^(2^k) in Q128, rounded to nearest, is what the contract's
	// constant table holds; derive it instead of copying it.
	const prec = 2000
	f := new(big.Float).SetPrec(prec)
	base, _, err := big.ParseFloat("1.0001", 10, prec, big.ToNearestEven)
	if err != nil {
		panic(err)
	}
	f.Quo(new(big.Float).SetPrec(prec).SetInt64(1), base)
	f.Sqrt(f)
	half := big.NewFloat(0.5)
	for k := 0; k < 20; k++ {
		s := new(big.Float).SetPrec(prec).SetMantExp(f, 128)
		s.Add(s, half)
		ratios[k], _ = s.Int(nil)
		f = new(big.Float).SetPrec(prec).Mul(f, f)
	}
	MinSqrt = SqrtAt(MinTick)
	MaxSqrt = SqrtAt(MaxTick)
}

// SqrtAt is the contract's getSqrtRatioAtTick.
func SqrtAt(tick int) *big.Int {
	if r, ok := sqrtMemo[tick]; ok {
		return new(big.Int).Set(r)
	}
	if tick < MinTick || tick > MaxTick {
		panic("ref: tick out of range")
	}
	abs := tick
	if abs < 0 {
		abs = -abs
	}
	r := new(big.Int).Set(Q128)
	for k := 0; k < 20; k++ {
		if abs>>uint(k)&1 == 1 {
			r.Mul(r, ratios[k])
			r.Rsh(r, 128)
		}
	}
	if tick > 0 {
		r.Div(max256, r)
	}
	// Q128 -> Q96, rounding up
	q, m := new(big.Int).DivMod(r, pow2(32), new(big.Int))
	if m.Sign() > 0 {
		q.Add(q, one)
	}
	if len(sqrtMemo) > 400000 {
		sqrtMemo = map[int]*big.Int{}
	}
	sqrtMemo[tick] = q
	return new(big.Int).Set(q)
}

// TickAt is the contract's getTickAtSqrtRatio: the greatest tick whose square
// root price does not exceed p.
func TickAt(p *big.Int) int {
	if p.Cmp(MinSqrt) < 0 || p.Cmp(MaxSqrt) >= 0 {
		panic("ref: price out of range")
	}
	fl, _ := new(big.Float).SetInt(p).Float64()
	t := int(math.Floor(2 * (math.Log(fl) - 96*math.Ln2) / math.Log(1.0001)))
	if t < MinTick {
		t = MinTick
	}
	if t > MaxTick-1 {
		t = MaxTick - 1
	}
	for t > MinTick && SqrtAt(t).Cmp(p) > 0 {
		t--
	}
	for t+1 < MaxTick && SqrtAt(t+1).Cmp(p) <= 0 {
		t++
	}
	return t
}

func floorDiv(a, b int) int {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func FloorTo(t, spacing int) int { return floorDiv(t, spacing) * spacing }
func CeilTo(t, spacing int) int  { return -FloorTo(-t, spacing) }
