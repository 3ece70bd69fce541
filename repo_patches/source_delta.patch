From 30b075809f1986b9696155959b689ce91c064353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 01/20] fix: searching the next tick of a pool without any
 initialised tick no longer panics

---
 lib/tickdata/tickdata.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tickdata/tickdata.go b/lib/tickdata/tickdata.go
index 1bda414..c260bc8 100644
--- a/lib/tickdata/tickdata.go
+++ b/lib/tickdata/tickdata.go
@@ -169,7 +169,7 @@ func (t *TickData) NextInitializedTickWithinOneWord(tick int, lte bool) (int, bo
 	if lte {
 		wordPos := compressed >> 8
 		minimum := (wordPos << 8) * t.tickSpacing
-		if t.isBelowSmallest(tick) {
+		if len(t.ticks) == 0 || t.isBelowSmallest(tick) {
 			return minimum, false
 		}
 
@@ -179,7 +179,7 @@ func (t *TickData) NextInitializedTickWithinOneWord(tick int, lte bool) (int, bo
 	} else {
 		wordPos := (compressed + 1) >> 8
 		maximum := (((wordPos + 1) << 8) - 1) * t.tickSpacing
-		if t.isAtOrAboveLargest(tick) {
+		if len(t.ticks) == 0 || t.isAtOrAboveLargest(tick) {
 			return maximum, false
 		}
 		index := t.nextInitializedTick(tick, lte).Index
-- 
2.43.0


From e54da1896d85e8dcbb117e46d3d1ca122d1d29dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 02/20] fix: round negative ticks down when searching the next
 initialised tick

---
 lib/tickdata/tickdata.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/tickdata/tickdata.go b/lib/tickdata/tickdata.go
index c260bc8..fb08991 100644
--- a/lib/tickdata/tickdata.go
+++ b/lib/tickdata/tickdata.go
@@ -166,6 +166,9 @@ func (t *TickData) GetFeeGrowthInside(tickLower, tickUpper, tickCurrent int, fee
 
 func (t *TickData) NextInitializedTickWithinOneWord(tick int, lte bool) (int, bool) {
 	compressed := tick / t.tickSpacing
+	if tick < 0 && tick%t.tickSpacing != 0 {
+		compressed-- // round towards negative infinity
+	}
 	if lte {
 		wordPos := compressed >> 8
 		minimum := (wordPos << 8) * t.tickSpacing
-- 
2.43.0


From fdd8c11ef6a6a2c968ad61afec4f0feb76cfa591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 03/20] fix: Udivrem no longer panics when the divisor has more
 words than the dividend

---
 uint256/uint256.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uint256/uint256.go b/uint256/uint256.go
index 5f010f0..c518fb7 100644
--- a/uint256/uint256.go
+++ b/uint256/uint256.go
@@ -508,6 +508,11 @@ func Udivrem(quot, u []uint64, d *Int) (rem Int) {
 		}
 	}
 
+	if uLen < dLen {
+		copy(rem[:], u)
+		return rem
+	}
+
 	var unStorage [9]uint64
 	un := unStorage[:uLen+1]
 	un[uLen] = u[uLen-1] >> (64 - shift)
-- 
2.43.0


From 77086c92d6c968493af1dac5e34d88ac2dff9c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 04/20] fix: positions of different ranges no longer share an
 account

---
 lib/pool/pool.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/pool/pool.go b/lib/pool/pool.go
index ba41b29..da76e71 100644
--- a/lib/pool/pool.go
+++ b/lib/pool/pool.go
@@ -1,6 +1,7 @@
 package pool
 
 import (
+	"strconv"
 	cons "uniswap-simulator/lib/constants"
 	"uniswap-simulator/lib/fullmath"
 	"uniswap-simulator/lib/invariant"
@@ -97,7 +98,7 @@ func (p *Pool) updatePosition(tickLower, tickUpper int, amount *ui.Int) (pos *po
 	}
 
 	feeGrowthInside0X128, feeGrowthInside1X128 := p.TickData.GetFeeGrowthInside(tickLower, tickUpper, p.TickCurrent, p.FeeGrowthGlobal0X128, p.FeeGrowthGlobal1X128)
-	searchString := string(tickLower) + "-" + string(tickUpper)
+	searchString := positionKey(tickLower, tickUpper)
 	pos = p.Positions[searchString]
 	if pos == nil {
 		pos = position.NewPosition()
@@ -118,6 +119,10 @@ func (p *Pool) updatePosition(tickLower, tickUpper int, amount *ui.Int) (pos *po
 	return
 }
 
+func positionKey(tickLower, tickUpper int) string {
+	return strconv.Itoa(tickLower) + "/" + strconv.Itoa(tickUpper)
+}
+
 func (p *Pool) checkTicks(tickLower, tickUpper int) {
 	invariant.Invariant(tickLower < tickUpper, "tickLower must be less than tickUpper")
 	invariant.Invariant(tickLower >= tickmath.MinTick, "tickLower must be greater than or equal to MinTick")
@@ -167,7 +172,7 @@ func (p *Pool) BurnStrategy(tickLower int, tickUpper int, amount *ui.Int) (*ui.I
 
 // CollectStrategy Always Collect all
 func (p *Pool) CollectStrategy(tickLower int, tickUpper int) (amount0, amount1 *ui.Int) {
-	searchString := string(tickLower) + "-" + string(tickUpper)
+	searchString := positionKey(tickLower, tickUpper)
 	pos := p.Positions[searchString]
 
 	amount0 = pos.TokensOwed0.Clone()
-- 
2.43.0


From 0022048f781699646149c8791f401a06a3cee944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 05/20] fix: cloning a position keeps its owed amount of token
 0

---
 lib/position/position.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/position/position.go b/lib/position/position.go
index 1589dda..bf88719 100644
--- a/lib/position/position.go
+++ b/lib/position/position.go
@@ -11,7 +11,7 @@ func (i *Info) Clone() *Info {
 		Liquidity:                i.Liquidity.Clone(),
 		FeeGrowthInside0LastX128: i.FeeGrowthInside0LastX128.Clone(),
 		FeeGrowthInside1LastX128: i.FeeGrowthInside1LastX128.Clone(),
-		TokensOwed0:              i.TokensOwed1.Clone(),
+		TokensOwed0:              i.TokensOwed0.Clone(),
 		TokensOwed1:              i.TokensOwed1.Clone(),
 	}
 }
-- 
2.43.0


From 405b405abf6f1900918d68469064e808135baddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 06/20] fix: cloned tick data no longer shares its tick values
 with the original

---
 lib/tickdata/tickdata.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/tickdata/tickdata.go b/lib/tickdata/tickdata.go
index fb08991..227996f 100644
--- a/lib/tickdata/tickdata.go
+++ b/lib/tickdata/tickdata.go
@@ -25,7 +25,15 @@ func (t *TickData) Clone() *TickData {
 		ticks:       make([]Tick, len(t.ticks)),
 		tickSpacing: t.tickSpacing,
 	}
-	copy(newTickData.ticks, t.ticks)
+	for i, tick := range t.ticks {
+		newTickData.ticks[i] = Tick{
+			Index:                 tick.Index,
+			LiquidityNet:          tick.LiquidityNet.Clone(),
+			LiquidityGross:        tick.LiquidityGross.Clone(),
+			FeeGrowthOutside0X128: tick.FeeGrowthOutside0X128.Clone(),
+			FeeGrowthOutside1X128: tick.FeeGrowthOutside1X128.Clone(),
+		}
+	}
 	return newTickData
 }
 
-- 
2.43.0


From 5161b900f2ce469c4dc9f86d7597d389e6219d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 07/20] fix: swaps of very large amounts no longer overflow 256
 bits in their intermediate products

---
 lib/sqrtprice_math/sqrtprice_math.go | 2 +-
 lib/swapmath/swapmath.go             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sqrtprice_math/sqrtprice_math.go b/lib/sqrtprice_math/sqrtprice_math.go
index abce49d..fa44c4f 100644
--- a/lib/sqrtprice_math/sqrtprice_math.go
+++ b/lib/sqrtprice_math/sqrtprice_math.go
@@ -98,7 +98,7 @@ func getNextSqrtPriceFromAmount1RoundingDown(sqrtPX96, liquidity, amount *ui.Int
 		if amount.Cmp(MaxUint160) <= 0 {
 			quotient = new(ui.Int).Div(new(ui.Int).Lsh(amount, 96), liquidity)
 		} else {
-			quotient = new(ui.Int).Div(new(ui.Int).Mul(amount, cons.Q96), liquidity)
+			quotient = fm.MulDiv(amount, cons.Q96, liquidity)
 		}
 		return new(ui.Int).Add(sqrtPX96, quotient)
 	}
diff --git a/lib/swapmath/swapmath.go b/lib/swapmath/swapmath.go
index d2c177c..828e83b 100644
--- a/lib/swapmath/swapmath.go
+++ b/lib/swapmath/swapmath.go
@@ -15,7 +15,7 @@ func ComputeSwapStep(sqrtRatioCurrentX96, sqrtRatioTargetX96, liquidity, amountR
 	amountRemainingINeg := new(ui.Int).Neg(amountRemainingI)
 
 	if exactIn {
-		amountRemainingLessFee := new(ui.Int).Div(new(ui.Int).Mul(amountRemainingI, new(ui.Int).Sub(MaxFee, ui.NewInt(uint64(feePips)))), MaxFee)
+		amountRemainingLessFee := fm.MulDiv(amountRemainingI, new(ui.Int).Sub(MaxFee, ui.NewInt(uint64(feePips))), MaxFee)
 		if zeroForOne {
 			amountIn = sqrtmath.GetAmount0Delta(sqrtRatioTargetX96, sqrtRatioCurrentX96, liquidity, true)
 		} else {
-- 
2.43.0


From 05acedcfeccbccc69d73a2207f5efe48c44a7f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 08/20] fix: take price samples at the configured interval from
 the first transaction on

The next sample time started at 0, so every transaction was sampled and the
price history spanned a number of transactions instead of the configured time.
---
 lib/executor/executor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/executor/executor.go b/lib/executor/executor.go
index e2999f5..f9c48ef 100644
--- a/lib/executor/executor.go
+++ b/lib/executor/executor.go
@@ -49,7 +49,7 @@ func (e *Execution) Run() {
 	nextUpdate := math.MaxInt64
 	nextSnapshot := math.MaxInt64
 	// We need some Snapshots for Init(), the easiest way is to get Snapshots from the first transaction
-	nextPriceSnapshot := 0
+	nextPriceSnapshot := transactions[0].Timestamp
 	//limitRebalance := false
 	for _, trans := range transactions {
 
@@ -83,7 +83,7 @@ func (e *Execution) Run() {
 		//	limitRebalance = false
 		//}
 		//Price Snapshot
-		if trans.Timestamp > nextPriceSnapshot {
+		if trans.Timestamp >= nextPriceSnapshot {
 			e.Strategy.MakeSnapshot()
 			nextPriceSnapshot += e.PricesSnapshotsInterval
 		}
-- 
2.43.0


From aa3a22eb8139aec795844c0b12206959a7e343b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 09/20] fix: a run whose start lies after its last transaction
 no longer panics when created

---
 lib/executor/executor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/executor/executor.go b/lib/executor/executor.go
index f9c48ef..f741569 100644
--- a/lib/executor/executor.go
+++ b/lib/executor/executor.go
@@ -24,6 +24,10 @@ func CreateExecution(strategy strat.Strategy, startTime, endTime, updateInterval
 
 	maxTime := transactions[len(transactions)-1].Timestamp
 	length := (maxTime - startTime) / updateInterval
+	if length < 0 {
+		// The strategy is never started
+		length = 0
+	}
 	snapshots := make([]*ui.Int, 0, length)
 
 	return &Execution{
-- 
2.43.0


From e3916fa1ba13062ee5525b51c09cd25765c1f2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 10/20] fix: winding up a strategy forgets its closed positions

ConstantInterval, IntervalAroundPrice and TwoIntervalAroundPrice kept them,
so reporting or winding up afterwards counted them twice.
---
 lib/strategy/2_interval_around_price.go       | 1 +
 lib/strategy/constant_intervall_strategy.go   | 1 +
 lib/strategy/interval_around_current_price.go | 1 +
 3 files changed, 3 insertions(+)

diff --git a/lib/strategy/2_interval_around_price.go b/lib/strategy/2_interval_around_price.go
index e05669e..a48413a 100644
--- a/lib/strategy/2_interval_around_price.go
+++ b/lib/strategy/2_interval_around_price.go
@@ -63,6 +63,7 @@ func (s *TwoIntervalAroundPriceStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
diff --git a/lib/strategy/constant_intervall_strategy.go b/lib/strategy/constant_intervall_strategy.go
index e313339..861c97d 100644
--- a/lib/strategy/constant_intervall_strategy.go
+++ b/lib/strategy/constant_intervall_strategy.go
@@ -59,6 +59,7 @@ func (s *ConstantIntervalStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
diff --git a/lib/strategy/interval_around_current_price.go b/lib/strategy/interval_around_current_price.go
index 0a500ac..0c08b57 100644
--- a/lib/strategy/interval_around_current_price.go
+++ b/lib/strategy/interval_around_current_price.go
@@ -59,6 +59,7 @@ func (s *IntervalAroundPriceStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
-- 
2.43.0


From 5c7b20be3894645bf78732577c182cd355d1e2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 11/20] fix: volatility strategies no longer panic when the
 price did not move

The interval is empty then, and computing its liquidity divided by zero.
---
 lib/strategy/bollinger_bands.go            | 4 ++++
 lib/strategy/bollinger_fill_up.go          | 4 ++++
 lib/strategy/volatility_sized_intervals.go | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/lib/strategy/bollinger_bands.go b/lib/strategy/bollinger_bands.go
index efb4516..b3301f2 100644
--- a/lib/strategy/bollinger_bands.go
+++ b/lib/strategy/bollinger_bands.go
@@ -98,6 +98,10 @@ func (s *BollingerBandsStrategy) getTicks() (tickLower, tickUpper int) {
 }
 
 func (s *BollingerBandsStrategy) mintPosition(tickLower, tickUpper int) {
+	if tickLower == tickUpper {
+		// The interval is empty when the price did not move
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/bollinger_fill_up.go b/lib/strategy/bollinger_fill_up.go
index 434172d..e5c0d90 100644
--- a/lib/strategy/bollinger_fill_up.go
+++ b/lib/strategy/bollinger_fill_up.go
@@ -99,6 +99,10 @@ func (s *BollingerBandsFillUpStrategy) getTicks() (tickLower, tickUpper int) {
 }
 
 func (s *BollingerBandsFillUpStrategy) mintPosition(tickLower, tickUpper int) {
+	if tickLower == tickUpper {
+		// The interval is empty when the price did not move
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/volatility_sized_intervals.go b/lib/strategy/volatility_sized_intervals.go
index 288a35a..c678b62 100644
--- a/lib/strategy/volatility_sized_intervals.go
+++ b/lib/strategy/volatility_sized_intervals.go
@@ -96,6 +96,10 @@ func (s *VolatilitySizedIntervalStrategy) getTicks() (tickLower, tickUpper int)
 }
 
 func (s *VolatilitySizedIntervalStrategy) mintPosition(tickLower, tickUpper int) {
+	if tickLower == tickUpper {
+		// The interval is empty when the price did not move
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
-- 
2.43.0


From 99f730d54f3eabbb0df4d265b11820ae0d489e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 12/20] fix: strategies no longer panic when their funds are
 too small for any liquidity

---
 lib/strategy/constant_intervall_strategy.go               | 3 +++
 lib/strategy/interval_around_current_price.go             | 3 +++
 lib/strategy/swap_half_constant_interval_current_price.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/lib/strategy/constant_intervall_strategy.go b/lib/strategy/constant_intervall_strategy.go
index 861c97d..352900b 100644
--- a/lib/strategy/constant_intervall_strategy.go
+++ b/lib/strategy/constant_intervall_strategy.go
@@ -74,6 +74,9 @@ func (s *ConstantIntervalStrategy) Init() (currAmount0, currAmount1 *ui.Int) {
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
+	if amount.IsZero() {
+		return
+	}
 	s.Positions = append(s.Positions, Position{
 		amount:    amount,
 		tickLower: tickLower,
diff --git a/lib/strategy/interval_around_current_price.go b/lib/strategy/interval_around_current_price.go
index 0c08b57..12b1fea 100644
--- a/lib/strategy/interval_around_current_price.go
+++ b/lib/strategy/interval_around_current_price.go
@@ -75,6 +75,9 @@ func (s *IntervalAroundPriceStrategy) Init() (currAmount0, currAmount1 *ui.Int)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
+	if amount.IsZero() {
+		return
+	}
 	s.Positions = append(s.Positions, Position{
 		amount:    amount,
 		tickLower: tickLower,
diff --git a/lib/strategy/swap_half_constant_interval_current_price.go b/lib/strategy/swap_half_constant_interval_current_price.go
index bd2b717..c223bbe 100644
--- a/lib/strategy/swap_half_constant_interval_current_price.go
+++ b/lib/strategy/swap_half_constant_interval_current_price.go
@@ -94,6 +94,9 @@ func (s *IntervalAroundPriceAndSwapStrategy) mintPosition(tickLower, tickUpper i
 		}
 	}
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
+	if amount.IsZero() {
+		return
+	}
 	s.Positions = append(s.Positions, Position{
 		amount:    amount,
 		tickLower: tickLower,
-- 
2.43.0


From 938c097e4275f5bf9bc15c823affbdb0020a6765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 13/20] fix: limit orders and full ranges respect the tick
 spacing of the pool's fee

---
 lib/strategy/limit_order.go | 4 ++--
 lib/strategy/v2_strategy.go | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/strategy/limit_order.go b/lib/strategy/limit_order.go
index d3de10b..7a3085d 100644
--- a/lib/strategy/limit_order.go
+++ b/lib/strategy/limit_order.go
@@ -118,7 +118,7 @@ func (s *LimitOrderStrategy) setPositions() {
 	// Secondary position
 	if !s.Amount0.IsZero() {
 		tickLower = tickmath.Ceil(s.Pool.TickCurrent, tickSpacing)
-		tickUpper = tickLower + 10
+		tickUpper = tickLower + tickSpacing
 		s.mintHalf(tickLower, tickUpper)
 		s.CurrentLimitTick = tickUpper
 		s.Direction = true
@@ -126,7 +126,7 @@ func (s *LimitOrderStrategy) setPositions() {
 
 	if !s.Amount1.IsZero() {
 		tickUpper = tickmath.Floor(s.Pool.TickCurrent, tickSpacing)
-		tickLower = tickUpper - 10
+		tickLower = tickUpper - tickSpacing
 		s.mintHalf(tickLower, tickUpper)
 		s.CurrentLimitTick = tickLower
 		s.Direction = false
diff --git a/lib/strategy/v2_strategy.go b/lib/strategy/v2_strategy.go
index 678f65a..443274c 100644
--- a/lib/strategy/v2_strategy.go
+++ b/lib/strategy/v2_strategy.go
@@ -1,6 +1,7 @@
 package strategy
 
 import (
+	cons "uniswap-simulator/lib/constants"
 	la "uniswap-simulator/lib/liquidity_amounts"
 	"uniswap-simulator/lib/pool"
 	"uniswap-simulator/lib/tickmath"
@@ -19,8 +20,8 @@ func (s *V2Strategy) Rebalance() (currAmount0, currAmount1 *ui.Int) {
 	currAmount0, currAmount1 = s.BurnAll()
 
 	// New Positions
-	tickLower := -887270
-	tickUpper := -tickLower
+	tickUpper := tickmath.Floor(tickmath.MaxTick, cons.TickSpaces[s.Pool.Fee])
+	tickLower := -tickUpper
 	s.mintPosition(tickLower, tickUpper)
 	return
 }
@@ -91,8 +92,8 @@ func (s *V2Strategy) Init() (currAmount0, currAmount1 *ui.Int) {
 	currAmount0, currAmount1 = s.Amount0.Clone(), s.Amount1.Clone()
 
 	// New Positions
-	tickLower := -887270
-	tickUpper := -tickLower
+	tickUpper := tickmath.Floor(tickmath.MaxTick, cons.TickSpaces[s.Pool.Fee])
+	tickLower := -tickUpper
 	s.mintPosition(tickLower, tickUpper)
 	return
 }
-- 
2.43.0


From c59770f626609eeeff746c43b942a4de8804528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 14/20] fix: the second interval of TwoIntervalAroundPrice ends
 on a usable tick

---
 lib/strategy/2_interval_around_price.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/strategy/2_interval_around_price.go b/lib/strategy/2_interval_around_price.go
index a48413a..71e3316 100644
--- a/lib/strategy/2_interval_around_price.go
+++ b/lib/strategy/2_interval_around_price.go
@@ -98,13 +98,13 @@ func (s *TwoIntervalAroundPriceStrategy) Init() (currAmount0, currAmount1 *ui.In
 	// SecondaryPosition
 	if !s.Amount0.IsZero() {
 		tickLower = tickmath.Ceil(s.Pool.TickCurrent, tickSpacing)
-		tickUpper = tickLower + s.b
+		tickUpper = tickmath.Round(tickLower+s.b, tickSpacing)
 		s.mintPosition(tickLower, tickUpper)
 	}
 
 	if !s.Amount1.IsZero() {
 		tickUpper = tickmath.Floor(s.Pool.TickCurrent, tickSpacing)
-		tickLower = tickUpper - s.b
+		tickLower = tickmath.Round(tickUpper-s.b, tickSpacing)
 		s.mintPosition(tickLower, tickUpper)
 	}
 
@@ -133,13 +133,13 @@ func (s *TwoIntervalAroundPriceStrategy) Rebalance() (currAmount0, currAmount1 *
 	// SecondaryPosition
 	if !s.Amount0.IsZero() {
 		tickLower = tickmath.Ceil(s.Pool.TickCurrent, tickSpacing)
-		tickUpper = tickLower + s.b
+		tickUpper = tickmath.Round(tickLower+s.b, tickSpacing)
 		s.mintPosition(tickLower, tickUpper)
 	}
 
 	if !s.Amount1.IsZero() {
 		tickUpper = tickmath.Floor(s.Pool.TickCurrent, tickSpacing)
-		tickLower = tickUpper - s.b
+		tickLower = tickmath.Round(tickUpper-s.b, tickSpacing)
 		s.mintPosition(tickLower, tickUpper)
 	}
 
-- 
2.43.0


From 6785dec7e7bd4c4085bb22f158c627f992cb7249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 15/20] fix: volatility strategies place their positions on
 usable ticks

The ends of their intervals were not multiples of the tick spacing, so the
real pool would have rejected every one of these positions.
---
 lib/strategy/bollinger_bands.go            |  2 ++
 lib/strategy/bollinger_fill_up.go          |  1 +
 lib/strategy/strategy.go                   | 14 ++++++++++++++
 lib/strategy/volatility_sized_intervals.go |  2 ++
 4 files changed, 19 insertions(+)

diff --git a/lib/strategy/bollinger_bands.go b/lib/strategy/bollinger_bands.go
index b3301f2..1e5cba8 100644
--- a/lib/strategy/bollinger_bands.go
+++ b/lib/strategy/bollinger_bands.go
@@ -1,6 +1,7 @@
 package strategy
 
 import (
+	cons "uniswap-simulator/lib/constants"
 	la "uniswap-simulator/lib/liquidity_amounts"
 	"uniswap-simulator/lib/pool"
 	"uniswap-simulator/lib/prices"
@@ -94,6 +95,7 @@ func (s *BollingerBandsStrategy) getTicks() (tickLower, tickUpper int) {
 		tickUpper = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioBX96)
 	}
 
+	tickLower, tickUpper = usableTicks(tickLower, tickUpper, cons.TickSpaces[s.Pool.Fee])
 	return
 }
 
diff --git a/lib/strategy/bollinger_fill_up.go b/lib/strategy/bollinger_fill_up.go
index e5c0d90..589198e 100644
--- a/lib/strategy/bollinger_fill_up.go
+++ b/lib/strategy/bollinger_fill_up.go
@@ -95,6 +95,7 @@ func (s *BollingerBandsFillUpStrategy) getTicks() (tickLower, tickUpper int) {
 		tickUpper = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioBX96)
 	}
 
+	tickLower, tickUpper = usableTicks(tickLower, tickUpper, cons.TickSpaces[s.Pool.Fee])
 	return
 }
 
diff --git a/lib/strategy/strategy.go b/lib/strategy/strategy.go
index 8736267..eb747c0 100644
--- a/lib/strategy/strategy.go
+++ b/lib/strategy/strategy.go
@@ -2,6 +2,7 @@ package strategy
 
 import (
 	"uniswap-simulator/lib/pool"
+	"uniswap-simulator/lib/tickmath"
 	ui "uniswap-simulator/uint256"
 )
 
@@ -21,3 +22,16 @@ type Strategy interface {
 	//GetCurrentLimitTick() int
 	//GetDirections() bool
 }
+
+// usableTicks rounds the ends of an interval to ticks the pool accepts
+func usableTicks(tickLower, tickUpper, tickSpacing int) (int, int) {
+	tickLower = tickmath.Round(tickLower, tickSpacing)
+	tickUpper = tickmath.Round(tickUpper, tickSpacing)
+	if tickLower < tickmath.MinTick {
+		tickLower += tickSpacing
+	}
+	if tickUpper > tickmath.MaxTick {
+		tickUpper -= tickSpacing
+	}
+	return tickLower, tickUpper
+}
diff --git a/lib/strategy/volatility_sized_intervals.go b/lib/strategy/volatility_sized_intervals.go
index c678b62..b7f50a5 100644
--- a/lib/strategy/volatility_sized_intervals.go
+++ b/lib/strategy/volatility_sized_intervals.go
@@ -1,6 +1,7 @@
 package strategy
 
 import (
+	cons "uniswap-simulator/lib/constants"
 	la "uniswap-simulator/lib/liquidity_amounts"
 	"uniswap-simulator/lib/pool"
 	"uniswap-simulator/lib/prices"
@@ -92,6 +93,7 @@ func (s *VolatilitySizedIntervalStrategy) getTicks() (tickLower, tickUpper int)
 		tickUpper = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioBX96)
 	}
 
+	tickLower, tickUpper = usableTicks(tickLower, tickUpper, cons.TickSpaces[s.Pool.Fee])
 	return
 }
 
-- 
2.43.0


From 994d33ac82bf4be7790b7c57dc2457b042a4f399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 16/20] hook: size of the sweep can be set by a simulation
 (build tag verif)

---
 lib/simhook/hook_off.go | 8 ++++++++
 lib/simhook/hook_on.go  | 9 +++++++++
 main.go                 | 3 ++-
 3 files changed, 19 insertions(+), 1 deletion(-)
 create mode 100644 lib/simhook/hook_off.go
 create mode 100644 lib/simhook/hook_on.go

diff --git a/lib/simhook/hook_off.go b/lib/simhook/hook_off.go
new file mode 100644
index 0000000..9b0ef79
--- /dev/null
+++ b/lib/simhook/hook_off.go
@@ -0,0 +1,8 @@
+//go:build !verif
+
+// Package simhook lets a simulation of the whole program choose how many runs
+// a sweep has. Without the build tag verif it does nothing.
+package simhook
+
+// SweepUpperBound returns the upper bound of the sweep's parameter.
+func SweepUpperBound(n int) int { return n }
diff --git a/lib/simhook/hook_on.go b/lib/simhook/hook_on.go
new file mode 100644
index 0000000..1e41752
--- /dev/null
+++ b/lib/simhook/hook_on.go
@@ -0,0 +1,9 @@
+//go:build verif
+
+package simhook
+
+// Bound is set by the simulation.
+var Bound = func(n int) int { return n }
+
+// SweepUpperBound returns the upper bound of the sweep's parameter.
+func SweepUpperBound(n int) int { return Bound(n) }
diff --git a/main.go b/main.go
index de5b2ab..5970eb0 100644
--- a/main.go
+++ b/main.go
@@ -16,6 +16,7 @@ import (
 	"uniswap-simulator/lib/executor"
 	ppool "uniswap-simulator/lib/pool"
 	"uniswap-simulator/lib/result"
+	"uniswap-simulator/lib/simhook"
 	strat "uniswap-simulator/lib/strategy"
 	ent "uniswap-simulator/lib/transaction"
 	ui "uniswap-simulator/uint256"
@@ -70,7 +71,7 @@ func main() {
 	start := time.Now()
 
 	amountHistorySnapshots := 100
-	mulUpperBound := IntPow(2, 16)
+	mulUpperBound := simhook.SweepUpperBound(IntPow(2, 16))
 	results := make([]result.RunResult, mulUpperBound-1)
 	duration := 24 * 60 * 60
 	mul := 1
-- 
2.43.0


From feebcd56a2cc0058678ef533221f44fc8da8e814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 17/20] fix: a failure to write the results is no longer
 ignored

---
 main.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/main.go b/main.go
index 5970eb0..4680d0e 100644
--- a/main.go
+++ b/main.go
@@ -278,10 +278,7 @@ func saveFile(results []result.RunResult, filename string, startTime, endTime in
 		Results:     results,
 	}
 	err = encoder.Encode(toSave)
-	if err != nil {
-		return
-	}
-
+	check(err)
 }
 
 func getTransactions() []ent.Transaction {
-- 
2.43.0


From 535d88f61133e469412944b884cfda9f87148fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 18/20] fix: recorded numbers that cannot be read stop the
 program

Text that is no decimal integer was read as zero or as a part of it, and
numbers beyond 256 bits were cut off, silently altering the transactions.
---
 main.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 4680d0e..4f5684f 100644
--- a/main.go
+++ b/main.go
@@ -313,9 +313,18 @@ func getTransactions() []ent.Transaction {
 }
 
 func stringToUint256(amount string) *ui.Int {
-	bigint := new(big.Int)
-	bigint.SetString(amount, 10)
-	uint256, _ := ui.FromBig(bigint)
+	if amount == "" {
+		// The field does not apply to this type of transaction
+		return ui.NewInt(0)
+	}
+	bigint, ok := new(big.Int).SetString(amount, 10)
+	if !ok {
+		panic("not a decimal integer: " + strconv.Quote(amount))
+	}
+	uint256, overflow := ui.FromBig(bigint)
+	if overflow {
+		panic("does not fit 256 bits: " + amount)
+	}
 	return uint256
 }
 
-- 
2.43.0


From 29781ebdbcc5e03d00636d252cb323a030956c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:01 +0000
Subject: [PATCH 19/20] fix: the standard deviation of evenly moving values is
 a number

The difference of the two sums could end up slightly below zero by rounding;
its root was NaN and saving the results failed.
---
 main.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/main.go b/main.go
index 4f5684f..ef738fa 100644
--- a/main.go
+++ b/main.go
@@ -163,20 +163,17 @@ func calculateStd(prices []*ui.Int) float64 {
 	}
 	returns := getReturns(prices)
 	n := len(returns)
-	sum1 := 0.0
+	mean := 0.0
 	for _, r := range returns {
-		sum1 += r * r
+		mean += r
 	}
-	sum1 = sum1 / float64(n-1)
-	sum2 := 0.0
+	mean = mean / float64(n)
+	// Summing squared deviations cannot end up below zero by rounding
+	variance := 0.0
 	for _, r := range returns {
-		sum2 += r
+		variance += (r - mean) * (r - mean)
 	}
-	sum2 = sum2 * sum2
-	quotient := n * (n - 1)
-	sum2 = sum2 / float64(quotient)
-
-	variance := sum1 - sum2
+	variance = variance / float64(n-1)
 	standardDeviation := math.Sqrt(variance)
 
 	return standardDeviation
-- 
2.43.0


From ccd5843f5dba6c4c98c3f529acee6574daa22625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:51 +0000
Subject: [PATCH 20/20] fix: refuse to withdraw more liquidity than a position
 holds

BurnStrategy credited tokens nobody had paid in when it was asked for more
than the position's liquidity, and left the books negative. The contract
reverts (LS).
---
 lib/pool/pool.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/pool/pool.go b/lib/pool/pool.go
index da76e71..8ad949c 100644
--- a/lib/pool/pool.go
+++ b/lib/pool/pool.go
@@ -159,6 +159,8 @@ func (p *Pool) MintStrategy(tickLower int, tickUpper int, amount *ui.Int) (amoun
 
 // BurnStrategy doesn't actually pay out. It just updates the position.
 func (p *Pool) BurnStrategy(tickLower int, tickUpper int, amount *ui.Int) (*ui.Int, *ui.Int) {
+	held := p.Positions[positionKey(tickLower, tickUpper)]
+	invariant.Invariant(amount.IsZero() || held != nil && !amount.Gt(held.Liquidity), "amount must not exceed the position's liquidity")
 
 	amountMinus := new(ui.Int)
 	amountMinus.Neg(amount)
-- 
2.43.0

