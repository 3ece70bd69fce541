#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed list of properties)."""
import json, os, sys
P = []
def p(id, title, statement, over, text, why, files, **kw):
    anchors = {"files": files}
    anchors.update(kw)
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})

NOTEST = "The pool, tick, position, executor and strategy code is not executed by any passing test (the two end-to-end tests need data files that are not in the repository), and fixed examples could not settle "

p("C01", "Swaps replay the Uniswap v3 contract exactly",
  "For every interleaving of deposits, withdrawals, flash loans and swaps that the Uniswap v3 pool contract accepts, each swap (exact input or exact output, either direction, with or without a price limit, any of the three fee tiers) returns exactly the two token amounts the contract computes. It leaves the pool at exactly the contract's square-root price, tick and in-range liquidity, and no other operation changes price or tick.",
  ["histories", "schedules", "inputs"], "every order in which the parties' operations reach the pool, at any starting price in the valid tick range (negative ticks, word boundaries, exact landings on a boundary, liquidity gaps, an empty pool, amounts up to 2^255)",
  NOTEST + "a statement over all operation histories: a wrong boundary or rounding step shows only for particular multi-tick sequences.",
  ["lib/pool/pool.go", "lib/swapmath/swapmath.go", "lib/sqrtprice_math/sqrtprice_math.go", "lib/tickdata/tickdata.go", "lib/tickmath/tickmath.go", "lib/fullmath/fullmath.go"],
  observe_at=["return values of the exact-input and exact-output swap", "pool price, tick, liquidity fields"])
p("C02", "Liquidity books always equal the open positions",
  "After every operation of every history, the pool's in-range liquidity is the sum of the open positions whose range contains the current tick. A tick is initialised exactly when an open position starts or ends there, its net and gross liquidity are the sums over those positions, and the pool finds precisely these ticks when it looks for the next one in either direction; when everybody has withdrawn, no liquidity and no initialised tick is left.",
  ["histories", "schedules"], "every interleaving of deposits, partial and full withdrawals and swaps by any number of parties sharing, nesting or abutting ranges",
  NOTEST + "book-keeping errors, which appear only after particular insert/remove/cross sequences.",
  ["lib/pool/pool.go", "lib/tickdata/tickdata.go", "lib/position/position.go"],
  observe_at=["pool liquidity field", "tick lookup", "next-initialised-tick search"])
p("C03", "Deposits and withdrawals are priced exactly as by the contract",
  "For every reachable pool state, depositing liquidity into a range charges exactly the token amounts the Uniswap v3 contract charges (rounded up), and withdrawing credits exactly what the contract credits (rounded down), for ranges below, around and above the current price. The operation succeeds whenever the contract would accept it.",
  ["histories", "inputs"], "every reachable price and history, every range between the minimum and maximum tick, liquidity from 1 to the contract's per-tick maximum",
  NOTEST + "rounding and range-side errors at arbitrary prices.",
  ["lib/pool/pool.go", "lib/sqrtprice_math/sqrtprice_math.go", "lib/fullmath/fullmath.go", "uint256/uint256.go"],
  observe_at=["return values of deposit and withdraw"])
p("C04", "Each position earns exactly its share of the fees, and only once",
  "For every history, what a position can collect is exactly what the Uniswap v3 contract's fee accounting gives it: its share, by liquidity, of the fees of swaps and flash loans that happened while the price was inside its range and while it was open, plus what it withdrew. Different ranges never share an account, nothing is lost or earned twice by topping up, partial withdrawal, touching the position or collecting at any moment, and fee counters that wrap around do not change the result.",
  ["histories", "schedules"], "every interleaving of swaps, flash loans, deposits, withdrawals and collections over any set of ranges, with negative and positive ticks",
  NOTEST + "fee errors, which need a position to survive particular crossings and touches before they show.",
  ["lib/pool/pool.go", "lib/position/position.go", "lib/tickdata/tickdata.go"],
  observe_at=["amounts returned when a position collects", "global fee growth fields"])
p("C05", "The pool never pays out more than was paid in",
  "For every history, and after every single operation of it, the tokens paid into the pool (deposits, swap inputs, flash-loan fees) cover the tokens paid out (swap outputs, collections) in each token separately, up to and including the moment when every position has withdrawn and collected everything. No participant can extract tokens by depositing and withdrawing, or by swapping back and forth, in a pool otherwise left alone.",
  ["histories", "schedules"], "every history of accounted participants and every order in which they leave",
  NOTEST + "conservation over every prefix of every history.",
  ["lib/pool/pool.go", "lib/position/position.go", "lib/swapmath/swapmath.go", "lib/sqrtprice_math/sqrtprice_math.go"],
  observe_at=["return values of all pool operations"])
p("C06", "A rejected operation leaves no trace in the pool",
  "An invalid operation - a deposit of zero liquidity, a range that is empty, inverted or outside the tick bounds, a swap of zero, a swap with a price limit on the wrong side of the price or at or beyond the price bounds, a flash loan without in-range liquidity - is refused. After the refusal the pool's price, tick, liquidity, ticks, positions and fee counters are unchanged, and everything that follows proceeds as if it had never been submitted.",
  ["fault_sequences", "histories"], "every kind of invalid operation injected at every point of every history",
  "No test submits an invalid operation to a pool, and none could cover refusal at every point of every history.",
  ["lib/pool/pool.go", "lib/invariant/invariant.go"],
  observe_at=["refusal (panic) of the operation", "all public pool state before and after"])
p("C07", "A cloned pool is an exact and independent fork",
  "A clone taken at any moment of any history behaves from then on exactly like the original: the same further operations give the same results, including what already open positions can collect. Operations on either one never change the other, whatever their order, and the same holds for clones of clones, so a run restored from a clone and replayed is indistinguishable from one that was never interrupted.",
  ["histories", "schedules", "crash_points"], "cloning, and crash with restore from the last clone, at every point of every history, with operations on both sides interleaved arbitrarily",
  "No passing test clones a pool, and aliasing shows only when both sides are used after cloning in a populated state.",
  ["lib/pool/pool.go", "lib/tickdata/tickdata.go", "lib/position/position.go"],
  observe_at=["all pool operations and state on original and clone"])
p("C08", "Parallel runs do not influence each other or their inputs",
  "Any number of backtest runs started from the same pool, start amounts and transaction list and executed concurrently give, under every interleaving, exactly the results each gives when executed alone, and repeating a run gives the same results again. The shared pool, start amounts and transaction list are never modified by running, and no two concurrent runs access the same mutable memory without synchronisation.",
  ["schedules"], "every interleaving, at the granularity of single statements, of any set of strategies sharing one pool and transaction list, whether created before or while others run",
  "No test runs two strategies concurrently; data races and shared mutable state only show under particular interleavings.",
  ["main.go", "lib/executor/executor.go", "lib/strategy", "lib/pool/pool.go", "lib/constants/constants.go", "lib/tickmath/tickmath.go"],
  observe_at=["value series and final funds of each run", "shared inputs before and after"])
p("C09", "A sweep reports every run exactly once, in its own place",
  "Under every schedule of the parallel runs, the results file of a completed sweep contains exactly one entry for every parameter value, in increasing order of the parameter, and each entry carries its own parameter, the configured update interval and history window, and the figures of precisely that run. No run is missing, duplicated, left empty or attributed to another parameter, and saving starts only after all runs have finished; the header states the start amount and the time span of the loaded data.",
  ["schedules", "configurations"], "every schedule and stall of the runs, every sweep size including several batches, every update interval and file name",
  "The program is never executed by a test; lost or misplaced results depend on the schedule.",
  ["main.go", "lib/result/result.go", "lib/executor/executor.go"],
  observe_at=["results file"], hook_needed="sweep size (build tag verif)")
p("C10", "Success means the complete results are on disk",
  "If the program exits successfully, the results file with the requested name exists and holds the complete, valid JSON document of all results; if anything goes wrong while creating, writing or closing it (full disk, I/O error, short write, permission), the program reports failure by its exit status. After a failure or crash at any moment, running it again without faults produces exactly the file an undisturbed run produces, whatever an earlier run left behind, and results saved under other names are never touched.",
  ["fault_sequences", "crash_points"], "every fault at every file-system call of the save, every crash point, every leftover state of an earlier run (none, shorter, longer, torn)",
  "No test saves results, and none injects a disk fault or crash.",
  ["main.go", "lib/result/result.go"],
  observe_at=["exit status", "file contents"])
p("C11", "Recorded transactions are loaded exactly or the program stops",
  "Loading the transaction file yields exactly the recorded transactions, in order and with every field unchanged (negative amounts and 256-bit values included), however the reads are split. If the file is missing, unreadable, truncated, not valid JSON, or a numeric text in it is not a decimal integer that fits 256 bits, the program stops with a failure before producing any result, instead of continuing with altered data; a transaction that the tool writes out is read back the same.",
  ["inputs", "fault_sequences"], "every recording, every way of splitting or failing the reads, truncation at every byte and corruption of every numeric text",
  "The loader is not executed by any passing test because the data is missing, and no test corrupts or interrupts the input.",
  ["main.go", "lib/transaction/transaction.go", "uint256/conversion.go"],
  observe_at=["loaded transaction list", "exit status", "results file absent"])
p("C12", "A replay applies each transaction in its window once, in order",
  "A run applies every recorded transaction up to the end time to its pool exactly once, in recorded order, each as the operation, range, direction and amount it records, and none after the end time; this does not depend on the strategy or on how timestamps are spaced. The strategy is started exactly once, just before the first transaction at or after the start time, and wound up exactly once at the end of the window.",
  ["histories", "configurations"], "every recording (ties, gaps, bursts, stalls, all types), every start and end time including before the first and after the last transaction, every interval setting",
  "The executor is not executed by any passing test.",
  ["lib/executor/executor.go"],
  observe_at=["calls received by pool and strategy during a run"])
p("C13", "Rebalances, valuations and price samples keep their schedule",
  "Once started, the k-th rebalance and the k-th periodic valuation each happen at the first transaction that is not earlier than k intervals after the start and later than the one of the preceding rebalance or valuation; they act on the pool as it was just before that transaction, valuation before rebalance. Price samples likewise are taken at the first transaction and then at most once per transaction and not before the next multiple of the sampling interval since the first has passed, so that the price history spans the configured time and not a number of transactions.",
  ["histories", "configurations"], "every spacing of timestamps (ties, exact hits, gaps of many intervals, bursts after a stall, clock jumps) and every combination of intervals",
  "The executor is not executed by any passing test; schedule errors need particular spacings of timestamps.",
  ["lib/executor/executor.go"],
  observe_at=["calls received by the strategy and pool state at each"])
p("C14", "Recorded portfolio values are the true value at that moment",
  "In every run the first recorded value is that of the start funds, each periodic value is that of the strategy's idle funds plus the tokens its open positions would return if withdrawn right then (uncollected fees excluded), and the last is that of the funds after everything has been withdrawn and collected; each is converted to the first token at the pool price of that moment. The number of recorded values is one for the start, one per valuation due, and one for the end.",
  ["histories", "configurations"], "every strategy, every market history, every schedule of valuations and rebalances",
  "No passing test runs a strategy or looks at a value series.",
  ["lib/executor/executor.go", "lib/liquidity_amounts/liquidity_amounts.go", "lib/strategy"],
  observe_at=["recorded value series", "pool operations of the strategy"])
p("C15", "A strategy's funds are conserved through any market",
  "At every moment of every run, what a strategy holds idle is exactly its start funds minus what it paid to the pool plus what it received from it, in each token; it never spends tokens it does not have, and it never aborts the run as long as the range its description gives lies inside the tick bounds. When it is wound up, all its liquidity has left the pool, all its fees have been collected, and the amounts it reports are all it owns; reporting or winding up again does not count anything twice.",
  ["histories", "configurations"], "every strategy and parameter, every market history including quiet markets and prices far outside the positions, every rebalancing schedule",
  "No passing test runs a strategy.",
  ["lib/strategy", "lib/pool/pool.go", "lib/liquidity_amounts/liquidity_amounts.go"],
  observe_at=["idle and reported funds of the strategy", "its pool operations"])
p("C16", "Strategies provide liquidity only in their documented range",
  "Each time a strategy sets its positions, they lie exactly in the interval its description states for the price, average or volatility of that moment (fixed-width strategies: the documented width around the current or average price, rounded to usable ticks; volatility strategies: symmetric in square-root price around the current or average price, growing with volatility and multiplier, rounded to usable ticks; full-range, constant, limit-order and fill-up ranges as described), and the main position uses as much of the funds as that range can take. Every range it opens is one the real pool accepts: lower below upper, inside the tick bounds and on the pool's tick spacing.",
  ["histories", "configurations"], "every strategy, width or multiplier, fee tier, market history and rebalancing moment",
  "No passing test runs a strategy.",
  ["lib/strategy", "lib/tickmath/tickmath.go", "lib/liquidity_amounts/liquidity_amounts.go", "lib/prices/prices.go"],
  observe_at=["ranges and liquidity of the strategy's deposits"])
p("C17", "Average and volatility cover exactly the last n price samples",
  "However samples arrive (any number, repeated, after stalls), once n samples have been taken the average price of a strategy is the mean, and its volatility the sample standard deviation, of exactly the last n sampled prices, to integer rounding. Reading them at any moment changes nothing, and no later change of the pool alters a sample already taken.",
  ["histories"], "every sequence of samples and readings, every window length of at least two, every price whose square stays below the documented bound",
  "No passing test touches the price history; window errors need more samples than the window length.",
  ["lib/prices/prices.go", "lib/strategy/interval_around_average.go", "lib/strategy/bollinger_bands.go"],
  observe_at=["average and volatility readings"])
p("C18", "Every pool operation finishes within a bounded amount of work",
  "In every reachable state every swap, deposit, withdrawal, collection, flash loan and tick search either completes or is refused within a number of steps bounded by the number of tick words and initialised ticks it has to pass. In particular a swap that runs out of liquidity comes to rest at its price limit, on either side, from any tick, instead of looping.",
  ["histories", "inputs"], "every reachable state, in particular liquidity gaps, word boundaries, negative ticks, the price extremes, and sparse and dense tick sets",
  "A non-terminating loop needs one particular combination of tick, spacing and liquidity gap; no passing test performs a swap.",
  ["lib/pool/pool.go", "lib/tickdata/tickdata.go", "lib/tickmath/tickmath.go"],
  observe_at=["completion of each operation, counted in executed statements"])
p("C19", "Reported risk and return figures belong to the run's values",
  "For every sweep the figures saved for a run are the stated statistics of that run's own series of recorded values: end amount (last value, exact), return ((last-first)/first), maximum drawdown (largest relative fall from a previous peak), sample standard deviation and zero-target downside deviation of log returns, and 95% value at risk (the log return at the 5% rank), taken over the hourly, every 24th and every 168th value. Series with fewer than three values give zero instead of an error.",
  ["histories", "configurations", "schedules"], "every market history, run length (from a single value upward), update interval and schedule",
  "The program is never executed by a test, and no test computes a statistic.",
  ["main.go", "lib/result/result.go", "lib/executor/executor.go"],
  observe_at=["results file"], hook_needed="sweep size (build tag verif)")
p("C20", "256-bit integer arithmetic is exact modulo 2^256",
  "Every arithmetic, shift, comparison and conversion operation of the 256-bit integer type gives the mathematically exact result modulo 2^256 for all operands, whether or not result and operands share storage.",
  ["inputs"], "all 256-bit operands", "Tests sample random operands.",
  ["uint256/uint256.go", "uint256/div.go", "uint256/mod.go", "uint256/conversion.go"])
p("C21", "Tick and square-root price conversions are exact and inverse",
  "For every tick in range the square-root price is exactly the contract's, prices increase strictly with the tick, and for every valid price the returned tick is the greatest one whose price does not exceed it.",
  ["inputs"], "all 1,774,545 ticks and all 160-bit prices", "No passing test evaluates a conversion.",
  ["lib/tickmath/tickmath.go"])

MECH = {
 "C01": [("swap loop over tick words", "lib/pool/pool.go:swap"), ("single swap step", "lib/swapmath/swapmath.go:ComputeSwapStep"), ("next initialised tick within a word", "lib/tickdata/tickdata.go")],
 "C02": [("tick insertion, update and removal", "lib/tickdata/tickdata.go:UpdateTick,ClearTick"), ("in-range liquidity update", "lib/pool/pool.go:modifyPosition*,swap")],
 "C03": [("rounded amount deltas", "lib/sqrtprice_math/sqrtprice_math.go"), ("512-bit multiply-divide", "lib/fullmath/fullmath.go")],
 "C04": [("fee growth inside a range", "lib/tickdata/tickdata.go:GetFeeGrowthInside,Cross"), ("position settlement", "lib/position/position.go:Update"), ("position lookup by range", "lib/pool/pool.go:updatePosition")],
 "C05": [("rounding in the pool's favour", "lib/sqrtprice_math/sqrtprice_math.go, lib/swapmath/swapmath.go")],
 "C06": [("checks before the first mutation", "lib/pool/pool.go, lib/invariant/invariant.go")],
 "C07": [("deep copies", "lib/pool/pool.go:Clone, lib/tickdata/tickdata.go:Clone, lib/position/position.go:Clone")],
 "C08": [("each strategy clones pool and amounts", "lib/strategy"), ("no writes to shared values", "lib/executor/executor.go, uint256")],
 "C09": [("result slot per run and wait group", "main.go:main,runAndAppend")],
 "C10": [("error checks while saving", "main.go:saveFile")],
 "C11": [("error checks while loading, number parsing", "main.go:getTransactions,stringToUint256")],
 "C12": [("event loop over transactions", "lib/executor/executor.go:Run")],
 "C13": [("due times advanced by their interval", "lib/executor/executor.go:Run")],
 "C14": [("valuation at the pool price", "lib/executor/executor.go:Run"), ("position amounts", "lib/liquidity_amounts/liquidity_amounts.go")],
 "C15": [("idle funds updated with each pool operation", "lib/strategy/*.go")],
 "C16": [("range computation", "lib/strategy/*.go:getTicks,setPositions,Init,Rebalance"), ("liquidity for amounts", "lib/liquidity_amounts/liquidity_amounts.go")],
 "C17": [("ring buffer of squared prices", "lib/prices/prices.go")],
 "C18": [("bounded tick-word steps of the swap loop, binary searches", "lib/pool/pool.go:swap, lib/tickdata/tickdata.go")],
 "C19": [("statistics over the value series", "main.go:runAndAppend,calculate*")],
 "C20": [("limb arithmetic", "uint256/*.go")],
 "C21": [("table and binary search", "lib/tickmath/tickmath.go")],
}
for x in P:
    x["anchors"]["mechanism"] = [{"name": n, "where": w} for n, w in MECH[x["id"]]]

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, s)
    print("valid", len(P))
except ImportError:
    print("written", len(P))
