package drv

var realPool = []string{"lib/pool", "lib/tickdata", "lib/tickmath", "lib/swapmath", "lib/sqrtprice_math", "lib/fullmath", "lib/liquidity_amounts", "lib/position", "lib/constants", "lib/invariant", "uint256"}
var realExec = append([]string{"lib/executor", "lib/strategy", "lib/prices", "lib/transaction"}, realPool...)
var realApp = append([]string{"main", "lib/result"}, realExec...)

const poolRule = "One evaluation is one simulated history of a pool: seeded traders, liquidity providers, collectors, flash borrowers and an administrator send operations over a network that loses, duplicates, delays and reorders them; fork (clone) and kill-at-a-statement faults strike in between. Non-trivial: at least one accepted state-changing operation on a pool that holds liquidity; distinct by the fingerprint of the delivered operations and their observed outcomes."
const execRule = "One evaluation is one simulated backtest: a seeded market (prices, volumes, duplicated and same-second transactions, gaps, clock jumps) is generated with an independent model of the pool and replayed through the real executor and strategy. Non-trivial: the history has transactions and the strategy acted at least once; distinct by the fingerprint of the configuration, history and observed outcomes."

const appRule = "One evaluation is one simulated life of the program: a seeded recording (laid out as the real files are) lies on a simulated disk, the real main runs one or several times under a seeded schedule with seeded argument lists, leftovers of earlier runs, disk faults and crashes, and its exit status, results file and loaded transactions are judged. Non-trivial: at least one process ran to an end that was judged; distinct by the fingerprint of scenario, schedule decisions and outcomes."

const concRule = "One evaluation is one simulated process in which 2-5 (thorough: up to 16) backtests of seeded strategies, windows and intervals share one pool, start amounts and transaction list and are interleaved statement by statement by a seeded scheduler (some prepared while others already run, some processes killed half-way and started again); every run is also made alone in a fresh process and repeated afterwards. Non-trivial: at least two runs and more task switches than two per run; distinct by the fingerprint of results and schedule decisions."

var concStub = []string{"goroutine scheduler, wait groups, mutexes, channels (seeded)", "the market that produces the transactions (seeded participants on a reference pool)", "map iteration order (seeded)"}
var appStub = []string{"file system (simulated disk with short, torn, failing and lost operations, full disk, power loss)", "clock", "command line", "goroutine scheduler, wait groups, mutexes, channels (seeded)", "the market that produces the recording (seeded participants on a reference pool)"}
var poolStub = []string{"network between participants and the pool (message loss, duplication, delay, reordering)", "map iteration order (seeded)"}
var execStub = []string{"the market that produces the transactions (seeded participants on a reference pool)", "map iteration order (seeded)"}
var poolAssume = []string{"the reference model in rt/ref states the protocol's published formulas", "yield points are inserted by the instrumenter without changing what the code computes", "integer arithmetic of math/big"}

func pool(id string) *Spec {
	return &Spec{ID: id, Jobs: []Job{{"pool", "plain", 1}}, Rule: poolRule, Real: realPool, Stub: poolStub, Assumptions: poolAssume, QuickSecs: 25, DeepSecs: 600}
}

func execution(id string) *Spec {
	return &Spec{ID: id, Jobs: []Job{{"exec", "plain", 1}}, Rule: execRule, Real: realExec, Stub: execStub, Assumptions: poolAssume, QuickSecs: 25, DeepSecs: 600}
}

func application(id string) *Spec {
	return &Spec{ID: id, Jobs: []Job{{"app", "plain", 1}}, Rule: appRule, Real: realApp, Stub: appStub, Assumptions: append([]string{"the disk model: operations are atomic up to the injected faults, a power loss keeps only what a seeded subset of writes left"}, poolAssume...), QuickSecs: 25, DeepSecs: 600}
}

// Specs lists the properties claimed.
var Specs = map[string]*Spec{}

func init() {
	for _, id := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07"} {
		Specs[id] = pool(id)
	}
	for _, id := range []string{"C12", "C13", "C14", "C15", "C16", "C17"} {
		Specs[id] = execution(id)
	}
	for _, id := range []string{"C09", "C10", "C11", "C19"} {
		Specs[id] = application(id)
	}
	// instructions cannot be split by the scheduler, so lost updates of shared
	// results show as unsynchronised accesses
	Specs["C09"].Jobs = []Job{{"app", "plain", 0.65}, {"app", "race", 0.35}}
	Specs["C08"] = &Spec{ID: "C08", Jobs: []Job{{"conc", "fine", 0.5}, {"conc", "race", 0.35}, {"app", "race", 0.15}}, Rule: concRule, Real: realApp, Stub: concStub,
		Assumptions: append([]string{"unsynchronised accesses are those the Go race detector (happens-before) sees on the simulated schedule, with the simulator's own hand-offs hidden from it"}, poolAssume...), QuickSecs: 40, DeepSecs: 600}
	c18 := pool("C18")
	c18.Jobs = []Job{{"pool", "plain", 0.6}, {"exec", "plain", 0.4}}
	c18.Real = realExec
	Specs["C18"] = c18
}
