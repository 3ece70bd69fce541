// Package simrt is the simulator runtime linked into the instrumented program:
// a cooperative scheduler in which exactly one task runs at a time, a step
// counter that stands for time and work, and a recorder for the schedule.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"

	"uniswap-simulator/zsim/rng"
)

// ---- step counting -------------------------------------------------------

var (
	left    int64 = 1 << 62 // steps until slow() is called
	granted int64 = 1 << 62
	base    int64 // steps before the current grant
	limit   int64 = 1 << 62
)

// Y is the yield point the instrumenter puts before every statement.
//
//go:norace
func Y() {
	left--
	if left < 0 {
		slow()
	}
}

//go:norace
func Steps() int64 { return base + granted - left }

//go:norace
func grant(n int64) {
	base = Steps()
	granted, left = n, n
}

// Budget is raised when the program exceeds its step budget.
type Budget struct{ Steps int64 }

func (b Budget) Error() string { return fmt.Sprintf("step budget exceeded after %d steps", b.Steps) }

// Begin resets the step counter with a budget, outside any scheduled run.
func Begin(budget int64) {
	base, granted, left = 0, budget, budget
	limit = budget
}

// Unlimited removes the budget (for harness code that calls the program).
func Unlimited() { base, granted, left, limit = 0, 1<<62, 1<<62, 1<<62 }

//go:noinline
//go:norace
func slow() {
	if cur == nil {
		left = 0 // keep failing
		panic(Budget{limit})
	}
	if cur.killed {
		left = 1 << 60
		return
	}
	s := Steps()
	if s >= limit {
		grant(1 << 40)
		s0.overBudget = true
		cur.park(evBudget)
		return
	}
	cur.park(evYield)
}

// ---- tasks ---------------------------------------------------------------

type event int

const (
	evYield event = iota
	evBlock
	evExit
	evProcExit
	evBudget
	evCrash
	evSpawn
)

type Task struct {
	id      int
	wake    chan struct{}
	killed  bool
	blocked bool
	cond    func() bool
	until   int64 // sleeping until this clock value, if > 0
	done    bool
	ev      event
	panicV  any
	stack   string
	goexit  bool
	depth   int
	prio    int64
	why     string
}

var cur *Task
var s0 *sched
var ended int // address at which finished tasks meet the end of the run

// Active says whether a scheduled run is in progress.
//
//go:norace
func Active() bool { return cur != nil }

// Dead says whether the current task is being torn down, in which case every
// simulated facility is inert.
//
//go:norace
func Dead() bool { return cur != nil && cur.killed }

// Running tells whether the caller is a live task of a simulated process.
//
//go:norace
func Running() bool { return cur != nil && !cur.killed }

//go:norace
func TaskID() int {
	if cur == nil {
		return 0
	}
	return cur.id
}

type Decision struct {
	Step int64 `json:"s"`
	Task int   `json:"t"`
	Fork bool  `json:"f,omitempty"` // decided when the current task started another one
}

type Policy struct {
	Kind  string  `json:"kind"` // walk, pct, fifo, lifo, stall, rr
	Gap   float64 `json:"gap"`  // mean steps between preemptions
	Depth int     `json:"depth"`
	Len   int64   `json:"len"` // pct: expected length
}

type Config struct {
	Seed      uint64
	Policy    Policy
	Replay    []Decision
	IsReplay  bool
	Budget    int64
	Record    bool
	CrashStep int64 // kill the process at this step, if > 0
	OnSwitch  func()
}

type Outcome struct {
	Exit      int // process exit status
	Panic     string
	Stack     string
	Deadlock  bool
	OverRun   bool // step budget exceeded
	Crashed   bool
	Steps     int64
	Tasks     int
	Switches  int64
	Preempts  int64
	Decisions []Decision
	Hash      uint64 // over the sequence of (step, task)
}

type sched struct {
	cfg        Config
	rng        *rng.R
	maprng     *rng.R
	tasks      []*Task
	live       []*Task // tasks not done, by id
	in         chan *Task
	out        Outcome
	ri         int
	overBudget bool
	exitCode   int
	clock      int64
	clockOff   int64
	changeAt   []int64
	stalled    int
	stallUntil int64
	fin        chan struct{}
	nlive      int
	pending    *Task
}

// park hands the baton to the scheduler and waits to get it back.
//
//go:norace
func (t *Task) park(e event) {
	t.ev = e
	raceDisable()
	s0.in <- t
	<-t.wake
	raceEnable()
	if t.killed {
		runtime.Goexit()
	}
}

// Go starts fn as a new task.
//
//go:norace
func Go(fn func()) {
	if cur == nil {
		fn()
		return
	}
	if cur.killed {
		return
	}
	t := &Task{wake: make(chan struct{})}
	s0.pending = t
	start(t, fn) // waits for its first turn
	cur.park(evSpawn)
}

func start(t *Task, fn func()) { go t.run(fn) }

//go:norace
func (t *Task) run(fn func()) {
	raceDisable()
	<-t.wake
	raceEnable()
	normal := false
	defer t.finish(&normal)
	if t.killed {
		return
	}
	fn()
	normal = true
}

//go:norace
func (t *Task) finish(normal *bool) {
	r := recover()
	if r != nil && !t.killed {
		t.panicV = r
		t.stack = string(debug.Stack())
	} else if !*normal {
		t.goexit = true
	}
	t.done = true
	t.ev = evExit
	RaceRelease(unsafe.Pointer(&ended))
	raceDisable()
	s0.in <- t
	raceEnable()
}

// Block parks the current task until cond holds.
//
//go:norace
func Block(why string, cond func() bool) {
	if cur == nil {
		if !cond() {
			panic("simrt: blocking outside a scheduled run: " + why)
		}
		return
	}
	if cur.killed {
		return
	}
	if cond() {
		return
	}
	cur.cond, cur.blocked, cur.why = cond, true, why
	cur.park(evBlock)
}

// Sleep parks the current task for d units of simulated time.
//
//go:norace
func Sleep(d int64) {
	if cur == nil || cur.killed {
		return
	}
	if d <= 0 {
		cur.park(evYield)
		return
	}
	cur.until = Clock() + d
	cur.blocked, cur.why = true, "sleep"
	cur.park(evBlock)
}

// Clock is simulated nanoseconds: one microsecond per step plus jumps.
//
//go:norace
func Clock() int64 {
	if s0 == nil {
		return Steps() * 1000
	}
	return s0.clock + Steps()*1000
}

// Yield offers a scheduling point.
//
//go:norace
func Yield() {
	if cur != nil && !cur.killed {
		cur.park(evYield)
	}
}

// Exit ends the simulated process with the given status.
//
//go:norace
func Exit(code int) {
	if cur == nil {
		panic(fmt.Sprintf("simrt: exit(%d) outside a run", code))
	}
	if cur.killed {
		runtime.Goexit()
	}
	s0.exitCode = code
	cur.park(evProcExit)
}

// Crash kills the simulated process at this very point.
//
//go:norace
func Crash() {
	if cur == nil || cur.killed {
		return
	}
	cur.park(evCrash)
}

// Run executes main as the first task of a simulated process.
func Run(cfg Config, main func()) Outcome {
	if cfg.Budget == 0 {
		cfg.Budget = 1 << 50
	}
	s := &sched{cfg: cfg, rng: rng.New(rng.Derive(cfg.Seed, 11)), maprng: rng.New(rng.Derive(cfg.Seed, 12)),
		in: make(chan *Task), fin: make(chan struct{}), stalled: -1}
	s0 = s
	base, granted, left = 0, 0, 0
	limit = cfg.Budget
	if cfg.Policy.Kind == "pct" {
		for i := 0; i < cfg.Policy.Depth; i++ {
			s.changeAt = append(s.changeAt, int64(s.rng.U64()%uint64(cfg.Policy.Len+1)))
		}
		sort.Slice(s.changeAt, func(i, j int) bool { return s.changeAt[i] < s.changeAt[j] })
	}
	t := &Task{wake: make(chan struct{})}
	s.register(t)
	start(t, main)
	s.loop()
	RaceAcquire(unsafe.Pointer(&ended))
	cur, s0 = nil, nil
	Unlimited()
	return s.out
}

func (s *sched) register(t *Task) {
	t.id = len(s.tasks)
	t.prio = int64(s.rng.U64() >> 2)
	s.tasks = append(s.tasks, t)
	s.live = append(s.live, t)
	s.nlive++
}

func (s *sched) runnable(t *Task) bool {
	if t.done {
		return false
	}
	if !t.blocked {
		return true
	}
	if t.until > 0 {
		return Clock() >= t.until
	}
	return t.cond != nil && t.cond()
}

func (s *sched) loop() {
	var t *Task = s.tasks[0]
	s.setGrant()
	for {
		// hand over
		cur = t
		t.blocked, t.cond, t.until = false, nil, 0
		raceDisable()
		t.wake <- struct{}{}
		u := <-s.in
		raceEnable()
		if u != t {
			panic("simrt: baton lost")
		}
		cur = nil
		switch t.ev {
		case evSpawn:
			s.register(s.pending)
			s.pending = nil
			// the parent continues; the child is runnable from now on
			if s.forkDecision(t) {
				t = s.pick(t, false, true)
			}
			continue
		case evExit:
			s.nlive--
			for i, x := range s.live {
				if x == t {
					s.live = append(s.live[:i], s.live[i+1:]...)
					break
				}
			}
			if t.panicV != nil {
				s.out.Panic = panicText(t.panicV)
				s.out.Stack = t.stack
				s.out.Exit = 2
				s.teardown()
				return
			}
			if t.id == 0 {
				s.out.Exit = s.exitCode
				s.teardown()
				return
			}
		case evProcExit:
			s.out.Exit = s.exitCode
			s.teardown()
			return
		case evCrash:
			s.out.Crashed = true
			s.out.Exit = 137
			s.teardown()
			return
		case evBudget:
			s.out.OverRun = true
			s.out.Exit = 124
			s.teardown()
			return
		}
		if s.cfg.CrashStep > 0 && Steps() >= s.cfg.CrashStep {
			s.out.Crashed = true
			s.out.Exit = 137
			s.teardown()
			return
		}
		n := s.pick(t, t.ev != evYield, false)
		if n == nil {
			s.out.Deadlock = true
			s.out.Exit = 2
			s.out.Panic = "fatal error: all goroutines are asleep - deadlock!"
			for _, x := range s.tasks {
				if !x.done {
					s.out.Stack += fmt.Sprintf("task %d blocked on %s\n", x.id, x.why)
				}
			}
			s.teardown()
			return
		}
		t = n
	}
}

func panicText(v any) string {
	switch x := v.(type) {
	case error:
		return x.Error()
	default:
		return fmt.Sprint(v)
	}
}

// forkDecision: is a freshly started task allowed to run at once?
func (s *sched) forkDecision(t *Task) bool {
	if s.cfg.IsReplay {
		return s.ri < len(s.cfg.Replay) && s.cfg.Replay[s.ri].Step == Steps() && s.cfg.Replay[s.ri].Fork
	}
	switch s.cfg.Policy.Kind {
	case "lifo":
		return true
	case "walk", "stall":
		return s.rng.Intn(3) == 0
	case "pct":
		return true
	}
	return false
}

// pick decides who runs next. forced: the current task cannot continue.
func (s *sched) pick(t *Task, forced, fork bool) *Task {
	var n *Task
	defer func() {
		if n != nil {
			if s.cfg.Record {
				s.out.Decisions = append(s.out.Decisions, Decision{Steps(), n.id, fork})
			}
			if n != t {
				s.out.Switches++
				if !forced {
					s.out.Preempts++
				}
			}
			x := s.out.Hash ^ uint64(Steps())*0x9e3779b97f4a7c15 ^ uint64(n.id+1)<<48
			s.out.Hash = rng.Derive(x)
			if s.cfg.OnSwitch != nil {
				s.cfg.OnSwitch()
			}
		}
	}()
	var ready []*Task
	for {
		for _, x := range s.live {
			if s.runnable(x) {
				ready = append(ready, x)
			}
		}
		if len(ready) > 0 {
			break
		}
		// let simulated time pass until the first sleeper wakes
		var first *Task
		for _, x := range s.live {
			if !x.done && x.until > 0 && (first == nil || x.until < first.until) {
				first = x
			}
		}
		if first == nil {
			return nil
		}
		s.clock += first.until - Clock()
	}
	has := func(x *Task) bool {
		for _, y := range ready {
			if x == y {
				return true
			}
		}
		return false
	}
	if s.cfg.IsReplay {
		now := Steps()
		for s.ri < len(s.cfg.Replay) && s.cfg.Replay[s.ri].Step <= now {
			d := s.cfg.Replay[s.ri]
			if d.Step == now && d.Fork && !fork {
				break
			}
			s.ri++
			if d.Step == now && d.Task < len(s.tasks) && has(s.tasks[d.Task]) {
				n = s.tasks[d.Task]
				break
			}
		}
		if n == nil {
			if !forced && has(t) {
				n = t
			} else {
				n = ready[0]
			}
		}
		s.setGrant()
		return n
	}
	switch s.cfg.Policy.Kind {
	case "fifo":
		n = ready[0]
		if !forced && has(t) {
			n = t
		}
	case "lifo":
		n = ready[len(ready)-1]
	case "rr":
		n = ready[0]
		for _, x := range ready {
			if t != nil && x.id > t.id {
				n = x
				break
			}
		}
	case "pct":
		for len(s.changeAt) > 0 && s.changeAt[0] <= Steps() {
			s.changeAt = s.changeAt[1:]
			if t != nil {
				t.prio = -int64(len(s.out.Decisions)) - Steps()
			}
		}
		n = ready[0]
		for _, x := range ready {
			if x.prio > n.prio {
				n = x
			}
		}
	case "stall":
		if s.stalled < 0 || Steps() > s.stallUntil {
			s.stalled = ready[s.rng.Intn(len(ready))].id
			s.stallUntil = Steps() + s.rng.Geo(s.cfg.Policy.Gap*20)
		}
		var rest []*Task
		for _, x := range ready {
			if x.id != s.stalled {
				rest = append(rest, x)
			}
		}
		if len(rest) == 0 {
			rest = ready
		}
		n = rest[s.rng.Intn(len(rest))]
	default: // walk
		n = ready[s.rng.Intn(len(ready))]
	}
	s.setGrant()
	return n
}

// setGrant decides how many steps the next task may take before it must ask.
func (s *sched) setGrant() {
	now := Steps()
	g := s.cfg.Budget - now
	if s.cfg.CrashStep > 0 && s.cfg.CrashStep-now < g {
		g = s.cfg.CrashStep - now
	}
	if s.cfg.IsReplay {
		if s.ri < len(s.cfg.Replay) {
			if d := s.cfg.Replay[s.ri].Step - now; d < g {
				g = d
			}
		}
	} else {
		switch s.cfg.Policy.Kind {
		case "fifo", "lifo":
		case "pct":
			if len(s.changeAt) > 0 {
				if d := s.changeAt[0] - now; d < g {
					g = d
				}
			}
		default:
			if s.cfg.Policy.Gap > 0 {
				if d := s.rng.Geo(s.cfg.Policy.Gap); d < g {
					g = d
				}
			}
		}
	}
	if g < 0 {
		g = 0
	}
	grant(g)
}

// teardown kills the remaining tasks one after another.
func (s *sched) teardown() {
	s.out.Steps = Steps()
	s.out.Tasks = len(s.tasks)
	left = 1 << 60
	for _, t := range s.tasks {
		if t.done {
			continue
		}
		t.killed = true
		cur = t
		raceDisable()
		t.wake <- struct{}{}
		for {
			u := <-s.in
			if u.done {
				break
			}
			u.wake <- struct{}{}
		}
		raceEnable()
		cur = nil
	}
}

// ---- map iteration -------------------------------------------------------

type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	k    K
	v    V
}

// MapIter iterates a map in an order decided by the simulator.
func MapIter[K comparable, V any](m map[K]V) *MapIt[K, V] {
	it := &MapIt[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	names := make([]string, len(it.keys))
	idx := make([]int, len(it.keys))
	for i, k := range it.keys {
		names[i] = fmt.Sprint(k)
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return names[idx[a]] < names[idx[b]] })
	r := mapRNG
	if s0 != nil {
		r = s0.maprng
	}
	sorted := make([]K, len(idx))
	for i, j := range idx {
		sorted[i] = it.keys[j]
	}
	if r != nil {
		for i := len(sorted) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			sorted[i], sorted[j] = sorted[j], sorted[i]
		}
	}
	it.keys = sorted
	return it
}

var mapRNG *rng.R

// SeedMaps decides map iteration order outside scheduled runs.
func SeedMaps(seed uint64) { mapRNG = rng.New(rng.Derive(seed, 13)) }

func (it *MapIt[K, V]) Next() bool {
	Y()
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		if v, ok := it.m[k]; ok {
			it.k, it.v = k, v
			return true
		}
	}
	return false
}
func (it *MapIt[K, V]) Key() K { return it.k }
func (it *MapIt[K, V]) Val() V { return it.v }

// ---- package variable reset ----------------------------------------------

var (
	resetSkip = map[string]bool{}
	ResetLog  []string
)

// Init1 notes what a package variable's initialiser costs.
func Init1[T any](name string, start int64, v T) T {
	if Steps()-start > 1_000_000 {
		resetSkip[name] = true
		ResetLog = append(ResetLog, name)
	}
	return v
}

// ResetVar re-runs one package variable's initialiser, except those (constant
// tables) whose initialisation costs more than a million steps.
func ResetVar(name string, f func()) {
	if resetSkip[name] {
		return
	}
	Unlimited()
	f()
	if Steps() > 1_000_000 {
		resetSkip[name] = true
		ResetLog = append(ResetLog, name)
	}
}

func Zero[T any](p *T) {
	var z T
	*p = z
}

// ---- taps ------------------------------------------------------------------

type TapEvent struct {
	Name    string
	Recv    any
	Args    []any
	Results []any
	Depth   int
	Task    int
	Enter   bool
	Ok      bool
}

var TapHandler func(*TapEvent)
var tapDepth int

func TapOn() bool { return TapHandler != nil && !Dead() }

type Tap struct {
	ev *TapEvent
}

func depthRef() *int {
	if cur != nil {
		return &cur.depth
	}
	return &tapDepth
}

// ResetTaps forgets nesting left over from a run that was abandoned.
func ResetTaps() { tapDepth = 0 }

func TapEnter(name string, recv any, args []any) *Tap {
	d := depthRef()
	ev := &TapEvent{Name: name, Recv: recv, Args: args, Depth: *d, Task: TaskID(), Enter: true}
	*d++
	TapHandler(ev)
	return &Tap{ev}
}

func (t *Tap) OK() { t.ev.Ok = true }

func (t *Tap) Exit(results []any) {
	d := depthRef()
	*d = t.ev.Depth
	if TapHandler == nil || Dead() {
		return
	}
	ev := *t.ev
	ev.Enter, ev.Results = false, results
	TapHandler(&ev)
}

// ShortStack keeps the frames of a panic stack that belong to the program.
func ShortStack(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "uniswap-simulator/") && !strings.HasPrefix(l, "uniswap-simulator/zsim/") && i+1 < len(lines) {
			f := strings.TrimSpace(lines[i+1])
			if j := strings.LastIndex(f, " +0x"); j > 0 {
				f = f[:j]
			}
			if j := strings.LastIndexByte(f, '/'); j >= 0 {
				f = f[j+1:]
			}
			if j := strings.LastIndexByte(l, '('); j > 0 {
				l = l[:j]
			}
			out = append(out, strings.TrimPrefix(l, "uniswap-simulator/")+" "+f)
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, " <- ")
}
