// Package worlds holds the simulated worlds: each one drives the real
// (instrumented) code with seeded actors, faults and schedules and judges the
// properties against independent oracles.
package worlds

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zsim/rng"
	"uniswap-simulator/zsim/simrt"
)

// Violation is one broken property, with the step of the trace it was seen at.
type Violation struct {
	Prop  string `json:"property"`
	Kind  string `json:"kind"` // short stable class of the violation
	Msg   string `json:"message"`
	Step  int    `json:"step"`
	Known string `json:"known,omitempty"` // id of the listed finding it matches
}

func (v *Violation) String() string {
	return fmt.Sprintf("[%s/%s] step %d: %s", v.Prop, v.Kind, v.Step, v.Msg)
}

// Report is what one simulated run did.
type Report struct {
	Viol     *Violation
	Known    map[string]string // listed findings met: id -> what failed
	Trace    json.RawMessage
	Hash     uint64 // fingerprint of everything observable that happened
	SimTime  int64  // simulated seconds
	Faults   map[string]int
	Counts   map[string]int
	States   map[uint64]struct{}
	Nontriv  bool
	Sample   string
	NTKey    uint64 // fingerprint that makes the run distinct
	Steps    int64
	Schedule uint64
}

func NewReport() *Report {
	return &Report{Faults: map[string]int{}, Counts: map[string]int{}, States: map[uint64]struct{}{}, Known: map[string]string{}}
}

func (r *Report) mix(xs ...uint64) { r.Hash = rng.Derive(r.Hash, xs...) }

func (r *Report) mixStr(s string) { r.Hash = rng.Derive(r.Hash, fnv(s)) }

func fnv(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (r *Report) state(xs ...uint64) {
	if len(r.States) < 4096 {
		r.States[rng.Derive(7, xs...)] = struct{}{}
	}
}

// World is one simulated system.
type World interface {
	// Run simulates one seed. Everything it decides comes from the seed.
	Run(seed uint64, prop, tier string) *Report
	// Replay repeats a recorded trace.
	Replay(trace json.RawMessage, prop string) *Report
	// Shrink returns a smaller trace with the same kind of violation.
	Shrink(trace json.RawMessage, prop string, v *Violation, more func() bool) json.RawMessage
}

// ---- conversions -----------------------------------------------------------

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

// U converts a (possibly negative) integer to the code's 256-bit type.
func U(x *big.Int) *ui.Int {
	y := x
	if x.Sign() < 0 {
		y = new(big.Int).Add(x, two256)
	}
	var z ui.Int
	w := y.Bits()
	for i := 0; i < len(w) && i < 4; i++ {
		z[i] = uint64(w[i])
	}
	return &z
}

// B reads a 256-bit value as unsigned.
func B(z *ui.Int) *big.Int {
	if z == nil {
		return new(big.Int)
	}
	w := []big.Word{big.Word(z[0]), big.Word(z[1]), big.Word(z[2]), big.Word(z[3])}
	return new(big.Int).SetBits(w)
}

// S reads a 256-bit value as two's complement.
func S(z *ui.Int) *big.Int {
	x := B(z)
	if x.BitLen() == 256 {
		x.Sub(x, two256)
	}
	return x
}

func bi(x int64) *big.Int { return big.NewInt(x) }

func lowWord(x *big.Int) uint64 {
	h := uint64(x.Sign() + 1)
	for _, w := range x.Bits() {
		h = rng.Derive(h, uint64(w))
	}
	return h
}

// ---- calling the code under test --------------------------------------------

// Result of one call into the code under test.
type Call struct {
	Panicked bool
	Over     bool // step budget exceeded
	Killed   bool // killed on purpose at the given step
	Msg      string
	Where    string
	Runtime  bool // a runtime error, not a deliberate refusal
	Steps    int64
}

// Do runs f within a step budget and captures its panic.
func Do(budget int64, f func()) (c Call) { return do(budget, true, f) }

// DoQuiet does not record where the call failed.
func DoQuiet(budget int64, f func()) (c Call) { return do(budget, false, f) }

func do(budget int64, where bool, f func()) (c Call) {
	simrt.Begin(budget)
	defer func() {
		c.Steps = simrt.Steps()
		if r := recover(); r != nil {
			c.Panicked = true
			switch e := r.(type) {
			case simrt.Budget:
				c.Over = true
				c.Msg = fmt.Sprintf("still running after %d steps", c.Steps)
			case error:
				c.Msg = e.Error()
				c.Runtime = strings.Contains(c.Msg, "runtime error")
			default:
				c.Msg = fmt.Sprint(r)
			}
			if where {
				c.Where = simrt.ShortStack(string(debug.Stack()))
			}
		}
		simrt.Unlimited()
	}()
	f()
	return
}

func (c Call) String() string {
	if !c.Panicked {
		return "completed"
	}
	return c.Msg + " at " + c.Where
}

// ---- delta debugging ---------------------------------------------------------

// DDMin removes items while keep(items) stays true.
func DDMin[T any](items []T, more func() bool, keep func([]T) bool) []T {
	n := 2
	for len(items) >= 1 && more() {
		size := (len(items) + n - 1) / n
		reduced := false
		for i := 0; i < len(items) && more(); i += size {
			j := i + size
			if j > len(items) {
				j = len(items)
			}
			rest := append(append([]T(nil), items[:i]...), items[j:]...)
			if keep(rest) {
				items = rest
				reduced = true
				if n > 2 {
					n--
				}
				break
			}
		}
		if !reduced {
			if size <= 1 {
				break
			}
			n *= 2
			if n > len(items) {
				n = len(items)
			}
		}
	}
	return items
}

func sortedKeys[K int | string, V any](m map[K]V) []K {
	var ks []K
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func mustJSON(v any) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// logUniform draws an integer of between lo and hi bits.
func logUniform(r *rng.R, lo, hi int) *big.Int {
	if hi < lo {
		hi = lo
	}
	if lo < 0 {
		lo, hi = 0, max(hi, 0)
	}
	n := r.Range(lo, hi)
	x := new(big.Int)
	for i := 0; i < n; i += 64 {
		x.Lsh(x, 64)
		x.Or(x, new(big.Int).SetUint64(r.U64()))
	}
	if n == 0 {
		return bi(1)
	}
	x.And(x, new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(n)), bi(1)))
	x.SetBit(x, n-1, 1)
	return x
}

func bucket(x *big.Int) uint64 { return uint64(x.BitLen()/8) + uint64(x.Sign()+1)<<32 }

// ---- known findings and world registry ------------------------------------------

// Finding is one recorded defect that was not repaired: the call site and the
// class of violation that fails there.
type Finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Kind     string `json:"kind"`
	Site     string `json:"site"`
}

var findings []Finding

func knownID(prop, kind, site string) string {
	for _, f := range findings {
		if f.Property == prop && f.Kind == kind && f.Site == site {
			return f.ID
		}
	}
	return ""
}

var registry = map[string]World{"pool": PoolWorld{}, "exec": ExecWorld{}, "app": AppWorld{}, "conc": ConcWorld{}}

// Get returns the named world, with the findings listed in the given file.
func Get(name, knownFile string) World {
	if knownFile != "" {
		b, err := os.ReadFile(knownFile)
		if err != nil {
			panic(err)
		}
		var k struct {
			Findings []Finding `json:"findings"`
		}
		if err := json.Unmarshal(b, &k); err != nil {
			panic(err)
		}
		findings = k.Findings
	}
	return registry[name]
}
