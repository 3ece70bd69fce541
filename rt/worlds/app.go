package worlds

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"path"
	"reflect"
	"sort"
	"strconv"
	"strings"

	app "uniswap-simulator/app_main"
	"uniswap-simulator/lib/executor"
	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/simhook"
	strat "uniswap-simulator/lib/strategy"
	ent "uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zsim/disk"
	"uniswap-simulator/zsim/flag"
	"uniswap-simulator/zsim/os"
	"uniswap-simulator/zsim/rng"
	"uniswap-simulator/zsim/simrt"
	"uniswap-simulator/zsim/verifall"
)

// AppWorld: the whole program on a simulated machine - disk, clock, command
// line and scheduler - with I/O faults, crashes, power loss and leftovers.
type AppWorld struct{}

// AppTrace is one scenario: a recording on disk, a command line, leftovers of
// earlier runs, and a sequence of attempts to run the program.
type AppTrace struct {
	Txs      []TxRec   `json:"txs"`
	Layout   uint64    `json:"layout"` // seed of the recording's JSON layout
	Tool     bool      `json:"tool,omitempty"`
	Bound    int       `json:"bound"` // upper bound of the sweep
	Hours    int       `json:"hours,omitempty"`
	File     string    `json:"file,omitempty"`
	Style    int       `json:"style,omitempty"` // how the flags are written
	Corrupt  *Corrupt  `json:"corrupt,omitempty"`
	Left     []Left    `json:"left,omitempty"`
	Attempts []Attempt `json:"attempts"`
}

// Corrupt damages the recording.
type Corrupt struct {
	Kind  string `json:"kind"`
	At    int    `json:"at,omitempty"`    // byte, or per mille of the file
	Rec   int    `json:"rec,omitempty"`   // record
	Field string `json:"field,omitempty"` // field of the record
	Text  string `json:"text,omitempty"`
}

// Left is what an earlier run left behind.
type Left struct {
	Path string `json:"path"`
	Kind string `json:"kind"` // short, long, torn, zeros, empty, foreign, readonly
	Seed uint64 `json:"seed"`
}

// Attempt is one process.
type Attempt struct {
	Policy    simrt.Policy     `json:"policy"`
	Seed      uint64           `json:"seed"`
	Schedule  []simrt.Decision `json:"schedule,omitempty"`
	Exact     bool             `json:"exact,omitempty"` // follow Schedule
	Faults    []disk.Fault     `json:"faults,omitempty"`
	Room      int64            `json:"room,omitempty"` // bytes left on the disk plus one
	Short     bool             `json:"short_reads,omitempty"`
	CrashStep int64            `json:"crash_step,omitempty"`
	PowerLoss uint64           `json:"power_loss,omitempty"`
}

const (
	appFee     = 500
	appBound   = 1 << 16
	appStart   = 30 * 24 * 3600
	appHistory = 100
	appDay     = 24 * 3600
)

var appSqrt, _ = new(big.Int).SetString("1350174849792634181862360983626536", 10)

func (t *AppTrace) name() string {
	if t.File == "" {
		return "1_day.json"
	}
	return t.File
}

// folders: the program makes no folder but results; those a name asks for
// exist.
func (t *AppTrace) folders(w *disk.World) {
	if strings.Contains(t.name(), "/") {
		w.Prepare(path.Join("results", t.name()))
	}
}

func (t *AppTrace) hours() int {
	if t.Hours == 0 {
		return 24
	}
	return t.Hours
}

func (t *AppTrace) args() []string {
	a := []string{"./main"}
	n, f := strconv.Itoa(t.Hours), t.File
	switch t.Style {
	case 1:
		if t.Hours > 0 {
			a = append(a, "-n", n)
		}
		if f != "" {
			a = append(a, "-file", f)
		}
	case 2:
		if f != "" {
			a = append(a, "--file="+f)
		}
		if t.Hours > 0 {
			a = append(a, "--n="+n)
		}
	default:
		if t.Hours > 0 {
			a = append(a, "-n="+n)
		}
		if f != "" {
			a = append(a, "-file="+f)
		}
	}
	return a
}

// ---- the recording ---------------------------------------------------------------

func bigText(x *big.Int) string {
	if x == nil {
		return "0"
	}
	return x.String()
}

// fields lists what the recording says about a transaction, by type.
func (t TxRec) fields(i int) map[string]any {
	m := map[string]any{"type": t.K, "id": t.name(fmt.Sprintf("0x%08x#%d", uint32(i)*2654435761, i)), "timestamp": t.T, "amount0": bigText(t.A0), "amount1": bigText(t.A1)}
	switch t.K {
	case "Swap":
		m["sqrtPriceX96"] = bigText(t.Sqrt)
		m["tick"] = t.Tick
		m["useX96"] = strconv.FormatBool(t.X96)
	case "Mint", "Burn":
		m["amount"] = bigText(t.A)
		m["tickLower"], m["tickUpper"] = t.Lo, t.Hi
	}
	return m
}

// loaded is the transaction a loader must deliver for the record.
func (t TxRec) loaded(i int) ent.Transaction {
	f := t.fields(i)
	e := ent.Transaction{Type: t.K, ID: f["id"].(string), Timestamp: t.T, Amount: new(ui.Int), Amount0: uOrZero(t.A0), Amount1: uOrZero(t.A1), SqrtPriceX96: new(ui.Int)}
	switch t.K {
	case "Swap":
		e.SqrtPriceX96, e.Tick, e.UseX96 = uOrZero(t.Sqrt), t.Tick, t.X96
	case "Mint", "Burn":
		e.Amount, e.TickLower, e.TickUpper = uOrZero(t.A), t.Lo, t.Hi
	}
	return e
}

func sameTx(a, b ent.Transaction) string {
	d := func(what string, x, y any) string { return fmt.Sprintf("%s is %v and was recorded as %v", what, y, x) }
	eq := func(x, y *ui.Int) bool { return x != nil && y != nil && *x == *y }
	switch {
	case a.Type != b.Type:
		return d("type", a.Type, b.Type)
	case a.ID != b.ID:
		return d("id", a.ID, b.ID)
	case a.Timestamp != b.Timestamp:
		return d("timestamp", a.Timestamp, b.Timestamp)
	case !eq(a.Amount, b.Amount):
		return d("amount", S(a.Amount), S(b.Amount))
	case !eq(a.Amount0, b.Amount0):
		return d("amount0", S(a.Amount0), S(b.Amount0))
	case !eq(a.Amount1, b.Amount1):
		return d("amount1", S(a.Amount1), S(b.Amount1))
	case !eq(a.SqrtPriceX96, b.SqrtPriceX96):
		return d("sqrtPriceX96", S(a.SqrtPriceX96), S(b.SqrtPriceX96))
	case a.Tick != b.Tick:
		return d("tick", a.Tick, b.Tick)
	case a.TickLower != b.TickLower:
		return d("tickLower", a.TickLower, b.TickLower)
	case a.TickUpper != b.TickUpper:
		return d("tickUpper", a.TickUpper, b.TickUpper)
	case a.UseX96 != b.UseX96:
		return d("useX96", a.UseX96, b.UseX96)
	}
	return ""
}

// recording writes the data file, its layout drawn from the seed.
func (t *AppTrace) recording() []byte {
	if t.Tool {
		es := make([]ent.Transaction, len(t.Txs))
		for i, x := range t.Txs {
			es[i] = x.loaded(i)
		}
		var b []byte
		c := Do(1<<40, func() {
			var err error
			if b, err = json.Marshal(es); err != nil {
				panic(err)
			}
		})
		if c.Panicked {
			return nil
		}
		return b
	}
	r := rng.New(t.Layout)
	sp := func() string {
		switch r.Intn(6) {
		case 0:
			return " "
		case 1:
			return "\n"
		case 2:
			return "\t"
		}
		return ""
	}
	if t.Layout&1 == 0 {
		sp = func() string { return "" }
	}
	order := []string{"type", "id", "timestamp", "amount0", "amount1", "amount", "sqrtPriceX96", "tick", "tickLower", "tickUpper", "useX96"}
	var b bytes.Buffer
	b.WriteString(sp() + "[")
	for i, x := range t.Txs {
		if i > 0 {
			b.WriteString(sp() + ",")
		}
		b.WriteString(sp() + "{")
		f := x.fields(i)
		if r.P(0.3) {
			for k := len(order) - 1; k > 0; k-- {
				j := r.Intn(k + 1)
				order[k], order[j] = order[j], order[k]
			}
		}
		first := true
		for _, k := range order {
			v, ok := f[k]
			if !ok {
				continue
			}
			if v == "false" && k == "useX96" && r.P(0.2) {
				continue // as older recordings do
			}
			if n, isInt := v.(int); isInt && n == 0 && k != "timestamp" && r.P(0.3) {
				continue // the tool leaves zeros out
			}
			if !first {
				b.WriteString("," + sp())
			}
			first = false
			j, _ := json.Marshal(v)
			fmt.Fprintf(&b, "%q%s:%s%s", k, sp(), sp(), j)
		}
		if r.P(0.1) && !first {
			b.WriteString(`, "note": {"x": [1, "2"]}`)
		}
		b.WriteString("}")
	}
	b.WriteString(sp() + "]" + sp())
	return b.Bytes()
}

const dataPath = "data/transactions_insample.json"

// damage applies the corruption; it reports whether the machine, rather than
// the content, is what stops the loading.
func (t *AppTrace) damage(w *disk.World) {
	data := t.recording()
	c := t.Corrupt
	if c == nil {
		w.Put(dataPath, data)
		return
	}
	edit := func(f func(m map[string]any)) {
		var recs []map[string]any
		d := json.NewDecoder(bytes.NewReader(data))
		d.UseNumber()
		if err := d.Decode(&recs); err != nil || len(recs) == 0 {
			return
		}
		f(recs[c.Rec%len(recs)])
		data, _ = json.Marshal(recs)
	}
	switch c.Kind {
	case "missing":
		return
	case "directory":
		w.Put(dataPath+"/x", nil)
		return
	case "unreadable":
		w.Put(dataPath, data)
		w.Files[w.Abs(dataPath)].Mode = 0
		return
	case "truncated":
		k := len(bytes.TrimRight(data, " \t\n")) * c.At / 1000
		data = data[:k]
	case "number": // a numeric text replaced
		edit(func(m map[string]any) { m[c.Field] = c.Text })
	case "integer": // an integer replaced by something else
		edit(func(m map[string]any) { m[c.Field] = json.RawMessage(c.Text) })
	case "trailing":
		data = append(append([]byte(nil), data...), c.Text...)
	case "zeroed": // a torn sector
		k := len(data) * c.At / 1000
		n := min(len(data)-k, 512)
		for i := 0; i < n; i++ {
			data[k+i] = 0
		}
		if n == 0 {
			data = append(data, 0)
		}
	case "structure": // one structural byte lost
		var at []int
		str := false
		for i := 0; i < len(data); i++ {
			switch ch := data[i]; {
			case ch == '\\' && str:
				i++
			case ch == '"':
				str = !str
				at = append(at, i)
			case !str && strings.IndexByte("{}[]:,", ch) >= 0:
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			k := at[len(at)*c.At/1000%len(at)]
			data = append(append([]byte(nil), data[:k]...), data[k+1:]...)
			if json.Valid(data) {
				data = data[:len(data)/2]
			}
		}
	}
	w.Put(dataPath, data)
}

func leftover(l Left, full []byte) []byte {
	r := rng.New(l.Seed)
	switch l.Kind {
	case "short":
		return []byte("{\"start_amount\": \"1\"}\n")
	case "long":
		return append(append(append([]byte(nil), full...), full...), bytes.Repeat([]byte("x"), 1+r.Intn(5000))...)
	case "torn":
		if len(full) == 0 {
			return nil
		}
		return append([]byte(nil), full[:r.Intn(len(full))]...)
	case "zeros":
		return make([]byte, len(full)+r.Intn(100))
	case "foreign":
		b := make([]byte, r.Intn(3000))
		for i := range b {
			b[i] = byte(r.U64())
		}
		return b
	case "same":
		return append([]byte(nil), full...)
	}
	return nil
}

// ---- one process -------------------------------------------------------------------

type ranRun struct {
	mul    int
	ended  bool
	values []*big.Int
}

type procResult struct {
	race     string // first report of the race detector
	out      simrt.Outcome
	disk     *disk.World
	runs     []*ranRun         // runs of the sweep, in starting order
	loaded   []ent.Transaction // what the first run was given
	early    string            // a write to the results before all runs had ended
	bound    int
	asked    int // by the program
	complete bool
}

func execField(e *executor.Execution, name string) (v reflect.Value) {
	v = reflect.ValueOf(e)
	if v.Kind() != reflect.Pointer || v.IsNil() {
		return reflect.Value{}
	}
	f := v.Elem().FieldByName(name)
	if f.IsValid() && !f.CanInterface() {
		return reflect.Value{}
	}
	return f
}

func mulOf(s any) int {
	v := reflect.Indirect(reflect.ValueOf(s))
	if v.Kind() != reflect.Struct {
		return 0
	}
	f := v.FieldByName("MultiplierX10")
	if !f.IsValid() || !f.CanInterface() {
		return 0
	}
	if u, ok := f.Interface().(*ui.Int); ok && u != nil {
		return int(u[0])
	}
	return 0
}

// process runs the program once on the machine.
func (t *AppTrace) process(w *disk.World, a Attempt, budget int64, record bool) *procResult {
	verifall.Reset()
	simrt.ResetTaps()
	simrt.SeedMaps(a.Seed)
	res := &procResult{disk: w, bound: 1 << 16}
	simhook.Bound = func(n int) int {
		res.asked = n
		if t.Bound > 0 && t.Bound < n {
			n = t.Bound
		}
		res.bound = n
		return n
	}
	disk.W = w
	os.Args = t.args()
	os.ResetTemp()
	flag.CommandLine = flag.Fresh()
	w.Args = os.Args
	w.Faults = append([]disk.Fault(nil), a.Faults...)
	w.ShortReads, w.ReadSeed = a.Short, a.Seed
	w.Capacity = 0
	if a.Room > 0 {
		var used int64
		for _, n := range w.Files {
			used += int64(len(n.Data))
		}
		w.Capacity = used + a.Room - 1
	}
	byExec := map[any]*ranRun{}
	live := 0
	simrt.TapHandler = func(ev *simrt.TapEvent) {
		if ev.Name != "Execution.Run" {
			return
		}
		e, ok := ev.Recv.(*executor.Execution)
		if !ok {
			return
		}
		if ev.Enter {
			r := &ranRun{}
			byExec[e] = r
			res.runs = append(res.runs, r)
			live++
			if f := execField(e, "Strategy"); f.IsValid() {
				r.mul = mulOf(f.Interface())
			}
			if len(res.runs) == 1 {
				if f := execField(e, "Transactions"); f.IsValid() {
					if x, ok := f.Interface().([]ent.Transaction); ok {
						for _, y := range x {
							z := y
							for _, p := range []**ui.Int{&z.Amount, &z.Amount0, &z.Amount1, &z.SqrtPriceX96} {
								if *p != nil {
									v := **p
									*p = &v
								}
							}
							res.loaded = append(res.loaded, z)
						}
					}
				}
			}
			return
		}
		r := byExec[e]
		if r == nil || !ev.Ok {
			return
		}
		r.ended = true
		live--
		if f := execField(e, "AmountUSDSnapshots"); f.IsValid() {
			if x, ok := f.Interface().([]*ui.Int); ok {
				for _, v := range x {
					r.values = append(r.values, B(v))
				}
			}
		}
	}
	if simrt.RaceBuild {
		simrt.TapHandler = nil // only the race detector judges
	}
	w.OnOp = func(kind, p string) {
		if res.early == "" && (kind == "create" || kind == "write" || kind == "rename") && strings.HasPrefix(p, w.Abs("results")+"/") {
			if live > 0 || len(res.runs) < res.bound-1 {
				res.early = fmt.Sprintf("%s of %s when %d runs had been started and %d were still going, of %d", kind, p, len(res.runs), live, res.bound-1)
			}
		}
	}
	cfg := simrt.Config{Seed: a.Seed, Policy: a.Policy, Budget: budget, CrashStep: a.CrashStep, Record: record, IsReplay: a.Exact, Replay: a.Schedule}
	races := simrt.RaceErrors()
	res.out = simrt.Run(cfg, app.VerifMain)
	if simrt.RaceErrors() > races {
		for _, x := range newRaces() {
			if x.program && res.race == "" {
				res.race = x.text
			}
		}
	}
	simrt.TapHandler = nil
	w.OnOp = nil
	simrt.SeedMaps(1)
	res.complete = res.out.Exit == 0 && !res.out.Crashed && !res.out.OverRun && !res.out.Deadlock
	return res
}

// ---- the reference -------------------------------------------------------------------

// solo runs one parameter value alone, outside the program.
func (t *AppTrace) solo(mul int) (vals []*big.Int, c Call) {
	verifall.Reset()
	simrt.ResetTaps()
	simrt.SeedMaps(1)
	es := make([]ent.Transaction, len(t.Txs))
	for i, x := range t.Txs {
		es[i] = x.loaded(i)
	}
	c = DoQuiet(1<<40, func() {
		p := pool.NewPool("USDC", "WETH", appFee, U(appSqrt))
		s := strat.NewBollingerBandsFillUpStrategy(ui.NewInt(1_000_000), ui.NewInt(366874042000000), p, appHistory, mul)
		e := executor.CreateExecution(s, es[0].Timestamp+appStart, 90000000000000, t.hours()*3600, 3600, appDay/appHistory, es)
		e.Run()
		for _, v := range e.AmountUSDSnapshots {
			vals = append(vals, B(v))
		}
	})
	return
}

type figures struct {
	roi, mdd           float64
	std, down, var95   [3]float64
	stdTol             [3]float64
	finite             bool
	lo, hi             float64
	n                  [3]int
	nearRank, ranksOff [3][2]float64
}

func fl(x *big.Int) float64 {
	f, _ := new(big.Float).SetInt(x).Float64()
	return f
}

// stats computes the stated figures of a value series.
func stats(vals []*big.Int) (f figures) {
	f.finite = true
	first, last := fl(vals[0]), fl(vals[len(vals)-1])
	if first == 0 {
		f.finite = false
		return
	}
	f.roi = (last - first) / first
	peak := first
	if len(vals) > 1 {
		for _, v := range vals {
			x := fl(v)
			if x > peak {
				peak = x
			}
			if d := (x - peak) / peak; d < f.mdd {
				f.mdd = d
			}
		}
	}
	for k, step := range []int{1, 24, 168} {
		var s []float64
		for i := 0; i < len(vals); i += step {
			s = append(s, fl(vals[i]))
		}
		f.n[k] = len(s)
		if len(s) <= 2 {
			continue
		}
		var rs []float64
		for i := 1; i < len(s); i++ {
			if s[i] == 0 || s[i-1] == 0 {
				f.finite = false
				return
			}
			rs = append(rs, math.Log(s[i]/s[i-1]))
		}
		n := float64(len(rs))
		mean, sq, neg := 0.0, 0.0, 0.0
		for _, r := range rs {
			mean += r
			sq += r * r
			if r < 0 {
				neg += r * r
			}
		}
		mean /= n
		va := 0.0
		for _, r := range rs {
			va += (r - mean) * (r - mean)
		}
		va /= n - 1
		f.std[k] = math.Sqrt(va)
		f.stdTol[k] = 1e-13 * (1 + n) * sq // allowed error of the variance
		f.down[k] = math.Sqrt(neg / n)
		sort.Float64s(rs)
		f.var95[k] = rs[len(rs)/20]
	}
	return
}

type entry struct {
	mul, upd, window int
	end              string
	num              map[string]float64
}

type saved struct {
	amount     string
	start, end int
	entries    []entry
}

var numFields = []string{"return_on_investment", "max_draw_down",
	"standard_deviation_hourly", "standard_deviation_daily", "standard_deviation_weekly",
	"downward_deviation_hourly", "downward_deviation_daily", "downward_deviation_weekly",
	"VaR95_hourly", "VaR95_daily", "VaR95_weekly"}

// parseSaved reads a results file independently of the program.
func parseSaved(b []byte) (*saved, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var top map[string]any
	if err := d.Decode(&top); err != nil {
		return nil, fmt.Errorf("not a JSON document: %v", err)
	}
	if rest := bytes.TrimSpace(b[d.InputOffset():]); len(rest) > 0 {
		return nil, fmt.Errorf("%d bytes after the JSON document", len(rest))
	}
	num := func(m map[string]any, k string) (int, error) {
		n, ok := m[k].(json.Number)
		if !ok {
			return 0, fmt.Errorf("field %s is %v", k, m[k])
		}
		x, err := strconv.Atoi(n.String())
		return x, err
	}
	s := &saved{}
	var err error
	if a, ok := top["start_amount"].(string); ok {
		s.amount = a
	}
	if s.start, err = num(top, "start_time"); err != nil {
		return nil, err
	}
	if s.end, err = num(top, "end_time"); err != nil {
		return nil, err
	}
	list, ok := top["results"].([]any)
	if !ok {
		return nil, fmt.Errorf("results is not a list")
	}
	for i, x := range list {
		m, ok := x.(map[string]any)
		if !ok {
			return nil, fmt.Errorf("entry %d is not an object", i)
		}
		var e entry
		if e.mul, err = num(m, "multiplierX10"); err != nil {
			return nil, err
		}
		if e.upd, err = num(m, "update_interval"); err != nil {
			return nil, err
		}
		if e.window, err = num(m, "history_window"); err != nil {
			return nil, err
		}
		e.end, _ = m["end_amount"].(string)
		e.num = map[string]float64{}
		for _, k := range numFields {
			n, ok := m[k].(json.Number)
			if !ok {
				return nil, fmt.Errorf("entry %d: %s is %v", i, k, m[k])
			}
			if e.num[k], err = n.Float64(); err != nil {
				return nil, err
			}
		}
		s.entries = append(s.entries, e)
	}
	return s, nil
}

func nearF(got, want float64) bool {
	d := math.Abs(got - want)
	return d <= 1e-9*math.Abs(want)+1e-13
}

// judgeFigures compares an entry with the statistics of a value series.
func judgeFigures(e entry, vals []*big.Int) string {
	if want := vals[len(vals)-1].String(); e.end != want {
		return fmt.Sprintf("end amount is %s, the last value %s", e.end, want)
	}
	f := stats(vals)
	if !f.finite {
		return ""
	}
	bad := func(k string, want float64) string {
		return fmt.Sprintf("%s is %v, the run's values give %v", k, e.num[k], want)
	}
	if !nearF(e.num["return_on_investment"], f.roi) {
		return bad("return_on_investment", f.roi)
	}
	if !nearF(e.num["max_draw_down"], f.mdd) {
		return bad("max_draw_down", f.mdd)
	}
	for i, p := range []string{"hourly", "daily", "weekly"} {
		k := "standard_deviation_" + p
		if g := e.num[k]; math.Abs(g*g-f.std[i]*f.std[i]) > f.stdTol[i]+1e-9*f.std[i]*f.std[i] || g < 0 {
			return bad(k, f.std[i])
		}
		if k = "downward_deviation_" + p; !nearF(e.num[k], f.down[i]) {
			return bad(k, f.down[i])
		}
		if k = "VaR95_" + p; !nearF(e.num[k], f.var95[i]) {
			return bad(k, f.var95[i])
		}
	}
	return ""
}

// ---- one scenario ------------------------------------------------------------------------

type appRun struct {
	t     *AppTrace
	prop  string
	rep   *Report
	solos map[int][]*big.Int
	ended bool
	// schedule of the attempt that broke the property
	sched []simrt.Decision
	at    int
}

func (r *appRun) fail(prop, kind, f string, a ...any) {
	if r.ended {
		return
	}
	if prop != r.prop {
		r.rep.Counts["other-property alarms"]++
		return
	}
	if id := knownID(prop, kind, ""); id != "" {
		r.rep.Known[id] = fmt.Sprintf(f, a...)
		return
	}
	r.rep.Viol = &Violation{Prop: prop, Kind: kind, Msg: fmt.Sprintf(f, a...), Step: r.at}
	r.ended = true
}

func (r *appRun) soloOf(mul int) []*big.Int {
	if v, ok := r.solos[mul]; ok {
		return v
	}
	v, c := r.t.solo(mul)
	if c.Panicked {
		v = nil
	}
	r.solos[mul] = v
	return v
}

func died(p *procResult) string {
	o := p.out
	switch {
	case o.Deadlock:
		return "never ends: " + o.Stack
	case o.OverRun:
		return fmt.Sprintf("is still going after %d steps", o.Steps)
	case o.Panic != "":
		return "panics: " + o.Panic + " at " + simrt.ShortStack(o.Stack)
	case o.Crashed:
		return "was killed"
	}
	return fmt.Sprintf("exits with status %d", o.Exit)
}

// mainFault: did it die in the main program rather than inside a run?
func inRun(p *procResult) bool {
	return strings.Contains(p.out.Stack, "executor.(*Execution)") || strings.Contains(p.out.Stack, "/lib/executor/")
}

func (r *appRun) target() string { return path.Join("results", r.t.name()) }

func runApp(t *AppTrace, prop string, record bool) *appRun {
	r := &appRun{t: t, prop: prop, rep: NewReport(), solos: map[int][]*big.Int{}, at: -1}
	rep := r.rep
	if len(t.Txs) == 0 {
		return r
	}
	span := int64(t.Txs[len(t.Txs)-1].T - t.Txs[0].T)
	n := int64(t.Bound)
	budget := 20_000_000 + n*(2_000_000+int64(len(t.Txs))*400_000)

	if t.Tool && !simrt.RaceBuild {
		r.judgeTool()
		if r.ended {
			return r
		}
	}
	// the undisturbed run, on a machine nobody has used
	w0 := disk.New()
	(&AppTrace{Txs: t.Txs, Layout: t.Layout, Tool: t.Tool}).damage(w0)
	t.folders(w0)
	ref := t.process(w0, Attempt{Policy: simrt.Policy{Kind: "fifo"}, Seed: 1}, budget, false)
	rep.Steps += ref.out.Steps
	rep.SimTime += span * n
	r.outcome(ref)
	full, _ := w0.Get(r.target())
	full = append([]byte(nil), full...)
	if !simrt.RaceBuild {
		r.judgeLoad(ref, true)
	}
	if simrt.RaceBuild {
	} else if ref.complete {
		r.judgeFile(ref, nil)
	} else if !r.ended {
		r.judgeRefused(ref)
	}
	if r.ended || !ref.complete {
		return r
	}
	if simrt.RaceBuild && ref.out.Steps > 12_000_000 && t.Bound < 4999 {
		rep.Counts["processes too long for the race detector"]++
		return r
	}
	// the machine of the scenario
	w := disk.New()
	t.damage(w)
	t.folders(w)
	others := map[string][]byte{}
	for _, l := range t.Left {
		b := leftover(l, full)
		w.Put(path.Join("results", l.Path), b)
		if l.Path != t.name() {
			others[path.Join("results", l.Path)] = b
		}
		rep.Faults["leftover of an earlier run: "+l.Kind]++
	}
	// somebody may have saved results under the very names the program uses on
	// its way
	if prop == "C10" && t.Layout&64 != 0 {
		for _, n := range sortedKeys(w0.Touched) {
			rel := strings.TrimPrefix(n, w.Abs("results")+"/")
			o := path.Join("results", rel)
			if rel == n || w.Abs(o) == w.Abs(r.target()) || others[o] != nil || w0.IsDir(o) {
				continue
			}
			b := leftover(Left{rel, "foreign", t.Layout}, full)
			w.Put(o, b)
			others[o] = b
			rep.Faults["results saved under a name the program uses meanwhile"]++
		}
	}
	for i, a := range t.Attempts {
		if r.ended {
			break
		}
		r.at = i
		before, had := w.Get(r.target())
		before = append([]byte(nil), before...)
		w = w.Restart()
		limit := budget
		if m := ref.out.Steps*20 + 5_000_000; m > limit {
			limit = m
		}
		p := t.process(w, a, limit, record && a.Policy.Kind != "fifo")
		rep.Steps += p.out.Steps
		rep.SimTime += span * n
		rep.Counts["processes"]++
		r.outcome(p)
		r.note(a, p)
		if record {
			r.sched = p.out.Decisions
		}
		for _, o := range sortedKeys(others) {
			if b, ok := w.Get(o); !ok || !bytes.Equal(b, others[o]) {
				r.fail("C10", "other file touched", "results saved earlier as %s have been changed by a run that saves to %s", o, r.target())
			}
		}
		if !simrt.RaceBuild {
			r.judgeAttempt(a, p, full, before, had)
		}
		if a.PowerLoss != 0 && p.out.Crashed {
			w.LosePower(rng.New(a.PowerLoss))
			rep.Faults["power loss"]++
		}
	}
	return r
}

func (r *appRun) outcome(p *procResult) {
	rep := r.rep
	rep.mix(uint64(p.out.Exit), uint64(p.out.Steps), p.out.Hash, uint64(p.out.Tasks))
	rep.mixStr(p.out.Panic)
	b, _ := p.disk.Get(r.target())
	rep.mixStr(string(b))
	for _, l := range p.disk.Log {
		rep.mixStr(l)
	}
	rep.mixStr(p.disk.Stdout.String())
	if p.out.Switches > 0 {
		rep.Schedule = rng.Derive(rep.Schedule, p.out.Hash)
	}
	if p.race != "" {
		rep.Counts["reports of the race detector"]++
		for _, x := range []string{"C08", "C09"} {
			r.fail(x, "unsynchronised access", "%s", p.race)
		}
	}
	fired := fnv(strings.Join(p.disk.FiredAt, "|"))
	rep.state(uint64(p.out.Exit), fired, uint64(len(p.disk.Log)), rng.Derive(p.out.Hash)%1024, uint64(len(p.runs)))
}

func (r *appRun) note(a Attempt, p *procResult) {
	rep := r.rep
	for k, n := range p.disk.Fired {
		rep.Faults[k] += n
	}
	if p.out.Crashed {
		rep.Faults["crash"]++
	}
	rep.Counts["preemptions"] += int(p.out.Preempts)
	rep.Counts["task switches"] += int(p.out.Switches)
	rep.Counts["tasks"] += p.out.Tasks
	if a.Policy.Kind != "fifo" {
		rep.Faults["schedule: "+a.Policy.Kind]++
	}
	if p.complete {
		rep.Counts["processes that succeeded"]++
	}
}

// disturbed: was a fault injected that the program could notice?
func disturbed(p *procResult) bool { return len(p.disk.FiredAt) > 0 || p.out.Crashed }

func (r *appRun) judgeAttempt(a Attempt, p *procResult, full, before []byte, had bool) {
	t := r.t
	w := p.disk
	name := r.target()
	if t.Corrupt != nil {
		r.judgeCorrupt(p, before, had)
		return
	}
	loadFault, saveFault := "", ""
	for _, f := range w.FiredAt {
		kind, pth, _ := strings.Cut(f, " ")
		switch {
		case strings.HasSuffix(pth, "insample.json") && (kind == "open" || kind == "read" || kind == "stat" || kind == "close"):
			if kind != "close" && kind != "stat" {
				loadFault = f
			}
		case strings.HasPrefix(pth, w.Abs("results")+"/") && (kind == "create" || kind == "write" || kind == "close" || kind == "rename" || kind == "sync"):
			saveFault = f
		}
	}
	if loadFault != "" && !p.out.Crashed {
		b, ok := w.Get(name)
		switch {
		case p.complete:
			r.fail("C11", "carries on after a failed read", "%s failed, yet the program went on and exits with status 0", loadFault)
		case ok != had || !bytes.Equal(b, before):
			r.fail("C11", "results after a failed read", "%s failed, yet the results file was written", loadFault)
		case len(p.runs) > 0:
			r.fail("C11", "carries on after a failed read", "%s failed, yet %d runs were started", loadFault, len(p.runs))
		}
	} else {
		r.judgeLoad(p, false)
	}
	if p.complete {
		b, ok := w.Get(name)
		switch {
		case saveFault != "":
			r.fail("C10", "failure not reported", "%s failed, yet the program exits with status 0 (%d of %d bytes on disk)", saveFault, len(b), len(full))
		case !ok:
			r.fail("C10", "results missing", "the program exits with status 0 but %s does not exist", name)
		case !bytes.Equal(b, full):
			what := fmt.Sprintf("%d bytes", len(b))
			if _, err := parseSaved(b); err != nil {
				what = err.Error()
			}
			if t.sameSchedule(a) {
				r.fail("C10", "results differ", "the program exits with status 0 but %s is not what an undisturbed run writes (%d bytes): %s", name, len(full), what)
			} else if _, err := parseSaved(b); err != nil {
				r.fail("C10", "results incomplete", "the program exits with status 0 but %s is incomplete: %s", name, what)
			}
		}
		r.judgeFile(p, full)
		return
	}
	if !disturbed(p) {
		// nothing went wrong outside, and the undisturbed run succeeded
		if t.sameSchedule(a) {
			r.fail("C10", "cannot be run again", "after earlier failed or interrupted runs the program no longer succeeds: it %s", died(p))
		} else if !inRun(p) {
			r.fail("C09", "sweep does not complete", "under this schedule of the runs the program %s", died(p))
		}
	}
	if p.early != "" {
		r.fail("C09", "saved early", "saving began before every run had finished: %s", p.early)
	}
}

func (t *AppTrace) sameSchedule(a Attempt) bool { return a.Policy.Kind == "fifo" }

// judgeTool: what the tool writes out must say what the transaction is.
func (r *appRun) judgeTool() {
	t := r.t
	b := t.recording()
	if b == nil {
		r.fail("C11", "cannot write a transaction", "writing the transactions out fails")
		return
	}
	var recs []map[string]any
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&recs); err != nil || len(recs) != len(t.Txs) {
		r.fail("C11", "written out wrongly", "%d transactions are written out as %d records (%v)", len(t.Txs), len(recs), err)
		return
	}
	for i, x := range t.Txs {
		for k, v := range x.fields(i) {
			got := recs[i][k]
			want := v
			if n, ok := v.(int); ok {
				if got == nil && n == 0 {
					continue
				}
				want = json.Number(strconv.Itoa(n))
			}
			if got == nil && v == "" {
				continue
			}
			if got != want {
				r.fail("C11", "written out wrongly", "transaction %d (%s): %s is %v and is written out as %v", i, x.K, k, v, got)
				return
			}
		}
	}
}

// judgeLoad: the runs got exactly the recorded transactions.
func (r *appRun) judgeLoad(p *procResult, undisturbed bool) {
	t := r.t
	if len(p.runs) == 0 {
		if !disturbed(p) && !p.complete && p.bound > 1 {
			r.fail("C11", "valid recording refused", "the program does not get as far as a single run on an intact recording of %d transactions: it %s", len(t.Txs), died(p))
		}
		return
	}
	if p.loaded == nil && len(t.Txs) > 0 {
		if f := execField(&executor.Execution{}, "Transactions"); !f.IsValid() {
			return
		}
	}
	r.rep.Counts["recordings loaded"]++
	if len(p.loaded) != len(t.Txs) {
		r.fail("C11", "loaded wrongly", "%d transactions recorded, %d loaded", len(t.Txs), len(p.loaded))
		return
	}
	for i, x := range t.Txs {
		if d := sameTx(x.loaded(i), p.loaded[i]); d != "" {
			r.fail("C11", "loaded wrongly", "transaction %d of %d (%s): %s", i, len(t.Txs), x.K, d)
			return
		}
	}
}

// judgeCorrupt: the program must stop before any result.
func (r *appRun) judgeCorrupt(p *procResult, before []byte, had bool) {
	if p.out.Crashed {
		return
	}
	what := fmt.Sprintf("%+v", *r.t.Corrupt)
	r.rep.Faults["recording "+r.t.Corrupt.Kind]++
	b, ok := p.disk.Get(r.target())
	switch {
	case p.complete:
		r.fail("C11", "damaged recording accepted", "the recording is damaged (%s), yet the program exits with status 0", what)
	case ok != had || !bytes.Equal(b, before):
		r.fail("C11", "results of a damaged recording", "the recording is damaged (%s), yet the results file was written", what)
	case p.out.OverRun || p.out.Deadlock:
		r.fail("C11", "damaged recording", "the recording is damaged (%s) and the program %s", what, died(p))
	case len(p.runs) > 0:
		r.fail("C11", "damaged recording accepted", "the recording is damaged (%s), yet %d runs were started", what, len(p.runs))
	}
}

// judgeRefused: the undisturbed run did not succeed.
func (r *appRun) judgeRefused(p *procResult) {
	if len(p.runs) == 0 {
		return // C11's matter, reported there
	}
	ok := true
	finite := true
	n := p.bound - 1
	if n > 40 {
		n = 40
	}
	for m := 1; m <= n && ok; m++ {
		v := r.soloOf(m)
		if v == nil {
			ok = false
			break
		}
		if f := stats(v); !f.finite {
			finite = false
		}
	}
	if !ok {
		r.rep.Counts["scenarios whose runs fail by themselves"]++
		return
	}
	done := 0
	for _, x := range p.runs {
		if x.ended {
			done++
		}
	}
	if inRun(p) {
		// a run that dies, although none does alone (all were tried)
		if finite && p.bound-1 <= n {
			r.fail("C09", "sweep does not complete", "every run succeeds alone, but one of the program's %d runs does not: the program %s", n, died(p))
			return
		}
		r.rep.Counts["other-property alarms"]++
		return
	}
	if done == p.bound-1 && finite {
		r.fail("C19", "cannot report", "all %d runs ended and their figures are finite, but the program %s", done, died(p))
	}
	if finite {
		r.fail("C09", "sweep does not complete", "every run succeeds alone, but the program %s (%d runs started, %d ended of %d)", died(p), len(p.runs), done, p.bound-1)
	}
}

// judgeFile judges the results file of a completed sweep.
func (r *appRun) judgeFile(p *procResult, full []byte) {
	t := r.t
	if r.ended || r.prop != "C09" && r.prop != "C19" && r.prop != "C10" {
		return
	}
	if disturbed(p) && full == nil {
		return
	}
	b, ok := p.disk.Get(r.target())
	if !ok {
		r.fail("C10", "results missing", "the program exits with status 0 but %s does not exist", r.target())
		r.fail("C09", "results missing", "the program exits with status 0 but %s does not exist", r.target())
		return
	}
	s, err := parseSaved(b)
	if err != nil {
		r.fail("C10", "results incomplete", "the program exits with status 0 but %s is not complete: %v", r.target(), err)
		if len(b) > 0 {
			r.fail("C09", "unusable results", "%s: %v", r.target(), err)
		}
		return
	}
	n := p.bound - 1
	if p.asked != 0 && p.asked != appBound {
		r.fail("C09", "sweep size", "the sweep asks for the parameters below %d; configured are those below %d", p.asked, appBound)
	}
	if len(s.entries) != n {
		r.fail("C09", "entries", "%d runs, but %d entries in the results", n, len(s.entries))
		r.fail("C10", "results incomplete", "%d runs, but %d entries in the results", n, len(s.entries))
		return
	}
	if r.prop == "C10" {
		return
	}
	r.rep.Counts["result files judged"]++
	r.rep.Counts["entries judged"] += n
	if p.early != "" {
		r.fail("C09", "saved early", "saving began before every run had finished: %s", p.early)
	}
	if s.amount != "2000000" {
		r.fail("C09", "header", "start_amount is %q", s.amount)
	}
	if a, z := t.Txs[0].T, t.Txs[len(t.Txs)-1].T; s.start != a || s.end != z {
		r.fail("C09", "header", "time span is %d to %d, the data's is %d to %d", s.start, s.end, a, z)
	}
	own := map[int]*ranRun{}
	for _, x := range p.runs {
		if own[x.mul] != nil {
			own[x.mul] = &ranRun{mul: -1}
			continue
		}
		own[x.mul] = x
	}
	for i, e := range s.entries {
		m := i + 1
		if e.mul != m {
			r.fail("C09", "wrong place", "entry %d of %d belongs to parameter %d", i, n, e.mul)
			return
		}
		if e.upd != t.hours()*3600 || e.window != appDay {
			r.fail("C09", "wrong setting", "entry %d: update interval %d and history window %d, configured %d and %d", i, e.upd, e.window, t.hours()*3600, appDay)
			return
		}
		if r.prop == "C19" {
			vals := r.soloOf(m)
			if x := own[m]; x != nil && x.mul == m && x.ended && len(x.values) > 0 {
				vals = x.values
				// the figures are called hourly, daily and weekly: so the values
				// must be one hour apart
				if n <= 64 || m%977 == 1 {
					if h := r.soloOf(m); len(h) > 0 && len(h) != len(vals) {
						r.fail("C19", "not hourly", "run of parameter %d recorded %d values; one per hour makes %d", m, len(vals), len(h))
						return
					}
				}
			}
			if len(vals) == 0 {
				continue
			}
			r.rep.Counts["figures checked"] += 12
			if len(vals) > 504 {
				r.rep.Counts["runs with weekly figures"]++
			} else if len(vals) > 72 {
				r.rep.Counts["runs with daily figures"]++
			}
			if len(vals) < 3 {
				r.rep.Counts["runs of fewer than three values"]++
			}
			if d := judgeFigures(e, vals); d != "" {
				r.fail("C19", "figures", "entry of parameter %d (%d values): %s", m, len(vals), d)
				return
			}
			continue
		}
		// C09: the entry is that of this very run
		var vals []*big.Int
		if n <= 64 || m%977 == 1 || m == n {
			vals = r.soloOf(m)
			if vals == nil && own[m] != nil && own[m].mul == m && !own[m].ended {
				r.fail("C09", "run without result", "the run of parameter %d breaks off, in the sweep as when alone; yet the program exits with status 0 and saves an entry for it: %+v", m, e)
				return
			}
		}
		if len(vals) == 0 {
			continue
		}
		if want := vals[len(vals)-1].String(); e.end != want {
			r.fail("C09", "wrong run", "entry of parameter %d reports end amount %s; that run, alone, ends with %s", m, e.end, want)
			return
		}
		// figures that are not this run's but those of another
		if n <= 64 {
			if d := judgeFigures(e, vals); d != "" {
				for k := 1; k <= n; k++ {
					o := r.soloOf(k)
					if k == m || len(o) == 0 {
						continue
					}
					x := e
					x.end = o[len(o)-1].String()
					if !stats(o).finite || judgeFigures(x, o) != "" {
						continue
					}
					r.fail("C09", "wrong run", "entry of parameter %d carries the figures of parameter %d: %s", m, k, d)
					return
				}
			}
		}
	}
	if r.prop == "C09" && full != nil && !bytes.Equal(b, full) {
		f, err := parseSaved(full)
		if err == nil && len(f.entries) == n {
			for i := range s.entries {
				if !reflect.DeepEqual(s.entries[i], f.entries[i]) {
					r.fail("C09", "depends on the schedule", "entry of parameter %d is %+v under this schedule and %+v under another", i+1, s.entries[i], f.entries[i])
					return
				}
			}
		}
	}
}

// ---- World --------------------------------------------------------------------------------

func (t *AppTrace) seal(r *appRun) *Report {
	rep := r.rep
	rep.Trace = mustJSON(t)
	rep.Nontriv = rep.Counts["processes"] > 0
	rep.NTKey = rep.Hash
	k := *t
	k.Txs = nil
	rep.Sample = fmt.Sprintf("%d transactions, %d runs; %s", len(t.Txs), t.Bound-1, mustJSON(&k))
	if len(rep.Sample) > 1500 {
		rep.Sample = rep.Sample[:1500]
	}
	return rep
}

func (AppWorld) Run(seed uint64, prop, tier string) *Report {
	g := newAppGen(rng.New(seed), prop, tier)
	t := g.scenario()
	r := runApp(t, prop, false)
	for k, n := range g.g.faults {
		r.rep.Faults[k] += n
	}
	for k, n := range g.faults {
		r.rep.Faults[k] += n
	}
	return t.seal(r)
}

func (AppWorld) Replay(tr json.RawMessage, prop string) *Report {
	var t AppTrace
	if err := json.Unmarshal(tr, &t); err != nil {
		panic(err)
	}
	return t.seal(runApp(&t, prop, false))
}

func (AppWorld) Shrink(tr json.RawMessage, prop string, v *Violation, more func() bool) json.RawMessage {
	var t AppTrace
	if err := json.Unmarshal(tr, &t); err != nil {
		panic(err)
	}
	try := func(x *AppTrace) bool {
		if !more() {
			return false
		}
		rv := runApp(x, prop, false).rep.Viol
		return rv != nil && rv.Kind == v.Kind
	}
	// only the attempts up to the one that fails
	if v.Step >= 0 && v.Step+1 < len(t.Attempts) {
		x := t
		x.Attempts = t.Attempts[:v.Step+1]
		if try(&x) {
			t = x
		}
	}
	if v.Step < 0 {
		x := t
		x.Attempts, x.Left = nil, nil
		if try(&x) {
			t = x
		}
	}
	t.Attempts = DDMin(t.Attempts, more, func(a []Attempt) bool {
		x := t
		x.Attempts = a
		return try(&x)
	})
	t.Left = DDMin(t.Left, more, func(l []Left) bool {
		x := t
		x.Left = l
		return try(&x)
	})
	for _, b := range []int{2, 3, 4, 8} {
		if b < t.Bound {
			x := t
			x.Bound = b
			if try(&x) {
				t = x
				break
			}
		}
	}
	t.Txs = DDMin(t.Txs, more, func(txs []TxRec) bool {
		if len(txs) == 0 {
			return false
		}
		x := t
		x.Txs = accepted(ExecCfg{Fee: appFee, Sqrt: appSqrt}, txs)
		return len(x.Txs) == len(txs) && try(&x)
	})
	for i := range t.Attempts {
		a := t.Attempts[i]
		simple := a
		simple.Policy, simple.Schedule, simple.Exact = simrt.Policy{Kind: "fifo"}, nil, false
		set := func(a Attempt) bool {
			x := t
			x.Attempts = append([]Attempt(nil), t.Attempts...)
			x.Attempts[i] = a
			if try(&x) {
				t = x
				return true
			}
			return false
		}
		if a.Policy.Kind != "fifo" && !set(simple) && !a.Exact {
			// write the schedule out and drop preemptions
			x := t
			x.Attempts = t.Attempts[:i+1]
			if rr := runApp(&x, prop, true); rr.rep.Viol != nil && len(rr.sched) > 0 {
				b := a
				b.Exact, b.Schedule = true, rr.sched
				if set(b) {
					b.Schedule = DDMin(b.Schedule, more, func(d []simrt.Decision) bool {
						c := b
						c.Schedule = d
						x := t
						x.Attempts = append([]Attempt(nil), t.Attempts...)
						x.Attempts[i] = c
						return try(&x)
					})
					set(b)
				}
			}
		}
		a = t.Attempts[i]
		if len(a.Faults) > 0 {
			a.Faults = DDMin(a.Faults, more, func(f []disk.Fault) bool {
				b := a
				b.Faults = f
				x := t
				x.Attempts = append([]Attempt(nil), t.Attempts...)
				x.Attempts[i] = b
				return try(&x)
			})
			set(a)
		}
		if a.Short {
			b := t.Attempts[i]
			b.Short = false
			set(b)
		}
	}
	return mustJSON(&t)
}
