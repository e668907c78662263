// Command harness is the model checker: it enumerates the executions of the
// instrumented tcpx package within stated bounds and checks one property on
// every one of them.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// Scenario is one closed driver: the code under test plus its environment.
type Scenario struct {
	Name string
	Desc string
	// N is the number of configurations (parameter vectors) for a tier.
	N func(tier string) int
	// Run is executed as virtual thread 0 of a controlled execution.
	Run func(t *T, cfg int)
	// Native scenarios enumerate inputs without the scheduler.
	Native func(t *T, cfg int)
	// Specs lists the explorations for a tier.
	Specs func(tier string) []Spec
	// Steps overrides the step limit of one execution.
	Steps int
	// Label describes a configuration.
	Label func(cfg int) string
	// AllowExit: os.Exit ends the execution normally; Check runs afterwards.
	AllowExit bool
}

// Spec is one bounded exploration of every configuration of a scenario.
type Spec struct {
	D       int // deviation bound
	Policy  int // default scheduling order
	Fine    bool
	Seg     bool
	TimeDev bool
	Shards  int
	// Stride > 1 visits only the configurations with cfg%Stride == Off.
	Stride, Off int
}

// Prop is a property with its scenarios.
type Prop struct {
	ID          string
	Scenarios   []*Scenario
	Assumptions []string
	Race        bool // run in the -race build
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// T collects the verdict of one execution.
type T struct {
	Failed  bool
	Key     string
	Msg     string
	outcome string
	after   []func()
	cases   uint64
	ops     uint64
	lastCas string
	sample  string
	outs    map[uint64]struct{}
	tier    string
	deadl   time.Time
}

// Fail records a violation (the first one counts).
func (t *T) Fail(format string, a ...any) { t.FailKey("", format, a...) }

// FailKey records a violation identified by a stable key.
func (t *T) FailKey(key, format string, a ...any) {
	if t.Failed || (vs.Active() && vs.Killing()) {
		return
	}
	t.Failed = true
	t.Key = key
	t.Msg = fmt.Sprintf(format, a...)
}

// Outcome notes an observed result, to show that executions differ.
func (t *T) Outcome(format string, a ...any) { t.outcome += fmt.Sprintf(format, a...) + ";" }

// Case counts one enumerated input of a native scenario.
func (t *T) Case(ops int) { t.cases++; t.ops += uint64(ops) }

// Late reports that a native enumeration has run out of time.
func (t *T) Late() bool { return !t.deadl.IsZero() && time.Now().After(t.deadl) }

type Unit struct {
	Scen   int  `json:"s"`
	Cfg    int  `json:"c"`
	Spec   Spec `json:"p"`
	Shard  int  `json:"h"`
	Budget int  `json:"b"` // ms
}

type Violation struct {
	Property string  `json:"property"`
	Scenario string  `json:"scenario"`
	ScenIdx  int     `json:"scenario_index"`
	Cfg      int     `json:"config"`
	Label    string  `json:"label"`
	Spec     Spec    `json:"spec"`
	Prefix   []int32 `json:"choices"`
	Key      string  `json:"key"`
	Msg      string  `json:"message"`
	Devs     int     `json:"deviations"`
	Steps    string  `json:"trace,omitempty"`
	Race     bool    `json:"race"`
	How      string  `json:"replay_with"`
}

type Result struct {
	Unit     Unit       `json:"u"`
	Execs    uint64     `json:"e"`
	Trans    uint64     `json:"t"`
	States   int        `json:"st"`
	Outcomes []uint64   `json:"o"`
	Complete bool       `json:"done"`
	Points   int        `json:"pts"` // choice points of the default execution
	Diverged int        `json:"div"`
	Sample   string     `json:"sample"`
	Cases    uint64     `json:"cases"`
	Ops      uint64     `json:"ops"`
	V        *Violation `json:"v"`
	Known    []string   `json:"known"`
	Ms       int64      `json:"ms"`
	ND       string     `json:"nd"`
}

var (
	fProp   = flag.String("prop", "", "property id")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fWorker = flag.Bool("worker", false, "internal")
	fState  = flag.String("statefile", "", "internal")
	fReplay = flag.String("replay", "", "replay a violation file")
	fVerif  = flag.String("verif", "/verif", "verif dir")
	fLimit  = flag.Int("limit", 0, "overall time limit in seconds")
	fProcs  = flag.Int("procs", 0, "worker processes")
	fOnly   = flag.String("only", "", "only scenarios whose name contains this")
	fStats  = flag.Bool("stats", false, "print per-unit statistics")
)

func scens(p *Prop) []*Scenario { return p.Scenarios }

func main() {
	flag.Parse()
	p := props[*fProp]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(2)
	}
	switch {
	case *fWorker:
		worker(p)
	case *fReplay != "":
		replayMain(p, *fReplay)
	default:
		os.Exit(parent(p))
	}
}

// ---- worker ----

var resultOut *os.File

func quiet() {
	fd, err := syscall.Dup(1)
	if err != nil {
		panic(err)
	}
	resultOut = os.NewFile(uintptr(fd), "results")
	dn, _ := os.OpenFile("/dev/null", os.O_RDWR, 0)
	syscall.Dup2(int(dn.Fd()), 1)
	log.SetOutput(io.Discard)
	tcpx.SetLogMode(tcpx.RELEASE)
}

var stateFile *os.File

func noteCurrent(u Unit, prefix []int32) {
	if stateFile == nil {
		return
	}
	var b [4096]byte
	o := b[:0]
	o = strconv.AppendInt(o, int64(u.Scen), 10)
	o = append(o, ' ')
	o = strconv.AppendInt(o, int64(u.Cfg), 10)
	for _, v := range prefix {
		o = append(o, ' ')
		o = strconv.AppendInt(o, int64(v), 10)
	}
	o = append(o, '\n')
	stateFile.WriteAt(o, 0)
}

func worker(p *Prop) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	quiet()
	if *fState != "" {
		stateFile, _ = os.Create(*fState)
	}
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<20)
	w := json.NewEncoder(resultOut)
	for in.Scan() {
		var u Unit
		if json.Unmarshal(in.Bytes(), &u) != nil {
			continue
		}
		r := runUnit(p, u)
		w.Encode(r)
	}
}

type explorer struct {
	p     *Prop
	s     *Scenario
	u     Unit
	r     *Result
	end   time.Time
	outs  map[uint64]struct{}
	known map[string]bool
	kf    []knownFinding
}

func runUnit(p *Prop, u Unit) *Result {
	s := scens(p)[u.Scen]
	r := &Result{Unit: u, Complete: true}
	st := time.Now()
	e := &explorer{p: p, s: s, u: u, r: r, outs: map[uint64]struct{}{}, known: map[string]bool{}, kf: loadKnown(p.ID)}
	if u.Budget > 0 {
		e.end = st.Add(time.Duration(u.Budget) * time.Millisecond)
	}
	t0 := vs.Transitions
	s0 := vs.States.Len()
	if s.Native != nil {
		e.native()
	} else {
		e.explore(nil, 0, 0)
	}
	r.Trans = vs.Transitions - t0
	r.States = vs.States.Len() - s0
	for k := range e.outs {
		r.Outcomes = append(r.Outcomes, k)
		if len(r.Outcomes) > 5000 {
			break
		}
	}
	for k := range e.known {
		r.Known = append(r.Known, k)
	}
	r.Ms = time.Since(st).Milliseconds()
	return r
}

func (e *explorer) native() {
	t := &T{tier: *fTier, deadl: e.end, outs: e.outs}
	noteCurrent(e.u, nil)
	func() {
		defer func() {
			if r := recover(); r != nil {
				t.Fail("panic escaped on case %s: %v\n%s", t.lastCas, r, trim(debug.Stack()))
			}
		}()
		e.s.Native(t, e.u.Cfg)
	}()
	e.r.Cases, e.r.Ops = t.cases, t.ops
	e.r.Sample = t.sample
	e.r.Execs = t.cases
	if t.Late() {
		e.r.Complete = false
	}
	if t.Failed {
		e.violation(t, nil, 0, "")
	}
}

func trim(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "tcpx") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n")
}

// once runs one execution with the given choice prefix.
func (e *explorer) once(prefix []int32) (*T, []vs.Choice, bool) {
	t := &T{tier: *fTier}
	sp := e.u.Spec
	races := vs.RaceErrors()
	out, tr, div := vs.Run(vs.Config{
		Prefix: prefix, Fine: sp.Fine, Policy: sp.Policy, Seg: sp.Seg, TimeDev: sp.TimeDev, MaxSteps: e.s.Steps,
	}, func() { e.s.Run(t, e.u.Cfg) })
	switch out.Kind {
	case "ok":
	case "exit":
		if !e.s.AllowExit {
			t.Fail("process exited: %s", out.Detail)
		}
	case "deadlock":
		t.Fail("the driver is blocked for ever (deadlock): %s", out.Detail)
	case "livelock":
		t.Fail("no progress within the step bound: %s", out.Detail)
	case "crash":
		t.Fail("the process would crash: %s", out.Detail)
	}
	for _, f := range t.after {
		f()
	}
	if vs.RaceBuild {
		t.Failed = false // only races count here; the functional checks are other properties'
		if n := vs.RaceErrors(); n > races {
			if rep := raceReport(); rep != "" {
				t.FailKey("race", "data race:\n%s", rep)
			}
		}
	}
	e.r.Execs++
	return t, tr, div
}

var raceOff int64

// raceReport returns the first new report of the race detector in which one of
// the two accesses is made by tcpx (directly or through the standard library).
// Accesses of the harness or the scheduler to their own data do not count.
func raceReport() string {
	f, err := os.Open(fmt.Sprintf("%s.%d", os.Getenv("MC_RACELOG"), os.Getpid()))
	if err != nil {
		return ""
	}
	defer f.Close()
	f.Seek(raceOff, io.SeekStart)
	b, _ := io.ReadAll(f)
	raceOff += int64(len(b))
	for _, r := range strings.Split(string(b), "WARNING: DATA RACE") {
		hit, vsx := false, false
		for _, sec := range strings.Split(r, "\n\n") {
			sec = strings.TrimLeft(sec, "\n")
			if !strings.HasPrefix(sec, "Read at") && !strings.HasPrefix(sec, "Write at") &&
				!strings.HasPrefix(sec, "Previous ") && !strings.HasPrefix(sec, "Atomic ") {
				continue
			}
			for i, l := range strings.Split(sec, "\n") {
				l = strings.TrimSpace(l)
				if i == 0 || strings.HasPrefix(l, "/") {
					continue
				}
				if top := i == 1 || i == 3; top && (strings.HasPrefix(l, "verifmc/vs.(*V") || strings.HasPrefix(l, "verifmc/vs.race")) && !strings.Contains(l, ".func") {
					continue // the virtual network accesses the caller's buffer
				}
				if strings.HasPrefix(l, "verifmc/vs.Keys") {
					continue // the map of a range statement, read on behalf of tcpx
				}
				if strings.HasPrefix(l, "verifmc/vs.") {
					vsx = true // the scheduler looks at a lock embedded in tcpx data
					break
				}
				if strings.HasPrefix(l, "main.") {
					break
				}
				if strings.HasPrefix(l, "github.com/fwhezfwhez/tcpx") {
					hit = true
					break
				}
			}
		}
		if hit && !vsx {
			if len(r) > 3000 {
				r = r[:3000]
			}
			return strings.TrimSpace(r)
		}
	}
	return ""
}

func (e *explorer) explore(prefix []int32, devs int, depth int) {
	if e.r.V != nil {
		return
	}
	if !e.end.IsZero() && time.Now().After(e.end) {
		e.r.Complete = false
		return
	}
	noteCurrent(e.u, prefix)
	t, tr, div := e.once(prefix)
	if len(prefix) == 0 {
		e.r.Points = len(tr)
		// determinism: the default execution, twice
		t2, tr2, _ := e.once(prefix)
		if len(tr) != len(tr2) || t.outcome != t2.outcome || (t.Failed != t2.Failed && !vs.RaceBuild) {
			e.r.ND = fmt.Sprintf("default execution not reproducible (%d/%d choices)", len(tr), len(tr2))
		}
		e.r.Sample = e.sample(t, tr)
		for i := 0; vs.RaceBuild && !t.Failed && i < 8; i++ {
			t, _, _ = e.once(prefix) // the detector may miss a race in one run
		}
	}
	if div {
		e.r.Diverged++
		return
	}
	h := fnv.New64a()
	h.Write([]byte(t.outcome))
	if len(e.outs) < 100000 {
		e.outs[h.Sum64()] = struct{}{}
	}
	if t.Failed {
		if e.confirm(prefix, t) {
			if k := matchKnown(e.kf, e.s.Name, t); k != "" {
				e.known[k] = true
			} else {
				e.violation(t, prefix, devs, e.sample(t, tr))
				return
			}
		}
	}
	for i := len(prefix); i < len(tr); i++ {
		c := tr[i]
		cost := devs
		if !c.Free {
			cost++
			if cost > e.u.Spec.D {
				continue
			}
			if devs == 0 && e.u.Spec.Shards > 1 && i%e.u.Spec.Shards != e.u.Shard {
				continue
			}
		}
		for alt := int32(1); alt < c.N; alt++ {
			np := make([]int32, i+1)
			for k := 0; k < i; k++ {
				np[k] = tr[k].Pick
			}
			np[i] = alt
			e.explore(np, cost, depth+1)
			if e.r.V != nil {
				return
			}
		}
	}
}

func (e *explorer) confirm(prefix []int32, t *T) bool {
	if vs.RaceBuild {
		return true // the detector reports a race only once per process; the parent confirms in a fresh one
	}
	for i := 0; i < 5; i++ {
		t2, _, _ := e.once(prefix)
		if !t2.Failed || t2.Key != t.Key {
			return false
		}
	}
	return true
}

func (e *explorer) sample(t *T, tr []vs.Choice) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s cfg=%d", e.s.Name, e.u.Cfg)
	if e.s.Label != nil {
		fmt.Fprintf(&sb, " (%s)", e.s.Label(e.u.Cfg))
	}
	fmt.Fprintf(&sb, " choices=%d", len(tr))
	if t.outcome != "" {
		o := t.outcome
		if len(o) > 300 {
			o = o[:300] + "..."
		}
		fmt.Fprintf(&sb, " observed: %s", o)
	}
	return sb.String()
}

func (e *explorer) violation(t *T, prefix []int32, devs int, tr string) {
	if k := matchKnown(e.kf, e.s.Name, t); k != "" {
		e.known[k] = true
		return
	}
	v := &Violation{Property: e.p.ID, Scenario: e.s.Name, ScenIdx: e.u.Scen, Cfg: e.u.Cfg, Spec: e.u.Spec,
		Prefix: prefix, Key: t.Key, Msg: t.Msg, Devs: devs, Steps: tr, Race: vs.RaceBuild}
	if e.s.Label != nil {
		v.Label = e.s.Label(e.u.Cfg)
	}
	v.How = fmt.Sprintf("bash /verif/check.sh %s --replay <this file>", e.p.ID)
	e.r.V = v
}

// ---- known findings ----

type knownFinding struct{ prop, scen, key, what string }

// loadKnown reads lines "known: property=<id> scenario=<name> key=<key> <what fails>".
func loadKnown(id string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(*fVerif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 4)
		if len(f) < 4 || f[0] != "property="+id {
			continue
		}
		out = append(out, knownFinding{id, strings.TrimPrefix(f[1], "scenario="), strings.TrimPrefix(f[2], "key="), f[3]})
	}
	return out
}

func matchKnown(kf []knownFinding, scen string, t *T) string {
	for _, k := range kf {
		if k.scen == scen && k.key == t.Key && k.key != "" {
			return k.what
		}
	}
	return ""
}

// ---- replay ----

func replayMain(p *Prop, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	runtime.GOMAXPROCS(1)
	quiet()
	n := 5
	if v.Race {
		n = 200 // the detector's memory of past accesses is bounded; each report is made once per process
	}
	hits := 0
	msg := ""
	for i := 0; i < n; i++ {
		s := scens(p)[v.ScenIdx]
		r := &Result{}
		e := &explorer{p: p, s: s, u: Unit{Scen: v.ScenIdx, Cfg: v.Cfg, Spec: v.Spec}, r: r, outs: map[uint64]struct{}{}, known: map[string]bool{}}
		if s.Native != nil {
			e.native()
			if r.V != nil {
				hits++
				msg = r.V.Msg
			}
			break
		}
		t, _, _ := e.once(v.Prefix)
		if t.Failed {
			hits++
			msg = t.Msg
			if v.Race {
				msg += fmt.Sprintf(" (repetition %d)", i)
				break
			}
		}
	}
	fmt.Fprintf(resultOut, "replayed %s: reproduced %d time(s): %s\n", file, hits, msg)
	if hits > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

// ---- parent ----

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	st  string
	err string
}

func parent(p *Prop) int {
	start := time.Now()
	tier := *fTier
	limit := *fLimit
	if limit == 0 {
		limit = 300
		if tier == "thorough" {
			limit = 780
		}
	}
	deadline := start.Add(time.Duration(limit) * time.Second)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	var units []Unit
	for si, s := range scens(p) {
		if *fOnly != "" && !strings.Contains(s.Name, *fOnly) {
			continue
		}
		n := 1
		if s.N != nil {
			n = s.N(tier)
		}
		specs := []Spec{{}}
		if s.Specs != nil {
			specs = s.Specs(tier)
		}
		for _, sp := range specs {
			sh := sp.Shards
			if sh < 1 {
				sh = 1
			}
			for c := 0; c < n; c++ {
				if sp.Stride > 1 && c%sp.Stride != sp.Off {
					continue
				}
				for k := 0; k < sh; k++ {
					units = append(units, Unit{Scen: si, Cfg: c, Spec: sp, Shard: k})
				}
			}
		}
	}
	sort.SliceStable(units, func(i, j int) bool { return cost(units[i]) < cost(units[j]) })

	np := *fProcs
	if np == 0 {
		np = runtime.NumCPU()
	}
	if np > len(units) {
		np = len(units)
	}
	dir, err := os.MkdirTemp("", "mcrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)

	var mu sync.Mutex
	next := 0
	var results []*Result
	var viol *Violation
	skipped := 0
	inconclusive := []string{}
	var wg sync.WaitGroup
	stop := false
	for w := 0; w < np; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var pr *proc
			defer func() {
				if pr != nil {
					pr.in.Close()
					pr.cmd.Process.Kill()
					pr.cmd.Wait()
				}
			}()
			for {
				mu.Lock()
				if stop || next >= len(units) {
					mu.Unlock()
					return
				}
				if time.Now().After(deadline) {
					skipped += len(units) - next
					next = len(units)
					mu.Unlock()
					return
				}
				u := units[next]
				next++
				mu.Unlock()
				left := time.Until(deadline)
				u.Budget = int(left.Milliseconds()) + 1
				if pr == nil {
					var err error
					pr, err = spawn(p, tier, filepath.Join(dir, fmt.Sprintf("w%d", w)))
					if err != nil {
						fmt.Fprintln(os.Stderr, "spawn:", err)
						return
					}
				}
				r, werr := pr.do(u, left+30*time.Second)
				if werr != "" {
					// the worker died or hung
					pr.cmd.Process.Kill()
					pr.cmd.Wait()
					st := pr.current()
					tail := pr.stderrTail()
					pr = nil
					if werr == "hang" {
						mu.Lock()
						inconclusive = append(inconclusive, fmt.Sprintf("unit %+v: no answer (%s)", u, st))
						mu.Unlock()
						continue
					}
					v := deathViolation(p, u, st, tail)
					mu.Lock()
					if viol == nil && confirmFresh(p, tier, dir, v, true) {
						viol = v
						stop = true
					} else {
						inconclusive = append(inconclusive, "worker died: "+tail)
					}
					mu.Unlock()
					continue
				}
				mu.Lock()
				results = append(results, r)
				if *fStats {
					fmt.Printf("  %s cfg=%d D=%d pol=%d fine=%v shard=%d/%d: execs=%d trans=%d points=%d outcomes=%d cases=%d div=%d complete=%v %dms %s\n", scens(p)[u.Scen].Name, u.Cfg, u.Spec.D, u.Spec.Policy, u.Spec.Fine, u.Shard, u.Spec.Shards, r.Execs, r.Trans, r.Points, len(r.Outcomes), r.Cases, r.Diverged, r.Complete, r.Ms, r.ND)
				}
				if r.V != nil && viol == nil {
					if confirmFresh(p, tier, dir, r.V, false) {
						viol = r.V
						stop = true
					} else {
						inconclusive = append(inconclusive, "not reproduced in a fresh process: "+r.V.Msg)
						if d := os.Getenv("MC_DEBUG"); d != "" {
							b, _ := json.Marshal(r.V)
							os.WriteFile(filepath.Join(d, fmt.Sprintf("nr%d.json", len(inconclusive))), b, 0o644)
						}
					}
				}
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()

	return report(p, tier, seed, start, units, results, viol, skipped, inconclusive)
}

func cost(u Unit) int {
	c := u.Spec.D * 10
	if u.Spec.Fine {
		c += 5
	}
	if u.Spec.Policy == 1 {
		c++
	}
	return c
}

func deathViolation(p *Prop, u Unit, st, tail string) *Violation {
	f := strings.Fields(st)
	var pre []int32
	for i := 2; i < len(f); i++ {
		n, _ := strconv.Atoi(f[i])
		pre = append(pre, int32(n))
	}
	cfg := u.Cfg
	if len(f) > 1 {
		cfg, _ = strconv.Atoi(f[1])
	}
	return &Violation{Property: p.ID, Scenario: scens(p)[u.Scen].Name, ScenIdx: u.Scen, Cfg: cfg, Spec: u.Spec,
		Prefix: pre, Key: "fatal", Msg: "the process running the code under test died: " + tail, Race: vs.RaceBuild,
		How: fmt.Sprintf("bash /verif/check.sh %s --replay <this file>", p.ID)}
}

// confirmFresh re-runs a violation in a fresh process.
func confirmFresh(p *Prop, tier, dir string, v *Violation, death bool) bool {
	f := filepath.Join(dir, "confirm.json")
	b, _ := json.Marshal(v)
	os.WriteFile(f, b, 0o644)
	for i := 0; i < 2; i++ {
		cmd := exec.Command(os.Args[0], "-prop", p.ID, "-tier", tier, "-verif", *fVerif, "-replay", f)
		cmd.Env = workerEnv()
		done := make(chan error, 1)
		if err := cmd.Start(); err != nil {
			return false
		}
		go func() { done <- cmd.Wait() }()
		select {
		case err := <-done:
			if err == nil {
				return false
			}
			if ee, ok := err.(*exec.ExitError); ok {
				if !death && ee.ExitCode() != 1 {
					// a fatal error while replaying a violation is at least as bad
				}
			}
		case <-time.After(60 * time.Second):
			cmd.Process.Kill()
			return false
		}
	}
	return true
}

func workerEnv() []string {
	env := os.Environ()
	env = append(env, "GOTRACEBACK=single", "GOMEMLIMIT=2500MiB")
	return env
}

func spawn(p *Prop, tier, st string) (*proc, error) {
	cmd := exec.Command(os.Args[0], "-prop", p.ID, "-tier", tier, "-verif", *fVerif, "-worker", "-statefile", st)
	cmd.Env = workerEnv()
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	ef, err := os.Create(st + ".err")
	if err != nil {
		return nil, err
	}
	cmd.Stderr = ef
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	ef.Close()
	return &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20), st: st, err: st + ".err"}, nil
}

func (pr *proc) do(u Unit, wait time.Duration) (*Result, string) {
	b, _ := json.Marshal(u)
	if _, err := pr.in.Write(append(b, '\n')); err != nil {
		return nil, "died"
	}
	type ans struct {
		r   *Result
		err error
	}
	ch := make(chan ans, 1)
	go func() {
		line, err := pr.out.ReadBytes('\n')
		if err != nil {
			ch <- ans{nil, err}
			return
		}
		var r Result
		err = json.Unmarshal(line, &r)
		ch <- ans{&r, err}
	}()
	// a worker that makes no progress for a minute is stuck in native code
	last := ""
	lastT := time.Now()
	tick := time.NewTicker(2 * time.Second)
	defer tick.Stop()
	end := time.Now().Add(wait)
	for {
		select {
		case a := <-ch:
			if a.err != nil {
				return nil, "died"
			}
			return a.r, ""
		case <-tick.C:
			c := pr.current()
			if c != last {
				last, lastT = c, time.Now()
			}
			if time.Now().After(end) {
				return nil, "hang"
			}
			_ = lastT
		}
	}
}

func (pr *proc) current() string {
	b, _ := os.ReadFile(pr.st)
	if i := strings.IndexByte(string(b), '\n'); i >= 0 {
		return string(b[:i])
	}
	return string(b)
}

func (pr *proc) stderrTail() string {
	b, _ := os.ReadFile(pr.err)
	s := string(b)
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

func report(p *Prop, tier string, seed int, start time.Time, units []Unit, results []*Result, viol *Violation, skipped int, inconclusive []string) int {
	var execs, trans, cases, ops uint64
	states := 0
	complete := skipped == 0 && len(inconclusive) == 0 && len(results) == len(units)
	outs := map[uint64]struct{}{}
	div := 0
	var samples []string
	seen := map[string]bool{}
	known := map[string]bool{}
	type agg struct {
		Execs, Trans   uint64
		Units, Done    int
		Bound          string
		MaxPts         int
		Cases          uint64
		Configurations int
	}
	per := map[string]*agg{}
	nd := 0
	for _, r := range results {
		execs += r.Execs
		trans += r.Trans
		states += r.States
		cases += r.Cases
		ops += r.Ops
		div += r.Diverged
		if r.ND != "" {
			nd++
		}
		if !r.Complete {
			complete = false
		}
		for _, o := range r.Outcomes {
			outs[o] = struct{}{}
		}
		for _, k := range r.Known {
			known[k] = true
		}
		s := scens(p)[r.Unit.Scen]
		if !seen[s.Name] && r.Sample != "" {
			seen[s.Name] = true
			samples = append(samples, r.Sample)
		}
		sp := r.Unit.Spec
		k := fmt.Sprintf("%s D<=%d default-order=%d statement-level=%v", s.Name, sp.D, sp.Policy, sp.Fine)
		if s.Native != nil {
			k = s.Name + " (input enumeration)"
		}
		a := per[k]
		if a == nil {
			a = &agg{}
			per[k] = a
		}
		a.Execs += r.Execs
		a.Trans += r.Trans
		a.Cases += r.Cases
		a.Units++
		if r.Complete {
			a.Done++
		}
		if r.Points > a.MaxPts {
			a.MaxPts = r.Points
		}
	}
	bounds := map[string]any{}
	for k, a := range per {
		bounds[k] = map[string]any{"executions": a.Execs, "schedule_points": a.Trans, "inputs": a.Cases, "units": a.Units, "units_completed": a.Done, "choice_points_of_default_run": a.MaxPts}
	}
	if div > 0 {
		complete = false
	}
	cov := map[string]any{
		"states":                        states + int(cases),
		"transitions":                   trans + ops,
		"traces_validated_against_impl": execs,
		"executions":                    execs,
		"inputs_enumerated":             cases,
		"distinct_outcomes":             len(outs),
		"exhaustive":                    complete,
		"bounds":                        bounds,
		"replay_divergences":            div,
		"nondeterministic_units":        nd,
		"units_skipped":                 skipped,
		"samples":                       samples,
		"rule":                          "every execution is an execution of the implementation itself (instrumented from /repo's working tree); states are distinct happens-before hashes of executions per worker plus distinct enumerated inputs",
	}
	if len(inconclusive) > 0 {
		cov["inconclusive"] = inconclusive
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(),
		"violations": 0,
	}
	code := 0
	for k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	if viol != nil {
		ev["violations"] = 1
		code = 1
	}
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	tmp := filepath.Join(*fVerif, "evidence", p.ID+".json.tmp")
	os.WriteFile(tmp, b, 0o644)
	os.Rename(tmp, filepath.Join(*fVerif, "evidence", p.ID+".json"))
	fmt.Printf("%s %s: executions=%d inputs=%d states=%d transitions=%d outcomes=%d exhaustive=%v units=%d/%d div=%d nd=%d wall=%.1fs\n",
		p.ID, tier, execs, cases, states+int(cases), trans+ops, len(outs), complete, len(results), len(units), div, nd, time.Since(start).Seconds())
	for _, s := range inconclusive {
		fmt.Println("inconclusive:", s)
	}
	if viol != nil {
		rp := filepath.Join(*fVerif, "evidence", p.ID+".replay.json")
		b, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(rp, b, 0o644)
		fmt.Printf("violation: scenario=%s cfg=%d %s deviations=%d: %s\n", viol.Scenario, viol.Cfg, viol.Label, viol.Devs, viol.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
	}
	return code
}
