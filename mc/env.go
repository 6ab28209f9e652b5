// Command mc explores bounded spaces of behaviours of the code under test exhaustively.
// It is compiled as a package of the repository through a build overlay.
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/maphash"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	rt "github.com/dball/destructive/internal/verifrt"
)

// A check is a set of scenarios, each of which is a nondeterministic program: its body asks
// the chooser to pick among alternatives, and the explorer runs it for every sequence of
// picks. Executions are independent of each other, so they are distributed over workers.
type check struct {
	id  string
	run func(c *Ctx)
	// sharded checks control something global to the process: they run in several processes of
	// one worker each, which divide the executions among them.
	sharded bool
}

var checks = map[string]check{}

func register(id string, run func(c *Ctx))        { checks[id] = check{id, run, false} }
func registerSharded(id string, run func(c *Ctx)) { checks[id] = check{id, run, true} }

// Ch resolves the choices of one execution.
type Ch struct {
	plan    []uint16
	rec     []uint16 // what was chosen
	arity   []uint16
	logging bool
	log     []string
	ctx     *Ctx
	// counters of this execution
	transitions int
	validated   int
	states      []uint64
}

type failure struct{ msg string }
type prune struct{}

// Pick chooses one of n alternatives.
func (ch *Ch) Pick(n int) int {
	if n <= 0 {
		panic(machineryError("Pick of none"))
	}
	if n == 1 {
		return 0
	}
	i := len(ch.rec)
	var v uint16
	if i < len(ch.plan) {
		v = ch.plan[i]
		if int(v) >= n {
			panic(machineryError(fmt.Sprintf("replay diverged at choice %d: %d of %d", i, v, n)))
		}
	}
	ch.rec = append(ch.rec, v)
	ch.arity = append(ch.arity, uint16(n))
	return int(v)
}

func (ch *Ch) Bool() bool { return ch.Pick(2) == 1 }

// Fail reports that the property does not hold in this execution.
func (ch *Ch) Fail(format string, args ...any) { panic(failure{fmt.Sprintf(format, args...)}) }

// Prune abandons an execution that is not part of the space.
func (ch *Ch) Prune() { panic(prune{}) }

// Log describes a step, for counterexamples and samples.
func (ch *Ch) Log(format string, args ...any) {
	if ch.logging {
		ch.log = append(ch.log, fmt.Sprintf(format, args...))
	}
}

// State notes that a state was visited; Step that a transition was taken and checked;
// Validated that behaviour predicted by a model was compared with the implementation's.
func (ch *Ch) State(h uint64) { ch.states = append(ch.states, h) }
func (ch *Ch) Step()          { ch.transitions++ }
func (ch *Ch) Validated()     { ch.validated++ }

type machineryError string

// Violation is a counterexample.
type Violation struct {
	Check    string   `json:"check"`
	Scenario string   `json:"scenario"`
	Choices  []uint16 `json:"choices"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace"`
	Tier     string   `json:"tier"`
}

// Ctx is the state of a run of a check.
type Ctx struct {
	id       string
	tier     string
	workers  int
	deadline time.Time
	only     *Violation // replay just this
	list     bool

	mu          sync.Mutex
	violation   *Violation
	stop        atomic.Bool
	executions  int64
	pruned      int64
	transitions int64
	validated   int64
	states      [64]map[uint64]struct{}
	stateLocks  [64]sync.Mutex
	samples     []any
	scenarios   []map[string]any
	truncated   []string
	assumptions []string
	notes       map[string]any
	machinery   string
	slots       *os.File
	prefix      string
	shard       int
	shards      int
}

// shardDepth is how many choices determine which process an execution belongs to.
const shardDepth = 4

// mine says whether an execution with these choices, or one that begins with them if they
// are too few to tell, is for this process to do.
func (c *Ctx) mine(choices []uint16, all bool) bool {
	if c.shards <= 1 {
		return true
	}
	n := len(choices)
	if n < shardDepth && !all {
		return true
	}
	if n > shardDepth {
		n = shardDepth
	}
	h := uint64(14695981039346656037)
	for _, x := range choices[:n] {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return int((h^h>>29)%uint64(c.shards)) == c.shard
}

func (c *Ctx) thorough() bool { return c.tier == "thorough" }

// pick is a bound that depends on the tier.
func (c *Ctx) bound(quick, thorough int) int {
	if c.thorough() {
		return thorough
	}
	return quick
}

func (c *Ctx) assume(s string) { c.assumptions = append(c.assumptions, s) }

const slotSize = 4096

// runOne executes the body under one plan.
func (c *Ctx) runOne(plan []uint16, logging bool, body func(ch *Ch)) (ch *Ch, msg string, pruned bool) {
	ch = &Ch{plan: plan, logging: logging, ctx: c}
	func() {
		defer func() {
			switch r := recover().(type) {
			case nil:
			case failure:
				msg = r.msg
			case prune:
				pruned = true
			case machineryError:
				c.mu.Lock()
				c.machinery = string(r)
				c.mu.Unlock()
				c.stop.Store(true)
			default:
				msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		body(ch)
	}()
	return
}

func trimStack(s []byte) string {
	lines := strings.Split(string(s), "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i], "destructive/") && !strings.Contains(lines[i], "verifmc") && !strings.HasPrefix(lines[i], "\t") {
			out = append(out, strings.TrimSpace(lines[i])+" "+strings.TrimSpace(lines[i+1]))
			if len(out) == 6 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

type workerState struct {
	sync.Mutex
	scenario string
	plan     []uint16
	start    time.Time
}

// Explore runs the body for every sequence of choices.
func (c *Ctx) Explore(scenario string, body func(ch *Ch)) {
	scenario = c.prefix + scenario
	if c.only != nil {
		if c.only.Scenario == scenario {
			ch, msg, _ := c.runOne(c.only.Choices, true, body)
			for _, l := range ch.log {
				fmt.Println("  " + l)
			}
			if msg != "" {
				fmt.Println("  => " + msg)
				c.violation = c.only
			} else {
				fmt.Println("  => holds")
			}
		}
		return
	}
	if c.stop.Load() {
		return
	}
	begin := time.Now()
	var (
		stack     = [][]uint16{nil}
		busy      int
		cond      = sync.NewCond(&sync.Mutex{})
		execs     int64
		pruned    int64
		capped    bool
		maxDepth  int
		sampleAt  = map[int64]bool{1: true, 1000: true}
		samples   [][]uint16
		lastPlan  []uint16
		stepsHere int64
	)
	var wg sync.WaitGroup
	states := make([]*workerState, c.workers)
	for w := range c.workers {
		ws := &workerState{}
		states[w] = ws
		wg.Add(1)
		go func() {
			defer wg.Done()
			slot := make([]byte, slotSize)
			for {
				cond.L.Lock()
				for len(stack) == 0 && busy > 0 && !c.stop.Load() {
					cond.Wait()
				}
				if len(stack) == 0 || c.stop.Load() {
					cond.L.Unlock()
					cond.Broadcast()
					return
				}
				if time.Now().After(c.deadline) {
					capped = true
					stack = nil
					cond.L.Unlock()
					cond.Broadcast()
					return
				}
				plan := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				busy++
				cond.L.Unlock()

				ws.Lock()
				ws.scenario, ws.plan, ws.start = scenario, plan, time.Now()
				ws.Unlock()
				if c.slots != nil {
					b := append(slot[:0], scenario...)
					b = append(b, '|')
					for _, p := range plan {
						b = strconv.AppendUint(b, uint64(p), 10)
						b = append(b, ',')
					}
					b = append(b, '\n')
					c.slots.WriteAt(b, int64(w*slotSize))
				}
				ch, msg, wasPruned := c.runOne(plan, false, body)
				ws.Lock()
				ws.plan = nil
				ws.Unlock()
				for _, h := range ch.states {
					i := h & 63
					c.stateLocks[i].Lock()
					if c.states[i] == nil {
						c.states[i] = map[uint64]struct{}{}
					}
					c.states[i][h] = struct{}{}
					c.stateLocks[i].Unlock()
				}
				if msg != "" {
					c.report(scenario, ch.rec, body)
				}
				if c.mine(ch.rec, true) {
					atomic.AddInt64(&c.transitions, int64(ch.transitions))
					atomic.AddInt64(&stepsHere, int64(ch.transitions))
					atomic.AddInt64(&c.validated, int64(ch.validated))
				}

				cond.L.Lock()
				busy--
				if !c.mine(ch.rec, true) {
					// Run for its alternatives only.
				} else if wasPruned {
					pruned++
				} else {
					execs++
					if len(ch.rec) > maxDepth {
						maxDepth = len(ch.rec)
					}
					if sampleAt[execs] {
						samples = append(samples, ch.rec)
					}
					lastPlan = ch.rec
				}
				for i := len(ch.rec) - 1; i >= len(plan); i-- {
					for alt := ch.arity[i]; alt > 1; alt-- {
						p := make([]uint16, i+1)
						copy(p, ch.rec[:i])
						p[i] = alt - 1
						if c.mine(p, false) {
							stack = append(stack, p)
						}
					}
				}
				cond.L.Unlock()
				cond.Broadcast()
			}
		}()
	}
	done := make(chan struct{})
	go c.watch(states, done)
	wg.Wait()
	close(done)
	c.executions += execs
	c.pruned += pruned
	info := map[string]any{"scenario": scenario, "executions": execs, "transitions": stepsHere, "max_choices": maxDepth,
		"seconds": float64(int(time.Since(begin).Seconds()*100)) / 100, "complete": !capped && !c.stop.Load()}
	if pruned > 0 {
		info["pruned"] = pruned
	}
	c.scenarios = append(c.scenarios, info)
	if capped {
		c.truncated = append(c.truncated, scenario)
	}
	if len(c.samples) < 6 && c.violation == nil && c.machinery == "" {
		if lastPlan != nil {
			samples = append(samples, lastPlan)
		}
		if len(samples) > 1 {
			samples = samples[len(samples)-1:]
		}
		for _, s := range samples {
			ch, _, _ := c.runOne(s, true, body)
			c.samples = append(c.samples, map[string]any{"scenario": scenario, "choices": ch.rec, "trace": ch.log})
		}
	}
	if os.Getenv("MC_VERBOSE") != "" {
		b, _ := json.Marshal(info)
		fmt.Fprintln(os.Stderr, string(b))
	}
}

// Orders runs f with maps iterated in ascending and in descending order of their keys.
func (c *Ctx) Orders(f func()) {
	f()
	if c.stop.Load() {
		return
	}
	old := c.prefix
	c.prefix = "descending map order: " + old
	rt.OrderHook = func(n int, late bool) int { return n - 1 }
	f()
	rt.OrderHook = nil
	c.prefix = old
}

// hangAfter is how long a single execution, which takes well under a second, may take.
var hangAfter = 90 * time.Second

func (c *Ctx) watch(states []*workerState, done chan struct{}) {
	t := time.NewTicker(200 * time.Millisecond)
	defer t.Stop()
	heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		select {
		case <-done:
			return
		case <-t.C:
		}
		var oldest *workerState
		var age time.Duration
		for _, ws := range states {
			ws.Lock()
			if ws.plan != nil || ws.scenario != "" {
				if d := time.Since(ws.start); ws.plan != nil && d > age {
					oldest, age = ws, d
				}
			}
			ws.Unlock()
		}
		metrics.Read(heap)
		if oldest != nil && (age > hangAfter || (heap[0].Value.Uint64() > 12<<30 && age > 5*time.Second)) {
			oldest.Lock()
			v := &Violation{Check: c.id, Scenario: oldest.scenario, Choices: oldest.plan, Tier: c.tier,
				Message: fmt.Sprintf("an operation of this execution does not complete (%v so far, where executions take milliseconds)", age)}
			oldest.Unlock()
			c.violation = v
			c.finish()
			os.Exit(1)
		}
	}
}

// report confirms a violation by running it again, and stops the exploration.
func (c *Ctx) report(scenario string, choices []uint16, body func(ch *Ch)) {
	v := &Violation{Check: c.id, Scenario: scenario, Choices: choices, Tier: c.tier}
	again := 0
	for range 5 {
		ch, msg, _ := c.runOne(choices, true, body)
		if msg != "" {
			again++
			v.Message, v.Trace = msg, ch.log
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if again == 0 {
		c.notesAdd("unreproducible", fmt.Sprintf("%s %v", scenario, choices))
		return
	}
	if c.violation == nil || len(v.Choices) < len(c.violation.Choices) {
		c.violation = v
	}
	c.stop.Store(true)
}

func (c *Ctx) notesAdd(k string, v any) {
	if c.notes == nil {
		c.notes = map[string]any{}
	}
	c.notes[k] = v
}

func (c *Ctx) nstates() (n int) {
	for i := range c.states {
		n += len(c.states[i])
	}
	return
}

var (
	flagCheck  = flag.String("check", "", "property")
	flagTier   = flag.String("tier", "quick", "quick or thorough")
	flagReplay = flag.String("replay", "", "replay a counterexample")
	flagEv     = flag.String("evidence", "", "evidence file")
	flagCx     = flag.String("cx", "", "directory for counterexamples")
	flagChild  = flag.String("child", "", "scratch directory (internal)")
	flagBudget = flag.Duration("budget", 0, "soft time limit")
	flagSeed   = flag.Int("seed", 1, "recorded only: nothing is random")
	flagInfo   = flag.String("info", "", "JSON with facts about the build, recorded in the evidence")
	flagShard  = flag.String("shard", "", "k/n (internal)")
	flagUntil  = flag.Int64("until", 0, "when to stop, in Unix milliseconds (internal)")
	flagWork   = flag.Int("workers", 0, "workers")
)

var started = time.Now()
var ballast []byte

func main() {
	flag.Parse()
	raceSetup()
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	// Never touched: it only makes collections rarer.
	if raceDetector {
		// Each byte of heap comes with several of shadow.
		ballast = make([]byte, 16<<20)
		debug.SetGCPercent(200)
	} else if *flagShard != "" {
		ballast = make([]byte, 64<<20)
		debug.SetMemoryLimit(3 << 30)
	} else {
		ballast = make([]byte, 256<<20)
		debug.SetMemoryLimit(16 << 30)
	}
	limitMemory()
	ck, ok := checks[*flagCheck]
	if !ok {
		fmt.Println("no such check:", *flagCheck)
		os.Exit(2)
	}
	if *flagReplay == "" && *flagChild == "" {
		parent()
		return
	}
	c := &Ctx{id: ck.id, tier: *flagTier, workers: runtime.NumCPU(), deadline: started.Add(budget())}
	if *flagUntil != 0 {
		c.deadline = time.UnixMilli(*flagUntil)
	}
	if *flagWork > 0 {
		c.workers = *flagWork
	}
	if *flagReplay != "" {
		b, err := os.ReadFile(*flagReplay)
		var v Violation
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		c.only = &v
		c.workers = 1
		fmt.Printf("replaying %s %s %v\n", v.Check, v.Scenario, v.Choices)
		if v.Tier != "" {
			// The bounds of a tier determine what the choices mean.
			c.tier = v.Tier
		}
		ck.run(c)
		if c.machinery != "" {
			fmt.Println(c.machinery)
			os.Exit(2)
		}
		if c.violation != nil {
			os.Exit(1)
		}
		return
	}
	if *flagShard != "" {
		if _, err := fmt.Sscanf(*flagShard, "%d/%d", &c.shard, &c.shards); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	}
	if ck.sharded {
		c.workers = 1
	}
	if *flagChild != "" {
		f, err := os.Create(filepath.Join(*flagChild, "slots"))
		if err == nil {
			f.Truncate(int64(c.workers * slotSize))
			c.slots = f
		}
	}
	if p := os.Getenv("MC_PROFILE"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	ck.run(c)
	if c.machinery != "" {
		fmt.Println("machinery error:", c.machinery)
		os.Exit(2)
	}
	c.finish()
	if c.violation != nil {
		os.Exit(1)
	}
}

// limitMemory has the runtime crash where otherwise the system would end the process, which
// would look like a failure of the machinery. What an execution needs is a few megabytes.
func limitMemory() {
	var gb uint64
	switch {
	case raceDetector:
		return
	case *flagReplay != "":
		gb = 6
	case *flagShard != "":
		gb = 5
	case *flagChild != "":
		gb = 22
	default:
		return
	}
	syscall.Setrlimit(2 /* RLIMIT_DATA */, &syscall.Rlimit{Cur: gb << 30, Max: gb << 30})
}

func budget() time.Duration {
	if *flagBudget != 0 {
		return *flagBudget
	}
	if *flagTier == "thorough" {
		return 3 * time.Hour
	}
	return 420 * time.Second
}

// finish writes the result of a child for its parent.
func (c *Ctx) finish() {
	res := map[string]any{
		"states": c.nstates(), "transitions": c.transitions, "executions": c.executions, "pruned": c.pruned,
		"validated": c.validated, "samples": c.samples, "scenarios": c.scenarios, "truncated": c.truncated,
		"assumptions": c.assumptions, "notes": c.notes, "violation": c.violation,
	}
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Println("machinery error:", err)
		os.Exit(2)
	}
	if c.shards > 1 {
		var sb []byte
		for i := range c.states {
			for h := range c.states[i] {
				sb = binary.LittleEndian.AppendUint64(sb, h)
			}
		}
		os.WriteFile(filepath.Join(*flagChild, "states"), sb, 0o644)
	}
	os.WriteFile(filepath.Join(*flagChild, "result.json"), b, 0o644)
}

type result struct {
	States, Transitions, Executions, Pruned, Validated int64
	Samples                                            []any
	Scenarios                                          []map[string]any
	Truncated, Assumptions                             []string
	Notes                                              map[string]any
	Violation                                          *Violation
}

// merge adds the results of a process to those of the others.
func (r *result) merge(o result) {
	r.Transitions += o.Transitions
	r.Executions += o.Executions
	r.Pruned += o.Pruned
	r.Validated += o.Validated
	if len(r.Samples) < 6 {
		r.Samples = append(r.Samples, o.Samples...)
		if len(r.Samples) > 6 {
			r.Samples = r.Samples[:6]
		}
	}
	for _, s := range o.Scenarios {
		var same map[string]any
		for _, t := range r.Scenarios {
			if t["scenario"] == s["scenario"] {
				same = t
			}
		}
		if same == nil {
			r.Scenarios = append(r.Scenarios, s)
			continue
		}
		for _, k := range []string{"executions", "transitions", "pruned"} {
			a, _ := same[k].(float64)
			b, _ := s[k].(float64)
			if a+b > 0 {
				same[k] = a + b
			}
		}
		for _, k := range []string{"seconds", "max_choices"} {
			a, _ := same[k].(float64)
			b, _ := s[k].(float64)
			same[k] = max(a, b)
		}
		a, _ := same["complete"].(bool)
		b, _ := s["complete"].(bool)
		same["complete"] = a && b
	}
	for _, t := range o.Truncated {
		if !slices.Contains(r.Truncated, t) {
			r.Truncated = append(r.Truncated, t)
		}
	}
	if r.Assumptions == nil {
		r.Assumptions = o.Assumptions
	}
	for k, v := range o.Notes {
		if r.Notes == nil {
			r.Notes = map[string]any{}
		}
		a, aok := r.Notes[k].(float64)
		b, bok := v.(float64)
		if aok && bok && strings.HasPrefix(k, "sum ") {
			v = a + b
		}
		r.Notes[k] = v
	}
	if o.Violation != nil && (r.Violation == nil || len(o.Violation.Choices) < len(r.Violation.Choices)) {
		r.Violation = o.Violation
	}
}

// parent runs the check in a child process, so that crashes of the code under test which
// no program can recover from become counterexamples too.
func parent() {
	dir, err := os.MkdirTemp("", "mc")
	die := func(args ...any) {
		fmt.Println(args...)
		os.RemoveAll(dir)
		os.Exit(2)
	}
	if err != nil {
		die(err)
	}
	self, err := os.Executable()
	if err != nil {
		die(err)
	}
	args := append([]string{}, os.Args[1:]...)
	n, atOnce := 1, 1
	if checks[*flagCheck].sharded {
		n = runtime.NumCPU()
		if *flagWork > 0 {
			n = *flagWork
		}
		atOnce = n
	}
	args = append(args, "-until", fmt.Sprint(started.Add(budget()).UnixMilli()))
	type child struct {
		i   int
		err error
		out string
	}
	ended := make(chan child)
	cmds := make([]*exec.Cmd, n)
	begun := 0
	begin := func() {
		i := begun
		begun++
		d := filepath.Join(dir, strconv.Itoa(i))
		os.Mkdir(d, 0o755)
		a := append(append([]string{}, args...), "-child", d)
		if n > 1 {
			a = append(a, "-shard", fmt.Sprintf("%d/%d", i, n))
		}
		var out bytes.Buffer
		cmd := exec.Command(self, a...)
		cmd.Stdout, cmd.Stderr = &out, &out
		if os.Getenv("MC_VERBOSE") != "" {
			cmd.Stderr = os.Stderr
		}
		if err := cmd.Start(); err != nil {
			die(err)
		}
		cmds[i] = cmd
		go func() {
			err := cmd.Wait()
			ended <- child{i, err, out.String()}
		}()
	}
	for range atOnce {
		begin()
	}
	var res result
	var stopped, failed bool
	states := map[uint64]struct{}{}
	for k := 0; k < begun; k++ {
		e := <-ended
		if stopped {
			continue
		}
		if begun < n {
			begin()
		}
		d := filepath.Join(dir, strconv.Itoa(e.i))
		var r result
		b, err := os.ReadFile(filepath.Join(d, "result.json"))
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil {
			// The child crashed: find the execution that did it.
			v := findCrash(self, args, d, e.out)
			if v == nil {
				fmt.Println("machinery error: child failed:", e.err, tail(e.out, 4000))
				failed = true
			} else {
				r.Violation = v
			}
		}
		if sb, err := os.ReadFile(filepath.Join(d, "states")); err == nil {
			for i := 0; i+8 <= len(sb); i += 8 {
				states[binary.LittleEndian.Uint64(sb[i:])] = struct{}{}
			}
			res.States = int64(len(states))
		} else {
			res.States += r.States
		}
		res.merge(r)
		if res.Violation != nil || failed {
			stopped = true
			for i, cmd := range cmds {
				if i != e.i && cmd != nil {
					cmd.Process.Kill()
				}
			}
		}
	}
	if failed {
		die("no result")
	}
	os.RemoveAll(dir)
	if res.Notes["unreproducible"] != nil {
		fmt.Println("note: a failure did not reproduce:", res.Notes["unreproducible"])
	}
	if *flagEv != "" {
		cov := map[string]any{
			"states": res.States, "transitions": res.Transitions, "traces_validated_against_impl": res.Validated,
			"executions": res.Executions, "samples": res.Samples, "scenarios": res.Scenarios,
			"exhaustive": len(res.Truncated) == 0 && res.Violation == nil,
			"explanation": "states: distinct states of the database (or index, or schedule prefix) visited; transitions: operations executed and checked; " +
				"traces_validated_against_impl: operations of model histories replayed against the real code with every observation compared; executions: complete executions enumerated",
		}
		if res.Pruned > 0 {
			cov["pruned"] = res.Pruned
		}
		if len(res.Truncated) > 0 {
			cov["truncated_by_deadline"] = res.Truncated
		}
		for k, v := range res.Notes {
			cov[k] = v
		}
		if *flagInfo != "" {
			var info any
			if json.Unmarshal([]byte(*flagInfo), &info) == nil {
				cov["instrumentation"] = info
			}
		}
		nviol := 0
		if res.Violation != nil {
			nviol = 1
		}
		ev := map[string]any{"property": *flagCheck, "tier": *flagTier, "seed": *flagSeed, "level": "model_checking",
			"coverage": cov, "assumptions": res.Assumptions, "wall_s": time.Since(started).Seconds(), "violations": nviol}
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(*flagEv, b, 0o644); err != nil {
			die(err)
		}
	}
	fmt.Printf("%s %s: %d executions, %d transitions, %d states, %.1fs\n", *flagCheck, *flagTier, res.Executions, res.Transitions, res.States, time.Since(started).Seconds())
	for _, t := range res.Truncated {
		fmt.Println("  not completed within the time limit:", t)
	}
	if v := res.Violation; v != nil {
		path := filepath.Join(*flagCx, *flagCheck+".cx.json")
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Println("scenario:", v.Scenario)
		for _, l := range v.Trace {
			fmt.Println("  " + l)
		}
		fmt.Println("  =>", v.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *flagCheck, path)
		os.Exit(1)
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func findCrash(self string, args []string, dir, out string) *Violation {
	slots, err := os.ReadFile(filepath.Join(dir, "slots"))
	if err != nil {
		return nil
	}
	var cands []Violation
	for i := 0; i+slotSize <= len(slots); i += slotSize {
		line, _, ok := bytes.Cut(slots[i:i+slotSize], []byte("\n"))
		if !ok {
			continue
		}
		name, nums, ok := strings.Cut(string(line), "|")
		if !ok {
			continue
		}
		v := Violation{Check: *flagCheck, Scenario: name}
		for _, s := range strings.Split(nums, ",") {
			if n, err := strconv.Atoi(s); err == nil {
				v.Choices = append(v.Choices, uint16(n))
			}
		}
		cands = append(cands, v)
	}
	sort.Slice(cands, func(i, j int) bool { return len(cands[i].Choices) < len(cands[j].Choices) })
	{
		for _, v := range cands {
			v.Tier = *flagTier
			b, _ := json.Marshal(v)
			f := filepath.Join(dir, "cand.json")
			os.WriteFile(f, b, 0o644)
			ctx, cancel := context.WithTimeout(context.Background(), hangAfter)
			cmd := exec.CommandContext(ctx, self, "-check", *flagCheck, "-tier", *flagTier, "-replay", f)
			o, err := cmd.CombinedOutput()
			hangs := ctx.Err() != nil
			cancel()
			if err == nil {
				continue
			}
			s := string(o)
			if hangs {
				v.Message = fmt.Sprintf("this execution crashes the process along with others, and by itself does not complete in %v", hangAfter)
				return &v
			}
			var exit *exec.ExitError
			failed := errors.As(err, &exit) && exit.ExitCode() == 1
			if failed || strings.Contains(s, "fatal error:") || strings.Contains(s, "goroutine stack exceeds") {
				i := strings.Index(s, "fatal error:")
				if j := strings.Index(s, "runtime: goroutine stack"); j >= 0 && (i < 0 || j < i) {
					i = j
				}
				if i < 0 {
					i = 0
				}
				if len(s) > i+800 {
					s = s[i : i+800]
				} else {
					s = s[i:]
				}
				v.Message = "the code under test crashes the process: " + s
				return &v
			}
		}
	}
	// Executions have nothing in common but what the code under test keeps for itself, so that
	// what one does wrong to another is its doing, though none does it alone.
	if i := strings.Index(out, "fatal error: concurrent map"); i >= 0 && len(cands) > 0 && inCode(out[i:]) {
		v := cands[0]
		v.Tier = *flagTier
		v.Message = "the code under test crashes the process: " + out[i:min(len(out), i+800)]
		return &v
	}
	return nil
}

// inCode says whether the first goroutine of the trace was in the code under test when it
// failed.
func inCode(trace string) bool {
	_, rest, _ := strings.Cut(trace, "goroutine ")
	first, _, _ := strings.Cut(rest, "\n\n")
	for _, l := range strings.Split(first, "\n") {
		if strings.Contains(l, "dball/destructive/") && strings.Contains(l, "(") && !strings.HasPrefix(l, "\t") {
			return !strings.Contains(l, "verifmc") && !strings.Contains(l, "verifrt")
		}
	}
	return false
}

var hashSeed = maphash.MakeSeed()

// hashString is the same in every process.
func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := range len(s) {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h ^ h>>31
}
