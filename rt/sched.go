package verifrt

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"time"
)

// The scheduler runs one thread of the harness at a time and decides, at every
// scheduling point, which one goes next. Control is handed over through plain
// memory in functions the race detector does not instrument, never through channels,
// locks or atomics, so that the hand-overs create no happens-before edges: under
// -race the detector sees exactly the synchronisation of the code under test.
//
// A schedule is given as a list of deviations from the default, which is to let the
// running thread go on, or, when it cannot, to take the lowest thread that can.

const MaxThreads = 16
const MaxPoints = 1 << 15

// LockState is the scheduler's view of a lock.
type LockState struct {
	writer  bool
	readers int
	pending int // writers waiting: they hold off new readers, as in sync.RWMutex
	count   int // of a wait group
}

const (
	opStep = iota
	opRequest
	opLock
	opRLock
	opWait // for a wait group to be empty
	opDone
)

type threadState struct {
	op   int
	lock *LockState
	name string
	// still says that the thread has passed a point just now, with nothing done since that
	// another could notice.
	still bool
}

// Deviation says that thread Thread goes on at point Point.
type Deviation struct {
	Point  int
	Thread int
}

// PointRecord is what was decided at one scheduling point.
type PointRecord struct {
	Enabled uint16 // bit set of the threads that could go on
	Running bool   // the thread that reached the point could go on
	Thread  uint8  // the thread that reached the point
	Chosen  uint8
}

const maxPlan = 64

var (
	active   bool
	turn     int // thread allowed to run; -1 is the harness
	current  int
	nthreads int // those of the harness come first, then those the code under test has started
	nbodies  int
	running  *sync.WaitGroup
	threads  [MaxThreads]threadState
	panics   [MaxThreads]string
	plan     [maxPlan]Deviation
	nplan    int
	iplan    int
	records  [MaxPoints]PointRecord
	npoints  int
	deadlock bool
	horizon  bool
	diverged bool
	gen      int // of the execution: threads left behind by a deadlock belong to earlier ones
)

var (
	// Spawns is the number of go statements of the code under test.
	Spawns int
	// Coarse says that the scheduler does not see the synchronisation of the code under test:
	// there are points at the boundaries of operations only.
	Coarse bool
)

// StmtPoints says whether the statement level points count.
var StmtPoints bool

// Now is the number of scheduling points passed so far.
//
//go:norace
func Now() int { return npoints }

// Active reports whether the calling code runs as a thread under the scheduler.
//
//go:norace
//go:noinline
func Active() bool { return active }

//go:norace
//go:noinline
func getTurn() int { return turn }

//go:norace
//go:noinline
func setTurn(t int) { turn = t }

// StuckAfter bounds the time an execution may spend without reaching a point.
var StuckAfter = 120 * time.Second

//go:norace
func waitTurn(id, g int) {
	var start time.Time
	last := -1
	for n := 0; ; n++ {
		if gen != g {
			select {}
		}
		if getTurn() == id {
			return
		}
		runtime.Gosched()
		if n&0xffff == 0xffff && id == -1 {
			if start.IsZero() || npoints != last {
				start = time.Now()
				last = npoints
			} else if time.Since(start) > StuckAfter {
				fmt.Printf("STUCK thread %d at %s\n", current, threads[current].name)
				os.Exit(3)
			}
		}
	}
}

type horizonPanic struct{}

//go:norace
func point(op int, l *LockState, name string) {
	me := current
	threads[me].op = op
	threads[me].lock = l
	threads[me].name = name
	threads[me].still = false
	decide(me)
	if horizon && op != opDone {
		panic(horizonPanic{})
	}
}

//go:norace
func decide(me int) {
	var mask uint16
	lowest := -1
	left := false
	for i := 0; i < nthreads; i++ {
		if threads[i].op != opDone {
			left = true
		}
		if enabled(i) {
			mask |= 1 << uint(i)
			if lowest < 0 {
				lowest = i
			}
		}
	}
	if lowest < 0 {
		if left {
			deadlock = true
		}
		g := gen
		done := threads[me].op == opDone
		setTurn(-1)
		if !done {
			waitTurn(me, g)
		}
		return
	}
	running := mask&(1<<uint(me)) != 0
	chosen := lowest
	if running {
		chosen = me
	}
	g := gen
	if npoints >= MaxPoints {
		horizon = true
	} else {
		if iplan < nplan && plan[iplan].Point == npoints {
			c := plan[iplan].Thread
			iplan++
			if mask&(1<<uint(c)) == 0 {
				diverged = true
			} else {
				chosen = c
			}
		}
		records[npoints] = PointRecord{Enabled: mask, Running: running, Thread: uint8(me), Chosen: uint8(chosen)}
		npoints++
	}
	if chosen == me {
		return
	}
	current = chosen
	done := threads[me].op == opDone
	setTurn(chosen)
	if !done {
		waitTurn(me, g)
	}
}

// Point is a scheduling point at which the thread can always go on.
//
//go:norace
func Point(name string) {
	if active {
		point(opStep, nil, name)
	}
}

// P is the statement level scheduling point, inserted only in some builds.
//
//go:norace
func P() {
	if active && StmtPoints {
		point(opStep, nil, "stmt")
		threads[current].still = true
	}
}

// Unlocked is the point after a lock has been released.
//
//go:norace
func Unlocked(name string) {
	if active {
		point(opStep, nil, name)
		threads[current].still = true
	}
}

// request waits for the lock to be available in the way op says. Just after a statement or
// an unlock point there is nothing to decide, unless the lock is not available.
//
//go:norace
func request(op int, l *LockState, name string) {
	me := current
	threads[me].op = op
	threads[me].lock = l
	if threads[me].still && enabled(me) {
		threads[me].still = false
		return
	}
	point(op, l, name)
}

// Lock acquires l for writing in the scheduler's view; the caller then takes the
// real lock, which is free. A thread asks for the lock no sooner than no other writes under
// it, which is as good as asking earlier; when others read under it, to ask is a step of its
// own, because it holds off new readers.
//
//go:norace
func (l *LockState) Lock() {
	if active {
		request(opRequest, l, "lock")
		if l.readers > 0 {
			l.pending++
			point(opLock, l, "lock.wait")
			l.pending--
		}
	} else if l.writer || l.readers > 0 {
		panic("verifrt: deadlock: lock is already held and nothing else is running")
	}
	l.writer = true
}

//go:norace
func (l *LockState) TryLock() bool {
	Point("trylock")
	if l.writer || l.readers > 0 {
		return false
	}
	l.writer = true
	return true
}

//go:norace
func (l *LockState) Unlock() {
	l.writer = false
}

//go:norace
func (l *LockState) RLock() {
	if active {
		request(opRLock, l, "rlock")
	} else if l.writer {
		panic("verifrt: deadlock: lock is already held and nothing else is running")
	}
	l.readers++
}

//go:norace
func (l *LockState) TryRLock() bool {
	Point("tryrlock")
	if l.writer || l.pending > 0 {
		return false
	}
	l.readers++
	return true
}

//go:norace
func (l *LockState) RUnlock() {
	l.readers--
}

//go:norace
func enabled(i int) bool {
	switch threads[i].op {
	case opDone:
		return false
	case opRequest:
		return !threads[i].lock.writer
	case opLock:
		return !threads[i].lock.writer && threads[i].lock.readers == 0
	case opRLock:
		return !threads[i].lock.writer && threads[i].lock.pending == 0
	case opWait:
		return threads[i].lock.count <= 0
	}
	return true
}

// Add counts for a wait group.
//
//go:norace
func (l *LockState) Add(n int) { l.count += n }

// Wait waits for the wait group to be empty.
//
//go:norace
func (l *LockState) Wait() {
	if active {
		point(opWait, l, "wait")
	}
}

// Go is the go statement of the code under test: what it starts is a thread like the others.
//
//go:norace
func Go(f func()) {
	if !active {
		go f()
		return
	}
	id := -1
	for i := nbodies; i < nthreads; i++ {
		if threads[i].op == opDone {
			id = i
			break
		}
	}
	if id < 0 {
		if nthreads == MaxThreads {
			// It may as well run at once.
			f()
			return
		}
		id = nthreads
		panics[id] = ""
		nthreads++
	}
	threads[id] = threadState{op: opStep, name: "start"}
	running.Add(1)
	go threadMain(id, gen, f, running)
	point(opStep, nil, "go")
}

// Result describes one execution.
type Result struct {
	Deadlock string
	Horizon  bool
	Diverged bool
	Panics   []string
	Records  []PointRecord
}

//go:norace
func threadMain(id, g int, body func(), wg *sync.WaitGroup) {
	waitTurn(id, g)
	runBody(id, body)
	// A real synchronisation edge from the end of each thread to the harness, which
	// goes on to look at what the threads did; it orders no thread before another.
	wg.Done()
	point(opDone, nil, "done")
}

func runBody(id int, body func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(horizonPanic); !ok {
				notePanic(id, fmt.Sprintf("%v", r))
			}
		}
	}()
	body()
}

//go:norace
func notePanic(id int, s string) { panics[id] = s }

// Run executes the bodies as threads under the given schedule, to completion.
func Run(deviations []Deviation, bodies ...func()) (res Result) {
	if len(bodies) > MaxThreads || len(deviations) > maxPlan {
		panic("verifrt: too many threads or deviations")
	}
	var wg sync.WaitGroup
	wg.Add(len(bodies))
	begin(deviations, len(bodies), &wg)
	for i, body := range bodies {
		go threadMain(i, gen, body, &wg)
	}
	kick()
	waitTurn(-1, gen)
	res = finish()
	if res.Deadlock == "" {
		wg.Wait()
	}
	return
}

//go:norace
func begin(deviations []Deviation, n int, wg *sync.WaitGroup) {
	gen++
	nthreads, nbodies = n, n
	running = wg
	for i := 0; i < n; i++ {
		threads[i].op = opStep
		threads[i].lock = nil
		threads[i].name = "start"
		threads[i].still = false
		panics[i] = ""
	}
	nplan = len(deviations)
	for i, d := range deviations {
		plan[i] = d
	}
	iplan, npoints = 0, 0
	deadlock, horizon, diverged = false, false, false
	turn = -2
	active = true
}

// kick makes the first decision: the harness is not a thread, so any may be chosen.
//
//go:norace
func kick() {
	var mask uint16
	for i := 0; i < nthreads; i++ {
		mask |= 1 << uint(i)
	}
	chosen := 0
	if iplan < nplan && plan[iplan].Point == 0 {
		chosen = plan[iplan].Thread
		iplan++
	}
	records[0] = PointRecord{Enabled: mask, Chosen: uint8(chosen), Thread: 255}
	npoints = 1
	current = chosen
	setTurn(chosen)
}

//go:norace
func finish() (res Result) {
	active = false
	res.Horizon = horizon
	res.Diverged = diverged || iplan != nplan
	if deadlock {
		s := "deadlock:"
		for i := 0; i < nthreads; i++ {
			if threads[i].op != opDone {
				s += fmt.Sprintf(" thread %d at %s;", i, threads[i].name)
			}
		}
		res.Deadlock = s
	}
	for i := 0; i < nthreads; i++ {
		if panics[i] != "" {
			res.Panics = append(res.Panics, fmt.Sprintf("thread %d: %s", i, panics[i]))
		}
	}
	res.Records = records[:npoints:npoints]
	return
}
