package main

import (
	"fmt"
	"maps"
	"slices"
	"strings"

	"github.com/dball/destructive/internal/database"
	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
	rt "github.com/dball/destructive/internal/verifrt"
	pdb "github.com/dball/destructive/pkg/database"
)

// cworld is what the threads of an execution share.
type cworld struct {
	db   Database
	pdb  pdb.Database
	env  Env
	old  Snapshot      // taken before anything runs
	pold *pdb.Snapshot // likewise
	ids  []uint64      // of the structs recorded before anything runs
	// shared is whatever else the program wants its threads to share.
	shared any
}

// cthread is one thread of a program, with what it has seen.
type cthread struct {
	w    *cworld
	me   int
	obs  []*cobs
	snap Snapshot
	ps   *pdb.Snapshot
}

// cobs is what one operation answers.
type cobs struct {
	name       string
	look       bool
	start, end int
	ok         bool
	id         ID
	temps      map[TempID]ID
	ids        []uint64
	snap       Snapshot
	rows       []mdatum
	text       []string
}

// cop is an operation of a thread. One that looks at snapshots only has no place of its own
// among the writes and reads.
type cop struct {
	name string
	look bool
	run  func(t *cthread, o *cobs)
}

// cprogram is one script for each thread, and the world they run in.
type cprogram struct {
	setup   func() *cworld
	scripts [][]cop
	// apart gives each thread a world of its own.
	apart bool
}

func (t *cthread) do(op cop) {
	o := &cobs{name: op.name, look: op.look}
	t.obs = append(t.obs, o)
	if rt.Coarse {
		rt.Point("operation")
	}
	o.start = rt.Now()
	op.run(t, o)
	o.end = rt.Now()
}

// outcome describes all that the threads have seen, and what the database has come to hold,
// up to the choice of ids.
func (w *cworld) outcome(threads []*cthread) string {
	names := map[ID][]string{}
	for n, id := range w.env {
		names[id] = append(names[id], n)
	}
	for i, id := range w.ids {
		names[ID(id)] = append(names[ID(id)], fmt.Sprint("s", i))
	}
	for _, t := range threads {
		for i, o := range t.obs {
			if o.id != 0 {
				names[o.id] = append(names[o.id], fmt.Sprintf("tx%d.%d", t.me, i))
			}
			for k, id := range o.temps {
				names[id] = append(names[id], fmt.Sprintf("%s%d.%d", k, t.me, i))
			}
			for k, id := range o.ids {
				names[ID(id)] = append(names[ID(id)], fmt.Sprintf("r%d.%d.%d", t.me, i, k))
			}
		}
	}
	label := map[ID]string{}
	for id, ns := range names {
		sortStrings(ns)
		label[id] = strings.Join(ns, "=")
	}
	name := func(id ID) string {
		if n, ok := label[id]; ok {
			return n
		}
		return fmt.Sprintf("#%d", uint64(id))
	}
	lines := func(ds []mdatum, sorted bool) string {
		rows := make([]string, 0, len(ds))
		var b strings.Builder
		for _, d := range ds {
			if d.t < sys.FirstUserID {
				continue
			}
			b.Reset()
			b.WriteString(name(d.e))
			b.WriteByte(' ')
			b.WriteString(name(d.a))
			b.WriteByte(' ')
			if d.v.kind == 'r' {
				b.WriteString(name(ID(d.v.u)))
			} else {
				b.WriteString(d.v.String())
			}
			b.WriteByte(' ')
			b.WriteString(name(d.t))
			rows = append(rows, b.String())
		}
		if sorted {
			sortStrings(rows)
		}
		return strings.Join(rows, "; ")
	}
	dumps := map[Snapshot]string{}
	dump := func(s Snapshot) string {
		if s == nil {
			return "no snapshot"
		}
		if d, ok := dumps[s]; ok {
			return d
		}
		var d string
		if w.pdb != nil {
			d = canonDump(s, label)
		} else {
			d = lines(collect(s, Claim{}), true)
		}
		dumps[s] = d
		return d
	}
	var b strings.Builder
	for _, t := range threads {
		for i, o := range t.obs {
			fmt.Fprintf(&b, "%d.%d %s", t.me, i, o.name)
			if !o.look {
				fmt.Fprintf(&b, " ok=%v sees %s", o.ok, dump(o.snap))
			}
			if o.rows != nil {
				fmt.Fprintf(&b, " rows %s", lines(o.rows, true))
			}
			for _, x := range o.text {
				b.WriteByte(' ')
				b.WriteString(x)
			}
			b.WriteByte('\n')
		}
	}
	if w.pdb != nil {
		b.WriteString(dump(datumsOf(w.pdb.Read())))
	} else {
		b.WriteString(dump(w.db.Read()))
	}
	return b.String()
}

func (p *cprogram) String() string {
	var b strings.Builder
	for i, s := range p.scripts {
		if i > 0 {
			b.WriteString(" || ")
		}
		for j, op := range s {
			if j > 0 {
				b.WriteString("; ")
			}
			b.WriteString(op.name)
		}
	}
	return b.String()
}

// seqOrder is a sequential order of the operations: the thread of each in turn.
type seqOrder []uint8

// chunk is an operation that has a place in the order, with those around it that do not.
type chunk struct{ from, to, main int }

func chunksOf(s []cop) (out []chunk) {
	c := chunk{main: -1}
	for i, op := range s {
		if !op.look {
			if c.main >= 0 {
				out = append(out, c)
				c = chunk{from: i}
			}
			c.main = i
		}
		c.to = i + 1
	}
	return append(out, c)
}

// alone runs f as the only thread, should it start others.
func alone(f func()) {
	if rt.Spawns == 0 || rt.Active() {
		f()
		return
	}
	was := rt.StmtPoints
	rt.StmtPoints = false
	var r any
	res := rt.Run(nil, func() {
		defer func() {
			x := recover()
			switch x.(type) {
			case prune, machineryError:
				r = x
			case nil:
			default:
				panic(x)
			}
		}()
		f()
	})
	rt.StmtPoints = was
	switch {
	case r != nil:
		panic(r)
	case res.Deadlock != "":
		panic(res.Deadlock)
	case len(res.Panics) > 0:
		panic(strings.Join(res.Panics, "; "))
	case res.Horizon:
		panic(machineryError("too many points"))
	}
}

// sequential runs the operations one after another in every order the threads admit, and
// returns the orders that lead to each outcome.
func (p *cprogram) sequential() (outcomes map[string][]seqOrder, panics string) {
	outcomes = map[string][]seqOrder{}
	chunks := make([][]chunk, len(p.scripts))
	for t, s := range p.scripts {
		chunks[t] = chunksOf(s)
	}
	run := func(o seqOrder) {
		defer func() {
			if r := recover(); r != nil {
				panics = fmt.Sprint(r)
			}
		}()
		w, threads := p.start()
		at := make([]int, len(p.scripts))
		for _, t := range o {
			c := chunks[t][at[t]]
			at[t]++
			for _, op := range p.scripts[t][c.from:c.to] {
				alone(func() { threads[t].do(op) })
			}
		}
		k := p.outcome(w, threads)
		outcomes[k] = append(outcomes[k], o)
	}
	var rec func(o seqOrder, next []int)
	rec = func(o seqOrder, next []int) {
		done := true
		for t := range p.scripts {
			if next[t] < len(chunks[t]) {
				done = false
				n := slices.Clone(next)
				n[t]++
				rec(append(slices.Clone(o), uint8(t)), n)
			}
		}
		if done {
			run(o)
		}
	}
	if p.apart {
		// One after another is as good as any.
		var o seqOrder
		for t := range p.scripts {
			for range chunks[t] {
				o = append(o, uint8(t))
			}
		}
		run(o)
		return
	}
	rec(nil, make([]int, len(p.scripts)))
	return
}

func (p *cprogram) start() (w *cworld, threads []*cthread) {
	alone(func() { w = p.setup() })
	for i := range p.scripts {
		if p.apart && i > 0 {
			alone(func() { w = p.setup() })
		}
		threads = append(threads, &cthread{w: w, me: i, snap: w.old, ps: w.pold})
	}
	return threads[0].w, threads
}

// outcome describes all that the threads have seen, and what has become of their worlds.
func (p *cprogram) outcome(w *cworld, threads []*cthread) (s string) {
	if !p.apart {
		alone(func() { s = w.outcome(threads) })
		return
	}
	var out []string
	for _, t := range threads {
		alone(func() { out = append(out, t.w.outcome([]*cthread{t})) })
	}
	return strings.Join(out, "\n")
}

// node is an execution under a schedule.
type node struct {
	devs    []rt.Deviation
	options []rt.Deviation
	cost    []int
	spent   int
	records []rt.PointRecord
	bad     string
	outcome string
	steps   int
	trace   []string
}

// execute runs the program under a schedule and judges the outcome.
func (p *cprogram) execute(devs []rt.Deviation, outcomes map[string][]seqOrder) (n *node) {
	w, threads := p.start()
	bodies := make([]func(), len(threads))
	for i, t := range threads {
		script := p.scripts[i]
		bodies[i] = func() {
			for _, op := range script {
				t.do(op)
			}
		}
	}
	races := raceErrors()
	res := rt.Run(devs, bodies...)
	n = &node{devs: devs}
	switch {
	case res.Diverged:
		panic(machineryError("the schedule diverged: the program is not deterministic: " + p.String()))
	case res.Deadlock != "":
		n.bad = res.Deadlock
	case res.Horizon:
		n.bad = "the operations do not complete"
	case len(res.Panics) > 0:
		n.bad = "the operations panic: " + strings.Join(res.Panics, "; ")
	}
	if n.bad == "" && raceErrors() != races {
		n.bad = "the operations race:" + raceReport()
	}
	n.records = slices.Clone(res.Records)
	if n.bad != "" {
		return
	}
	for _, t := range threads {
		n.steps += len(t.obs)
	}
	if outcomes == nil {
		return
	}
	n.outcome = p.outcome(w, threads)
	var why string
orders:
	for _, o := range outcomes[n.outcome] {
		// The operations in that order.
		at := make([]int, len(threads))
		var ops []*cobs
		for _, t := range o {
			c := chunksOf(p.scripts[t])[at[t]]
			at[t]++
			if c.main >= 0 {
				ops = append(ops, threads[t].obs[c.main])
			}
		}
		for i := range ops {
			for _, later := range ops[i+1:] {
				if later.end < ops[i].start && !p.apart {
					why = "the order that explains it contradicts real time"
					continue orders
				}
			}
		}
		return
	}
	n.bad = "no sequential order of the operations explains what they answer and leave:"
	if why != "" {
		n.bad = why + ":"
	}
	n.bad += "\n" + n.outcome
	return
}

// schedules runs the programs under every schedule that preempts a thread that could go on at
// most so many times; where a thread cannot go on, or ends, every choice of the next is taken.
func schedules(c *Ctx, name string, preemptions int, statements, oracle bool, program func(ch *Ch) *cprogram) {
	statements = statements && !rt.Coarse
	if rt.Spawns > 0 {
		// With threads of the code's own, every choice counts as a preemption.
		preemptions = min(preemptions, 2)
		if raceDetector {
			preemptions = 1
		}
	}
	rt.StmtPoints = statements
	var (
		lastKey  string
		lastProg *cprogram
		outcomes map[string][]seqOrder
		panics   string
		nodes    []*node
	)
	c.Explore(name, func(ch *Ch) {
		rt.StmtPoints = statements
		p := program(ch)
		key := fmt.Sprint(ch.rec)
		if key != lastKey || lastProg == nil {
			lastKey, lastProg, nodes = key, p, nil
			outcomes, panics = nil, ""
			if oracle {
				outcomes, panics = p.sequential()
			}
		}
		if panics != "" {
			// That is not a matter of concurrency.
			ch.Prune()
		}
		ch.Log("%s", p)
		var devs []rt.Deviation
		for depth := 0; ; depth++ {
			var n *node
			if !ch.logging && depth < len(nodes) && slices.Equal(nodes[depth].devs, devs) {
				n = nodes[depth]
			} else {
				n = p.execute(slices.Clone(devs), outcomes)
				spent := 0
				if depth > 0 {
					spent = nodes[depth-1].spent
					last := devs[depth-1]
					if nodes[depth-1].records[last.Point].Running || rt.Spawns > 0 {
						spent++
					}
				}
				n.expand(spent, preemptions)
				nodes = append(nodes[:depth:depth], n)
			}
			i := 0
			if n.bad == "" {
				i = ch.Pick(1 + len(n.options))
			}
			if i == 0 {
				ch.Log("schedule %v: %s", devs, n.timeline())
				for range n.steps {
					ch.Step()
				}
				if oracle {
					ch.Validated()
				}
				if oracle {
					ch.State(hashString(n.outcome))
				} else {
					ch.State(hashString(key + n.timeline()))
				}
				if n.bad != "" {
					ch.Log("%s", n.bad)
					ch.Fail("%s", strings.SplitN(n.bad, "\n", 2)[0])
				}
				return
			}
			devs = append(devs, n.options[i-1])
		}
	})
	rt.StmtPoints = false
}

// expand finds the deviations that may follow those of the schedule.
func (n *node) expand(spent, preemptions int) {
	n.spent = spent
	from := 0
	if k := len(n.devs); k > 0 {
		from = n.devs[k-1].Point + 1
	}
	if len(n.devs) >= 60 {
		return
	}
	for i := from; i < len(n.records); i++ {
		r := n.records[i]
		if (r.Running || rt.Spawns > 0) && spent >= preemptions {
			continue
		}
		for t := range rt.MaxThreads {
			if r.Enabled&(1<<t) != 0 && uint8(t) != r.Chosen {
				n.options = append(n.options, rt.Deviation{Point: i, Thread: t})
			}
		}
	}
}

// timeline describes the schedule as the runs of points each thread passes.
func (n *node) timeline() string {
	var b strings.Builder
	k := 0
	for i, r := range n.records {
		k++
		if i+1 == len(n.records) || n.records[i+1].Chosen != r.Chosen {
			fmt.Fprintf(&b, "T%d×%d ", r.Chosen, k)
			k = 0
		}
	}
	return b.String()
}

// datumWorld is a database in which the setup has been written.
func datumWorld(setup [][]Atom) func() *cworld {
	return func() *cworld {
		w := &cworld{db: database.NewIndexDatabase(2, 8, 8), env: Env{}}
		for i, atoms := range setup {
			var req Request
			for _, a := range atoms {
				if !w.env.add(&req, a) {
					panic(machineryError("setup"))
				}
			}
			res := w.db.Write(req)
			if res.Error != nil {
				panic(prune{})
			}
			w.env[fmt.Sprint("!tx", i)] = res.ID
			for t, id := range res.TempIDs {
				w.env[string(t)] = id
			}
		}
		w.old = w.db.Read()
		return w
	}
}

// write is an operation that writes the atoms. What goes in and comes out is the caller's.
func write(name string, atoms func(t *cthread) []Atom) cop {
	return cop{name: "write " + name, run: func(t *cthread, o *cobs) {
		var req Request
		for _, a := range atoms(t) {
			t.w.env.add(&req, a)
		}
		res := t.w.db.Write(req)
		o.ok, o.id, o.snap = res.Error == nil, res.ID, res.Snapshot
		o.temps = maps.Clone(res.TempIDs)
		t.snap = res.Snapshot
		clear(res.TempIDs)
		clear(req.Claims)
		for _, r := range req.Retractions {
			clear(r.Constraints)
		}
	}}
}

func read() cop {
	return cop{name: "read", run: func(t *cthread, o *cobs) {
		t.snap = t.w.db.Read()
		o.ok, o.snap = true, t.snap
	}}
}

// look is an operation that selects from the snapshot the thread saw last.
func look(name string, query func(w *cworld) Claim) cop {
	return cop{name: "select " + name, look: true, run: func(t *cthread, o *cobs) {
		o.rows = rowsOf(t.snap, query(t.w))
	}}
}

func rowsOf(s Snapshot, q Claim) []mdatum {
	rows := []mdatum{}
	for d := range s.Select(q) {
		rt.P()
		rows = append(rows, toD(d))
	}
	return rows
}
