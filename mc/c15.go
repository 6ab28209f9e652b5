package main

import (
	"fmt"
	"iter"
	"reflect"
	"runtime"

	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
	rt "github.com/dball/destructive/internal/verifrt"
	pdb "github.com/dball/destructive/pkg/database"
)

func init() {
	registerSharded("C15", c15)
	registerSharded("C16", c16)
}

type kPerson struct {
	Name string  `attr:"k/name,identity"`
	Age  int     `attr:"k/age"`
	Mail *string `attr:"k/mail,unique"`
}
type kFriend struct {
	Name   string             `attr:"k/name,identity"`
	Boss   *kFriend           `attr:"k/boss"`
	Tags   []string           `attr:"k/tags,value=k/tag"`
	Things map[string]*kThing `attr:"k/things,key=k/what"`
}
type kThing struct {
	What string `attr:"k/what"`
	N    int    `attr:"k/n"`
}
type kOther struct {
	Age string `attr:"k/age"`
}

// concSetup declares attributes and records an entity or two.
func concSetup() [][]Atom {
	return [][]Atom{
		schema(adecl{"name", tString, false, uIdent}, adecl{"badge", tInt, false, uValue}, adecl{"age", tInt, false, 0},
			adecl{"tags", tString, true, 0}, adecl{"boss", tRef, false, 0}),
		{C(TempID("x"), Ident("name"), String("x")), C(TempID("x"), Ident("age"), Int(0)), C(TempID("x"), Ident("badge"), Int(1)),
			C(TempID("x"), Ident("tags"), String("t")), C(TempID("x"), sys.DbIdent, String("ix"))},
	}
}

func of(atoms ...Atom) func(*cthread) []Atom {
	return func(*cthread) []Atom { return atoms }
}

// datumOps are writes that get in each other's way, and a read.
func datumOps() []cop {
	name, badge, age, tags, boss := Ident("name"), Ident("badge"), Ident("age"), Ident("tags"), Ident("boss")
	return []cop{
		write("upsert k", func(t *cthread) []Atom {
			return []Atom{C(TempID("n"), name, String("k")), C(TempID("n"), age, Int(int64(10+t.me)))}
		}),
		write("set age of x", func(t *cthread) []Atom { return []Atom{C(Ident("ix"), age, Int(int64(20+t.me)))} }),
		write("retract x", of(RE(Ident("ix")))),
		write("take badge 2", of(C(TempID("b"), badge, Int(2)))),
		write("use new attribute", func(t *cthread) []Atom {
			return []Atom{C(Ident("ix"), Ident("fresh"), Int(int64(t.me))), C(Ident("ix"), tags, String("f"))}
		}),
		write("declare it", of(schema(adecl{"fresh", tInt, true, 0})...)),
		read(),
		write("take over badge 1", of(RC(L(name, String("x")), badge, Int(1)), C(TempID("c"), badge, Int(1)))),
		write("set age of k", func(t *cthread) []Atom {
			return []Atom{C(L(name, String("k")), age, Int(int64(30+t.me))), C(Ident("ix"), boss, L(name, String("k")))}
		}),
		write("tag x, rejected late", func(t *cthread) []Atom {
			return []Atom{C(Ident("ix"), tags, String(fmt.Sprint("late", t.me))), C(TempID("d"), age, Int(1)), C(TempID("e"), age, String("wrong"))}
		}),
		write("name x", func(t *cthread) []Atom { return []Atom{C(Ident("ix"), name, String("k"))} }),
		write("ident", of(C(TempID("i"), sys.DbIdent, String("ii")), C(TempID("i"), tags, String("i")))),
		write("rename ix", of(C(Ident("ix"), sys.DbIdent, String("iy")))),
		write("tag x", func(t *cthread) []Atom {
			return []Atom{C(Ident("ix"), tags, String(fmt.Sprint("t", t.me))), RC(Ident("ix"), tags, String("t"))}
		}),
	}
}

// idleDatums are writes that change nothing but the transaction.
func idleDatums() []cop {
	return []cop{
		write("nothing", of()),
		write("what is so", of(C(Ident("ix"), Ident("age"), Int(0)), C(Ident("ix"), Ident("tags"), String("t")))),
		write("retract what is not", of(RC(Ident("ix"), Ident("age"), Int(77)))),
	}
}

// idleRecords do the same by structs.
func idleRecords() []cop {
	return []cop{
		record("nothing", func(*cthread) ([]any, []any) { return nil, nil }),
		record("what is so", func(*cthread) ([]any, []any) { return []any{kPerson{"x", 0, nil}}, nil }),
	}
}

// structWorld is a database of structs.
func structWorld(first ...any) func() *cworld {
	return func() *cworld {
		w := &cworld{pdb: pdb.NewDatabase(smallConfig)}
		if len(first) > 0 {
			res := w.pdb.Write(pdb.Request{Assertions: first})
			if res.Error != nil {
				panic(prune{})
			}
			w.ids = res.IDs
		}
		w.pold = w.pdb.Read()
		w.old = datumsOf(w.pold)
		return w
	}
}

func record(name string, xs func(t *cthread) (assert, retract []any)) cop {
	return cop{name: "record " + name, run: func(t *cthread, o *cobs) {
		a, r := xs(t)
		res := t.w.pdb.Write(pdb.Request{Assertions: a, Retractions: r})
		o.ok = res.Error == nil
		if o.ok {
			o.ids = res.IDs
		}
		t.ps = res.Snap
		o.snap = datumsOf(res.Snap)
	}}
}

var freshTypes int

// unseen returns a struct type like no other in this process.
func unseen() reflect.Type {
	freshTypes++
	pad := reflect.StructField{Name: fmt.Sprint("Pad", freshTypes), Type: reflect.TypeFor[int]()}
	leaf := reflect.StructOf([]reflect.StructField{pad, {Name: "What", Type: reflect.TypeFor[string](), Tag: `attr:"k/what"`}})
	return reflect.StructOf([]reflect.StructField{pad,
		{Name: "Name", Type: reflect.TypeFor[string](), Tag: `attr:"k/name,identity"`},
		{Name: "Leaf", Type: reflect.PointerTo(leaf), Tag: `attr:"k/leaf"`},
	})
}

// unseenOps record structs of types not seen before.
func unseenOps() (out []cop) {
	for i, which := range []string{"one", "the other"} {
		for _, leaf := range []bool{false, true} {
			out = append(out, record(fmt.Sprintf("of %s unseen type, leaf %v", which, leaf), asserts(func(t *cthread) []any {
				x := reflect.New(t.w.shared.([]reflect.Type)[i]).Elem()
				x.Field(1).SetString("u")
				if leaf {
					x.Field(2).Set(reflect.New(x.Field(2).Type().Elem()))
				}
				return []any{x.Interface()}
			})))
		}
	}
	return append(out, record("person", asserts(func(t *cthread) []any { return []any{kPerson{"p", 1, nil}} })), readStructs())
}

// unseenWorld has two types not seen before.
func unseenWorld(world func() *cworld) func() *cworld {
	return func() *cworld {
		w := world()
		w.shared = []reflect.Type{unseen(), unseen()}
		return w
	}
}

func asserts(xs func(t *cthread) []any) func(t *cthread) (assert, retract []any) {
	return func(t *cthread) ([]any, []any) { return xs(t), nil }
}

func readStructs() cop {
	return cop{name: "read", run: func(t *cthread, o *cobs) {
		t.ps = t.w.pdb.Read()
		o.ok, o.snap = true, datumsOf(t.ps)
	}}
}

// find is an operation that finds an entity of the setup.
func find(v sview, i int) cop {
	return cop{name: fmt.Sprint("find ", v.typ.Name(), " ", i), look: true, run: func(t *cthread, o *cobs) {
		if t.w.pold == nil || i >= len(t.w.ids) {
			return
		}
		x, err := v.find(t.ps, t.w.ids[i])
		o.text = append(o.text, show(x), fmt.Sprint(err))
	}}
}

func structOps() []cop {
	viewOf[kPerson]()
	viewOf[kFriend]()
	return []cop{
		record("person k", asserts(func(t *cthread) []any { return []any{kPerson{"k", 10 + t.me, nil}} })),
		record("friend of x", asserts(func(t *cthread) []any {
			return []any{&kFriend{Name: "k", Boss: &kFriend{Name: "x"}, Tags: []string{"a"}}}
		})),
		record("with mail", asserts(func(t *cthread) []any {
			return []any{kPerson{"l", 1, nil}, kPerson{fmt.Sprint("m", t.me), 2, ptr("mail")}}
		})),
		record("x and none", func(t *cthread) ([]any, []any) { return []any{kPerson{"k", 5, nil}}, []any{kPerson{Name: "x"}} }),
		readStructs(),
		record("conflicting type", asserts(func(t *cthread) []any { return []any{kOther{"s"}, kPerson{"o", 1, nil}} })),
		record("x", asserts(func(t *cthread) []any { return []any{kPerson{"x", 20 + t.me, ptr("mail")}} })),
		record("things", asserts(func(t *cthread) []any {
			return []any{&kFriend{Name: fmt.Sprint("t", t.me), Things: map[string]*kThing{"p": {"p", 1}, "q": {"q", 2}}}}
		})),
	}
}

// rejectedDatums are writes rejected at each of the places where writes are.
func rejectedDatums() []cop {
	name, badge, age, tags := Ident("name"), Ident("badge"), Ident("age"), Ident("tags")
	bad := func(what string, atoms ...Atom) cop {
		return write("rejected for "+what, func(t *cthread) []Atom {
			return append([]Atom{C(Ident("ix"), tags, String(fmt.Sprint("r", t.me))), C(TempID("r"), name, String(fmt.Sprint("r", t.me)))}, atoms...)
		})
	}
	return []cop{
		bad("no such ident", C(Ident("none"), age, Int(1))),
		bad("no such attribute", C(TempID("r"), Ident("none"), Int(1))),
		bad("a wrong type", C(TempID("r"), age, String("1"))),
		bad("a value taken", C(TempID("r"), badge, Int(1))),
		bad("two identities", C(TempID("r"), name, String("x"))),
		bad("a claim of the system", C(sys.DbIdent, age, Int(1))),
		bad("an incomplete attribute", C(TempID("q"), sys.AttrType, tInt)),
		bad("a retraction of none", RE(Ident("none"))),
		bad("no such lookup", RC(L(name, String("none")), age, Int(1))),
	}
}

type kBad struct {
	C chan int `attr:"k/bad"`
}

// rejectedRecords are records rejected at each of the places where they are.
func rejectedRecords() []cop {
	bad := func(what string, f func() ([]any, []any)) cop {
		return record("rejected for "+what, func(t *cthread) ([]any, []any) {
			assert, retract := f()
			return append([]any{kPerson{fmt.Sprint("r", t.me), t.me, nil}}, assert...), retract
		})
	}
	return []cop{
		bad("nil", func() ([]any, []any) { return []any{nil}, nil }),
		bad("a nil pointer", func() ([]any, []any) { return []any{(*kPerson)(nil)}, nil }),
		bad("no struct", func() ([]any, []any) { return []any{7}, nil }),
		bad("a bad model", func() ([]any, []any) { return []any{kBad{}}, nil }),
		bad("retracting nil", func() ([]any, []any) { return nil, []any{(*kPerson)(nil)} }),
		bad("retracting what no identity finds", func() ([]any, []any) { return nil, []any{kPerson{Name: "none"}} }),
		bad("retracting no identity", func() ([]any, []any) { return nil, []any{kThing{"w", 1}} }),
		bad("a value taken twice", func() ([]any, []any) { return []any{kPerson{"s1", 1, ptr("same")}, kPerson{"s2", 1, ptr("same")}}, nil }),
		bad("a conflicting attribute", func() ([]any, []any) { return []any{kOther{"s"}}, nil }),
	}
}

// pairsOf picks n operations of which the order does not matter.
func pairsOf(ch *Ch, ops []cop, n int) (out []cop) {
	from := 0
	for range n {
		from += ch.Pick(len(ops) - from)
		out = append(out, ops[from])
	}
	return
}

func c15(c *Ctx) {
	runtime.GOMAXPROCS(1)
	c.assume("threads are preempted only at the scheduling points the instrumentation adds: before and after operations on locks and atomics, and, where a scenario says so, before every statement of the packages of databases, of struct models and of schemas")
	setup := datumWorld(concSetup())
	ops := datumOps()
	everything := look("everything", func(*cworld) Claim { return Claim{} })
	name := func(s string, pb int) string { return fmt.Sprintf("%s, %d preemptions", s, pb) }
	pb := c.bound(2, 3)
	schedules(c, name("two writes, at statements", pb), pb, true, true, func(ch *Ch) *cprogram {
		s := pairsOf(ch, ops, 2)
		return &cprogram{setup: setup, scripts: [][]cop{{s[0]}, {s[1]}}}
	})
	pb = c.bound(1, 2)
	schedules(c, name("three writes, at statements", pb), pb, true, true, func(ch *Ch) *cprogram {
		s := pairsOf(ch, ops[:c.bound(6, len(ops))], 3)
		return &cprogram{setup: setup, scripts: [][]cop{{s[0]}, {s[1]}, {s[2]}}}
	})
	pb = c.bound(4, 6)
	schedules(c, name("two threads of two, at locks", pb), pb, false, true, func(ch *Ch) *cprogram {
		few := ops[:c.bound(9, len(ops))]
		i, j := ch.Pick(len(few)), ch.Pick(len(few))
		k := i + ch.Pick(len(few)-i)
		l := ch.Pick(len(few))
		return &cprogram{setup: setup, scripts: [][]cop{{few[i], few[j]}, {few[k], few[l]}}}
	})
	pb = c.bound(1, 2)
	schedules(c, name("two threads of two, at statements", pb), pb, true, true, func(ch *Ch) *cprogram {
		few := ops[:c.bound(5, 9)]
		i, j := ch.Pick(len(few)), ch.Pick(len(few))
		k := i + ch.Pick(len(few)-i)
		l := ch.Pick(len(few))
		return &cprogram{setup: setup, scripts: [][]cop{{few[i], few[j]}, {few[k], few[l]}}}
	})
	pb = c.bound(1, 2)
	queries := []cop{
		everything,
		look("age of x", func(w *cworld) Claim { return Claim{E: w.env["x"], A: Ident("age")} }),
		look("by name", func(*cworld) Claim { return Claim{A: Ident("name"), V: String("x")} }),
		{name: "resolve and count", look: true, run: func(t *cthread, o *cobs) {
			s := t.snap
			rt.P()
			o.text = append(o.text, fmt.Sprint(s.ResolveIdent("fresh") != 0, s.Count(Claim{A: Ident("tags")}), s.ResolveIdent("ix") == t.w.env["x"]))
			rt.P()
			o.text = append(o.text, fmt.Sprint(s.ResolveAttrIdent(t.w.env["age"]), s.Has(Claim{E: t.w.env["x"]})))
		}},
	}
	schedules(c, name("a reader of a snapshot among writes", pb), pb, true, true, func(ch *Ch) *cprogram {
		q := pick(ch, queries)
		reader := []cop{q, q}
		if ch.Bool() {
			reader = []cop{read(), q, q}
		}
		p := &cprogram{setup: setup, scripts: [][]cop{reader, {pick(ch, ops)}}}
		if c.thorough() {
			p.scripts[1] = append(p.scripts[1], pick(ch, ops))
		}
		return p
	})
	// Structs.
	sops := structOps()
	structs := structWorld(kPerson{"x", 0, nil}, kFriend{Name: "y", Boss: &kFriend{Name: "z"}, Tags: []string{"s"}})
	empty := structWorld()
	pb = c.bound(1, 2)
	schedules(c, name("two records, at statements", pb), pb, true, true, func(ch *Ch) *cprogram {
		world := structs
		if ch.Bool() {
			world = empty
		}
		s := pairsOf(ch, sops, 2)
		return &cprogram{setup: world, scripts: [][]cop{{s[0]}, {s[1], find(viewOf[kPerson](), 0)}}}
	})
	pb = c.bound(1, 2)
	uops := unseenOps()
	schedules(c, name("two records of unseen types, at statements", pb), pb, true, true, func(ch *Ch) *cprogram {
		s := pairsOf(ch, uops, 2)
		return &cprogram{setup: unseenWorld(empty), scripts: [][]cop{{s[0]}, {s[1]}}}
	})
	pb = c.bound(3, 5)
	schedules(c, name("two threads of two records, at locks", pb), pb, false, true, func(ch *Ch) *cprogram {
		few := sops[:c.bound(5, len(sops))]
		i, j := ch.Pick(len(few)), ch.Pick(len(few))
		k := i + ch.Pick(len(few)-i)
		l := ch.Pick(len(few))
		return &cprogram{setup: structs, scripts: [][]cop{{few[i], few[j]}, {few[k], few[l]}}}
	})
	pb = c.bound(1, 2)
	schedules(c, name("idle and other writes, at statements", pb), pb, true, true, func(ch *Ch) *cprogram {
		idle := idleDatums()
		return &cprogram{setup: setup, scripts: [][]cop{{pick(ch, idle), everything}, {pick(ch, append(idle, ops...)), read()}}}
	})
	schedules(c, name("idle and other records, at statements", pb), pb, true, true, func(ch *Ch) *cprogram {
		idle := idleRecords()
		return &cprogram{setup: structs, scripts: [][]cop{{pick(ch, idle)}, {pick(ch, append(idle, sops...))}}}
	})
	pb = c.bound(1, 2)
	schedules(c, name("rejected and other writes, at statements", pb), pb, true, true, func(ch *Ch) *cprogram {
		bad := rejectedDatums()
		return &cprogram{setup: setup, scripts: [][]cop{{pick(ch, bad), everything}, {pick(ch, append(bad, ops...))}}}
	})
	schedules(c, name("rejected and other records, at statements", pb), pb, true, true, func(ch *Ch) *cprogram {
		bad := rejectedRecords()
		other := append(bad[:c.bound(2, len(bad)):len(bad)], sops[:c.bound(5, len(sops))]...)
		return &cprogram{setup: structs, scripts: [][]cop{{pick(ch, bad)}, {pick(ch, other)}}}
	})
	pb = c.bound(2, 4)
	schedules(c, name("three records, at locks", pb), pb, false, true, func(ch *Ch) *cprogram {
		s := pairsOf(ch, sops, 3)
		f := find(viewOf[kFriend](), 1)
		return &cprogram{setup: structs, scripts: [][]cop{{s[0], f}, {s[1], f}, {s[2]}}}
	})
}

// gather has the thread note what it sees of a shared thing.
func gather(name string, f func(t *cthread, o *cobs)) cop {
	return cop{name: name, look: true, run: f}
}

// onSnapshot are operations on a snapshot all threads have.
func onSnapshot() []cop {
	query := func(name string, q func(w *cworld) Claim) cop {
		return gather("select "+name, func(t *cthread, o *cobs) { o.rows = rowsOf(t.w.old, q(t.w)) })
	}
	return []cop{
		query("everything", func(*cworld) Claim { return Claim{} }),
		query("x", func(w *cworld) Claim { return Claim{E: Ident("ix")} }),
		query("names", func(w *cworld) Claim { return Claim{A: Ident("name")} }),
		query("badge 1", func(w *cworld) Claim { return Claim{A: Ident("badge"), V: Int(1)} }),
		query("tags of x", func(w *cworld) Claim { return Claim{E: w.env["x"], A: Ident("tags")} }),
		query("a datum", func(w *cworld) Claim { return Claim{E: w.env["x"], A: w.env["age"], V: Int(0)} }),
		query("x by lookup", func(w *cworld) Claim { return Claim{E: LookupRef{A: Ident("name"), V: String("x")}} }),
		gather("count, has and resolve", func(t *cthread, o *cobs) {
			s := t.w.old
			o.text = append(o.text, fmt.Sprint(s.Count(Claim{A: Ident("tags")}), s.Has(Claim{E: t.w.env["x"]}), s.ResolveIdent("ix"), s.ResolveIdent("fresh"), s.ResolveAttrIdent(t.w.env["age"])))
		}),
		// The shapes of queries that the others are not of.
		gather("select by value", func(t *cthread, o *cobs) {
			for _, q := range []Claim{{V: Int(0)}, {E: t.w.env["x"], V: Int(0)}, {A: Ident("age"), V: Int(0)}, {A: Ident("tags"), V: String("t")}} {
				o.rows = append(o.rows, rowsOf(t.w.old, q)...)
			}
		}),
		gather("count by value", func(t *cthread, o *cobs) {
			s := t.w.old
			for _, q := range []Claim{{V: Int(0)}, {E: t.w.env["x"], V: Int(0)}, {A: Ident("age"), V: Int(0)}, {E: Ident("ix"), A: Ident("age"), V: Int(0)}, {A: Ident("name"), V: String("x")}} {
				o.text = append(o.text, fmt.Sprint(s.Count(q), s.Has(q)))
			}
		}),
		gather("count and has otherwise", func(t *cthread, o *cobs) {
			s := t.w.old
			for _, q := range []Claim{{}, {E: Ident("ix")}, {E: Ident("ix"), A: Ident("age")}, {A: Ident("age")}, {A: L(sys.DbIdent, String("age"))}, {E: L(L(sys.DbIdent, String("name")), String("x"))}, {E: Ident("none")}} {
				o.text = append(o.text, fmt.Sprint(s.Count(q), s.Has(q)))
			}
		}),
	}
}

// onStructs are operations on a snapshot of structs all threads have, and on a typed snapshot.
func onStructs() []cop {
	finds := func(v sview, i int) cop {
		return gather(fmt.Sprint("find ", v.typ.Name(), " ", i, " in the shared snapshot"), func(t *cthread, o *cobs) {
			x, err := v.find(t.w.pold, t.w.ids[i])
			o.text = append(o.text, show(x), fmt.Sprint(err))
			spoil(x)
		})
	}
	return []cop{
		finds(viewOf[kFriend](), 0),
		finds(viewOf[kFriend](), 1),
		finds(viewOf[kPerson](), 0),
		gather("find by the shared typed snapshot", func(t *cthread, o *cobs) {
			x := t.w.shared.(func(uint64) any)(t.w.ids[1])
			o.text = append(o.text, show(x))
			spoil(x)
		}),
		finds(viewOf[kThing](), 1),
	}
}

// spoil changes a struct that belongs to the caller.
func spoil(x any) {
	if x == nil {
		return
	}
	for _, m := range changes(x) {
		m.do()
	}
}

func c16(c *Ctx) {
	runtime.GOMAXPROCS(1)
	if !raceDetector {
		panic(machineryError("the race detector is not built in"))
	}
	c.assume("races are found by the happens-before race detector of the go runtime, in every execution enumerated; it sees the synchronisation of the code under test and none of the scheduler's")
	name := func(s string, pb int) string { return fmt.Sprintf("%s, %d preemptions", s, pb) }
	setup := datumWorld(concSetup())
	ops := datumOps()
	shared := onSnapshot()
	old := append([]cop{}, shared...)
	// Selecting everything runs coroutines, which the race detector never forgets, so that
	// memory would run out were every thread to do that.
	latest := cop{name: "look", look: true, run: func(t *cthread, o *cobs) {
		for _, q := range []Claim{{A: Ident("name")}, {A: Ident("tags")}, {E: t.w.env["x"], A: Ident("age")}, {A: Ident("badge"), V: Int(2)}} {
			o.rows = append(o.rows, rowsOf(t.snap, q)...)
		}
		o.text = append(o.text, fmt.Sprint(t.snap.ResolveIdent("fresh")))
	}}
	// Opening a database touches only what is global.
	opens := cop{name: "open another", run: func(t *cthread, o *cobs) {
		w := setup()
		o.ok = true
		o.text = append(o.text, fmt.Sprint(len(rowsOf(w.old, Claim{A: sys.DbIdent}))))
	}}
	ops = append(ops, opens)
	// The detector relates accesses however far apart they are: what matters is in which order
	// the threads synchronise, so that preempting at locks goes a long way.
	pb := c.bound(2, 4)
	schedules(c, name("two writes, at locks", pb), pb, false, false, func(ch *Ch) *cprogram {
		s := pairsOf(ch, ops, 2)
		return &cprogram{setup: setup, scripts: [][]cop{{s[0], latest}, {s[1], latest}}}
	})
	schedules(c, name("readers of an old snapshot among writes, at locks", pb), pb, false, false, func(ch *Ch) *cprogram {
		return &cprogram{setup: setup, scripts: [][]cop{{pick(ch, old), pick(ch, old)}, {pick(ch, ops), latest}}}
	})
	pb = c.bound(1, 2)
	schedules(c, name("two readers of a snapshot, at statements", pb), pb, true, false, func(ch *Ch) *cprogram {
		s := pairsOf(ch, old, 2)
		return &cprogram{setup: setup, scripts: [][]cop{{s[0]}, {s[1]}}}
	})
	pb = c.bound(2, 4)
	schedules(c, name("two threads of two, at locks", pb), pb, false, false, func(ch *Ch) *cprogram {
		few := ops[:c.bound(6, len(ops))]
		i, j := ch.Pick(len(few)), ch.Pick(len(few))
		k := i + ch.Pick(len(few)-i)
		l := ch.Pick(len(few))
		return &cprogram{setup: setup, scripts: [][]cop{{few[i], few[j], latest}, {few[k], few[l], latest}}}
	})
	pb = c.bound(1, 3)
	schedules(c, name("two writers and a reader, at locks", pb), pb, false, false, func(ch *Ch) *cprogram {
		s := pairsOf(ch, ops, 2)
		r := [][]cop{{pick(ch, old)}, {read(), latest}}[ch.Pick(2)]
		return &cprogram{setup: setup, scripts: [][]cop{{s[0], latest}, {s[1]}, r}}
	})
	if c.thorough() {
		schedules(c, name("two writes, at statements", 1), 1, true, false, func(ch *Ch) *cprogram {
			s := pairsOf(ch, ops, 2)
			return &cprogram{setup: setup, scripts: [][]cop{{s[0], latest}, {s[1], latest}}}
		})
		schedules(c, name("readers of an old snapshot among writes, at statements", 1), 1, true, false, func(ch *Ch) *cprogram {
			return &cprogram{setup: setup, scripts: [][]cop{{pick(ch, old)}, {pick(ch, ops), latest}}}
		})
	}
	// One result used by both.
	pb = c.bound(1, 2)
	schedules(c, name("two readers of one result", pb), pb, true, false, func(ch *Ch) *cprogram {
		qs := []Claim{{}, {E: Ident("ix")}, {A: Ident("name")}, {A: Ident("badge"), V: Int(1)}, {E: Ident("ix"), A: Ident("tags")}, {V: String("x")}}
		q := pick(ch, qs)
		world := func() *cworld {
			w := setup()
			w.shared = w.old.Select(q)
			return w
		}
		iterate := gather("iterate", func(t *cthread, o *cobs) {
			for d := range t.w.shared.(iter.Seq[Datum]) {
				rt.P()
				o.rows = append(o.rows, toD(d))
			}
		})
		other := []cop{iterate, pick(ch, append(old, ops...))}[ch.Pick(2)]
		return &cprogram{setup: world, scripts: [][]cop{{iterate}, {other}}}
	})
	// Structs.
	sops := structOps()
	sops = append(sops, cop{name: "open another", run: func(t *cthread, o *cobs) {
		w := structWorld(kPerson{"x", 0, nil})()
		x, _ := viewOf[kPerson]().find(w.pold, w.ids[0])
		o.text = append(o.text, show(x))
	}})
	base := structWorld(kPerson{"x", 0, ptr("mail0")}, &kFriend{Name: "y", Boss: &kFriend{Name: "z"}, Tags: []string{"s", "t"},
		Things: map[string]*kThing{"p": {"p", 1}, "q": {"q", 2}}})
	structs := func() *cworld {
		w := base()
		w.shared = viewOf[kFriend]().typed(w.pold)
		return w
	}
	fs := onStructs()
	pb = c.bound(2, 4)
	schedules(c, name("two records, at locks", pb), pb, false, false, func(ch *Ch) *cprogram {
		s := pairsOf(ch, sops, 2)
		return &cprogram{setup: structs, scripts: [][]cop{{s[0]}, {s[1], find(viewOf[kPerson](), 0)}}}
	})
	schedules(c, name("finding in an old snapshot among records, at locks", pb), pb, false, false, func(ch *Ch) *cprogram {
		return &cprogram{setup: structs, scripts: [][]cop{{pick(ch, fs), pick(ch, fs)}, {pick(ch, sops)}}}
	})
	pb = c.bound(2, 3)
	schedules(c, name("rejected and other writes, at locks", pb), pb, false, false, func(ch *Ch) *cprogram {
		bad := rejectedDatums()
		return &cprogram{setup: setup, scripts: [][]cop{{pick(ch, bad), latest}, {pick(ch, append(bad, ops...))}}}
	})
	schedules(c, name("rejected and other records, at locks", pb), pb, false, false, func(ch *Ch) *cprogram {
		bad := rejectedRecords()
		return &cprogram{setup: structs, scripts: [][]cop{{pick(ch, bad), find(viewOf[kPerson](), 0)}, {pick(ch, append(bad, sops...))}}}
	})
	schedules(c, name("idle and other writes, at locks", pb), pb, false, false, func(ch *Ch) *cprogram {
		idle := idleDatums()
		return &cprogram{setup: setup, scripts: [][]cop{{pick(ch, idle), latest}, {pick(ch, append(idle, ops...)), latest}}}
	})
	schedules(c, name("idle and other records, at locks", pb), pb, false, false, func(ch *Ch) *cprogram {
		idle := idleRecords()
		return &cprogram{setup: structs, scripts: [][]cop{{pick(ch, idle)}, {pick(ch, append(idle, sops...))}}}
	})
	if c.thorough() {
		schedules(c, name("two records, at statements", 1), 1, true, false, func(ch *Ch) *cprogram {
			s := pairsOf(ch, sops, 2)
			return &cprogram{setup: structs, scripts: [][]cop{{s[0]}, {s[1], find(viewOf[kPerson](), 0)}}}
		})
		schedules(c, name("finding in an old snapshot among records, at statements", 1), 1, true, false, func(ch *Ch) *cprogram {
			return &cprogram{setup: structs, scripts: [][]cop{{pick(ch, fs)}, {pick(ch, sops)}}}
		})
	}
	pb = c.bound(1, 3)
	uops := unseenOps()
	schedules(c, name("two records of unseen types, at locks", pb), pb, false, false, func(ch *Ch) *cprogram {
		s := pairsOf(ch, uops, 2)
		return &cprogram{setup: unseenWorld(structs), scripts: [][]cop{{s[0]}, {s[1]}}}
	})
	pb = c.bound(1, 2)
	schedules(c, name("two find in a snapshot", pb), pb, true, false, func(ch *Ch) *cprogram {
		s := pairsOf(ch, fs, 2)
		return &cprogram{setup: structs, scripts: [][]cop{{s[0]}, {s[1]}}}
	})
	pb = c.bound(1, 3)
	schedules(c, name("two records and a find, at locks", pb), pb, false, false, func(ch *Ch) *cprogram {
		s := pairsOf(ch, sops, 2)
		return &cprogram{setup: structs, scripts: [][]cop{{s[0]}, {s[1]}, {pick(ch, fs)}}}
	})
}
