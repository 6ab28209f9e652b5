package main

import (
	"fmt"
	"iter"
	"math"
	"runtime"
	"slices"
	"sort"
	"time"

	"github.com/dball/destructive/internal/iterator"
	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
)

func init() {
	register("C04", c04)
	register("C13", c13)
}

// everyAttr declares attributes of every type: plain, many, unique.
func everyAttr() []Atom {
	var ds []adecl
	for _, t := range []struct {
		name string
		typ  ID
	}{{"r", tRef}, {"s", tString}, {"i", tInt}, {"b", tBool}, {"t", tInst}, {"f", tFloat}} {
		ds = append(ds,
			adecl{t.name + "1", t.typ, false, 0},
			adecl{t.name + "n", t.typ, true, 0},
			adecl{t.name + "u", t.typ, false, uIdent},
			adecl{t.name + "v", t.typ, true, uValue})
	}
	return schema(ds...)
}

// queryStates are populated databases to be queried: each a name, a degree and a history.
type queryState struct {
	name   string
	degree int
	reqs   [][]Atom
}

func queryStates(thorough bool) (out []queryState) {
	x, y, z := TempID("x"), TempID("y"), TempID("z")
	ex, ey, ez := Ent("x"), Ent("y"), Ent("z")
	a := func(s string) Ident { return Ident(s) }
	t0, t1 := at("2021-01-01T00:00:00.001Z"), at("1931-05-05T00:00:00Z")
	base := [][]Atom{everyAttr()}
	first := []Atom{
		C(x, sys.DbIdent, String("p")), C(x, a("su"), String("x")), C(x, a("iu"), Int(1)), C(x, a("bu"), Bool(true)), C(x, a("tu"), t0), C(x, a("fu"), Float(1.5)), C(x, a("ru"), y),
		C(x, a("s1"), String("x")), C(x, a("i1"), Int(-5)), C(x, a("b1"), Bool(false)), C(x, a("t1"), t1), C(x, a("f1"), Float(-2.5)), C(x, a("r1"), x),
		C(x, a("sn"), String("")), C(x, a("sn"), String("a")), C(x, a("in"), Int(0)), C(x, a("in"), Int(math.MinInt64)), C(x, a("in"), Int(7)), C(x, a("bn"), Bool(true)), C(x, a("bn"), Bool(false)),
		C(x, a("tn"), t0), C(x, a("tn"), t1), C(x, a("fn"), Float(math.NaN())), C(x, a("fn"), Float(math.Inf(-1))), C(x, a("fn"), Float(0)), C(x, a("rn"), x), C(x, a("rn"), y),
		C(x, a("sv"), String("x1")), C(x, a("sv"), String("x2")), C(x, a("iv"), Int(-1)), C(x, a("fv"), Float(math.Inf(1))), C(x, a("rv"), z),
		C(y, sys.DbIdent, String("q")), C(y, a("su"), String("y")), C(y, a("iu"), Int(math.MinInt64)), C(y, a("tu"), t1), C(y, a("fu"), Float(math.NaN())), C(y, a("ru"), x), C(y, a("s1"), String("x")), C(y, a("i1"), Int(7)), C(y, a("in"), Int(7)), C(y, a("bn"), Bool(true)), C(y, a("r1"), x), C(y, a("rn"), x),
		C(z, a("su"), String("")), C(z, a("bu"), Bool(false)), C(z, a("f1"), Float(0)), C(z, a("rn"), z), C(TxnID{}, a("s1"), String("note")),
	}
	out = append(out,
		queryState{"empty", 2, nil},
		queryState{"schema only", 2, base},
		queryState{"populated", 2, append(append([][]Atom{}, base...), first)},
		queryState{"populated, wide nodes", 32, append(append([][]Atom{}, base...), first)},
		queryState{"renamed and replaced", 2, append(append([][]Atom{}, base...), first,
			[]Atom{C(ex, sys.DbIdent, String("p2")), C(ex, a("su"), String("x'")), C(ex, a("iu"), Int(2)), C(ex, a("s1"), String("new"))},
			[]Atom{C(ey, sys.DbIdent, String("p")), RC(ex, a("sn"), String("a")), RC(ex, a("sv"), String("x1"))},
			[]Atom{C(ey, a("sv"), String("x1")), C(ey, a("su"), String("x")), C(ey, a("iu"), Int(1))})},
		queryState{"retracted", 2, append(append([][]Atom{}, base...), first, []Atom{RE(ex)})},
		queryState{"retracted and given away", 2, append(append([][]Atom{}, base...), first, []Atom{RE(ey)},
			[]Atom{C(ez, sys.DbIdent, String("q")), C(ez, a("su"), String("y"))}, []Atom{RC(ex, sys.DbIdent, String("p")), RC(ex, a("bu"), Bool(true)), RC(ex, a("fn"), Float(math.NaN()))})},
		queryState{"all retracted", 2, append(append([][]Atom{}, base...), first, []Atom{RE(ex)}, []Atom{RE(ey), RE(ez)})},
		queryState{"more attributes", 2, append(append([][]Atom{}, base...), first, schema(adecl{"late", tString, false, uIdent}, adecl{"late2", tInt, true, 0}),
			[]Atom{C(TempID("w"), a("late"), String("x")), C(TempID("w"), a("late2"), Int(7)), C(ex, a("late"), String("y"))})},
	)
	big := func(n int) []Atom {
		var r []Atom
		for i := range n {
			e := TempID(fmt.Sprint("e", i))
			r = append(r, C(e, a("su"), String(fmt.Sprintf("k%03d", i))), C(e, a("in"), Int(i%7)), C(e, a("in"), Int(-i)), C(e, a("f1"), Float(float64(i)-3)), C(e, a("rn"), TempID(fmt.Sprint("e", (i*7)%n))), C(e, a("bn"), Bool(i%3 == 0)))
			if i%2 == 0 {
				r = append(r, C(e, a("sn"), String("a")), C(e, a("tu"), Inst(instOf(int64(i)*86400000))))
			}
		}
		return r
	}
	shrink := func(n int) []Atom {
		var r []Atom
		for i := 0; i < n; i += 3 {
			r = append(r, RE(Ent(fmt.Sprint("e", i))))
		}
		return r
	}
	for _, d := range []int{2, 3} {
		out = append(out, queryState{fmt.Sprintf("thirty entities, degree %d", d), d, append(append([][]Atom{}, base...), first, big(30))})
	}
	out = append(out, queryState{"thirty entities, twenty remaining", 2, append(append([][]Atom{}, base...), big(30), first, shrink(30))})
	if thorough {
		for _, d := range []int{2, 3, 4, 64} {
			out = append(out, queryState{fmt.Sprintf("120 entities, degree %d", d), d, append(append([][]Atom{}, base...), first, big(120))},
				queryState{fmt.Sprintf("120 entities, 80 remaining, degree %d", d), d, append(append([][]Atom{}, base...), big(120), first, shrink(120))})
		}
	}
	return
}

// The references of every form a query may have.
func queryRefs() (es []ERef, as []IDRef, vs []VRef) {
	a := func(s string) Ident { return Ident(s) }
	t0 := at("2021-01-01T00:00:00.001Z")
	lookups := []LookupRef{
		L(a("su"), String("x")), L(a("su"), String("y")), L(a("su"), String("")), L(a("su"), String("none")), L(a("su"), String("x'")), L(a("iu"), Int(1)), L(a("iu"), Int(math.MinInt64)), L(a("iu"), Int(99)), L(a("bu"), Bool(true)), L(a("bu"), Bool(false)),
		L(a("tu"), t0), L(a("tu"), at("2021-01-01T00:00:00.0019Z")), L(a("fu"), Float(1.5)), L(a("fu"), Float(math.NaN())), L(a("fu"), Float(2)), L(a("ru"), Ent("x")), L(a("ru"), Ent("y")), L(a("ru"), sys.DbIdent),
		L(a("sv"), String("x1")), L(a("sv"), String("x2")), L(a("iv"), Int(-1)), L(a("fv"), Float(math.Inf(1))), L(a("late"), String("x")),
		L(sys.DbIdent, String("p")), L(a("sys/db/ident"), String("q")), L(sys.DbIdent, String("su")), L(sys.DbIdent, String("sys/tx/at")), L(sys.DbIdent, String("none")), L(L(sys.DbIdent, String("su")), String("x")), L(L(L(sys.DbIdent, String("sys/db/ident")), String("su")), String("y")), L(Ent("su"), String("x")),
		L(a("s1"), String("x")), L(a("i1"), Int(7)), L(a("none"), Int(7)), L(a("p"), Int(7)), L(ID(0), String("x")), L(ID(1<<40), String("x")), L(nil, String("x")), L(a("su"), nil), L(nil, nil), L(Ident(""), String("x")),
		L(a("su"), Int(1)), L(a("iu"), String("x")), L(a("bu"), Int(1)), L(a("iu"), Bool(true)), L(a("tu"), Int(1)), L(a("fu"), Int(1)), L(a("ru"), Int(1)), L(a("iu"), t0), L(a("su"), Ent("x")), L(L(sys.DbIdent, String("none")), String("x")),
	}
	ids := []IDRef{Ent("x"), Ent("y"), Ent("z"), Ent("e0"), Ent("e7"), Ent("e29"), Ent("su"), Ent("r1"), Tx, sys.DbIdent, sys.AttrType, sys.TxAt, sys.Tx, sys.AttrTypeInt, ID(sys.FirstUserID), ID(1 << 40), ID(math.MaxUint64), ID(0)}
	idents := []Ident{"p", "p2", "q", "none", "su", "s1", "late", "sys/db/ident", "sys/attr/type/int", "sys/tx/at", ""}
	add := func(r IDRef) {
		es = append(es, r.(ERef))
		vs = append(vs, r.(VRef))
	}
	for _, r := range ids {
		add(r)
	}
	for _, r := range idents {
		add(r)
	}
	for _, r := range lookups {
		add(r)
	}
	es = append(es, nil, TempID("x"), TempID(""), TxnID{})
	vs = append(vs, nil, TempID("x"), TempID(""))
	for _, v := range []Value{
		String("x"), String("y"), String(""), String("a"), String("x1"), String("none"), String("su"), String("sys/db/ident"), String("note"),
		Int(1), Int(0), Int(7), Int(-5), Int(math.MinInt64), Int(math.MaxInt64), Bool(true), Bool(false), t0, at("2021-01-01T00:00:00.0015Z"), at("2021-01-01T00:00:00.002Z"), at("1931-05-05T00:00:00Z"), Inst(instOf(0)),
		Float(1.5), Float(0), Float(math.Copysign(0, -1)), Float(math.NaN()), Float(math.Inf(1)), Float(math.Inf(-1)), Float(7),
	} {
		vs = append(vs, v.(VRef))
	}
	as = []IDRef{nil, ID(0), sys.DbIdent, sys.AttrType, sys.AttrCardinality, sys.TxAt, sys.AttrTypeInt, ID(1 << 40), Ent("x"), Tx, Ident("none"), Ident("p"), Ident("sys/attr/unique"), Ident("late"), Ident("late2"),
		L(sys.DbIdent, String("su")), L(sys.DbIdent, String("i1")), L(Ident("sys/db/ident"), String("none")), L(Ident("su"), String("x")), L(nil, nil), L(sys.DbIdent, Int(1)), Ent("su"), Ent("in"), Ent("r1")}
	for _, t := range []string{"r", "s", "i", "b", "t", "f"} {
		for _, k := range []string{"1", "n", "u", "v"} {
			as = append(as, Ident(t+k))
		}
	}
	return
}

// resolved is what a field of a query matches: anything, nothing, or just this.
func (m *Model) resolveE(r any) (id ID, any, ok bool) {
	if r == nil || r == ID(0) {
		return 0, true, true
	}
	id = m.resolve(r)
	return id, false, id != 0
}

func c04(c *Ctx) {
	es, as, vs := queryRefs()
	states := queryStates(c.thorough())
	for _, st := range states {
		base := &Base{reqs: st.reqs}
		c.Explore("queries, "+st.name, func(ch *Ch) {
			h := NewHist(ch, st.degree)
			base.apply(h)
			sorted := h.m.sorted()
			snap := h.db.Read()
			var e ERef = es[ch.Pick(len(es))]
			if e != nil {
				cl, ok := h.env.claim(Claim{E: e})
				if !ok {
					ch.Prune()
				}
				e = cl.E
			}
			me, anyE, okE := h.m.resolveE(e)
			ch.State(h.m.hash())
			for _, a := range as {
				for _, v := range vs {
					cl, ok := h.env.claim(Claim{E: e, A: a, V: v})
					if !ok {
						continue
					}
					ma, anyA, okA := h.m.resolveE(cl.A)
					var mv mval
					anyV, okV := false, true
					switch x := cl.V.(type) {
					case nil:
						anyV = true
					case Value:
						mv = toM(x)
					default:
						id := h.m.resolve(x)
						okV = id != 0
						mv = toM(id)
					}
					var want []mdatum
					if okE && okA && okV {
						for _, d := range sorted {
							if (anyE || d.e == me) && (anyA || d.a == ma) && (anyV || d.v == mv) {
								want = append(want, d)
							}
						}
					}
					checkQuery(ch, snap, cl, want)
				}
			}
			if e == nil && ch.logging {
				ch.Log("all attribute and value refs with no entity, in state %s", st.name)
			}
		})
	}
	// The same questions of every state a small alphabet leads to.
	x, y := TempID("x"), TempID("y")
	w := Reach{World: World{name: "reachable states",
		setup: [][]Atom{schema(adecl{"u", tString, false, uIdent}, adecl{"v", tInt, true, uValue}, adecl{"r", tRef, true, 0}, adecl{"f", tFloat, false, 0}),
			{C(x, Ident("u"), String("x")), C(y, Ident("u"), String("y"))}},
		atoms: []Atom{C(Ent("x"), Ident("u"), String("z")), C(Ent("y"), Ident("u"), String("x")), RC(Ent("x"), Ident("u"), String("x")), C(Ent("x"), Ident("v"), Int(1)), C(Ent("x"), Ident("v"), Int(-1)), C(Ent("y"), Ident("v"), Int(1)), RC(Ent("x"), Ident("v"), Int(1)),
			C(Ent("x"), Ident("r"), Ent("y")), C(Ent("y"), Ident("r"), Ent("y")), C(Ent("x"), sys.DbIdent, String("p")), C(Ent("y"), sys.DbIdent, String("p")), RC(Ent("x"), sys.DbIdent, String("p")), RE(Ent("x")), RE(Ent("y")), C(Ent("x"), Ident("f"), Float(-1)), C(Ent("y"), Ident("f"), Float(-1))},
		n: 1,
		check: func(h *Hist, last Response) {
			var es []ERef = []ERef{nil, h.env["x"], h.env["y"], Ident("p"), L(Ident("u"), String("x")), L(Ident("u"), String("z")), L(Ident("v"), Int(1)), ID(sys.DbIdent)}
			as := []IDRef{nil, Ident("u"), Ident("v"), Ident("r"), Ident("f"), sys.DbIdent}
			vs := []VRef{nil, String("x"), String("z"), Int(1), Int(-1), Float(-1), h.env["y"], Ident("p"), L(Ident("u"), String("x")), String("p")}
			snap := h.db.Read()
			for _, e := range es {
				for _, a := range as {
					for _, v := range vs {
						cl := Claim{E: e, A: a, V: v}
						checkQuery(h.ch, snap, cl, h.m.Select(cl))
					}
				}
			}
		}}, max: c.bound(2500, 40000)}
	w.explore(c)
}

// checkQuery asks one question in every way.
func checkQuery(ch *Ch, snap Snapshot, cl Claim, want []mdatum) {
	got := collect(snap, cl)
	sort.SliceStable(got, func(i, j int) bool { return got[i].cmp(got[j].mkey) < 0 })
	if d := diffDatums(got, want); d != "" {
		ch.Fail("selecting %s: %s", claimString(cl), d)
	}
	if n := snap.Count(cl); n != len(want) {
		ch.Fail("counting %s gives %d, there are %d: %v", claimString(cl), n, len(want), want)
	}
	if has := snap.Has(cl); has != (len(want) > 0) {
		ch.Fail("the existence test of %s says %v, there are %d", claimString(cl), has, len(want))
	}
	ch.Step()
	ch.Validated()
}

// c13 consumes results in every way.
func c13(c *Ctx) {
	a := func(s string) Ident { return Ident(s) }
	qs := []Claim{
		{}, {E: Ent("x")}, {E: Ent("e0")}, {E: Ent("su")}, {E: Ident("sys/db/ident")}, {E: Ent("y")}, {A: sys.DbIdent}, {A: sys.AttrType}, {V: Int(7)}, {V: String("x")}, {V: Bool(true)}, {V: Ent("x")}, {E: Ent("x"), V: String("x")},
		{E: Ent("x"), A: a("in"), V: Int(7)}, {A: a("su"), V: String("x")}, {A: a("in"), V: Int(7)}, {A: a("bn"), V: Bool(true)}, {A: a("none")}, {E: L(a("su"), String("x"))}, {E: L(a("su"), String("x")), A: a("fn")}, {V: sys.AttrTypeInt}, {A: a("rn"), V: Ent("x")},
	}
	for _, t := range []string{"r", "s", "i", "b", "t", "f"} {
		for _, k := range []string{"1", "n", "u", "v"} {
			qs = append(qs, Claim{A: a(t + k)}, Claim{E: Ent("x"), A: a(t + k)})
		}
	}
	// Nothing is left running by results that are abandoned, wherever they are.
	c.Explore("leaving nothing behind", func(ch *Ch) {
		for _, st := range queryStates(false) {
			h := NewHist(ch, st.degree)
			(&Base{reqs: st.reqs}).apply(h)
			for _, q := range qs {
				cl, ok := h.env.claim(q)
				if !ok {
					continue
				}
				seq := h.db.Read().Select(cl)
				all := collectSeq(seq)
				for k := 0; k < len(all); k = k + 1 + k/4 {
					const rounds = 40
					before := runtime.NumGoroutine()
					for i := range rounds {
						n := 0
						for range seq {
							if n++; n > k {
								break
							}
						}
						next, stop := iter.Pull(seq)
						for range k {
							next()
						}
						stop()
						if i == 0 {
							func() {
								defer func() { recover() }()
								for range seq {
									panic("enough")
								}
							}()
						}
					}
					after := runtime.NumGoroutine()
					for wait := 0; after >= before+rounds && wait < 40; wait++ {
						time.Sleep(50 * time.Millisecond)
						after = runtime.NumGoroutine()
					}
					if after >= before+rounds {
						ch.Fail("%s, selecting %s: abandoning it %d times after %d of %d datums leaves %d goroutines behind", st.name, claimString(cl), 2*rounds, k, len(all), after-before)
					}
					ch.Step()
				}
			}
		}
		ch.Validated()
	})
	for _, st := range queryStates(c.thorough()) {
		base := &Base{reqs: st.reqs}
		c.Explore("consuming, "+st.name, func(ch *Ch) {
			h := NewHist(ch, st.degree)
			base.apply(h)
			q := qs[ch.Pick(len(qs))]
			cl, ok := h.env.claim(q)
			if !ok {
				ch.Prune()
			}
			snap := h.db.Read()
			seq := snap.Select(cl)
			all := collectSeq(seq)
			ch.State(hashString(fmt.Sprint(st.name, claimString(cl))))
			// What is found is for another check to say; the order is for this one.
			for i := 1; i < len(all); i++ {
				if all[i-1].cmp(all[i].mkey) >= 0 {
					ch.Fail("selecting %s gives %s before %s", claimString(cl), all[i-1], all[i])
				}
			}
			ch.Step()
			// Which datums there are at each position is what the model says, as long as the
			// sets agree.
			if want := h.m.Select(cl); sameSet(all, want) {
				if d := diffDatums(all, want); d != "" {
					ch.Fail("selecting %s: %s", claimString(cl), d)
				}
				ch.Validated()
			}
			again := func(what string) {
				if d := diffDatums(collectSeq(seq), all); d != "" {
					ch.Fail("iterating %s again %s: %s", claimString(cl), what, d)
				}
				ch.Step()
			}
			again("at once")
			if d := diffDatums(collect(snap, cl), all); d != "" {
				ch.Fail("selecting %s again: %s", claimString(cl), d)
			}
			// Stop after every number of datums, by leaving the loop, by an unfinished pull,
			// and by a panic of the consumer.
			for k := 0; k <= len(all); k++ {
				var got []mdatum
				if k > 0 {
					for d := range seq {
						got = append(got, toD(d))
						if len(got) == k {
							break
						}
					}
					if d := diffDatums(got, all[:k]); d != "" {
						ch.Fail("stopping %s after %d: %s", claimString(cl), k, d)
					}
					ch.Step()
				}
				next, stop := iter.Pull(seq)
				got = nil
				for range k {
					d, ok := next()
					if !ok {
						break
					}
					got = append(got, toD(d))
				}
				if k%2 == 0 {
					stop()
					if _, ok := next(); ok {
						ch.Fail("%s goes on after it is stopped after %d", claimString(cl), k)
					}
				} else {
					// iterate the whole while this one is suspended
					again(fmt.Sprintf("while another is suspended after %d", k))
					for {
						d, ok := next()
						if !ok {
							break
						}
						got = append(got, toD(d))
					}
					if d := diffDatums(got, all); d != "" {
						ch.Fail("pulling %s, iterating it again after %d, and pulling the rest: %s", claimString(cl), k, d)
					}
					got = got[:k]
					stop()
				}
				if d := diffDatums(got, all[:k]); d != "" {
					ch.Fail("pulling %s %d times: %s", claimString(cl), k, d)
				}
				ch.Step()
				if k > 0 && (k < 4 || k == len(all)) {
					got = nil
					func() {
						defer func() {
							if r := recover(); r != nil && r != "enough" {
								panic(r)
							}
						}()
						for d := range seq {
							got = append(got, toD(d))
							if len(got) == k {
								panic("enough")
							}
						}
					}()
					if d := diffDatums(got, all[:k]); d != "" {
						ch.Fail("panicking out of %s after %d: %s", claimString(cl), k, d)
					}
				}
				if k < 4 || k >= len(all)-1 {
					again(fmt.Sprintf("after stopping it after %d", k))
				}
			}
			// Nested iteration of the same result.
			n := 0
			for d := range seq {
				if toD(d) != all[n] {
					ch.Fail("%s gives %s at %d while it is iterated from within", claimString(cl), d, n)
				}
				if n < 3 || n == len(all)-1 {
					again(fmt.Sprintf("from within, at %d", n))
				}
				n++
			}
			if n != len(all) {
				ch.Fail("%s ends after %d of %d datums while it is iterated from within", claimString(cl), n, len(all))
			}
			// Two iterations of the same result, each suspended anywhere near the ends.
			near := func(k int) bool { return k < 3 || k >= len(all)-1 }
			for i := 0; i <= len(all); i++ {
				for j := 0; j <= len(all); j++ {
					if !near(i) || !near(j) {
						continue
					}
					n1, s1 := iter.Pull(seq)
					n2, s2 := iter.Pull(seq)
					var got [2][]mdatum
					pull := func(t int, next func() (Datum, bool), n int) {
						for range n {
							d, ok := next()
							if !ok {
								return
							}
							got[t] = append(got[t], toD(d))
						}
					}
					pull(0, n1, i)
					pull(1, n2, j)
					pull(0, n1, len(all)+1)
					pull(1, n2, len(all)+1)
					s1()
					s2()
					for t := range got {
						if d := diffDatums(got[t], all); d != "" {
							ch.Fail("two iterations of %s, suspended after %d and %d: one of them gives: %s", claimString(cl), i, j, d)
						}
					}
					ch.Step()
				}
			}
			// Interleaved with the result of another query, in step.
			for _, o := range []Claim{{}, {E: sys.DbIdent}, {A: sys.DbIdent}, {A: a("in")}} {
				other := snap.Select(o)
				theirs := collectSeq(other)
				n1, s1 := iter.Pull(seq)
				n2, s2 := iter.Pull(other)
				for i := 0; i <= max(len(all), len(theirs)); i++ {
					d, ok := n1()
					if ok != (i < len(all)) || ok && toD(d) != all[i] {
						ch.Fail("%s interleaved with %s gives %v at %d", claimString(cl), claimString(o), d, i)
					}
					d, ok = n2()
					if ok != (i < len(theirs)) || ok && toD(d) != theirs[i] {
						ch.Fail("%s interleaved with %s gives %v at %d", claimString(o), claimString(cl), d, i)
					}
				}
				s1()
				s2()
				ch.Step()
			}
			// Concatenated with others, stopping anywhere near the seams.
			short := snap.Select(Claim{E: sys.DbIdent})
			shorts := collectSeq(short)
			for _, parts := range []struct {
				seqs []iter.Seq[Datum]
				all  []mdatum
			}{
				{[]iter.Seq[Datum]{seq, short}, slices.Concat(all, shorts)},
				{[]iter.Seq[Datum]{short, seq}, slices.Concat(shorts, all)},
				{[]iter.Seq[Datum]{seq, seq}, slices.Concat(all, all)},
				{[]iter.Seq[Datum]{short, snap.Select(Claim{A: a("none")}), seq, short}, slices.Concat(shorts, all, shorts)},
			} {
				whole := iterator.Concat(parts.seqs...)
				if d := diffDatums(collectSeq(whole), parts.all); d != "" {
					ch.Fail("concatenating %s: %s", claimString(cl), d)
				}
				for k := 1; k <= len(parts.all); k++ {
					if k > 6 && k < len(parts.all)-6 && abs(k-len(all)) > 2 && abs(k-len(shorts)) > 2 {
						continue
					}
					var got []mdatum
					for d := range whole {
						got = append(got, toD(d))
						if len(got) == k {
							break
						}
					}
					if d := diffDatums(got, parts.all[:k]); d != "" {
						ch.Fail("stopping a concatenation with %s after %d: %s", claimString(cl), k, d)
					}
					ch.Step()
				}
			}
			again("in the end")
			if ch.logging {
				ch.Log("state %s, query %s: %d datums; stopped, pulled, nested, interleaved and concatenated at every position", st.name, claimString(cl), len(all))
			}
		})
	}
	// Concatenations of up to four sequences of up to three values, stopped everywhere and
	// repeated: which sequences are started, and how far they are driven.
	c.Explore("concatenations", func(ch *Ch) {
		n := ch.Pick(c.bound(5, 6))
		var lens []int
		var want []int
		pulled := make([]int, n)
		started := make([]int, n)
		live := 0
		var seqs []iter.Seq[int]
		for i := range n {
			l := ch.Pick(4)
			lens = append(lens, l)
			for j := range l {
				want = append(want, i*10+j)
			}
			seqs = append(seqs, func(yield func(int) bool) {
				started[i]++
				live++
				defer func() { live-- }()
				for j := range l {
					pulled[i]++
					if !yield(i*10 + j) {
						return
					}
				}
			})
		}
		whole := iterator.Concat(seqs...)
		for k := 0; k <= len(want)+1; k++ {
			for i := range n {
				pulled[i], started[i] = 0, 0
			}
			var got []int
			switch {
			case k > len(want):
				got = slices.Collect(whole)
				if !slices.Equal(got, want) {
					ch.Fail("concatenating sequences of lengths %v yields %v", lens, got)
				}
			case k == 0:
				next, stop := iter.Pull(whole)
				stop()
				if v, ok := next(); ok {
					ch.Fail("concatenation of lengths %v yields %d after it is stopped", lens, v)
				}
			default:
				for v := range whole {
					got = append(got, v)
					if len(got) == k {
						break
					}
				}
				if !slices.Equal(got, want[:k]) {
					ch.Fail("stopping a concatenation of lengths %v after %d yields %v", lens, k, got)
				}
				sum := 0
				for i := range n {
					sum += pulled[i]
				}
				if sum != k {
					ch.Fail("stopping a concatenation of lengths %v after %d has driven it %d values far: %v", lens, k, sum, pulled)
				}
			}
			if live != 0 {
				ch.Fail("a concatenation of lengths %v stopped after %d leaves %d sequences unfinished", lens, k, live)
			}
			for i := range n {
				if started[i] > 1 {
					ch.Fail("a concatenation of lengths %v starts sequence %d %d times", lens, i, started[i])
				}
			}
			ch.Step()
			ch.Validated()
		}
		ch.State(hashString(fmt.Sprint(lens)))
		if ch.logging {
			ch.Log("sequences of lengths %v stopped at every position", lens)
		}
	})
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

func sameSet(a, b []mdatum) bool {
	if len(a) != len(b) {
		return false
	}
	in := map[mdatum]int{}
	for _, d := range a {
		in[d]++
	}
	for _, d := range b {
		if in[d] == 0 {
			return false
		}
		in[d]--
	}
	return true
}

func collectSeq(seq iter.Seq[Datum]) (out []mdatum) {
	for d := range seq {
		out = append(out, toD(d))
		if len(out) > 100000 {
			panic("a result does not end")
		}
	}
	return
}
