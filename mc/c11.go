package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
)

func init() {
	register("C11", c11)
	register("C12", c12)
}

// valuePool has values of every type: the extremes, their neighbours, and the special ones.
func valuePool() (out []Value) {
	for _, s := range []string{"", "a", "b", "A", "ab", "a ", " a", "\x00", "a\x00", "a\x00b", "\xff", "é", "e\u0301", "日本", "\U0001F600", "#id(1)", "sys/x", "0", "true", "nil", "\n", "\"", strings.Repeat("x", 1000), strings.Repeat("x", 1000) + "y"} {
		out = append(out, String(s))
	}
	for _, i := range []int64{0, 1, -1, 2, 7, 255, 256, -256, 1 << 31, -1 << 31, 1<<31 - 1, 1 << 32, 1<<53 + 1, 1 << 53, -1<<53 - 1, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, 1600000000000} {
		out = append(out, Int(i))
	}
	out = append(out, Bool(false), Bool(true))
	for _, ms := range []int64{0, 1, -1, 999, 1000, -999, 1600000000000, 1600000000001, -62135596800000, -62135596800001, 253402300799999, 253402300800000, math.MaxInt64, math.MinInt64, math.MinInt64 + 1} {
		out = append(out, Inst(time.UnixMilli(ms).UTC()))
	}
	zone := time.FixedZone("east", 5*3600+1800)
	for _, t := range []time.Time{{}, time.Date(2020, 5, 5, 1, 2, 3, 1, time.UTC), time.Date(2020, 5, 5, 1, 2, 3, 999999, time.UTC), time.Date(2020, 5, 5, 1, 2, 3, 1000000, time.UTC), time.Date(1960, 5, 5, 1, 2, 3, 999999, time.UTC), time.Date(1960, 5, 5, 1, 2, 3, 999999999, zone), time.Date(2020, 5, 5, 6, 32, 3, 0, zone), time.Date(2020, 5, 5, 1, 2, 3, 0, time.UTC), time.Unix(1588640523, 5).Local(),
		time.Unix(1<<60, 0), time.Unix(-1<<62, 0), time.Unix(math.MaxInt64, 0), time.Unix(math.MaxInt64/1000+1, 0), time.Unix(math.MinInt64/1000-1, 0), time.UnixMilli(math.MaxInt64).Add(time.Millisecond), time.UnixMilli(math.MinInt64).Add(-1),
		time.UnixMilli(math.MaxInt64).Add(999999), time.UnixMilli(math.MinInt64).Add(999999), time.UnixMilli(time.Unix(1<<60, 0).UnixMilli())} {
		out = append(out, Inst(t))
	}
	for _, f := range []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 0.30000000000000004, 0.3, 1 << 53, 1<<53 + 2, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), math.Nextafter(1, 2), 0x1p-1022} {
		out = append(out, Float(f))
	}
	out = append(out, ID(1), sys.DbIdent, sys.AttrTypeInt, sys.Tx)
	return
}

// recordable says if the value is one that some attribute could hold: an instant is
// recorded as milliseconds since the epoch, and those beyond the count are rejected.
func recordable(v Value) bool {
	if _, isEnt := v.(Ent); isEnt {
		return true
	}
	return toM(v).kind != 'T'
}

// sameValue compares what is read with what was written by what they denote.
func sameValue(got, want Value) string {
	switch w := want.(type) {
	case Inst:
		g, ok := got.(Inst)
		if !ok {
			return fmt.Sprintf("%T", got)
		}
		gt, wt := time.Time(g), time.Time(w)
		switch {
		case gt.UnixMilli() != wt.UnixMilli():
			return fmt.Sprintf("%v, %d ms from what was written", gt, gt.UnixMilli()-wt.UnixMilli())
		case gt.Location() != time.UTC:
			return fmt.Sprintf("%v, not in UTC", gt)
		case gt.Nanosecond()%1e6 != 0:
			return fmt.Sprintf("%v, with a part of a millisecond", gt)
		}
		return ""
	case Float:
		g, ok := got.(Float)
		if !ok {
			return fmt.Sprintf("%T", got)
		}
		if g != w && !(math.IsNaN(float64(g)) && math.IsNaN(float64(w))) {
			return fmt.Sprint(g)
		}
		return ""
	}
	if got != want {
		return fmt.Sprintf("%T %v", got, got)
	}
	return ""
}

func typeOf(v VRef) ID {
	switch v.(type) {
	case ID:
		return tRef
	case String:
		return tString
	case Int:
		return tInt
	case Bool:
		return tBool
	case Inst:
		return tInst
	case Float:
		return tFloat
	}
	return 0
}

func c11(c *Ctx) {
	pool := valuePool()
	types := []ID{tRef, tString, tInt, tBool, tInst, tFloat}
	shapes := []adecl{{"one", 0, false, 0}, {"many", 0, true, 0}, {"ident", 0, false, uIdent}, {"idents", 0, true, uIdent}, {"value", 0, false, uValue}, {"values", 0, true, uValue}}
	refs := []VRef{nil, Ent("x"), Ent("w"), Tx, TempID("t"), TempID("e"), Ident("p"), Ident("none"), Ident("sys/attr/type/int"), L(sys.DbIdent, String("p")), L(sys.DbIdent, String("none")), L(sys.DbIdent, Int(1))}
	setup := func(typ ID, s adecl) [][]Atom {
		s.name, s.typ = "a", typ
		var ds []Atom
		// Attributes of every other type, so that a value that strays has somewhere to go.
		for i, t := range types {
			ds = append(ds, schema(adecl{fmt.Sprint("other", i), t, true, 0})...)
		}
		return [][]Atom{append(schema(s), ds...), {C(TempID("x"), sys.DbIdent, String("p")), C(TempID("w"), sys.DbIdent, String("q"))}}
	}
	bases := map[string]*Base{}
	key := func(typ ID, s adecl) string { return fmt.Sprint(typ, s.name) }
	for _, t := range types {
		for _, s := range shapes {
			bases[key(t, s)] = &Base{reqs: setup(t, s)}
		}
	}
	// Everything an accepted value can be read by.
	readBack := func(ch *Ch, h *Hist, want Value, unique bool) {
		x := h.env["x"]
		snap := h.db.Read()
		for _, q := range []Claim{{}, {E: x}, {A: Ident("a")}, {A: h.env["a"]}, {E: x, A: Ident("a")}, {E: x, A: Ident("a"), V: want.(VRef)}, {A: Ident("a"), V: want.(VRef)}, {V: want.(VRef)}, {E: x, V: want.(VRef)}, {E: Ident("p"), A: L(sys.DbIdent, String("a")), V: want.(VRef)}} {
			n := 0
			for d := range snap.Select(q) {
				if d.E != x || d.A != h.env["a"] {
					continue
				}
				if toM(d.V) != toM(want) && sameValue(d.V, want) != "" {
					// Another value of the attribute, if it has several.
					if d2 := fmt.Sprintf("%T", d.V); d2 != fmt.Sprintf("%T", want) {
						ch.Fail("%s was written, selecting %s gives %s", refString(want), claimString(q), d2)
					}
					continue
				}
				n++
				if wrong := sameValue(d.V, want); wrong != "" {
					ch.Fail("%s was written, selecting %s gives %s", refString(want), claimString(q), wrong)
				}
			}
			if n != 1 {
				ch.Fail("%s was written, selecting %s finds it %d times", refString(want), claimString(q), n)
			}
			if !snap.Has(q) || snap.Count(q) < 1 {
				ch.Fail("%s was written, but %s is counted %d times", refString(want), claimString(q), snap.Count(q))
			}
		}
		if unique {
			q := Claim{E: L(Ident("a"), want), A: sys.DbIdent}
			if snap.Count(q) != 1 {
				ch.Fail("%s was written, a lookup by it does not find it", refString(want))
			}
		}
		ch.Step()
	}
	// A value of each type offered to an attribute of each type and shape, by each form of
	// claim; then what is accepted is read back, alone and beside another value.
	c.Explore("each value to each attribute", func(ch *Ch) {
		typ := types[ch.Pick(len(types))]
		s := shapes[ch.Pick(len(shapes))]
		h := NewHist(ch, 2)
		bases[key(typ, s)].apply(h)
		var v VRef
		if i := ch.Pick(len(pool) + len(refs)); i < len(pool) {
			v = pool[i].(VRef)
		} else {
			v = refs[i-len(pool)]
		}
		var es = []ERef{Ent("x"), TempID("e"), Ident("p"), TxnID{}}
		var as = []IDRef{Ident("a"), Ent("a"), L(sys.DbIdent, String("a"))}
		e := ch.Pick(len(es))
		a := 0
		if e == 0 {
			a = ch.Pick(len(as))
		}
		if v == VRef(TempID("e")) && s.unique == uIdent {
			// An identity that is its own entity is for no check to judge.
			ch.Prune()
		}
		claim := C(es[e], as[a], v)
		if ch.Bool() {
			// Retractions of values have types too.
			h.Do([]Atom{RC(es[e], as[a], v)}, true)
			return
		}
		_, ok := h.Do([]Atom{claim}, true)
		if !ok {
			// A lookup by it finds nothing, and says so.
			if w, isValue := v.(Value); isValue {
				snap := h.db.Read()
				for _, q := range []Claim{{E: L(Ident("a"), w)}, {A: Ident("a"), V: v}, {E: h.env["x"], A: Ident("a"), V: v}, {A: L(Ident("a"), w)}, {V: L(Ident("a"), w)}} {
					if n := snap.Count(q); n != 0 || snap.Has(q) {
						ch.Fail("looking up %s, which the attribute cannot hold, by %s finds %d", refString(v), claimString(q), n)
					}
				}
				for _, at := range []Atom{C(L(Ident("a"), w), Ident("a"), v), C(Ent("x"), Ident("other0"), L(Ident("a"), w)), RE(L(Ident("a"), w))} {
					h.Do([]Atom{at}, true)
				}
			}
			return
		}
		if w, isValue := v.(Value); isValue && e == 0 {
			if _, isEnt := v.(Ent); isEnt {
				return
			}
			readBack(ch, h, w, s.unique != 0)
			if f, isFloat := w.(Float); isFloat {
				// Zeros are equal, and yet what was written is the one of the two.
				for d := range h.db.Read().Select(Claim{E: h.env["x"], A: Ident("a")}) {
					if g, isFloat := d.V.(Float); !isFloat || math.Signbit(float64(g)) != math.Signbit(float64(f)) && !math.IsNaN(float64(f)) {
						ch.Fail("%v was written, %v is read", f, d.V)
					}
				}
			}
		}
	})
	// Every pair of values of a type, one after the other and in one request.
	for _, typ := range types {
		var mine []Value
		for _, v := range pool {
			if typeOf(v.(VRef)) == typ {
				mine = append(mine, v)
			}
		}
		if typ == tRef {
			mine = append(mine, Ent("x"), Ent("w"), Ent("a"))
		}
		c.Explore(fmt.Sprintf("pairs of values, type %d", typ), func(ch *Ch) {
			s := shapes[ch.Pick(len(shapes))]
			v, w := mine[ch.Pick(len(mine))], mine[ch.Pick(len(mine))]
			h := NewHist(ch, 2)
			bases[key(typ, s)].apply(h)
			e := []ERef{Ent("x"), Ent("w")}[ch.Pick(2)]
			a, b := C(Ent("x"), Ident("a"), v.(VRef)), C(e, Ident("a"), w.(VRef))
			switch ch.Pick(4) {
			case 0:
				h.Do([]Atom{a}, true)
				h.Do([]Atom{b}, true)
			case 1:
				h.Do([]Atom{a, b}, true)
			case 2:
				h.Do([]Atom{a}, false)
				h.Do([]Atom{RC(e, Ident("a"), w.(VRef))}, true)
			case 3:
				h.Do([]Atom{a}, false)
				h.Do([]Atom{RC(Ent("x"), Ident("a"), v.(VRef)), b}, true)
			}
			for _, val := range []Value{v, w} {
				val, ok := h.resolved(val)
				if !ok {
					continue
				}
				if _, held := h.m.data[mkey{h.env["x"], h.env["a"], toM(val)}]; held {
					// What was written first stays, if they denote the same.
					readBack(ch, h, val, s.unique != 0)
				} else if snap := h.db.Read(); !recordable(val) {
					// What cannot be recorded is nowhere, whatever it is near to.
					for _, q := range []Claim{{A: Ident("a"), V: val.(VRef)}, {E: h.env["x"], A: Ident("a"), V: val.(VRef)}, {V: val.(VRef)}, {E: h.env["x"], V: val.(VRef)}, {E: L(Ident("a"), val)}} {
						if n := snap.Count(q); n != 0 || snap.Has(q) {
							ch.Fail("selecting %s, which cannot be recorded, finds %d", claimString(q), n)
						}
						for d := range snap.Select(q) {
							ch.Fail("selecting %s, which cannot be recorded, finds %v", claimString(q), d)
						}
					}
				}
			}
		})
	}
	// All values of a type at once.
	for _, typ := range types[1:] {
		c.Explore(fmt.Sprintf("all values at once, type %d", typ), func(ch *Ch) {
			h := NewHist(ch, []int{2, 3, 32}[ch.Pick(3)])
			s := shapes[[]int{1, 3, 5}[ch.Pick(3)]]
			bases[key(typ, s)].apply(h)
			var atoms []Atom
			rev := ch.Bool()
			for i := range pool {
				v := pool[i]
				if rev {
					v = pool[len(pool)-1-i]
				}
				if typeOf(v.(VRef)) == typ && recordable(v) {
					atoms = append(atoms, C(Ent("x"), Ident("a"), v.(VRef)))
				}
			}
			h.Do(atoms, true)
			for _, v := range pool {
				if typeOf(v.(VRef)) == typ && recordable(v) {
					readBack(ch, h, v, s.unique != 0)
				}
			}
			// and gone again, one by one
			for i, at := range atoms {
				r := *at.c
				r.Retract = true
				h.Do([]Atom{{c: &r}}, i%5 == 0 || i == len(atoms)-1)
			}
		})
	}
	c.assume("the value pools hold the extremes of each type, their neighbours, and values that look like others; other values are not enumerated")
}

func (h *Hist) resolved(v Value) (Value, bool) {
	if e, ok := v.(Ent); ok {
		id, ok := h.env[string(e)]
		return id, ok
	}
	return v, true
}

func c12(c *Ctx) {
	longHistories(c)
	a := func(s string) Ident { return Ident(s) }
	x, y, z := TempID("x"), TempID("y"), TempID("z")
	setup := [][]Atom{
		schema(adecl{"u", tString, false, uIdent}, adecl{"m", tInt, true, uIdent}, adecl{"v", tString, true, uValue}, adecl{"ru", tRef, false, uIdent}, adecl{"n", tInt, false, 0}, adecl{"many", tString, true, 0}, adecl{"ref", tRef, true, 0}, adecl{"f", tFloat, true, 0}, adecl{"t", tInst, false, 0}, adecl{"b", tBool, true, 0}),
		{
			C(x, sys.DbIdent, String("p")), C(x, a("u"), String("x")), C(x, a("m"), Int(1)), C(x, a("m"), Int(-1)), C(x, a("v"), String("vx")), C(x, a("ru"), y), C(x, a("n"), Int(0)), C(x, a("many"), String("")), C(x, a("many"), String("a")), C(x, a("ref"), x), C(x, a("ref"), y), C(x, a("f"), Float(-1)), C(x, a("t"), at("1950-01-01T00:00:00Z")), C(x, a("b"), Bool(true)), C(x, a("b"), Bool(false)),
			C(y, sys.DbIdent, String("q")), C(y, a("u"), String("y")), C(y, a("m"), Int(2)), C(y, a("v"), String("vy")), C(y, a("ref"), x), C(y, a("n"), Int(0)), C(y, a("many"), String("a")),
			C(z, a("ref"), x), C(z, a("u"), String("")), C(TxnID{}, a("ref"), x), C(TxnID{}, a("v"), String("tx")), C(TempID("e"), a("n"), Int(5)),
		},
	}
	states := map[string][][]Atom{
		"populated":        setup,
		"renamed":          append(append([][]Atom{}, setup...), []Atom{C(Ent("x"), sys.DbIdent, String("p2")), C(Ent("x"), a("u"), String("x2")), RC(Ent("x"), a("m"), Int(1))}, []Atom{C(Ent("y"), sys.DbIdent, String("p")), C(Ent("y"), a("u"), String("x"))}),
		"retracted before": append(append([][]Atom{}, setup...), []Atom{RE(Ent("y"))}, []Atom{C(TempID("y"), a("u"), String("y")), C(TempID("y"), sys.DbIdent, String("q")), C(TempID("y"), a("ref"), Ent("x"))}),
	}
	good := []IDRef{Ent("x"), Ident("p"), L(a("u"), String("x")), L(a("m"), Int(1)), L(a("m"), Int(-1)), L(a("v"), String("vx")), L(a("ru"), Ent("y")), L(sys.DbIdent, String("p")), L(L(sys.DbIdent, String("u")), String("x")), L(Ent("m"), Int(1))}
	other := []IDRef{Ent("y"), Ident("q"), L(a("u"), String("y")), L(a("v"), String("vy")), L(a("u"), String("")), Ent("z"), Tx, L(a("v"), String("tx"))}
	bad := []IDRef{Ident("none"), L(a("u"), String("none")), L(a("n"), Int(0)), L(a("u"), Int(1)), L(a("none"), Int(1)), L(a("u"), nil), L(nil, String("x")), ID(0), Ident("sys/tx/at"), sys.DbIdent, ID(sys.Tx), L(sys.DbIdent, String("sys/db/ident")), Ident("u"), Ent("many"), Ident("")}
	pool := append(append(append([]IDRef{}, good...), other...), bad...)
	contexts := [][]Atom{
		nil,
		{C(Ent("x"), a("n"), Int(9))}, {C(Ent("y"), a("n"), Int(9))}, {C(Ent("z"), a("ref"), Ent("x"))}, {C(TempID("t"), a("u"), String("x"))}, {C(TempID("t"), a("u"), String("y")), C(TempID("t"), a("n"), Int(3))}, {C(Ent("z"), sys.DbIdent, String("p"))}, {C(TempID("t"), a("v"), String("vx"))}, {C(Ident("p"), a("f"), Float(2))},
		{C(TempID("t"), sys.DbIdent, String("q")), C(TempID("t"), a("ref"), Ident("q"))}, {RC(Ent("x"), a("n"), Int(0))}, {C(TxnID{}, a("ref"), Ident("p"))}, {C(Ent("y"), a("n"), String("no"))}, {C(Ent("z"), a("u"), String("y"))},
		// Claims of what the entities have already, and of what refers to them, in several forms.
		{C(Ent("x"), a("n"), Int(0)), C(Ent("y"), a("n"), Int(0))}, {C(Ent("x"), Ent("n"), Int(0)), C(Ent("y"), Ent("many"), String("a"))}, {C(Ident("p"), Ent("u"), String("x")), C(L(a("u"), String("y")), a("u"), String("y"))},
		{C(TempID("t"), Ent("u"), String("x")), C(TempID("t"), Ent("many"), String("a"))}, {C(Ent("y"), Ent("ref"), Ent("x")), C(Ent("z"), a("ref"), Ident("p"))}, {RC(Ent("x"), Ent("many"), String("a")), C(Ent("x"), Ent("many"), String("a")), RC(Ent("y"), a("ref"), Ent("x"))},
	}
	for _, name := range []string{"populated", "renamed", "retracted before"} {
		base := &Base{reqs: states[name]}
		do := func(ch *Ch, h *Hist, atoms []Atom) {
			for _, at := range atoms {
				if !h.Can(at) {
					ch.Prune()
				}
			}
			h.Do(atoms, true)
		}
		// Every set of up to three constraints.
		c.Explore("constraints, "+name, func(ch *Ch) {
			h := NewHist(ch, 2)
			base.apply(h)
			var cs []IDRef
			from := 0
			for len(cs) < c.bound(3, 4) {
				i := ch.Pick(len(pool) - from + 1)
				if i == 0 {
					break
				}
				cs = append(cs, pool[from+i-1])
				from += i
				if from == len(pool) {
					break
				}
			}
			do(ch, h, []Atom{RE(cs...)})
		})
		// Up to two constraints beside other claims, in each order.
		c.Explore("constraints and claims, "+name, func(ch *Ch) {
			h := NewHist(ch, 2)
			base.apply(h)
			cs := []IDRef{pool[ch.Pick(len(pool))]}
			if i := ch.Pick(len(pool) + 1); i > 0 {
				cs = append(cs, pool[i-1])
			}
			atoms := []Atom{RE(cs...)}
			claims := contexts[ch.Pick(len(contexts))]
			do(ch, h, append(atoms, claims...))
		})
		// Two and three retractions, with claims.
		c.Explore("retractions, "+name, func(ch *Ch) {
			h := NewHist(ch, 2)
			base.apply(h)
			some := []IDRef{Ent("x"), Ident("p"), L(a("u"), String("x")), Ent("y"), Ident("q"), L(a("u"), String("y")), Ent("z"), Ent("e"), Tx, Ident("none"), Ident("u"), Ident("sys/tx/at")}
			var atoms []Atom
			for range 2 + ch.Pick(2) {
				atoms = append(atoms, RE(some[ch.Pick(len(some))]))
			}
			atoms = append(atoms, contexts[ch.Pick(len(contexts))]...)
			do(ch, h, atoms)
		})
		// What comes afterwards: the entity, its names and values are free again.
		w := World{name: "afterwards, " + name, setup: states[name], n: c.bound(3, 4), idents: []string{"p", "q", "p2"},
			atoms: []Atom{RE(Ent("x")), RE(Ident("p")), RE(L(a("u"), String("y")), Ident("q")), RE(Ent("z"), Ent("z")), C(TempID("x"), a("u"), String("x")), C(Ent("x"), a("n"), Int(4)), C(TempID("t"), sys.DbIdent, String("p")), C(TempID("t"), a("v"), String("vx")), C(Ent("y"), a("u"), String("x")), C(Ent("z"), a("ref"), Ent("x")), RC(Ent("z"), a("ref"), Ent("x")), RE(Tx), C(TxnID{}, a("v"), String("vx"))}}
		w.explore(c)
	}
	// Retracted entities among many.
	c.Explore("among many", func(ch *Ch) {
		n := 12
		h := NewHist(ch, []int{2, 3}[ch.Pick(2)])
		var req []Atom
		for i := range n {
			e := TempID(fmt.Sprint("k", i))
			req = append(req, C(e, a("u"), String(fmt.Sprint(i))), C(e, a("n"), Int(i%3)), C(e, a("many"), String("a")), C(e, a("many"), String("b")), C(e, a("ref"), TempID(fmt.Sprint("k", (i+5)%n))), C(e, a("f"), Float(i)))
		}
		base := [][]Atom{setup[0], req}
		h.Setup(base...)
		i, j := ch.Pick(n), ch.Pick(n)
		h.Do([]Atom{RE(Ent(fmt.Sprint("k", i)), L(a("u"), String(fmt.Sprint(i)))), RE(L(a("u"), String(fmt.Sprint(j))))}, true)
		k := ch.Pick(n)
		h.Do([]Atom{RE(L(a("u"), String(fmt.Sprint(k))))}, true)
	})
}
