package main

import (
	"math"
	"time"

	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
)

// manyValues are values of a type with its extremes, and with values that look different
// but are the same, or the reverse.
func manyValues(typ ID) []VRef {
	switch typ {
	case tRef:
		return []VRef{Ent("x"), Ent("y"), Ent("name"), sys.DbIdent, sys.AttrTypeFloat, Ident("name"), L(Ident("name"), String("x"))}
	case tString:
		return []VRef{String(""), String("a"), String("A"), String("ab"), String("\x00"), String("é"), String("e\u0301"), String("\xff"), String("a\x00b"), String("~")}
	case tInt:
		return []VRef{Int(0), Int(1), Int(-1), Int(math.MaxInt64), Int(math.MinInt64), Int(math.MaxInt64 - 1), Int(1 << 53), Int(1<<53 + 1)}
	case tBool:
		return []VRef{Bool(false), Bool(true)}
	case tInst:
		return []VRef{Inst(time.Time{}), Inst(time.UnixMilli(0)), at("1970-01-01T00:00:00.0009Z"), at("1969-12-31T23:59:59.999Z"), at("1969-12-31T23:59:59.9991Z"),
			at("1970-01-01T02:00:00+02:00"), at("2020-02-29T23:59:59.123456789-08:00"), at("9999-12-31T23:59:59.999Z"), Inst(time.UnixMilli(math.MaxInt64)), Inst(time.UnixMilli(math.MinInt64))}
	case tFloat:
		return []VRef{Float(0), Float(math.Copysign(0, -1)), Float(1.5), Float(-1.5), Float(math.Inf(1)), Float(math.Inf(-1)), Float(math.NaN()), Float(math.Float64frombits(0xfff8000000000001)),
			Float(math.MaxFloat64), Float(-math.MaxFloat64), Float(math.SmallestNonzeroFloat64), Float(-math.SmallestNonzeroFloat64)}
	}
	return nil
}

func init() {
	register("C05", c05)
	register("C06", c06)
	register("C07", c07)
}

// asValue is the value to use in a lookup.
func asValue(v VRef) (Value, bool) {
	x, ok := v.(Value)
	return x, ok
}

// uniqueHolders is the invariant of uniqueness itself.
func uniqueHolders(h *Hist, snap Snapshot) {
	holder := map[mkey]ID{}
	for d := range snap.Select(Claim{}) {
		if h.m.attrs[d.A].unique == 0 {
			continue
		}
		k := mkey{a: d.A, v: toM(d.V)}
		if e, ok := holder[k]; ok {
			h.ch.Fail("entities %d and %d both have the value %s of unique attribute %d", e, d.E, k.v, d.A)
		}
		holder[k] = d.E
	}
}

// oneValue is the invariant of cardinality one itself.
func oneValue(h *Hist, snap Snapshot) {
	has := map[mkey]mval{}
	for d := range snap.Select(Claim{}) {
		if h.m.attrs[d.A].many {
			continue
		}
		k := mkey{e: d.E, a: d.A}
		if v, ok := has[k]; ok {
			h.ch.Fail("entity %d has the values %s and %s of cardinality one attribute %d", d.E, v, toM(d.V), d.A)
		}
		has[k] = toM(d.V)
	}
}

func c05(c *Ctx) {
	setup := [][]Atom{
		schema(adecl{"name", tString, false, uIdent}, adecl{"mail", tString, false, uValue}, adecl{"age", tInt, false, 0}),
		{C(TempID("e1"), Ident("name"), String("a")), C(TempID("e1"), Ident("mail"), String("m1")),
			C(TempID("e2"), Ident("name"), String("b")), C(TempID("e2"), Ident("mail"), String("m2"))},
	}
	var atoms []Atom
	for _, e := range []ERef{TempID("x"), TempID("y"), Ent("e1"), Ent("e2")} {
		for _, v := range []string{"a", "b", "c"} {
			atoms = append(atoms, C(e, Ident("name"), String(v)))
		}
		for _, v := range []string{"m1", "m2", "m3"} {
			atoms = append(atoms, C(e, Ident("mail"), String(v)))
		}
	}
	atoms = append(atoms,
		C(L(Ident("name"), String("a")), Ident("mail"), String("m2")),
		RC(Ent("e1"), Ident("name"), String("a")),
		RC(Ent("e2"), Ident("mail"), String("m2")),
		RC(L(Ident("mail"), String("m1")), Ident("name"), String("b")),
		RC(TempID("x"), Ident("name"), String("a")),
		RE(Ent("e1")), RE(L(Ident("name"), String("b"))),
	)
	World{name: "identity and unique strings", setup: setup, invariant: uniqueHolders, atoms: atoms, n: c.bound(3, 4)}.explore(c)
	// Swaps, chains and cycles of values among three entities within one request.
	var chain []Atom
	for _, e := range []string{"e1", "e2", "e3"} {
		for _, v := range []string{"m1", "m2", "m3"} {
			chain = append(chain, C(Ent(e), Ident("mail"), String(v)))
		}
	}
	chain = append(chain, RC(Ent("e1"), Ident("mail"), String("m1")), RE(Ent("e2")), C(TempID("x"), Ident("mail"), String("m1")))
	chainSetup := append(append([][]Atom{}, setup...), []Atom{C(TempID("e3"), Ident("mail"), String("m3"))})
	World{name: "swaps and chains", setup: chainSetup, invariant: uniqueHolders, atoms: chain, n: c.bound(4, 5)}.explore(c)
	// Entities named in every way, transactions included.
	var named []Atom
	for _, e := range []ERef{Ident("p"), L(Ident("name"), String("a")), L(Ident("mail"), String("m2")), L(sys.DbIdent, String("p")), TempID("x"), TxnID{}} {
		for _, v := range []string{"m1", "m2", "m3"} {
			named = append(named, C(e, Ident("mail"), String(v)))
		}
		named = append(named, C(e, Ident("mails"), String("m1")), C(e, Ident("name"), String("c")))
	}
	named = append(named, RE(Ident("p")), RC(Ident("p"), Ident("mail"), String("m1")), C(Ent("e2"), sys.DbIdent, String("p")), C(Ent("e1"), sys.DbIdent, String("q")), C(TempID("x"), sys.DbIdent, String("p")))
	namedSetup := [][]Atom{
		schema(adecl{"name", tString, false, uIdent}, adecl{"mail", tString, false, uValue}, adecl{"mails", tString, true, uValue}),
		append(append([]Atom{}, setup[1]...), C(TempID("e1"), sys.DbIdent, String("p"))),
	}
	World{name: "entities named in every way", setup: namedSetup, invariant: uniqueHolders, atoms: named, n: c.bound(3, 4), idents: []string{"p", "q"}}.explore(c)
	// Every type, both uniquenesses, both cardinalities.
	for _, typ := range allTypes {
		for _, many := range []bool{false, true} {
			for _, u := range []ID{uIdent, uValue} {
				setup := [][]Atom{
					schema(adecl{"name", tString, false, uIdent}, adecl{"u", typ, many, u}),
					{C(TempID("x"), Ident("name"), String("x")), C(TempID("y"), Ident("name"), String("y"))},
				}
				var atoms []Atom
				for _, v := range manyValues(typ) {
					atoms = append(atoms, C(Ent("x"), Ident("u"), v), C(Ent("y"), Ident("u"), v), C(TempID("t"), Ident("u"), v), RC(Ent("x"), Ident("u"), v))
				}
				label := typeNames[typ]
				if many {
					label += " many"
				}
				label += map[ID]string{uIdent: " identity", uValue: " unique"}[u]
				World{name: label, setup: setup, invariant: uniqueHolders, atoms: atoms, n: c.bound(2, 3)}.explore(c)
			}
		}
	}
	// From every reachable state of a smaller world.
	small := []Atom{}
	for _, e := range []ERef{Ent("e1"), Ent("e2")} {
		for _, v := range []string{"m1", "m2"} {
			small = append(small, C(e, Ident("mail"), String(v)), RC(e, Ident("mail"), String(v)), C(e, Ident("mails"), String(v)), RC(e, Ident("mails"), String(v)))
		}
	}
	small = append(small, C(Ent("e1"), Ident("name"), String("a")), C(Ent("e2"), Ident("name"), String("a")), RC(Ent("e1"), Ident("name"), String("a")), RC(Ent("e2"), Ident("name"), String("a")))
	reachSetup := [][]Atom{
		schema(adecl{"name", tString, false, uIdent}, adecl{"mail", tString, false, uValue}, adecl{"mails", tString, true, uValue}),
		{C(TempID("e1"), Ident("mail"), String("m1")), C(TempID("e2"), Ident("mail"), String("m2"))},
	}
	Reach{World{name: "every state", setup: reachSetup, invariant: uniqueHolders, atoms: small, n: c.bound(2, 3)}, 0}.explore(c)
}

func c06(c *Ctx) {
	longHistories(c)
	setup := [][]Atom{
		schema(adecl{"name", tString, false, uIdent}, adecl{"nick", tString, false, uIdent}, adecl{"aka", tString, true, uIdent}, adecl{"mail", tString, false, uValue},
			adecl{"ref", tRef, true, 0}, adecl{"key", tRef, false, uIdent}),
		{C(TempID("e1"), Ident("name"), String("a")), C(TempID("e1"), Ident("nick"), String("na")), C(TempID("e2"), Ident("name"), String("b")), C(TempID("e2"), Ident("key"), TempID("e1")),
			// Names that tempids have too.
			C(TempID("e1"), sys.DbIdent, String("x")), C(TempID("e2"), sys.DbIdent, String("v"))},
	}
	var atoms []Atom
	for _, t := range []TempID{"x", "y"} {
		for _, v := range []string{"a", "b", "c"} {
			atoms = append(atoms, C(t, Ident("name"), String(v)))
		}
		atoms = append(atoms, C(t, Ident("nick"), String("na")), C(t, Ident("nick"), String("nc")), C(t, Ident("aka"), String("a1")), C(t, Ident("aka"), String("a2")),
			C(t, Ident("mail"), String("m")), C(t, sys.DbIdent, String("p")))
	}
	atoms = append(atoms,
		C(TempID("x"), Ident("ref"), TempID("y")), C(TempID("y"), Ident("ref"), TempID("x")), C(TempID("x"), Ident("ref"), TempID("x")),
		C(TempID("x"), Ident("key"), TempID("y")), C(TempID("y"), Ident("key"), TempID("z")), C(TempID("z"), Ident("key"), Ent("e1")), C(TempID("z"), Ident("name"), String("c")),
		C(Ent("e1"), Ident("ref"), TempID("x")), C(Ent("e2"), Ident("ref"), TempID("v")), C(Ent("e1"), Ident("name"), String("c")),
		C(TxnID{}, Ident("ref"), TempID("x")), C(TxnID{}, Ident("name"), String("c")),
		RC(TempID("x"), Ident("name"), String("a")), RC(Ent("e2"), Ident("ref"), TempID("x")), RE(L(Ident("name"), String("a"))),
	)
	World{name: "tempids", setup: setup, atoms: atoms, n: c.bound(3, 4)}.explore(c)
	// Chains of identities by way of references, in one request each.
	chain := []Atom{
		C(TempID("x"), Ident("name"), String("a")), C(TempID("x"), Ident("name"), String("c")),
		C(TempID("y"), Ident("key"), TempID("x")), C(TempID("z"), Ident("key"), TempID("y")), C(TempID("w"), Ident("key"), TempID("x")),
		C(TempID("v"), Ident("key"), TempID("w")), C(TempID("y"), Ident("nick"), String("nc")), C(TempID("w"), Ident("nick"), String("nd")),
		C(TempID("z"), Ident("mail"), String("m")), C(TempID("v"), Ident("mail"), String("m")), C(Ent("e2"), Ident("ref"), TempID("z")), C(Ent("e2"), Ident("ref"), TempID("v")),
	}
	World{name: "chains of identities", setup: setup, atoms: chain, n: c.bound(4, 5)}.explore(c)
	// Tempids are but names, whatever they look like.
	var odd []Atom
	for i, t := range []TempID{"", "0", "1", "1048577", "name", "db/id", "sys/db/ident"} {
		odd = append(odd, C(t, Ident("name"), String([]string{"a", "c", "d"}[i%3])), C(Ent("e2"), Ident("ref"), t), C(t, Ident("mail"), String([]string{"m", "n"}[i%2])))
	}
	odd = append(odd, C(TempID(""), Ident("ref"), TempID("1")), C(TempID("1"), Ident("key"), TempID("")))
	World{name: "tempids that look like something else", setup: setup, atoms: odd, n: c.bound(3, 4)}.explore(c)
	// The same tempid in successive requests denotes different entities.
	succ := []Atom{C(TempID("x"), Ident("ref"), Ent("e1")), C(TempID("x"), Ident("name"), String("c")), C(TempID("y"), Ident("ref"), TempID("x")), C(TempID("x"), Ident("mail"), String("m")),
		C(Ent("x"), Ident("nick"), String("nx")), C(TempID("y"), Ident("nick"), String("nx")), RE(Ent("x"))}
	World{name: "successive requests", setup: setup, atoms: succ, n: c.bound(5, 6)}.explore(c)
}

func c07(c *Ctx) {
	for _, typ := range allTypes {
		for _, u := range []ID{0, uIdent, uValue} {
			label := typeNames[typ] + map[ID]string{0: "", uIdent: " identity", uValue: " unique"}[u]
			setup := [][]Atom{
				schema(adecl{"name", tString, false, uIdent}, adecl{"one", typ, false, u}, adecl{"many", typ, true, u}),
				{C(TempID("x"), Ident("name"), String("x")), C(TempID("y"), Ident("name"), String("y"))},
			}
			vs := manyValues(typ)
			var one, many, both []Atom
			for i, v := range vs {
				one = append(one, C(Ent("x"), Ident("one"), v))
				many = append(many, C(Ent("x"), Ident("many"), v))
				if i%2 == 0 {
					both = append(both, C(Ent("x"), Ident("one"), v), C(L(Ident("name"), String("x")), L(sys.DbIdent, String("one")), v), RC(Ent("x"), Ident("one"), v))
				}
			}
			if u == 0 {
				one = append(one, C(TempID("t"), Ident("one"), vs[1]), C(TempID("t"), Ident("name"), String("x")))
			}
			if typ == tRef {
				// References to and from what the request names, all of whom may be known.
				n := C(TempID("n"), Ident("name"), String("n"))
				World{name: label + " cardinality one by tempids", setup: append(setup[:len(setup):len(setup)], []Atom{C(Ent("x"), Ident("one"), Ent("y"))}), invariant: oneValue, atoms: []Atom{
					C(TempID("t"), Ident("name"), String("x")), C(TempID("t"), Ident("one"), TempID("n")), n, C(TempID("t"), Ident("one"), TempID("t")), C(TempID("n"), Ident("name"), String("y")),
					C(Ent("x"), Ident("one"), TempID("n")), C(Ident("x"), Ident("one"), TempID("t")), C(L(Ident("name"), String("x")), Ident("one"), TempID("n")), C(TempID("t"), Ident("one"), Tx), C(TempID("n"), Ident("one"), TempID("t")),
				}, n: c.bound(3, 4)}.explore(c)
			}
			World{name: label + " cardinality one", setup: setup, invariant: oneValue, atoms: one, n: c.bound(3, 4)}.explore(c)
			World{name: label + " cardinality many", setup: setup, invariant: oneValue, atoms: many, n: c.bound(3, 4)}.explore(c)
			World{name: label + " cardinality one by other names", setup: setup, invariant: oneValue, atoms: both, n: c.bound(2, 3)}.explore(c)
		}
	}
}
