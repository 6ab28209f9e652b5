package main

import (
	"fmt"
	"math"
	"time"

	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
)

func at(s string) Inst {
	t, err := time.Parse(time.RFC3339Nano, s)
	if err != nil {
		panic(err)
	}
	return Inst(t)
}

// someValues are three values of a type, of which the first is its zero, and refs are to x, y.
func someValues(typ ID) []VRef {
	switch typ {
	case tRef:
		return []VRef{Ent("x"), Ent("y"), sys.DbIdent}
	case tString:
		return []VRef{String(""), String("a"), String("b")}
	case tInt:
		return []VRef{Int(0), Int(-5), Int(math.MaxInt64)}
	case tBool:
		return []VRef{Bool(false), Bool(true)}
	case tInst:
		return []VRef{Inst(time.Time{}), at("1960-05-05T01:02:03.004Z"), at("1960-05-05T03:02:03.0044+02:00")}
	case tFloat:
		return []VRef{Float(0), Float(-1.5), Float(math.NaN())}
	}
	return nil
}

var typeNames = map[ID]string{tRef: "ref", tString: "string", tInt: "int", tBool: "bool", tInst: "inst", tFloat: "float"}
var allTypes = []ID{tString, tInt, tFloat, tBool, tInst, tRef}

func init() { register("C01", c01) }

func c01(c *Ctx) {
	longHistories(c)
	// Every type: a cardinality one and a cardinality many attribute on two entities.
	for _, typ := range allTypes {
		vs := someValues(typ)
		var one, many []Atom
		for i, v := range vs {
			one = append(one, C(Ent("x"), Ident("one"), v))
			if i < 2 {
				one = append(one, C(Ent("y"), Ent("one"), v))
				many = append(many, C(Ent("y"), Ent("many"), v))
			}
			many = append(many, C(Ent("x"), Ident("many"), v), RC(Ent("x"), Ident("many"), v))
		}
		one = append(one, RC(Ent("x"), Ident("one"), vs[0]), RC(Ent("x"), Ident("one"), vs[1]))
		setup := [][]Atom{
			schema(adecl{"one", typ, false, 0}, adecl{"many", typ, true, 0}, adecl{"name", tString, false, uIdent}),
			{C(TempID("x"), Ident("name"), String("x")), C(TempID("y"), Ident("name"), String("y"))},
		}
		World{name: "effects on " + typeNames[typ], setup: setup, atoms: append(one, many...), n: c.bound(3, 4)}.explore(c)
		World{name: "replacing " + typeNames[typ], setup: setup, atoms: one, n: c.bound(4, 6)}.explore(c)
		World{name: "accumulating " + typeNames[typ], setup: setup, atoms: many, n: c.bound(3, 5)}.explore(c)
		World{name: "effects on " + typeNames[typ] + ", one request", setup: setup, atoms: append(one, many...), n: 1}.explore(c)
	}
	// All reachable states of a small world, and every small request from each.
	var atoms []Atom
	for _, e := range []string{"x", "y"} {
		for _, v := range []VRef{Int(1), Int(2)} {
			atoms = append(atoms, C(Ent(e), Ident("one"), v), RC(Ent(e), Ident("one"), v),
				C(Ent(e), Ident("many"), v), RC(Ent(e), Ident("many"), v))
		}
		atoms = append(atoms, C(Ent(e), Ident("ref"), Ent("x")), RC(Ent(e), Ident("ref"), Ent("x")),
			C(L(Ident("name"), String("x")), Ident("one"), Int(1)))
	}
	atoms = append(atoms, C(TxnID{}, Ident("one"), Int(1)), C(TxnID{}, sys.TxAt, at("2020-01-01T00:00:00Z")), RE(Ent("y")))
	setup := [][]Atom{
		schema(adecl{"one", tInt, false, 0}, adecl{"many", tInt, true, 0}, adecl{"ref", tRef, false, 0}, adecl{"name", tString, false, uIdent}),
		{C(TempID("x"), Ident("name"), String("x")), C(TempID("y"), Ident("one"), Int(1))},
	}
	Reach{World{name: "all states, mixed types", setup: setup, atoms: atoms[:len(atoms)-3], n: c.bound(2, 3)}, c.bound(300, 2000)}.explore(c)
	World{name: "transaction claims", setup: setup, atoms: atoms, n: c.bound(3, 4)}.explore(c)
	// What a transaction asserts of itself, and others of it later.
	var own []Atom
	for _, e := range []ERef{TxnID{}, Tx} {
		own = append(own, C(e, Ident("one"), Int(1)), C(e, Ident("one"), Int(2)), C(e, Ident("many"), Int(1)), C(e, Ident("many"), Int(2)), C(e, Ident("ref"), Ent("x")), C(e, Ident("name"), String("t")), C(e, sys.TxAt, at("2020-01-01T00:00:00Z")), C(e, sys.DbIdent, String("tx")))
	}
	own = append(own, RC(Tx, Ident("many"), Int(1)), RC(Tx, Ident("one"), Int(1)), RC(Tx, sys.TxAt, at("2020-01-01T00:00:00Z")), RE(Tx), C(Ent("x"), Ident("ref"), Tx), C(Ident("tx"), Ident("many"), Int(1)), C(L(Ident("name"), String("t")), Ident("many"), Int(1)), C(Ent("x"), Ident("one"), Int(3)))
	World{name: "claims of transactions", setup: setup, atoms: own, n: c.bound(3, 4), idents: []string{"tx"}}.explore(c)
	lookups(c, c.bound(3, 4))
	// Larger requests: one claim of each of many entities and attributes, in every prefix.
	c.Explore("bulk", func(ch *Ch) {
		h := NewHist(ch, 2+ch.Pick(2))
		h.Setup(setup...)
		n := ch.Pick(40) + 1
		var req []Atom
		for i := range n {
			e := TempID(fmt.Sprint("e", i))
			req = append(req, C(e, Ident("one"), Int(i%7-3)), C(e, Ident("many"), Int(i%5)), C(e, Ident("many"), Int(-i)), C(e, Ident("name"), String(fmt.Sprint("n", i))))
		}
		h.Do(req, true)
		step := ch.Pick(3) + 1
		req = nil
		for i := 0; i < n; i += step {
			e := Ent(fmt.Sprint("e", i))
			switch i % 4 {
			case 0:
				req = append(req, RE(e))
			case 1:
				req = append(req, C(e, Ident("one"), Int(100)), RC(e, Ident("many"), Int(-i)))
			case 2:
				req = append(req, RC(L(Ident("name"), String(fmt.Sprint("n", i))), Ident("many"), Int(i%5)))
			case 3:
				req = append(req, C(TempID("z"+fmt.Sprint(i)), Ident("name"), String(fmt.Sprint("n", i))), C(TempID("z"+fmt.Sprint(i)), Ident("one"), Int(-77)))
			}
		}
		h.Do(req, true)
	})
}

// lookups are histories in which what a lookup or a name denotes changes hands: by replacement,
// by retraction, by renaming, and by being taken by another entity.
func lookups(c *Ctx, n int) {
	u, m, p := Ident("u"), Ident("m"), Ident("p")
	setup := [][]Atom{
		schema(adecl{"u", tString, false, uIdent}, adecl{"m", tInt, true, uValue}, adecl{"n", tInt, false, 0}, adecl{"ref", tRef, true, 0}),
		{C(TempID("x"), u, String("a")), C(TempID("x"), m, Int(1)), C(TempID("x"), sys.DbIdent, String("p")), C(TempID("y"), u, String("b")), C(TempID("y"), m, Int(2))},
	}
	la, lb, l1 := L(u, String("a")), L(u, String("b")), L(m, Int(1))
	atoms := []Atom{
		C(Ent("x"), u, String("c")), C(Ent("y"), u, String("a")), C(Ent("x"), u, String("b")), C(la, u, String("c")), C(TempID("t"), u, String("a")), C(TempID("t"), u, String("c")),
		RC(Ent("x"), u, String("a")), RC(la, u, String("a")), RC(Ent("x"), m, Int(1)), C(Ent("y"), m, Int(1)), RE(Ent("x")), RE(la), RE(l1), RE(p),
		C(Ent("x"), sys.DbIdent, String("q")), C(Ent("y"), sys.DbIdent, String("p")), C(p, sys.DbIdent, String("q")), RC(Ent("x"), sys.DbIdent, String("p")), C(L(sys.DbIdent, String("p")), Ident("n"), Int(6)),
		C(la, Ident("n"), Int(3)), C(p, Ident("n"), Int(4)), C(l1, Ident("n"), Int(5)), C(lb, Ident("ref"), la), C(Ent("y"), Ident("ref"), p), C(p, Ident("ref"), l1), RC(Ent("y"), Ident("ref"), la), RC(la, Ident("n"), Int(3)), C(L(L(sys.DbIdent, String("u")), String("a")), Ident("n"), Int(7)),
	}
	World{name: "lookups that change", setup: setup, atoms: atoms, n: n, idents: []string{"p", "q"}}.explore(c)
}
