package main

import (
	"fmt"

	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
)

func init() {
	register("C08", c08)
	register("C09", c09)
	register("C10", c10)
}

func c08(c *Ctx) {
	setup := [][]Atom{
		schema(adecl{"a", tInt, false, 0}, adecl{"b", tString, true, uValue}, adecl{"u", tString, false, uIdent}),
		{C(TempID("x"), Ident("u"), String("x")), C(TempID("p"), sys.DbIdent, String("p"))},
	}
	idents := []string{"a", "b", "u", "n", "o", "p", "q"}
	// Piecemeal: the claims of definitions one by one, in every combination.
	var pieces []Atom
	for _, e := range []ERef{TempID("t"), Ent("a"), Ident("b"), Ent("p")} {
		pieces = append(pieces,
			C(e, sys.DbIdent, String("n")), C(e, sys.DbIdent, String("a")),
			C(e, sys.AttrType, sys.AttrTypeInt), C(e, sys.AttrType, sys.AttrTypeString), C(e, sys.AttrType, sys.AttrUnique),
			C(e, sys.AttrCardinality, sys.AttrCardinalityMany), C(e, sys.AttrCardinality, sys.AttrCardinalityOne), C(e, sys.AttrCardinality, sys.AttrTypeInt),
			C(e, sys.AttrUnique, sys.AttrUniqueValue), C(e, sys.AttrUnique, sys.AttrUniqueIdentity), C(e, sys.AttrUnique, ID(0)),
		)
	}
	pieces = append(pieces,
		RC(Ent("a"), sys.DbIdent, String("a")), RC(Ident("a"), sys.AttrType, sys.AttrTypeInt), RC(Ident("a"), sys.AttrType, sys.AttrTypeString),
		RC(L(sys.DbIdent, String("b")), sys.AttrCardinality, sys.AttrCardinalityMany), RC(Ident("b"), sys.AttrUnique, sys.AttrUniqueValue),
		RC(Ident("b"), sys.AttrUnique, sys.AttrUniqueIdentity), RC(Ident("a"), sys.AttrUnique, sys.AttrUniqueValue), RC(TempID("t"), sys.DbIdent, String("n")),
		RE(Ident("a")), RE(Ent("b")), RE(L(sys.DbIdent, String("u"))), RE(Ent("p")),
		C(TempID("t"), sys.DbIdent, String("p")), C(Ent("p"), sys.DbIdent, String("p")),
	)
	World{name: "piecemeal", setup: setup, atoms: pieces, n: c.bound(2, 3), idents: idents}.explore(c)
	for _, e := range []ERef{TempID("t"), Ent("p")} {
		var own []Atom
		for _, a := range pieces {
			if a.c != nil && a.c.E == e {
				own = append(own, a)
			}
		}
		own = append(own, RC(e, sys.DbIdent, String("n")), C(e, sys.DbIdent, String("p")), RC(e, sys.DbIdent, String("p")), C(Ent("x"), Ident("n"), Int(1)))
		World{name: "defining " + refString(e), setup: setup, atoms: own, n: c.bound(4, 5), idents: idents}.explore(c)
	}
	// Whole definitions, conflicting or not, and uses of what they define.
	var defs, uses []Atom
	types := []ID{tInt, tString, tRef, tFloat, tBool, tInst}
	for _, card := range []ID{0, sys.AttrCardinalityOne, sys.AttrCardinalityMany} {
		for _, uniq := range []ID{0, uIdent, uValue} {
			for i, typ := range types {
				g := []Atom{C(TempID("n"), sys.DbIdent, String("n")), C(TempID("n"), sys.AttrType, typ)}
				if card != 0 {
					g = append(g, C(TempID("n"), sys.AttrCardinality, card))
				}
				if uniq != 0 {
					g = append(g, C(TempID("n"), sys.AttrUnique, uniq))
				}
				if i >= 2 && card != 0 && uniq != 0 {
					continue
				}
				defs = append(defs, G(g...))
			}
		}
	}
	for _, e := range []ERef{Ent("x"), Ent("p"), TempID("t")} {
		uses = append(uses, C(e, Ident("n"), Int(1)), C(e, Ident("n"), Int(2)), C(e, Ident("n"), String("s")))
	}
	uses = append(uses, C(Ent("x"), Ident("n"), Ent("p")), C(Ent("x"), Ident("n"), Float(1)), C(Ent("x"), Ident("n"), Bool(true)), C(Ent("x"), Ident("n"), at("2020-01-01T00:00:00Z")),
		C(L(Ident("n"), Int(1)), Ident("a"), Int(1)), C(Ent("x"), Ent("n"), String("s")))
	c.Explore("definitions and uses", func(ch *Ch) {
		h := NewHist(ch, 2)
		h.idents = idents
		h.Setup(setup...)
		first := defs[ch.Pick(len(defs))]
		switch ch.Pick(3) {
		case 0: // another definition of the same
			h.Do([]Atom{first}, false)
			h.Do([]Atom{defs[ch.Pick(len(defs))]}, true)
			h.Do([]Atom{uses[ch.Pick(len(uses))]}, true)
		case 1: // both in one request
			h.Do([]Atom{first, defs[ch.Pick(len(defs))]}, true)
		case 2: // used right away
			h.Do([]Atom{first}, false)
			for range c.bound(2, 3) {
				h.Do([]Atom{uses[ch.Pick(len(uses))]}, true)
			}
		}
	})
	// Two attributes declared together, partly the same as ones declared before.
	c.Explore("several at once", func(ch *Ch) {
		h := NewHist(ch, 2)
		h.idents = idents
		h.Setup(setup...)
		for range c.bound(2, 3) {
			var req []Atom
			for i, t := range []TempID{"s", "t"} {
				name := []string{"n", "o", "a", "b"}[ch.Pick(4)]
				typ := []ID{tInt, tString}[ch.Pick(2)]
				req = append(req, C(t, sys.DbIdent, String(name)), C(t, sys.AttrType, typ))
				switch ch.Pick(3 - i) {
				case 1:
					req = append(req, C(t, sys.AttrCardinality, sys.AttrCardinalityMany))
				case 2:
					req = append(req, C(t, sys.AttrUnique, sys.AttrUniqueValue))
				}
			}
			h.Do(req, true)
		}
		h.Do([]Atom{[]Atom{C(Ent("x"), Ident("n"), Int(1)), C(Ent("x"), Ident("o"), String("")), C(Ent("x"), Ident("a"), Int(2)), C(Ent("x"), Ident("b"), String("b"))}[ch.Pick(4)]}, true)
	})
	c.Orders(func() {
		c.Explore("many at once", func(ch *Ch) {
			h := NewHist(ch, 2)
			n := ch.Pick(12) + 1
			bad := ch.Pick(n+1) - 1
			kind := ch.Pick(4)
			var req []Atom
			for i := range n {
				t := TempID(fmt.Sprint("t", i))
				if i != bad || kind != 0 {
					req = append(req, C(t, sys.DbIdent, String(fmt.Sprint("i", i))))
				}
				if i != bad || kind != 1 {
					req = append(req, C(t, sys.AttrType, allTypes[i%6]))
				} else {
					req = append(req, C(t, sys.AttrUnique, uValue))
				}
				if i == bad && kind == 2 {
					req = append(req, C(t, sys.AttrType, sys.AttrCardinalityMany))
				}
				if i == bad && kind == 3 {
					req = append(req, C(t, sys.AttrCardinality, sys.AttrTypeBool))
				}
			}
			h.Do(req, true)
		})
	})
}

func c09(c *Ctx) {
	longHistories(c)
	setup := [][]Atom{
		schema(adecl{"u", tString, false, uIdent}, adecl{"ref", tRef, true, 0}, adecl{"n", tInt, false, 0}),
		{C(TempID("x"), Ident("u"), String("x")), C(TempID("y"), Ident("u"), String("y")), C(TempID("x"), sys.DbIdent, String("p"))},
	}
	var atoms []Atom
	for _, e := range []ERef{Ent("x"), Ent("y"), TempID("t"), Ident("p"), L(Ident("u"), String("y"))} {
		atoms = append(atoms, C(e, sys.DbIdent, String("p")), C(e, Ident("sys/db/ident"), String("q")))
	}
	for _, e := range []ERef{Ent("x"), Ident("q"), L(sys.DbIdent, String("p"))} {
		atoms = append(atoms, RC(e, sys.DbIdent, String("p")), RC(e, sys.DbIdent, String("q")))
	}
	atoms = append(atoms, RE(Ident("p")), RE(Ent("y")), C(Ident("p"), Ident("ref"), Ident("q")), C(Ident("q"), Ident("n"), Int(1)), C(Ent("y"), Ident("ref"), Ident("p")))
	idents := []string{"p", "q", "r", "u", "ref", "n", "", "sys/db/ident", "sys/none"}
	check := func(h *Hist, _ Response) {
		// Queries by ident act on the entity that has it.
		snap := h.db.Read()
		for _, ident := range []Ident{"p", "q", "r", "u", "n"} {
			for _, q := range []Claim{{E: ident}, {A: ident}, {V: ident}, {E: L(sys.DbIdent, String(ident))}} {
				if d := diffDatums(collect(snap, q), h.m.Select(q)); d != "" {
					h.ch.Fail("query %s: %s", claimString(q), d)
				}
			}
		}
	}
	World{name: "idents", setup: setup, atoms: atoms, n: c.bound(3, 4), idents: idents, check: check}.explore(c)
	var few []Atom
	for _, e := range []string{"x", "y", "z"} {
		for _, i := range []string{"p", "q"} {
			few = append(few, C(Ent(e), sys.DbIdent, String(i)), RC(Ent(e), sys.DbIdent, String(i)))
		}
	}
	few = append(few, RE(Ident("p")), C(TempID("t"), sys.DbIdent, String("p")), C(TempID("t"), sys.DbIdent, String("q")), C(TempID("s"), sys.DbIdent, String("q")), C(Ident("q"), sys.DbIdent, String("r")))
	setup3 := [][]Atom{setup[0], append(append([]Atom{}, setup[1]...), C(TempID("z"), Ident("u"), String("z")))}
	Reach{World{name: "every assignment of idents", setup: setup3, atoms: few, n: c.bound(3, 4), idents: idents, check: check}, c.bound(100, 400)}.explore(c)
	World{name: "renames in one request and another", setup: setup3, atoms: few, n: c.bound(3, 5), idents: idents, check: check}.explore(c)
	// Becoming an attribute: entities with idents given a type, and the reverse.
	attr := []Atom{
		C(Ent("x"), sys.AttrType, tInt), C(Ent("x"), sys.DbIdent, String("p")), C(Ent("x"), sys.DbIdent, String("q")), RC(Ent("x"), sys.DbIdent, String("p")),
		C(TempID("t"), sys.DbIdent, String("q")), C(TempID("t"), sys.AttrType, tString), C(Ent("y"), sys.DbIdent, String("q")), C(Ident("q"), sys.DbIdent, String("r")),
		C(Ent("y"), Ident("p"), Int(1)), C(Ent("y"), Ident("q"), String("s")), RE(Ident("q")), C(Ent("n"), sys.DbIdent, String("n")), C(Ent("y"), sys.DbIdent, String("n")), C(TempID("t"), sys.DbIdent, String("n")),
	}
	World{name: "idents and attributes", setup: setup, atoms: attr, n: c.bound(4, 5), idents: idents, check: check}.explore(c)
	// Idents that differ by little, or are nearly of the system, are as good and as distinct.
	near := []string{"p", "P", "p ", " p", "p/", "/p", "p/p", ":p", "sys", "Sys/x", "SYS/db/ident", "sys.x", " sys/x", "system/x", "a/sys/x", "é", "e\u0301", "\xff", "p\x00", "0", "1"}
	var spelled []Atom
	for i, s := range near {
		spelled = append(spelled, C(TempID(fmt.Sprint("t", i)), sys.DbIdent, String(s)))
		if i > 0 {
			spelled = append(spelled, C(Ent("x"), sys.DbIdent, String(s)), C(Ident(s), Ident("n"), Int(int64(i))))
		}
	}
	nearCheck := func(h *Hist, _ Response) {
		snap := h.db.Read()
		for _, s := range near {
			for _, q := range []Claim{{E: Ident(s)}, {V: Ident(s)}, {E: L(sys.DbIdent, String(s))}} {
				if d := diffDatums(collect(snap, q), h.m.Select(q)); d != "" {
					h.ch.Fail("query %s: %s", claimString(q), d)
				}
			}
		}
	}
	World{name: "idents that differ by little", setup: setup, atoms: spelled, n: c.bound(2, 3), idents: near, check: nearCheck}.explore(c)
}

func c10(c *Ctx) {
	setup := [][]Atom{
		schema(adecl{"u", tString, false, uIdent}, adecl{"ref", tRef, true, 0}, adecl{"n", tInt, false, 0}),
		{C(TempID("x"), Ident("u"), String("x")), C(TempID("x"), sys.DbIdent, String("p"))},
	}
	sysIdent := map[ID]string{}
	for _, d := range sysDatums {
		if d.a == sys.DbIdent {
			sysIdent[d.e] = d.v.s
		}
	}
	exists := map[mkey]bool{}
	for _, d := range sysDatums {
		exists[d.mkey] = true
	}
	var evil, good []Atom
	for id := ID(1); id <= sys.DbRank; id++ {
		refs := []ERef{id}
		constraints := []IDRef{id}
		if s := sysIdent[id]; s != "" {
			refs = append(refs, Ident(s), L(sys.DbIdent, String(s)), L(Ident("sys/db/ident"), String(s)))
			constraints = append(constraints, Ident(s), L(sys.DbIdent, String(s)))
		}
		for _, e := range refs {
			for _, av := range []struct {
				a IDRef
				v VRef
			}{
				{Ident("n"), Int(1)}, {Ident("u"), String("x")}, {Ident("u"), String("z")}, {Ident("ref"), Ent("x")}, {sys.DbIdent, String("q")}, {sys.DbIdent, String("sys/q")}, {sys.DbIdent, String("p")},
				{sys.AttrType, tInt}, {sys.AttrType, tRef}, {sys.AttrUnique, uIdent}, {sys.AttrUnique, uValue}, {sys.AttrCardinality, sys.AttrCardinalityMany}, {sys.AttrCardinality, sys.AttrCardinalityOne},
				{sys.TxAt, at("2020-01-01T00:00:00Z")}, {sys.DbRank, Int(1)}, {sys.AttrRefType, sys.AttrRefTypeDependent},
			} {
				// Stating what is the case already changes nothing and may be answered either way.
				if v, ok := av.v.(Value); ok && !(av.v == VRef(Ent("x"))) && exists[mkey{id, idOf(av.a), toM(v)}] {
					evil = append(evil, RC(e, av.a, av.v))
					continue
				}
				evil = append(evil, C(e, av.a, av.v))
				if av.a == IDRef(sys.DbIdent) || av.a == IDRef(sys.AttrType) || av.a == IDRef(Ident("u")) {
					evil = append(evil, RC(e, av.a, av.v))
				}
			}
			if s := sysIdent[id]; s != "" {
				evil = append(evil, RC(e, sys.DbIdent, String(s)))
			}
		}
		for _, r := range constraints {
			evil = append(evil, RE(r))
		}
	}
	for _, s := range []string{"sys/", "sys/db/ident", "sys/attr/type", "sys/attr/type/int", "sys/new", "sys/tx/at"} {
		for _, e := range []ERef{TempID("t"), Ent("x"), Ident("p"), TxnID{}} {
			evil = append(evil, C(e, sys.DbIdent, String(s)), C(e, Ident("sys/db/ident"), String(s)))
		}
		evil = append(evil, G(C(TempID("t"), sys.DbIdent, String(s)), C(TempID("t"), Ident("n"), Int(1))))
		evil = append(evil, G(C(TempID("t"), sys.DbIdent, String(s)), C(TempID("t"), sys.AttrType, tInt)))
	}
	for _, s := range []string{"sys", "sy", "Sys/x", " sys/x", "x/sys/", "sys:x", "system/x"} {
		good = append(good, C(TempID("t"), sys.DbIdent, String(s)), C(Ent("x"), sys.DbIdent, String(s)))
	}
	good = append(good, C(Ent("x"), Ident("n"), Int(1)), C(Ent("x"), Ident("ref"), sys.DbIdent), C(Ent("x"), Ident("ref"), Ident("sys/attr/type")), C(Ent("x"), sys.DbRank, Int(3)),
		C(TxnID{}, sys.TxAt, at("2020-01-01T00:00:00Z")), RE(Ent("x")), RC(Ent("x"), Ident("u"), String("x")), C(TempID("t"), Ident("u"), String("x")))
	all := append(append([]Atom{}, good...), evil...)
	World{name: "single", setup: setup, atoms: all, n: 1}.explore(c)
	base := &Base{reqs: setup}
	run := func(name string, first, second []Atom, same bool) {
		c.Explore(name, func(ch *Ch) {
			h := NewHist(ch, 2)
			base.apply(h)
			a := first[ch.Pick(len(first))]
			b := second[ch.Pick(len(second))]
			if same {
				h.Do([]Atom{a, b}, true)
				return
			}
			h.Do([]Atom{a}, false)
			if !h.Can(b) {
				ch.Prune()
			}
			h.Do([]Atom{b}, true)
		})
	}
	run("hidden after another claim", good, evil, true)
	run("hidden before another claim", evil, good, true)
	run("after another write", good, evil, false)
	run("before another write", evil, good, false)
	if c.thorough() {
		run("two", evil, evil, true)
		run("two in turn", evil, evil, false)
	}
	// A tempid or an entity that only comes to denote a system entity indirectly.
	indirect := []Atom{
		C(TempID("t"), sys.DbIdent, String("sys/db/ident")), C(TempID("t"), Ident("n"), Int(1)), C(TempID("t"), Ident("ref"), sys.DbIdent), C(TempID("t"), Ident("k"), sys.DbIdent),
		C(TempID("s"), Ident("k"), TempID("t")), C(TempID("t"), sys.AttrType, tInt), C(TempID("t"), sys.DbIdent, String("ok")),
		RC(TempID("t"), sys.DbIdent, String("sys/db/ident")), C(Ent("x"), Ident("k"), Ident("sys/tx/at")), RE(L(Ident("k"), sys.TxAt)), C(L(Ident("k"), sys.TxAt), sys.TxAt, at("2020-01-01T00:00:00Z")),
	}
	setupK := append(append([][]Atom{}, setup...), schema(adecl{"k", tRef, false, uIdent}))
	World{name: "indirect", setup: setupK, atoms: indirect, n: c.bound(3, 5)}.explore(c)
}

func idOf(r IDRef) ID {
	id, _ := r.(ID)
	return id
}
