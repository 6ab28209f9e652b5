package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/dball/destructive/internal/database"
	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
	pdb "github.com/dball/destructive/pkg/database"
)

// One execution after another in each process: what one database left behind in it is there
// for the next to trip over.
func init() { registerSharded("C24", c24) }

// sizes are ways to configure a database.
type sizes struct{ degree, attrs, idents int }

var someSizes = []sizes{{2, 8, 8}, {3, 0, 1}, {64, 1, 0}, {32, 256, 1024}, {7, 1 << 12, 3}, {2, 0, 0}, {500, 20, 20}}

func (z sizes) config() pdb.Config {
	return pdb.Config{Degree: z.degree, AttrsSize: z.attrs, IdentsSize: z.idents}
}

func histOf(ch *Ch, z sizes) *Hist {
	return &Hist{ch: ch, db: database.NewIndexDatabase(z.degree, z.attrs, z.idents), m: NewModel(), env: Env{}, degree: z.degree, keep: true}
}

// alone fails unless the history, told to a database of its own, has the same outcome to the
// letter, with the same ids. That is only to be expected while maps are iterated in one order.
func (h *Hist) alone(name string) {
	if !mapsOrdered() {
		return
	}
	for range 2 {
		db := database.NewIndexDatabase(h.degree, 8, 8)
		for _, req := range h.reqs {
			db.Write(req)
		}
		if got, want := looked(h.db.Read()), looked(db.Read()); got != want {
			h.ch.Fail("%s has\n%s\nand with the same requests alone in another database\n%s", name, got, want)
		}
	}
}

func (h *SHist) alone(name string, config pdb.Config) {
	if !mapsOrdered() {
		return
	}
	for range 2 {
		db := pdb.NewDatabase(config)
		for _, req := range h.reqs {
			db.Write(req)
		}
		got, want := strings.Join(realRows(datumsOf(h.db.Read())), "\n"), strings.Join(realRows(datumsOf(db.Read())), "\n")
		if got != want {
			h.ch.Fail("%s has\n%s\nand with the same requests alone in another database\n%s", name, got, want)
		}
	}
}

// mapsOrdered says whether the instrumentation determines the order of the iterations over maps.
func mapsOrdered() bool {
	var info struct{ Level int }
	return *flagInfo == "" || json.Unmarshal([]byte(*flagInfo), &info) == nil && info.Level == 2
}

func shistOf(ch *Ch, config pdb.Config, views ...sview) *SHist {
	h := NewSHist(ch, views...)
	h.db = pdb.NewDatabase(config)
	h.keep = true
	return h
}

// kept is a snapshot and what was seen in it.
type kept struct {
	name string
	snap Snapshot
	was  string
}

func keep(name string, snap Snapshot) kept { return kept{name, snap, looked(snap)} }

func looked(snap Snapshot) string {
	var rows []string
	for _, d := range collect(snap, Claim{}) {
		rows = append(rows, d.String()+string(snap.ResolveAttrIdent(d.e)))
	}
	sortStrings(rows)
	for _, i := range []Ident{"a", "b", "x", "y", "none", "sys/db/ident"} {
		rows = append(rows, fmt.Sprint(i, snap.ResolveIdent(i)))
	}
	return strings.Join(rows, "\n")
}

func (k kept) check(ch *Ch) {
	if now := looked(k.snap); now != k.was {
		ch.Fail("%s has changed: it was\n%s\nand is\n%s", k.name, k.was, now)
	}
}

func c24(c *Ctx) {
	c.assume("databases of one process; degrees of 2 and more, sizes of 0 and more")
	c24claims(c)
	c24sizes(c)
	c24structs(c)
	c24apart(c)
}

// c24claims takes several databases through all interleavings of their histories, each beside
// a model of its own.
func c24claims(c *Ctx) {
	a, b := Ident("a"), Ident("b")
	first := [][]Atom{
		schema(adecl{"a", tString, false, uIdent}, adecl{"b", tInt, true, 0}),
		{C(TempID("e"), a, String("k")), C(TempID("e"), b, Int(1)), C(TempID("e"), sys.DbIdent, String("x"))},
	}
	second := [][]Atom{
		schema(adecl{"b", tString, false, uValue}, adecl{"c", tRef, true, 0}, adecl{"a", tRef, true, 0}),
		{C(TempID("f"), b, String("k")), C(TempID("e"), a, TempID("f")), C(TempID("f"), sys.DbIdent, String("y"))},
	}
	atoms := []Atom{
		G(schema(adecl{"a", tString, false, uIdent})...),
		G(schema(adecl{"a", tInt, true, 0})...),
		G(schema(adecl{"b", tRef, false, 0})...),
		C(TempID("n"), a, String("k")),
		C(TempID("n"), a, Int(7)),
		C(TempID("n"), b, Int(2)),
		C(Ident("x"), b, Int(3)),
		RE(Ident("x")),
		C(TempID("i"), sys.DbIdent, String("x")),
		C(L(a, String("k")), sys.DbIdent, String("y")),
		C(a, sys.DbIdent, String("renamed")),
		C(TxnID{}, sys.TxAt, at("2020-01-01T00:00:00Z")),
	}
	n := c.bound(3, 4)
	c.Explore("two databases of claims", func(ch *Ch) {
		hs := []*Hist{histOf(ch, someSizes[0]), histOf(ch, someSizes[1])}
		switch ch.Pick(4) {
		case 1:
			hs[0].Setup(first...)
		case 2:
			hs[0].Setup(first...)
			hs[1].Setup(second...)
		case 3:
			hs[0].Setup(first...)
			hs[1].Setup(first...)
		}
		var snaps []kept
		for i, h := range hs {
			h.idents = []string{"a", "b", "c", "x", "y", "renamed", "sys/db/ident"}
			snaps = append(snaps, keep(fmt.Sprint("the first snapshot of database ", i), h.db.Read()))
		}
		for i := range n {
			if i > 0 && ch.Pick(2) == 0 {
				break
			}
			j := ch.Pick(len(hs))
			ch.Log("database %d", j)
			atom := atoms[ch.Pick(len(atoms))]
			res, _ := hs[j].Do([]Atom{atom}, false)
			if res.Error == nil {
				snaps = append(snaps, keep(fmt.Sprintf("the snapshot of database %d after step %d", j, i), res.Snapshot))
			}
		}
		for i, h := range hs {
			if d := h.diff(h.db.Read()); d != "" {
				ch.Fail("database %d: %s", i, d)
			}
			h.alone(fmt.Sprint("database ", i))
			ch.State(h.m.hash())
		}
		for _, k := range snaps {
			k.check(ch)
		}
		// A new one.
		h := histOf(ch, someSizes[2])
		h.idents = hs[0].idents
		if d := h.diff(h.db.Read()); d != "" {
			ch.Fail("a database opened after those: %s", d)
		}
		h.Do(second[0], true)
		h.Do(second[1], true)
	})
	// Opened at any moment.
	c.Explore("databases opened one after another", func(ch *Ch) {
		var hs []*Hist
		var snaps []kept
		for i := range c.bound(4, 6) {
			if i > 0 && ch.Pick(2) == 0 {
				break
			}
			j := ch.Pick(len(hs) + 1)
			if j == len(hs) {
				if j == 3 {
					ch.Prune()
				}
				ch.Log("open database %d", j)
				h := histOf(ch, someSizes[j])
				h.idents = []string{"a", "b", "c", "x", "y"}
				if d := h.diff(h.db.Read()); d != "" {
					ch.Fail("database %d, when opened: %s", j, d)
				}
				hs = append(hs, h)
				snaps = append(snaps, keep(fmt.Sprint("the first snapshot of database ", j), h.db.Read()))
				continue
			}
			h := hs[j]
			ch.Log("database %d", j)
			step := [][][]Atom{first, second}[ch.Pick(2)]
			var atoms []Atom
			for _, s := range step {
				atoms = s
				h.Do(s, true)
			}
			snaps = append(snaps, keep(fmt.Sprintf("the snapshot of database %d after %s", j, atomsString(atoms)), h.db.Read()))
		}
		for i, h := range hs {
			if d := h.diff(h.db.Read()); d != "" {
				ch.Fail("database %d: %s", i, d)
			}
			h.alone(fmt.Sprint("database ", i))
			ch.State(h.m.hash())
		}
		for _, k := range snaps {
			k.check(ch)
		}
	})
}

// c24sizes gives the same history to databases of every configuration.
func c24sizes(c *Ctx) {
	a, b, many := Ident("a"), Ident("b"), Ident("many")
	c.Explore("sizes", func(ch *Ch) {
		h := histOf(ch, someSizes[ch.Pick(len(someSizes))])
		h.idents = []string{"a", "b", "x"}
		h.Setup(schema(adecl{"a", tString, false, uIdent}, adecl{"b", tInt, false, uValue}, adecl{"many", tRef, true, 0}))
		// Enough of them for trees of several levels, whatever their degree.
		n := []int{1, 3, 4, 7, 8, 31, 63, 64, 130, 1009}[ch.Pick(10)]
		var req []Atom
		for i := range n {
			e := TempID(fmt.Sprint("e", i))
			req = append(req, C(e, a, String(fmt.Sprint(i*7919%1009))), C(e, b, Int(-i)), C(TempID("e0"), many, e), C(e, sys.DbIdent, String(fmt.Sprint("i", i))))
		}
		h.Do(req, true)
		h.Do(schema(adecl{"z", tInt, false, 0}), true)
		step := ch.Pick(3) + 1
		var less []Atom
		for i := 0; i < n; i += step {
			e := Ent(fmt.Sprint("e", i))
			switch i % 3 {
			case 0:
				less = append(less, RC(Ent("e0"), many, e), C(e, Ident("z"), Int(i)))
			case 1:
				less = append(less, RE(e))
			case 2:
				less = append(less, C(L(b, Int(-i)), a, String(fmt.Sprint("new", i))))
			}
		}
		h.Do(less, true)
		for i := range n {
			for _, q := range []Claim{{E: h.env[fmt.Sprint("e", i)]}, {A: b, V: Int(-i)}, {E: Ident(fmt.Sprint("i", i)), A: a}} {
				sel := collect(h.db.Read(), q)
				want := 0
				for k := range h.m.data {
					switch {
					case q.V != nil:
						if k.a == h.env["b"] && k.v == toM(Int(-i)) {
							want++
						}
					case q.A != nil:
						if k.a == h.env["a"] && k.e == h.m.idents[fmt.Sprint("i", i)] {
							want++
						}
					case k.e == h.env[fmt.Sprint("e", i)]:
						want++
					}
				}
				if q.A != nil && q.V == nil && h.m.idents[fmt.Sprint("i", i)] == 0 {
					want = 0
				}
				if len(sel) != want {
					ch.Fail("%v selects %d datums, expected %d", q, len(sel), want)
				}
			}
			if n > 100 {
				break
			}
		}
	})
}

type xA struct {
	ID   uint64   `attr:"sys/db/id"`
	Name string   `attr:"x/name,identity"`
	N    *int     `attr:"x/n"`
	Boss *xA      `attr:"x/boss"`
	Tags []string `attr:"x/tags,value=x/tag"`
}
type xB struct {
	ID   uint64         `attr:"sys/db/id"`
	Name int            `attr:"x/name"`
	N    *xC            `attr:"x/n"`
	Boss map[string]*xC `attr:"x/boss,key=x/tag"`
}
type xC struct {
	Tag string `attr:"x/tag"`
	ID  uint64 `attr:"sys/db/id"`
}
type xD struct {
	ID   uint64 `attr:"sys/db/id"`
	Name string `attr:"x/name,identity"`
	More int    `attr:"x/more,unique,ignoreempty"`
}

// c24structs likewise, with structs.
func c24structs(c *Ctx) {
	views := []sview{viewOf[xA](), viewOf[xB](), viewOf[xC](), viewOf[xD]()}
	boss := &xA{Name: "boss", Tags: []string{"t"}}
	leaf := &xC{Tag: "leaf"}
	atoms := []satom{
		sa(func() any { return xA{Name: "k", N: ptr(1)} }),
		sa(func() any { return &xA{Name: "k", Boss: boss, Tags: []string{"p", "q"}} }),
		sa(func() any { return boss }),
		sa(func() any { return xB{Name: 3, N: leaf} }),
		sa(func() any { return &xB{Boss: map[string]*xC{"leaf": leaf}} }),
		sa(func() any { return leaf }),
		sa(func() any { return xD{Name: "k", More: 7} }),
		sa(func() any { return &xD{Name: "other", More: 7} }),
		sr(func() any { return xA{Name: "k"} }),
		sri(0, func(id uint64) any { return xC{ID: id} }),
	}
	configs := []pdb.Config{{}, smallConfig, {Degree: 3, IdentsSize: 1}}
	n := c.bound(3, 4)
	c.Explore("two databases of structs", func(ch *Ch) {
		hs := []*SHist{shistOf(ch, configs[0], views...), shistOf(ch, configs[1], views...)}
		type heldStruct struct {
			s    *pdb.Snapshot
			h    int
			ids  []uint64
			was  string
			step int
		}
		see := func(s *pdb.Snapshot, ids []uint64) string {
			rows := realRows(datumsOf(s))
			for _, id := range ids {
				for _, v := range views {
					x, err := v.find(s, id)
					rows = append(rows, fmt.Sprint(show(x), err))
				}
			}
			return strings.Join(rows, "\n")
		}
		var held []heldStruct
		for i := range n {
			if i > 0 && ch.Pick(2) == 0 {
				break
			}
			j := ch.Pick(len(hs))
			h := hs[j]
			a := atoms[ch.Pick(len(atoms))]
			if a.needs > len(h.known) {
				ch.Prune()
			}
			ch.Log("database %d", j)
			var req pdb.Request
			if x := a.make(h.known); a.retract {
				req.Retractions = []any{x}
			} else {
				req.Assertions = []any{x}
			}
			res, _ := h.Do(req)
			held = append(held, heldStruct{res.Snap, j, h.known, see(res.Snap, h.known), i})
		}
		for i, h := range hs {
			h.compare("all that", fmt.Sprint("database ", i), h.db.Read())
			h.alone(fmt.Sprint("database ", i), configs[i])
		}
		for _, k := range held {
			if now := see(k.s, k.ids); now != k.was {
				ch.Fail("the snapshot of database %d after step %d has changed: it was\n%s\nand is\n%s", k.h, k.step, k.was, now)
			}
		}
		h := shistOf(ch, configs[2], views...)
		h.compare("all that", "a database opened after those", h.db.Read())
		h.Do(pdb.Request{Assertions: []any{xB{Name: 4, N: &xC{Tag: "c"}}}})
		h = shistOf(ch, configs[2], views...)
		h.Do(pdb.Request{Assertions: []any{&xA{Name: "k", Boss: boss, Tags: []string{"p", "q"}}, xD{Name: "k", More: 9}}})
	})
	c.Explore("configurations", func(ch *Ch) {
		h := shistOf(ch, someSizes[ch.Pick(len(someSizes))].config(), views...)
		if ch.Bool() {
			h = shistOf(ch, pdb.Config{}, views...)
		}
		for range 2 {
			n := []int{1, 5, 40, 150}[ch.Pick(4)]
			var xs []any
			for i := range n {
				xs = append(xs, &xA{Name: fmt.Sprint(i), N: ptr(i), Boss: boss, Tags: []string{"t", fmt.Sprint(i % 3)}})
			}
			h.Do(pdb.Request{Assertions: xs})
		}
	})
}

// c24apart runs threads each with a database of its own: each sees what it would alone.
func c24apart(c *Ctx) {
	name := func(s string, pb int) string { return fmt.Sprintf("%s, %d preemptions", s, pb) }
	setup := datumWorld(concSetup())
	bare := datumWorld(nil)
	declare := write("declare otherwise", of(schema(adecl{"name", tInt, true, 0}, adecl{"age", tString, false, uIdent})...))
	ops := append(datumOps(), declare)
	everything := look("everything", func(*cworld) Claim { return Claim{} })
	pb := c.bound(1, 2)
	apart := func(name string, pb int, program func(ch *Ch) *cprogram) {
		schedules(c, name, pb, true, true, func(ch *Ch) *cprogram {
			p := program(ch)
			p.apart = true
			return p
		})
	}
	apart(name("threads with databases of claims", pb), pb, func(ch *Ch) *cprogram {
		world := setup
		if ch.Bool() {
			world = bare
		}
		s := pairsOf(ch, ops, 2)
		return &cprogram{setup: world, scripts: [][]cop{{s[0], everything}, {s[1], everything}}}
	})
	opens := cop{name: "open another", run: func(t *cthread, o *cobs) {
		w := bare()
		o.ok = true
		o.text = append(o.text, looked(w.old))
	}}
	apart(name("a thread opens a database", pb), pb, func(ch *Ch) *cprogram {
		return &cprogram{setup: bare, scripts: [][]cop{{opens}, {append(ops, opens)[ch.Pick(len(ops)+1)]}}}
	})
	sops := structOps()
	uops := unseenOps()
	apart(name("threads with databases of structs", pb), pb, func(ch *Ch) *cprogram {
		world := structWorld(kPerson{"x", 0, nil})
		if ch.Bool() {
			world = structWorld()
		}
		s := pairsOf(ch, sops, 2)
		return &cprogram{setup: world, scripts: [][]cop{{s[0], find(viewOf[kPerson](), 0)}, {s[1], find(viewOf[kPerson](), 0)}}}
	})
	apart(name("threads with databases of structs of unseen types", pb), pb, func(ch *Ch) *cprogram {
		types := unseenWorld(func() *cworld { return &cworld{} })
		world := structWorld()
		shared := types().shared
		s := pairsOf(ch, uops, 2)
		return &cprogram{setup: func() *cworld {
			w := world()
			w.shared = shared
			return w
		}, scripts: [][]cop{{s[0]}, {s[1]}}}
	})
}
