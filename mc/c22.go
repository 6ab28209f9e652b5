package main

import (
	"fmt"
	"maps"
	"reflect"
	"slices"
	"sort"
	"strings"

	"github.com/dball/destructive/internal/database"
	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
	rt "github.com/dball/destructive/internal/verifrt"
	pdb "github.com/dball/destructive/pkg/database"
)

func init() { registerSharded("C22", c22) }

// seen is what a run of a program lets its user see, up to the choice of ids.
type seen struct {
	rows  []string
	finds []any
}

func (s *seen) note(format string, args ...any) {
	s.rows = append(s.rows, fmt.Sprintf(format, args...))
}

// hooked runs f with the order of every map iteration, and whether it visits entries added
// meanwhile, chosen, with up to d choices other than the least key first.
func hooked(ch *Ch, d int, f func()) (choices int) {
	rt.OrderHook = func(n int, late bool) int {
		if d == 0 {
			return 0
		}
		choices++
		i := ch.Pick(n)
		if i != 0 {
			d--
		}
		return i
	}
	defer func() { rt.OrderHook = nil }()
	f()
	return
}

// running runs f, which may panic on behalf of the code under test.
func running(f func(s *seen)) (s *seen) {
	s = &seen{}
	defer func() {
		switch r := recover().(type) {
		case nil:
		case failure, prune, machineryError:
			panic(r)
		default:
			s.note("panic: %v", r)
		}
	}()
	f(s)
	return
}

// program is a choice of operations: it answers with a function that runs them, which makes
// no choices of its own.
type program func(ch *Ch) func(s *seen)

func inAnyOrder(c *Ctx, name string, d int, p program) {
	var lastKey string
	var lastWant *seen
	c.Explore(name, func(ch *Ch) {
		run := p(ch)
		key := fmt.Sprint(ch.rec)
		if key != lastKey || lastWant == nil || ch.logging {
			ch.Log("with maps in ascending order:")
			lastWant, lastKey = running(run), key
			for _, r := range lastWant.rows {
				ch.Log("    %s", r)
			}
		}
		want := lastWant
		var got *seen
		at := len(ch.rec)
		hooked(ch, d, func() { got = running(run) })
		ch.Log("in another order, %v:", ch.rec[at:])
		for i, r := range got.rows {
			if i >= len(want.rows) || r != want.rows[i] {
				ch.Log("    %s", r)
			}
			if i < len(want.rows) && r != want.rows[i] {
				ch.Fail("the outcome depends on the order: %s, rather than %s", r, want.rows[i])
			}
		}
		if len(got.rows) != len(want.rows) || len(got.finds) != len(want.finds) {
			ch.Fail("the outcome depends on the order: it has %d parts and %d structs, rather than %d and %d", len(got.rows), len(got.finds), len(want.rows), len(want.finds))
		}
		for i, x := range got.finds {
			w := want.finds[i]
			if (x == nil) != (w == nil) {
				ch.Fail("the outcome depends on the order: finds %s, rather than %s", show(x), show(w))
			}
			if x == nil {
				continue
			}
			if d := isoCompare(w, x, true); d != "" {
				ch.Fail("the outcome depends on the order: finds %s, rather than %s: %s", show(x), show(w), d)
			}
		}
		ch.Step()
		ch.Validated()
		ch.State(hashString(strings.Join(want.rows, "\n")))
	})
}

// claimRun writes requests of atoms, each with its response.
func claimRun(setup, reqs [][]Atom) func(s *seen) {
	return func(s *seen) {
		hook := rt.OrderHook
		rt.OrderHook = nil
		db := database.NewIndexDatabase(2, 8, 8)
		env := Env{}
		names := map[ID]string{}
		for i, atoms := range setup {
			var req Request
			for _, a := range atoms {
				env.add(&req, a)
			}
			res := db.Write(req)
			if res.Error != nil {
				s.note("setup is rejected")
				return
			}
			names[res.ID] = fmt.Sprint("setup", i)
			for t, id := range res.TempIDs {
				env[string(t)] = id
				names[id] = "@" + string(t)
			}
		}
		rt.OrderHook = hook
		name := func(id ID) string {
			if n, ok := names[id]; ok {
				return n
			}
			return fmt.Sprintf("#%d", uint64(id))
		}
		idents := map[Ident]bool{}
		look := func(where string, snap Snapshot) {
			var rows []string
			for _, d := range collect(snap, Claim{}) {
				if d.t < sys.FirstUserID {
					continue
				}
				v := d.v.String()
				if d.v.kind == 'r' {
					v = name(ID(d.v.u))
				}
				rows = append(rows, name(d.e)+" "+name(d.a)+" "+v+" in "+name(d.t))
				if d.a == sys.DbIdent {
					idents[Ident(d.v.s)] = true
				}
			}
			sortStrings(rows)
			s.note("%s has %s", where, strings.Join(rows, "; "))
			for _, i := range slices.Sorted(maps.Keys(idents)) {
				s.note("%s resolves %s to %s", where, i, name(snap.ResolveIdent(i)))
			}
			ids := slices.Sorted(maps.Keys(names))
			sort.Slice(ids, func(i, j int) bool { return names[ids[i]] < names[ids[j]] })
			for _, id := range ids {
				s.note("%s has attribute %q as %s", where, snap.ResolveAttrIdent(id), name(id))
			}
		}
		for i, atoms := range reqs {
			var req Request
			for _, a := range atoms {
				if !env.add(&req, a) {
					s.note("request %d names an entity that does not exist", i)
					return
				}
			}
			for _, r := range req.Retractions {
				for ref := range r.Constraints {
					if id, ok := ref.(Ident); ok {
						idents[id] = true
					}
				}
			}
			res := db.Write(req)
			s.note("request %d, %s, is accepted: %v", i, atomsString(atoms), res.Error == nil)
			if res.Error == nil {
				names[res.ID] = fmt.Sprint("txn", i)
				groups := map[ID][]string{}
				for t, id := range res.TempIDs {
					groups[id] = append(groups[id], string(t))
					env[string(t)] = id
				}
				for id, g := range groups {
					sortStrings(g)
					g := strings.Join(g, "=")
					if old, ok := names[id]; ok {
						s.note("%s are %s", g, old)
					} else {
						names[id] = fmt.Sprintf("%s.%d", g, i)
					}
				}
				sortStrings(s.rows[len(s.rows)-countPrefix(s.rows, " are "):])
			}
			look("the response", res.Snapshot)
			look("a read", db.Read())
		}
	}
}

// countPrefix counts the rows at the end that contain the text.
func countPrefix(rows []string, text string) (n int) {
	for n < len(rows) && strings.Contains(rows[len(rows)-1-n], text) {
		n++
	}
	return
}

// structRun writes requests of structs.
type sreq struct {
	assert, retract []any
}

// canonDump describes the datums of a snapshot up to ids: entities that differ in what is
// said of them, or of those they refer to or that refer to them, or in their labels, are told
// apart.
func canonDump(snap Snapshot, labels map[ID]string) string {
	type edge struct {
		from, to ID
		a        string
	}
	color := map[ID]string{}
	for id, l := range labels {
		color[id] = l
	}
	var edges []edge
	scalars := map[ID][]string{}
	attr := func(id ID) string {
		if s := snap.ResolveAttrIdent(id); s != "" {
			return string(s)
		}
		return fmt.Sprintf("#%d", id)
	}
	ents := map[ID]bool{}
	for _, d := range collect(snap, Claim{}) {
		if d.e < sys.FirstUserID {
			continue
		}
		ents[d.e] = true
		if d.v.kind == 'r' {
			edges = append(edges, edge{d.e, ID(d.v.u), attr(d.a)})
			if ID(d.v.u) >= sys.FirstUserID {
				ents[ID(d.v.u)] = true
			} else {
				color[ID(d.v.u)] = fmt.Sprint("#", d.v.u)
			}
		} else {
			scalars[d.e] = append(scalars[d.e], attr(d.a)+"="+d.v.String())
		}
	}
	for id := range ents {
		rows := scalars[id]
		sortStrings(rows)
		color[id] += "{" + strings.Join(rows, ",") + "}"
	}
	for range 4 {
		next := map[ID][]string{}
		for _, e := range edges {
			next[e.from] = append(next[e.from], ">"+e.a+":"+color[e.to])
			next[e.to] = append(next[e.to], "<"+e.a+":"+color[e.from])
		}
		fresh := map[ID]string{}
		for id := range ents {
			rows := next[id]
			sortStrings(rows)
			fresh[id] = color[id]
			if len(rows) > 0 {
				fresh[id] = fmt.Sprintf("%s~%x", color[id], hashString(strings.Join(rows, ",")))
			}
		}
		for id, s := range fresh {
			if i := strings.LastIndexByte(s, '~'); i >= 0 && strings.IndexByte(s, '~') != i {
				// Keep the names short.
				j := strings.IndexByte(s, '~')
				s = s[:j] + fmt.Sprintf("~%x", hashString(s[j:]))
			}
			color[id] = s
		}
	}
	var rows []string
	for id := range ents {
		rows = append(rows, color[id])
	}
	sortStrings(rows)
	return strings.Join(rows, "; ")
}

func structRun(warm func() []any, build func() []sreq) func(s *seen) {
	return func(s *seen) {
		hook := rt.OrderHook
		rt.OrderHook = nil
		db := pdb.NewDatabase(smallConfig)
		if warm != nil {
			// Others of their kind declare the attributes.
			db.Write(pdb.Request{Assertions: warm()})
		}
		rt.OrderHook = hook
		labels := map[ID]string{}
		type root struct {
			id  uint64
			typ reflect.Type
		}
		var roots []root
		reqs := build()
		for i, r := range reqs {
			res := db.Write(pdb.Request{Assertions: r.assert, Retractions: r.retract})
			s.note("request %d, assert %s retract %s, is accepted: %v", i, showAll(r.assert), showAll(r.retract), res.Error == nil)
			if res.Error == nil {
				for j, id := range res.IDs {
					label := fmt.Sprintf("%d.%d", i, j)
					if old, ok := labels[ID(id)]; ok {
						s.note("%s is %s", label, old)
					} else {
						labels[ID(id)] = label
					}
					t := reflect.TypeOf(r.assert[j])
					if t.Kind() == reflect.Pointer {
						t = t.Elem()
					}
					roots = append(roots, root{id, t})
				}
			}
			for k, snap := range []*pdb.Snapshot{res.Snap, db.Read()} {
				if raw := datumsOf(snap); raw != nil {
					s.note("after %d has %s", i, canonDump(raw, labels))
				}
				if k == 1 && i+1 < len(reqs) {
					continue
				}
				for _, r := range roots {
					if k == 1 {
						break
					}
					x, err := sviews[r.typ].find(snap, r.id)
					if err != nil {
						s.note("no typed snapshot")
					}
					s.finds = append(s.finds, x)
				}
			}
		}
	}
}

func c22(c *Ctx) {
	d := c.bound(2, 3)
	c.assume(fmt.Sprintf("iteration orders are enumerated as sequences of choices of the next entry, of which up to %d per history are not the least key remaining; whether entries added during an iteration are visited is chosen too", d))
	// Declarations.
	decl := func(name string, typ ID, many bool, unique ID) []Atom {
		return schema(adecl{name, typ, many, unique})
	}
	name, email, badge, tags, boss := decl("name", tString, false, uIdent), decl("email", tString, false, uIdent),
		decl("badge", tInt, false, uValue), decl("tags", tString, true, 0), decl("boss", tRef, false, uIdent)
	parts := [][]Atom{name, email, badge, tags, boss,
		{C(TempID("k"), sys.AttrType, tInt)},
		{C(TempID("l"), sys.DbIdent, String("l"))},
		{C(TempID("k"), sys.DbIdent, String("k"))},
		{C(TempID("m"), sys.DbIdent, String("m")), C(TempID("m"), sys.AttrType, sys.AttrCardinalityMany)},
		{C(TempID("n"), sys.AttrCardinality, sys.AttrCardinalityMany)},
		{C(TempID("name"), sys.AttrUnique, uIdent)},
		{C(TempID("o"), sys.DbIdent, String("name"))},
	}
	inAnyOrder(c, "declaring attributes", d, func(ch *Ch) func(*seen) {
		var req []Atom
		for range c.bound(3, 4) {
			req = append(req, pick(ch, parts)...)
			if ch.Bool() {
				break
			}
		}
		use := [][]Atom{
			{C(TempID("x"), Ident("name"), String("x")), C(TempID("y"), Ident("name"), String("x"))},
			{C(TempID("x"), Ident("badge"), Int(1)), C(TempID("y"), Ident("badge"), Int(1))},
			{C(TempID("x"), Ident("tags"), String("1")), C(TempID("x"), Ident("tags"), String("2")), C(TempID("x"), Ident("l"), Int(1))},
		}
		return claimRun(nil, [][]Atom{req, pick(ch, use)})
	})
	setup := [][]Atom{
		cross(name, email, badge, tags, boss),
		{C(TempID("x"), Ident("name"), String("x")), C(TempID("x"), Ident("email"), String("e")), C(TempID("x"), Ident("badge"), Int(1)), C(TempID("x"), sys.DbIdent, String("ix")),
			C(TempID("y"), Ident("name"), String("y")), C(TempID("y"), Ident("email"), String("f")), C(TempID("y"), Ident("badge"), Int(2)), C(TempID("y"), sys.DbIdent, String("iy")),
			C(TempID("x"), Ident("tags"), String("1")), C(TempID("x"), Ident("tags"), String("2")), C(TempID("y"), Ident("boss"), TempID("x"))},
	}
	n, e := Ident("name"), Ident("email")
	retract := []Atom{
		RE(L(n, String("x")), L(e, String("e"))),
		RE(L(n, String("x")), L(e, String("f"))),
		RE(L(n, String("x")), L(e, String("zz"))),
		RE(L(e, String("zz")), Ent("y")),
		RE(Ident("ix"), Ent("x"), L(Ident("badge"), Int(1))),
		RE(Ident("ix"), Ent("y"), L(Ident("badge"), Int(1))),
		RE(Ident("iz"), Ident("ix")),
		RE(Ident("iy")),
		RE(Ident("ix")),
		RE(L(Ident("boss"), Ent("x")), L(n, String("y"))),
		C(TempID("z"), n, String("x")),
		C(TempID("z"), e, String("f")),
		C(TempID("w"), Ident("boss"), TempID("z")),
		C(Ent("y"), Ident("badge"), Int(1)),
		C(Ident("ix"), sys.DbIdent, String("iy")),
		C(Ident("iy"), sys.DbIdent, String("ix")),
		C(TempID("z"), sys.DbIdent, String("ix")),
		RC(Ent("x"), n, String("x")),
	}
	inAnyOrder(c, "retracting and claiming", d, func(ch *Ch) func(*seen) {
		var reqs [][]Atom
		var req []Atom
		for i := range 3 {
			if i > 0 {
				k := ch.Pick(3)
				if k == 0 {
					break
				}
				if k == 1 {
					reqs = append(reqs, req)
					req = nil
				}
			}
			req = append(req, pick(ch, retract))
		}
		return claimRun(setup, append(reqs, req))
	})
	temps := []Atom{
		C(TempID("a"), n, String("x")), C(TempID("a"), e, String("new")), C(TempID("a"), n, String("new")),
		C(TempID("b"), n, String("new")), C(TempID("b"), e, String("new")), C(TempID("b"), e, String("f")),
		C(TempID("c"), Ident("boss"), TempID("a")), C(TempID("d"), Ident("boss"), TempID("b")), C(TempID("d"), n, String("new")),
		C(TempID("c"), Ident("tags"), String("c")), C(TempID("d"), Ident("badge"), Int(3)), C(TempID("b"), sys.DbIdent, String("ib")), C(TempID("a"), sys.DbIdent, String("ia")),
	}
	inAnyOrder(c, "tempids", d, func(ch *Ch) func(*seen) {
		var req []Atom
		m := c.bound(4, 5)
		from := 0
		for i := range m {
			// Every subset of up to m, in the order of the alphabet and its reverse.
			if i > 0 && ch.Bool() {
				break
			}
			if from >= len(temps) {
				ch.Prune()
			}
			j := from + ch.Pick(len(temps)-from)
			req = append(req, temps[j])
			from = j + 1
		}
		if len(req) > 1 && ch.Bool() {
			slices.Reverse(req)
		}
		return claimRun(setup, [][]Atom{req, {C(TempID("q"), n, String("new")), C(TempID("q"), Ident("tags"), String("q"))}})
	})
	inAnyOrder(c, "bootstrapping", 1, func(ch *Ch) func(*seen) {
		return func(s *seen) {
			db := database.NewIndexDatabase(2, 8, 8)
			snap := db.Read()
			s.note("it has %v", collect(snap, Claim{}))
			s.note("its idents are %v", collect(snap, Claim{A: sys.DbIdent}))
			for _, i := range []Ident{sys.DbId, "sys/db/ident", "sys/attr/type", "sys/attr/unique", "sys/attr/cardinality", "sys/tx/at", "sys/db/rank"} {
				id := snap.ResolveIdent(i)
				s.note("%s is %d is %s, has %d", i, id, snap.ResolveAttrIdent(id), snap.Count(Claim{A: i}))
			}
			for i, req := range setup {
				var r Request
				env := Env{}
				for _, a := range req {
					env.add(&r, a)
				}
				res := db.Write(r)
				s.note("request %d accepted: %v", i, res.Error == nil)
				s.note("it has %v", collect(res.Snapshot, Claim{}))
			}
		}
	})
	// Structs.
	few := c.bound
	one := func(name string, d int, build func(ch *Ch) func() []any) {
		inAnyOrder(c, name, 1, func(ch *Ch) func(*seen) {
			b := build(ch)
			return structRun(nil, func() []sreq { return []sreq{{assert: b()}} })
		})
		if d < 2 {
			return
		}
		inAnyOrder(c, name+", attributes declared before", d, func(ch *Ch) func(*seen) {
			b := build(ch)
			return structRun(b, func() []sreq { return []sreq{{assert: b()}} })
		})
	}
	smallGraphs(few, func(name string, build func(ch *Ch) func() []any) {
		if name == "pointer graphs" || name == "two types of nodes" {
			one(name, d, build)
		} else {
			one(name, c.bound(1, 2), build)
		}
	})
	// Struct types that lead to two others, which may disagree about an attribute they share,
	// and that with another.
	leaves := []reflect.Type{
		reflect.TypeFor[dSharedString](), reflect.TypeFor[dSharedInt](), reflect.TypeFor[dSharedPtr](), reflect.TypeFor[dSharedUnique](), reflect.TypeFor[dSharedIdentity](),
		reflect.TypeFor[dSharedSlice](), reflect.TypeFor[dSharedSliceInt](), reflect.TypeFor[dSharedMap](), reflect.TypeFor[dSharedTwice](), reflect.TypeFor[dAge](),
	}
	forks := map[[2]int]reflect.Type{}
	for i, a := range leaves {
		for j, b := range leaves {
			forks[[2]int{i, j}] = reflect.StructOf([]reflect.StructField{
				{Name: "P", Type: reflect.PointerTo(a), Tag: `attr:"fork/p"`},
				{Name: "N", Type: reflect.TypeFor[int](), Tag: `attr:"n"`},
				{Name: "Q", Type: reflect.PointerTo(b), Tag: `attr:"fork/q"`},
			})
		}
	}
	inAnyOrder(c, "types that lead to others", d, func(ch *Ch) func(*seen) {
		i, j, k := ch.Pick(len(leaves)), ch.Pick(len(leaves)), ch.Pick(3)
		t, full := forks[[2]int{i, j}], ch.Bool()
		return func(s *seen) {
			db := pdb.NewDatabase(smallConfig)
			v := reflect.New(t)
			if full {
				v.Elem().Field(0).Set(reflect.New(leaves[i]))
				v.Elem().Field(2).Set(reflect.New(leaves[j]))
			}
			reqs := [][]any{{v.Interface()}}
			switch k {
			case 1:
				reqs = append(reqs, []any{reflect.New(leaves[j]).Interface()})
			case 2:
				reqs = append(reqs, []any{reflect.New(leaves[i]).Interface(), reflect.New(leaves[j]).Interface()})
			}
			for n, xs := range reqs {
				res := db.Write(pdb.Request{Assertions: xs})
				s.note("request %d, assert %s, is accepted: %v", n, showAll(xs), res.Error == nil)
				s.note("after %d has %s", n, canonDump(datumsOf(db.Read()), nil))
			}
		}
	})
	// Histories of structs: schemas that conflict, identities, retractions.
	elems := []func() (any, bool){
		func() (any, bool) { return &uPerson{Name: "a", Email: ptr("e"), Badge: ptr(1)}, false },
		func() (any, bool) { return uPerson{Name: "b", Badge: ptr(2), Boss: &uPerson{Name: "a"}}, false },
		func() (any, bool) { return uPerson{Name: "b", Email: ptr("e")}, false },
		func() (any, bool) { return uEmail{Email: "e", Badge: 2}, false },
		func() (any, bool) { return uName{"a", 3}, false },
		func() (any, bool) { return wConflict{"s"}, false },
		func() (any, bool) {
			return &wGood{Slug: "w", M: map[string]*wLeaf{"x": {K: "x", U: ptr(1)}, "y": {K: "y", U: ptr(2)}}}, false
		},
		func() (any, bool) {
			return &wGood{Slug: "v", M: map[string]*wLeaf{"x": {K: "x", U: ptr(2)}, "y": {K: "y", U: ptr(2)}}}, false
		},
		func() (any, bool) {
			return &wGood{Slug: "v", M: map[string]*wLeaf{"x": {K: "x"}, "y": nil, "z": {K: "z"}}}, false
		},
		func() (any, bool) { return uPerson{Name: "a", Email: ptr("e"), Badge: ptr(1)}, true },
		func() (any, bool) { return uPerson{Name: "a", Badge: ptr(2)}, true },
		func() (any, bool) { return &uPerson{Name: "b", Email: ptr("zz")}, true },
		func() (any, bool) { return uName{Name: "a"}, true },
		func() (any, bool) { return uName{Name: "b"}, true },
	}
	viewOf[uPerson]()
	viewOf[uEmail]()
	viewOf[uName]()
	viewOf[wConflict]()
	viewOf[wGood]()
	inAnyOrder(c, "histories of structs", c.bound(1, 2), func(ch *Ch) func(*seen) {
		var reqs [][]int
		var req []int
		for i := range 3 {
			if i > 0 {
				k := ch.Pick(3)
				if k == 0 {
					break
				}
				if k == 1 {
					reqs = append(reqs, req)
					req = nil
				}
			}
			req = append(req, ch.Pick(len(elems)))
		}
		reqs = append(reqs, req)
		return structRun(nil, func() (out []sreq) {
			for _, r := range reqs {
				var s sreq
				for _, j := range r {
					if x, retract := elems[j](); retract {
						s.retract = append(s.retract, x)
					} else {
						s.assert = append(s.assert, x)
					}
				}
				out = append(out, s)
			}
			return
		})
	})
}

// smallGraphs are choices of graphs of structs, each of which can be built any number of times.
func smallGraphs(few func(quick, thorough int) int, one func(name string, build func(ch *Ch) func() []any)) {
	viewOf[gNode]()
	viewOf[gA]()
	viewOf[gB]()
	viewOf[gOuter]()
	viewOf[gPair]()
	viewOf[mPtrs[string]]()
	viewOf[mVals[int]]()
	viewOf[mBoth[string]]()
	viewOf[mLeaf[string]]()
	viewOf[mByID]()
	viewOf[sTreeUp]()
	viewOf[sScalars[int]]()
	viewOf[gRoot]()
	viewOf[mTree]()
	one("pointer graphs", func(ch *Ch) func() []any {
		n := 1 + ch.Pick(few(2, 3))
		l, r := make([]int, n), make([]int, n)
		for i := range n {
			l[i], r[i] = ch.Pick(n+1)-1, ch.Pick(n+1)-1
		}
		all := ch.Bool()
		return func() (out []any) {
			var ns []*gNode
			for i := range n {
				ns = append(ns, &gNode{V: i})
			}
			for i, x := range ns {
				if l[i] >= 0 {
					x.L = ns[l[i]]
				}
				if r[i] >= 0 {
					x.R = ns[r[i]]
				}
				if all || i == 0 {
					out = append(out, x)
				}
			}
			return
		}
	})
	one("two types of nodes", func(ch *Ch) func() []any {
		a0a, a0b, a1b, b0a, b1a := ch.Pick(3), ch.Pick(3), ch.Pick(3), ch.Pick(3), ch.Pick(2)
		return func() []any {
			as := []*gA{nil, {V: 1}, {V: 2}}
			bs := []*gB{nil, {V: ptr("s")}, {V: ptr("s")}}
			as[1].A, as[1].B, as[2].B, bs[1].A, bs[2].A = as[a0a], bs[a0b], bs[a1b], as[b0a], as[b1a]
			return []any{as[1], bs[2]}
		}
	})
	one("maps", func(ch *Ch) func() []any {
		in := []int{ch.Pick(4), ch.Pick(4), ch.Pick(few(1, 4))}
		next := []int{ch.Pick(few(3, 4)), ch.Pick(few(2, 4))}
		cc := ch.Pick(3)
		if in[0]+in[1]+in[2]+cc == 0 {
			ch.Prune()
		}
		return func() []any {
			root := &mBoth[string]{A: map[string]*mLeaf[string]{}, B: map[string]*mLeaf[string]{}, V: map[int]mLeaf[string]{}}
			kids := []*mLeaf[string]{nil, {V: 1, Key: "a"}, {V: 2, Key: "b"}, {V: 3, Key: "c"}}
			for i, k := range kids[1:] {
				if in[i]&1 != 0 {
					root.A[k.Key] = k
				}
				if in[i]&2 != 0 {
					root.B[k.Key] = k
				}
			}
			kids[1].Next, kids[2].Next, root.C = kids[next[0]], kids[next[1]], kids[cc]
			return []any{root}
		}
	})
	one("maps of values that refer back", func(ch *Ch) func() []any {
		n := 1 + ch.Pick(few(2, 3))
		up := []int{ch.Pick(3), ch.Pick(3), ch.Pick(few(1, 3))}
		p := ch.Pick(3)
		return func() []any {
			roots := []*mVals[int]{nil, {N: 3, M: map[int]mLeaf[int]{}}, {N: 4, M: map[int]mLeaf[int]{7: {V: 9, Key: 7}}}}
			roots[1].P = roots[p]
			for i := range n {
				roots[1].M[i] = mLeaf[int]{V: i, Key: i, UpV: roots[up[i]]}
			}
			return []any{roots[1]}
		}
	})
	one("maps by id", func(ch *Ch) func() []any {
		in, up, next := []int{ch.Pick(2), ch.Pick(2)}, []int{ch.Pick(3), ch.Pick(few(2, 3))}, []int{ch.Pick(3), ch.Pick(few(1, 3))}
		p, w, n := ch.Pick(few(2, 3)), 2*ch.Pick(2), 2*ch.Pick(2)
		if in[0]+in[1]+p+w+n == 0 {
			ch.Prune()
		}
		return func() []any {
			roots := []*mByID{nil, {M: map[uint64]*mByIDC{}, W: map[uint64]mByIDC{}, N: map[nInt]mByIDC{}}, {}}
			kids := []*mByIDC{nil, {V: 1}, {V: 2}}
			roots[2].P = kids[1]
			for i, k := range kids[1:] {
				if in[i] == 1 {
					roots[1].M[uint64(i+1)] = k
				}
				k.Up, k.Next = roots[up[i]], kids[next[i]]
			}
			roots[1].P = kids[p]
			for i := range w {
				roots[1].W[uint64(i+1)] = mByIDC{V: 20 + i}
			}
			for i := range n {
				roots[1].N[nInt(30+i)] = mByIDC{V: 30 + i, Next: kids[1]}
			}
			return []any{roots[1]}
		}
	})
	one("slices of structs that refer back", func(ch *Ch) func() []any {
		n := ch.Pick(3)
		kind := []int{ch.Pick(4), ch.Pick(few(2, 4))}
		up := []int{ch.Pick(3), ch.Pick(few(2, 3))}
		p, kids := ch.Pick(few(2, 3)), ch.Pick(few(1, 2)) == 1
		return func() []any {
			roots := []*sTreeUp{nil, {Name: "root"}, {Name: "other"}}
			root := roots[1]
			for i := range n {
				k := sKid{V: ptr(float64(i)), Up: roots[up[i]], In: gDeep{Z: true, W: instOf(int64(i))}}
				switch kind[i] {
				case 1:
					k.Tags = []string{"x", "y", "x"}
				case 2:
					k.M = map[string]sTreeUp{"p": {Name: "p"}, "q": {Name: "q"}}
				case 3:
					k.M = map[string]sTreeUp{"p": {Name: "p", P: root}, "q": {Name: "q", Kids: []sKid{{V: ptr(1.5)}, {V: ptr(2.5)}}}}
				}
				root.Kids = append(root.Kids, k)
			}
			root.P = roots[p]
			if kids {
				roots[2].Kids = []sKid{{V: ptr(7.0), Up: root}, {V: ptr(8.0)}}
			}
			return []any{root}
		}
	})
	one("slices of scalars", func(ch *Ch) func() []any {
		n, m := ch.Pick(4), ch.Pick(4)
		rev := ch.Bool()
		return func() []any {
			x := &sScalars[int]{X: 1, C: []string{"c"}}
			for i := range n {
				x.A = append(x.A, i*7%5)
			}
			for i := range m {
				x.B = append(x.B, -i)
			}
			if rev {
				slices.Reverse(x.A)
			}
			return []any{x}
		}
	})
	one("structs within structs", func(ch *Ch) func() []any {
		p, q, up := []int{ch.Pick(3), ch.Pick(few(2, 3))}, []int{ch.Pick(2), ch.Pick(2)}, []int{ch.Pick(3), ch.Pick(few(2, 3))}
		return func() []any {
			mk := func(i int) *gOuter {
				return &gOuter{X: i, In: gInner{Y: fmt.Sprint(i), Deep: gDeep{Z: i == 1, W: instOf(int64(i))}}}
			}
			os := []*gOuter{nil, mk(1), mk(2)}
			ds := []*gDeep{nil, {Z: true, W: instOf(77)}}
			for i, o := range os[1:] {
				o.P, o.In.Up, o.Q = os[p[i]], os[up[i]], ds[q[i]]
			}
			return []any{os[1], os[2]}
		}
	})
	one("roots that share", func(ch *Ch) func() []any {
		l, p, in, next := []int{ch.Pick(few(2, 3)), ch.Pick(few(2, 3))}, []int{ch.Pick(3), ch.Pick(few(1, 3))}, []int{ch.Pick(4), ch.Pick(few(2, 4))}, ch.Pick(3)
		return func() []any {
			ns := []*gNode{nil, {V: 1}, {V: 2}}
			ns[1].L, ns[2].L = ns[l[0]], ns[l[1]]
			rs := []*gRoot{nil, {Name: "x"}, {Name: "y"}}
			for i, r := range rs[1:] {
				r.P, r.M = ns[p[i]], map[int]*gNode{}
				for j, n := range ns[1:] {
					if in[i]>>j&1 == 1 {
						r.M[n.V] = n
					}
				}
			}
			rs[1].Next = rs[next]
			return []any{rs[1], rs[2]}
		}
	})
}
