package main

import (
	"fmt"
	"maps"
	"reflect"
	"slices"

	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
	pdb "github.com/dball/destructive/pkg/database"
)

// Long histories: every sequence of up to a few kinds of request, repeated many times over. What
// goes wrong only once something is full, has been reused or has happened often enough goes wrong
// in one of these. Every response is compared with the model when it comes, and again at the end.

// longSteps are kinds of request; the i-th of a history differs from those before.
var longSteps = []struct {
	name string
	make func(i int) []Atom
}{
	{"replace", func(i int) []Atom { return []Atom{C(Ent("x"), Ident("n"), Int(i*37-500))} }},
	{"to and fro", func(i int) []Atom {
		return []Atom{C(Ent("y"), Ident("f"), Float(i%2)), C(Ent("y"), Ident("b"), Bool(i%3 == 0))}
	}},
	{"add", func(i int) []Atom { return []Atom{C(Ent("x"), Ident("m"), String(fmt.Sprint("m", i)))} }},
	{"add and remove", func(i int) []Atom {
		return []Atom{C(Ent("x"), Ident("m"), String(fmt.Sprint("m", i))), RC(Ent("x"), Ident("m"), String(fmt.Sprint("m", i-2)))}
	}},
	{"new entity", func(i int) []Atom {
		e := TempID("e")
		return []Atom{C(e, Ident("u"), String(fmt.Sprint("u", i))), C(e, Ident("ref"), Ent("x")), C(Ent("x"), Ident("ref"), e), C(e, Ident("t"), Inst(instOf(int64(i)*1234567-9)))}
	}},
	{"same entity", func(i int) []Atom {
		return []Atom{C(TempID("s"), Ident("u"), String("s")), C(TempID("s"), Ident("n"), Int(i)), C(TempID("z"), Ident("m"), String("z")), C(TempID("z"), Ident("n"), Int(-i))}
	}},
	{"retract the previous", func(i int) []Atom { return []Atom{RE(L(Ident("u"), String(fmt.Sprint("u", i-1))))} }},
	{"new attribute", func(i int) []Atom {
		d := TempID("d")
		as := []Atom{C(d, sys.DbIdent, String(fmt.Sprint("d", i))), C(d, sys.AttrType, allTypes[i%6])}
		if i%3 == 0 {
			as = append(as, C(d, sys.AttrCardinality, sys.AttrCardinalityMany))
		}
		if i%4 == 0 {
			as = append(as, C(d, sys.AttrUnique, []ID{uIdent, uValue}[i/4%2]))
		}
		return as
	}},
	{"use of it", func(i int) []Atom {
		v := []VRef{String("v"), Int(i), Ent("x"), Bool(true), Float(i), at("2020-01-01T00:00:00Z")}
		for j, t := range allTypes {
			if t == allTypes[(i+5)%6] {
				return []Atom{C(Ent("y"), Ident(fmt.Sprint("d", i-1)), valueOfType(t, v)), C(Ent("x"), Ident(fmt.Sprint("d", i-1)), valueOfType(allTypes[j], v))}
			}
		}
		panic(machineryError("no such type"))
	}},
	{"rename", func(i int) []Atom { return []Atom{C(Ent("y"), sys.DbIdent, String(fmt.Sprint("p", i)))} }},
	{"new name", func(i int) []Atom {
		return []Atom{C(TempID("q"), sys.DbIdent, String(fmt.Sprint("q", i))), C(TempID("q"), Ident("n"), Int(i)), RE(Ident(fmt.Sprint("q", i-2)))}
	}},
	{"name alone", func(i int) []Atom {
		return []Atom{C(TempID("q"), sys.DbIdent, String(fmt.Sprint("q", i))), C(TempID("q"), Ident("ref"), Ident(fmt.Sprint("q", i)))}
	}},
	{"named", func(i int) []Atom { return []Atom{C(TempID("q"), sys.DbIdent, String(fmt.Sprint("q", i)))} }},
	{"rejected", func(i int) []Atom {
		return []Atom{C(TempID("r"), Ident("m"), String(fmt.Sprint("r", i))), C(TempID("r"), sys.DbIdent, String(fmt.Sprint("r", i))), C(Ent("x"), Ident("n"), Int(i)), C(Ent("y"), Ident("n"), String("no"))}
	}},
	{"about the transaction", func(i int) []Atom { return []Atom{C(TxnID{}, Ident("n"), Int(i)), C(TxnID{}, Ident("ref"), Ent("y"))} }},
	{"several", func(i int) (as []Atom) {
		for k := range 9 {
			e := TempID(fmt.Sprint("k", k))
			as = append(as, C(e, Ident("u"), String(fmt.Sprint("k", (i*5+k)%23))), C(e, Ident("m"), String(fmt.Sprint(i, "/", k))), C(e, Ident("n"), Int(i*k)))
		}
		return
	}},
}

func valueOfType(t ID, vs []VRef) VRef {
	switch t {
	case tString:
		return vs[0]
	case tInt:
		return vs[1]
	case tRef:
		return vs[2]
	case tBool:
		return vs[3]
	case tFloat:
		return vs[4]
	}
	return vs[5]
}

// idleRequests are requests of nothing, or of nothing new, in every sequence with others: they
// are transactions too.
func idleRequests(c *Ctx, base *Base) {
	x, y := Ent("x"), Ent("y")
	kinds := [][]Atom{
		nil,
		{},
		{C(x, Ident("n"), Int(5)), C(x, Ident("m"), String("m"))},
		{RC(x, Ident("n"), Int(1<<40)), RC(y, Ident("m"), String("none"))},
		{C(TempID("x"), Ident("u"), String("x"))},
		{C(TempID("e"), Ident("ref"), x), C(TempID("e"), Ident("n"), Int(5))},
		{C(TxnID{}, Ident("n"), Int(5))},
		{RE(Tx)},
		{C(y, Ident("n"), String("wrong"))},
	}
	n := c.bound(4, 5)
	c.Explore("idle requests", func(ch *Ch) {
		h := NewHist(ch, 2)
		base.apply(h)
		for range n {
			k := ch.Pick(len(kinds))
			var req Request
			for _, a := range kinds[k] {
				if !h.env.add(&req, a) {
					ch.Prune()
				}
			}
			if k == 1 {
				req = Request{Claims: make([]Claim, 0, 2), Retractions: []Retraction{}}
			}
			h.DoReq(req, kinds[k], true)
		}
	})
}

// largeKinds are kinds of large request: what is written before it, if anything, and the i-th
// part of n.
var largeKinds = []struct {
	name   string
	before func(i, n int) []Atom
	make   func(i, n int) []Atom
}{
	{"new entities", nil, largeEntity},
	{"values of one entity", nil, func(i, n int) []Atom { return []Atom{C(Ent("x"), Ident("m"), String(fmt.Sprint("m", i*7919%n)))} }},
	{"references", nil, func(i, n int) []Atom {
		return []Atom{C(TempID(fmt.Sprint("k", i)), Ident("ref"), TempID(fmt.Sprint("k", (i+1)%n))), C(TempID(fmt.Sprint("k", i)), Ident("f"), Float(i))}
	}},
	{"attributes", nil, func(i, n int) []Atom {
		return schema(adecl{fmt.Sprint("d", i), allTypes[i%6], i%5 == 0, []ID{0, uIdent, 0, uValue}[i%4]})
	}},
	{"names", nil, func(i, n int) []Atom {
		return []Atom{C(TempID(fmt.Sprint("k", i)), sys.DbIdent, String(fmt.Sprint("q", i)))}
	}},
	{"retractions", largeEntity, func(i, n int) []Atom { return []Atom{RE(L(Ident("u"), String(fmt.Sprint("u", i))))} }},
	{"replacements", largeEntity, func(i, n int) []Atom {
		return []Atom{C(L(Ident("u"), String(fmt.Sprint("u", i))), Ident("n"), Int(i/2))}
	}},
	{"new values of known entities", largeEntity, func(i, n int) []Atom {
		e := TempID(fmt.Sprint("k", i))
		return []Atom{C(e, Ident("n"), Int(-i)), C(e, Ident("u"), String(fmt.Sprint("u", (i+n/2)%n)))}
	}},
	{"few entities by many tempids", nil, func(i, n int) []Atom {
		return []Atom{C(TempID(fmt.Sprint("k", i)), Ident("u"), String(fmt.Sprint("u", i%3))), C(TempID(fmt.Sprint("k", i)), Ident("m"), String(fmt.Sprint("m", i)))}
	}},
	{"removals", func(i, n int) []Atom { return []Atom{C(Ent("x"), Ident("m"), String(fmt.Sprint("m", i)))} }, func(i, n int) []Atom {
		return []Atom{RC(Ent("x"), Ident("m"), String(fmt.Sprint("m", i*7919%n)))}
	}},
}

func largeEntity(i, n int) []Atom {
	e := TempID(fmt.Sprint("k", i))
	return []Atom{C(e, Ident("u"), String(fmt.Sprint("u", i))), C(e, Ident("n"), Int(i))}
}

// largeRequests are requests of sizes about the powers of two, with or without a part for which
// they are rejected, first, last or in between.
func largeRequests(c *Ctx, base *Base) {
	var sizes []int
	for _, b := range []int{16, 64, 128, 256, 512, 1024}[:c.bound(4, 6)] {
		sizes = append(sizes, b-1, b, b+1)
	}
	c.Explore("large requests", func(ch *Ch) {
		n := sizes[ch.Pick(len(sizes))]
		kind := largeKinds[ch.Pick(len(largeKinds))]
		h := NewHist(ch, []int{2, 32}[ch.Pick(2)])
		base.apply(h)
		if kind.before != nil {
			var as []Atom
			for i := range n {
				as = append(as, kind.before(i, n)...)
			}
			h.Do(as, false)
		}
		snap, m := h.db.Read(), h.m
		bad := -1
		if k := ch.Pick(4); k > 0 {
			bad = []int{0, n / 2, n - 1}[k-1]
		}
		var as []Atom
		for i := range n {
			as = append(as, kind.make(i, n)...)
			if i == bad {
				as = append(as, C(Ent("x"), Ident("n"), String("no")))
			}
		}
		h.Do(as, true)
		// and another on top of it
		h.Do([]Atom{C(Ent("x"), Ident("n"), Int(5)), C(TempID("k0"), Ident("u"), String("u0")), C(TempID("k0"), Ident("ref"), Ent("x"))}, true)
		h.m = m
		if d := h.diff(snap); d != "" {
			ch.Fail("after a large request, the snapshot before it: %s", d)
		}
	})
}

func longHistories(c *Ctx) {
	setup := [][]Atom{
		schema(adecl{"u", tString, false, uIdent}, adecl{"m", tString, true, uIdent}, adecl{"n", tInt, false, 0}, adecl{"f", tFloat, false, 0}, adecl{"ref", tRef, true, 0}, adecl{"t", tInst, true, 0}, adecl{"b", tBool, false, 0}),
		{C(TempID("x"), Ident("n"), Int(0)), C(TempID("y"), sys.DbIdent, String("p"))},
	}
	base := &Base{reqs: setup}
	largeRequests(c, base)
	idleRequests(c, base)
	length, period := c.bound(72, 150), c.bound(2, 3)
	c.Explore("long histories", func(ch *Ch) {
		h := NewHist(ch, 2)
		base.apply(h)
		pattern := []int{ch.Pick(len(longSteps))}
		for len(pattern) < period {
			// The last one is to end the pattern.
			k := ch.Pick(len(longSteps) + 1)
			if k == len(longSteps) {
				break
			}
			pattern = append(pattern, k)
		}
		h.idents = []string{"p", "q0", "q1", "q60", "d0", "d70", "d71", "r1"}
		type was struct {
			snap Snapshot
			m    *Model
			got  map[TempID]ID
			ids  map[TempID]ID
		}
		var held []was
		for i := range length {
			as := longSteps[pattern[i%len(pattern)]].make(i / len(pattern))
			for _, a := range as {
				if !h.Can(a) {
					ch.Prune()
				}
			}
			res, _ := h.Do(as, true)
			held = append(held, was{res.Snapshot, h.m, res.TempIDs, maps.Clone(res.TempIDs)})
			if i%5 == 0 {
				held = append(held, was{snap: h.db.Read(), m: h.m})
			}
		}
		for k, w := range held {
			h.m = w.m
			if d := h.diff(w.snap); d != "" {
				ch.Fail("at the end of %d requests, snapshot %d: %s", length, k, d)
			}
			if !maps.Equal(w.got, w.ids) {
				ch.Fail("at the end of %d requests, the ids of snapshot %d become %v from %v", length, k, w.got, w.ids)
			}
		}
	})
}

type uGraph struct {
	ID   uint64            `attr:"sys/db/id"`
	Name string            `attr:"g/name,identity"`
	One  uMember           `attr:"g/one"`
	Ptr  *uGraph           `attr:"g/ptr"`
	By   map[string]uEntry `attr:"g/by,key=e/key"`
	Tags []string          `attr:"g/tags,value=g/tag"`
}
type uEntry struct {
	Key string `attr:"e/key"`
	N   int    `attr:"e/n"`
}

// nothing stands for a request of nothing.
type nothing struct{}

func longStructs(c *Ctx) {
	elems := []func(i int) (any, bool){
		func(i int) (any, bool) { return &uPerson{Name: "a", Age: ptr(i)}, false },
		func(i int) (any, bool) { return uPerson{Name: fmt.Sprint("n", i), Badge: ptr(i)}, false },
		func(i int) (any, bool) { return uName{Name: fmt.Sprint("n", i-1)}, true },
		func(i int) (any, bool) {
			return &uPerson{Name: "b", Email: ptr("e"), Boss: &uPerson{Name: fmt.Sprint("c", i%3)}}, false
		},
		func(i int) (any, bool) { return uEmail{Email: "e", Badge: i + 1, Age: 9}, false },
		func(i int) (any, bool) { return uAge{Age: i}, false },
		func(i int) (any, bool) {
			return &uGraph{Name: fmt.Sprint("g", i), One: uMember{N: i}, By: map[string]uEntry{"a": {"a", i}, "b": {"b", -i}}, Tags: []string{"x", "", "y"}, Ptr: &uGraph{Name: fmt.Sprint("h", i), One: uMember{N: 3}}}, false
		},
		func(i int) (any, bool) { return uGraph{Name: fmt.Sprint("g", i-1)}, true },
		func(i int) (any, bool) { return []any{struct{ X chan int }{}, 7, nil, (*uAge)(nil)}[i%4], false },
		func(i int) (any, bool) { return numbered(i), false },
		func(i int) (any, bool) { return nothing{}, false },
	}
	views := []sview{viewOf[uPerson](), viewOf[uEmail](), viewOf[uGraph](), viewOf[uAge]()}
	length, period := c.bound(32, 60), c.bound(2, 3)
	c.Explore("long histories of structs", func(ch *Ch) {
		h := NewSHist(ch, views...)
		pattern := []int{ch.Pick(len(elems))}
		for len(pattern) < period {
			k := ch.Pick(len(elems) + 1)
			if k == len(elems) {
				break
			}
			pattern = append(pattern, k)
		}
		type was struct {
			snap      *pdb.Snapshot
			rows      []string
			ids, orig []uint64
		}
		type seen struct{ x, want any }
		var held []was
		var found []seen
		for i := range length {
			x, retract := elems[pattern[i%len(pattern)]](i / len(pattern))
			var req pdb.Request
			if x == (any)(nothing{}) {
				retract = true
				if i%3 == 0 {
					req = pdb.Request{Assertions: []any{}, Retractions: []any{}}
				}
			} else if retract {
				req.Retractions = []any{x}
			} else {
				req.Assertions = []any{x}
			}
			res, ok := h.Do(req)
			held = append(held, was{res.Snap, realRows(datumsOf(res.Snap)), res.IDs, slices.Clone(res.IDs)})
			if !ok || retract {
				continue
			}
			for _, v := range views {
				want, ok := h.expect(v.typ, ID(res.IDs[0]))
				if x, _ := v.find(res.Snap, res.IDs[0]); ok && x != nil && !reflect.ValueOf(x).IsNil() {
					found = append(found, seen{x, want})
				}
			}
		}
		for k, w := range held {
			if d := diffRows(realRows(datumsOf(w.snap)), w.rows); d != "" {
				ch.Fail("at the end of %d requests, snapshot %d changes: %s", length, k, d)
			}
			if !slices.Equal(w.ids, w.orig) {
				ch.Fail("at the end of %d requests, the ids of response %d become %v from %v", length, k, w.ids, w.orig)
			}
		}
		for _, s := range found {
			if d := isoExact(s.want, s.x); d != "" {
				ch.Fail("at the end of %d requests, a struct found before becomes %s: %s", length, show(s.x), d)
			}
		}
		ch.Validated()
	})
}

// numbered are structs of many types.
func numbered(i int) any {
	t := reflect.StructOf([]reflect.StructField{
		{Name: "Name", Type: reflect.TypeFor[string](), Tag: `attr:"p/name,identity"`},
		{Name: "N", Type: []reflect.Type{reflect.TypeFor[int](), reflect.TypeFor[string](), reflect.TypeFor[*bool]()}[i%3], Tag: reflect.StructTag(fmt.Sprintf(`attr:"t%d/n"`, i))},
		{Name: "Age", Type: reflect.TypeFor[int](), Tag: `attr:"p/age"`},
	})
	x := reflect.New(t)
	x.Elem().Field(0).SetString(fmt.Sprint("t", i%4))
	x.Elem().Field(2).SetInt(int64(i))
	return x.Interface()
}
