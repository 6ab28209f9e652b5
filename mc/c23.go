package main

import (
	"fmt"
	"maps"
	"reflect"
	"slices"
	"time"
	"unsafe"

	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
	pdb "github.com/dball/destructive/pkg/database"
)

func init() { register("C23", c23) }

// change is one way to change memory.
type change struct {
	what string
	do   func()
}

// changes lists the ways to change the memory reachable from a value.
func changes(x any) (out []change) {
	seen := map[unsafe.Pointer]bool{}
	var rec func(v reflect.Value, path string)
	flip := func(v reflect.Value, path string) {
		out = append(out, change{path, func() { v.Set(otherScalar(v)) }})
	}
	rec = func(v reflect.Value, path string) {
		t := v.Type()
		if scalarType(t) != 0 || t.Kind() == reflect.Uint64 {
			if v.CanSet() {
				flip(v, path)
			}
			return
		}
		switch t.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				rec(v.Elem(), path)
			}
			if v.CanSet() {
				out = append(out, change{path + " = nil", func() { v.SetZero() }})
			}
		case reflect.Pointer:
			if v.CanSet() {
				out = append(out, change{path + " = another pointer", func() {
					p := reflect.New(t.Elem())
					if v.IsNil() || scalarType(t.Elem()) != 0 {
						if scalarType(t.Elem()) != 0 {
							p.Elem().Set(otherScalar(p.Elem()))
						}
						v.Set(p)
					} else {
						v.SetZero()
					}
				}})
			}
			if v.IsNil() || seen[v.UnsafePointer()] {
				return
			}
			if t.Elem().Kind() == reflect.Struct {
				seen[v.UnsafePointer()] = true
			}
			rec(v.Elem(), "*"+path)
		case reflect.Struct:
			for i := range t.NumField() {
				if t.Field(i).IsExported() {
					rec(v.Field(i), path+"."+t.Field(i).Name)
				}
			}
		case reflect.Map:
			if v.CanSet() {
				out = append(out, change{path + " = nil", func() { v.SetZero() }})
			}
			if v.IsNil() || seen[v.UnsafePointer()] {
				return
			}
			seen[v.UnsafePointer()] = true
			v := reflect.ValueOf(v.Interface()) // not the field, which may change
			for _, k := range v.MapKeys() {
				rec(v.MapIndex(k), fmt.Sprintf("%s[%v]", path, k))
				out = append(out, change{fmt.Sprintf("delete %s[%v]", path, k), func() { v.SetMapIndex(k, reflect.Value{}) }},
					change{fmt.Sprintf("%s[%v] = zero", path, k), func() { v.SetMapIndex(k, reflect.Zero(t.Elem())) }})
			}
			if scalarType(t.Key()) != 0 || t.Key().Kind() == reflect.Uint64 || t.Key().Kind() == reflect.String {
				out = append(out, change{path + "[another] = zero", func() {
					v.SetMapIndex(otherScalar(reflect.New(t.Key()).Elem()), reflect.Zero(t.Elem()))
				}})
			}
		case reflect.Slice:
			if v.IsNil() {
				return
			}
			full := v.Slice(0, v.Cap())
			for i := range full.Len() {
				rec(full.Index(i), fmt.Sprintf("%s[%d]", path, i))
			}
			if v.CanSet() && v.Len() > 0 {
				out = append(out, change{"shorten " + path, func() { v.SetLen(v.Len() - 1) }})
			}
		}
	}
	rec(reflect.ValueOf(x), "it")
	return
}

func otherScalar(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	if t, ok := v.Interface().(time.Time); ok {
		out.Set(reflect.ValueOf(t.Add(time.Hour + 777*time.Millisecond)))
		return out
	}
	switch v.Kind() {
	case reflect.Bool:
		out.SetBool(!v.Bool())
	case reflect.Int:
		out.SetInt(v.Int() + 7777)
	case reflect.Uint64:
		out.SetUint(v.Uint() + 7777)
	case reflect.String:
		out.SetString(v.String() + "!changed")
	case reflect.Float64:
		out.SetFloat(v.Float() + 0.125)
	}
	return out
}

// some picks one of the changes, or all of them, and makes it.
func some(ch *Ch, what string, cs []change) {
	i := ch.Pick(len(cs) + 1)
	if i == 0 {
		ch.Log("change everything reachable from %s", what)
		for _, c := range cs {
			c.do()
		}
		return
	}
	ch.Log("change %s: %s", what, cs[i-1].what)
	cs[i-1].do()
}

func spare[T any](xs []T, with T) []T {
	out := make([]T, len(xs), len(xs)+3)
	copy(out, xs)
	for i := len(xs); i < cap(out); i++ {
		out[:cap(out)][i] = with
	}
	return out
}

func claimsString(req Request) (s string) {
	for _, c := range req.Claims[:cap(req.Claims)] {
		s += claimString(c) + " "
	}
	for _, r := range req.Retractions[:cap(req.Retractions)] {
		var refs []string
		for ref := range r.Constraints {
			refs = append(refs, refString(ref))
		}
		sortStrings(refs)
		s += fmt.Sprint("retract", refs)
	}
	return
}

func c23(c *Ctx) {
	c.assume("memory is changed while no operation is running, one location or all of them at once; what the id fields of written structs hold afterwards is part of the memory that writing leaves alone")
	c23claims(c)
	few := func(quick, thorough int) int {
		if c.thorough() {
			return thorough
		}
		return min(quick, 3)
	}
	smallGraphs(few, func(name string, build func(ch *Ch) func() []any) {
		c.Explore("written structs: "+name, func(ch *Ch) {
			b := build(ch)
			db := pdb.NewDatabase(smallConfig)
			mustWrite(ch, db, b()...)
			old := db.Read()
			xs := b()
			args := spare(xs, any(777))
			before := show(args) + showAll(args[:cap(args)])
			res := db.Write(pdb.Request{Assertions: args})
			if res.Error != nil {
				ch.Fail("writing %s is rejected: %v", showAll(xs), res.Error)
			}
			if now := show(args) + showAll(args[:cap(args)]); now != before {
				ch.Fail("writing changes the request from %s to %s", before, now)
			}
			ch.Step()
			ids := slices.Clone(res.IDs)
			oldRows, rows := realRows(datumsOf(old)), realRows(datumsOf(res.Snap))
			cs := changes(&args)
			cs = append(cs, changes(&res.IDs)...)
			some(ch, "the request or the response's ids", cs)
			check := func() {
				for i, want := range b() {
					v := sviews[reflect.TypeOf(want).Elem()]
					mustFind(ch, "the response", res.Snap, v, ids[i], want)
					mustFind(ch, "a read", db.Read(), v, ids[i], want)
				}
				if d := diffRows(realRows(datumsOf(res.Snap)), rows); d != "" {
					ch.Fail("the snapshot of the response changes: %s", d)
				}
				if d := diffRows(realRows(datumsOf(old)), oldRows); d != "" {
					ch.Fail("the snapshot from before changes: %s", d)
				}
				ch.Validated()
			}
			check()
			// What is written next is not what was changed.
			again := mustWrite(ch, db, b()...)
			for i, want := range b() {
				mustFind(ch, "the next response", again.Snap, sviews[reflect.TypeOf(want).Elem()], again.IDs[i], want)
			}
			check()
			ch.State(hashString(fmt.Sprint(name, ch.rec)))
		})
		c.Explore("found structs: "+name, func(ch *Ch) {
			b := build(ch)
			db := pdb.NewDatabase(smallConfig)
			res := mustWrite(ch, db, b()...)
			snap := db.Read()
			rows := realRows(datumsOf(snap))
			k := ch.Pick(len(res.IDs))
			wants := b()
			want := wants[k]
			v := sviews[reflect.TypeOf(want).Elem()]
			typed := v.typed(snap)
			other := typed(res.IDs[k])
			found := typed(res.IDs[k])
			if found == nil {
				ch.Fail("finds nothing")
			}
			some(ch, "what was found", changes(found))
			ch.Step()
			if d := isoEqual(want, other); d != "" {
				ch.Fail("what was found before becomes %s: %s", show(other), d)
			}
			if x := typed(res.IDs[k]); x == nil || isoEqual(want, x) != "" {
				ch.Fail("the same typed snapshot now finds %s, expected %s", show(x), show(want))
			}
			for i, want := range wants {
				v := sviews[reflect.TypeOf(want).Elem()]
				mustFind(ch, "the same snapshot", snap, v, res.IDs[i], want)
				mustFind(ch, "the snapshot of the response", res.Snap, v, res.IDs[i], want)
				mustFind(ch, "a read", db.Read(), v, res.IDs[i], want)
			}
			if d := diffRows(realRows(datumsOf(snap)), rows); d != "" {
				ch.Fail("the snapshot changes: %s", d)
			}
			again := mustWrite(ch, db, b()...)
			for i, want := range b() {
				mustFind(ch, "the next response", again.Snap, sviews[reflect.TypeOf(want).Elem()], again.IDs[i], want)
			}
			mustFind(ch, "the same snapshot", snap, v, res.IDs[k], want)
			ch.Validated()
			ch.State(hashString(fmt.Sprint(name, ch.rec)))
		})
	})
	// Histories of identified structs: everything handed over or received so far is changed
	// between the requests.
	elems := []func() (any, bool){
		func() (any, bool) {
			return &uPerson{Name: "a", Email: ptr("e"), Badge: ptr(1), Age: ptr(3), Note: "n", Boss: &uPerson{Name: "z", Age: ptr(5)}}, false
		},
		func() (any, bool) { return &uPerson{Name: "a", Age: ptr(4)}, false },
		func() (any, bool) { return &uPerson{Name: "b", Badge: ptr(2), Boss: &uPerson{Name: "a"}}, false },
		func() (any, bool) { return &uPerson{Name: "b", Email: ptr("e")}, false },
		func() (any, bool) { return &uEmail{Email: "e", Badge: 1, Age: 9}, false },
		func() (any, bool) { return &uBadge{Badge: 2, Age: ptr(1)}, false },
		func() (any, bool) { return &uPerson{Name: "a", Badge: ptr(1)}, true },
		func() (any, bool) { return &uEmail{Email: "e"}, true },
		func() (any, bool) { return &uPerson{Name: "z"}, true },
	}
	views := []sview{viewOf[uPerson](), viewOf[uEmail](), viewOf[uBadge]()}
	c.Explore("histories of structs", func(ch *Ch) {
		h := NewSHist(ch, views...)
		type was struct {
			snap *pdb.Snapshot
			rows []string
		}
		var held []was
		for i := range 3 {
			var req pdb.Request
			for j := range 2 {
				if j > 0 && ((i == 2 && !c.thorough()) || ch.Bool()) {
					break
				}
				x, retract := elems[ch.Pick(len(elems))]()
				if retract {
					req.Retractions = append(req.Retractions, x)
				} else {
					req.Assertions = append(req.Assertions, x)
				}
			}
			req.Assertions, req.Retractions = spare(req.Assertions, any(777)), spare(req.Retractions, any(777))
			before := showAll(req.Assertions[:cap(req.Assertions)]) + showAll(req.Retractions[:cap(req.Retractions)])
			res, _ := h.Do(req)
			if now := showAll(req.Assertions[:cap(req.Assertions)]) + showAll(req.Retractions[:cap(req.Retractions)]); now != before {
				ch.Fail("writing changes the request from %s to %s", before, now)
			}
			for _, c := range append(append(changes(&req.Assertions), changes(&req.Retractions)...), changes(&res.IDs)...) {
				c.do()
			}
			for _, v := range views {
				for _, id := range h.known {
					if x, _ := v.find(res.Snap, id); x != nil {
						for _, c := range changes(x) {
							c.do()
						}
					}
				}
			}
			h.compare("everything was changed", "the response", res.Snap)
			h.compare("everything was changed", "the database", h.db.Read())
			held = append(held, was{res.Snap, realRows(datumsOf(res.Snap))})
			for k, w := range held {
				if d := diffRows(realRows(datumsOf(w.snap)), w.rows); d != "" {
					ch.Fail("the snapshot of response %d changes: %s", k, d)
				}
			}
			if i > 0 && ch.Bool() {
				return
			}
		}
	})
	longStructs(c)
}

// c23claims changes requests of claims, and the tempids of their responses.
func c23claims(c *Ctx) {
	n := Ident("name")
	setup := [][]Atom{
		schema(adecl{"name", tString, false, uIdent}, adecl{"n", tInt, false, 0}, adecl{"tags", tString, true, 0}, adecl{"ref", tRef, true, 0}, adecl{"b", tInt, false, uValue}),
		{C(TempID("x"), n, String("x")), C(TempID("x"), Ident("tags"), String("1")), C(TempID("x"), Ident("tags"), String("2")), C(TempID("x"), sys.DbIdent, String("ix")),
			C(TempID("y"), n, String("y")), C(TempID("y"), Ident("ref"), TempID("x")), C(TempID("y"), Ident("b"), Int(1))},
	}
	atoms := []Atom{
		C(Ent("x"), Ident("n"), Int(1)), C(Ident("ix"), Ident("n"), Int(2)), C(TempID("z"), n, String("x")), C(TempID("z"), Ident("n"), Int(3)),
		C(L(n, String("y")), Ident("ref"), Ident("ix")), RC(Ent("x"), Ident("tags"), String("1")), C(Ent("y"), sys.DbIdent, String("iy")),
		RE(Ent("x")), RE(L(n, String("y")), L(Ident("b"), Int(1))), RE(Ident("ix"), L(n, String("x"))), C(Ent("y"), Ident("b"), Int(9)),
		C(Ent("x"), Ident("b"), Int(1)), G(C(TempID("d"), sys.DbIdent, String("d")), C(TempID("d"), sys.AttrType, tInt)), C(TempID("w"), Ident("d"), Int(6)),
		C(TxnID{}, Ident("tags"), String("t")),
	}
	base := &Base{reqs: setup}
	junk := Claim{E: TempID("junk"), A: n, V: String("junk")}
	c.Explore("claims", func(ch *Ch) {
		h := NewHist(ch, 2)
		base.apply(h)
		type was struct {
			snap         Snapshot
			m            *Model
			ids, changed map[TempID]ID
		}
		var held []was
		left := c.bound(3, 4)
		for left > 0 {
			var as []Atom
			for left > 0 {
				a := atoms[ch.Pick(len(atoms))]
				as = append(as, a)
				left--
				if left > 0 && ch.Bool() {
					break
				}
			}
			req := h.Build(as)
			req.Claims, req.Retractions = spare(req.Claims, junk), spare(req.Retractions, Retraction{Constraints: map[IDRef]Void{n: {}}})
			before := claimsString(req)
			res, _ := h.DoReq(req, as, true)
			if now := claimsString(req); now != before {
				ch.Fail("writing changes the request from %s to %s", before, now)
			}
			for i, w := range held {
				if !maps.Equal(w.ids, w.changed) {
					ch.Fail("the ids in response %d, changed to %v, become %v", i, w.changed, w.ids)
				}
			}
			// Change all there is.
			for i := range req.Claims[:cap(req.Claims)] {
				req.Claims[:cap(req.Claims)][i] = junk
			}
			for _, r := range req.Retractions[:cap(req.Retractions)] {
				clear(r.Constraints)
				r.Constraints[Ident("ix")] = Void{}
			}
			tempids := maps.Clone(res.TempIDs)
			for t := range tempids {
				res.TempIDs[t] = h.env["y"]
			}
			if res.TempIDs != nil {
				res.TempIDs["junk"] = h.env["x"]
			}
			held = append(held, was{res.Snapshot, h.m, res.TempIDs, maps.Clone(res.TempIDs)})
			now := h.m
			for i, w := range held {
				h.m = w.m
				if d := h.diff(w.snap); d != "" {
					ch.Fail("after the request was changed, the snapshot of response %d: %s", i, d)
				}
			}
			h.m = now
			if d := h.diff(h.db.Read()); d != "" {
				ch.Fail("after the request was changed, the database: %s", d)
			}
		}
	})
}
