package main

import (
	"reflect"

	pdb "github.com/dball/destructive/pkg/database"
)

func init() { register("C21", c21) }

type wGood struct {
	Slug string            `attr:"w/slug,identity"`
	N    int               `attr:"w/n"`
	P    *wLeaf            `attr:"w/p"`
	M    map[string]*wLeaf `attr:"w/m,key=l/k"`
	S    []wLeaf           `attr:"w/s"`
	T    []int             `attr:"w/t,value=w/tv"`
}
type wLeaf struct {
	K string `attr:"l/k"`
	U *int   `attr:"l/u,unique"`
	G *wGood `attr:"l/g"`
}
type wNew struct {
	A string `attr:"new/a"`
	B *int   `attr:"new/b,unique"`
}
type wNewOther struct {
	A int    `attr:"new/a"`
	B []bool `attr:"new/b,value=new/v"`
}
type wConflict struct {
	N string `attr:"w/n"`
}
type wConflictU struct {
	Slug *string `attr:"w/slug,unique"`
	K    string  `attr:"l/k"`
}
type wConflictM struct {
	N []int `attr:"w/n,value=w/nv"`
}

func c21(c *Ctx) {
	c.assume("a request is rejected as a whole or recorded as a whole also when its elements are mutually recursive; requests have at most three elements")
	views := []sview{viewOf[uPerson](), viewOf[uAge](), viewOf[wGood](), viewOf[wNew](), viewOf[wNewOther]()}
	setup := [][]satom{{
		sa(func() any { return &uPerson{Name: "a", Email: ptr("e"), Badge: ptr(1), Age: ptr(3)} }),
		sa(func() any { return uPerson{Name: "b", Badge: ptr(2)} }),
	}, {
		sa(func() any { return wGood{Slug: "w", N: 1, P: &wLeaf{K: "k", U: ptr(1)}} }),
	}}
	// The same pointers in several requests.
	again := &uPerson{Name: "again", Badge: ptr(6)}
	leaf := &wLeaf{K: "again", U: ptr(9)}
	shared := &wGood{Slug: "again", P: leaf, M: map[string]*wLeaf{"again": leaf}}
	good := []satom{
		sa(func() any { return again }),
		sa(func() any { return shared }),
		sa(func() any { return &uPerson{Name: "c", Badge: ptr(3)} }),
		sa(func() any { return uName{"a", 9} }),
		sai(1, func(id uint64) any { return uAge{ID: id, Age: 7} }),
		sa(func() any {
			return &wGood{Slug: "w", N: 2, M: map[string]*wLeaf{"x": {K: "x"}}, S: []wLeaf{{K: "s"}}, T: []int{4, 5}}
		}),
		sa(func() any { return wNew{A: "s", B: ptr(1)} }),
		sa(func() any { return wNewOther{A: 3, B: []bool{true}} }),
		sri(0, func(id uint64) any { return uAge{ID: id} }),
		sr(func() any { return uBadge{Badge: 2} }),
	}
	bad := []satom{
		sa(func() any { return nil }),
		sa(func() any { return 42 }),
		sa(func() any { return (*uPerson)(nil) }),
		sa(func() any { return dBadChan{N: 1} }),
		sa(func() any { return dBadUnexported{N: 1} }),
		sa(func() any { return dBadNestedMap{N: 1} }),
		sa(func() any { return wConflict{"s"} }),
		sa(func() any { return wConflictU{K: "s"} }),
		sa(func() any { return wConflictM{[]int{1}} }),
		sa(func() any { return uPerson{Name: "d", Badge: ptr(1)} }),
		sa(func() any { return uPerson{Name: "b", Email: ptr("e")} }),
		sai(0, func(id uint64) any { return uPerson{ID: id, Name: "b"} }),
		sa(func() any { return uAge{ID: 1 << 40, Age: 1} }),
		sa(func() any { return &wGood{Slug: "z", P: &wLeaf{K: "z", U: ptr(1)}} }),
		sa(func() any { return &wGood{Slug: "z", M: map[string]*wLeaf{"x": {K: "x"}, "y": nil}} }),
		sa(func() any {
			return &wGood{Slug: "z", M: map[string]*wLeaf{"x": nil, "y": {K: "y"}}, S: []wLeaf{{K: "s"}}}
		}),
		sa(func() any {
			return &wGood{Slug: "z", S: []wLeaf{{K: "x"}, {K: "y", G: &wGood{Slug: "w", N: 8, P: &wLeaf{U: ptr(1)}}}}}
		}),
		sr(func() any { return nil }),
		sr(func() any { return 42 }),
		sr(func() any { return (*uPerson)(nil) }),
		sr(func() any { return uAge{} }),
		sr(func() any { return uName{Name: "zz"} }),
		sr(func() any { return uPerson{Name: "a", Badge: ptr(2)} }),
		sr(func() any { return uPerson{Name: "a", Badge: ptr(7)} }),
		sri(0, func(id uint64) any { return uPerson{ID: id, Name: "b"} }),
		sr(func() any { return dBadDirective{N: 1} }),
		sr(func() any { return wNew{B: ptr(1)} }),
	}
	all := append(append([]satom{}, good...), bad...)
	build := func(h *SHist, atoms []satom) (req pdb.Request) {
		for _, a := range atoms {
			x := a.make(h.known)
			if a.retract {
				req.Retractions = append(req.Retractions, x)
			} else {
				req.Assertions = append(req.Assertions, x)
			}
		}
		return
	}
	space := func(name string, setup [][]satom, parts, follow int) {
		c.Explore(name, func(ch *Ch) {
			h := NewSHist(ch, views...)
			for _, s := range setup {
				if _, ok := h.Do(build(h, s)); !ok {
					panic(machineryError("the model rejects a setup request"))
				}
			}
			choose := func(from []satom) satom {
				var can []satom
				for _, a := range from {
					if a.needs <= len(h.known) {
						can = append(can, a)
					}
				}
				return can[ch.Pick(len(can))]
			}
			var atoms []satom
			for i := range parts {
				if i > 0 && ch.Pick(2) == 0 {
					break
				}
				atoms = append(atoms, choose(all))
			}
			req := build(h, atoms)
			if _, _, _, reject := h.predict(req); reject == "" {
				ch.Prune()
			}
			rows := realRows(datumsOf(h.db.Read()))
			res, _ := h.Do(req)
			for _, s := range []*pdb.Snapshot{res.Snap, h.db.Read()} {
				if now := realRows(datumsOf(s)); !reflect.DeepEqual(rows, now) {
					ch.Fail("the rejected request changes the database: %s", diffRows(now, rows))
				}
			}
			for i := range follow {
				if i > 0 && ch.Pick(2) == 0 {
					break
				}
				h.Do(build(h, []satom{choose(good)}))
			}
		})
	}
	space("after some were recorded", setup, c.bound(2, 3), c.bound(2, 1))
	if c.thorough() {
		space("after some were recorded, more followed", setup, 2, 3)
	}
	space("in an empty database", nil, c.bound(2, 3), 2)
	longStructs(c)
}
