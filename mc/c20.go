package main

import (
	"time"

	pdb "github.com/dball/destructive/pkg/database"
)

func init() { register("C20", c20) }

type uPerson struct {
	ID    uint64   `attr:"sys/db/id"`
	Name  string   `attr:"p/name,identity"`
	Email *string  `attr:"p/email,identity"`
	Badge *int     `attr:"p/badge,unique"`
	Age   *int     `attr:"p/age"`
	Note  string   `attr:"p/note,ignoreempty"`
	Boss  *uPerson `attr:"p/boss"`
}
type uName struct {
	Name string `attr:"p/name,identity"`
	Age  int    `attr:"p/age"`
}
type uEmail struct {
	Email string `attr:"p/email,identity,ignoreempty"`
	Badge int    `attr:"p/badge,unique,ignoreempty"`
	Age   int    `attr:"p/age,ignoreempty"`
}
type uAge struct {
	Age int    `attr:"p/age"`
	ID  uint64 `attr:"sys/db/id"`
}
type uReport struct {
	Boss *uAge  `attr:"p/boss"`
	Name string `attr:"p/name"`
	ID   uint64 `attr:"sys/db/id"`
}
type uTeam struct {
	ID   uint64              `attr:"sys/db/id"`
	Lead uMember             `attr:"t/lead"`
	All  []uMember           `attr:"t/all"`
	By   map[uint64]*uMember `attr:"t/by"`
}
type uMember struct {
	ID uint64 `attr:"sys/db/id"`
	N  int    `attr:"m/n"`
}
type uBadge struct {
	Badge int  `attr:"p/badge,unique"`
	Age   *int `attr:"p/age"`
}
type uLast struct {
	Age   *int    `attr:"p/age"`
	Badge *int    `attr:"p/badge,unique"`
	Email *string `attr:"p/email,identity"`
	Name  string  `attr:"p/name,identity,ignoreempty"`
	ID    uint64  `attr:"sys/db/id"`
}
type uSlot struct {
	At   time.Time `attr:"s/at,identity"`
	Rate float64   `attr:"s/rate,unique"`
	ID   uint64    `attr:"sys/db/id"`
	Who  *uName    `attr:"s/who"`
	On   *bool     `attr:"s/on,unique"`
}

// satom is a struct to assert or retract; it may depend on the ids of known entities.
type satom struct {
	name    string
	make    func(ids []uint64) any
	retract bool
	needs   int // known entities
}

func sa(x func() any) satom { return satom{make: func([]uint64) any { return x() }} }
func sr(x func() any) satom { return satom{make: func([]uint64) any { return x() }, retract: true} }
func sai(n int, x func(id uint64) any) satom {
	return satom{make: func(ids []uint64) any { return x(ids[n]) }, needs: n + 1}
}
func sai2(x func(a, b uint64) any) satom {
	return satom{make: func(ids []uint64) any { return x(ids[0], ids[1]) }, needs: 2}
}
func sri(n int, x func(id uint64) any) satom {
	a := sai(n, x)
	a.retract = true
	return a
}

// sworld is a space of histories of struct requests: sequences of n atoms, in every division
// into requests.
type sworld struct {
	name  string
	setup [][]satom
	atoms []satom
	n     int
	views []sview
}

func (w sworld) explore(c *Ctx) {
	c.Explore(w.name, func(ch *Ch) {
		h := NewSHist(ch, w.views...)
		build := func(atoms []satom) (req pdb.Request) {
			for _, a := range atoms {
				x := a.make(h.known)
				if a.retract {
					req.Retractions = append(req.Retractions, x)
				} else {
					req.Assertions = append(req.Assertions, x)
				}
			}
			return
		}
		for _, s := range w.setup {
			if _, ok := h.Do(build(s)); !ok {
				panic(machineryError("the model rejects a setup request"))
			}
		}
		var atoms []satom
		for i := 0; i < w.n; i++ {
			var can []satom
			for _, a := range w.atoms {
				if a.needs <= len(h.known) {
					can = append(can, a)
				}
			}
			atoms = append(atoms, can[ch.Pick(len(can))])
			next := 0
			if i+1 < w.n {
				next = ch.Pick(3)
			}
			if next == 2 {
				continue
			}
			h.Do(build(atoms))
			if next == 0 {
				return
			}
			atoms = nil
		}
	})
}

func ptr[T any](x T) *T { return &x }

func c20(c *Ctx) {
	c.assume("claims about ids that were never issued are tried with ids far beyond those issued only; structs without any value to record are left out")
	views := []sview{viewOf[uPerson](), viewOf[uName](), viewOf[uEmail](), viewOf[uAge](), viewOf[uBadge](), viewOf[uTeam](), viewOf[uReport]()}
	people := []satom{
		sa(func() any { return &uPerson{Name: "a"} }),
		sa(func() any { return uPerson{Name: "b", Age: ptr(3)} }),
		sa(func() any { return uPerson{Name: "a", Email: ptr("e")} }),
		sa(func() any { return uPerson{Name: "b", Email: ptr("e"), Note: "n"} }),
		sa(func() any { return uName{"a", 5} }),
		sa(func() any { return &uName{"", 0} }),
		sa(func() any { return uEmail{Email: "e", Badge: 1} }),
		sa(func() any { return uEmail{Email: "f"} }),
		sa(func() any { return uEmail{Badge: 1, Age: 8} }),
		sa(func() any { return uBadge{Badge: 0} }),
		sai(0, func(id uint64) any { return uPerson{ID: id, Name: "a", Badge: ptr(2)} }),
		sai(0, func(id uint64) any { return &uPerson{ID: id, Name: "c"} }),
		sai(1, func(id uint64) any { return uPerson{ID: id, Name: "a"} }),
		sai(1, func(id uint64) any { return &uAge{ID: id, Age: 0} }),
		sai(0, func(id uint64) any { return uAge{ID: id, Age: 9} }),
		sa(func() any { return uAge{ID: 1 << 40, Age: 9} }),
		sa(func() any { return uAge{Age: 4} }),
		sa(func() any { return &uPerson{Name: "a", Boss: &uPerson{Name: "b"}} }),
		sa(func() any { p := &uPerson{Name: "c"}; p.Boss = p; return p }),
		sai(0, func(id uint64) any { return &uPerson{Name: "d", Boss: &uPerson{ID: id, Name: "a"}} }),
		sai2(func(a, b uint64) any { return &uPerson{ID: b, Name: "b", Boss: &uPerson{ID: a, Name: "a"}} }),
		sai2(func(a, b uint64) any {
			return uTeam{ID: a, Lead: uMember{b, 1}, All: []uMember{{ID: a, N: 1}, {N: 2}}}
		}),
		sai(0, func(id uint64) any { return &uTeam{All: []uMember{{N: 3}, {ID: id, N: 4}}} }),
		sai(1, func(id uint64) any { return &uTeam{By: map[uint64]*uMember{id: {id, 1}}} }),
		sri(0, func(id uint64) any { return uAge{ID: id} }),
		sri(1, func(id uint64) any { return &uAge{ID: id} }),
		sr(func() any { return uName{Name: "a"} }),
		sr(func() any { return &uPerson{Name: "b", Email: ptr("e")} }),
		sr(func() any { return uEmail{Badge: 1, Age: 3} }),
		sr(func() any { return uEmail{} }),
		sri(0, func(id uint64) any { return uPerson{ID: id, Name: "a"} }),
		sri(0, func(id uint64) any { return uPerson{ID: id} }),
		sri(1, func(id uint64) any { return &uLast{ID: id, Name: "a"} }),
		sri(0, func(id uint64) any { return uLast{ID: id, Email: ptr("e"), Badge: ptr(1)} }),
		sai(1, func(id uint64) any { return uLast{ID: id, Email: ptr("e"), Age: ptr(6)} }),
		sr(func() any { return uName{} }),
		sr(func() any { return uAge{} }),
		sr(func() any { return uBadge{} }),
	}
	sworld{name: "people", atoms: people, n: c.bound(3, 4), views: views}.explore(c)
	some := [][]satom{{
		sa(func() any { return &uPerson{Name: "a", Email: ptr("e"), Badge: ptr(1), Age: ptr(3), Note: "n"} }),
		sa(func() any { return uPerson{Name: "b", Badge: ptr(0)} }),
	}}
	sworld{name: "people, some recorded", setup: some, atoms: people, n: c.bound(3, 4), views: views}.explore(c)
	// The same pointers, asserted and retracted, in every order.
	c.Explore("the same pointers again", func(ch *Ch) {
		h := NewSHist(ch, views...)
		pool := []any{&uPerson{Name: "a"}, &uPerson{Name: "b", Badge: ptr(1)}, &uName{"a", 2}, &uPerson{Name: "c", Email: ptr("e")}}
		pool[1].(*uPerson).Boss = pool[0].(*uPerson)
		pool[3].(*uPerson).Boss = pool[3].(*uPerson)
		n := c.bound(4, 5)
		var req pdb.Request
		for i := range n {
			x := pool[ch.Pick(len(pool))]
			if ch.Bool() {
				req.Retractions = append(req.Retractions, x)
			} else {
				req.Assertions = append(req.Assertions, x)
			}
			next := 0
			if i+1 < n {
				next = ch.Pick(3)
			}
			if next == 2 {
				continue
			}
			h.Do(req)
			if next == 0 {
				return
			}
			req = pdb.Request{}
		}
	})
	at := func(ms int64) time.Time { return time.UnixMilli(ms) }
	slots := []satom{
		sa(func() any { return uSlot{At: at(1), Rate: 1} }),
		sa(func() any { return &uSlot{At: at(1).Add(999), Rate: 2} }),
		sa(func() any { return uSlot{At: at(2).In(zone), Rate: 1} }),
		sa(func() any { return uSlot{At: time.Time{}, Rate: 0} }),
		sa(func() any { return uSlot{At: at(3), Rate: 3, Who: &uName{"a", 1}} }),
		sa(func() any { return uSlot{At: at(4), Rate: -1, Who: &uName{"a", 2}, On: ptr(false)} }),
		sa(func() any { return uSlot{At: at(5), Rate: -2, On: ptr(false)} }),
		sa(func() any { return uName{"a", 3} }),
		sai(0, func(id uint64) any { return &uSlot{ID: id, At: at(2), Rate: 5, On: ptr(true)} }),
		sai(1, func(id uint64) any { return uSlot{ID: id, At: at(1), Rate: 1} }),
		sri(0, func(id uint64) any { return uAge{ID: id} }),
		sr(func() any { return uSlot{At: at(1), Rate: 1} }),
		sr(func() any { return uSlot{At: at(2), Rate: 1, On: ptr(true)} }),
		sr(func() any { return &uSlot{} }),
		sri(0, func(id uint64) any { return uSlot{ID: id, At: at(1), Rate: 1} }),
		sr(func() any { return uName{Name: "a"} }),
	}
	sworld{name: "instants, numbers and booleans identify", atoms: slots, n: c.bound(3, 4), views: []sview{viewOf[uSlot](), viewOf[uName]()}}.explore(c)
	longStructs(c)
}
