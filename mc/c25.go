package main

import (
	"fmt"
	"math"
	"reflect"
	"runtime/debug"
	"strings"
	"time"

	"github.com/dball/destructive/internal/database"
	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
	pdb "github.com/dball/destructive/pkg/database"
)

func init() { register("C25", c25) }

// One attribute as fields of every kind. Whatever an entity was written as, it may be sought
// as any other.
type zOne[K any] struct {
	ID uint64 `attr:"sys/db/id"`
	A  K      `attr:"z/a"`
	N  int    `attr:"n"`
}
type zKey[K any] struct {
	A K   `attr:"z/a,key=n"`
	N int `attr:"n"`
}
type zKeyRank[K any] struct {
	A  K      `attr:"z/a,key=sys/db/rank"`
	N  int    `attr:"n"`
	ID uint64 `attr:"sys/db/id"`
}
type zKeyA[K any] struct {
	A K `attr:"z/a,key=z/a"`
}
type zVal[K any] struct {
	ID uint64 `attr:"sys/db/id"`
	A  K      `attr:"z/a,value=z/v"`
	N  int    `attr:"n"`
}
type zValN[K any] struct {
	A K   `attr:"z/a,value=n"`
	N int `attr:"n"`
}
type zValA[K any] struct {
	A K `attr:"z/a,value=z/a"`
}
type zLeaf struct {
	N  int    `attr:"n"`
	ID uint64 `attr:"sys/db/id"`
}
type zLeafN struct {
	N string `attr:"n"`
}
type zSame struct {
	ID uint64   `attr:"sys/db/id"`
	N  int      `attr:"n"`
	R  int      `attr:"sys/db/rank"`
	V  []string `attr:"z/v"`
}
type zLoop struct {
	A *zLoop `attr:"z/a"`
	N int    `attr:"n"`
}
type zLoopSlice struct {
	ID uint64       `attr:"sys/db/id"`
	A  []zLoopSlice `attr:"z/a"`
	N  *int         `attr:"n"`
}
type zLoopMap struct {
	A  map[int]zLoopMap `attr:"z/a,key=n"`
	N  int              `attr:"n"`
	ID uint64           `attr:"sys/db/id"`
}
type zTwice struct {
	A  int            `attr:"z/a"`
	B  *string        `attr:"z/a"`
	C  []zLeaf        `attr:"z/a"`
	ID uint64         `attr:"sys/db/id"`
	I2 uint64         `attr:"sys/db/id"`
	D  map[int]*zLeaf `attr:"z/a,key=n"`
}
type zSystem struct {
	Ident string  `attr:"sys/db/ident"`
	Type  *zLeaf  `attr:"sys/attr/type"`
	Card  zIdent  `attr:"sys/attr/cardinality"`
	Uniq  *zIdent `attr:"sys/attr/unique"`
	At    *string `attr:"sys/tx/at"`
}
type zIdent struct {
	ID    uint64 `attr:"sys/db/id"`
	Ident string `attr:"sys/db/ident"`
}
type zSystemAsWell struct {
	Ident []string      `attr:"sys/db/ident,value=sys/db/ident"`
	Type  []zIdent      `attr:"sys/attr/type"`
	Uniq  map[int]zLeaf `attr:"sys/attr/unique"`
	At    time.Time     `attr:"sys/tx/at"`
	Rank  *float64      `attr:"sys/db/rank"`
}
type zEmptyTag struct {
	A string `attr:""`
	N int    `attr:"n"`
}

// Fields that cannot be got at.
type zHidden[T any] struct {
	N int `attr:"n"`
	a T   `attr:"z/hidden,unique"`
}
type zWithin struct {
	zLeaf
	A string `attr:"z/a"`
}
type zWithinTagged struct {
	zLeaf `attr:"z/leaf"`
	A     string `attr:"z/a"`
}
type ZLeaf struct {
	M int `attr:"z/m,identity"`
}
type zWithinShown struct {
	ZLeaf
	N int `attr:"n"`
}
type zWithinShownTagged struct {
	*ZLeaf `attr:"z/leaf"`
	N      int `attr:"n"`
}
type zHiddenID struct {
	id uint64 `attr:"sys/db/id"`
	N  int    `attr:"n"`
}

// viewsOfAll are types of fields of which an entity may be sought.
func viewsOfAll() []sview {
	return []sview{
		viewOf[zOne[string]](), viewOf[zOne[*string]](), viewOf[zOne[int]](), viewOf[zOne[*int]](), viewOf[zOne[bool]](), viewOf[zOne[*bool]](),
		viewOf[zOne[float64]](), viewOf[zOne[*float64]](), viewOf[zOne[time.Time]](), viewOf[zOne[*time.Time]](), viewOf[zOne[nString]](), viewOf[zOne[*nInt]](),
		viewOf[zOne[zLeaf]](), viewOf[zOne[*zLeaf]](), viewOf[zOne[zLeafN]](), viewOf[zOne[*zLeafN]](), viewOf[zOne[zOne[int]]](), viewOf[zOne[*zOne[*string]]](),
		viewOf[zOne[[]zLeaf]](), viewOf[zOne[[]zLeafN]](), viewOf[zOne[map[uint64]zLeaf]](), viewOf[zOne[map[uint64]*zLeaf]](), viewOf[zOne[map[string]*zLeaf]](),
		viewOf[zOne[map[float64]zLeaf]](), viewOf[zOne[map[any]zLeaf]](), viewOf[zOne[map[time.Time]*zLeafN]](), viewOf[zOne[[]string]](), viewOf[zOne[map[zLeaf]zLeaf]](),
		viewOf[zKey[map[int]zLeaf]](), viewOf[zKey[map[int]*zLeaf]](), viewOf[zKey[map[string]zLeaf]](), viewOf[zKey[map[bool]*zLeafN]](), viewOf[zKey[map[int8]zLeaf]](),
		viewOf[zKey[[]zLeaf]](), viewOf[zKey[string]](), viewOf[zKeyRank[map[int]zLeaf]](), viewOf[zKeyRank[map[time.Time]*zLeaf]](),
		viewOf[zKeyA[map[string]zLeaf]](), viewOf[zKeyA[map[int]zOne[int]]](), viewOf[zKeyA[map[uint64]*zOne[*zLeaf]]](),
		viewOf[zVal[[]string]](), viewOf[zVal[[]int]](), viewOf[zVal[[]bool]](), viewOf[zVal[[]float64]](), viewOf[zVal[[]time.Time]](), viewOf[zVal[[]nString]](),
		viewOf[zVal[[]int8]](), viewOf[zVal[[]uint64]](), viewOf[zVal[[]any]](), viewOf[zVal[[]*string]](), viewOf[zVal[[]zLeaf]](), viewOf[zVal[string]](),
		viewOf[zValN[[]string]](), viewOf[zValN[[]int]](), viewOf[zValA[[]string]](), viewOf[zValA[[]uint64]](), viewOf[zValA[[]bool]](),
		viewOf[zLeaf](), viewOf[zLeafN](), viewOf[zSame](), viewOf[zLoop](), viewOf[zLoopSlice](), viewOf[zLoopMap](), viewOf[zTwice](),
		viewOf[zSystem](), viewOf[zSystemAsWell](), viewOf[zIdent](), viewOf[zEmptyTag](),
		viewOf[dBadChan](), viewOf[dBadUnexported](), viewOf[dBadNested](), viewOf[dBadNestedMap](), viewOf[dBadIDPtr](), viewOf[dBadDirective](), viewOf[dEmpty](),
		viewOf[zHidden[int]](), viewOf[zHidden[time.Time]](), viewOf[zHiddenID](), viewOf[zWithin](), viewOf[zWithinTagged](), viewOf[zWithinShown](), viewOf[zWithinShownTagged](), viewOf[zOne[ZLeaf]](), viewOf[zOne[*zWithinShown]](), viewOf[zOne[[]zHidden[string]]](), viewOf[zKey[map[int]zHidden[int]]](),
		viewOf[int](), viewOf[*zLeaf](), viewOf[time.Time](), viewOf[any](), viewOf[[]zLeaf](), viewOf[map[string]zLeaf](),
	}
}

// zValues are ways to write an entity or several, given the ids of those before.
func zValues() (out []func(ids []uint64) any) {
	add := func(xs ...any) {
		for _, x := range xs {
			out = append(out, func([]uint64) any { return x })
		}
	}
	at := func(ids []uint64, i int) uint64 {
		if len(ids) == 0 {
			return 0
		}
		return ids[i%len(ids)]
	}
	inst := time.UnixMilli(5)
	add(zOne[string]{A: "s", N: 1}, zOne[*int]{A: ptr(-5), N: 2}, zOne[bool]{A: true}, zOne[float64]{A: math.NaN(), N: 4}, zOne[*time.Time]{A: &inst, N: 5},
		zOne[zLeaf]{A: zLeaf{N: 6}, N: 1}, &zOne[*zLeafN]{A: &zLeafN{"n"}}, zOne[[]zLeaf]{A: []zLeaf{{N: 7}, {N: 8}, {N: 7}}, N: 2},
		zKey[map[int]*zLeaf]{A: map[int]*zLeaf{3: {N: 3}, -1: {N: -1}}, N: 3}, zOne[map[uint64]zLeaf]{A: map[uint64]zLeaf{77: {N: 9}}},
		zVal[[]string]{A: []string{"x", "", "x"}, N: 1}, zVal[[]int]{A: []int{0, 5}, N: 2}, &zVal[[]time.Time]{A: []time.Time{inst}}, zVal[[]float64]{A: []float64{math.Inf(1), 0}},
		zValN[[]int]{A: []int{9, 8}, N: 1}, zLoopSlice{A: []zLoopSlice{{N: ptr(1)}, {N: ptr(2), A: []zLoopSlice{{N: ptr(3)}}}}},
		zLoopMap{N: 1, A: map[int]zLoopMap{4: {N: 4}, 5: {N: 6}}}, zSame{N: 3, R: 8}, zSame{N: 3, R: -1},
		zKeyRank[map[int]zLeaf]{A: map[int]zLeaf{2: {N: 2}}}, zTwice{A: 3}, zSystem{Ident: "z/x"}, zIdent{Ident: "z/a"}, zSystemAsWell{}, zEmptyTag{"s", 1},
		zOne[map[float64]zLeaf]{A: map[float64]zLeaf{math.NaN(): {N: 1}, math.Copysign(0, -1): {N: 0}}}, zOne[map[any]zLeaf]{A: map[any]zLeaf{"x": {N: 1}, 1: {N: 1}}},
		zKeyA[map[string]zLeaf]{A: map[string]zLeaf{"s": {N: 1}}}, zValA[[]string]{A: []string{"s"}}, zVal[[]any]{A: []any{1, "s", nil}}, zVal[[]*string]{A: []*string{nil}},
		zVal[[]uint64]{A: []uint64{3}}, zOne[map[string]*zLeaf]{A: map[string]*zLeaf{"nil": nil}})
	loop := &zLoop{N: 5}
	loop.A = loop
	add(loop)
	out = append(out,
		func(ids []uint64) any { return zOne[*zOne[int]]{ID: at(ids, 0), A: &zOne[int]{ID: at(ids, 1), N: 3}} },
		func(ids []uint64) any {
			return &zOne[[]zLeaf]{ID: at(ids, 1), A: []zLeaf{{N: 5, ID: at(ids, 0)}, {N: 4, ID: at(ids, 1)}}}
		},
		func(ids []uint64) any { return zOne[[]zLeaf]{A: []zLeaf{{N: 9, ID: at(ids, 2)}, {N: 7}}} },
		func(ids []uint64) any {
			return zOne[map[uint64]*zLeaf]{ID: at(ids, 0), A: map[uint64]*zLeaf{at(ids, 0): {N: 5, ID: at(ids, 0)}, 9: {N: 4, ID: at(ids, 1)}}}
		},
		func(ids []uint64) any {
			return zLoopSlice{ID: at(ids, 0), A: []zLoopSlice{{ID: at(ids, 0), N: ptr(4)}, {N: ptr(5)}}}
		},
		func(ids []uint64) any {
			return &zLoopMap{ID: at(ids, 1), N: 3, A: map[int]zLoopMap{4: {N: 4, ID: at(ids, 1)}}}
		},
		func(ids []uint64) any { return zSame{ID: at(ids, 1), N: 3, R: 1 << 40} },
		func(ids []uint64) any { return zVal[[]string]{ID: at(ids, 0), A: []string{"re"}} },
		func(ids []uint64) any { return zTwice{ID: at(ids, 0), I2: at(ids, 1), C: []zLeaf{{N: 1}}} },
	)
	return
}

// answers fails unless the call returns.
func answers(ch *Ch, what string, f func()) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(failure); ok {
				panic(p)
			}
			if _, ok := p.(machineryError); ok {
				panic(p)
			}
			if _, ok := p.(prune); ok {
				panic(p)
			}
			ch.Fail("%s panics: %v\n%s", what, p, trimStack(debug.Stack()))
		}
	}()
	ch.Step()
	f()
}

// wellFormed fails unless the response says that its request was accepted or that it was not.
func wellFormed(ch *Ch, what string, req pdb.Request, res pdb.Response) {
	switch {
	case res.Snap == nil:
		ch.Fail("%s answers without a snapshot", what)
	case res.Error == nil && len(res.IDs) != len(req.Assertions):
		ch.Fail("%s answers with ids %v", what, res.IDs)
	case res.Error != nil && len(res.IDs) != 0:
		ch.Fail("%s is rejected with ids %v", what, res.IDs)
	case res.Error != nil && res.Error.Error() == "":
		ch.Fail("%s is rejected with an empty error", what)
	}
}

// usable fails unless the database goes on working.
func usable(ch *Ch, db pdb.Database, v sview) {
	res := db.Write(pdb.Request{Assertions: []any{&uUsable{N: 8, S: "usable"}}})
	if res.Error != nil {
		ch.Fail("the database goes on to reject what it should accept: %v", res.Error)
	}
	if got, _ := v.find(res.Snap, res.IDs[0]); got == nil || isoEqual(&uUsable{res.IDs[0], 8, "usable"}, got) != "" {
		ch.Fail("the database goes on to find %s", show(got))
	}
}

type uUsable struct {
	ID uint64 `attr:"sys/db/id"`
	N  int    `attr:"usable/n"`
	S  string `attr:"usable/s,identity"`
}

// seek finds entities as anything.
func seek(ch *Ch, s *pdb.Snapshot, views []sview, ids []uint64) {
	exists := map[ID]bool{}
	for d := range datumsOf(s).Select(Claim{}) {
		exists[d.E] = true
	}
	for _, v := range views {
		for _, id := range ids {
			var got any
			var err error
			what := fmt.Sprintf("finding %d as %s", id, typeName(v.typ))
			answers(ch, what, func() { got, err = v.find(s, id) })
			switch {
			case err != nil && err.Error() == "":
				ch.Fail("%s fails with an empty error", what)
			case got != nil && !exists[ID(id)]:
				ch.Fail("%s gives %s, of which nothing is recorded", what, show(got))
			}
			if err != nil {
				break // for every id
			}
		}
	}
}

func typeName(t reflect.Type) string {
	return strings.NewReplacer("github.com/dball/destructive/internal/", "", "main.", "", "verifmc.", "").Replace(t.String())
}

func c25(c *Ctx) {
	c.assume("an answer is whatever is not a panic or an execution that takes more than a minute and a half")
	views := viewsOfAll()
	usableView := viewOf[uUsable]()
	values := zValues()
	n := c.bound(2, 3)
	c.Explore("written as anything, sought as anything", func(ch *Ch) {
		db := pdb.NewDatabase(smallConfig)
		var ids []uint64
		s := db.Read()
		for i := range n {
			if i > 0 && ch.Pick(2) == 0 {
				break
			}
			req := pdb.Request{Assertions: []any{values[ch.Pick(len(values))](ids)}}
			ch.Log("write %s", showAll(req.Assertions))
			var res pdb.Response
			answers(ch, "writing "+showAll(req.Assertions), func() { res = db.Write(req) })
			ch.Log("  %v %v", res.IDs, res.Error)
			wellFormed(ch, "writing "+showAll(req.Assertions), req, res)
			for _, id := range res.IDs {
				if len(ids) == 0 || id > ids[len(ids)-1] {
					ids = append(ids, id)
				}
			}
			s = res.Snap
		}
		// All entities, whether they were written by themselves or as a part of others, and
		// transactions and attributes.
		seen := map[uint64]bool{}
		ask := []uint64{0, 1, 3, 4, 5, 7, 19, 20, 1<<64 - 1}
		last := uint64(0)
		for d := range datumsOf(s).Select(Claim{}) {
			if d.E >= sys.FirstUserID && !seen[uint64(d.E)] {
				seen[uint64(d.E)] = true
				ask = append(ask, uint64(d.E))
			}
			last = max(last, uint64(d.T))
		}
		ask = append(ask, last, last+1)
		seek(ch, s, views, ask)
		ch.State(hashString(strings.Join(realRows(datumsOf(s)), "\n")))
		usable(ch, db, usableView)
	})
	c.Explore("retracted in part, sought as anything", func(ch *Ch) {
		db := pdb.NewDatabase(smallConfig)
		x := values[ch.Pick(len(values))](nil)
		ch.Log("write %s", showAll([]any{x}))
		res := db.Write(pdb.Request{Assertions: []any{x}})
		if res.Error != nil {
			ch.Prune()
		}
		var es []uint64
		for d := range datumsOf(res.Snap).Select(Claim{}) {
			e := uint64(d.E)
			if d.E >= sys.FirstUserID && (len(es) == 0 || es[len(es)-1] != e) {
				es = append(es, e)
			}
		}
		e := es[ch.Pick(len(es))]
		req := pdb.Request{Retractions: []any{zLeaf{ID: e}}}
		ch.Log("retract %d", e)
		answers(ch, fmt.Sprintf("retracting %d", e), func() { res = db.Write(req) })
		wellFormed(ch, fmt.Sprintf("retracting %d", e), req, res)
		seek(ch, res.Snap, views, es)
		usable(ch, db, usableView)
	})
	mutualViews := []sview{viewOf[mPtrSliceA](), viewOf[mPtrPtrB](), viewOf[mMapMapA](), viewOf[mMapPtrPtrB](), viewOf[mSliceMapB](), viewOf[m3MapA](), viewOf[mEveryA](), viewOf[mEveryB]()}
	c.Explore("types that refer to one another", func(ch *Ch) {
		db := pdb.NewDatabase(smallConfig)
		req := pdb.Request{Assertions: []any{pickMutual(ch, 2)}}
		var res pdb.Response
		what := "writing " + showAll(req.Assertions)
		answers(ch, what, func() { res = db.Write(req) })
		wellFormed(ch, what, req, res)
		if res.Error != nil {
			ch.Fail("%s is rejected: %v", what, res.Error)
		}
		seek(ch, res.Snap, mutualViews, res.IDs)
		usable(ch, db, usableView)
	})
	c25rings(c, usableView)
	c25requests(c, usableView)
	c25claims(c)
}

type zRing struct {
	ID uint64           `attr:"sys/db/id"`
	K  string           `attr:"z/k"`
	P  *zRing           `attr:"z/p"`
	S  []zRing          `attr:"z/s"`
	M  map[string]zRing `attr:"z/m,key=z/k"`
}

// c25rings are structs that contain themselves, through slices and maps without end, or
// through pointers, which is fine.
func c25rings(c *Ctx, usableView sview) {
	view := viewOf[zRing]()
	names := []string{"s[0]", "s[1]", "m[a]", "*p", "t[0]"}
	wholes := []string{"nothing", "s", "s[:1]", "m", "p", "t"}
	c.Explore("structs that contain themselves", func(ch *Ch) {
		db := pdb.NewDatabase(smallConfig)
		s, t, m, p := make([]zRing, 2), make([]zRing, 1), map[string]zRing{}, &zRing{K: "a"}
		// What each has in it.
		var in [5]int
		has := func(what int) (x zRing) {
			x.K = "a"
			switch what {
			case 1:
				x.S = s
			case 2:
				x.S = s[:1]
			case 3:
				x.M = m
			case 4:
				x.P = p
			case 5:
				x.S = t
			}
			return
		}
		n := len(in)
		if !c.thorough() {
			n = 4
		}
		for i := range n {
			k := len(wholes)
			if n < len(in) {
				k-- // without t
			}
			in[i] = ch.Pick(k)
		}
		s[0], s[1], t[0], m["a"], *p = has(in[0]), has(in[1]), has(in[4]), has(in[2]), has(in[3])
		root := 1 + ch.Pick(4)
		x := has(root)
		// Does it end?
		parts := [][]int{nil, {0, 1}, {0}, {2}, {3}, {4}}
		steps := 0
		var ends func(what, depth int, seen map[int]bool) bool
		ends = func(what, depth int, seen map[int]bool) bool {
			steps++
			if depth > 40 || steps > 1<<16 {
				return false
			}
			if what == 4 {
				if seen[4] {
					return true
				}
				seen[4] = true
			}
			for _, part := range parts[what] {
				if !ends(in[part], depth+1, seen) {
					return false
				}
			}
			return true
		}
		finite := ends(root, 0, map[int]bool{})
		what := "writing a struct with " + wholes[root] + " where"
		for i := range n {
			what += fmt.Sprintf(" %s has %s", names[i], wholes[in[i]])
		}
		req := pdb.Request{Assertions: []any{x}}
		switch ch.Pick(3) {
		case 1:
			req.Assertions = []any{&x}
		case 2:
			req.Assertions = []any{zLeaf{N: 1}, &x, x}
		}
		ch.Log("%s, ends %v", what, finite)
		var res pdb.Response
		answers(ch, what, func() { res = db.Write(req) })
		wellFormed(ch, what, req, res)
		if finite && res.Error != nil {
			ch.Fail("%s is rejected: %v", what, res.Error)
		}
		for _, id := range res.IDs {
			answers(ch, "finding it", func() { view.find(res.Snap, id) })
		}
		ch.State(hashString(fmt.Sprint(in, root, res.Error == nil)))
		usable(ch, db, usableView)
	})
}

// c25requests are requests of anything at all.
func c25requests(c *Ctx, usableView sview) {
	var nilMap map[string]int
	var nilSlice []any
	var nilFunc func()
	var nilError error
	things := []any{
		nil, 42, "s", 1.5, true, 'x', uint8(1), complex(1, 2), []int{1}, nilSlice, map[string]int{}, nilMap, nilFunc, make(chan int), [2]int{}, struct{}{}, &struct{}{},
		ptr(7), ptr("s"), ptr(ptr(7)), ptr(any(zLeaf{N: 1})), ptr([]zLeaf{}), ptr(nilMap), ptr(nilError), time.Time{}, &time.Time{}, time.Duration(3), reflect.ValueOf(3), reflect.TypeFor[int](),
		(*zLeaf)(nil), (*int)(nil), (**zLeaf)(nil), ptr((*zLeaf)(nil)), ptr(&zLeaf{N: 1}), []zLeaf{{N: 1}}, []any{zLeaf{N: 1}}, map[string]zLeaf{"x": {}},
		zLeaf{}, &zLeaf{N: 3}, zLeaf{ID: 1, N: 1}, zLeaf{ID: 1<<64 - 1, N: 1}, zLeaf{ID: 1 << 30}, zLeafN{"conflict"}, zIdent{Ident: "sys/x"}, zIdent{Ident: "z/i"}, zIdent{ID: 1}, zSystem{}, zSystemAsWell{},
		zEmptyTag{}, zTwice{ID: 1, I2: 2}, uUsable{S: "other"}, &uUsable{N: 1}, uPerson{Name: "a"}, &uPerson{Name: "b", Email: ptr("")}, wGood{}, dBadChan{}, &dBadUnexported{}, dBadAny{A: zLeaf{}}, &dBadAny{}, dBadNested{},
		dBadNestedMap{}, dBadMapPtr{M: map[string]*int{"x": nil}}, dBadPtrPtr{}, dBadSlicePtr{S: []*dAge{nil}}, dBadSliceSlice{S: [][]int{nil}}, dBadSliceAny{S: []any{nil, zLeaf{}}},
		zHidden[time.Time]{}, &zHidden[*time.Time]{a: &time.Time{}}, zHidden[int]{a: 1}, zHidden[*int]{a: ptr(2)}, &zHidden[string]{a: "s"}, zHidden[[]string]{a: []string{"x"}}, zHidden[map[int]zLeaf]{a: map[int]zLeaf{1: {N: 1}}},
		zHidden[zLeaf]{a: zLeaf{N: 1}}, zHidden[*zLeaf]{a: &zLeaf{}}, zHidden[any]{a: 3}, &zHiddenID{3, 1}, zWithin{zLeaf{N: 1}, "a"}, zWithinTagged{zLeaf{N: 1}, "a"}, zWithinShown{ZLeaf{1}, 2}, zWithinShownTagged{&ZLeaf{1}, 2}, &zWithinShownTagged{N: 2},
		zOne[Inst]{}, zOne[time.Time]{A: time.Unix(1<<60, 0)}, zVal[[]time.Time]{A: []time.Time{time.Unix(-1<<62, 0)}},
		error(nil), NewError("e"), &pdb.Request{}, pdb.Request{}, pdb.Response{}, Claim{}, TempID("x"), ID(3), Inst{}, LookupRef{},
	}
	parts := c.bound(2, 3)
	c.Explore("requests of anything", func(ch *Ch) {
		db := pdb.NewDatabase(smallConfig)
		if ch.Bool() {
			mustWrite(ch, db, uPerson{Name: "a", Email: ptr("")}, &zLeaf{N: 1})
		}
		var req pdb.Request
		var what []string
		for i := range parts {
			if i > 0 && ch.Pick(2) == 0 {
				break
			}
			x := things[ch.Pick(len(things))]
			if ch.Bool() {
				req.Assertions = append(req.Assertions, x)
				what = append(what, fmt.Sprintf("assert %T", x))
			} else {
				req.Retractions = append(req.Retractions, x)
				what = append(what, fmt.Sprintf("retract %T", x))
			}
		}
		w := "a request to " + strings.Join(what, ", ")
		ch.Log("%s", w)
		var res pdb.Response
		answers(ch, w, func() { res = db.Write(req) })
		wellFormed(ch, w, req, res)
		usable(ch, db, usableView)
	})
	c.Explore("requests of nothing", func(ch *Ch) {
		db := pdb.NewDatabase([]pdb.Config{{}, {Degree: 2}, {Degree: 3, AttrsSize: 1}, {IdentsSize: 1}, {AttrsSize: 1 << 10, IdentsSize: 1, Degree: 500}}[ch.Pick(5)])
		req := []pdb.Request{{}, {Assertions: []any{}}, {Retractions: []any{}}, {Assertions: []any{}, Retractions: []any{}}}[ch.Pick(4)]
		var res pdb.Response
		answers(ch, "an empty request", func() { res = db.Write(req) })
		wellFormed(ch, "an empty request", req, res)
		usable(ch, db, usableView)
	})
}

// c25claims are claims, retractions and queries of anything at all.
func c25claims(c *Ctx) {
	deep := LookupRef{A: LookupRef{A: LookupRef{A: Ident("name"), V: String("x")}, V: String("x")}, V: ID(3)}
	idrefs := []IDRef{
		nil, ID(0), ID(1), ID(5), ID(19), ID(20), sys.FirstUserID - 1, sys.FirstUserID, sys.FirstUserID + 1, sys.FirstUserID + 2, ID(1<<64 - 1), Ident(""), Ident("name"), Ident("none"), Ident("sys/db/ident"), Ident("sys/tx/at"), Ident("\x00\xff"),
		LookupRef{}, LookupRef{A: Ident("name")}, LookupRef{A: Ident("name"), V: String("x")}, LookupRef{A: Ident("name"), V: Int(1)}, LookupRef{V: String("x")}, LookupRef{A: ID(0), V: ID(0)},
		LookupRef{A: Ident("many"), V: ID(1)}, LookupRef{A: Ident("one"), V: Float(math.NaN())}, LookupRef{A: sys.DbIdent, V: String("name")}, deep, LookupRef{A: ID(1 << 40), V: Inst{}},
		(*ID)(nil), ptr(ID(1)), (*LookupRef)(nil), &LookupRef{}, LookupRef{A: (*ID)(nil), V: (*String)(nil)}, LookupRef{A: Ident("name"), V: ptr(String("x"))},
	}
	var es []ERef
	for _, r := range idrefs {
		if r == nil {
			es = append(es, nil)
			continue
		}
		es = append(es, r.(ERef))
	}
	es = append(es, TempID(""), TempID("t"), TxnID{}, (*TempID)(nil), &TxnID{})
	vs := []VRef{
		nil, ID(0), ID(1), ID(12), sys.FirstUserID, ID(1<<64 - 1), Ident("name"), Ident(""), Ident("none"), TempID("t"), TempID(""), LookupRef{}, LookupRef{A: Ident("name"), V: String("x")}, deep,
		String(""), String("x"), String("\xff\x00"), String("sys/x"), Int(0), Int(math.MinInt64), Bool(true), Bool(false), Float(math.NaN()), Float(math.Inf(-1)), Float(0),
		Inst{}, Inst(time.Unix(1<<60, 0)), Inst(time.Unix(-1<<62, 0)), (*String)(nil), ptr(String("x")), (*ID)(nil), ptr(Int(1)), (*LookupRef)(nil), (*Inst)(nil),
	}
	open := func() Database {
		db := database.NewIndexDatabase(2, 8, 8)
		if err := database.Declare(db, Attr{Ident: "name", Type: sys.AttrTypeString, Unique: sys.AttrUniqueIdentity}, Attr{Ident: "one", Type: sys.AttrTypeFloat, Unique: sys.AttrUniqueValue},
			Attr{Ident: "many", Type: sys.AttrTypeRef, Cardinality: sys.AttrCardinalityMany}); err != nil {
			panic(machineryError("setup rejected"))
		}
		db.Write(Request{Claims: []Claim{{E: TempID("x"), A: Ident("name"), V: String("x")}, {E: TempID("x"), A: Ident("many"), V: TempID("y")}, {E: TempID("y"), A: Ident("one"), V: Float(math.NaN())}}})
		return db
	}
	check := func(ch *Ch, what string, db Database, res Response) {
		switch {
		case res.Snapshot == nil:
			ch.Fail("%s answers without a snapshot", what)
		case (res.Error == nil) != (res.ID != 0):
			ch.Fail("%s answers with id %d and error %v", what, res.ID, res.Error)
		case res.Error != nil && len(res.TempIDs) != 0:
			ch.Fail("%s is rejected with tempids %v", what, res.TempIDs)
		case res.Error != nil && res.Error.Error() == "":
			ch.Fail("%s is rejected with an empty error", what)
		}
		ok := db.Write(Request{Claims: []Claim{{E: TempID("z"), A: Ident("name"), V: String("usable")}}})
		if ok.Error != nil || !ok.Snapshot.Has(Claim{E: ok.TempIDs["z"], A: Ident("name"), V: String("usable")}) {
			ch.Fail("after %s, the database does not accept what it should: %v", what, ok.Error)
		}
	}
	describe := func(x any) string { return fmt.Sprintf("%T(%+v)", x, x) }
	c.Explore("claims of anything", func(ch *Ch) {
		e, a := es[ch.Pick(len(es))], idrefs[ch.Pick(len(idrefs))]
		v := vs[ch.Pick(len(vs))]
		cl := Claim{E: e, A: a, V: v, Retract: ch.Bool()}
		what := fmt.Sprintf("the claim %s %s %s, retract %v", describe(e), describe(a), describe(v), cl.Retract)
		ch.Log("%s", what)
		db := open()
		var res Response
		claims := []Claim{cl}
		if ch.Bool() {
			claims = append(claims, Claim{E: TempID("t"), A: Ident("name"), V: String("t")})
		}
		answers(ch, what, func() { res = db.Write(Request{Claims: claims}) })
		ch.Log("  %v", res.Error)
		check(ch, what, db, res)
	})
	c.Explore("retractions of anything", func(ch *Ch) {
		constraints := map[IDRef]Void{}
		var what []string
		for i := range 2 {
			if i > 0 && ch.Pick(2) == 0 {
				break
			}
			r := idrefs[ch.Pick(len(idrefs))]
			constraints[r] = Void{}
			what = append(what, describe(r))
		}
		w := "the retraction of " + strings.Join(what, ", ")
		ch.Log("%s", w)
		req := Request{Retractions: []Retraction{{Constraints: constraints}}}
		if ch.Bool() {
			req.Retractions = append(req.Retractions, Retraction{})
		}
		db := open()
		var res Response
		answers(ch, w, func() { res = db.Write(req) })
		check(ch, w, db, res)
	})
	c.Explore("queries of anything", func(ch *Ch) {
		e, a := es[ch.Pick(len(es))], idrefs[ch.Pick(len(idrefs))]
		s := open().Read()
		for _, v := range vs {
			q := Claim{E: e, A: a, V: v, Retract: len(vs)%2 == 0}
			what := fmt.Sprintf("the query %s %s %s", describe(e), describe(a), describe(v))
			answers(ch, what, func() {
				n, m := s.Count(q), 0
				for range s.Select(q) {
					m++
				}
				if n != m || s.Has(q) != (n != 0) {
					ch.Fail("%s counts %d, selects %d, has %v", what, n, m, s.Has(q))
				}
				for range s.Select(q) {
					break
				}
			})
		}
		answers(ch, "resolving idents", func() {
			if i, ok := a.(Ident); ok {
				s.ResolveIdent(i)
			}
			if i, ok := a.(ID); ok {
				s.ResolveAttrIdent(i)
			}
		})
	})
}
