package main

import (
	"fmt"
	"reflect"
	"time"

	pdb "github.com/dball/destructive/pkg/database"
)

func init() { register("C18", c18) }

// Pointer graphs.
type gNode struct {
	ID uint64 `attr:"sys/db/id"`
	V  int    `attr:"n/v"`
	L  *gNode `attr:"n/l"`
	R  *gNode `attr:"n/r"`
}

// The same without an id, and its pointers first.
type gBare struct {
	R *gBare `attr:"n/r"`
	L *gBare `attr:"n/l"`
	V string `attr:"n/w"`
}

// Two types that refer to one another.
type gA struct {
	B *gB     `attr:"a/b"`
	V float64 `attr:"a/v"`
	A *gA     `attr:"a/a"`
}
type gB struct {
	ID uint64  `attr:"sys/db/id"`
	V  *string `attr:"b/v"`
	A  *gA     `attr:"b/a"`
}

// Types of which an entity may be several.
type eA struct {
	ID   uint64         `attr:"sys/db/id"`
	Name string         `attr:"e/name,identity"`
	N    *int           `attr:"e/n"`
	B    *eB            `attr:"e/b"`
	Bs   map[string]*eB `attr:"e/bs,key=e/name"`
	Cs   []eC           `attr:"e/cs"`
	C    eC             `attr:"e/c"`
}
type eB struct {
	Name string         `attr:"e/name,identity"`
	M    *string        `attr:"e/m"`
	A    *eA            `attr:"e/a"`
	B    *eB            `attr:"e/bb"`
	As   map[uint64]*eA `attr:"e/as"`
	ID   uint64         `attr:"sys/db/id"`
}
type eC struct {
	Name string `attr:"e/name,identity"`
	K    int    `attr:"e/k"`
	A    *eA    `attr:"e/ca"`
}

// Structs within structs.
type gOuter struct {
	X  int     `attr:"o/x"`
	In gInner  `attr:"o/in"`
	P  *gOuter `attr:"o/p"`
	Q  *gDeep  `attr:"o/q"`
}
type gOuterRev struct {
	Q  *gDeep     `attr:"o/q"`
	P  *gOuterRev `attr:"o/p"`
	In gInnerRev  `attr:"o/in"`
	X  int        `attr:"o/x"`
}
type gInner struct {
	Up   *gOuter `attr:"i/up"`
	Y    string  `attr:"i/y"`
	Deep gDeep   `attr:"i/deep"`
}
type gInnerRev struct {
	ID   uint64     `attr:"sys/db/id"`
	Deep gDeep      `attr:"i/deep"`
	Y    string     `attr:"i/y"`
	Up   *gOuterRev `attr:"i/up"`
}
type gDeep struct {
	Z bool      `attr:"d/z"`
	W time.Time `attr:"d/w"`
}

// Two values of one type in one struct.
type gPair struct {
	A gDeep  `attr:"p/a"`
	B gDeep  `attr:"p/b"`
	C *gDeep `attr:"p/c"`
	N *gPair `attr:"p/n"`
}

// Maps.
type mPtrs[K comparable] struct {
	M map[K]*mLeaf[K] `attr:"m/m,key=c/key"`
	N int             `attr:"m/n"`
}
type mVals[K comparable] struct {
	N int            `attr:"m/n"`
	M map[K]mLeaf[K] `attr:"m/m,key=c/key"`
	P *mVals[K]      `attr:"m/p"`
}
type mBoth[K comparable] struct {
	A map[K]*mLeaf[K]  `attr:"m/a,key=c/key"`
	B map[K]*mLeaf[K]  `attr:"m/b,key=c/key"`
	C *mLeaf[K]        `attr:"m/c"`
	V map[int]mLeaf[K] `attr:"m/v,key=c/v"`
}
type mLeaf[K comparable] struct {
	V    int       `attr:"c/v"`
	Key  K         `attr:"c/key"`
	Next *mLeaf[K] `attr:"c/next"`
	Up   *mPtrs[K] `attr:"c/up"`
	UpV  *mVals[K] `attr:"c/upv"`
}

// Maps by id.
type mByID struct {
	ID uint64             `attr:"sys/db/id"`
	M  map[uint64]*mByIDC `attr:"m/m"`
	W  map[uint64]mByIDC  `attr:"m/w,key=sys/db/id"`
	N  map[nInt]mByIDC    `attr:"m/n,key=k/v"`
	P  *mByIDC            `attr:"m/p"`
}
type mByIDC struct {
	V    int     `attr:"k/v"`
	ID   uint64  `attr:"sys/db/id"`
	Up   *mByID  `attr:"k/up"`
	Next *mByIDC `attr:"k/next"`
}

// Slices of scalars.
type sScalars[A any] struct {
	ID uint64   `attr:"sys/db/id"`
	A  []A      `attr:"s/a,value=s/v"`
	X  int      `attr:"s/x"`
	B  []A      `attr:"s/b,value=s/v"`
	C  []string `attr:"s/c,value=s/cv"`
}

// Slices of structs, trees.
type sTree struct {
	V    int     `attr:"t/v"`
	Kids []sTree `attr:"t/kids"`
}
type sTreeUp struct {
	Kids []sKid   `attr:"t/kids"`
	Name string   `attr:"t/name"`
	More []sKid   `attr:"t/more"`
	P    *sTreeUp `attr:"t/p"`
}
type sKid struct {
	ID   uint64             `attr:"sys/db/id"`
	V    *float64           `attr:"k/v"`
	Up   *sTreeUp           `attr:"k/up"`
	Tags []string           `attr:"k/tags,value=k/tag"`
	In   gDeep              `attr:"k/in"`
	M    map[string]sTreeUp `attr:"k/m,key=t/name"`
}
type mTree struct {
	Name string            `attr:"t/name"`
	Up   *mTree            `attr:"t/up"`
	Kids map[string]*mTree `attr:"t/kids,key=t/name"`
}
type vTree struct {
	Kids map[string]vTree `attr:"t/kids,key=t/name"`
	Name string           `attr:"t/name"`
}

// Roots that share what they refer to.
type gRoot struct {
	Name string         `attr:"r/name"`
	P    *gNode         `attr:"r/p"`
	M    map[int]*gNode `attr:"r/m,key=n/v"`
	Next *gRoot         `attr:"r/next"`
}

// graphs is a scenario: structs are built by choices, written together and found one by one.
type graph struct {
	name  string
	build func(ch *Ch) []any // pointers to structs
}

func (g graph) explore(c *Ctx) { g.exploreIn(c, 3) }

// exploreIn explores some of the modes of writing.
func (g graph) exploreIn(c *Ctx, modes int) {
	c.Explore(g.name, func(ch *Ch) {
		xs := g.build(ch)
		db := pdb.NewDatabase(smallConfig)
		// The first of them may be written as a value, which is then another struct than those
		// that refer to the original; or after a graph of its own kind.
		mode := ch.Pick(modes)
		if mode == 2 {
			mustWrite(ch, db, xs[len(xs)-1])
			// Keep what is in the database apart from what is written next.
		}
		args := append([]any{}, xs...)
		if mode == 1 {
			v := reflect.ValueOf(xs[0]).Elem()
			args[0] = v.Interface()
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			xs = append([]any{}, xs...)
			xs[0] = p.Interface()
		}
		before := show(args)
		res := mustWrite(ch, db, args...)
		if after := show(args); after != before {
			ch.Fail("writing changes the structs from %s to %s", before, after)
		}
		for i, x := range xs {
			v := sviews[reflect.TypeOf(x).Elem()]
			mustFind(ch, "the response", res.Snap, v, res.IDs[i], x)
			if i == 0 {
				mustFind(ch, "a read", db.Read(), v, res.IDs[i], x)
			}
			for j := range i {
				if (xs[i] == xs[j]) != (res.IDs[i] == res.IDs[j]) && reflect.TypeOf(xs[i]) == reflect.TypeOf(xs[j]) {
					ch.Fail("structs %d and %d have ids %v", i, j, res.IDs)
				}
			}
		}
		ch.State(hashString(g.name + show(xs)))
	})
}

func pick[T any](ch *Ch, xs []T) T { return xs[ch.Pick(len(xs))] }

// orNil picks one of the pointers, or none.
func orNil[T any](ch *Ch, xs []*T) *T {
	if i := ch.Pick(len(xs) + 1); i > 0 {
		return xs[i-1]
	}
	return nil
}

func keysOf[K any](n int) (out []K) {
	for _, v := range scalarsOf(reflect.TypeFor[K](), n) {
		if f := v; f.Kind() == reflect.Float64 && f.Float() != f.Float() {
			continue // a key that is not a number is never found
		}
		out = append(out, v.Interface().(K))
	}
	return
}

func mapGraphs[K comparable](c *Ctx) {
	viewOf[mPtrs[K]]()
	viewOf[mVals[K]]()
	viewOf[mBoth[K]]()
	viewOf[mLeaf[K]]()
	name := reflect.TypeFor[K]().String()
	keys := keysOf[K](4)
	n := c.bound(2, 3)
	if len(keys) < n {
		n = len(keys)
	}
	// subset picks how many of the keys, starting anywhere.
	graph{"map of pointers by " + name, func(ch *Ch) []any {
		m := ch.Pick(n + 1)
		at := ch.Pick(len(keys))
		root := &mPtrs[K]{N: 3}
		var kids []*mLeaf[K]
		for i := range m {
			kids = append(kids, &mLeaf[K]{V: i, Key: keys[(at+i)%len(keys)]})
		}
		if m > 0 || ch.Bool() {
			root.M = map[K]*mLeaf[K]{}
		}
		for _, k := range kids {
			root.M[k.Key] = k
			k.Next = orNil(ch, kids)
			k.Up = orNil(ch, []*mPtrs[K]{root})
		}
		if m > 0 && ch.Bool() {
			return []any{kids[m-1], root}
		}
		return []any{root}
	}}.explore(c)
	graph{"map of values by " + name, func(ch *Ch) []any {
		m := ch.Pick(n + 1)
		at := ch.Pick(len(keys))
		root := &mVals[K]{N: 3, M: map[K]mLeaf[K]{}}
		other := &mVals[K]{N: 4, M: map[K]mLeaf[K]{keys[0]: {V: 9, Key: keys[0]}}}
		root.P = orNil(ch, []*mVals[K]{root, other})
		other.P = orNil(ch, []*mVals[K]{root})
		for i := range m {
			k := mLeaf[K]{V: i, Key: keys[(at+i)%len(keys)]}
			k.UpV = orNil(ch, []*mVals[K]{root, other})
			root.M[k.Key] = k
		}
		return []any{root}
	}}.explore(c)
	graph{"maps that share entries by " + name, func(ch *Ch) []any {
		root := &mBoth[K]{A: map[K]*mLeaf[K]{}, B: map[K]*mLeaf[K]{}, V: map[int]mLeaf[K]{}}
		var kids []*mLeaf[K]
		for i := range 2 {
			kids = append(kids, &mLeaf[K]{V: i, Key: keys[i]})
		}
		for _, k := range kids {
			in := ch.Pick(4)
			if in&1 != 0 {
				root.A[k.Key] = k
			}
			if in&2 != 0 {
				root.B[k.Key] = k
			}
			k.Next = orNil(ch, kids)
		}
		root.C = orNil(ch, kids)
		for i := range ch.Pick(3) {
			root.V[-i] = mLeaf[K]{V: -i, Key: keys[0], Next: orNil(ch, kids)}
		}
		if len(root.A)+len(root.B)+len(root.V) == 0 && root.C == nil {
			ch.Prune()
		}
		return []any{root}
	}}.explore(c)
}

func scalarSlices[A any](c *Ctx) {
	viewOf[sScalars[A]]()
	vals := keysOf[A](4)
	long := keysOf[A](99)
	n := c.bound(3, 4)
	graph{"slices of " + reflect.TypeFor[A]().String(), func(ch *Ch) []any {
		x := &sScalars[A]{X: 5}
		if ch.Pick(2) == 0 {
			for range ch.Pick(n + 1) {
				x.A = append(x.A, pick(ch, vals))
			}
			for range ch.Pick(3) {
				x.B = append(x.B, pick(ch, vals[:2]))
			}
		} else {
			// Long enough for orders other than that of the slice to differ from it.
			m := []int{9, 10, 11, 12, 25, 101}[ch.Pick(6)]
			for i := range m {
				x.A = append(x.A, long[(i*7+3)%len(long)])
				x.C = append(x.C, fmt.Sprint(i*37%m))
			}
		}
		return []any{x}
	}}.explore(c)
}

// gLarge refers to many.
type gLarge struct {
	N    int             `attr:"g/n"`
	S    []sTree         `attr:"g/s"`
	V    []int           `attr:"g/v,value=g/vv"`
	M    map[int]*mTreeN `attr:"g/m,key=t/n"`
	W    map[int]mTreeN  `attr:"g/w,key=t/n"`
	Last *gNode          `attr:"g/last"`
}
type mTreeN struct {
	N    int     `attr:"t/n"`
	Name *string `attr:"t/name"`
}

// largeGraphs are graphs of sizes about the powers of two, in each of the ways to be large.
func largeGraphs(c *Ctx) {
	viewOf[gLarge]()
	viewOf[gNode]()
	viewOf[sTree]()
	viewOf[vTree]()
	var sizes []int
	for _, b := range []int{16, 32, 64, 128, 256, 512, 1024, 2048}[:c.bound(6, 8)] {
		sizes = append(sizes, b-1, b, b+1)
	}
	graph{"large graphs", func(ch *Ch) []any {
		n := pick(ch, sizes)
		x := &gLarge{N: n}
		switch ch.Pick(9) {
		case 0:
			for i := range n {
				x.S = append(x.S, sTree{V: i * 7919 % n})
			}
		case 1:
			for i := range n {
				x.V = append(x.V, i*7919%n)
			}
		case 2:
			x.M = map[int]*mTreeN{}
			for i := range n {
				x.M[i-n/2] = &mTreeN{N: i - n/2}
			}
		case 3:
			x.W = map[int]mTreeN{}
			for i := range n {
				x.W[i-n/2] = mTreeN{N: i - n/2, Name: ptr(fmt.Sprint(i))}
			}
		case 4: // a chain of pointers
			var node *gNode
			for i := range n {
				node = &gNode{V: i, L: node}
			}
			x.Last = node
		case 5: // a ring, found from any of its nodes
			nodes := make([]*gNode, n)
			for i := range nodes {
				nodes[i] = &gNode{V: i}
			}
			for i := range nodes {
				nodes[i].L, nodes[i].R = nodes[(i+1)%n], nodes[(i+n-1)%n]
			}
			return []any{nodes[0], nodes[n/2], nodes[n-1]}
		case 6: // slices within slices
			tree := sTree{V: n}
			for i := range n {
				tree = sTree{V: i, Kids: []sTree{tree}}
			}
			return []any{&tree}
		case 7: // maps within maps
			tree := vTree{Name: fmt.Sprint(n)}
			for i := range n {
				tree = vTree{Name: fmt.Sprint(i), Kids: map[string]vTree{tree.Name: tree}}
			}
			return []any{&tree}
		case 8: // many structs in a request
			var xs []any
			for i := range n {
				xs = append(xs, &gNode{V: i})
			}
			xs[0].(*gNode).L = xs[n-1].(*gNode)
			return xs
		}
		return []any{x}
	}}.explore(c)
}

func c18(c *Ctx) {
	largeGraphs(c)
	c.assume("written graphs have no pointers into fields, no slice that holds one struct twice or shares it with another slice, and keys that agree with the structs they lead to")
	viewOf[gNode]()
	viewOf[gBare]()
	viewOf[gA]()
	viewOf[gB]()
	viewOf[gOuter]()
	viewOf[gOuterRev]()
	viewOf[gInner]()
	viewOf[gDeep]()
	viewOf[gPair]()
	viewOf[mByID]()
	viewOf[mByIDC]()
	viewOf[sTree]()
	viewOf[sTreeUp]()
	viewOf[sKid]()
	viewOf[mTree]()
	viewOf[vTree]()
	viewOf[gRoot]()
	// Pointer graphs: every graph of up to n nodes with two pointers each.
	nodes := func(ch *Ch, n int) []*gNode {
		var ns []*gNode
		for i := range n {
			ns = append(ns, &gNode{V: i})
		}
		for _, x := range ns {
			x.L = orNil(ch, ns)
			x.R = orNil(ch, ns)
		}
		return ns
	}
	for n := 1; n <= c.bound(3, 4); n++ {
		graph{fmt.Sprintf("pointer graphs of %d nodes", n), func(ch *Ch) []any {
			ns := nodes(ch, n)
			if n == 4 {
				return []any{ns[0]}
			}
			switch ch.Pick(3) {
			case 0:
				return []any{ns[0]}
			case 1:
				var out []any
				for _, x := range ns {
					out = append(out, x)
				}
				return out
			}
			var out []any
			for i := range ns {
				out = append(out, ns[n-1-i])
			}
			return append(out, ns[0])
		}}.explore(c)
	}
	graph{"pointer graphs without ids", func(ch *Ch) []any {
		n := 1 + ch.Pick(c.bound(2, 3))
		var ns []*gBare
		for i := range n {
			ns = append(ns, &gBare{V: string(rune('a' + i))})
		}
		for _, x := range ns {
			x.L = orNil(ch, ns)
			x.R = orNil(ch, ns)
		}
		if ch.Bool() {
			return []any{ns[0], ns[n-1]}
		}
		return []any{ns[0]}
	}}.explore(c)
	graph{"two types of nodes", func(ch *Ch) []any {
		s := "s"
		as := []*gA{{V: 1}, {V: 2}}
		bs := []*gB{{V: &s}, {V: &s}}
		for _, a := range as {
			a.B = orNil(ch, bs)
			a.A = orNil(ch, as)
		}
		for _, b := range bs {
			b.A = orNil(ch, as)
		}
		if ch.Bool() {
			return []any{bs[1], as[0]}
		}
		return []any{as[0]}
	}}.explore(c)
	viewOf[eA]()
	viewOf[eB]()
	graph{"entities of several types", func(ch *Ch) []any {
		s := "s"
		ax, ay := &eA{Name: "x", N: ptr(1)}, &eA{Name: "y", N: ptr(2)}
		bx, by := &eB{Name: "x", M: &s}, &eB{Name: "y"}
		as, bs := []*eA{ax, ay}, []*eB{bx, by}
		ax.B = orNil(ch, bs)
		ay.B = orNil(ch, bs)
		bx.A = orNil(ch, as)
		by.A = orNil(ch, as)
		bx.B = orNil(ch, bs)
		cx, cy := eC{"x", 7, orNil(ch, as)}, eC{"y", 8, ay}
		switch ch.Pick(3) {
		case 1:
			ax.Bs = map[string]*eB{"x": bx}
		case 2:
			ax.Bs = map[string]*eB{"x": bx, "y": by}
			bx.As = map[uint64]*eA{1: ax, 2: ay}
		}
		switch ch.Pick(3) {
		case 1:
			ax.C, ax.Cs = cx, []eC{cy}
		case 2:
			ax.Cs = []eC{cy, cx}
		}
		switch ch.Pick(3) {
		case 0:
			return []any{ax}
		case 1:
			return []any{bx, ax}
		}
		return []any{ay, bx}
	}}.exploreIn(c, 1)
	graph{"structs within structs", func(ch *Ch) []any {
		mk := func(i int) *gOuter {
			return &gOuter{X: i, In: gInner{Y: fmt.Sprint(i), Deep: gDeep{Z: i == 1, W: time.UnixMilli(int64(i)).UTC()}}}
		}
		os := []*gOuter{mk(1), mk(2)}
		ds := []*gDeep{{Z: true, W: time.UnixMilli(77).UTC()}}
		for _, o := range os {
			o.P = orNil(ch, os)
			o.In.Up = orNil(ch, os)
			o.Q = orNil(ch, ds)
		}
		if ch.Bool() {
			return []any{os[0], os[1]}
		}
		return []any{os[0]}
	}}.explore(c)
	graph{"structs within structs, fields reversed", func(ch *Ch) []any {
		mk := func(i int) *gOuterRev {
			return &gOuterRev{X: i, In: gInnerRev{Y: fmt.Sprint(i), Deep: gDeep{Z: i == 1, W: time.UnixMilli(int64(i)).UTC()}}}
		}
		os := []*gOuterRev{mk(1), mk(2)}
		ds := []*gDeep{{Z: true, W: time.UnixMilli(77).UTC()}}
		for _, o := range os {
			o.P = orNil(ch, os)
			o.In.Up = orNil(ch, os)
			o.Q = orNil(ch, ds)
		}
		if ch.Bool() {
			return []any{os[1], os[0]}
		}
		return []any{os[0]}
	}}.explore(c)
	graph{"two values of one type", func(ch *Ch) []any {
		d := func(i int) gDeep { return gDeep{Z: i%2 == 0, W: time.UnixMilli(int64(i)).UTC()} }
		c := d(9)
		x, y := &gPair{A: d(1), B: d(pick(ch, []int{1, 2}))}, &gPair{A: d(3), B: d(4)}
		for _, p := range []*gPair{x, y} {
			p.C = orNil(ch, []*gDeep{&c})
			p.N = orNil(ch, []*gPair{x, y})
		}
		return []any{x, y}
	}}.explore(c)
	mapGraphs[string](c)
	mapGraphs[int](c)
	mapGraphs[bool](c)
	mapGraphs[float64](c)
	mapGraphs[time.Time](c)
	mapGraphs[nString](c)
	mapGraphs[nInt](c)
	graph{"maps by id", func(ch *Ch) []any {
		root, other := &mByID{}, &mByID{}
		roots := []*mByID{root, other}
		var kids []*mByIDC
		for i := range 2 {
			kids = append(kids, &mByIDC{V: 10 + i})
		}
		other.P = kids[0]
		for i, k := range kids {
			if ch.Bool() {
				if root.M == nil {
					root.M = map[uint64]*mByIDC{}
				}
				root.M[uint64(i+1)] = k
			}
			k.Up = orNil(ch, roots)
			k.Next = orNil(ch, kids)
		}
		root.P = orNil(ch, kids)
		for i := range ch.Pick(3) {
			if root.W == nil {
				root.W = map[uint64]mByIDC{}
			}
			root.W[uint64(i+1)] = mByIDC{V: 20 + i}
		}
		for i := range ch.Pick(3) {
			if root.N == nil {
				root.N = map[nInt]mByIDC{}
			}
			root.N[nInt(30+i)] = mByIDC{V: 30 + i, Next: orNil(ch, kids[:1])}
		}
		if len(root.M)+len(root.W)+len(root.N) == 0 && root.P == nil {
			ch.Prune()
		}
		return []any{root}
	}}.explore(c)
	scalarSlices[string](c)
	scalarSlices[int](c)
	scalarSlices[bool](c)
	scalarSlices[float64](c)
	scalarSlices[time.Time](c)
	scalarSlices[nString](c)
	// Ordered trees of up to n nodes.
	graph{"trees in slices", func(ch *Ch) []any {
		left := c.bound(6, 8) - 1
		v := 0
		var rec func() sTree
		rec = func() sTree {
			t := sTree{V: v}
			v++
			for left > 0 && ch.Bool() {
				left--
				t.Kids = append(t.Kids, rec())
			}
			return t
		}
		t := rec()
		return []any{&t}
	}}.explore(c)
	graph{"trees in maps", func(ch *Ch) []any {
		left := c.bound(5, 7) - 1
		v := 0
		up := ch.Bool()
		var rec func(p *mTree) *mTree
		rec = func(p *mTree) *mTree {
			t := &mTree{Name: fmt.Sprint(v)}
			v++
			if up {
				t.Up = p
			}
			for left > 0 && ch.Bool() {
				left--
				if t.Kids == nil {
					t.Kids = map[string]*mTree{}
				}
				k := rec(t)
				t.Kids[k.Name] = k
			}
			return t
		}
		return []any{rec(nil)}
	}}.explore(c)
	graph{"trees of values in maps", func(ch *Ch) []any {
		left := c.bound(5, 7) - 1
		v := 0
		var rec func() vTree
		rec = func() vTree {
			t := vTree{Name: fmt.Sprint(v)}
			v++
			for left > 0 && ch.Bool() {
				left--
				if t.Kids == nil {
					t.Kids = map[string]vTree{}
				}
				k := rec()
				t.Kids[k.Name] = k
			}
			return t
		}
		t := rec()
		return []any{&t}
	}}.explore(c)
	graph{"slices of structs that refer back", func(ch *Ch) []any {
		root, other := &sTreeUp{Name: "root"}, &sTreeUp{Name: "other"}
		roots := []*sTreeUp{root, other}
		kid := func(i int) sKid {
			f := float64(i)
			k := sKid{V: &f, Up: orNil(ch, roots), In: gDeep{Z: i%2 == 0, W: time.UnixMilli(int64(i)).UTC()}}
			switch ch.Pick(4) {
			case 1:
				k.Tags = []string{"x", "y", "x"}
			case 2:
				k.M = map[string]sTreeUp{"p": {Name: "p"}}
			case 3:
				k.M = map[string]sTreeUp{"p": {Name: "p", P: root}, "q": {Name: "q", Kids: []sKid{{V: &f}}}}
			}
			return k
		}
		for i := range ch.Pick(c.bound(2, 3) + 1) {
			root.Kids = append(root.Kids, kid(i))
		}
		for i := range ch.Pick(2) {
			root.More = append(root.More, kid(10+i))
		}
		root.P = orNil(ch, roots)
		if ch.Bool() {
			f := 1.5
			other.Kids = []sKid{{V: &f, Up: root}}
		}
		return []any{root}
	}}.explore(c)
	graph{"roots that share", func(ch *Ch) []any {
		ns := []*gNode{{V: 1}, {V: 2}}
		ns[0].L = orNil(ch, ns)
		ns[1].L = orNil(ch, ns)
		rs := []*gRoot{{Name: "x"}, {Name: "y"}}
		for _, r := range rs {
			r.P = orNil(ch, ns)
			r.Next = orNil(ch, rs)
			in := ch.Pick(4)
			for i, n := range ns {
				if in>>i&1 == 1 {
					if r.M == nil {
						r.M = map[int]*gNode{}
					}
					r.M[n.V] = n
				}
			}
		}
		return []any{rs[0], rs[1]}
	}}.explore(c)
	c18rewrite(c)
}

// c18rewrite finds graphs, changes them and writes them back.
func c18rewrite(c *Ctx) {
	c.Explore("found graphs are changed and written back", func(ch *Ch) {
		n := 1 + ch.Pick(2)
		var ns []*gNode
		for i := range n {
			ns = append(ns, &gNode{V: i})
		}
		for _, x := range ns {
			x.L = orNil(ch, ns)
			x.R = orNil(ch, ns)
		}
		db := pdb.NewDatabase(smallConfig)
		res := mustWrite(ch, db, ns[0])
		v := sviews[reflect.TypeFor[gNode]()]
		root := res.IDs[0]
		for step := range c.bound(2, 3) {
			snap := db.Read()
			g, _ := v.find(snap, root)
			if g == nil {
				ch.Fail("finds nothing with id %d", root)
			}
			found := g.(*gNode)
			seen := reachable(found)
			before := show(found)
			x := pick(ch, seen)
			fresh := &gNode{V: 100 + step}
			switch ch.Pick(4) {
			case 0:
				x.V = 50 + step
			case 1:
				x.L = pick(ch, seen)
			case 2:
				x.R = fresh
			case 3:
				x.L = &gNode{V: 100 + step, R: pick(ch, seen)}
			}
			var arg any = found
			if ch.Bool() {
				arg = x
			}
			want := show(found)
			ch.Log("%s becomes %s", before, want)
			res := mustWrite(ch, db, arg)
			if arg == any(found) && res.IDs[0] != root {
				ch.Fail("the entity %d is recorded as %d", root, res.IDs[0])
			}
			if old, _ := v.find(snap, root); show(old) != before {
				ch.Fail("the earlier snapshot now finds %s, not %s", show(old), before)
			}
			mustFind(ch, "the response", res.Snap, v, root, found)
			mustFind(ch, "a read", db.Read(), v, root, found)
		}
		ch.State(hashString(fmt.Sprint(ch.rec)))
	})
}

func reachable(root *gNode) (out []*gNode) {
	seen := map[*gNode]bool{}
	var rec func(x *gNode)
	rec = func(x *gNode) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		out = append(out, x)
		rec(x.L)
		rec(x.R)
	}
	rec(root)
	return
}
