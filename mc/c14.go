package main

import (
	"fmt"
	"iter"
	"math"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/dball/destructive/internal/index"
	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
)

func init() { register("C14", c14) }

// setModel is what an index ought to be: a set of datums with transactions.
type setModel map[mkey]ID

func (s setModel) clone() setModel {
	c := make(setModel, len(s))
	for k, t := range s {
		c[k] = t
	}
	return c
}

type order struct {
	name     string
	typ      index.IndexType
	cmp      func(a, b mkey) int
	partials []index.PartialIndex
	all      bool
}

func cmpID(a, b ID) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func cmpChain(xs ...int) int {
	for _, x := range xs {
		if x != 0 {
			return x
		}
	}
	return 0
}

var orders = []order{
	{"eav", index.EAVIndex, func(a, b mkey) int { return cmpChain(cmpID(a.e, b.e), cmpID(a.a, b.a), a.v.cmp(b.v)) }, []index.PartialIndex{index.E, index.EA}, true},
	{"aev", index.AEVIndex, func(a, b mkey) int { return cmpChain(cmpID(a.a, b.a), cmpID(a.e, b.e), a.v.cmp(b.v)) }, []index.PartialIndex{index.A, index.AE}, false},
	{"ave", index.AVEIndex, func(a, b mkey) int { return cmpChain(cmpID(a.a, b.a), a.v.cmp(b.v), cmpID(a.e, b.e)) }, []index.PartialIndex{index.A, index.AV}, false},
	// Nothing is selected from the back references yet, they are just a set.
	{"vae", index.VAEIndex, nil, nil, false},
}

var partialNames = map[index.PartialIndex]string{index.E: "e", index.EA: "ea", index.A: "a", index.AE: "ae", index.AV: "av"}

func matches(p index.PartialIndex, k, q mkey) bool {
	switch p {
	case index.E:
		return k.e == q.e
	case index.EA, index.AE:
		return k.e == q.e && k.a == q.a
	case index.A:
		return k.a == q.a
	}
	return k.a == q.a && k.v == q.v
}

// idxPair is an index and its model.
type idxPair struct {
	name string
	idx  index.Index
	set  setModel
}

func datumOf(k mkey, t ID) Datum { return Datum{E: k.e, A: k.a, V: k.v.toV(), T: t} }

func (p *idxPair) insert(ch *Ch, k mkey, t ID) {
	ch.Step()
	_, has := p.set[k]
	if got := p.idx.Insert(datumOf(k, t)); got != has {
		ch.Fail("%s: inserting %v says it was there: %v", p.name, mdatum{k, t}, got)
	}
	if !has {
		p.set[k] = t
	}
	if ch.logging {
		ch.Log("%s: insert %v", p.name, mdatum{k, t})
	}
}

func (p *idxPair) delete(ch *Ch, k mkey, t ID) {
	ch.Step()
	_, has := p.set[k]
	if ch.logging {
		ch.Log("%s: delete %v", p.name, k)
	}
	if got := p.idx.Delete(datumOf(k, t)); got != has {
		ch.Fail("%s: deleting %v says it was there: %v", p.name, mdatum{k, t}, got)
	}
	delete(p.set, k)
}

func (p *idxPair) clone(ch *Ch, name string) *idxPair {
	ch.Log("%s: clone as %s", p.name, name)
	return &idxPair{name, p.idx.Clone(), p.set.clone()}
}

// observe asks everything of the index, about each of the datums of the universe.
func (p *idxPair) observe(ch *Ch, o order, universe []mkey) {
	ch.Validated()
	for _, k := range universe {
		_, has := p.set[k]
		if got := p.idx.Find(datumOf(k, 0)); got != has {
			ch.Fail("%s: finding %v says %v", p.name, k, got)
		}
	}
	if o.cmp == nil {
		return
	}
	sorted := make([]mdatum, 0, len(p.set))
	for k, t := range p.set {
		sorted = append(sorted, mdatum{k, t})
	}
	sort.Slice(sorted, func(i, j int) bool { return o.cmp(sorted[i].mkey, sorted[j].mkey) < 0 })
	for _, part := range o.partials {
		var last mkey
		for i, q := range universe {
			if i > 0 && matches(part, last, q) {
				// The same question as before.
				continue
			}
			last = q
			var want []mdatum
			for _, d := range sorted {
				if matches(part, d.mkey, q) {
					want = append(want, d)
				}
			}
			d := Datum{}
			switch part {
			case index.E:
				d.E = q.e
			case index.EA, index.AE:
				d.E, d.A = q.e, q.a
			case index.A:
				d.A = q.a
			case index.AV:
				d.A, d.V = q.a, q.v.toV()
			}
			what := fmt.Sprintf("%s: %s of %v", p.name, partialNames[part], q)
			if diff := diffDatums(collectSeq(p.idx.Select(part, d)), want); diff != "" {
				ch.Fail("selecting %s: %s", what, diff)
			}
			if n := p.idx.Count(part, d); n != len(want) {
				ch.Fail("counting %s gives %d instead of %d", what, n, len(want))
			}
			first, ok := p.idx.First(part, d)
			switch {
			case ok != (len(want) > 0):
				ch.Fail("the first %s is there: %v, there are %d", what, ok, len(want))
			case ok && toD(first) != want[0]:
				ch.Fail("the first %s is %v instead of %v", what, first, want[0])
			}
		}
	}
	if o.all {
		if diff := diffDatums(collectSeq(p.idx.All()), sorted); diff != "" {
			ch.Fail("%s: all: %s", p.name, diff)
		}
	}
}

func (s setModel) hash() uint64 {
	var sb strings.Builder
	var rows []string
	for k, t := range s {
		rows = append(rows, mdatum{k, t}.String())
	}
	sort.Strings(rows)
	for _, r := range rows {
		sb.WriteString(r)
	}
	return hashString(sb.String())
}

func c14(c *Ctx) {
	// Ids are unsigned.
	const a1, a2, e1, e2 = sys.FirstUserID + 1, ID(1<<63 + 2), sys.FirstUserID + 10, ID(1<<63 + 11)
	vals := func(typ ID) []mval {
		switch typ {
		case tRef:
			return []mval{toM(ID(1)), toM(e1), toM(ID(math.MaxUint64))}
		case tString:
			return []mval{toM(String("")), toM(String("a")), toM(String("b"))}
		case tInt:
			return []mval{toM(Int(math.MinInt64)), toM(Int(-1)), toM(Int(3))}
		case tBool:
			return []mval{toM(Bool(false)), toM(Bool(true))}
		case tInst:
			return []mval{toM(Inst(time.UnixMilli(math.MinInt64))), toM(Inst(time.UnixMilli(-1))), toM(Inst(time.UnixMilli(5)))}
		}
		return []mval{toM(Float(math.NaN())), toM(Float(math.Inf(-1))), toM(Float(-1)), toM(Float(0))}
	}
	universe := func(o order, ks []mkey) []mkey {
		ks = slices.Clone(ks)
		if o.cmp != nil {
			sort.Slice(ks, func(i, j int) bool { return o.cmp(ks[i], ks[j]) < 0 })
		}
		return ks
	}
	// Every sequence of operations on an index and a clone taken at any point.
	seqs := func(name string, o order, degree int, attrs map[ID]ID, keys []mkey, depth int) {
		keys = universe(o, keys)
		c.Explore(name, func(ch *Ch) {
			p := &idxPair{"index", index.NewCompositeIndex(degree, o.typ, attrs), setModel{}}
			var q *idxPair
			for i := range depth {
				n := 2 * len(keys)
				k := n + 1
				if q != nil {
					k = 2*n + 1
				}
				op := ch.Pick(k)
				switch {
				case op == 0:
					// clone, or replace the clone by one of it
					if q == nil {
						q = p.clone(ch, "clone")
					} else {
						q, p = q.clone(ch, "clone of the clone"), q
					}
				default:
					op--
					on := p
					if op >= n {
						on, op = q, op-n
					}
					if op < len(keys) {
						on.insert(ch, keys[op], ID(100+i))
					} else {
						on.delete(ch, keys[op-len(keys)], ID(100+i))
					}
				}
			}
			p.observe(ch, o, keys)
			ch.State(p.set.hash())
			if q != nil {
				q.observe(ch, o, keys)
				ch.State(q.set.hash())
			}
		})
	}
	for _, o := range orders {
		for _, typ := range allTypes {
			var keys []mkey
			for i, v := range vals(typ) {
				keys = append(keys, mkey{e1, a1, v})
				if i < 2 {
					keys = append(keys, mkey{e2, a1, v})
				}
				if i == 0 {
					keys = append(keys, mkey{e1, a2, v})
				}
			}
			seqs(fmt.Sprintf("operations, %s of %s", o.name, typeNames[typ]), o, 2, map[ID]ID{a1: typ, a2: typ}, keys, c.bound(4, 5))
		}
		// Attributes of all types beside each other: those that share a tree, and entities
		// across the trees.
		attrs := map[ID]ID{}
		var keys, few []mkey
		for i, typ := range []ID{tInt, tBool, tString, tInst, tRef, tFloat, tInt, tString} {
			a := sys.FirstUserID + ID(i)
			attrs[a] = typ
			for j, v := range vals(typ)[:2] {
				keys = append(keys, mkey{e1, a, v}, mkey{e2, a, v})
				if j == 0 {
					few = append(few, mkey{e1, a, v})
				} else if i == 0 || i == 3 {
					few = append(few, mkey{e2, a, v})
				}
			}
		}
		seqs(fmt.Sprintf("operations, %s of mixed types", o.name), o, 2, attrs, few, c.bound(3, 4))
		// Every subset of the datums of one entity of mixed types, inserted in two orders.
		c.Explore(fmt.Sprintf("subsets, %s of mixed types", o.name), func(ch *Ch) {
			p := &idxPair{"index", index.NewCompositeIndex(2, o.typ, attrs), setModel{}}
			rev := ch.Bool()
			ks := universe(o, keys)
			for i := range 16 {
				k := keys[i]
				if rev {
					k = keys[15-i]
				}
				if ch.Bool() {
					p.insert(ch, k, ID(100+i))
				}
			}
			p.observe(ch, o, ks)
			ch.State(p.set.hash())
		})
	}
	// Trees of every size, built in several orders, with each datum deleted, and cloned
	// before and after, the clones changed at each datum as well.
	for _, o := range orders {
		for _, degree := range []int{2, 3, 32} {
			top := c.bound(40, 90)
			if degree == 32 {
				top = c.bound(129, 200)
			}
			attrs := map[ID]ID{a1: tInt, a2: tString}
			key := func(i int) mkey {
				if i%5 == 4 {
					return mkey{e1 + ID(i%3), a2, toM(String(fmt.Sprintf("%03d", i)))}
				}
				return mkey{e1 + ID(i%4), a1, toM(Int(i*13%101 - 50))}
			}
			c.Explore(fmt.Sprintf("sizes, %s, degree %d", o.name, degree), func(ch *Ch) {
				build := ch.Pick(3)
				n := ch.Pick(top + 1)
				if degree == 32 && !c.thorough() && n > 4 && (n < 61 || n > 66 && n < 94 || n > 97 && n < 126) {
					// Nodes split between these.
					ch.Prune()
				}
				var ks []mkey
				for i := range n {
					ks = append(ks, key(i))
				}
				sortedKs := universe(o, ks)
				if o.cmp != nil {
					switch build {
					case 0:
						ks = sortedKs
					case 1:
						ks = slices.Clone(sortedKs)
						slices.Reverse(ks)
					}
				}
				p := &idxPair{"index", index.NewCompositeIndex(degree, o.typ, attrs), setModel{}}
				for i, k := range ks {
					p.insert(ch, k, ID(100+i))
				}
				p.observe(ch, o, sortedKs)
				ch.State(p.set.hash())
				if n == 0 {
					return
				}
				// Delete one or a run of them from the original or the clone.
				at := ch.Pick(n)
				run := 1
				if ch.Bool() {
					run = n - at
				}
				q := p.clone(ch, "clone")
				on, off := p, q
				if ch.Bool() {
					on, off = q, p
				}
				var pulls []func() (Datum, bool)
				var lefts [][]mdatum
				if o.all {
					for _, x := range []*idxPair{off} {
						all := collectSeq(x.idx.All())
						next, stop := iter.Pull(x.idx.All())
						defer stop()
						for range n / 2 {
							next()
						}
						pulls = append(pulls, next)
						lefts = append(lefts, all[n/2:])
					}
				}
				for i := at; i < at+run; i++ {
					on.delete(ch, sortedKs[i], 7)
				}
				on.insert(ch, mkey{e1, a1, toM(Int(1000))}, 999)
				on.insert(ch, sortedKs[at], 998)
				on.delete(ch, sortedKs[(at+n/2)%n], 997)
				u := universe(o, append(slices.Clone(sortedKs), mkey{e1, a1, toM(Int(1000))}))
				on.observe(ch, o, u)
				off.observe(ch, o, u)
				for i, next := range pulls {
					for _, want := range lefts[i] {
						d, ok := next()
						if !ok || toD(d) != want {
							ch.Fail("a result of the %s suspended while the %s is changed gives %v instead of %v", off.name, on.name, d, want)
						}
					}
				}
				// Then change the other, and look at both again.
				off.delete(ch, sortedKs[n-1-at], 5)
				off.insert(ch, mkey{e2, a2, toM(String("zzz"))}, 996)
				u = universe(o, append(u, mkey{e2, a2, toM(String("zzz"))}))
				on.observe(ch, o, u)
				off.observe(ch, o, u)
				ch.State(on.set.hash())
				ch.State(off.set.hash())
			})
		}
	}
	c.assume("the btree library is exercised through the indexes, not assumed to be correct")
}
