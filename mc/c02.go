package main

import (
	"fmt"
	"iter"
	"math"
	"strings"

	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
)

func init() {
	register("C02", c02)
	register("C03", c03)
}

// c02 runs every request with an invalid part twice: against a database that sees it, and
// against the twin that does not, and compares all that both do afterwards.
func c02(c *Ctx) {
	longHistories(c)
	base := [][]Atom{
		schema(adecl{"u", tString, false, uIdent}, adecl{"m", tString, true, uValue}, adecl{"n", tInt, false, 0}, adecl{"ref", tRef, true, 0}),
	}
	populated := append(append([][]Atom{}, base...), []Atom{
		C(TempID("x"), Ident("u"), String("x")), C(TempID("x"), Ident("m"), String("mx")), C(TempID("x"), sys.DbIdent, String("p")),
		C(TempID("y"), Ident("u"), String("y")), C(TempID("y"), Ident("ref"), TempID("x")), C(TempID("y"), Ident("n"), Int(7)),
	})
	renamed := append(append([][]Atom{}, populated...), []Atom{C(Ent("x"), sys.DbIdent, String("q")), RE(Ent("y"))}, []Atom{C(TempID("y"), Ident("u"), String("y")), C(TempID("y"), sys.DbIdent, String("p"))})
	states := [][][]Atom{populated, renamed}
	valid := []Atom{
		C(Ent("x"), Ident("n"), Int(1)), C(TempID("t"), Ident("u"), String("x")), C(TempID("t"), Ident("u"), String("z")), C(TempID("t"), sys.DbIdent, String("r")), C(Ent("y"), sys.DbIdent, String("s")),
		G(C(TempID("d"), sys.DbIdent, String("d")), C(TempID("d"), sys.AttrType, tInt)),
		G(C(TempID("d"), sys.DbIdent, String("d")), C(TempID("d"), sys.AttrType, tString), C(TempID("d"), sys.AttrUnique, uIdent), C(TempID("d"), sys.AttrCardinality, sys.AttrCardinalityMany)),
		RC(Ent("x"), Ident("m"), String("mx")), RE(Ent("y")), C(TempID("v"), Ident("ref"), TempID("w")), C(TxnID{}, Ident("n"), Int(3)), RE(Ent("x")),
	}
	invalid := []Atom{
		C(nil, Ident("n"), Int(1)), C(ID(0), Ident("n"), Int(1)), C(Ident("none"), Ident("n"), Int(1)), C(L(Ident("u"), String("none")), Ident("n"), Int(1)), C(L(Ident("n"), Int(7)), Ident("n"), Int(1)),
		C(ID(1<<40), Ident("n"), Int(1)), C(L(nil, String("x")), Ident("n"), Int(1)), C(L(Ident("u"), nil), Ident("n"), Int(1)), C(L(Ident("u"), Int(1)), Ident("n"), Int(1)),
		C(Ent("x"), nil, Int(1)), C(Ent("x"), ID(0), Int(1)), C(Ent("x"), Ident("none"), Int(1)), C(Ent("x"), Ent("y"), Int(1)), C(Ent("x"), L(sys.DbIdent, String("none")), Int(1)), C(Ent("x"), ID(1<<40), Int(1)), C(Ent("x"), sys.AttrTypeInt, Int(1)),
		C(Ent("x"), Ident("n"), nil), C(Ent("x"), Ident("n"), String("1")), C(Ent("x"), Ident("ref"), Ident("none")), C(Ent("x"), Ident("ref"), L(Ident("u"), String("none"))), C(Ent("x"), Ident("n"), TempID("t")), C(Ent("x"), Ident("n"), Ident("p")),
		C(Ent("x"), Ident("u"), String("y")), C(Ent("y"), Ident("m"), String("mx")), C(TempID("f"), Ident("m"), String("mx")),
		G(C(TempID("g"), Ident("u"), String("x")), C(TempID("g"), sys.DbIdent, String("n"))), G(C(Ent("x"), Ident("n"), Int(1)), C(Ent("x"), Ident("n"), Int(2))),
		C(Ent("n"), sys.AttrType, tString), C(Ent("n"), sys.DbIdent, String("nn")), C(Ent("u"), sys.AttrUnique, uValue), C(Ent("m"), sys.AttrCardinality, sys.AttrCardinalityOne), RC(Ent("n"), sys.AttrType, tInt), RC(Ent("n"), sys.DbIdent, String("n")),
		C(TempID("t"), sys.AttrType, tInt), C(TempID("h"), sys.AttrUnique, uValue), C(TempID("h"), sys.AttrCardinality, tInt), C(TempID("h"), sys.DbIdent, String("sys/h")),
		C(sys.DbIdent, Ident("n"), Int(1)), C(sys.AttrTypeInt, sys.DbIdent, String("h")), C(TempID("h"), sys.DbIdent, String("sys/tx/at")),
		RE(), RE(Ident("none")), RE(L(Ident("u"), String("none"))), RE(L(Ident("n"), Int(7))), RE(Ent("x"), Ent("y")), RE(Ident("sys/tx/at")), RE(Ent("n")), RE(L(Ident("u"), Int(1))), RE(L(nil, String("x"))), RE(ID(0)),
	}
	var follow [][]Atom
	for _, v := range valid {
		follow = append(follow, []Atom{v})
	}
	follow = append(follow,
		[]Atom{C(TempID("t"), Ident("u"), String("z")), C(TempID("q"), Ident("u"), String("z2"))}, []Atom{C(Ent("x"), Ident("d"), Int(1))}, []Atom{C(Ident("r"), Ident("n"), Int(1))}, []Atom{C(Ident("s"), Ident("n"), Int(1))},
		[]Atom{C(Ident("p"), Ident("n"), Int(9))}, []Atom{C(TempID("f"), Ident("m"), String("mx"))}, []Atom{C(Ent("x"), Ident("n"), String("1"))}, []Atom{C(ID(1<<40), Ident("n"), Int(1))},
	)
	var follows [][][]Atom
	for _, f := range follow {
		follows = append(follows, [][]Atom{f})
	}
	// Attributes that may get the ids of attributes that were not to be, and their use.
	for _, d := range []adecl{{"w", tString, false, 0}, {"w", tInt, false, 0}, {"w", tString, true, 0}, {"w", tInt, false, uValue}} {
		a, b := VRef(Int(1)), VRef(Int(2))
		if d.typ == tString {
			a, b = String("1"), String("2")
		}
		follows = append(follows, [][]Atom{schema(d), {C(Ent("x"), Ident("w"), a), C(Ent("y"), Ident("w"), b)}, {C(Ent("x"), Ident("w"), b)}})
	}
	for si, setup := range states {
		cached := &Base{reqs: setup}
		c.Explore(fmt.Sprintf("twins, state %d", si), func(ch *Ch) {
			h := NewHist(ch, 2)
			h.idents = []string{"p", "q", "r", "s", "d", "sys/h", "none", "nn"}
			cached.apply(h)
			// An invalid atom among up to k valid ones.
			k := ch.Pick(c.bound(2, 3))
			pos := ch.Pick(k + 1)
			bad := invalid[ch.Pick(len(invalid))]
			var atoms []Atom
			for i := range k + 1 {
				if i == pos {
					atoms = append(atoms, bad)
				} else {
					atoms = append(atoms, valid[ch.Pick(len(valid))])
				}
			}
			req := h.Build(atoms)
			if h.m.Write(req).Reject == "" {
				// The rest of the request happens to make it valid.
				ch.Prune()
			}
			before := dumpAll(h.db.Read(), h.idents)
			res, _ := h.DoReq(req, atoms, true)
			if d := diffStrings(dumpAll(res.Snapshot, h.idents), before); d != "" {
				ch.Fail("the snapshot of the rejected write: %s", d)
			}
			if d := diffStrings(dumpAll(h.db.Read(), h.idents), before); d != "" {
				ch.Fail("the database after the rejected write: %s", d)
			}
			fs := follows[ch.Pick(len(follows))]
			twin := NewHist(&Ch{ctx: ch.ctx}, 2)
			cached.apply(twin)
			for _, f := range fs {
				freq := h.Build(f)
				a, b := h.db.Write(freq), twin.db.Write(freq)
				ch.Step()
				ch.Log("then %s: %v, and on a database that never saw it: %v", atomsString(f), a.Error == nil, b.Error == nil)
				if (a.Error == nil) != (b.Error == nil) || a.ID != b.ID || fmt.Sprint(a.TempIDs) != fmt.Sprint(b.TempIDs) {
					ch.Fail("a rejected write changes the outcome of a later one, %s: (%d %v %v), otherwise (%d %v %v)", atomsString(f), a.ID, a.TempIDs, a.Error, b.ID, b.TempIDs, b.Error)
				}
			}
			if d := diffStrings(dumpAll(h.db.Read(), h.idents), dumpAll(twin.db.Read(), h.idents)); d != "" {
				ch.Fail("a rejected write changes the effect of a later one: %s", d)
			}
		})
	}
	// Several rejected writes in a row, between accepted ones.
	atoms := append(append([]Atom{}, valid[:6]...), invalid[2], invalid[17], invalid[22], invalid[24], invalid[25], invalid[26], invalid[34], invalid[40], invalid[45])
	World{name: "histories", setup: populated, atoms: atoms, n: c.bound(3, 4), idents: []string{"p", "q", "r", "s", "d"}}.explore(c)
}

// dumpAll renders everything a snapshot answers without reference to the model.
func dumpAll(snap Snapshot, idents []string) (out []string) {
	ents := map[ID]bool{}
	for d := range snap.Select(Claim{}) {
		out = append(out, toD(d).String())
		ents[d.E] = true
	}
	n := len(out)
	out = append(out, fmt.Sprint("count ", snap.Count(Claim{})))
	for id := range ents {
		s := fmt.Sprintf("attr %d %q", id, snap.ResolveAttrIdent(id))
		if c := snap.Count(Claim{A: id}); c > 0 {
			s += fmt.Sprint(" count ", c)
			for d := range snap.Select(Claim{A: id}) {
				s += " " + toD(d).String()
			}
		}
		s += fmt.Sprint(" datums ", snap.Count(Claim{E: id}))
		out = append(out, s)
	}
	for _, i := range idents {
		out = append(out, fmt.Sprintf("ident %q %d", i, snap.ResolveIdent(Ident(i))))
	}
	sortStrings(out[n:])
	return
}

func diffStrings(got, want []string) string {
	for i := range max(len(got), len(want)) {
		switch {
		case i >= len(got):
			return "missing " + want[i]
		case i >= len(want):
			return "unexpected " + got[i]
		case got[i] != want[i]:
			return fmt.Sprintf("%s instead of %s", got[i], want[i])
		}
	}
	return ""
}

// lastID is the last id issued that the history has a name for.
func lastID(h *Hist) (last ID) {
	for _, id := range h.env {
		last = max(last, id)
	}
	return
}

// c03 keeps every snapshot of a history, and results of queries suspended at every position,
// and asks them again after every later write.
func c03(c *Ctx) {
	longHistories(c)
	base := [][]Atom{
		schema(adecl{"u", tString, false, uIdent}, adecl{"m", tString, true, uValue}, adecl{"n", tInt, false, 0}, adecl{"f", tFloat, true, 0}, adecl{"ref", tRef, true, 0}, adecl{"t", tInst, false, 0}, adecl{"b", tBool, false, 0}),
	}
	pop := func(n int) [][]Atom {
		var req []Atom
		for i := range n {
			e := TempID(fmt.Sprint("e", i))
			req = append(req, C(e, Ident("u"), String(fmt.Sprint("u", i))), C(e, Ident("n"), Int(i-n/2)), C(e, Ident("ref"), TempID(fmt.Sprint("e", (i+1)%n))), C(e, Ident("f"), Float(float64(i)-1.5)))
			if i%2 == 0 {
				req = append(req, C(e, Ident("m"), String(fmt.Sprint("m", i))), C(e, Ident("b"), Bool(i%4 == 0)), C(e, Ident("t"), at("2020-01-01T00:00:00Z")))
			}
		}
		req = append(req, C(TempID("e0"), sys.DbIdent, String("p")))
		return append(append([][]Atom{}, base...), req)
	}
	steps := func(n int) [][]Atom {
		e := func(i int) Ent { return Ent(fmt.Sprint("e", i%n)) }
		var bulk, del []Atom
		for i := range 2 * n {
			bulk = append(bulk, C(TempID(fmt.Sprint("k", i)), Ident("u"), String(fmt.Sprint("u", i))), C(TempID(fmt.Sprint("k", i)), Ident("n"), Int(100-i)))
		}
		for i := 1; i < n; i += 2 {
			del = append(del, RE(e(i)))
		}
		if len(del) == 0 {
			del = []Atom{RC(e(0), Ident("n"), Int(0))}
		}
		return [][]Atom{
			{C(e(0), Ident("n"), Int(99))},
			{RC(L(Ident("u"), String("u1")), Ident("n"), Int(1-n/2)), C(e(2), Ident("f"), Float(math.NaN()))},
			{RE(e(1))},
			bulk,
			del,
			{C(TempID("d"), sys.DbIdent, String("d")), C(TempID("d"), sys.AttrType, tInt)},
			{C(TempID("d"), sys.DbIdent, String("d2")), C(TempID("d"), sys.AttrType, tString), C(TempID("d"), sys.AttrUnique, uIdent), C(TempID("d"), sys.AttrCardinality, sys.AttrCardinalityMany)},
			{C(e(1), sys.DbIdent, String("p2"))},
			{C(e(0), sys.DbIdent, String("q"))},
			{RC(e(0), sys.DbIdent, String("p"))},
			{C(e(0), Ident("u"), String("u1"))},                                     // rejected, while e1 is there
			{C(e(0), Ident("n"), Int(5)), C(TempID("z"), Ident("n"), String("no"))}, // rejected
			{C(e(0), Ident("m"), String("mm")), C(e(0), Ident("b"), Bool(true)), C(e(2), Ident("t"), at("1960-01-01T00:00:00Z"))},
		}
	}
	queries := func(h *Hist) []Claim {
		qs := []Claim{{}, {E: h.env["e0"]}, {A: Ident("n")}, {A: Ident("u")}, {A: Ident("f")}, {A: Ident("ref")}, {E: h.env["e0"], A: Ident("m")}, {A: Ident("u"), V: String("u1")}, {V: String("u1")}, {A: Ident("n"), V: Int(5)},
			{E: L(Ident("u"), String("u1"))}, {E: Ident("p")}, {A: Ident("d")}, {V: Ident("p")}, {A: Ident("b")}, {A: Ident("t")}, {E: h.env["e0"], A: Ident("n"), V: Int(99)}}
		return qs
	}
	type held struct {
		what string
		snap Snapshot
		last ID // the last id issued
		dump []string
		qs   []Claim
		full [][]mdatum
	}
	type pulled struct {
		what string
		next func() (Datum, bool)
		stop func()
		want []mdatum
		pos  int
	}
	idents := []string{"p", "q", "p2", "d", "d2", "u", "n", "none"}
	sizes := []struct{ n, degree int }{{1, 2}, {3, 2}, {12, 2}, {12, 3}, {30, 2}}
	if c.thorough() {
		sizes = append(sizes, struct{ n, degree int }{40, 3}, struct{ n, degree int }{5, 32}, struct{ n, degree int }{64, 2})
	}
	for _, sz := range sizes {
		reqs := steps(sz.n)
		cached := &Base{reqs: pop(sz.n)}
		depth := 2
		if sz.n <= 12 {
			depth = c.bound(3, 4)
		} else if c.thorough() {
			depth = 3
		}
		c.Explore(fmt.Sprintf("snapshots of %d entities, degree %d", sz.n, sz.degree), func(ch *Ch) {
			h := NewHist(ch, sz.degree)
			cached.apply(h)
			var snaps []held
			var pulls []pulled
			defer func() {
				for _, p := range pulls {
					p.stop()
				}
			}()
			hold := func(what string, snap Snapshot) {
				s := held{what: what, snap: snap, last: lastID(h), dump: dumpAll(snap, idents), qs: queries(h)}
				for _, q := range s.qs {
					s.full = append(s.full, collect(snap, q))
				}
				snaps = append(snaps, s)
			}
			suspend := func(what string, snap Snapshot) {
				for _, q := range []Claim{{}, {E: h.env["e0"]}, {A: Ident("n")}, {A: Ident("u")}} {
					want := collect(snap, q)
					at := 3
					if q.A == nil && q.E == nil {
						at = len(want)/2 + 1
					}
					for _, pos := range []int{0, 1, at, len(want) - 1, len(want)} {
						if pos < 0 || pos > len(want) {
							continue
						}
						next, stop := iter.Pull(snap.Select(q))
						p := pulled{what: fmt.Sprintf("%s, query %s suspended after %d", what, claimString(q), pos), next: next, stop: stop, want: want}
						for p.pos < pos {
							d, ok := next()
							if !ok || toD(d) != want[p.pos] {
								ch.Fail("%s: iterating again gives something else at %d", p.what, p.pos)
							}
							p.pos++
						}
						pulls = append(pulls, p)
					}
				}
			}
			first := h.db.Read()
			hold("the initial snapshot", first)
			suspend("the initial snapshot", first)
			for i := range depth {
				j := ch.Pick(len(reqs) + 1)
				if j == len(reqs) {
					break
				}
				r := reqs[j]
				for _, a := range r {
					if !h.Can(a) {
						ch.Prune()
					}
				}
				res := h.Free(r)
				hold(fmt.Sprintf("the snapshot of response %d", i+1), res.Snapshot)
				if i+1 < depth {
					suspend(fmt.Sprintf("the snapshot of response %d", i+1), res.Snapshot)
					hold(fmt.Sprintf("the snapshot read after write %d", i+1), h.db.Read())
				}
				for k, s := range snaps {
					if k == len(snaps)-1 && i+1 == depth {
						break
					}
					if d := diffStrings(dumpAll(s.snap, idents), s.dump); d != "" {
						ch.Fail("%s changes after a later write: %s", s.what, d)
					}
					for _, id := range h.env {
						if id > s.last && (s.snap.ResolveAttrIdent(id) != "" || s.snap.Has(Claim{E: id}) || s.snap.Count(Claim{A: id}) != 0 || s.snap.Has(Claim{A: Ident("ref"), V: id})) {
							ch.Fail("%s comes to know %d, which was issued later", s.what, id)
						}
					}
					for qi, q := range s.qs {
						if d := diffDatums(collect(s.snap, q), s.full[qi]); d != "" {
							ch.Fail("%s changes its answer to %s after a later write: %s", s.what, claimString(q), d)
						}
						if n := s.snap.Count(q); n != len(s.full[qi]) {
							ch.Fail("%s changes its count of %s after a later write: %d", s.what, claimString(q), n)
						}
						if s.snap.Has(q) != (len(s.full[qi]) > 0) {
							ch.Fail("%s changes its answer to has %s after a later write", s.what, claimString(q))
						}
					}
				}
				ch.State(hashString(strings.Join(snaps[len(snaps)-1].dump, ";")))
			}
			for _, p := range pulls {
				for p.pos < len(p.want) {
					d, ok := p.next()
					if !ok || toD(d) != p.want[p.pos] {
						ch.Fail("%s across later writes: gives %v instead of %v", p.what, d, p.want[p.pos])
					}
					p.pos++
				}
				if d, ok := p.next(); ok {
					ch.Fail("%s across later writes: gives %v after its end", p.what, d)
				}
			}
			ch.Validated()
		})
	}
}
