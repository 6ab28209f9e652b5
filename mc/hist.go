package main

import (
	"fmt"
	"hash/maphash"
	"maps"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/dball/destructive/internal/database"
	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
)

// Ent is a reference by id to an entity that an earlier write of the history created,
// named by the tempid that created it.
type Ent string

func (Ent) IsERef()          {}
func (Ent) IsVRef()          {}
func (Ent) IsIDRef()         {}
func (e Ent) String() string { return "ent:" + string(e) }
func (e Ent) IsZero() bool   { return false }

// Env binds the names of entities to their ids.
type Env map[string]ID

// Tx is the name a history binds the last transaction's id to.
const Tx = Ent("!tx")

func (env Env) idref(r IDRef) (IDRef, bool) {
	switch r := r.(type) {
	case Ent:
		id, ok := env[string(r)]
		return id, ok
	case LookupRef:
		var ok bool
		if r.A, ok = env.idref(r.A); !ok {
			return nil, false
		}
		if v, isEnt := r.V.(Ent); isEnt {
			id, ok := env[string(v)]
			r.V = id
			return r, ok
		}
		return r, true
	}
	return r, true
}

func (env Env) claim(c Claim) (out Claim, ok bool) {
	out = c
	switch e := c.E.(type) {
	case Ent, LookupRef:
		r, ok := env.idref(e.(IDRef))
		if !ok {
			return out, false
		}
		out.E = r.(ERef)
	}
	if c.A != nil {
		if out.A, ok = env.idref(c.A); !ok {
			return
		}
	}
	switch v := c.V.(type) {
	case Ent, LookupRef:
		r, ok := env.idref(v.(IDRef))
		if !ok {
			return out, false
		}
		out.V = r.(VRef)
	}
	return out, true
}

// Atom is the smallest part of a request: a claim or a retraction of an entity.
type Atom struct {
	c       *Claim
	retract []IDRef
	isRetr  bool
	group   []Atom
}

// G makes one atom of several.
func G(atoms ...Atom) Atom { return Atom{group: atoms} }

func C(e ERef, a IDRef, v VRef) Atom  { return Atom{c: &Claim{E: e, A: a, V: v}} }
func RC(e ERef, a IDRef, v VRef) Atom { return Atom{c: &Claim{E: e, A: a, V: v, Retract: true}} }
func RE(constraints ...IDRef) Atom    { return Atom{retract: constraints, isRetr: true} }
func L(a IDRef, v Value) LookupRef    { return LookupRef{A: a, V: v} }
func cross(xs ...[]Atom) (out []Atom) {
	for _, x := range xs {
		out = append(out, x...)
	}
	return
}

func refString(r any) string {
	switch r := r.(type) {
	case nil:
		return "nil"
	case ID:
		return fmt.Sprintf("#%d", uint64(r))
	case Ident:
		return ":" + string(r)
	case TempID:
		return "?" + string(r)
	case TxnID:
		return "txn"
	case LookupRef:
		return "[" + refString(r.A) + " " + refString(r.V) + "]"
	case String:
		if len(r) > 50 {
			return fmt.Sprintf("%q...(%d bytes)", string(r)[:10], len(r))
		}
		return fmt.Sprintf("%q", string(r))
	case Float:
		return fmt.Sprintf("%vf", float64(r))
	case Int:
		return fmt.Sprint(int64(r))
	case Bool:
		return fmt.Sprint(bool(r))
	case Inst:
		return toM(r).String()
	case Ent:
		return "@" + string(r)
	}
	return fmt.Sprintf("%v", r)
}

func claimString(c Claim) string {
	op := "+"
	if c.Retract {
		op = "-"
	}
	return op + "(" + refString(c.E) + " " + refString(c.A) + " " + refString(c.V) + ")"
}

func (a Atom) String() string {
	if a.group != nil {
		return "<" + atomsString(a.group) + ">"
	}
	if a.isRetr {
		var s []string
		for _, r := range a.retract {
			s = append(s, refString(r))
		}
		return "retract{" + strings.Join(s, " ") + "}"
	}
	return claimString(*a.c)
}

func atomsString(as []Atom) string {
	var s []string
	for _, a := range as {
		s = append(s, a.String())
	}
	return strings.Join(s, " ")
}

// add adds the atom to the request, if all the entities it names exist.
func (env Env) add(req *Request, a Atom) bool {
	if a.group != nil {
		for _, b := range a.group {
			if !env.add(req, b) {
				return false
			}
		}
		return true
	}
	if a.isRetr {
		cs := make(map[IDRef]Void, len(a.retract))
		for _, r := range a.retract {
			ref, ok := env.idref(r)
			if !ok {
				return false
			}
			cs[ref] = Void{}
		}
		req.Retractions = append(req.Retractions, Retraction{Constraints: cs})
		return true
	}
	c, ok := env.claim(*a.c)
	if !ok {
		return false
	}
	req.Claims = append(req.Claims, c)
	return true
}

// Hist is a database and the model of it, driven through the same history.
type Hist struct {
	ch     *Ch
	db     Database
	m      *Model
	env    Env
	degree int
	// idents are names to be looked up besides those that exist.
	idents []string
	// invariant, if any, must hold of states the model has no opinion of.
	invariant func(Snapshot)
	// reqs are the requests made, if they are to be kept.
	keep bool
	reqs []Request
}

func NewHist(ch *Ch, degree int) *Hist {
	return &Hist{ch: ch, db: database.NewIndexDatabase(degree, 8, 8), m: NewModel(), env: Env{}, degree: degree}
}

// Build makes the request of the atoms.
func (h *Hist) Build(atoms []Atom) (req Request) {
	for _, a := range atoms {
		if !h.env.add(&req, a) {
			panic(machineryError("atom names an unknown entity: " + a.String()))
		}
	}
	return
}

// Can says whether the entities the atom names exist.
func (h *Hist) Can(a Atom) bool {
	var req Request
	return h.env.add(&req, a)
}

func envString(env Env) string {
	return fmt.Sprint(map[string]ID(env))
}

// Do writes a request to both and compares verdicts, ids and, if full, every observation.
func (h *Hist) Do(atoms []Atom, full bool) (res Response, accepted bool) {
	return h.DoReq(h.Build(atoms), atoms, full)
}

func (h *Hist) DoReq(req Request, atoms []Atom, full bool) (res Response, accepted bool) {
	out := h.m.Write(req)
	if h.ch.logging {
		verdict := "accepted"
		if out.Reject != "" {
			verdict = "rejected (" + out.Reject + ")"
		}
		h.ch.Log("write %s, expected to be %s; names %s", atomsString(atoms), verdict, envString(h.env))
	}
	if h.keep {
		h.reqs = append(h.reqs, req)
	}
	res = h.db.Write(req)
	h.ch.Step()
	h.ch.Validated()
	if h.ch.logging {
		h.ch.Log("  response id %d tempids %v error %v", res.ID, res.TempIDs, res.Error)
	}
	if out.Reject != "" {
		if res.Error == nil {
			if !strings.Contains(out.Tags, "*") && !strings.Contains(out.Tags, h.ch.ctx.id) {
				// Whether that is wrong is for another check to say.
				if h.invariant != nil {
					h.invariant(res.Snapshot)
				}
				h.ch.Prune()
			}
			h.ch.Fail("write %s is accepted, it should be rejected: %s", atomsString(atoms), out.Reject)
		}
		if res.ID != 0 || len(res.TempIDs) != 0 {
			h.ch.Fail("rejected write %s answers with id %d and tempids %v", atomsString(atoms), res.ID, res.TempIDs)
		}
		if res.Snapshot == nil {
			h.ch.Fail("rejected write %s answers without a snapshot", atomsString(atoms))
		}
	} else {
		if res.Error != nil {
			h.ch.Fail("write %s is rejected, it should be accepted: %v", atomsString(atoms), res.Error)
		}
		next, wrong := h.m.accept(out, res)
		if wrong != "" {
			h.ch.Fail("write %s: %s", atomsString(atoms), wrong)
		}
		if res.Snapshot == nil {
			h.ch.Fail("accepted write %s answers without a snapshot", atomsString(atoms))
		}
		h.m = next
		accepted = true
		if len(res.TempIDs) > 0 {
			env := make(Env, len(h.env)+len(res.TempIDs)+1)
			for k, v := range h.env {
				env[k] = v
			}
			h.env = env
			for t, id := range res.TempIDs {
				h.env[string(t)] = id
			}
		}
		h.env[string(Tx)] = res.ID
	}
	if full {
		if d := h.diff(res.Snapshot); d != "" {
			h.ch.Fail("after %s, the snapshot of the response: %s", atomsString(atoms), d)
		}
		if d := h.diff(h.db.Read()); d != "" {
			h.ch.Fail("after %s, the database: %s", atomsString(atoms), d)
		}
		h.ch.State(h.m.hash())
	}
	return
}

// Free writes a request to the implementation alone, whatever it makes of it.
func (h *Hist) Free(atoms []Atom) (res Response) {
	res = h.db.Write(h.Build(atoms))
	h.ch.Step()
	h.ch.Log("write %s: id %d tempids %v error %v", atomsString(atoms), res.ID, res.TempIDs, res.Error)
	if res.Error == nil {
		env := maps.Clone(h.env)
		for t, id := range res.TempIDs {
			env[string(t)] = id
		}
		env[string(Tx)] = res.ID
		h.env = env
	}
	return
}

// Setup writes requests without enumerating anything.
func (h *Hist) Setup(reqs ...[]Atom) {
	for _, r := range reqs {
		if _, ok := h.Do(r, false); !ok {
			panic(machineryError("the model rejects a setup request: " + atomsString(r)))
		}
	}
}

// Base is a setup whose effect on the model is computed once, as long as the implementation
// answers it the same way.
type Base struct {
	reqs  [][]Atom
	cache atomic.Pointer[baseCache]
}

type baseCache struct {
	m         *Model
	env       Env
	requests  []Request
	responses []Response
}

func (b *Base) apply(h *Hist) {
	if c := b.cache.Load(); c != nil && !h.ch.logging {
		same := true
		for i, req := range c.requests {
			res := h.db.Write(req)
			want := c.responses[i]
			if res.Error != nil || res.ID != want.ID || !maps.Equal(res.TempIDs, want.TempIDs) {
				same = false
				break
			}
		}
		if same {
			h.m, h.env = c.m, maps.Clone(c.env)
			return
		}
		h.db = database.NewIndexDatabase(h.degree, 8, 8)
	}
	c := &baseCache{}
	for i, r := range b.reqs {
		req := h.Build(r)
		res, ok := h.DoReq(req, r, i == len(b.reqs)-1)
		if !ok {
			panic(machineryError("the model rejects a setup request: " + atomsString(r)))
		}
		c.requests = append(c.requests, req)
		c.responses = append(c.responses, Response{ID: res.ID, TempIDs: maps.Clone(res.TempIDs)})
	}
	c.m, c.env = h.m, maps.Clone(h.env)
	b.cache.Store(c)
}

// diff compares a snapshot with the model in every observable respect.
func (h *Hist) diff(snap Snapshot) string {
	got := collect(snap, Claim{})
	// Their order is for another check to judge.
	sort.SliceStable(got, func(i, j int) bool { return got[i].cmp(got[j].mkey) < 0 })
	if d := diffDatums(got, h.m.sorted()); d != "" {
		return d
	}
	switch h.ch.ctx.id {
	case "C01", "C05", "C06", "C07", "C11", "C12":
		// Resolving names is for other checks to judge.
		return ""
	}
	for ident, id := range h.m.idents {
		if got := snap.ResolveIdent(Ident(ident)); got != id {
			return fmt.Sprintf("ident %q resolves to %d, expected %d", ident, got, id)
		}
	}
	for _, ident := range h.idents {
		if got, want := snap.ResolveIdent(Ident(ident)), h.m.idents[ident]; got != want {
			return fmt.Sprintf("ident %q resolves to %d, expected %d", ident, got, want)
		}
	}
	for k := range h.m.data {
		if got, want := snap.ResolveAttrIdent(k.e), h.m.attrs[k.e].ident; string(got) != want {
			return fmt.Sprintf("entity %d resolves to attribute ident %q, expected %q", k.e, got, want)
		}
	}
	return ""
}

func collect(snap Snapshot, c Claim) (out []mdatum) {
	for d := range snap.Select(c) {
		out = append(out, toD(d))
		if len(out) > 100000 {
			panic("selecting does not end")
		}
	}
	return
}

func toD(d Datum) mdatum { return mdatum{mkey{d.E, d.A, toM(d.V)}, d.T} }

// diffDatums compares sequences of datums, in order.
func diffDatums(got, want []mdatum) string {
	same := len(got) == len(want)
	if same {
		for i := range got {
			if got[i] != want[i] {
				same = false
				break
			}
		}
	}
	if same {
		return ""
	}
	in := map[mdatum]int{}
	for _, d := range want {
		in[d]++
	}
	var extra, missing []string
	for _, d := range got {
		if in[d] == 0 {
			extra = append(extra, d.String())
		}
		in[d]--
	}
	for _, d := range want {
		if in[d] > 0 {
			missing = append(missing, d.String())
			in[d]--
		}
	}
	if len(extra) == 0 && len(missing) == 0 {
		return fmt.Sprintf("datums out of order: %v, expected %v", got, want)
	}
	return fmt.Sprintf("unexpected datums %v, missing datums %v", extra, missing)
}

// hash identifies the state of the model up to nothing: ids and transactions included.
func (m *Model) hash() uint64 {
	// A sum is independent of the order.
	var sum uint64
	for k, t := range m.data {
		if k.e >= sys.FirstUserID {
			sum += maphash.Comparable(hashSeed, mdatum{k, t})
		}
	}
	return sum
}

// World is a space of histories: all sequences of up to n atoms, in every division into
// requests, from the state the setup leads to.
type World struct {
	name   string
	degree int
	setup  [][]Atom
	atoms  []Atom
	n      int // atoms per history
	perReq int // atoms per request, 0 is any number
	idents []string
	// check, if any, looks further at the end of the history.
	check func(h *Hist, last Response)
	// invariant, if any, must hold of every state, whether or not the write that led to it
	// should have been accepted.
	invariant func(h *Hist, snap Snapshot)
}

func (w World) prepare(h *Hist) {
	h.idents = w.idents
	if w.invariant != nil {
		h.invariant = func(snap Snapshot) { w.invariant(h, snap) }
	}
}

func (w World) explore(c *Ctx) {
	degree := w.degree
	if degree == 0 {
		degree = 2
	}
	base := &Base{reqs: w.setup}
	c.Explore(w.name, func(ch *Ch) {
		h := NewHist(ch, degree)
		w.prepare(h)
		base.apply(h)
		var atoms []Atom
		for i := 0; i < w.n; i++ {
			// Entities come to exist between requests only.
			var can []int
			for j, a := range w.atoms {
				if h.Can(a) {
					can = append(can, j)
				}
			}
			atoms = append(atoms, w.atoms[can[ch.Pick(len(can))]])
			next := 0 // 0 ends the history, 1 a new request, 2 the same
			if i+1 < w.n {
				k := 3
				if w.perReq != 0 && len(atoms) >= w.perReq {
					k = 2
				}
				next = ch.Pick(k)
			}
			if next == 2 {
				continue
			}
			res, _ := h.Do(atoms, next == 0)
			if next == 0 {
				if w.check != nil {
					w.check(h, res)
				}
				return
			}
			atoms = nil
		}
	})
}

// Reach is a space of transitions: every request of up to n atoms from every state that
// requests of one atom lead to. States are identified up to their transaction ids, which no
// rule but the one for what is new depends on, and by the names of their entities.
type Reach struct {
	World
	max int // states
}

func (m *Model) canon(env Env) string {
	name := map[ID]string{}
	for k, id := range env {
		if k != string(Tx) && (name[id] == "" || k < name[id]) {
			name[id] = k
		}
	}
	id := func(id ID) string {
		if s, ok := name[id]; ok {
			return s
		}
		return fmt.Sprint(uint64(id))
	}
	var rows []string
	for k := range m.data {
		if k.e < sys.FirstUserID {
			continue
		}
		v := k.v.String()
		if k.v.kind == 'r' {
			v = id(ID(k.v.u))
		}
		rows = append(rows, id(k.e)+" "+id(k.a)+" "+v)
	}
	sortStrings(rows)
	return strings.Join(rows, ";")
}

func (r Reach) explore(c *Ctx) {
	degree := r.degree
	if degree == 0 {
		degree = 2
	}
	// The states, found by the model alone on ids it issues itself; every path to one is
	// validated against the implementation when the requests are tried from it.
	type node struct{ path []int }
	start := newModelHist()
	for _, s := range r.setup {
		start.do(s)
	}
	seen := map[string]bool{start.m.canon(start.env): true}
	nodes := []node{{}}
	type item struct {
		h    *modelHist
		path []int
	}
	queue := []item{{start, nil}}
	capped := false
	for len(queue) > 0 && !capped {
		it := queue[0]
		queue = queue[1:]
		for j, a := range r.atoms {
			h := it.h.clone()
			if !h.can(a) || !h.do([]Atom{a}) {
				continue
			}
			k := h.m.canon(h.env)
			if seen[k] {
				continue
			}
			if r.max > 0 && len(nodes) >= r.max {
				capped = true
				break
			}
			seen[k] = true
			p := append(append([]int{}, it.path...), j)
			nodes = append(nodes, node{p})
			queue = append(queue, item{h, p})
		}
	}
	c.notesAdd("reach "+r.name, map[string]any{"states": len(nodes), "all_reachable": !capped})
	base := &Base{reqs: r.setup}
	c.Explore(r.name, func(ch *Ch) {
		h := NewHist(ch, degree)
		r.prepare(h)
		base.apply(h)
		n := nodes[ch.Pick(len(nodes))]
		for _, j := range n.path {
			if _, ok := h.Do([]Atom{r.atoms[j]}, false); !ok {
				panic(machineryError("the model rejects a step of a path"))
			}
		}
		var can []Atom
		for _, a := range r.atoms {
			if h.Can(a) {
				can = append(can, a)
			}
		}
		var atoms []Atom
		for i := 0; i < r.n; i++ {
			atoms = append(atoms, can[ch.Pick(len(can))])
			if i+1 == r.n || ch.Pick(2) == 0 {
				break
			}
		}
		res, _ := h.Do(atoms, true)
		if r.check != nil {
			r.check(h, res)
		}
	})
}

// modelHist runs histories on the model alone, issuing ids the way any implementation might.
type modelHist struct {
	m    *Model
	env  Env
	next ID
}

func newModelHist() *modelHist {
	return &modelHist{m: NewModel(), env: Env{}, next: sys.FirstUserID}
}

func (h *modelHist) clone() *modelHist {
	c := *h
	c.m = h.m.clone()
	c.env = make(Env, len(h.env))
	for k, v := range h.env {
		c.env[k] = v
	}
	return &c
}

func (h *modelHist) can(a Atom) bool {
	var req Request
	return h.env.add(&req, a)
}

func (h *modelHist) do(atoms []Atom) bool {
	var req Request
	for _, a := range atoms {
		if !h.env.add(&req, a) {
			return false
		}
	}
	out := h.m.Write(req)
	if out.Reject != "" {
		return false
	}
	res := Response{ID: h.next, TempIDs: map[TempID]ID{}}
	h.next++
	fresh := map[ID]ID{}
	for t, id := range out.TempIDs {
		if id >= placeholder {
			if fresh[id] == 0 {
				fresh[id] = h.next
				h.next++
			}
			id = fresh[id]
		}
		res.TempIDs[t] = id
	}
	next, wrong := h.m.accept(out, res)
	if wrong != "" {
		panic(machineryError("model history: " + wrong))
	}
	h.m = next
	for t, id := range res.TempIDs {
		h.env[string(t)] = id
	}
	h.env[string(Tx)] = res.ID
	return true
}
