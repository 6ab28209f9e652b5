package main

import (
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
	pdb "github.com/dball/destructive/pkg/database"
)

// The reference model of the struct interface: a struct type is the claims that declare its
// attributes, a struct is claims about the entity it identifies, and a request is accepted if
// the model of claims accepts all of those, in order.

// typeClaims is the declaration of the struct type and of all it refers to.
func typeClaims(t reflect.Type) (out []Claim, bad string) {
	if t == nil || t.Kind() != reflect.Struct || t == TimeType {
		return nil, "not a struct"
	}
	seen := map[reflect.Type]bool{t: true}
	todo := []reflect.Type{t}
	n := 0
	declare := func(ident string, typ, unique ID, many bool) {
		n++
		e := TempID("a" + strconv.Itoa(n))
		out = append(out, Claim{E: e, A: sys.DbIdent, V: String(ident)}, Claim{E: e, A: sys.AttrType, V: typ})
		if unique != 0 {
			out = append(out, Claim{E: e, A: sys.AttrUnique, V: unique})
		}
		if many {
			out = append(out, Claim{E: e, A: sys.AttrCardinality, V: sys.AttrCardinalityMany})
		}
	}
	for len(todo) > 0 {
		t := todo[0]
		todo = todo[1:]
		for _, f := range sfields(t) {
			if f.err != "" {
				return nil, f.err
			}
			if f.isID {
				continue
			}
			declare(f.ident, f.attrType(), f.unique, f.many())
			if f.typ.Kind() == reflect.Slice && f.value != "" {
				s := scalarType(f.typ.Elem())
				if s == 0 {
					return nil, "values that are not scalars"
				}
				declare(f.value, s, 0, false)
				continue
			}
			if f.attrType() != tRef {
				continue
			}
			child := f.child()
			if child == nil || (f.typ.Kind() == reflect.Slice && f.typ.Elem().Kind() == reflect.Pointer) {
				return nil, "unsupported elements"
			}
			if !seen[child] {
				seen[child] = true
				todo = append(todo, child)
			}
		}
	}
	return
}

type ptrKey struct {
	p unsafe.Pointer
	t reflect.Type
}

type modelShredder struct {
	n      int
	ptrs   map[ptrKey]ERef
	claims []Claim
}

func (s *modelShredder) temp() TempID {
	s.n++
	return TempID("e" + strconv.Itoa(s.n))
}

// shred makes claims of a struct or a pointer to one.
func (s *modelShredder) shred(v reflect.Value) (e ERef, claims int, bad string) {
	if !v.IsValid() {
		return nil, 0, "nil"
	}
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return nil, 0, "nil pointer"
		}
		k := ptrKey{v.UnsafePointer(), v.Type().Elem()}
		if e, ok := s.ptrs[k]; ok {
			return e, 1, ""
		}
		v = v.Elem()
		if v.Kind() != reflect.Struct {
			return nil, 0, "not a struct"
		}
		e = s.entity(v)
		s.ptrs[k] = e
	} else {
		if v.Kind() != reflect.Struct {
			return nil, 0, "not a struct"
		}
		e = s.entity(v)
	}
	claim := func(e ERef, a string, x VRef) {
		s.claims = append(s.claims, Claim{E: e, A: Ident(a), V: x})
		claims++
	}
	for _, f := range sfields(v.Type()) {
		if f.isID {
			continue
		}
		x := v.Field(f.index)
		switch {
		case f.typ.Kind() == reflect.Pointer && x.IsNil():
		case f.attrType() != tRef:
			if x.Kind() == reflect.Pointer {
				x = x.Elem()
			}
			val := toValue(x)
			if f.ignoreEmpty && isEmpty(val) {
				continue
			}
			claim(e, f.ident, val.(VRef))
		case f.many():
			var elems []reflect.Value
			if f.typ.Kind() == reflect.Map {
				for _, k := range x.MapKeys() {
					elems = append(elems, x.MapIndex(k))
				}
			} else {
				for i := range x.Len() {
					elems = append(elems, x.Index(i))
				}
			}
			for i, el := range elems {
				var c ERef
				if f.value != "" && f.typ.Kind() == reflect.Slice {
					c = s.temp()
					claim(c, f.value, toValue(el).(VRef))
				} else {
					var bad string
					var n int
					c, n, bad = s.shred(el)
					if bad != "" {
						return nil, 0, bad
					}
					if n == 0 && f.typ.Kind() == reflect.Slice {
						return nil, 0, "element without values"
					}
				}
				if f.typ.Kind() == reflect.Slice {
					claim(c, "sys/db/rank", Int(i))
				}
				claim(e, f.ident, c.(VRef))
			}
		default:
			c, _, bad := s.shred(x)
			if bad != "" {
				return nil, 0, bad
			}
			claim(e, f.ident, c.(VRef))
		}
	}
	return
}

// entity is the entity of a struct: that of its id, if it has one, or a new one.
func (s *modelShredder) entity(v reflect.Value) ERef {
	for _, f := range sfields(v.Type()) {
		if f.isID && v.Field(f.index).Uint() != 0 {
			return ID(v.Field(f.index).Uint())
		}
	}
	return s.temp()
}

// constraints of the retraction of a struct.
func constraints(x any) (out map[IDRef]Void, bad string) {
	v := reflect.ValueOf(x)
	if !v.IsValid() {
		return nil, "nil"
	}
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return nil, "nil pointer"
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct || v.Type() == TimeType {
		return nil, "not a struct"
	}
	out = map[IDRef]Void{}
	for _, f := range sfields(v.Type()) {
		if f.err != "" {
			return nil, f.err
		}
		x := v.Field(f.index)
		switch {
		case f.isID:
			if x.Uint() != 0 {
				out[ID(x.Uint())] = Void{}
			}
		case f.unique == 0 || f.attrType() == tRef || (x.Kind() == reflect.Pointer && x.IsNil()):
		default:
			if x.Kind() == reflect.Pointer {
				x = x.Elem()
			}
			val := toValue(x)
			if f.ignoreEmpty && isEmpty(val) {
				continue
			}
			out[LookupRef{A: Ident(f.ident), V: val}] = Void{}
		}
	}
	if len(out) == 0 {
		return nil, "identifies nothing"
	}
	return
}

// SHist is a database of structs and the model of it, driven through the same history.
type SHist struct {
	ch    *Ch
	db    pdb.Database
	m     *Model
	synth ID
	known []uint64 // ids of entities, in order of their appearance
	views []sview
	// reqs are the requests made, if they are to be kept.
	keep bool
	reqs []pdb.Request
	// What the model m expects, computed once.
	cached *Model
	rows   []string
	byE    map[ID][]mkey
	wants  map[slot]want
}

type slot struct {
	id ID
	t  reflect.Type
}

type want struct {
	x  any
	ok bool
}

// expect says what the entity should be found as.
func (h *SHist) expect(t reflect.Type, id ID) (any, bool) {
	h.refresh()
	w, ok := h.wants[slot{id, t}]
	if !ok {
		w.x, w.ok = expected(h.m, h.byE, t, id)
		h.wants[slot{id, t}] = w
	}
	return w.x, w.ok
}

func (h *SHist) refresh() {
	if h.cached == h.m {
		return
	}
	h.cached = h.m
	h.rows = h.modelRows()
	h.wants = map[slot]want{}
	h.byE = map[ID][]mkey{}
	for k := range h.m.data {
		h.byE[k.e] = append(h.byE[k.e], k)
	}
}

func NewSHist(ch *Ch, views ...sview) *SHist {
	return &SHist{ch: ch, db: pdb.NewDatabase(smallConfig), m: NewModel(), synth: 1 << 50, views: views}
}

func (h *SHist) next() ID {
	h.synth++
	return h.synth
}

// predict says what the model makes of a request.
func (h *SHist) predict(req pdb.Request) (m *Model, out Outcome, erefs []ERef, reject string) {
	m = h.m
	for _, x := range req.Assertions {
		t := reflect.TypeOf(x)
		if t != nil && t.Kind() == reflect.Pointer {
			t = t.Elem()
		}
		claims, bad := typeClaims(t)
		if bad != "" {
			return nil, out, nil, "assertion: " + bad
		}
		o := m.Write(Request{Claims: claims})
		if o.Reject != "" {
			return nil, out, nil, "schema: " + o.Reject
		}
		res := Response{ID: h.next(), TempIDs: map[TempID]ID{}}
		fresh := map[ID]ID{}
		for t, id := range o.TempIDs {
			if id >= placeholder {
				if fresh[id] == 0 {
					fresh[id] = h.next()
				}
				id = fresh[id]
			}
			res.TempIDs[t] = id
		}
		n, wrong := m.accept(o, res)
		if wrong != "" {
			panic(machineryError(wrong))
		}
		m = n
	}
	ireq := Request{}
	for _, x := range req.Retractions {
		cs, bad := constraints(x)
		if bad != "" {
			return nil, out, nil, "retraction: " + bad
		}
		ireq.Retractions = append(ireq.Retractions, Retraction{Constraints: cs})
	}
	s := &modelShredder{ptrs: map[ptrKey]ERef{}}
	for _, x := range req.Assertions {
		e, n, bad := s.shred(reflect.ValueOf(x))
		if bad != "" {
			return nil, out, nil, "assertion: " + bad
		}
		if n == 0 {
			h.ch.Prune() // records nothing
		}
		erefs = append(erefs, e)
	}
	ireq.Claims = s.claims
	out = m.Write(ireq)
	return m, out, erefs, out.Reject
}

// Do writes a request to both and compares all there is to see.
func (h *SHist) Do(req pdb.Request) (res pdb.Response, accepted bool) {
	ch := h.ch
	m, out, erefs, reject := h.predict(req)
	desc := "assert " + showAll(req.Assertions)
	if len(req.Retractions) > 0 {
		desc += " retract " + showAll(req.Retractions)
	}
	if ch.logging {
		if reject == "" {
			ch.Log("%s, expected to be accepted", desc)
		} else {
			ch.Log("%s, expected to be rejected: %s", desc, reject)
		}
	}
	before := h.db.Read()
	if h.keep {
		h.reqs = append(h.reqs, req)
	}
	res = h.db.Write(req)
	ch.Step()
	ch.Validated()
	ch.Log("  ids %v error %v", res.IDs, res.Error)
	if res.Snap == nil {
		ch.Fail("%s: the response has no snapshot", desc)
	}
	if reject != "" {
		if res.Error == nil {
			ch.Fail("%s is accepted, it should be rejected: %s", desc, reject)
		}
		if len(res.IDs) != 0 {
			ch.Fail("%s is rejected and answers with ids %v", desc, res.IDs)
		}
	} else {
		if res.Error != nil {
			ch.Fail("%s is rejected, it should be accepted: %v", desc, res.Error)
		}
		if len(res.IDs) != len(erefs) {
			ch.Fail("%s answers with ids %v, there are %d assertions", desc, res.IDs, len(erefs))
		}
		accepted = true
		h.bind(desc, m, out, erefs, res, before)
	}
	h.compare(desc, "the response", res.Snap)
	h.compare(desc, "the database", h.db.Read())
	ch.State(hashString(h.dumpModel()))
	return
}

// bind finds the ids the implementation gave to new entities, from those of the response and
// along the references from them.
func (h *SHist) bind(desc string, m *Model, out Outcome, erefs []ERef, res pdb.Response, before *pdb.Snapshot) {
	ch := h.ch
	ids := map[ID]ID{}
	back := map[ID]ID{}
	var queue []ID
	set := func(p, id ID) {
		if prev, ok := ids[p]; ok {
			if prev != id {
				ch.Fail("%s: one entity has ids %d and %d", desc, prev, id)
			}
			return
		}
		if prev, ok := back[id]; ok && prev != p {
			ch.Fail("%s: two entities have the id %d", desc, id)
		}
		ids[p], back[id] = id, p
		queue = append(queue, p)
	}
	for i, e := range erefs {
		got := ID(res.IDs[i])
		switch e := e.(type) {
		case ID:
			if got != e {
				ch.Fail("%s: the response's id %d is %d, expected %d", desc, i, got, e)
			}
			set(e, e)
		case TempID:
			want := out.TempIDs[e]
			if want < placeholder && want != got {
				ch.Fail("%s: the response's id %d is %d, expected that of the entity %d it identifies", desc, i, got, want)
			}
			set(want, got)
		}
	}
	snap := datumsOf(res.Snap)
	if snap == nil {
		return
	}
	children := map[ID]map[string][]mval{}
	for k := range out.Next.data {
		if k.v.kind == 'r' && k.e >= sys.FirstUserID {
			if children[k.e] == nil {
				children[k.e] = map[string][]mval{}
			}
			a := m.attrs[k.a].ident
			children[k.e][a] = append(children[k.e][a], k.v)
		}
	}
	sigModel := func(e ID) string {
		var rows []string
		for k := range out.Next.data {
			if k.e == e && k.v.kind != 'r' {
				rows = append(rows, m.attrs[k.a].ident+"="+k.v.String())
			}
		}
		sort.Strings(rows)
		return strings.Join(rows, ",")
	}
	sigReal := func(e ID) string {
		var rows []string
		for _, d := range collect(snap, Claim{E: e}) {
			if d.v.kind != 'r' {
				rows = append(rows, string(snap.ResolveAttrIdent(d.a))+"="+d.v.String())
			}
		}
		sort.Strings(rows)
		return strings.Join(rows, ",")
	}
	for len(queue) > 0 {
		p := queue[0]
		queue = queue[1:]
		for a, vs := range children[p] {
			if strings.HasPrefix(a, "sys/") {
				continue
			}
			real := collect(snap, Claim{E: ids[p], A: Ident(a)})
			for _, v := range vs {
				if c := ID(v.u); c >= sys.FirstUserID && c < placeholder {
					set(c, c)
				}
			}
			for _, v := range vs {
				c := ID(v.u)
				if c < placeholder {
					continue
				}
				if _, ok := ids[c]; ok {
					continue
				}
				want := sigModel(c)
				for _, d := range real {
					if _, used := back[ID(d.v.u)]; !used && d.v.kind == 'r' && !m.issued[ID(d.v.u)] && (len(vs) == 1 || sigReal(ID(d.v.u)) == want) {
						set(c, ID(d.v.u))
						break
					}
				}
			}
		}
	}
	old := datumsOf(before)
	resp := Response{ID: h.next(), TempIDs: map[TempID]ID{}}
	for t, p := range out.TempIDs {
		id := p
		if p >= placeholder {
			var ok bool
			if id, ok = ids[p]; !ok {
				ch.Fail("%s: an entity of the request is not recorded: %s", desc, sigModel(p))
			}
			if old.Has(Claim{E: id}) {
				ch.Fail("%s: the id %d given to a new entity was in use", desc, id)
			}
		}
		resp.TempIDs[t] = id
	}
	next, wrong := m.accept(out, resp)
	if wrong != "" {
		ch.Fail("%s: %s", desc, wrong)
	}
	h.m = next
	var fresh []uint64
	for _, e := range erefs {
		id := e
		if t, ok := e.(TempID); ok {
			id = resp.TempIDs[t]
		}
		fresh = append(fresh, uint64(id.(ID)))
	}
	var nested []uint64
	for _, id := range resp.TempIDs {
		nested = append(nested, uint64(id))
	}
	sort.Slice(nested, func(i, j int) bool { return nested[i] < nested[j] })
	for _, id := range append(fresh, nested...) {
		found := false
		for _, k := range h.known {
			found = found || k == id
		}
		if !found {
			h.known = append(h.known, id)
		}
	}
}

func isMeta(a string) bool {
	return strings.HasPrefix(a, "sys/db/ident") || strings.HasPrefix(a, "sys/attr/")
}

// compare looks at a snapshot.
func (h *SHist) compare(desc, where string, s *pdb.Snapshot) {
	snap := datumsOf(s)
	if snap != nil {
		h.refresh()
		got := realRows(snap)
		if d := diffRows(got, h.rows); d != "" {
			h.ch.Fail("after %s, %s: %s", desc, where, d)
		}
	}
	for _, v := range h.views {
		for _, id := range h.known {
			want, ok := h.expect(v.typ, ID(id))
			if !ok {
				continue
			}
			got, err := v.find(s, id)
			if err != nil {
				h.ch.Fail("no typed snapshot of %v: %v", v.typ, err)
			}
			switch {
			case got == nil && want == nil:
			case got == nil:
				h.ch.Fail("after %s, %s finds no %v with id %d, expected %s", desc, where, v.typ, id, show(want))
			case want == nil:
				h.ch.Fail("after %s, %s finds %s with id %d, which has been retracted", desc, where, show(got), id)
			default:
				if d := isoExact(want, got); d != "" {
					h.ch.Fail("after %s, %s finds, as %d, %s, expected %s: %s", desc, where, id, show(got), show(want), d)
				}
			}
		}
	}
}

func (h *SHist) dumpModel() string {
	h.refresh()
	return strings.Join(h.rows, ";")
}

// modelRows lists the datums of entities, with attributes named by their idents.
func (h *SHist) modelRows() (out []string) {
	name := func(id ID) string {
		if a, ok := h.m.attrs[id]; ok {
			return ":" + a.ident
		}
		return fmt.Sprintf("#%d", id)
	}
	for k := range h.m.data {
		if k.e < sys.FirstUserID {
			continue
		}
		v := k.v.String()
		if k.v.kind == 'r' {
			v = name(ID(k.v.u))
		}
		out = append(out, name(k.e)+" "+name(k.a)+" "+v)
	}
	sort.Strings(out)
	return
}

func realRows(snap Snapshot) (out []string) {
	ds := collect(snap, Claim{})
	idents := map[ID]string{}
	typed := map[ID]bool{}
	for _, d := range ds {
		switch d.a {
		case sys.DbIdent:
			idents[d.e] = d.v.s
		case sys.AttrType:
			typed[d.e] = true
		}
	}
	name := func(id ID) string {
		if typed[id] && idents[id] != "" {
			return ":" + idents[id]
		}
		return fmt.Sprintf("#%d", id)
	}
	for _, d := range ds {
		if d.e < sys.FirstUserID {
			continue
		}
		v := d.v.String()
		if d.v.kind == 'r' {
			v = name(ID(d.v.u))
		}
		out = append(out, name(d.e)+" "+name(d.a)+" "+v)
	}
	sort.Strings(out)
	return
}

func diffRows(got, want []string) string {
	if slices.Equal(got, want) {
		return ""
	}
	in := map[string]int{}
	for _, r := range want {
		in[r]++
	}
	var extra, missing []string
	for _, r := range got {
		if in[r] == 0 {
			extra = append(extra, r)
		}
		in[r]--
	}
	for _, r := range want {
		if in[r] > 0 {
			missing = append(missing, r)
			in[r]--
		}
	}
	if len(extra)+len(missing) == 0 {
		return ""
	}
	return fmt.Sprintf("unexpected datums %v, missing datums %v", extra, missing)
}

// expected is the struct an entity should be found as, nil if it has no datums, and false if
// it refers to entities without datums, of which nothing is said.
func expected(m *Model, byE map[ID][]mkey, t reflect.Type, id ID) (any, bool) {
	if len(byE[id]) == 0 {
		return nil, true
	}
	type instance struct {
		id ID
		t  reflect.Type
	}
	done := map[instance]reflect.Value{}
	ok := true
	find := func(e ID, a string) (mval, bool) {
		for _, k := range byE[e] {
			if m.attrs[k.a].ident == a {
				return k.v, true
			}
		}
		return mval{}, false
	}
	var fill func(v reflect.Value, id ID)
	get := func(t reflect.Type, id ID) reflect.Value {
		if p, ok := done[instance{id, t}]; ok {
			return p
		}
		p := reflect.New(t)
		done[instance{id, t}] = p
		fill(p.Elem(), id)
		return p
	}
	fill = func(v reflect.Value, id ID) {
		if len(byE[id]) == 0 {
			ok = false
			return
		}
		for _, f := range sfields(v.Type()) {
			x := v.Field(f.index)
			if f.isID {
				x.SetUint(uint64(id))
				continue
			}
			var vals []mval
			for _, k := range byE[id] {
				if m.attrs[k.a].ident == f.ident {
					vals = append(vals, k.v)
				}
			}
			if len(vals) == 0 {
				continue
			}
			if vals[0].kind != kindOfType[f.attrType()] {
				// The struct type is not one for this attribute, of which nothing is said.
				ok = false
				return
			}
			switch {
			case f.attrType() != tRef:
				if x.Kind() == reflect.Pointer {
					x.Set(reflect.New(x.Type().Elem()))
					x = x.Elem()
				}
				setScalar(x, vals[0])
			case f.typ.Kind() == reflect.Pointer:
				x.Set(get(f.typ.Elem(), ID(vals[0].u)))
			case f.typ.Kind() == reflect.Struct:
				fill(x, ID(vals[0].u))
			case f.typ.Kind() == reflect.Map:
				x.Set(reflect.MakeMap(f.typ))
				for _, c := range vals {
					var key reflect.Value
					if f.key == "" || f.key == sys.DbId {
						key = reflect.ValueOf(c.u).Convert(f.typ.Key())
					} else {
						kv, has := find(ID(c.u), f.key)
						if !has {
							ok = false
							return
						}
						key = reflect.New(f.typ.Key()).Elem()
						setScalar(key, kv)
					}
					if x.MapIndex(key).IsValid() {
						ok = false // two entries with one key
						return
					}
					if f.typ.Elem().Kind() == reflect.Pointer {
						x.SetMapIndex(key, get(f.typ.Elem().Elem(), ID(c.u)))
					} else {
						e := reflect.New(f.typ.Elem()).Elem()
						fill(e, ID(c.u))
						x.SetMapIndex(key, e)
					}
				}
			default:
				x.Set(reflect.MakeSlice(f.typ, len(vals), len(vals)))
				ranks := map[int64]bool{}
				for _, c := range vals {
					r, has := find(ID(c.u), "sys/db/rank")
					if !has || int(r.n) >= len(vals) || ranks[r.n] {
						ok = false // written over another slice
						return
					}
					ranks[r.n] = true
					el := x.Index(int(r.n))
					if f.value != "" {
						kv, has := find(ID(c.u), f.value)
						if !has {
							ok = false
							return
						}
						setScalar(el, kv)
					} else {
						fill(el, ID(c.u))
					}
				}
			}
		}
	}
	p := get(t, id)
	return p.Interface(), ok
}
