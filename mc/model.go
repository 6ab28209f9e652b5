package main

import (
	"cmp"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
)

// The reference model: a map from (entity, attribute, value) to transaction, and the rules
// of the documentation applied to it in the most literal way. It shares no code with the
// implementation besides the vocabulary of types and the ids of the system entities.

// mval is a value in canonical form: equal values are ==.
type mval struct {
	kind byte // r s i b t f
	n    int64
	u    uint64
	s    string
}

func canonFloat(f float64) float64 {
	if f == 0 {
		return 0
	}
	if math.IsNaN(f) {
		return math.NaN()
	}
	return f
}

func toM(v Value) mval {
	switch v := v.(type) {
	case ID:
		return mval{kind: 'r', u: uint64(v)}
	case String:
		return mval{kind: 's', s: string(v)}
	case Int:
		return mval{kind: 'i', n: int64(v)}
	case Bool:
		if v {
			return mval{kind: 'b', u: 1}
		}
		return mval{kind: 'b'}
	case Inst:
		t := time.Time(v)
		if time.UnixMilli(t.UnixMilli()).Unix() != t.Unix() {
			return mval{kind: 'T', n: t.Unix(), u: uint64(t.Nanosecond() / 1e6)} // of no type that can be recorded
		}
		return mval{kind: 't', n: t.UnixMilli()}
	case Float:
		return mval{kind: 'f', u: math.Float64bits(canonFloat(float64(v)))}
	}
	panic(fmt.Sprintf("not a value: %#v", v))
}

// toV gives the value as it should be read back.
func (m mval) toV() Value {
	switch m.kind {
	case 'r':
		return ID(m.u)
	case 's':
		return String(m.s)
	case 'i':
		return Int(m.n)
	case 'b':
		return Bool(m.u == 1)
	case 't':
		return Inst(time.UnixMilli(m.n).UTC())
	case 'f':
		return Float(math.Float64frombits(m.u))
	}
	return nil
}

func (m mval) cmp(o mval) int {
	if c := cmp.Compare(m.kind, o.kind); c != 0 {
		return c
	}
	switch m.kind {
	case 'r', 'b':
		return cmp.Compare(m.u, o.u)
	case 's':
		return strings.Compare(m.s, o.s)
	case 'i', 't':
		return cmp.Compare(m.n, o.n)
	case 'T':
		return cmp.Or(cmp.Compare(m.n, o.n), cmp.Compare(m.u, o.u))
	}
	return cmp.Compare(math.Float64frombits(m.u), math.Float64frombits(o.u))
}

func (m mval) String() string {
	switch m.kind {
	case 'r':
		return fmt.Sprintf("#%d", m.u)
	case 's':
		return fmt.Sprintf("%q", m.s)
	case 'i':
		return fmt.Sprint(m.n)
	case 'b':
		return fmt.Sprint(m.u == 1)
	case 't':
		return time.UnixMilli(m.n).UTC().Format(time.RFC3339Nano)
	case 'T':
		return fmt.Sprintf("second %d.%03d", m.n, m.u)
	case 'f':
		return fmt.Sprintf("%vf", math.Float64frombits(m.u))
	}
	return "nil"
}

type mkey struct {
	e, a ID
	v    mval
}

func (k mkey) cmp(o mkey) int {
	if c := cmp.Compare(k.e, o.e); c != 0 {
		return c
	}
	if c := cmp.Compare(k.a, o.a); c != 0 {
		return c
	}
	return k.v.cmp(o.v)
}

type mdatum struct {
	mkey
	t ID
}

func (d mdatum) String() string {
	return fmt.Sprintf("[%d %d %s t%d]", d.e, d.a, d.v, d.t)
}

var kindOfType = map[ID]byte{
	sys.AttrTypeRef: 'r', sys.AttrTypeString: 's', sys.AttrTypeInt: 'i',
	sys.AttrTypeBool: 'b', sys.AttrTypeInst: 't', sys.AttrTypeFloat: 'f',
}

// sysDatums is the content of an empty database, as documented by its vocabulary.
var sysDatums = func() (out []mdatum) {
	add := func(e, a ID, v Value) { out = append(out, mdatum{mkey{e, a, toM(v)}, sys.Tx}) }
	attr := func(e ID, ident string, typ ID) {
		add(e, sys.DbIdent, String(ident))
		add(e, sys.AttrType, typ)
	}
	attr(sys.DbIdent, "sys/db/ident", sys.AttrTypeString)
	add(sys.DbIdent, sys.AttrUnique, sys.AttrUniqueIdentity)
	attr(sys.AttrType, "sys/attr/type", sys.AttrTypeRef)
	attr(sys.AttrUnique, "sys/attr/unique", sys.AttrTypeRef)
	attr(sys.AttrCardinality, "sys/attr/cardinality", sys.AttrTypeRef)
	attr(sys.TxAt, "sys/tx/at", sys.AttrTypeInst)
	attr(sys.AttrRefType, "sys/attr/ref/type", sys.AttrTypeRef)
	attr(sys.DbRank, "sys/db/rank", sys.AttrTypeInt)
	for id, s := range map[ID]string{
		sys.AttrUniqueIdentity: "sys/attr/unique/identity", sys.AttrUniqueValue: "sys/attr/unique/value",
		sys.AttrCardinalityOne: "sys/attr/cardinality/one", sys.AttrCardinalityMany: "sys/attr/cardinality/many",
		sys.AttrTypeRef: "sys/attr/type/ref", sys.AttrTypeString: "sys/attr/type/string",
		sys.AttrTypeInt: "sys/attr/type/int", sys.AttrTypeBool: "sys/attr/type/bool",
		sys.AttrTypeInst: "sys/attr/type/inst", sys.AttrTypeFloat: "sys/attr/type/float",
		sys.AttrRefTypeDependent: "sys/attr/ref/type/dependent",
	} {
		add(id, sys.DbIdent, String(s))
	}
	add(sys.Tx, sys.TxAt, Inst(time.Time{}))
	return
}()

type mattr struct {
	id     ID
	ident  string
	kind   byte
	typ    ID
	many   bool
	card   ID
	unique ID
}

type Model struct {
	data   map[mkey]ID
	attrs  map[ID]mattr // derived from data
	idents map[string]ID
	issued map[ID]bool // every id given to an entity or transaction so far
}

func NewModel() *Model {
	m := &Model{data: make(map[mkey]ID, 64), issued: map[ID]bool{}}
	for _, d := range sysDatums {
		m.data[d.mkey] = d.t
	}
	m.derive()
	return m
}

func (m *Model) clone() *Model {
	c := &Model{data: make(map[mkey]ID, len(m.data)+8), attrs: m.attrs, idents: m.idents, issued: m.issued}
	for k, t := range m.data {
		c.data[k] = t
	}
	return c
}

// derive computes the attributes and idents from the datums.
func (m *Model) derive() {
	m.attrs = map[ID]mattr{}
	m.idents = map[string]ID{}
	for k := range m.data {
		switch k.a {
		case sys.DbIdent:
			m.idents[k.v.s] = k.e
		case sys.AttrType:
			a := m.attrs[k.e]
			a.id = k.e
			a.typ = ID(k.v.u)
			a.kind = kindOfType[a.typ]
			m.attrs[k.e] = a
		}
	}
	for k := range m.data {
		a, ok := m.attrs[k.e]
		if !ok {
			continue
		}
		switch k.a {
		case sys.DbIdent:
			a.ident = k.v.s
		case sys.AttrCardinality:
			a.card = ID(k.v.u)
			a.many = a.card == sys.AttrCardinalityMany
		case sys.AttrUnique:
			a.unique = ID(k.v.u)
		}
		m.attrs[k.e] = a
	}
}

func (m *Model) sorted() []mdatum {
	out := make([]mdatum, 0, len(m.data))
	for k, t := range m.data {
		out = append(out, mdatum{k, t})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].cmp(out[j].mkey) < 0 })
	return out
}

// holder is the entity with the value, if any, in a state where there is at most one.
func (m *Model) holder(a ID, v mval) ID {
	for k := range m.data {
		if k.a == a && k.v == v {
			return k.e
		}
	}
	return 0
}

func (m *Model) resolve(ref any) ID {
	switch r := ref.(type) {
	case ID:
		return r
	case Ident:
		return m.idents[string(r)]
	case LookupRef:
		if r.A == nil || r.V == nil {
			return 0
		}
		a, ok := m.attrs[m.resolve(r.A)]
		if !ok || a.unique == 0 {
			return 0
		}
		v := toM(r.V)
		if v.kind != a.kind {
			return 0
		}
		return m.holder(a.id, v)
	}
	return 0
}

const placeholder = ID(1) << 60

type mclaim struct {
	e, a    ID
	v       mval
	retract bool
	etemp   bool
}

// Outcome is what the model says about a write. New entities have placeholder ids.
type Outcome struct {
	Reject  string // why, or empty
	Tags    string // the properties that say so; * is for any
	Next    *Model
	TempIDs map[TempID]ID
	Tx      ID
}

// Write evaluates a request.
func (m *Model) Write(req Request) (out Outcome) {
	reject := func(tags, why string) Outcome {
		return Outcome{Reject: why, Tags: tags}
	}
	tx := placeholder
	next := placeholder + 1
	retracted := map[ID]bool{}
	for _, r := range req.Retractions {
		var id ID
		if len(r.Constraints) == 0 {
			return reject("C12", "retraction without constraints")
		}
		for ref := range r.Constraints {
			e := m.resolve(ref)
			if e == 0 {
				return reject("C12", "retraction constraint resolves to nothing")
			}
			if id != 0 && e != id {
				return reject("C12", "retraction constraints disagree")
			}
			id = e
		}
		if id < sys.FirstUserID {
			return reject("C10 C12", "retraction of a system entity")
		}
		retracted[id] = true
	}
	temps := map[TempID]ID{}
	temp := func(t TempID) ID {
		if temps[t] == 0 {
			temps[t] = next
			next++
		}
		return temps[t]
	}
	var cs []mclaim
	for _, c := range req.Claims {
		mc := mclaim{retract: c.Retract}
		switch e := c.E.(type) {
		case TempID:
			mc.e = temp(e)
			mc.etemp = true
		case TxnID:
			mc.e = tx
		case ID:
			if e >= sys.FirstUserID && !m.issued[e] {
				return reject("*", "unknown entity id")
			}
			mc.e = e
		default:
			mc.e = m.resolve(c.E)
		}
		if mc.e == 0 {
			return reject("*", "entity resolves to nothing")
		}
		attr, ok := m.attrs[m.resolve(c.A)]
		if !ok {
			return reject("*", "attribute is not one")
		}
		mc.a = attr.id
		switch v := c.V.(type) {
		case nil:
			return reject("C11", "no value")
		case TempID:
			mc.v = mval{kind: 'r', u: uint64(temp(v))}
		case Ident, LookupRef:
			id := m.resolve(v)
			if id == 0 {
				return reject("*", "value ref resolves to nothing")
			}
			mc.v = toM(id)
		case Value:
			mc.v = toM(v)
		default:
			return reject("C11", "value is not one")
		}
		if mc.v.kind != attr.kind {
			return reject("C11", "value has the wrong type")
		}
		cs = append(cs, mc)
	}
	// Tempids that claim an identity value are the entity that has it, or one and the same.
	same := map[ID]ID{}
	find := func(id ID) ID {
		for same[id] != 0 {
			id = same[id]
		}
		return id
	}
	canon := func(v mval) mval {
		if v.kind == 'r' {
			v.u = uint64(find(ID(v.u)))
		}
		return v
	}
	for changed := true; changed; {
		changed = false
		unify := func(a, b ID) bool {
			a, b = find(a), find(b)
			switch {
			case a == b:
			case a > tx:
				same[a] = b
				changed = true
			case b > tx:
				same[b] = a
				changed = true
			default:
				return false
			}
			return true
		}
		for i, c := range cs {
			if !c.etemp || c.retract || m.attrs[c.a].unique != sys.AttrUniqueIdentity {
				continue
			}
			v := canon(c.v)
			if h := m.holder(c.a, v); h != 0 && !unify(c.e, h) {
				return reject("C05 C06", "tempid would be two entities")
			}
			for _, d := range cs[:i] {
				if d.etemp && !d.retract && d.a == c.a && canon(d.v) == v && !unify(c.e, d.e) {
					return reject("C05 C06", "tempid would be two entities")
				}
			}
		}
	}
	for i := range cs {
		cs[i].e = find(cs[i].e)
		cs[i].v = canon(cs[i].v)
	}
	for id := range retracted {
		for k := range m.data {
			if k.e == id {
				cs = append(cs, mclaim{e: k.e, a: k.a, v: k.v, retract: true})
			}
		}
	}
	n := m.clone()
	one := map[mkey]mval{}
	identGiven := map[ID]string{}
	becoming := map[ID]bool{}
	for _, c := range cs {
		if c.e < sys.FirstUserID {
			return reject("C10", "claim about a system entity")
		}
		attr := m.attrs[c.a]
		if !c.retract && !attr.many {
			if v, ok := one[mkey{e: c.e, a: c.a}]; ok && v != c.v {
				return reject("C07", "two values for a cardinality one attribute")
			}
			one[mkey{e: c.e, a: c.a}] = c.v
		}
		def, isAttr := m.attrs[c.e]
		switch c.a {
		case sys.DbIdent:
			switch {
			case strings.HasPrefix(c.v.s, "sys/"):
				return reject("C10", "reserved ident")
			case isAttr && c.retract:
				return reject("C08", "retracts the ident of an attribute")
			case isAttr && c.v.s != def.ident:
				return reject("C08", "changes the ident of an attribute")
			}
			if c.retract {
				if identGiven[c.e] == c.v.s {
					delete(identGiven, c.e)
				}
			} else {
				identGiven[c.e] = c.v.s
			}
		case sys.AttrType, sys.AttrCardinality, sys.AttrUnique:
			if c.retract {
				return reject("C08", "retracts an attribute definition")
			}
			var had ID
			switch c.a {
			case sys.AttrType:
				if _, ok := kindOfType[ID(c.v.u)]; !ok {
					return reject("C08", "invalid type")
				}
				had = def.typ
			case sys.AttrCardinality:
				if ID(c.v.u) != sys.AttrCardinalityOne && ID(c.v.u) != sys.AttrCardinalityMany {
					return reject("C08", "invalid cardinality")
				}
				had = def.card
			case sys.AttrUnique:
				if ID(c.v.u) != sys.AttrUniqueIdentity && ID(c.v.u) != sys.AttrUniqueValue {
					return reject("C08", "invalid uniqueness")
				}
				had = def.unique
			}
			if isAttr && had != ID(c.v.u) {
				return reject("C08", "changes an attribute definition")
			}
			if !isAttr {
				becoming[c.e] = true
			}
		}
		key := mkey{c.e, c.a, c.v}
		if c.retract {
			delete(n.data, key)
			continue
		}
		if _, ok := n.data[key]; ok {
			continue
		}
		if !attr.many {
			for k := range n.data {
				if k.e == c.e && k.a == c.a {
					delete(n.data, k)
				}
			}
		}
		n.data[key] = tx
	}
	for e := range becoming {
		if _, ok := identGiven[e]; !ok {
			return reject("C08", "attribute without an ident")
		}
		typed := false
		for k := range n.data {
			if k.e == e && k.a == sys.AttrType {
				typed = true
			}
		}
		if !typed {
			return reject("C08", "attribute without a type")
		}
	}
	for i, c := range cs {
		if c.retract || m.attrs[c.a].unique == 0 {
			continue
		}
		_ = i
		held := 0
		for k := range n.data {
			if k.a == c.a && k.v == c.v {
				held++
			}
		}
		if held > 1 {
			return reject("C05 C09", "unique value held by two entities")
		}
	}
	out.Next = n
	out.Tx = tx
	out.TempIDs = map[TempID]ID{}
	for t, id := range temps {
		out.TempIDs[t] = find(id)
	}
	return
}

// rename replaces the placeholders by the ids the implementation chose.
func (m *Model) rename(ids map[ID]ID) {
	r := func(id ID) ID {
		if id >= placeholder {
			return ids[id]
		}
		return id
	}
	var old []mdatum
	for k, t := range m.data {
		if k.e >= placeholder || t >= placeholder || (k.v.kind == 'r' && ID(k.v.u) >= placeholder) {
			old = append(old, mdatum{k, t})
		}
	}
	for _, d := range old {
		delete(m.data, d.mkey)
	}
	for _, d := range old {
		d.e = r(d.e)
		if d.v.kind == 'r' {
			d.v.u = uint64(r(ID(d.v.u)))
		}
		m.data[d.mkey] = r(d.t)
	}
}

// accept binds an accepted outcome to the ids of the response: it says what is wrong with
// them, or returns the next state.
func (m *Model) accept(out Outcome, res Response) (next *Model, wrong string) {
	if res.ID == 0 {
		return nil, "accepted write has no transaction id"
	}
	if res.ID < sys.FirstUserID || m.issued[res.ID] {
		return nil, fmt.Sprintf("transaction id %d is not new", res.ID)
	}
	if len(res.TempIDs) != len(out.TempIDs) {
		return nil, fmt.Sprintf("response resolves tempids %v, expected those of %v", res.TempIDs, out.TempIDs)
	}
	ids := map[ID]ID{out.Tx: res.ID}
	back := map[ID]ID{res.ID: out.Tx}
	for t, id := range out.TempIDs {
		got, ok := res.TempIDs[t]
		switch {
		case !ok || got == 0:
			return nil, fmt.Sprintf("response does not resolve tempid %q", t)
		case id < placeholder:
			if got != id {
				return nil, fmt.Sprintf("tempid %q resolved to %d, expected the existing entity %d", t, got, id)
			}
			continue
		case got < sys.FirstUserID || m.issued[got]:
			return nil, fmt.Sprintf("tempid %q resolved to %d, which is not new", t, got)
		}
		if prev, ok := ids[id]; ok && prev != got {
			return nil, fmt.Sprintf("tempid %q resolved to %d, expected %d", t, got, prev)
		}
		if prev, ok := back[got]; ok && prev != id {
			return nil, fmt.Sprintf("tempid %q resolved to %d, which is another new entity of the request", t, got)
		}
		ids[id] = got
		back[got] = id
	}
	next = out.Next
	next.rename(ids)
	issued := make(map[ID]bool, len(m.issued)+len(back))
	for id := range m.issued {
		issued[id] = true
	}
	for id := range back {
		issued[id] = true
	}
	next.issued = issued
	next.derive()
	return
}

// Select answers a query.
func (m *Model) Select(c Claim) (out []mdatum) {
	var e, a ID
	var v *mval
	if c.E != nil && c.E != ERef(ID(0)) {
		if e = m.resolve(c.E); e == 0 {
			return
		}
	}
	if c.A != nil && c.A != IDRef(ID(0)) {
		if a = m.resolve(c.A); a == 0 {
			return
		}
	}
	switch x := c.V.(type) {
	case nil:
	case Value:
		mv := toM(x)
		v = &mv
	default:
		id := m.resolve(x)
		if id == 0 {
			return
		}
		mv := toM(id)
		v = &mv
	}
	for k, t := range m.data {
		if (e == 0 || k.e == e) && (a == 0 || k.a == a) && (v == nil || k.v == *v) {
			out = append(out, mdatum{k, t})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].cmp(out[j].mkey) < 0 })
	return
}
