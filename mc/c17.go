package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	pdb "github.com/dball/destructive/pkg/database"
)

func init() { register("C17", c17) }

// The grammar of structs of scalars: forms of one, two or five fields, over the scalar types,
// the pointers to them and types defined as them.

type fPlain[A any] struct {
	A A `attr:"a"`
}
type fID[A any] struct {
	ID uint64 `attr:"sys/db/id"`
	A  A      `attr:"a"`
}
type fLast[A any] struct {
	Skip  string
	A     A `attr:"a"`
	skip  int
	Note  *int
	Other map[string]chan int
	ID    uint64 `attr:"sys/db/id"`
}
type fIdentity[A any] struct {
	A A `attr:"a,identity"`
}
type fUnique[A any] struct {
	ID uint64 `attr:"sys/db/id"`
	A  A      `attr:"a,unique"`
}
type fIgnore[A any] struct {
	B int `attr:"b"`
	A A   `attr:"a,ignoreempty"`
}
type fIdentityIgnore[A any] struct {
	ID uint64 `attr:"sys/db/id"`
	B  int    `attr:"b"`
	A  A      `attr:"a,identity,ignoreempty"`
}
type fIgnoreUnique[A any] struct {
	A A   `attr:"a,ignoreempty,unique"`
	B int `attr:"b"`
}
type fTwo[A, B any] struct {
	ID   uint64 `attr:"sys/db/id"`
	A    A      `attr:"a"`
	Skip *time.Time
	B    B `attr:"b"`
}
type fTwoRev[A, B any] struct {
	B B `attr:"b"`
	A A `attr:"a"`
}
type fFive struct {
	S string    `attr:"s"`
	I int       `attr:"i"`
	B bool      `attr:"b"`
	F float64   `attr:"f"`
	T time.Time `attr:"t"`
}
type fFiveP struct {
	T  *time.Time `attr:"t"`
	F  *float64   `attr:"f"`
	B  *bool      `attr:"b"`
	ID uint64     `attr:"sys/db/id"`
	I  *int       `attr:"i"`
	S  *string    `attr:"s"`
}
type fFiveMixed struct {
	I *int    `attr:"i"`
	S string  `attr:"s"`
	F float64 `attr:"f"`
	X *string `attr:"x"`
	Y bool    `attr:"y"`
}

// Structs of attributes whose idents differ by little.
type fNear struct {
	F0  string `attr:"n/k"`
	F1  string `attr:"n/K"`
	F2  string `attr:"N/k"`
	F3  string `attr:"n/k "`
	F4  string `attr:" n/k"`
	F5  string `attr:"n/kk"`
	F6  string `attr:"n/"`
	F7  string `attr:"n"`
	F8  string `attr:"n/k/k"`
	F9  string `attr:"n-k"`
	F10 string `attr:"n_k"`
	F11 string `attr:"nk"`
	F12 string `attr:".n/k"`
	F13 string `attr:"n/é"`
	F14 string `attr:"n/É"`
	F15 string `attr:"n/e\u0301"`
	F16 string `attr:"n/K"`
	F17 string `attr:"n/ſ"`
	F18 string `attr:"n/s"`
	F19 string `attr:"n/S"`
	F20 string `attr:"key=n/k"`
	F21 string `attr:"identity"`
	F22 string `attr:"system/x"`
	F23 string `attr:"Sys/x"`
	F24 string `attr:"0"`
}
type fNearP struct {
	ID  uint64  `attr:"sys/db/id"`
	F24 *string `attr:"0"`
	F23 *string `attr:"Sys/x"`
	F22 *string `attr:"system/x"`
	F21 *string `attr:"identity"`
	F20 *string `attr:"key=n/k"`
	F19 *string `attr:"n/S"`
	F18 *string `attr:"n/s"`
	F17 *string `attr:"n/ſ"`
	F16 *string `attr:"n/K"`
	F15 *string `attr:"n/e\u0301"`
	F14 *string `attr:"n/É"`
	F13 *string `attr:"n/é"`
	F12 *string `attr:".n/k"`
	F11 *string `attr:"nk"`
	F10 *string `attr:"n_k"`
	F9  *string `attr:"n-k"`
	F8  *string `attr:"n/k/k"`
	F7  *string `attr:"n"`
	F6  *string `attr:"n/"`
	F5  *string `attr:"n/kk"`
	F4  *string `attr:" n/k"`
	F3  *string `attr:"n/k "`
	F2  *string `attr:"N/k"`
	F1  *string `attr:"n/K"`
	F0  *string `attr:"n/k"`
}

type nString string
type nInt int
type nBool bool
type nFloat float64

// Types of the same name, as functions may declare.
func sameNameA() sview {
	type same struct {
		S string  `attr:"s"`
		I int     `attr:"i"`
		F float64 `attr:"f"`
	}
	return viewOf[same]()
}
func sameNameB() sview {
	type same struct {
		I    int `attr:"i"`
		Skip *int
		S    string  `attr:"s"`
		G    string  `attr:"g"`
		F    float64 `attr:"f"`
	}
	return viewOf[same]()
}
func sameNameC() sview {
	type same struct {
		F  *float64 `attr:"f"`
		ID uint64   `attr:"sys/db/id"`
		I  *int     `attr:"i"`
		S  *string  `attr:"s"`
	}
	return viewOf[same]()
}

// A form is a family of types, by the types of its fields.
type sform struct {
	name  string
	types map[[2]reflect.Type]sview
}

var sforms = map[string]map[[2]reflect.Type]sview{}

func addForm[T any](form string, ts ...reflect.Type) {
	if sforms[form] == nil {
		sforms[form] = map[[2]reflect.Type]sview{}
	}
	var k [2]reflect.Type
	copy(k[:], ts)
	sforms[form][k] = viewOf[T]()
}

func forms1[A any]() {
	a := reflect.TypeFor[A]()
	addForm[fPlain[A]]("plain", a)
	addForm[fID[A]]("id", a)
	addForm[fLast[A]]("last", a)
	addForm[fIdentity[A]]("identity", a)
	addForm[fUnique[A]]("unique", a)
	addForm[fIgnore[A]]("ignore", a)
	addForm[fIdentityIgnore[A]]("identity,ignore", a)
	addForm[fIgnoreUnique[A]]("ignore,unique", a)
}

func forms2[A, B any]() {
	a, b := reflect.TypeFor[A](), reflect.TypeFor[B]()
	addForm[fTwo[A, B]]("two", a, b)
	addForm[fTwoRev[A, B]]("two reversed", a, b)
}

func forms12[A any]() {
	forms1[A]()
	forms2[A, string]()
	forms2[A, *string]()
	forms2[A, int]()
	forms2[A, *int]()
	forms2[A, bool]()
	forms2[A, *bool]()
	forms2[A, float64]()
	forms2[A, *float64]()
	forms2[A, time.Time]()
	forms2[A, *time.Time]()
}

func allForms() {
	if sforms["plain"] != nil {
		return
	}
	forms12[string]()
	forms12[*string]()
	forms12[int]()
	forms12[*int]()
	forms12[bool]()
	forms12[*bool]()
	forms12[float64]()
	forms12[*float64]()
	forms12[time.Time]()
	forms12[*time.Time]()
	forms1[nString]()
	forms1[*nString]()
	forms1[nInt]()
	forms1[*nInt]()
	forms1[nBool]()
	forms1[*nBool]()
	forms1[nFloat]()
	forms1[*nFloat]()
	viewOf[fFive]()
	viewOf[fFiveP]()
	viewOf[fFiveMixed]()
}

var zone = time.FixedZone("z", -5*3600-1800)

// scalarsOf are values of a scalar type; more of them if asked.
func scalarsOf(t reflect.Type, n int) (out []reflect.Value) {
	var xs []any
	switch {
	case t == reflect.TypeFor[time.Time]():
		xs = []any{time.Time{}, time.UnixMilli(1_600_000_000_123).UTC(), time.UnixMilli(-1).In(zone), time.Unix(0, 999_999).UTC(), time.Unix(0, 0), time.Unix(-3, 1_500_001),
			time.Date(9999, 12, 31, 23, 59, 59, 999_999_999, zone), time.Date(-200, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2024, 2, 29, 12, 0, 0, 1000, time.UTC)}
	case t.Kind() == reflect.String:
		xs = []any{"", "a", "b\x00\xff", "é世", "A", " ", strings.Repeat("long", 100), "sys/db/id", "a,b"}
	case t.Kind() == reflect.Int:
		xs = []any{0, -1, math.MaxInt, math.MinInt, 1, 10, 1 << 32, -1 << 33, 1 << 53}
	case t.Kind() == reflect.Bool:
		xs = []any{false, true}
	case t.Kind() == reflect.Float64:
		xs = []any{0.0, -1.5, math.Inf(1), math.NaN(), math.Copysign(0, -1), 1.0, math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -5e-324, 1e16 + 2, 0.1}
	}
	for i, x := range xs {
		if i < n {
			out = append(out, reflect.ValueOf(x).Convert(t))
		}
	}
	return
}

// fieldValues are values of a type of field: those of the scalar, and nil.
func fieldValues(t reflect.Type, n int) (out []reflect.Value) {
	if t.Kind() != reflect.Pointer {
		return scalarsOf(t, n)
	}
	out = append(out, reflect.Zero(t))
	for _, s := range scalarsOf(t.Elem(), n) {
		p := reflect.New(t.Elem())
		p.Elem().Set(s)
		out = append(out, p)
	}
	return
}

// recorded is what a flat struct says of its attributes.
func recorded(x reflect.Value) map[string]mval {
	out := map[string]mval{}
	for _, f := range sfields(x.Type()) {
		if f.isID {
			continue
		}
		v := x.Field(f.index)
		if v.Kind() == reflect.Pointer {
			if v.IsNil() {
				continue
			}
			v = v.Elem()
		}
		val := toValue(v)
		if f.ignoreEmpty && isEmpty(val) {
			continue
		}
		out[f.ident] = toM(val)
	}
	return out
}

// asView is the struct of the type that has the recorded attributes.
func asView(t reflect.Type, rec map[string]mval, id uint64) reflect.Value {
	p := reflect.New(t)
	for _, f := range sfields(t) {
		fv := p.Elem().Field(f.index)
		if f.isID {
			fv.SetUint(id)
			continue
		}
		m, ok := rec[f.ident]
		if !ok {
			continue
		}
		if fv.Kind() == reflect.Pointer {
			fv.Set(reflect.New(fv.Type().Elem()))
			fv = fv.Elem()
		}
		setScalar(fv, m)
	}
	return p
}

// other is the type with a pointer instead of a value, or the reverse.
func otherForm(t reflect.Type) reflect.Type {
	if t.Kind() == reflect.Pointer {
		return t.Elem()
	}
	return reflect.PointerTo(t)
}

func inserted(ch *Ch, db pdb.Database, x reflect.Value) uint64 {
	var arg any = x.Interface()
	if x.Kind() != reflect.Pointer {
		panic(machineryError("pointer wanted"))
	}
	if ch.Bool() {
		arg = x.Elem().Interface()
	}
	before := show(arg)
	res := mustWrite(ch, db, arg)
	if after := show(arg); after != before {
		ch.Fail("writing changes the struct from %s to %s", before, after)
	}
	return res.IDs[0]
}

func c17(c *Ctx) {
	allForms()
	c.assume("values of each scalar type are taken from lists of boundary values; structs without any value to record are left out")
	types := []reflect.Type{reflect.TypeFor[string](), reflect.TypeFor[int](), reflect.TypeFor[bool](), reflect.TypeFor[float64](), reflect.TypeFor[time.Time]()}
	var all []reflect.Type
	for _, t := range types {
		all = append(all, t, reflect.PointerTo(t))
	}
	named := []reflect.Type{}
	for _, t := range []reflect.Type{reflect.TypeFor[nString](), reflect.TypeFor[nInt](), reflect.TypeFor[nBool](), reflect.TypeFor[nFloat]()} {
		named = append(named, t, reflect.PointerTo(t))
	}
	one := []string{"plain", "id", "last", "identity", "unique", "ignore", "identity,ignore", "ignore,unique"}
	configs := []pdb.Config{smallConfig, {}}
	// check finds the entity as every type that goes with it.
	check := func(ch *Ch, s *pdb.Snapshot, where string, id uint64, rec map[string]mval, as []sview) {
		for _, v := range as {
			mustFind(ch, where, s, v, id, asView(v.typ, rec, id).Interface())
		}
	}
	nvals := c.bound(9, 99)
	c.Explore("one field", func(ch *Ch) {
		form := one[ch.Pick(len(one))]
		ts := append(append([]reflect.Type{}, all...), named...)
		t := ts[ch.Pick(len(ts))]
		v := sforms[form][[2]reflect.Type{t}]
		vals := fieldValues(t, nvals)
		x := reflect.New(v.typ)
		i := ch.Pick(len(vals))
		set := func(x reflect.Value, val reflect.Value) {
			x.Elem().FieldByName("A").Set(val)
			if b := x.Elem().FieldByName("B"); b.IsValid() {
				b.SetInt(7)
			}
			if s := x.Elem().FieldByName("Skip"); s.IsValid() && s.Kind() == reflect.String {
				s.SetString("skipped")
			}
		}
		set(x, vals[i])
		rec := recorded(x.Elem())
		if len(rec) == 0 {
			ch.Prune()
		}
		db := pdb.NewDatabase(configs[ch.Pick(2)])
		// Others of its kind may have been recorded before, or be after.
		neighbour := func() (uint64, map[string]mval) {
			for j := range vals {
				y := reflect.New(v.typ)
				set(y, vals[(i+1+j)%len(vals)])
				r := recorded(y.Elem())
				if len(r) == 0 || reflect.DeepEqual(r, rec) {
					continue
				}
				return mustWrite(ch, db, y.Interface()).IDs[0], r
			}
			return 0, nil
		}
		var nid uint64
		var nrec map[string]mval
		when := ch.Pick(3)
		if when == 1 {
			nid, nrec = neighbour()
		}
		id := inserted(ch, db, x)
		if when == 2 {
			nid, nrec = neighbour()
		}
		var as []sview
		for _, f := range []string{"plain", "id", "last"} {
			as = append(as, sforms[f][[2]reflect.Type{t}], sforms[f][[2]reflect.Type{otherForm(t)}])
		}
		for _, f := range []string{form} {
			as = append(as, sforms[f][[2]reflect.Type{t}], sforms[f][[2]reflect.Type{otherForm(t)}])
		}
		check(ch, db.Read(), "a read", id, rec, as)
		if nid != 0 {
			if nid == id {
				ch.Fail("two different structs are recorded as the same entity %d", id)
			}
			check(ch, db.Read(), "a read", nid, nrec, as)
		}
		ch.State(hashString(form + t.String() + fmt.Sprint(rec)))
	})
	n2 := c.bound(3, 6)
	c.Explore("two fields", func(ch *Ch) {
		ta, tb := all[ch.Pick(len(all))], all[ch.Pick(len(all))]
		form := []string{"two", "two reversed"}[ch.Pick(2)]
		v := sforms[form][[2]reflect.Type{ta, tb}]
		va, vb := fieldValues(ta, n2), fieldValues(tb, n2)
		x := reflect.New(v.typ)
		x.Elem().FieldByName("A").Set(va[ch.Pick(len(va))])
		x.Elem().FieldByName("B").Set(vb[ch.Pick(len(vb))])
		if s := x.Elem().FieldByName("Skip"); s.IsValid() {
			s.Set(reflect.ValueOf(&time.Time{}))
		}
		rec := recorded(x.Elem())
		if len(rec) == 0 {
			ch.Prune()
		}
		db := pdb.NewDatabase(smallConfig)
		arg := x.Interface()
		if ch.Bool() {
			arg = x.Elem().Interface()
		}
		res := mustWrite(ch, db, arg)
		var as []sview
		for _, a := range []reflect.Type{ta, otherForm(ta)} {
			for _, b := range []reflect.Type{tb, otherForm(tb)} {
				as = append(as, sforms["two"][[2]reflect.Type{a, b}], sforms["two reversed"][[2]reflect.Type{a, b}])
			}
			as = append(as, sforms["plain"][[2]reflect.Type{a}])
		}
		check(ch, res.Snap, "the response", res.IDs[0], rec, as)
		check(ch, db.Read(), "a read", res.IDs[0], rec, as[:1])
		ch.State(hashString(form + ta.String() + tb.String() + fmt.Sprint(rec)))
	})
	five := []sview{viewOf[fFive](), viewOf[fFiveP](), viewOf[fFiveMixed]()}
	n5 := c.bound(2, 4)
	c.Explore("five fields", func(ch *Ch) {
		v := five[ch.Pick(len(five))]
		x := reflect.New(v.typ)
		for _, f := range sfields(v.typ) {
			if f.isID {
				continue
			}
			vals := fieldValues(f.typ, n5)
			x.Elem().Field(f.index).Set(vals[ch.Pick(len(vals))])
		}
		rec := recorded(x.Elem())
		if len(rec) == 0 {
			ch.Prune()
		}
		db := pdb.NewDatabase(smallConfig)
		if ch.Bool() {
			t := time.UnixMilli(5).UTC()
			mustWrite(ch, db, fFiveP{T: &t}, fFive{S: "s", I: 3})
		}
		id := inserted(ch, db, x)
		check(ch, db.Read(), "a read", id, rec, five)
		ch.State(hashString(v.typ.String() + fmt.Sprint(rec)))
	})
	near, nearP := viewOf[fNear](), viewOf[fNearP]()
	c.Explore("idents that differ by little", func(ch *Ch) {
		n := near.typ.NumField()
		i, j := ch.Pick(n), ch.Pick(n)
		db := pdb.NewDatabase(smallConfig)
		var x reflect.Value
		switch how := ch.Pick(4); {
		case how == 0 && i != j:
			// a type of the two alone
			x = reflect.New(reflect.StructOf([]reflect.StructField{near.typ.Field(i), near.typ.Field(j)}))
			x.Elem().Field(0).SetString("first")
			x.Elem().Field(1).SetString("second")
		case how == 1:
			// one after the other
			x = reflect.New(reflect.StructOf([]reflect.StructField{near.typ.Field(i)}))
			y := reflect.New(reflect.StructOf([]reflect.StructField{near.typ.Field(j)}))
			x.Elem().Field(0).SetString("first")
			y.Elem().Field(0).SetString("second")
			id := inserted(ch, db, y)
			defer func() { check(ch, db.Read(), "a read", id, recorded(y.Elem()), []sview{nearP}) }()
		case how == 2 && i < j:
			// some of a type of all
			x = reflect.New(nearP.typ)
			x.Elem().Field(1 + i).Set(reflect.ValueOf(ptr("first")))
			x.Elem().Field(1 + j).Set(reflect.ValueOf(ptr("second")))
		case how == 3 && i == 0:
			// all at once
			x = reflect.New(near.typ)
			for k := range n {
				x.Elem().Field(k).SetString(fmt.Sprint((k + j) % n))
			}
		default:
			ch.Prune()
		}
		id := inserted(ch, db, x)
		check(ch, db.Read(), "a read", id, recorded(x.Elem()), []sview{nearP, near})
	})
	same := []sview{sameNameA(), sameNameB(), sameNameC()}
	c.Explore("types of the same name", func(ch *Ch) {
		db := pdb.NewDatabase(configs[ch.Pick(2)])
		order := permutation(ch, len(same))
		look := permutation(ch, len(same))
		together := ch.Bool()
		var ids []uint64
		var recs []map[string]mval
		var xs []any
		for i, j := range order {
			x := reflect.New(same[j].typ)
			for _, f := range sfields(same[j].typ) {
				if f.isID {
					continue
				}
				vals := fieldValues(f.typ, 4)
				x.Elem().Field(f.index).Set(vals[len(vals)-1-i%2])
			}
			recs = append(recs, recorded(x.Elem()))
			if together {
				xs = append(xs, x.Interface())
				continue
			}
			ids = append(ids, mustWrite(ch, db, x.Interface()).IDs[0])
		}
		if together {
			ids = mustWrite(ch, db, xs...).IDs
		}
		for _, j := range look {
			for i, id := range ids {
				check(ch, db.Read(), "a read", id, recs[i], same[j:j+1])
			}
		}
		ch.State(hashString(fmt.Sprint(order, look, recs)))
	})
	// Several structs in one request, of one type or of types that share attributes.
	c.Explore("several structs in a request", func(ch *Ch) {
		k := 2 + ch.Pick(2)
		var xs []any
		var recs []map[string]mval
		ts := []sview{five[0], five[1], viewOf[fPlain[string]](), viewOf[fTwoRev[string, bool]]()}
		for i := range k {
			v := ts[ch.Pick(len(ts))]
			x := reflect.New(v.typ)
			which := ch.Pick(2)
			for _, f := range sfields(v.typ) {
				if f.isID {
					continue
				}
				vals := fieldValues(f.typ, 3)
				if len(vals) > 2 {
					vals = vals[len(vals)-2:]
				}
				x.Elem().Field(f.index).Set(vals[(which+i)%len(vals)])
			}
			recs = append(recs, recorded(x.Elem()))
			if ch.Bool() {
				xs = append(xs, x.Interface())
			} else {
				xs = append(xs, x.Elem().Interface())
			}
		}
		db := pdb.NewDatabase(smallConfig)
		res := mustWrite(ch, db, xs...)
		for i := range xs {
			t := reflect.TypeOf(xs[i])
			if t.Kind() == reflect.Pointer {
				t = t.Elem()
			}
			for j := range i {
				if res.IDs[i] == res.IDs[j] {
					ch.Fail("two structs are recorded as one: ids %v", res.IDs)
				}
			}
			check(ch, res.Snap, "the response", res.IDs[i], recs[i], []sview{sviews[t]})
			check(ch, db.Read(), "a read", res.IDs[i], recs[i], append([]sview{sviews[t]}, five...)[:1])
		}
		ch.State(hashString(fmt.Sprint(recs)))
	})
}
