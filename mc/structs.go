package main

import (
	"cmp"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
	pdb "github.com/dball/destructive/pkg/database"
)

// sview finds entities as structs of one type.
type sview struct {
	typ  reflect.Type
	find func(s *pdb.Snapshot, id uint64) (any, error)
	// typed finds again and again with one typed snapshot.
	typed func(s *pdb.Snapshot) func(id uint64) any
}

var sviews = map[reflect.Type]sview{}

func viewOf[T any]() sview {
	typ := reflect.TypeFor[T]()
	if v, ok := sviews[typ]; ok {
		return v
	}
	v := sview{typ, func(s *pdb.Snapshot, id uint64) (any, error) {
		ts, err := pdb.BuildTypedSnapshot[T](s)
		if err != nil {
			return nil, err
		}
		p := ts.Find(id)
		if p == nil {
			return nil, nil
		}
		return p, nil
	}, func(s *pdb.Snapshot) func(id uint64) any {
		ts, err := pdb.BuildTypedSnapshot[T](s)
		if err != nil {
			return func(uint64) any { return nil }
		}
		return func(id uint64) any {
			if p := ts.Find(id); p != nil {
				return p
			}
			return nil
		}
	}}
	sviews[typ] = v
	return v
}

// datumsOf is the snapshot of datums within the snapshot of structs.
func datumsOf(s *pdb.Snapshot) Snapshot {
	v := reflect.ValueOf(s).Elem()
	want := reflect.TypeFor[Snapshot]()
	for i := range v.NumField() {
		if v.Field(i).Type() == want {
			return *(*Snapshot)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
		}
	}
	return nil
}

var scalarIDs = map[reflect.Kind]ID{reflect.Bool: tBool, reflect.Int: tInt, reflect.String: tString, reflect.Float64: tFloat}

// scalarType is the attribute type of the go type, if it is that of a scalar.
func scalarType(t reflect.Type) ID {
	if t == TimeType {
		return tInst
	}
	return scalarIDs[t.Kind()]
}

// sfield is a tagged field, as documented.
type sfield struct {
	index       int
	ident       string
	isID        bool
	unique      ID
	ignoreEmpty bool
	key, value  string
	typ         reflect.Type
	err         string // not a field that can be modelled
}

func (f sfield) attrType() ID {
	t := f.typ
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	if s := scalarType(t); s != 0 {
		return s
	}
	return tRef
}

func (f sfield) many() bool { return f.typ.Kind() == reflect.Map || f.typ.Kind() == reflect.Slice }

// child is the struct type the field refers to, if any.
func (f sfield) child() reflect.Type {
	t := f.typ
	switch t.Kind() {
	case reflect.Map, reflect.Slice:
		if f.value != "" {
			return nil
		}
		t = t.Elem()
	}
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	if t.Kind() == reflect.Struct && t != TimeType {
		return t
	}
	return nil
}

var sfieldCache sync.Map

func sfields(t reflect.Type) []sfield {
	if fs, ok := sfieldCache.Load(t); ok {
		return fs.([]sfield)
	}
	fs := parseFields(t)
	sfieldCache.Store(t, fs)
	return fs
}

func parseFields(t reflect.Type) (out []sfield) {
	for i := range t.NumField() {
		sf := t.Field(i)
		tag, ok := sf.Tag.Lookup("attr")
		if !ok {
			continue
		}
		parts := strings.Split(tag, ",")
		f := sfield{index: i, ident: parts[0], typ: sf.Type}
		f.isID = f.ident == sys.DbId
		if !sf.IsExported() {
			f.err = "unexported"
		}
		for _, p := range parts[1:] {
			switch {
			case p == "identity" || p == "unique":
				if f.unique != 0 {
					f.err = "two uniquenesses"
				}
				f.unique = uIdent
				if p == "unique" {
					f.unique = uValue
				}
			case p == "ignoreempty":
				f.ignoreEmpty = true
			case strings.HasPrefix(p, "key="):
				f.key = p[4:]
			case strings.HasPrefix(p, "value="):
				f.value = p[6:]
			default:
				f.err = "unknown directive"
			}
		}
		t := sf.Type
		switch {
		case f.isID:
			if t.Kind() != reflect.Uint64 {
				f.err = "id of another type"
			}
		case scalarType(t) != 0 || t.Kind() == reflect.Struct:
		case t.Kind() == reflect.Pointer && (scalarType(t.Elem()) != 0 || t.Elem().Kind() == reflect.Struct):
		case t.Kind() == reflect.Map || t.Kind() == reflect.Slice:
		default:
			f.err = "unsupported type"
		}
		out = append(out, f)
	}
	return
}

// toValue is the datum value of a scalar.
func toValue(v reflect.Value) Value {
	if t, ok := v.Interface().(time.Time); ok {
		return Inst(t)
	}
	switch v.Kind() {
	case reflect.Bool:
		return Bool(v.Bool())
	case reflect.Int:
		return Int(v.Int())
	case reflect.String:
		return String(v.String())
	case reflect.Float64:
		return Float(v.Float())
	}
	panic(machineryError("not a scalar: " + v.Type().String()))
}

// isEmpty tells what a field that ignores empty values ignores.
func isEmpty(v Value) bool {
	switch v := v.(type) {
	case Inst:
		return time.Time(v).Equal(time.Time{})
	case Bool:
		return !bool(v)
	case Int:
		return v == 0
	case String:
		return v == ""
	case Float:
		return v == 0
	}
	panic(machineryError("not a scalar"))
}

func setScalar(dst reflect.Value, m mval) {
	switch m.kind {
	case 's':
		dst.SetString(m.s)
	case 'i':
		dst.SetInt(m.n)
	case 'b':
		dst.SetBool(m.u == 1)
	case 'f':
		dst.SetFloat(float64(m.toV().(Float)))
	case 't':
		dst.Set(reflect.ValueOf(time.Time(m.toV().(Inst))))
	default:
		panic(machineryError("not a scalar"))
	}
}

// iso compares a struct that was written with one that was found: equal up to ids that were
// not given, instants to the millisecond, nil maps and slices being empty ones.
type iso struct {
	fwd, back map[unsafe.Pointer]unsafe.Pointer
	ids       map[isoKey]unsafe.Pointer
	anyID     bool // the ids differ
	exact     bool // an id of zero is expected, not one that was not known
}

// isoKey identifies what there is to be one struct of.
type isoKey struct {
	id uint64
	t  reflect.Type
}

func isoEqual(want, got any) string { return isoCompare(want, got, false) }

func isoExact(want, got any) string {
	c := newIso()
	c.exact = true
	return c.eq(reflect.ValueOf(want), reflect.ValueOf(got), "it")
}

func newIso() *iso {
	return &iso{fwd: map[unsafe.Pointer]unsafe.Pointer{}, back: map[unsafe.Pointer]unsafe.Pointer{}, ids: map[isoKey]unsafe.Pointer{}}
}

// isoCompare compares up to ids altogether, if anyID.
func isoCompare(want, got any, anyID bool) string {
	c := newIso()
	c.anyID = anyID
	g := reflect.ValueOf(got)
	w := reflect.ValueOf(want)
	if w.Kind() == reflect.Struct {
		p := reflect.New(w.Type())
		p.Elem().Set(w)
		w = p
	}
	return c.eq(w, g, "it")
}

func (c *iso) eq(w, g reflect.Value, path string) string {
	t := w.Type()
	if g.Type() != t {
		return fmt.Sprintf("%s is a %v, expected a %v", path, g.Type(), t)
	}
	if scalarType(t) != 0 {
		if a, b := toM(toValue(w)), toM(toValue(g)); a != b && !(a.kind == 'f' && cmp.Compare(w.Float(), g.Float()) == 0) {
			return fmt.Sprintf("%s is %v, expected %v", path, b, a)
		}
		return ""
	}
	switch t.Kind() {
	case reflect.Pointer:
		if w.IsNil() != g.IsNil() {
			return fmt.Sprintf("%s is nil: %v, expected %v", path, g.IsNil(), w.IsNil())
		}
		if w.IsNil() {
			return ""
		}
		if t.Elem().Kind() == reflect.Struct && t.Elem() != TimeType {
			wp, gp := w.UnsafePointer(), g.UnsafePointer()
			f, fok := c.fwd[wp]
			b, bok := c.back[gp]
			if fok || bok {
				if f != gp || b != wp {
					return fmt.Sprintf("%s does not point to the same struct as its other occurrences", path)
				}
				return ""
			}
			c.fwd[wp], c.back[gp] = gp, wp
			for _, sf := range sfields(t.Elem()) {
				if sf.isID {
					id := g.Elem().Field(sf.index).Uint()
					k := isoKey{id, t.Elem()}
					if o, ok := c.ids[k]; ok && o != gp && !((c.anyID || c.exact) && id == 0) {
						return fmt.Sprintf("%s has the id %d of another struct", path, id)
					}
					c.ids[k] = gp
				}
			}
		}
		return c.eq(w.Elem(), g.Elem(), path)
	case reflect.Struct:
		tagged := map[int]sfield{}
		for _, f := range sfields(t) {
			tagged[f.index] = f
		}
		for i := range t.NumField() {
			p := path + "." + t.Field(i).Name
			f, ok := tagged[i]
			switch {
			case !ok:
				if !g.Field(i).IsZero() {
					return p + " has a value, though it has no tag"
				}
			case f.isID:
				wid, gid := w.Field(i).Uint(), g.Field(i).Uint()
				if c.anyID && (gid == 0) == (wid == 0) {
					continue
				}
				if c.exact && gid == wid {
					continue
				}
				if gid == 0 || (wid != 0 && wid != gid) {
					return fmt.Sprintf("%s is %d, expected %d", p, gid, wid)
				}
			case f.typ.Kind() == reflect.Map && (f.key == "" || f.key == sys.DbId):
				if s := c.byID(f, w.Field(i), g.Field(i), p); s != "" {
					return s
				}
			default:
				if s := c.eq(w.Field(i), g.Field(i), p); s != "" {
					return s
				}
			}
		}
		return ""
	case reflect.Map:
		if w.Len() != g.Len() {
			return fmt.Sprintf("%s has %d entries, expected %d", path, g.Len(), w.Len())
		}
		keys := w.MapKeys()
		for _, k := range keys {
			gv := findKey(g, k)
			p := fmt.Sprintf("%s[%v]", path, k)
			if !gv.IsValid() {
				return p + " is missing"
			}
			if s := c.eq(w.MapIndex(k), gv, p); s != "" {
				return s
			}
		}
		return ""
	case reflect.Slice:
		if w.Len() != g.Len() {
			return fmt.Sprintf("%s has %d elements, expected %d", path, g.Len(), w.Len())
		}
		for i := range w.Len() {
			if s := c.eq(w.Index(i), g.Index(i), fmt.Sprintf("%s[%d]", path, i)); s != "" {
				return s
			}
		}
		return ""
	}
	panic(machineryError("iso: " + t.String()))
}

func findKey(m, k reflect.Value) reflect.Value {
	if t, ok := k.Interface().(time.Time); ok {
		// Keys are instants to the millisecond, in UTC.
		return m.MapIndex(reflect.ValueOf(time.UnixMilli(t.UnixMilli()).UTC()))
	}
	return m.MapIndex(k)
}

// byID compares maps keyed by id, whose keys were not known when they were written.
func (c *iso) byID(f sfield, w, g reflect.Value, path string) string {
	if w.Len() != g.Len() {
		return fmt.Sprintf("%s has %d entries, expected %d", path, g.Len(), w.Len())
	}
	used := map[uint64]bool{}
	wkeys := w.MapKeys()
	sort.Slice(wkeys, func(i, j int) bool { return wkeys[i].Uint() < wkeys[j].Uint() })
	for _, k := range g.MapKeys() {
		v := g.MapIndex(k)
		if v.Kind() == reflect.Pointer {
			if v.IsNil() {
				return path + " has a nil"
			}
			v = v.Elem()
		}
		for _, sf := range sfields(v.Type()) {
			if sf.isID && v.Field(sf.index).Uint() != k.Uint() {
				return fmt.Sprintf("%s[%v] has the id %d", path, k, v.Field(sf.index).Uint())
			}
		}
	}
	last := ""
	for _, wk := range wkeys {
		found := false
		for _, gk := range g.MapKeys() {
			if used[gk.Uint()] {
				continue
			}
			try := &iso{cloneMap(c.fwd), cloneMap(c.back), cloneMap(c.ids), c.anyID, c.exact}
			last = try.eq(w.MapIndex(wk), g.MapIndex(gk), fmt.Sprintf("%s[%v]", path, gk))
			if last == "" {
				*c = *try
				used[gk.Uint()] = true
				found = true
				break
			}
		}
		if !found {
			return fmt.Sprintf("%s has no entry like the one written as %v (%s)", path, wk, last)
		}
	}
	return ""
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	c := make(map[K]V, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

// show prints a graph of structs; structs that occur more than once are numbered.
func show(x any) string {
	var b strings.Builder
	seen := map[unsafe.Pointer]int{}
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		t := v.Type()
		if scalarType(t) != 0 {
			b.WriteString(toM(toValue(v)).String())
			return
		}
		switch t.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			if t.Elem().Kind() == reflect.Struct && t.Elem() != TimeType {
				if n, ok := seen[v.UnsafePointer()]; ok {
					fmt.Fprintf(&b, "^%d", n)
					return
				}
				seen[v.UnsafePointer()] = len(seen) + 1
				fmt.Fprintf(&b, "&%d:", len(seen))
			} else {
				b.WriteString("&")
			}
			rec(v.Elem())
		case reflect.Struct:
			b.WriteString(strings.NewReplacer("github.com/dball/destructive/internal/", "", "main.", "", "verifmc.", "").Replace(t.Name()) + "{")
			for i := range t.NumField() {
				if i > 0 {
					b.WriteString(" ")
				}
				if !t.Field(i).IsExported() {
					continue
				}
				b.WriteString(t.Field(i).Name + ":")
				rec(v.Field(i))
			}
			b.WriteString("}")
		case reflect.Map:
			b.WriteString("[")
			type entry struct {
				key string
				v   reflect.Value
			}
			var entries []entry
			for it := v.MapRange(); it.Next(); {
				entries = append(entries, entry{fmt.Sprint(it.Key()), it.Value()})
			}
			sort.SliceStable(entries, func(i, j int) bool { return entries[i].key < entries[j].key })
			for i, e := range entries {
				if i > 0 {
					b.WriteString(" ")
				}
				b.WriteString(e.key + ":")
				rec(e.v)
			}
			b.WriteString("]")
		case reflect.Slice:
			b.WriteString("[")
			for i := range v.Len() {
				if i > 0 {
					b.WriteString(" ")
				}
				rec(v.Index(i))
			}
			b.WriteString("]")
		default:
			fmt.Fprintf(&b, "%v", v)
		}
	}
	if x == nil || reflect.TypeOf(x) == nil {
		return "nil"
	}
	rec(reflect.ValueOf(x))
	return b.String()
}

func showAll(xs []any) string {
	var out []string
	for _, x := range xs {
		out = append(out, show(x))
	}
	return strings.Join(out, ", ")
}

var smallConfig = pdb.Config{Degree: 2, AttrsSize: 8, IdentsSize: 8}

// mustWrite writes structs that there is no reason to reject.
func mustWrite(ch *Ch, db pdb.Database, xs ...any) pdb.Response {
	ch.Log("write %s", showAll(xs))
	res := db.Write(pdb.Request{Assertions: xs})
	ch.Step()
	ch.Validated()
	if res.Error != nil {
		ch.Fail("writing %s is rejected: %v", showAll(xs), res.Error)
	}
	if len(res.IDs) != len(xs) {
		ch.Fail("writing %d structs answers with ids %v", len(xs), res.IDs)
	}
	for _, id := range res.IDs {
		if id == 0 {
			ch.Fail("writing %s answers with ids %v", showAll(xs), res.IDs)
		}
	}
	if res.Snap == nil {
		ch.Fail("writing %s answers without a snapshot", showAll(xs))
	}
	return res
}

// mustFind finds the struct and compares it with what is expected.
func mustFind(ch *Ch, where string, s *pdb.Snapshot, v sview, id uint64, want any) any {
	got, err := v.find(s, id)
	if err != nil {
		ch.Fail("no typed snapshot of %v: %v", v.typ, err)
	}
	if got == nil {
		ch.Fail("%s finds no %v with id %d, expected %s", where, v.typ, id, show(want))
	}
	if d := isoEqual(want, got); d != "" {
		ch.Fail("%s finds, as %d, %s, expected %s: %s", where, id, show(got), show(want), d)
	}
	return got
}
