package main

import (
	"fmt"
	"reflect"
	"strings"

	pdb "github.com/dball/destructive/pkg/database"
)

// Struct types that refer to one another, in pairs by every two kinds of fields, and in
// longer cycles. These are declared types because package reflect makes no cyclic ones.
type mPtrPtrA struct {
	ID uint64    `attr:"sys/db/id"`
	N  string    `attr:"m/an"`
	To *mPtrPtrB `attr:"m/ab"`
}
type mPtrPtrB struct {
	ID uint64    `attr:"sys/db/id"`
	N  string    `attr:"m/bn"`
	To *mPtrPtrA `attr:"m/ba"`
}
type mPtrMapPtrA struct {
	ID uint64       `attr:"sys/db/id"`
	N  string       `attr:"m/an"`
	To *mPtrMapPtrB `attr:"m/ab"`
}
type mPtrMapPtrB struct {
	ID uint64                  `attr:"sys/db/id"`
	N  string                  `attr:"m/bn"`
	To map[string]*mPtrMapPtrA `attr:"m/ba,key=m/an"`
}
type mPtrMapA struct {
	ID uint64    `attr:"sys/db/id"`
	N  string    `attr:"m/an"`
	To *mPtrMapB `attr:"m/ab"`
}
type mPtrMapB struct {
	ID uint64              `attr:"sys/db/id"`
	N  string              `attr:"m/bn"`
	To map[string]mPtrMapA `attr:"m/ba,key=m/an"`
}
type mPtrSliceA struct {
	ID uint64      `attr:"sys/db/id"`
	N  string      `attr:"m/an"`
	To *mPtrSliceB `attr:"m/ab"`
}
type mPtrSliceB struct {
	ID uint64       `attr:"sys/db/id"`
	N  string       `attr:"m/bn"`
	To []mPtrSliceA `attr:"m/ba"`
}
type mMapPtrPtrA struct {
	ID uint64                  `attr:"sys/db/id"`
	N  string                  `attr:"m/an"`
	To map[string]*mMapPtrPtrB `attr:"m/ab,key=m/bn"`
}
type mMapPtrPtrB struct {
	ID uint64       `attr:"sys/db/id"`
	N  string       `attr:"m/bn"`
	To *mMapPtrPtrA `attr:"m/ba"`
}
type mMapPtrMapPtrA struct {
	ID uint64                     `attr:"sys/db/id"`
	N  string                     `attr:"m/an"`
	To map[string]*mMapPtrMapPtrB `attr:"m/ab,key=m/bn"`
}
type mMapPtrMapPtrB struct {
	ID uint64                     `attr:"sys/db/id"`
	N  string                     `attr:"m/bn"`
	To map[string]*mMapPtrMapPtrA `attr:"m/ba,key=m/an"`
}
type mMapPtrMapA struct {
	ID uint64                  `attr:"sys/db/id"`
	N  string                  `attr:"m/an"`
	To map[string]*mMapPtrMapB `attr:"m/ab,key=m/bn"`
}
type mMapPtrMapB struct {
	ID uint64                 `attr:"sys/db/id"`
	N  string                 `attr:"m/bn"`
	To map[string]mMapPtrMapA `attr:"m/ba,key=m/an"`
}
type mMapPtrSliceA struct {
	ID uint64                    `attr:"sys/db/id"`
	N  string                    `attr:"m/an"`
	To map[string]*mMapPtrSliceB `attr:"m/ab,key=m/bn"`
}
type mMapPtrSliceB struct {
	ID uint64          `attr:"sys/db/id"`
	N  string          `attr:"m/bn"`
	To []mMapPtrSliceA `attr:"m/ba"`
}
type mMapPtrA struct {
	ID uint64              `attr:"sys/db/id"`
	N  string              `attr:"m/an"`
	To map[string]mMapPtrB `attr:"m/ab,key=m/bn"`
}
type mMapPtrB struct {
	ID uint64    `attr:"sys/db/id"`
	N  string    `attr:"m/bn"`
	To *mMapPtrA `attr:"m/ba"`
}
type mMapMapPtrA struct {
	ID uint64                 `attr:"sys/db/id"`
	N  string                 `attr:"m/an"`
	To map[string]mMapMapPtrB `attr:"m/ab,key=m/bn"`
}
type mMapMapPtrB struct {
	ID uint64                  `attr:"sys/db/id"`
	N  string                  `attr:"m/bn"`
	To map[string]*mMapMapPtrA `attr:"m/ba,key=m/an"`
}
type mMapMapA struct {
	ID uint64              `attr:"sys/db/id"`
	N  string              `attr:"m/an"`
	To map[string]mMapMapB `attr:"m/ab,key=m/bn"`
}
type mMapMapB struct {
	ID uint64              `attr:"sys/db/id"`
	N  string              `attr:"m/bn"`
	To map[string]mMapMapA `attr:"m/ba,key=m/an"`
}
type mMapSliceA struct {
	ID uint64                `attr:"sys/db/id"`
	N  string                `attr:"m/an"`
	To map[string]mMapSliceB `attr:"m/ab,key=m/bn"`
}
type mMapSliceB struct {
	ID uint64       `attr:"sys/db/id"`
	N  string       `attr:"m/bn"`
	To []mMapSliceA `attr:"m/ba"`
}
type mSlicePtrA struct {
	ID uint64       `attr:"sys/db/id"`
	N  string       `attr:"m/an"`
	To []mSlicePtrB `attr:"m/ab"`
}
type mSlicePtrB struct {
	ID uint64      `attr:"sys/db/id"`
	N  string      `attr:"m/bn"`
	To *mSlicePtrA `attr:"m/ba"`
}
type mSliceMapPtrA struct {
	ID uint64          `attr:"sys/db/id"`
	N  string          `attr:"m/an"`
	To []mSliceMapPtrB `attr:"m/ab"`
}
type mSliceMapPtrB struct {
	ID uint64                    `attr:"sys/db/id"`
	N  string                    `attr:"m/bn"`
	To map[string]*mSliceMapPtrA `attr:"m/ba,key=m/an"`
}
type mSliceMapA struct {
	ID uint64       `attr:"sys/db/id"`
	N  string       `attr:"m/an"`
	To []mSliceMapB `attr:"m/ab"`
}
type mSliceMapB struct {
	ID uint64                `attr:"sys/db/id"`
	N  string                `attr:"m/bn"`
	To map[string]mSliceMapA `attr:"m/ba,key=m/an"`
}
type mSliceSliceA struct {
	ID uint64         `attr:"sys/db/id"`
	N  string         `attr:"m/an"`
	To []mSliceSliceB `attr:"m/ab"`
}
type mSliceSliceB struct {
	ID uint64         `attr:"sys/db/id"`
	N  string         `attr:"m/bn"`
	To []mSliceSliceA `attr:"m/ba"`
}
type m3PtrA struct {
	ID uint64  `attr:"sys/db/id"`
	N  string  `attr:"m/an"`
	To *m3PtrB `attr:"m/ab"`
}
type m3PtrB struct {
	ID uint64  `attr:"sys/db/id"`
	N  string  `attr:"m/bn"`
	To *m3PtrC `attr:"m/bc"`
}
type m3PtrC struct {
	ID uint64  `attr:"sys/db/id"`
	N  string  `attr:"m/cn"`
	To *m3PtrA `attr:"m/ca"`
}
type m3MapPtrA struct {
	ID uint64                `attr:"sys/db/id"`
	N  string                `attr:"m/an"`
	To map[string]*m3MapPtrB `attr:"m/ab,key=m/bn"`
}
type m3MapPtrB struct {
	ID uint64                `attr:"sys/db/id"`
	N  string                `attr:"m/bn"`
	To map[string]*m3MapPtrC `attr:"m/bc,key=m/cn"`
}
type m3MapPtrC struct {
	ID uint64     `attr:"sys/db/id"`
	N  string     `attr:"m/cn"`
	To *m3MapPtrA `attr:"m/ca"`
}
type m3MapA struct {
	ID uint64            `attr:"sys/db/id"`
	N  string            `attr:"m/an"`
	To map[string]m3MapB `attr:"m/ab,key=m/bn"`
}
type m3MapB struct {
	ID uint64            `attr:"sys/db/id"`
	N  string            `attr:"m/bn"`
	To map[string]m3MapC `attr:"m/bc,key=m/cn"`
}
type m3MapC struct {
	ID uint64  `attr:"sys/db/id"`
	N  string  `attr:"m/cn"`
	To *m3MapA `attr:"m/ca"`
}
type m3SliceA struct {
	ID uint64     `attr:"sys/db/id"`
	N  string     `attr:"m/an"`
	To []m3SliceB `attr:"m/ab"`
}
type m3SliceB struct {
	ID uint64     `attr:"sys/db/id"`
	N  string     `attr:"m/bn"`
	To []m3SliceC `attr:"m/bc"`
}
type m3SliceC struct {
	ID uint64    `attr:"sys/db/id"`
	N  string    `attr:"m/cn"`
	To *m3SliceA `attr:"m/ca"`
}

// mEvery refer to one another by fields of every kind.
type mEveryA struct {
	N  string              `attr:"m/an"`
	P  *mEveryB            `attr:"m/ap"`
	MP map[string]*mEveryB `attr:"m/amp,key=m/bn"`
	M  map[string]mEveryB  `attr:"m/am,key=m/bn"`
	S  []mEveryB           `attr:"m/as"`
	SP *mEveryA            `attr:"m/asp"`
	SM map[string]*mEveryA `attr:"m/asm,key=m/an"`
}
type mEveryB struct {
	N  string              `attr:"m/bn"`
	P  *mEveryA            `attr:"m/bp"`
	MP map[string]*mEveryA `attr:"m/bmp,key=m/an"`
	M  map[string]mEveryA  `attr:"m/bm,key=m/an"`
	S  []mEveryA           `attr:"m/bs"`
	V  struct {
		A *mEveryA `attr:"m/va"`
		N string   `attr:"m/vn"`
	} `attr:"m/bv"`
}

var mutualTypes = []reflect.Type{
	reflect.TypeFor[mPtrPtrA](), reflect.TypeFor[mPtrPtrB](), reflect.TypeFor[mPtrMapPtrA](), reflect.TypeFor[mPtrMapPtrB](), reflect.TypeFor[mPtrMapA](), reflect.TypeFor[mPtrMapB](), reflect.TypeFor[mPtrSliceA](), reflect.TypeFor[mPtrSliceB](), reflect.TypeFor[mMapPtrPtrA](), reflect.TypeFor[mMapPtrPtrB](), reflect.TypeFor[mMapPtrMapPtrA](), reflect.TypeFor[mMapPtrMapPtrB](), reflect.TypeFor[mMapPtrMapA](), reflect.TypeFor[mMapPtrMapB](), reflect.TypeFor[mMapPtrSliceA](), reflect.TypeFor[mMapPtrSliceB](), reflect.TypeFor[mMapPtrA](), reflect.TypeFor[mMapPtrB](), reflect.TypeFor[mMapMapPtrA](), reflect.TypeFor[mMapMapPtrB](), reflect.TypeFor[mMapMapA](), reflect.TypeFor[mMapMapB](), reflect.TypeFor[mMapSliceA](), reflect.TypeFor[mMapSliceB](), reflect.TypeFor[mSlicePtrA](), reflect.TypeFor[mSlicePtrB](), reflect.TypeFor[mSliceMapPtrA](), reflect.TypeFor[mSliceMapPtrB](), reflect.TypeFor[mSliceMapA](), reflect.TypeFor[mSliceMapB](), reflect.TypeFor[mSliceSliceA](), reflect.TypeFor[mSliceSliceB](), reflect.TypeFor[m3PtrA](), reflect.TypeFor[m3MapPtrA](), reflect.TypeFor[m3MapA](), reflect.TypeFor[m3SliceA](), reflect.TypeFor[mEveryA](), reflect.TypeFor[mEveryB](),
}

// mutualValue is a value of the type that refers to others to the depth given.
func mutualValue(t reflect.Type, depth int, names *int) reflect.Value {
	x := reflect.New(t)
	for i := range t.NumField() {
		f := x.Elem().Field(i)
		switch {
		case f.Kind() == reflect.String:
			*names++
			f.SetString(fmt.Sprint("n", *names))
		case f.Kind() == reflect.Struct:
			f.Set(mutualValue(f.Type(), depth, names).Elem())
		case depth == 0 || f.Kind() == reflect.Uint64:
		case f.Kind() == reflect.Pointer:
			f.Set(mutualValue(f.Type().Elem(), depth-1, names))
		case f.Kind() == reflect.Slice:
			f.Set(reflect.MakeSlice(f.Type(), 2, 2))
			for j := range 2 {
				f.Index(j).Set(mutualValue(f.Type().Elem(), depth-1, names).Elem())
			}
		case f.Kind() == reflect.Map:
			f.Set(reflect.MakeMap(f.Type()))
			for range 2 {
				et := f.Type().Elem()
				if et.Kind() == reflect.Pointer {
					et = et.Elem()
				}
				v := mutualValue(et, depth-1, names)
				key := v.Elem().FieldByName("N")
				if f.Type().Elem().Kind() != reflect.Pointer {
					v = v.Elem()
				}
				f.SetMapIndex(key, v)
			}
		}
	}
	return x
}

// pickMutual picks a value of a type that refers to itself by way of others.
func pickMutual(ch *Ch, deep int) any {
	t := mutualTypes[ch.Pick(len(mutualTypes))]
	n := 0
	if strings.Contains(t.Name(), "Every") && deep > 2 {
		deep = 2
	}
	x := mutualValue(t, ch.Pick(deep+1), &n)
	if ch.Bool() {
		return x.Elem().Interface()
	}
	return x.Interface()
}

// mutual writes structs of types that refer to one another.
func mutual(c *Ctx) {
	c.Explore("types that refer to one another", func(ch *Ch) {
		h := NewSHist(ch)
		h.Do(pdb.Request{Assertions: []any{pickMutual(ch, 3)}})
		if ch.Bool() {
			h.Do(pdb.Request{Assertions: []any{pickMutual(ch, c.bound(0, 2))}})
		}
	})
}
