package main

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	pdb "github.com/dball/destructive/pkg/database"
)

func init() { register("C19", c19) }

type dSelf struct {
	ID   uint64            `attr:"sys/db/id"`
	Name string            `attr:"d/name,identity"`
	Self *dSelf            `attr:"d/self"`
	Kids []dSelf           `attr:"d/kids"`
	By   map[string]*dSelf `attr:"d/by,key=d/name"`
}
type dMutualA struct {
	B *dMutualB `attr:"ma/b"`
	V int       `attr:"ma/v"`
}
type dMutualB struct {
	A map[uint64]dMutualA `attr:"mb/a"`
	S []float64           `attr:"mb/s,value=mb/sv"`
	T *time.Time          `attr:"mb/t,unique"`
	N int                 `attr:"n"`
}
type dAll struct {
	S  string     `attr:"x/s"`
	I  int        `attr:"x/i,identity"`
	B  bool       `attr:"x/b"`
	F  float64    `attr:"x/f,unique"`
	T  time.Time  `attr:"x/t"`
	PS *string    `attr:"x/ps,unique"`
	PI *int       `attr:"x/pi"`
	PB *bool      `attr:"x/pb,ignoreempty"`
	PF *float64   `attr:"x/pf,identity,ignoreempty"`
	PT *time.Time `attr:"x/pt"`
}
type dUntagged struct {
	A int    `attr:"u/a"`
	B string // nothing is declared for these
	c chan int
	D map[string]chan int
	E *dSelf
	F int `json:"f"`
	dAge
}
type dAge struct {
	Age int `attr:"n"`
}
type dSharedString struct {
	N int    `attr:"n"`
	A string `attr:"sh/a"`
}
type dSharedInt struct {
	N int  `attr:"n"`
	A *int `attr:"sh/a"`
}
type dSharedPtr struct {
	A *string `attr:"sh/a"`
	N int     `attr:"n"`
}
type dSharedUnique struct {
	N int     `attr:"n"`
	A *string `attr:"sh/a,unique"`
}
type dSharedIdentity struct {
	N int     `attr:"n"`
	A *string `attr:"sh/a,identity,ignoreempty"`
}
type dSharedSlice struct {
	N int      `attr:"n"`
	A []string `attr:"sh/a,value=sh/v"`
}
type dSharedSliceInt struct {
	N int   `attr:"n"`
	A []int `attr:"sh/a,value=sh/v"`
}
type dSharedSliceInt2 struct {
	N int   `attr:"n"`
	B []int `attr:"sh/b,value=sh/v"`
}
type dSharedMap struct {
	N int          `attr:"n"`
	A map[int]dAge `attr:"sh/a,key=n"`
	V *int         `attr:"sh/v"`
}
type dSharedRef struct {
	N int   `attr:"n"`
	A *dAge `attr:"sh/a"`
}
type dSharedTwice struct {
	N int     `attr:"n"`
	A *string `attr:"sh/a"`
	B *string `attr:"sh/a"`
}
type dSharedTwiceBad struct {
	N int     `attr:"n"`
	A *string `attr:"sh/a"`
	B *int    `attr:"sh/a"`
}
type dNestedConflict struct {
	N int               `attr:"n"`
	P *dNestedConflictC `attr:"nc/p"`
}
type dNestedConflictC struct {
	N *string `attr:"n"`
}
type dNestedShared struct {
	N int             `attr:"n"`
	P *dSharedString  `attr:"ns/p"`
	Q dAge            `attr:"ns/q"`
	R []dSharedString `attr:"ns/r"`
}
type dNamed struct {
	S nString           `attr:"nm/s"`
	I *nInt             `attr:"nm/i,unique"`
	B nBool             `attr:"nm/b"`
	F *nFloat           `attr:"nm/f"`
	L []nInt            `attr:"nm/l,value=nm/lv"`
	M map[nString]*dAge `attr:"nm/m,key=n"`
}
type dIDOnly struct {
	ID uint64 `attr:"sys/db/id"`
	N  int    `attr:"n"`
}
type dEmpty struct{}
type dValueIsAttr struct {
	N int   `attr:"n"`
	L []int `attr:"vi/l,value=n"`
}

// Types that cannot be modelled.
type dBadChan struct {
	N int      `attr:"n"`
	C chan int `attr:"bad/c"`
}
type dBadInt64 struct {
	N int   `attr:"n"`
	I int64 `attr:"bad/i"`
}
type dBadUint struct {
	U uint `attr:"bad/u"`
	N int  `attr:"n"`
}
type dBadFloat32 struct {
	N int      `attr:"n"`
	F *float32 `attr:"bad/f"`
}
type dBadPtrPtr struct {
	N int   `attr:"n"`
	P **int `attr:"bad/p"`
}
type dBadPtrMap struct {
	N int             `attr:"n"`
	P *map[string]int `attr:"bad/p"`
}
type dBadMap struct {
	N int            `attr:"n"`
	M map[string]int `attr:"bad/m"`
}
type dBadMapPtr struct {
	N int             `attr:"n"`
	M map[string]*int `attr:"bad/m"`
}
type dBadMapTime struct {
	N int                  `attr:"n"`
	M map[string]time.Time `attr:"bad/m"`
}
type dBadSlice struct {
	N int   `attr:"n"`
	S []int `attr:"bad/s"`
}
type dBadSlicePtr struct {
	N int     `attr:"n"`
	S []*dAge `attr:"bad/s"`
}
type dBadSliceSlice struct {
	N int     `attr:"n"`
	S [][]int `attr:"bad/s"`
}
type dBadSliceValue struct {
	N int    `attr:"n"`
	S []dAge `attr:"bad/s,value=bad/v"`
}
type dBadSliceAny struct {
	N int   `attr:"n"`
	S []any `attr:"bad/s,value=bad/v"`
}
type dBadAny struct {
	N int `attr:"n"`
	A any `attr:"bad/a"`
}
type dBadArray struct {
	N int    `attr:"n"`
	A [2]int `attr:"bad/a"`
}
type dBadFunc struct {
	N int    `attr:"n"`
	F func() `attr:"bad/f"`
}
type dBadUnexported struct {
	N int    `attr:"n"`
	a string `attr:"bad/a"`
}
type dBadDirective struct {
	N int    `attr:"n"`
	A string `attr:"bad/a,uniq"`
}
type dBadDirective2 struct {
	N int    `attr:"n"`
	A string `attr:"bad/a,"`
}

// Types of the same name, declared in functions.
func localA(i int) any {
	type local struct {
		N int    `attr:"l/n"`
		S string `attr:"l/s"`
	}
	return &local{i, "a"}
}
func localB(i int) any {
	type local struct {
		S string  `attr:"l/s"`
		N int     `attr:"l/n"`
		F float64 `attr:"l/f,unique"`
	}
	return &local{"b", i, 1}
}
func localC(i int) any {
	type local struct {
		M string `attr:"l/n"`
	}
	return &local{"c"}
}

// Types that lead to others of the same name.
func localIn(i int) any {
	type local struct {
		N int `attr:"in/n"`
	}
	type leaf = local
	{
		type local struct {
			N int          `attr:"l/n"`
			A *leaf        `attr:"l/in"`
			M map[int]leaf `attr:"l/by,key=in/n"`
			T []dLocal     `attr:"l/t"`
		}
		return &local{N: i, A: &leaf{i}}
	}
}
func localBad(i int) any {
	type local struct {
		S string `attr:"l/n"`
	}
	type leaf = local
	{
		type local struct {
			N int     `attr:"l/n"`
			A []leaf  `attr:"l/in"`
			P *dLocal `attr:"l/p"`
		}
		return local{N: i}
	}
}

// dLocal leads to types of one name that share no attributes.
type dLocal struct {
	A localInnerA `attr:"lo/a"`
	B localInnerB `attr:"lo/b"`
}
type localInnerA = struct {
	N int `attr:"lo/n"`
}
type localInnerB = struct {
	S string `attr:"lo/s,identity"`
}

type dBadTwice struct {
	N int    `attr:"n"`
	A string `attr:"bad/a,unique,identity"`
}
type dBadID struct {
	ID int `attr:"sys/db/id"`
	N  int `attr:"n"`
}
type dBadIDPtr struct {
	ID *uint64 `attr:"sys/db/id"`
	N  int     `attr:"n"`
}
type dBadSys struct {
	A string `attr:"sys/a"`
	N int    `attr:"n"`
}
type dBadNested struct {
	N int       `attr:"n"`
	P *dBadChan `attr:"bad/p"`
}
type dBadNestedSlice struct {
	N int              `attr:"n"`
	P []dBadUnexported `attr:"bad/p"`
}
type dBadNestedMap struct {
	N int               `attr:"n"`
	P map[int]dBadTwice `attr:"bad/p,key=n"`
}
type dBadDeep struct {
	N int         `attr:"n"`
	P *dBadNested `attr:"bad/q"`
}

// fill gives a field a value that is not empty.
func fill(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		v.Set(reflect.New(v.Type().Elem()))
		fill(v.Elem())
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 2, 2))
		fill(v.Index(0))
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		x := reflect.New(v.Type().Elem()).Elem()
		fill(x)
		v.SetMapIndex(reflect.ValueOf(5), x)
	case reflect.String:
		v.SetString("s")
	case reflect.Int:
		v.SetInt(5)
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Float64:
		v.SetFloat(1.5)
	case reflect.Struct:
		if v.Type() == reflect.TypeFor[time.Time]() {
			v.Set(reflect.ValueOf(time.UnixMilli(7)))
		} else {
			v.Field(0).SetInt(5)
		}
	}
}

func c19(c *Ctx) {
	c.assume("the database is empty at first, so that types conflict only with types written before them")
	values := []func(i int) any{
		func(i int) any { return &dSelf{Name: fmt.Sprint(i)} },
		func(i int) any {
			return dSelf{Name: fmt.Sprint(i), Kids: []dSelf{{Name: fmt.Sprint(i, "k")}}, By: map[string]*dSelf{}}
		},
		func(i int) any { return &dMutualA{V: i, B: &dMutualB{N: i}} },
		func(i int) any { return dMutualB{T: ptr(time.UnixMilli(int64(i))), S: []float64{1, 2}} },
		func(i int) any { return &dAll{I: i, F: float64(i), PS: ptr(fmt.Sprint(i))} },
		func(i int) any { return dUntagged{A: i, B: "b", D: map[string]chan int{}, dAge: dAge{3}} },
		func(i int) any { return dAge{i} },
		func(i int) any { return &dSharedString{i, "s"} },
		func(i int) any { return dSharedInt{i, ptr(1)} },
		func(i int) any { return dSharedInt{i, nil} },
		func(i int) any { return dSharedPtr{ptr("s"), i} },
		func(i int) any { return &dSharedUnique{N: i, A: ptr(fmt.Sprint(i))} },
		func(i int) any { return dSharedIdentity{N: i} },
		func(i int) any { return dSharedSlice{N: i, A: []string{"a"}} },
		func(i int) any { return &dSharedSliceInt{N: i} },
		func(i int) any { return dSharedSliceInt2{N: i, B: []int{2, 1}} },
		func(i int) any { return dSharedMap{N: i, A: map[int]dAge{4: {4}}} },
		func(i int) any { return dSharedRef{N: i} },
		func(i int) any { return dSharedTwice{N: i, A: ptr("s"), B: ptr("s")} },
		func(i int) any { return dSharedTwice{N: i, A: ptr("s"), B: ptr("t")} },
		func(i int) any { return dSharedTwiceBad{N: i} },
		func(i int) any { return dNestedConflict{N: i} },
		func(i int) any { return &dNestedConflictC{N: ptr("s")} },
		func(i int) any { return dNestedShared{N: i, R: []dSharedString{{1, "x"}}} },
		func(i int) any { return dNamed{S: "s", I: ptr(nInt(i)), L: []nInt{5}} },
		func(i int) any { return dIDOnly{N: i} },
		localA,
		localB,
		localC,
		localIn,
		localBad,
		func(i int) any { return dLocal{localInnerA{i}, localInnerB{"s"}} },
		func(i int) any { return dValueIsAttr{N: i, L: []int{i}} },
		func(i int) any { return dBadChan{N: i} },
		func(i int) any { return &dBadInt64{N: i} },
		func(i int) any { return dBadUint{N: i} },
		func(i int) any { return dBadFloat32{N: i} },
		func(i int) any { return dBadPtrPtr{N: i} },
		func(i int) any { return &dBadPtrMap{N: i} },
		func(i int) any { return dBadMap{N: i} },
		func(i int) any { return dBadMapPtr{N: i} },
		func(i int) any { return dBadMapTime{N: i} },
		func(i int) any { return dBadSlice{N: i} },
		func(i int) any { return dBadSlicePtr{N: i} },
		func(i int) any { return dBadSliceSlice{N: i} },
		func(i int) any { return dBadSliceValue{N: i} },
		func(i int) any { return dBadSliceAny{N: i} },
		func(i int) any { return dBadAny{N: i, A: 1} },
		func(i int) any { return dBadArray{N: i} },
		func(i int) any { return dBadFunc{N: i} },
		func(i int) any { return dBadUnexported{N: i, a: "a"} },
		func(i int) any { return &dBadDirective{N: i} },
		func(i int) any { return dBadDirective2{N: i} },
		func(i int) any { return dBadTwice{N: i} },
		func(i int) any { return dBadID{N: i} },
		func(i int) any { return dBadIDPtr{N: i} },
		func(i int) any { return dBadSys{N: i} },
		func(i int) any { return dBadNested{N: i} },
		func(i int) any { return dBadNestedSlice{N: i} },
		func(i int) any { return &dBadNestedMap{N: i} },
		func(i int) any { return dBadDeep{N: i} },
		func(i int) any { return nil },
		func(i int) any { return 42 },
		func(i int) any { return "s" },
		func(i int) any { return ptr(7) },
		func(i int) any { return time.UnixMilli(0) },
		func(i int) any { return map[string]int{} },
		func(i int) any { return []dAge{{1}} },
		func(i int) any { return (*dAge)(nil) },
		func(i int) any { return ptr(ptr(dAge{1})) },
	}
	mutual(c)
	n := c.bound(2, 3)
	c.Explore("sequences of types", func(ch *Ch) {
		h := NewSHist(ch)
		var xs []any
		for i := range n {
			xs = append(xs, values[ch.Pick(len(values))](i+1))
			next := 0
			if i+1 < n {
				next = ch.Pick(3)
			}
			if next == 2 {
				continue
			}
			h.Do(pdb.Request{Assertions: xs})
			if next == 0 {
				break
			}
			xs = nil
		}
	})
	// Types of one field: every combination of a type and directives, alone and after another.
	kinds := []reflect.Type{
		reflect.TypeFor[string](), reflect.TypeFor[*string](), reflect.TypeFor[int](), reflect.TypeFor[*int](), reflect.TypeFor[bool](), reflect.TypeFor[*bool](),
		reflect.TypeFor[float64](), reflect.TypeFor[*float64](), reflect.TypeFor[time.Time](), reflect.TypeFor[*time.Time](),
		reflect.TypeFor[dAge](), reflect.TypeFor[*dAge](), reflect.TypeFor[map[int]dAge](), reflect.TypeFor[map[int]*dAge](), reflect.TypeFor[[]dAge](),
		reflect.TypeFor[[]string](), reflect.TypeFor[[]time.Time](), reflect.TypeFor[nString](), reflect.TypeFor[*nInt](),
		reflect.TypeFor[int64](), reflect.TypeFor[uint64](), reflect.TypeFor[*uint64](), reflect.TypeFor[[]*dAge](), reflect.TypeFor[map[int]int](), reflect.TypeFor[any](),
		reflect.TypeFor[**dAge](), reflect.TypeFor[*[]dAge](), reflect.TypeFor[[]byte](), reflect.TypeFor[error](), reflect.TypeFor[[]any](),
	}
	var directives []string
	for _, u := range []string{"", ",identity", ",unique", ",identity,identity", ",identity,unique", ",unique,identity", ",unique,unique", ",ignoreempty,identity,ignoreempty", ",unique,ignoreempty,identity"} {
		for _, i := range []string{"", ",ignoreempty"} {
			for _, k := range []string{"", ",key=n", ",value=o/v"} {
				directives = append(directives, u+i+k)
			}
		}
	}
	type one struct {
		t reflect.Type
	}
	var ones []reflect.Type
	for _, k := range kinds {
		for _, d := range directives {
			coll := k.Kind() == reflect.Slice || k.Kind() == reflect.Map
			if strings.Contains(d, "=") && !coll {
				continue // a directive without meaning
			}
			if strings.Contains(d, "value=") && k.Kind() == reflect.Map {
				continue
			}
			if strings.Count(d, ",") > 2 && k.Kind() != reflect.String && k.Kind() != reflect.Slice {
				continue
			}
			ones = append(ones, reflect.StructOf([]reflect.StructField{
				{Name: "A", Type: k, Tag: reflect.StructTag(`attr:"o/a` + d + `"`)},
				{Name: "N", Type: reflect.TypeFor[int](), Tag: `attr:"n"`},
			}))
		}
	}
	c.notesAdd("types of one field", len(ones))
	// Types of two fields: every pair of types, with directives that matter.
	var twos []reflect.Type
	good := kinds[:19]
	for _, a := range good {
		for _, b := range good {
			for _, u := range []string{"", ",identity", ",unique"} {
				for _, v := range []string{"o/v", "o/w"} {
					field := func(name string, k reflect.Type, directive, value string) reflect.StructField {
						tag := "o/" + strings.ToLower(name) + directive
						if k.Kind() == reflect.Map {
							tag += ",key=n"
						}
						if k.Kind() == reflect.Slice && k.Elem() != reflect.TypeFor[dAge]() {
							tag += ",value=" + value
						}
						return reflect.StructField{Name: name, Type: k, Tag: reflect.StructTag(`attr:"` + tag + `"`)}
					}
					if v == "o/w" && (a.Kind() != reflect.Slice || b.Kind() != reflect.Slice) {
						continue
					}
					twos = append(twos, reflect.StructOf([]reflect.StructField{
						field("A", a, "", "o/v"), field("B", b, u, v), {Name: "N", Type: reflect.TypeFor[int](), Tag: `attr:"n"`},
					}))
				}
			}
		}
	}
	c.notesAdd("types of two fields", len(twos))
	c.Explore("types of two fields", func(ch *Ch) {
		h := NewSHist(ch)
		x := reflect.New(twos[ch.Pick(len(twos))]).Elem()
		x.Field(2).SetInt(4)
		if ch.Bool() {
			fill(x.Field(0))
			fill(x.Field(1))
		}
		h.Do(pdb.Request{Assertions: []any{x.Interface()}})
	})
	c.Explore("types of one field", func(ch *Ch) {
		h := NewSHist(ch)
		two := ch.Bool()
		mk := func() any {
			x := reflect.New(ones[ch.Pick(len(ones))])
			x.Elem().Field(1).SetInt(4)
			return x.Interface()
		}
		if !two {
			h.Do(pdb.Request{Assertions: []any{mk()}})
			return
		}
		h.Do(pdb.Request{Assertions: []any{mk()}})
		h.Do(pdb.Request{Assertions: []any{mk()}})
	})
}
