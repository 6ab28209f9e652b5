package main

import (
	"sort"
	"time"

	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
)

func instOf(ms int64) time.Time { return time.UnixMilli(ms).UTC() }

func sortStrings(s []string) { sort.Strings(s) }

// schema is a request that declares attributes; the tempid of each is its name, so that
// later steps may refer to it as an Ent.
type adecl struct {
	name   string
	typ    ID
	many   bool
	unique ID
}

func schema(ds ...adecl) (out []Atom) {
	for _, d := range ds {
		t := TempID(d.name)
		out = append(out, C(t, sys.DbIdent, String(d.name)), C(t, sys.AttrType, d.typ))
		if d.many {
			out = append(out, C(t, sys.AttrCardinality, sys.AttrCardinalityMany))
		}
		if d.unique != 0 {
			out = append(out, C(t, sys.AttrUnique, d.unique))
		}
	}
	return
}

const (
	tRef    = sys.AttrTypeRef
	tString = sys.AttrTypeString
	tInt    = sys.AttrTypeInt
	tBool   = sys.AttrTypeBool
	tInst   = sys.AttrTypeInst
	tFloat  = sys.AttrTypeFloat
	uIdent  = sys.AttrUniqueIdentity
	uValue  = sys.AttrUniqueValue
)

// permutation picks an order of the numbers below n.
func permutation(ch *Ch, n int) (order []int) {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	for len(rest) > 0 {
		i := ch.Pick(len(rest))
		order = append(order, rest[i])
		rest = append(rest[:i:i], rest[i+1:]...)
	}
	return
}
