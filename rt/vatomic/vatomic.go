// Package vatomic stands in for package sync/atomic in the instrumented build, with a
// scheduling point before and after each operation.
package vatomic

import (
	"sync/atomic"

	rt "github.com/dball/destructive/internal/verifrt"
)

func in()  { rt.Point("atomic") }
func out() { rt.Point("atomic.after") }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (p *Pointer[T]) Load() *T     { in(); x := p.v.Load(); out(); return x }
func (p *Pointer[T]) Store(x *T)   { in(); p.v.Store(x); out() }
func (p *Pointer[T]) Swap(x *T) *T { in(); y := p.v.Swap(x); out(); return y }
func (p *Pointer[T]) CompareAndSwap(a, b *T) bool {
	in()
	ok := p.v.CompareAndSwap(a, b)
	out()
	return ok
}

type Value struct{ v atomic.Value }

func (p *Value) Load() any      { in(); x := p.v.Load(); out(); return x }
func (p *Value) Store(x any)    { in(); p.v.Store(x); out() }
func (p *Value) Swap(x any) any { in(); y := p.v.Swap(x); out(); return y }
func (p *Value) CompareAndSwap(a, b any) bool {
	in()
	ok := p.v.CompareAndSwap(a, b)
	out()
	return ok
}

type Bool struct{ v atomic.Bool }

func (p *Bool) Load() bool       { in(); x := p.v.Load(); out(); return x }
func (p *Bool) Store(x bool)     { in(); p.v.Store(x); out() }
func (p *Bool) Swap(x bool) bool { in(); y := p.v.Swap(x); out(); return y }
func (p *Bool) CompareAndSwap(a, b bool) bool {
	in()
	ok := p.v.CompareAndSwap(a, b)
	out()
	return ok
}

type Int64 struct{ v atomic.Int64 }

func (p *Int64) Load() int64        { in(); x := p.v.Load(); out(); return x }
func (p *Int64) Store(x int64)      { in(); p.v.Store(x); out() }
func (p *Int64) Add(d int64) int64  { in(); y := p.v.Add(d); out(); return y }
func (p *Int64) Swap(x int64) int64 { in(); y := p.v.Swap(x); out(); return y }
func (p *Int64) CompareAndSwap(a, b int64) bool {
	in()
	ok := p.v.CompareAndSwap(a, b)
	out()
	return ok
}

type Uint64 struct{ v atomic.Uint64 }

func (p *Uint64) Load() uint64         { in(); x := p.v.Load(); out(); return x }
func (p *Uint64) Store(x uint64)       { in(); p.v.Store(x); out() }
func (p *Uint64) Add(d uint64) uint64  { in(); y := p.v.Add(d); out(); return y }
func (p *Uint64) Swap(x uint64) uint64 { in(); y := p.v.Swap(x); out(); return y }
func (p *Uint64) CompareAndSwap(a, b uint64) bool {
	in()
	ok := p.v.CompareAndSwap(a, b)
	out()
	return ok
}

type Int32 struct{ v atomic.Int32 }

func (p *Int32) Load() int32       { in(); x := p.v.Load(); out(); return x }
func (p *Int32) Store(x int32)     { in(); p.v.Store(x); out() }
func (p *Int32) Add(d int32) int32 { in(); y := p.v.Add(d); out(); return y }
func (p *Int32) CompareAndSwap(a, b int32) bool {
	in()
	ok := p.v.CompareAndSwap(a, b)
	out()
	return ok
}

type Uint32 struct{ v atomic.Uint32 }

func (p *Uint32) Load() uint32        { in(); x := p.v.Load(); out(); return x }
func (p *Uint32) Store(x uint32)      { in(); p.v.Store(x); out() }
func (p *Uint32) Add(d uint32) uint32 { in(); y := p.v.Add(d); out(); return y }
func (p *Uint32) CompareAndSwap(a, b uint32) bool {
	in()
	ok := p.v.CompareAndSwap(a, b)
	out()
	return ok
}

func LoadInt64(a *int64) int64             { in(); x := atomic.LoadInt64(a); out(); return x }
func StoreInt64(a *int64, x int64)         { in(); atomic.StoreInt64(a, x); out() }
func AddInt64(a *int64, d int64) int64     { in(); x := atomic.AddInt64(a, d); out(); return x }
func LoadUint64(a *uint64) uint64          { in(); x := atomic.LoadUint64(a); out(); return x }
func StoreUint64(a *uint64, x uint64)      { in(); atomic.StoreUint64(a, x); out() }
func AddUint64(a *uint64, d uint64) uint64 { in(); x := atomic.AddUint64(a, d); out(); return x }
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	in()
	ok := atomic.CompareAndSwapUint64(a, o, n)
	out()
	return ok
}
func CompareAndSwapInt64(a *int64, o, n int64) bool {
	in()
	ok := atomic.CompareAndSwapInt64(a, o, n)
	out()
	return ok
}
