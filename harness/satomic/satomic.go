// Package satomic is sync/atomic with a scheduling point before every operation.
package satomic

import (
	"sync/atomic"

	"aqlverif/sched"
)

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { sched.Yield(); return x.v.Load() }
func (x *Int32) Store(n int32)                  { sched.Yield(); x.v.Store(n) }
func (x *Int32) Swap(n int32) int32             { sched.Yield(); return x.v.Swap(n) }
func (x *Int32) Add(n int32) int32              { sched.Yield(); return x.v.Add(n) }
func (x *Int32) CompareAndSwap(o, n int32) bool { sched.Yield(); return x.v.CompareAndSwap(o, n) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { sched.Yield(); return x.v.Load() }
func (x *Int64) Store(n int64)                  { sched.Yield(); x.v.Store(n) }
func (x *Int64) Swap(n int64) int64             { sched.Yield(); return x.v.Swap(n) }
func (x *Int64) Add(n int64) int64              { sched.Yield(); return x.v.Add(n) }
func (x *Int64) CompareAndSwap(o, n int64) bool { sched.Yield(); return x.v.CompareAndSwap(o, n) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { sched.Yield(); return x.v.Load() }
func (x *Uint32) Store(n uint32)                  { sched.Yield(); x.v.Store(n) }
func (x *Uint32) Swap(n uint32) uint32            { sched.Yield(); return x.v.Swap(n) }
func (x *Uint32) Add(n uint32) uint32             { sched.Yield(); return x.v.Add(n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { sched.Yield(); return x.v.CompareAndSwap(o, n) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { sched.Yield(); return x.v.Load() }
func (x *Uint64) Store(n uint64)                  { sched.Yield(); x.v.Store(n) }
func (x *Uint64) Swap(n uint64) uint64            { sched.Yield(); return x.v.Swap(n) }
func (x *Uint64) Add(n uint64) uint64             { sched.Yield(); return x.v.Add(n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { sched.Yield(); return x.v.CompareAndSwap(o, n) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { sched.Yield(); return x.v.Load() }
func (x *Bool) Store(n bool)                  { sched.Yield(); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool              { sched.Yield(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool { sched.Yield(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { sched.Yield(); return x.v.Load() }
func (x *Value) Store(n any)                  { sched.Yield(); x.v.Store(n) }
func (x *Value) Swap(n any) any               { sched.Yield(); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(o, n any) bool { sched.Yield(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { sched.Yield(); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                  { sched.Yield(); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T                { sched.Yield(); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { sched.Yield(); return x.v.CompareAndSwap(o, n) }

func AddInt32(p *int32, n int32) int32     { sched.Yield(); return atomic.AddInt32(p, n) }
func AddInt64(p *int64, n int64) int64     { sched.Yield(); return atomic.AddInt64(p, n) }
func AddUint32(p *uint32, n uint32) uint32 { sched.Yield(); return atomic.AddUint32(p, n) }
func AddUint64(p *uint64, n uint64) uint64 { sched.Yield(); return atomic.AddUint64(p, n) }
func LoadInt32(p *int32) int32             { sched.Yield(); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64             { sched.Yield(); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32          { sched.Yield(); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64          { sched.Yield(); return atomic.LoadUint64(p) }
func StoreInt32(p *int32, n int32)         { sched.Yield(); atomic.StoreInt32(p, n) }
func StoreInt64(p *int64, n int64)         { sched.Yield(); atomic.StoreInt64(p, n) }
func StoreUint32(p *uint32, n uint32)      { sched.Yield(); atomic.StoreUint32(p, n) }
func StoreUint64(p *uint64, n uint64)      { sched.Yield(); atomic.StoreUint64(p, n) }
func SwapInt32(p *int32, n int32) int32    { sched.Yield(); return atomic.SwapInt32(p, n) }
func SwapInt64(p *int64, n int64) int64    { sched.Yield(); return atomic.SwapInt64(p, n) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	sched.Yield()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	sched.Yield()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	sched.Yield()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	sched.Yield()
	return atomic.CompareAndSwapUint64(p, o, n)
}
