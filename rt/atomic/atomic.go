// Package atomic replaces sync/atomic: every operation is a scheduling point.
package atomic

import (
	real "sync/atomic"

	"uniswap-simulator/zsim/simrt"
)

func AddInt32(p *int32, d int32) int32     { simrt.Y(); return real.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64     { simrt.Y(); return real.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32 { simrt.Y(); return real.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64 { simrt.Y(); return real.AddUint64(p, d) }
func LoadInt32(p *int32) int32             { simrt.Y(); return real.LoadInt32(p) }
func LoadInt64(p *int64) int64             { simrt.Y(); return real.LoadInt64(p) }
func LoadUint32(p *uint32) uint32          { simrt.Y(); return real.LoadUint32(p) }
func LoadUint64(p *uint64) uint64          { simrt.Y(); return real.LoadUint64(p) }
func StoreInt32(p *int32, v int32)         { simrt.Y(); real.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)         { simrt.Y(); real.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)      { simrt.Y(); real.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)      { simrt.Y(); real.StoreUint64(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	simrt.Y()
	return real.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	simrt.Y()
	return real.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	simrt.Y()
	return real.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	simrt.Y()
	return real.CompareAndSwapUint64(p, o, n)
}

type Int32 struct{ v real.Int32 }

func (x *Int32) Load() int32                    { simrt.Y(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { simrt.Y(); x.v.Store(v) }
func (x *Int32) Add(d int32) int32              { simrt.Y(); return x.v.Add(d) }
func (x *Int32) Swap(n int32) int32             { simrt.Y(); return x.v.Swap(n) }
func (x *Int32) CompareAndSwap(o, n int32) bool { simrt.Y(); return x.v.CompareAndSwap(o, n) }

type Int64 struct{ v real.Int64 }

func (x *Int64) Load() int64                    { simrt.Y(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { simrt.Y(); x.v.Store(v) }
func (x *Int64) Add(d int64) int64              { simrt.Y(); return x.v.Add(d) }
func (x *Int64) Swap(n int64) int64             { simrt.Y(); return x.v.Swap(n) }
func (x *Int64) CompareAndSwap(o, n int64) bool { simrt.Y(); return x.v.CompareAndSwap(o, n) }

type Uint64 struct{ v real.Uint64 }

func (x *Uint64) Load() uint64                    { simrt.Y(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { simrt.Y(); x.v.Store(v) }
func (x *Uint64) Add(d uint64) uint64             { simrt.Y(); return x.v.Add(d) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { simrt.Y(); return x.v.CompareAndSwap(o, n) }

type Bool struct{ v real.Bool }

func (x *Bool) Load() bool                    { simrt.Y(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { simrt.Y(); x.v.Store(v) }
func (x *Bool) Swap(n bool) bool              { simrt.Y(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool { simrt.Y(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v real.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { simrt.Y(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { simrt.Y(); x.v.Store(v) }
func (x *Pointer[T]) Swap(n *T) *T                { simrt.Y(); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { simrt.Y(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v real.Value }

func (x *Value) Load() any   { simrt.Y(); return x.v.Load() }
func (x *Value) Store(v any) { simrt.Y(); x.v.Store(v) }

func (x *Uint64) Swap(n uint64) uint64 { simrt.Y(); return x.v.Swap(n) }

type Uint32 struct{ v real.Uint32 }

func (x *Uint32) Load() uint32                    { simrt.Y(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { simrt.Y(); x.v.Store(v) }
func (x *Uint32) Add(d uint32) uint32             { simrt.Y(); return x.v.Add(d) }
func (x *Uint32) Swap(n uint32) uint32            { simrt.Y(); return x.v.Swap(n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { simrt.Y(); return x.v.CompareAndSwap(o, n) }

func SwapInt32(p *int32, n int32) int32     { simrt.Y(); return real.SwapInt32(p, n) }
func SwapInt64(p *int64, n int64) int64     { simrt.Y(); return real.SwapInt64(p, n) }
func SwapUint32(p *uint32, n uint32) uint32 { simrt.Y(); return real.SwapUint32(p, n) }
func SwapUint64(p *uint64, n uint64) uint64 { simrt.Y(); return real.SwapUint64(p, n) }
