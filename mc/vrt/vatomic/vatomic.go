// Package vatomic replaces sync/atomic in the instrumented copy.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif/vrt"
)

type num interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

type cell[T num] struct{ v T }

func (c *cell[T]) Load() T    { vrt.Point(); return c.v }
func (c *cell[T]) Store(v T)  { vrt.Point(); c.v = v }
func (c *cell[T]) Add(d T) T  { vrt.Point(); c.v += d; return c.v }
func (c *cell[T]) Swap(v T) T { vrt.Point(); o := c.v; c.v = v; return o }
func (c *cell[T]) And(m T) T  { vrt.Point(); o := c.v; c.v &= m; return o }
func (c *cell[T]) Or(m T) T   { vrt.Point(); o := c.v; c.v |= m; return o }
func (c *cell[T]) CompareAndSwap(o, n T) bool {
	vrt.Point()
	if c.v == o {
		c.v = n
		return true
	}
	return false
}

type Int32 struct{ cell[int32] }
type Int64 struct{ cell[int64] }
type Uint32 struct{ cell[uint32] }
type Uint64 struct{ cell[uint64] }
type Uintptr struct{ cell[uintptr] }

type Bool struct{ v bool }

func (b *Bool) Load() bool       { vrt.Point(); return b.v }
func (b *Bool) Store(v bool)     { vrt.Point(); b.v = v }
func (b *Bool) Swap(v bool) bool { vrt.Point(); o := b.v; b.v = v; return o }
func (b *Bool) CompareAndSwap(o, n bool) bool {
	vrt.Point()
	if b.v == o {
		b.v = n
		return true
	}
	return false
}

type Pointer[T any] struct{ p *T }

func (p *Pointer[T]) Load() *T     { vrt.Point(); return p.p }
func (p *Pointer[T]) Store(v *T)   { vrt.Point(); p.p = v }
func (p *Pointer[T]) Swap(v *T) *T { vrt.Point(); o := p.p; p.p = v; return o }
func (p *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vrt.Point()
	if p.p == o {
		p.p = n
		return true
	}
	return false
}

type Value struct{ v any }

func (p *Value) Load() any      { vrt.Point(); return p.v }
func (p *Value) Store(v any)    { vrt.Point(); p.v = v }
func (p *Value) Swap(v any) any { vrt.Point(); o := p.v; p.v = v; return o }
func (p *Value) CompareAndSwap(o, n any) bool {
	vrt.Point()
	if p.v == o {
		p.v = n
		return true
	}
	return false
}

func LoadInt32(p *int32) int32             { vrt.Point(); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64             { vrt.Point(); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32          { vrt.Point(); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64          { vrt.Point(); return atomic.LoadUint64(p) }
func StoreInt32(p *int32, v int32)         { vrt.Point(); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)         { vrt.Point(); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)      { vrt.Point(); atomic.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)      { vrt.Point(); atomic.StoreUint64(p, v) }
func AddInt32(p *int32, d int32) int32     { vrt.Point(); return atomic.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64     { vrt.Point(); return atomic.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32 { vrt.Point(); return atomic.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64 { vrt.Point(); return atomic.AddUint64(p, d) }
func SwapInt32(p *int32, v int32) int32    { vrt.Point(); return atomic.SwapInt32(p, v) }
func SwapInt64(p *int64, v int64) int64    { vrt.Point(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vrt.Point()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vrt.Point()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vrt.Point()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vrt.Point()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { vrt.Point(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	vrt.Point()
	atomic.StorePointer(p, v)
}
