// Package atomic replaces sync/atomic under the controlled scheduler.
package atomic

import (
	ra "sync/atomic"
	"unsafe"

	"vs"
)

func p() { vs.Point("atomic") }

func AddInt32(a *int32, d int32) int32                 { p(); return ra.AddInt32(a, d) }
func AddInt64(a *int64, d int64) int64                 { p(); return ra.AddInt64(a, d) }
func AddUint32(a *uint32, d uint32) uint32             { p(); return ra.AddUint32(a, d) }
func AddUint64(a *uint64, d uint64) uint64             { p(); return ra.AddUint64(a, d) }
func AddUintptr(a *uintptr, d uintptr) uintptr         { p(); return ra.AddUintptr(a, d) }
func LoadInt32(a *int32) int32                         { p(); return ra.LoadInt32(a) }
func LoadInt64(a *int64) int64                         { p(); return ra.LoadInt64(a) }
func LoadUint32(a *uint32) uint32                      { p(); return ra.LoadUint32(a) }
func LoadUint64(a *uint64) uint64                      { p(); return ra.LoadUint64(a) }
func LoadUintptr(a *uintptr) uintptr                   { p(); return ra.LoadUintptr(a) }
func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { p(); return ra.LoadPointer(a) }
func StoreInt32(a *int32, v int32)                     { p(); ra.StoreInt32(a, v) }
func StoreInt64(a *int64, v int64)                     { p(); ra.StoreInt64(a, v) }
func StoreUint32(a *uint32, v uint32)                  { p(); ra.StoreUint32(a, v) }
func StoreUint64(a *uint64, v uint64)                  { p(); ra.StoreUint64(a, v) }
func StoreUintptr(a *uintptr, v uintptr)               { p(); ra.StoreUintptr(a, v) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { p(); ra.StorePointer(a, v) }
func SwapInt32(a *int32, v int32) int32                { p(); return ra.SwapInt32(a, v) }
func SwapInt64(a *int64, v int64) int64                { p(); return ra.SwapInt64(a, v) }
func SwapUint32(a *uint32, v uint32) uint32            { p(); return ra.SwapUint32(a, v) }
func SwapUint64(a *uint64, v uint64) uint64            { p(); return ra.SwapUint64(a, v) }
func SwapUintptr(a *uintptr, v uintptr) uintptr        { p(); return ra.SwapUintptr(a, v) }
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	p()
	return ra.SwapPointer(a, v)
}
func CompareAndSwapInt32(a *int32, o, n int32) bool    { p(); return ra.CompareAndSwapInt32(a, o, n) }
func CompareAndSwapInt64(a *int64, o, n int64) bool    { p(); return ra.CompareAndSwapInt64(a, o, n) }
func CompareAndSwapUint32(a *uint32, o, n uint32) bool { p(); return ra.CompareAndSwapUint32(a, o, n) }
func CompareAndSwapUint64(a *uint64, o, n uint64) bool { p(); return ra.CompareAndSwapUint64(a, o, n) }
func CompareAndSwapUintptr(a *uintptr, o, n uintptr) bool {
	p()
	return ra.CompareAndSwapUintptr(a, o, n)
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	p()
	return ra.CompareAndSwapPointer(a, o, n)
}

func AndInt32(a *int32, m int32) int32         { p(); return ra.AndInt32(a, m) }
func AndInt64(a *int64, m int64) int64         { p(); return ra.AndInt64(a, m) }
func AndUint32(a *uint32, m uint32) uint32     { p(); return ra.AndUint32(a, m) }
func AndUint64(a *uint64, m uint64) uint64     { p(); return ra.AndUint64(a, m) }
func AndUintptr(a *uintptr, m uintptr) uintptr { p(); return ra.AndUintptr(a, m) }
func OrInt32(a *int32, m int32) int32          { p(); return ra.OrInt32(a, m) }
func OrInt64(a *int64, m int64) int64          { p(); return ra.OrInt64(a, m) }
func OrUint32(a *uint32, m uint32) uint32      { p(); return ra.OrUint32(a, m) }
func OrUint64(a *uint64, m uint64) uint64      { p(); return ra.OrUint64(a, m) }
func OrUintptr(a *uintptr, m uintptr) uintptr  { p(); return ra.OrUintptr(a, m) }

type Bool struct{ v ra.Bool }

func (x *Bool) Load() bool                    { p(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { p(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { p(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { p(); return x.v.CompareAndSwap(o, n) }

type Int32 struct{ v ra.Int32 }

func (x *Int32) Load() int32                    { p(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { p(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { p(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { p(); return x.v.CompareAndSwap(o, n) }
func (x *Int32) Add(d int32) int32              { p(); return x.v.Add(d) }
func (x *Int32) And(m int32) int32              { p(); return x.v.And(m) }
func (x *Int32) Or(m int32) int32               { p(); return x.v.Or(m) }

type Int64 struct{ v ra.Int64 }

func (x *Int64) Load() int64                    { p(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { p(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { p(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { p(); return x.v.CompareAndSwap(o, n) }
func (x *Int64) Add(d int64) int64              { p(); return x.v.Add(d) }
func (x *Int64) And(m int64) int64              { p(); return x.v.And(m) }
func (x *Int64) Or(m int64) int64               { p(); return x.v.Or(m) }

type Uint32 struct{ v ra.Uint32 }

func (x *Uint32) Load() uint32                    { p(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { p(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { p(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { p(); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) Add(d uint32) uint32             { p(); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32             { p(); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32              { p(); return x.v.Or(m) }

type Uint64 struct{ v ra.Uint64 }

func (x *Uint64) Load() uint64                    { p(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { p(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { p(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { p(); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) Add(d uint64) uint64             { p(); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64             { p(); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64              { p(); return x.v.Or(m) }

type Uintptr struct{ v ra.Uintptr }

func (x *Uintptr) Load() uintptr                    { p(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { p(); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { p(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { p(); return x.v.CompareAndSwap(o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { p(); return x.v.Add(d) }

type Pointer[T any] struct{ v ra.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { p(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { p(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { p(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { p(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v ra.Value }

func (x *Value) Load() any                    { p(); return x.v.Load() }
func (x *Value) Store(v any)                  { p(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { p(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { p(); return x.v.CompareAndSwap(o, n) }
