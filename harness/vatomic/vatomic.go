// Package vatomic stands in for sync/atomic in instrumented code: a switch may happen before every operation.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/ahKevinXy/go-web-tools/zzverif/vsched"
)

// LoadInt32 as in sync/atomic.
func LoadInt32(p *int32) int32 {
	vsched.Point()
	return atomic.LoadInt32(p)
}

// StoreInt32 as in sync/atomic.
func StoreInt32(p *int32, v int32) {
	vsched.Point()
	atomic.StoreInt32(p, v)
}

// SwapInt32 as in sync/atomic.
func SwapInt32(p *int32, v int32) int32 {
	vsched.Point()
	return atomic.SwapInt32(p, v)
}

// CompareAndSwapInt32 as in sync/atomic.
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vsched.Point()
	return atomic.CompareAndSwapInt32(p, o, n)
}

// AddInt32 as in sync/atomic.
func AddInt32(p *int32, d int32) int32 {
	vsched.Point()
	return atomic.AddInt32(p, d)
}

// Int32 as in sync/atomic.
type Int32 struct{ v atomic.Int32 }

// Add as in sync/atomic.
func (x *Int32) Add(d int32) int32 {
	vsched.Point()
	return x.v.Add(d)
}

// AndInt32 as in sync/atomic.
func AndInt32(p *int32, m int32) int32 {
	vsched.Point()
	return atomic.AndInt32(p, m)
}

// And as in sync/atomic.
func (x *Int32) And(m int32) int32 {
	vsched.Point()
	return x.v.And(m)
}

// OrInt32 as in sync/atomic.
func OrInt32(p *int32, m int32) int32 {
	vsched.Point()
	return atomic.OrInt32(p, m)
}

// Or as in sync/atomic.
func (x *Int32) Or(m int32) int32 {
	vsched.Point()
	return x.v.Or(m)
}

// LoadInt64 as in sync/atomic.
func LoadInt64(p *int64) int64 {
	vsched.Point()
	return atomic.LoadInt64(p)
}

// StoreInt64 as in sync/atomic.
func StoreInt64(p *int64, v int64) {
	vsched.Point()
	atomic.StoreInt64(p, v)
}

// SwapInt64 as in sync/atomic.
func SwapInt64(p *int64, v int64) int64 {
	vsched.Point()
	return atomic.SwapInt64(p, v)
}

// CompareAndSwapInt64 as in sync/atomic.
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vsched.Point()
	return atomic.CompareAndSwapInt64(p, o, n)
}

// AddInt64 as in sync/atomic.
func AddInt64(p *int64, d int64) int64 {
	vsched.Point()
	return atomic.AddInt64(p, d)
}

// Int64 as in sync/atomic.
type Int64 struct{ v atomic.Int64 }

// Add as in sync/atomic.
func (x *Int64) Add(d int64) int64 {
	vsched.Point()
	return x.v.Add(d)
}

// AndInt64 as in sync/atomic.
func AndInt64(p *int64, m int64) int64 {
	vsched.Point()
	return atomic.AndInt64(p, m)
}

// And as in sync/atomic.
func (x *Int64) And(m int64) int64 {
	vsched.Point()
	return x.v.And(m)
}

// OrInt64 as in sync/atomic.
func OrInt64(p *int64, m int64) int64 {
	vsched.Point()
	return atomic.OrInt64(p, m)
}

// Or as in sync/atomic.
func (x *Int64) Or(m int64) int64 {
	vsched.Point()
	return x.v.Or(m)
}

// LoadUint32 as in sync/atomic.
func LoadUint32(p *uint32) uint32 {
	vsched.Point()
	return atomic.LoadUint32(p)
}

// StoreUint32 as in sync/atomic.
func StoreUint32(p *uint32, v uint32) {
	vsched.Point()
	atomic.StoreUint32(p, v)
}

// SwapUint32 as in sync/atomic.
func SwapUint32(p *uint32, v uint32) uint32 {
	vsched.Point()
	return atomic.SwapUint32(p, v)
}

// CompareAndSwapUint32 as in sync/atomic.
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vsched.Point()
	return atomic.CompareAndSwapUint32(p, o, n)
}

// AddUint32 as in sync/atomic.
func AddUint32(p *uint32, d uint32) uint32 {
	vsched.Point()
	return atomic.AddUint32(p, d)
}

// Uint32 as in sync/atomic.
type Uint32 struct{ v atomic.Uint32 }

// Add as in sync/atomic.
func (x *Uint32) Add(d uint32) uint32 {
	vsched.Point()
	return x.v.Add(d)
}

// AndUint32 as in sync/atomic.
func AndUint32(p *uint32, m uint32) uint32 {
	vsched.Point()
	return atomic.AndUint32(p, m)
}

// And as in sync/atomic.
func (x *Uint32) And(m uint32) uint32 {
	vsched.Point()
	return x.v.And(m)
}

// OrUint32 as in sync/atomic.
func OrUint32(p *uint32, m uint32) uint32 {
	vsched.Point()
	return atomic.OrUint32(p, m)
}

// Or as in sync/atomic.
func (x *Uint32) Or(m uint32) uint32 {
	vsched.Point()
	return x.v.Or(m)
}

// LoadUint64 as in sync/atomic.
func LoadUint64(p *uint64) uint64 {
	vsched.Point()
	return atomic.LoadUint64(p)
}

// StoreUint64 as in sync/atomic.
func StoreUint64(p *uint64, v uint64) {
	vsched.Point()
	atomic.StoreUint64(p, v)
}

// SwapUint64 as in sync/atomic.
func SwapUint64(p *uint64, v uint64) uint64 {
	vsched.Point()
	return atomic.SwapUint64(p, v)
}

// CompareAndSwapUint64 as in sync/atomic.
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vsched.Point()
	return atomic.CompareAndSwapUint64(p, o, n)
}

// AddUint64 as in sync/atomic.
func AddUint64(p *uint64, d uint64) uint64 {
	vsched.Point()
	return atomic.AddUint64(p, d)
}

// Uint64 as in sync/atomic.
type Uint64 struct{ v atomic.Uint64 }

// Add as in sync/atomic.
func (x *Uint64) Add(d uint64) uint64 {
	vsched.Point()
	return x.v.Add(d)
}

// AndUint64 as in sync/atomic.
func AndUint64(p *uint64, m uint64) uint64 {
	vsched.Point()
	return atomic.AndUint64(p, m)
}

// And as in sync/atomic.
func (x *Uint64) And(m uint64) uint64 {
	vsched.Point()
	return x.v.And(m)
}

// OrUint64 as in sync/atomic.
func OrUint64(p *uint64, m uint64) uint64 {
	vsched.Point()
	return atomic.OrUint64(p, m)
}

// Or as in sync/atomic.
func (x *Uint64) Or(m uint64) uint64 {
	vsched.Point()
	return x.v.Or(m)
}

// LoadUintptr as in sync/atomic.
func LoadUintptr(p *uintptr) uintptr {
	vsched.Point()
	return atomic.LoadUintptr(p)
}

// StoreUintptr as in sync/atomic.
func StoreUintptr(p *uintptr, v uintptr) {
	vsched.Point()
	atomic.StoreUintptr(p, v)
}

// SwapUintptr as in sync/atomic.
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	vsched.Point()
	return atomic.SwapUintptr(p, v)
}

// CompareAndSwapUintptr as in sync/atomic.
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vsched.Point()
	return atomic.CompareAndSwapUintptr(p, o, n)
}

// AddUintptr as in sync/atomic.
func AddUintptr(p *uintptr, d uintptr) uintptr {
	vsched.Point()
	return atomic.AddUintptr(p, d)
}

// Uintptr as in sync/atomic.
type Uintptr struct{ v atomic.Uintptr }

// Add as in sync/atomic.
func (x *Uintptr) Add(d uintptr) uintptr {
	vsched.Point()
	return x.v.Add(d)
}

// AndUintptr as in sync/atomic.
func AndUintptr(p *uintptr, m uintptr) uintptr {
	vsched.Point()
	return atomic.AndUintptr(p, m)
}

// And as in sync/atomic.
func (x *Uintptr) And(m uintptr) uintptr {
	vsched.Point()
	return x.v.And(m)
}

// OrUintptr as in sync/atomic.
func OrUintptr(p *uintptr, m uintptr) uintptr {
	vsched.Point()
	return atomic.OrUintptr(p, m)
}

// Or as in sync/atomic.
func (x *Uintptr) Or(m uintptr) uintptr {
	vsched.Point()
	return x.v.Or(m)
}

// LoadPointer as in sync/atomic.
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	vsched.Point()
	return atomic.LoadPointer(p)
}

// StorePointer as in sync/atomic.
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	vsched.Point()
	atomic.StorePointer(p, v)
}

// SwapPointer as in sync/atomic.
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vsched.Point()
	return atomic.SwapPointer(p, v)
}

// CompareAndSwapPointer as in sync/atomic.
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vsched.Point()
	return atomic.CompareAndSwapPointer(p, o, n)
}

// Load as in sync/atomic.
func (x *Int32) Load() int32 {
	vsched.Point()
	return x.v.Load()
}

// Store as in sync/atomic.
func (x *Int32) Store(v int32) {
	vsched.Point()
	x.v.Store(v)
}

// Swap as in sync/atomic.
func (x *Int32) Swap(v int32) int32 {
	vsched.Point()
	return x.v.Swap(v)
}

// CompareAndSwap as in sync/atomic.
func (x *Int32) CompareAndSwap(o, n int32) bool {
	vsched.Point()
	return x.v.CompareAndSwap(o, n)
}

// Load as in sync/atomic.
func (x *Int64) Load() int64 {
	vsched.Point()
	return x.v.Load()
}

// Store as in sync/atomic.
func (x *Int64) Store(v int64) {
	vsched.Point()
	x.v.Store(v)
}

// Swap as in sync/atomic.
func (x *Int64) Swap(v int64) int64 {
	vsched.Point()
	return x.v.Swap(v)
}

// CompareAndSwap as in sync/atomic.
func (x *Int64) CompareAndSwap(o, n int64) bool {
	vsched.Point()
	return x.v.CompareAndSwap(o, n)
}

// Load as in sync/atomic.
func (x *Uint32) Load() uint32 {
	vsched.Point()
	return x.v.Load()
}

// Store as in sync/atomic.
func (x *Uint32) Store(v uint32) {
	vsched.Point()
	x.v.Store(v)
}

// Swap as in sync/atomic.
func (x *Uint32) Swap(v uint32) uint32 {
	vsched.Point()
	return x.v.Swap(v)
}

// CompareAndSwap as in sync/atomic.
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	vsched.Point()
	return x.v.CompareAndSwap(o, n)
}

// Load as in sync/atomic.
func (x *Uint64) Load() uint64 {
	vsched.Point()
	return x.v.Load()
}

// Store as in sync/atomic.
func (x *Uint64) Store(v uint64) {
	vsched.Point()
	x.v.Store(v)
}

// Swap as in sync/atomic.
func (x *Uint64) Swap(v uint64) uint64 {
	vsched.Point()
	return x.v.Swap(v)
}

// CompareAndSwap as in sync/atomic.
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	vsched.Point()
	return x.v.CompareAndSwap(o, n)
}

// Load as in sync/atomic.
func (x *Uintptr) Load() uintptr {
	vsched.Point()
	return x.v.Load()
}

// Store as in sync/atomic.
func (x *Uintptr) Store(v uintptr) {
	vsched.Point()
	x.v.Store(v)
}

// Swap as in sync/atomic.
func (x *Uintptr) Swap(v uintptr) uintptr {
	vsched.Point()
	return x.v.Swap(v)
}

// CompareAndSwap as in sync/atomic.
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	vsched.Point()
	return x.v.CompareAndSwap(o, n)
}

// Bool as in sync/atomic.
type Bool struct{ v atomic.Bool }

// Load as in sync/atomic.
func (x *Bool) Load() bool {
	vsched.Point()
	return x.v.Load()
}

// Store as in sync/atomic.
func (x *Bool) Store(v bool) {
	vsched.Point()
	x.v.Store(v)
}

// Swap as in sync/atomic.
func (x *Bool) Swap(v bool) bool {
	vsched.Point()
	return x.v.Swap(v)
}

// CompareAndSwap as in sync/atomic.
func (x *Bool) CompareAndSwap(o, n bool) bool {
	vsched.Point()
	return x.v.CompareAndSwap(o, n)
}

// Pointer as in sync/atomic.
type Pointer[T any] struct{ v atomic.Pointer[T] }

// Load as in sync/atomic.
func (x *Pointer[T]) Load() *T {
	vsched.Point()
	return x.v.Load()
}

// Store as in sync/atomic.
func (x *Pointer[T]) Store(v *T) {
	vsched.Point()
	x.v.Store(v)
}

// Swap as in sync/atomic.
func (x *Pointer[T]) Swap(v *T) *T {
	vsched.Point()
	return x.v.Swap(v)
}

// CompareAndSwap as in sync/atomic.
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vsched.Point()
	return x.v.CompareAndSwap(o, n)
}

// Value as in sync/atomic.
type Value struct{ v atomic.Value }

// Load as in sync/atomic.
func (x *Value) Load() any {
	vsched.Point()
	return x.v.Load()
}

// Store as in sync/atomic.
func (x *Value) Store(v any) {
	vsched.Point()
	x.v.Store(v)
}

// Swap as in sync/atomic.
func (x *Value) Swap(v any) any {
	vsched.Point()
	return x.v.Swap(v)
}

// CompareAndSwap as in sync/atomic.
func (x *Value) CompareAndSwap(o, n any) bool {
	vsched.Point()
	return x.v.CompareAndSwap(o, n)
}
