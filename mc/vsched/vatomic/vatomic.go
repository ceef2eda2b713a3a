// Package vatomic stands in for sync/atomic in instrumented code.
package vatomic

import (
	"unsafe"

	"vmc/vsched"
)

var vc vsched.VC
var ep uint64

func pt() {
	if vsched.Aborting() {
		return
	}
	vsched.Point("atomic")
	if e := vsched.Epoch(); e != ep {
		ep, vc = e, nil
	}
	vsched.Acquire(&vc)
	vsched.Release(&vc)
}

type ints interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func add[T ints](p *T, d T) T { pt(); *p += d; return *p }
func load[T any](p *T) T      { pt(); return *p }
func store[T any](p *T, v T)  { pt(); *p = v }
func swap[T any](p *T, v T) T { pt(); o := *p; *p = v; return o }
func cas[T comparable](p *T, o, n T) bool {
	pt()
	if *p == o {
		*p = n
		return true
	}
	return false
}

func AddInt32(p *int32, d int32) int32                 { return add(p, d) }
func AddInt64(p *int64, d int64) int64                 { return add(p, d) }
func AddUint32(p *uint32, d uint32) uint32             { return add(p, d) }
func AddUint64(p *uint64, d uint64) uint64             { return add(p, d) }
func LoadInt32(p *int32) int32                         { return load(p) }
func LoadInt64(p *int64) int64                         { return load(p) }
func LoadUint32(p *uint32) uint32                      { return load(p) }
func LoadUint64(p *uint64) uint64                      { return load(p) }
func StoreInt32(p *int32, v int32)                     { store(p, v) }
func StoreInt64(p *int64, v int64)                     { store(p, v) }
func StoreUint32(p *uint32, v uint32)                  { store(p, v) }
func StoreUint64(p *uint64, v uint64)                  { store(p, v) }
func SwapInt32(p *int32, v int32) int32                { return swap(p, v) }
func SwapInt64(p *int64, v int64) int64                { return swap(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { return swap(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { return swap(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool    { return cas(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool    { return cas(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { return cas(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { return cas(p, o, n) }

type num[T ints] struct{ v T }

func (x *num[T]) Load() T                    { return load(&x.v) }
func (x *num[T]) Store(v T)                  { store(&x.v, v) }
func (x *num[T]) Add(d T) T                  { return add(&x.v, d) }
func (x *num[T]) Swap(v T) T                 { return swap(&x.v, v) }
func (x *num[T]) CompareAndSwap(o, n T) bool { return cas(&x.v, o, n) }

type Int32 struct{ num[int32] }
type Int64 struct{ num[int64] }
type Uint32 struct{ num[uint32] }
type Uint64 struct{ num[uint64] }

type Bool struct{ v bool }

func (x *Bool) Load() bool                    { return load(&x.v) }
func (x *Bool) Store(v bool)                  { store(&x.v, v) }
func (x *Bool) Swap(v bool) bool              { return swap(&x.v, v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { return cas(&x.v, o, n) }

type Value struct{ v interface{} }

func (x *Value) Load() interface{}   { return load(&x.v) }
func (x *Value) Store(v interface{}) { store(&x.v, v) }

type Pointer[T any] struct{ p *T }

func (x *Pointer[T]) Load() *T                    { return load(&x.p) }
func (x *Pointer[T]) Store(v *T)                  { store(&x.p, v) }
func (x *Pointer[T]) Swap(v *T) *T                { return swap(&x.p, v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { return cas(&x.p, o, n) }

func and[T ints](p *T, m T) T { pt(); o := *p; *p &= m; return o }
func or[T ints](p *T, m T) T  { pt(); o := *p; *p |= m; return o }

func AddUintptr(p *uintptr, d uintptr) uintptr            { return add(p, d) }
func LoadUintptr(p *uintptr) uintptr                      { return load(p) }
func StoreUintptr(p *uintptr, v uintptr)                  { store(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr           { return swap(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool { return cas(p, o, n) }
func AndInt32(p *int32, m int32) int32                    { return and(p, m) }
func AndInt64(p *int64, m int64) int64                    { return and(p, m) }
func AndUint32(p *uint32, m uint32) uint32                { return and(p, m) }
func AndUint64(p *uint64, m uint64) uint64                { return and(p, m) }
func OrInt32(p *int32, m int32) int32                     { return or(p, m) }
func OrInt64(p *int64, m int64) int64                     { return or(p, m) }
func OrUint32(p *uint32, m uint32) uint32                 { return or(p, m) }
func OrUint64(p *uint64, m uint64) uint64                 { return or(p, m) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer                      { return load(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer)                  { store(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer    { return swap(p, v) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool { return cas(p, o, n) }

func (x *num[T]) And(m T) T { return and(&x.v, m) }
func (x *num[T]) Or(m T) T  { return or(&x.v, m) }

type Uintptr struct{ num[uintptr] }

func (x *Value) Swap(v interface{}) interface{}       { return swap(&x.v, v) }
func (x *Value) CompareAndSwap(o, n interface{}) bool { return cas(&x.v, o, n) }
