//go:build go1.22

package zzsim

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"sort"
	"sync/atomic"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------- map order

type mapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// MapIter iterates in an order chosen by the simulator.
func MapIter[M ~map[K]V, K comparable, V any](m M) (K, V, *mapIter[K, V]) {
	var k K
	var v V
	it := &mapIter[K, V]{m: MapR(m, -1)}
	for x := range m {
		it.keys = append(it.keys, x)
	}
	if len(it.keys) > 1 {
		sortKeys(it.keys)
		shuffle(len(it.keys), func(i, j int) { it.keys[i], it.keys[j] = it.keys[j], it.keys[i] })
	}
	return k, v, it
}

func (it *mapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		x := it.keys[it.i]
		it.i++
		y, ok := MapR(it.m, -1)[x]
		if !ok {
			continue
		}
		if k != nil {
			*k = x
		}
		if v != nil {
			*v = y
		}
		return true
	}
	return false
}

// MapR and MapW announce an access to a built-in map, which Go does not allow
// to overlap with a write by another goroutine ("fatal error: concurrent map
// ..."): the access takes a moment during which other tasks may be scheduled,
// and an overlapping access to the same map is the failure Go would report.
func MapR[M ~map[K]V, K comparable, V any](m M, site int) M {
	mapAccess(*(*unsafe.Pointer)(unsafe.Pointer(&m)), false, site)
	return m
}
func MapW[M ~map[K]V, K comparable, V any](m M, site int) M {
	mapAccess(*(*unsafe.Pointer)(unsafe.Pointer(&m)), true, site)
	return m
}

func mapAccess(p unsafe.Pointer, write bool, site int) {
	w := W
	if w == nil || p == nil || w.over || w.cur.killed {
		return
	}
	t := w.cur
	if w.mapBusy > 0 {
		for _, o := range w.live {
			if o != t && o.mapPtr == p && !o.killed && (write || o.mapWrite) {
				what := map[bool]string{false: "read", true: "write"}
				Fail("map-race", "fatal error: concurrent map %s and map %s: task %s at %s, task %s at %s", what[o.mapWrite], what[write],
					o.Name, siteName(o.mapSite), t.Name, siteName(site))
			}
		}
	}
	if ctr -= 4; ctr < 0 {
		t.mapPtr, t.mapWrite, t.mapSite = p, write, site
		w.mapBusy++
		defer func() { t.mapPtr = nil; w.mapBusy-- }()
		slow(site)
	}
}

// MapKeys is reflect.Value.MapKeys in an order chosen by the simulator.
func MapKeys(v reflect.Value) []reflect.Value {
	ks := v.MapKeys()
	if len(ks) > 1 {
		sort.Slice(ks, func(i, j int) bool { return cmpAny(ks[i], ks[j]) < 0 })
		shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	}
	return ks
}

func sortKeys[K comparable](ks []K) {
	sort.Slice(ks, func(i, j int) bool { return cmpAny(reflect.ValueOf(&ks[i]).Elem(), reflect.ValueOf(&ks[j]).Elem()) < 0 })
}

func cmpAny(a, b reflect.Value) int {
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cmp3(a.Int() < b.Int(), a.Int() > b.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return cmp3(a.Uint() < b.Uint(), a.Uint() > b.Uint())
	case reflect.String:
		return cmp3(a.String() < b.String(), a.String() > b.String())
	case reflect.Bool:
		return cmp3(!a.Bool() && b.Bool(), a.Bool() && !b.Bool())
	case reflect.Float32, reflect.Float64:
		return cmp3(a.Float() < b.Float(), a.Float() > b.Float())
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := cmpAny(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := cmpAny(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return cmp3(a.IsNil() && !b.IsNil(), !a.IsNil() && b.IsNil())
		}
		if at, bt := a.Elem().Type().String(), b.Elem().Type().String(); at != bt {
			return cmp3(at < bt, at > bt)
		}
		if a.CanInterface() && b.CanInterface() {
			at, aok := a.Interface().(reflect.Type)
			bt, bok := b.Interface().(reflect.Type)
			if aok && bok && (at == bt || at.String() != bt.String()) {
				return cmp3(at.String() < bt.String(), at.String() > bt.String())
			}
		}
		return cmpAny(a.Elem(), b.Elem())
	}
	if W != nil {
		W.stats["determinism.unordered_map"]++
	}
	return 0
}
func cmp3(lt, gt bool) int {
	if lt {
		return -1
	}
	if gt {
		return 1
	}
	return 0
}

// ---------------------------------------------------------------- atomics

func ap() {
	w := W
	if w != nil && !w.cur.killed {
		syncPoint()
	}
}
func AtomicAddInt32(p *int32, d int32) int32                 { ap(); return atomic.AddInt32(p, d) }
func AtomicAddInt64(p *int64, d int64) int64                 { ap(); return atomic.AddInt64(p, d) }
func AtomicAddUint32(p *uint32, d uint32) uint32             { ap(); return atomic.AddUint32(p, d) }
func AtomicAddUint64(p *uint64, d uint64) uint64             { ap(); return atomic.AddUint64(p, d) }
func AtomicAddUintptr(p *uintptr, d uintptr) uintptr         { ap(); return atomic.AddUintptr(p, d) }
func AtomicLoadInt32(p *int32) int32                         { ap(); return atomic.LoadInt32(p) }
func AtomicLoadInt64(p *int64) int64                         { ap(); return atomic.LoadInt64(p) }
func AtomicLoadUint32(p *uint32) uint32                      { ap(); return atomic.LoadUint32(p) }
func AtomicLoadUint64(p *uint64) uint64                      { ap(); return atomic.LoadUint64(p) }
func AtomicLoadUintptr(p *uintptr) uintptr                   { ap(); return atomic.LoadUintptr(p) }
func AtomicLoadPointer(p *unsafe.Pointer) unsafe.Pointer     { ap(); return atomic.LoadPointer(p) }
func AtomicStoreInt32(p *int32, v int32)                     { ap(); atomic.StoreInt32(p, v) }
func AtomicStoreInt64(p *int64, v int64)                     { ap(); atomic.StoreInt64(p, v) }
func AtomicStoreUint32(p *uint32, v uint32)                  { ap(); atomic.StoreUint32(p, v) }
func AtomicStoreUint64(p *uint64, v uint64)                  { ap(); atomic.StoreUint64(p, v) }
func AtomicStoreUintptr(p *uintptr, v uintptr)               { ap(); atomic.StoreUintptr(p, v) }
func AtomicStorePointer(p *unsafe.Pointer, v unsafe.Pointer) { ap(); atomic.StorePointer(p, v) }
func AtomicSwapInt32(p *int32, v int32) int32                { ap(); return atomic.SwapInt32(p, v) }
func AtomicSwapInt64(p *int64, v int64) int64                { ap(); return atomic.SwapInt64(p, v) }
func AtomicSwapUint32(p *uint32, v uint32) uint32            { ap(); return atomic.SwapUint32(p, v) }
func AtomicSwapUint64(p *uint64, v uint64) uint64            { ap(); return atomic.SwapUint64(p, v) }
func AtomicSwapUintptr(p *uintptr, v uintptr) uintptr        { ap(); return atomic.SwapUintptr(p, v) }
func AtomicSwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	ap()
	return atomic.SwapPointer(p, v)
}
func AtomicCompareAndSwapInt32(p *int32, o, n int32) bool {
	ap()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func AtomicCompareAndSwapInt64(p *int64, o, n int64) bool {
	ap()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func AtomicCompareAndSwapUint32(p *uint32, o, n uint32) bool {
	ap()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func AtomicCompareAndSwapUint64(p *uint64, o, n uint64) bool {
	ap()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AtomicCompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	ap()
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func AtomicCompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	ap()
	return atomic.CompareAndSwapPointer(p, o, n)
}

type AtomicNum[T int32 | int64 | uint32 | uint64 | uintptr] struct{ v T }

func (a *AtomicNum[T]) Load() T    { ap(); return a.v }
func (a *AtomicNum[T]) Store(x T)  { ap(); a.v = x }
func (a *AtomicNum[T]) Add(d T) T  { ap(); a.v += d; return a.v }
func (a *AtomicNum[T]) Swap(x T) T { ap(); o := a.v; a.v = x; return o }
func (a *AtomicNum[T]) And(x T) T  { ap(); o := a.v; a.v &= x; return o }
func (a *AtomicNum[T]) Or(x T) T   { ap(); o := a.v; a.v |= x; return o }
func (a *AtomicNum[T]) CompareAndSwap(o, n T) bool {
	ap()
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

type AtomicInt32 = AtomicNum[int32]
type AtomicInt64 = AtomicNum[int64]
type AtomicUint32 = AtomicNum[uint32]
type AtomicUint64 = AtomicNum[uint64]
type AtomicUintptr = AtomicNum[uintptr]

type AtomicBool struct{ v bool }

func (a *AtomicBool) Load() bool       { ap(); return a.v }
func (a *AtomicBool) Store(x bool)     { ap(); a.v = x }
func (a *AtomicBool) Swap(x bool) bool { ap(); o := a.v; a.v = x; return o }
func (a *AtomicBool) CompareAndSwap(o, n bool) bool {
	ap()
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

type AtomicPointer[T any] struct{ v *T }

func (a *AtomicPointer[T]) Load() *T     { ap(); return a.v }
func (a *AtomicPointer[T]) Store(x *T)   { ap(); a.v = x }
func (a *AtomicPointer[T]) Swap(x *T) *T { ap(); o := a.v; a.v = x; return o }
func (a *AtomicPointer[T]) CompareAndSwap(o, n *T) bool {
	ap()
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

type AtomicValue struct{ v interface{} }

func (a *AtomicValue) Load() interface{} { ap(); return a.v }
func (a *AtomicValue) Store(x interface{}) {
	ap()
	if x == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	if a.v != nil && reflect.TypeOf(a.v) != reflect.TypeOf(x) {
		panic("sync/atomic: store of inconsistently typed value into Value")
	}
	a.v = x
}
func (a *AtomicValue) Swap(x interface{}) interface{} { ap(); o := a.v; a.v = x; return o }
func (a *AtomicValue) CompareAndSwap(o, n interface{}) bool {
	ap()
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

// ---------------------------------------------------------------- time

func Now() time.Time {
	w := W
	if w == nil {
		return time.Unix(0, timeBase).UTC()
	}
	return time.Unix(0, timeBase+w.clock+w.Skew+(w.lastCtr-ctr)*10).UTC()
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration) {
	w := enter()
	if w == nil {
		return
	}
	t := w.cur
	fired := false
	w.addTimer(d, func() { fired = true; w.wakeTask(t) })
	for !fired {
		w.block(&fired, "sleep")
	}
}

type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	st *simTimer
}

func (t *Timer) start(d time.Duration) {
	w := W
	t.st = w.addTimer(d, func() {
		if t.f != nil {
			w.newTask("timer", 0, t.f)
			return
		}
		h := w.ch(chptr(t.c), 1, t.c)
		if h.canSend() {
			h.doSend(w, time.Unix(0, timeBase+w.clock).UTC())
		}
	})
}
func NewTimer(d time.Duration) *Timer {
	needW()
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}
func AfterFunc(d time.Duration, f func()) *Timer {
	needW()
	t := &Timer{f: f}
	t.start(d)
	return t
}
func (t *Timer) Stop() bool {
	if W == nil || t.st == nil {
		return false
	}
	a := t.st.active
	t.st.active = false
	return a
}
func (t *Timer) Reset(d time.Duration) bool {
	a := t.Stop()
	if W != nil && !W.cur.killed {
		t.start(d)
	}
	return a
}
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	d    time.Duration
	st   *simTimer
	stop bool
}

func NewTicker(d time.Duration) *Ticker {
	needW()
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}
func (t *Ticker) arm() {
	w := W
	t.st = w.addTimer(t.d, func() {
		if t.stop {
			return
		}
		h := w.ch(chptr(t.c), 1, t.c)
		if h.canSend() {
			h.doSend(w, time.Unix(0, timeBase+w.clock).UTC())
		}
		t.arm()
	})
}
func (t *Ticker) Stop() {
	t.stop = true
	if t.st != nil {
		t.st.active = false
	}
}
func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	t.stop, t.d = false, d
	if W != nil {
		t.arm()
	}
}
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// ---------------------------------------------------------------- randomness

type entropy struct{}

// EntropyFault, when set, decides the outcome of an entropy read.
var EntropyFault func(p []byte) (int, error, bool)

func (entropy) Read(p []byte) (int, error) {
	if f := EntropyFault; f != nil && W != nil {
		if n, err, used := f(p); used {
			return n, err
		}
	}
	return FillRandom(p), nil
}

// FillRandom fills p from the environment stream (not recorded byte by byte).
func FillRandom(p []byte) int {
	if W == nil {
		for i := range p {
			p[i] = byte(i * 7)
		}
		return len(p)
	}
	s := W.stream("entropy")
	x := uint64(s.draw(1<<31-1, func() int { return s.uniform(1<<31 - 1) }))
	for i := range p {
		p[i] = byte(splitmix(&x))
	}
	return len(p)
}

var RandReader io.Reader = entropy{}

func CryptoRead(p []byte) (int, error) { return io.ReadFull(RandReader, p) }

func mr(n int) int {
	if W == nil {
		return 0
	}
	return W.env.draw(n, func() int { return W.env.uniform(n) })
}
func MRandInt() int             { return mr(1<<31 - 1) }
func MRandIntn(n int) int       { return mr(n) }
func MRandInt31() int32         { return int32(mr(1<<31 - 1)) }
func MRandInt31n(n int32) int32 { return int32(mr(int(n))) }
func MRandInt63() int64         { return int64(mr(1<<31-1))<<31 | int64(mr(1<<31-1)) }
func MRandInt63n(n int64) int64 { return MRandInt63() % n }
func MRandUint32() uint32       { return uint32(mr(1<<31-1)) ^ uint32(mr(1<<16))<<16 }
func MRandUint64() uint64       { return uint64(MRandUint32())<<32 | uint64(MRandUint32()) }
func MRandFloat64() float64     { return float64(mr(1<<30)) / (1 << 30) }
func MRandFloat32() float32     { return float32(mr(1<<20)) / (1 << 20) }
func MRandSeed(int64)           {}
func MRandRead(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(mr(256))
	}
	return len(p), nil
}
func MRandPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func MRandShuffle(n int, swap func(i, j int)) { shuffle(n, swap) }

// ---------------------------------------------------------------- runtime/os

func Gosched()                        { syncPoint() }
func SetFinalizer(obj, f interface{}) {}
func GC()                             {}

// Console is a replaceable output stream.
type Console struct{ W io.Writer }

func (c *Console) Write(p []byte) (int, error) {
	if c.W == nil {
		return len(p), nil
	}
	return c.W.Write(p)
}

var Stdout = &Console{}
var Stderr = &Console{}

// RotateLogs stands in for the rotating file writer of the log package: the
// harness owns the file and its faults.
type RotateLogs struct {
	Pattern string
	W       io.Writer
}
type RotateOption interface{}

var RotateOpen func(pattern string) (io.Writer, error)

func RotateNew(pattern string, opts ...RotateOption) (*RotateLogs, error) {
	r := &RotateLogs{Pattern: pattern}
	if RotateOpen != nil {
		wr, err := RotateOpen(pattern)
		if err != nil {
			return nil, err
		}
		r.W = wr
	}
	return r, nil
}
func (r *RotateLogs) Write(p []byte) (int, error) {
	if r.W == nil {
		return len(p), nil
	}
	return r.W.Write(p)
}
func (r *RotateLogs) Close() error               { return nil }
func (r *RotateLogs) Rotate() error              { return nil }
func RotateWithDur(d time.Duration) RotateOption { return nil }
func RotateWithCount(n uint) RotateOption        { return nil }
func RotateWithString(s string) RotateOption     { return nil }

// ---------------------------------------------------------------- hooks

var hooks = map[string]interface{}{}

// SetHook registers a typed replacement for a function of a dependency.
func SetHook(name string, f interface{}) { hooks[name] = f }

// Hook returns the registered replacement, which must have the same type.
func Hook[F any](name string, orig F) F {
	h, ok := hooks[name]
	if !ok {
		return orig
	}
	return h.(F)
}

var _ = bytes.NewReader
var _ = fmt.Sprint

// Zero returns the zero value of v's type.
func Zero[T any](v T) T {
	var z T
	return z
}
