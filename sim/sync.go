//go:build go1.22

package zzsim

import (
	"reflect"
	"runtime"
	"unsafe"
)

// Locker mirrors sync.Locker.
type locker interface {
	Lock()
	Unlock()
}

func (t *Task) hold(o interface{ forceRelease(bool) }, read bool) {
	t.held = append(t.held, heldLock{o, read})
}
func (t *Task) drop(o interface{ forceRelease(bool) }, read bool) bool {
	for i := len(t.held) - 1; i >= 0; i-- {
		if t.held[i].obj == o && t.held[i].read == read {
			t.held = append(t.held[:i:i], t.held[i+1:]...)
			return true
		}
	}
	return false
}

// release removes the hold wherever it is (locks may be released by another task).
func (w *World) release(o interface{ forceRelease(bool) }, read bool) {
	if w.cur.drop(o, read) {
		return
	}
	for _, t := range w.live {
		if t.drop(o, read) {
			return
		}
	}
}

// enter returns the world or nil when simulation is off; killed tasks unwind.
func enter() *World {
	w := W
	if w != nil && w.cur.killed {
		runtime.Goexit()
	}
	return w
}

// ---------------------------------------------------------------- Mutex

type Mutex struct {
	locked bool
	epoch  int
}

func (m *Mutex) sync() {
	if m.epoch != worldSeq {
		m.epoch, m.locked = worldSeq, false
	}
}
func (m *Mutex) Lock() {
	w := enter()
	if w == nil {
		return
	}
	syncPoint()
	m.sync()
	for m.locked {
		w.stats["sync.contended"]++
		w.block(m, "mutex")
	}
	m.locked = true
	w.cur.hold(m, false)
}
func (m *Mutex) TryLock() bool {
	w := enter()
	if w == nil {
		return true
	}
	syncPoint()
	m.sync()
	if m.locked {
		return false
	}
	m.locked = true
	w.cur.hold(m, false)
	return true
}
func (m *Mutex) Unlock() {
	w := W
	if w == nil || w.cur.killed {
		return
	}
	m.sync()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	w.release(m, false)
	m.locked = false
	w.wakeAll(m)
	syncPoint()
}
func (m *Mutex) forceRelease(bool) {
	m.locked = false
	if W != nil {
		W.wakeAll(m)
	}
}

// ---------------------------------------------------------------- RWMutex

type RWMutex struct {
	writer   bool
	readers  int
	wwaiting int
	epoch    int
}
type rwRead struct{ m *RWMutex }

func (m *RWMutex) sync() {
	if m.epoch != worldSeq {
		*m = RWMutex{epoch: worldSeq}
	}
}
func (m *RWMutex) Lock() {
	w := enter()
	if w == nil {
		return
	}
	syncPoint()
	m.sync()
	if m.writer || m.readers > 0 {
		m.wwaiting++
		t := w.cur
		for m.writer || m.readers > 0 {
			w.stats["sync.contended"]++
			w.block(m, "rwmutex (write)")
		}
		_ = t
		m.wwaiting--
	}
	m.writer = true
	w.cur.hold(m, false)
}
func (m *RWMutex) Unlock() {
	w := W
	if w == nil || w.cur.killed {
		return
	}
	m.sync()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	w.release(m, false)
	m.writer = false
	m.admit()
	syncPoint()
}

// admit lets readers that were already waiting in, as sync.RWMutex does.
func (m *RWMutex) admit() {
	w := W
	if w == nil {
		return
	}
	for _, t := range w.live {
		if t.st == tBlocked && t.waitOn == (rwRead{m}) {
			t.granted = true
			m.readers++
			t.hold(m, true)
			t.st = tRunnable
		}
	}
	w.wakeAll(m)
}
func (m *RWMutex) RLock() {
	w := enter()
	if w == nil {
		return
	}
	syncPoint()
	m.sync()
	if m.writer || m.wwaiting > 0 {
		t := w.cur
		t.granted = false
		for !t.granted {
			w.stats["sync.contended"]++
			w.block(rwRead{m}, "rwmutex (read)")
			if !t.granted && !m.writer && m.wwaiting == 0 {
				m.readers++
				t.hold(m, true)
				t.granted = true
			}
		}
		t.granted = false
		return
	}
	m.readers++
	w.cur.hold(m, true)
}
func (m *RWMutex) RUnlock() {
	w := W
	if w == nil || w.cur.killed {
		return
	}
	m.sync()
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	w.release(m, true)
	m.readers--
	if m.readers == 0 {
		w.wakeAll(m)
	}
	syncPoint()
}
func (m *RWMutex) TryLock() bool {
	w := enter()
	if w == nil {
		return true
	}
	syncPoint()
	m.sync()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	w.cur.hold(m, false)
	return true
}
func (m *RWMutex) TryRLock() bool {
	w := enter()
	if w == nil {
		return true
	}
	syncPoint()
	m.sync()
	if m.writer || m.wwaiting > 0 {
		return false
	}
	m.readers++
	w.cur.hold(m, true)
	return true
}
func (m *RWMutex) RLocker() interface {
	Lock()
	Unlock()
} {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) forceRelease(read bool) {
	if read {
		if m.readers > 0 {
			m.readers--
		}
		if m.readers == 0 && W != nil {
			W.wakeAll(m)
		}
		return
	}
	m.writer = false
	m.wwaiting = 0
	m.admit()
}

// ---------------------------------------------------------------- WaitGroup

type WaitGroup struct {
	n     int
	epoch int
}

func (g *WaitGroup) sync() {
	if g.epoch != worldSeq {
		g.epoch, g.n = worldSeq, 0
	}
}
func (g *WaitGroup) Add(d int) {
	w := W
	if w == nil {
		return
	}
	if w.cur.killed {
		return
	}
	syncPoint()
	g.sync()
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		w.wakeAll(g)
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	w := enter()
	if w == nil {
		return
	}
	syncPoint()
	g.sync()
	if g.n > 0 {
		w.block(g, "waitgroup")
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(-1, func() { defer g.Done(); f() })
}

// ---------------------------------------------------------------- Once

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	w := enter()
	if w == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	syncPoint()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Reset lets harnesses re-arm a package-level Once between runs.
func (o *Once) Reset() { *o = Once{} }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// ---------------------------------------------------------------- Cond

type Cond struct {
	L interface {
		Lock()
		Unlock()
	}
	q []*condW
}
type condW struct {
	t  *Task
	ok bool
}

func NewCond(l interface {
	Lock()
	Unlock()
}) *Cond {
	return &Cond{L: l}
}
func (c *Cond) Wait() {
	w := enter()
	if w == nil {
		panic("zzsim: Cond.Wait outside a simulation")
	}
	cw := &condW{t: w.cur}
	c.q = append(c.q, cw)
	c.L.Unlock()
	for !cw.ok {
		w.block(cw, "cond")
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	w := W
	if w == nil || w.cur.killed {
		return
	}
	syncPoint()
	for len(c.q) > 0 {
		cw := c.q[0]
		c.q = c.q[1:]
		if cw.t.killed || cw.t.st == tExited {
			continue
		}
		cw.ok = true
		w.wakeTask(cw.t)
		return
	}
}
func (c *Cond) Broadcast() {
	w := W
	if w == nil || w.cur.killed {
		return
	}
	syncPoint()
	for _, cw := range c.q {
		cw.ok = true
		w.wakeTask(cw.t)
	}
	c.q = nil
}

// ---------------------------------------------------------------- Pool

type Pool struct {
	New   func() interface{}
	items []interface{}
	epoch int
}

func (p *Pool) sync() {
	if p.epoch != worldSeq {
		p.epoch, p.items = worldSeq, nil
	}
}
func (p *Pool) Get() interface{} {
	w := W
	if w != nil && !w.cur.killed {
		syncPoint()
		p.sync()
		if n := len(p.items); n > 0 {
			i := w.env.draw(n+1, func() int {
				if w.env.uniform(10) == 0 {
					return n // pretend the pool was emptied by the GC
				}
				if w.env.uniform(3) > 0 {
					return 0
				}
				return w.env.uniform(n)
			})
			if i < n {
				i = n - 1 - i
				x := p.items[i]
				p.items = append(p.items[:i:i], p.items[i+1:]...)
				w.stats["pool.reuse"]++
				return x
			}
			p.items = nil
			w.stats["pool.emptied"]++
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	w := W
	if x == nil || w == nil || w.cur.killed {
		return
	}
	syncPoint()
	p.sync()
	if len(p.items) < 64 {
		p.items = append(p.items, x)
	}
}

// ---------------------------------------------------------------- Map

type Map struct {
	m     map[interface{}]*mapEnt
	keys  []interface{}
	epoch int
}
type mapEnt struct{ v interface{} }

func (m *Map) at(k interface{}) (interface{}, bool) {
	e, ok := m.m[k]
	if !ok {
		return nil, false
	}
	return e.v, true
}
func (m *Map) set(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]*mapEnt{}
	}
	if e, ok := m.m[k]; ok {
		e.v = v
		return
	}
	m.m[k] = &mapEnt{v}
	m.keys = append(m.keys, k)
}
func (m *Map) del(k interface{}) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}
func (m *Map) Load(k interface{}) (interface{}, bool) {
	enter()
	syncPoint()
	return m.at(k)
}
func (m *Map) Store(k, v interface{}) {
	enter()
	syncPoint()
	m.set(k, v)
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	enter()
	syncPoint()
	if x, ok := m.at(k); ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	enter()
	syncPoint()
	x, ok := m.at(k)
	m.del(k)
	return x, ok
}
func (m *Map) Delete(k interface{}) {
	enter()
	syncPoint()
	m.del(k)
}
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	enter()
	syncPoint()
	x, ok := m.at(k)
	m.set(k, v)
	return x, ok
}
func (m *Map) CompareAndSwap(k, old, new interface{}) bool {
	enter()
	syncPoint()
	if x, ok := m.at(k); ok && x == old {
		m.set(k, new)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	enter()
	syncPoint()
	if x, ok := m.at(k); ok && x == old {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Clear() {
	enter()
	syncPoint()
	m.m, m.keys = nil, nil
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	enter()
	syncPoint()
	ks := append([]interface{}(nil), m.keys...)
	shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	for _, k := range ks {
		syncPoint()
		v, ok := m.at(k)
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}

func shuffle(n int, swap func(i, j int)) {
	w := W
	if w == nil || w.cur.killed {
		return
	}
	for i := n - 1; i > 0; i-- {
		j := i - w.env.draw(i+1, func() int { return w.env.uniform(i + 1) })
		swap(i, j)
	}
}

// ---------------------------------------------------------------- channels

type hchan struct {
	keep   interface{}
	cap    int
	buf    []interface{}
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}
type selState struct {
	t    *Task
	done bool
	idx  int
	val  interface{}
	ok   bool
	pan  bool
}
type waiter struct {
	s   *selState
	idx int
	val interface{}
}

func (w *World) ch(p unsafe.Pointer, c int, keep interface{}) *hchan {
	if p == nil {
		return nil
	}
	h := w.chans[uintptr(p)]
	if h == nil {
		h = &hchan{keep: keep, cap: c}
		w.chans[uintptr(p)] = h
	}
	return h
}

func chptr[C any](c C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func cast[T any](x interface{}) T {
	if x == nil {
		var z T
		return z
	}
	return x.(T)
}

func popW(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if x.s.done || x.s.t.killed {
			continue
		}
		return x
	}
	return nil
}
func hasW(q *[]*waiter) bool {
	for len(*q) > 0 {
		x := (*q)[0]
		if x.s.done || x.s.t.killed {
			*q = (*q)[1:]
			continue
		}
		return true
	}
	return false
}

func (h *hchan) canSend() bool { return h.closed || len(h.buf) < h.cap || hasW(&h.recvq) }
func (h *hchan) canRecv() bool { return h.closed || len(h.buf) > 0 || hasW(&h.sendq) }

func (h *hchan) doSend(w *World, v interface{}) {
	if h.closed {
		panic("send on closed channel")
	}
	if x := popW(&h.recvq); x != nil {
		x.s.done, x.s.idx, x.s.val, x.s.ok = true, x.idx, v, true
		w.wakeTask(x.s.t)
		return
	}
	h.buf = append(h.buf, v)
}
func (h *hchan) doRecv(w *World) (interface{}, bool) {
	if len(h.buf) > 0 {
		v := h.buf[0]
		h.buf = h.buf[1:]
		if x := popW(&h.sendq); x != nil {
			h.buf = append(h.buf, x.val)
			x.s.done, x.s.idx, x.s.ok = true, x.idx, true
			w.wakeTask(x.s.t)
		}
		return v, true
	}
	if x := popW(&h.sendq); x != nil {
		x.s.done, x.s.idx, x.s.ok = true, x.idx, true
		w.wakeTask(x.s.t)
		return x.val, true
	}
	return nil, false // closed
}

// Case is one arm of a select.
type Case interface {
	hc() *hchan
	send() bool
	value() interface{}
	got(v interface{}, ok bool)
}
type RecvC[T any] struct {
	h  *hchan
	V  T
	OK bool
}

func (c *RecvC[T]) hc() *hchan                 { return c.h }
func (c *RecvC[T]) send() bool                 { return false }
func (c *RecvC[T]) value() interface{}         { return nil }
func (c *RecvC[T]) got(v interface{}, ok bool) { c.V, c.OK = cast[T](v), ok }

type SendC struct {
	h *hchan
	v interface{}
}

func (c *SendC) hc() *hchan                 { return c.h }
func (c *SendC) send() bool                 { return true }
func (c *SendC) value() interface{}         { return c.v }
func (c *SendC) got(v interface{}, ok bool) {}

func needW() *World {
	w := enter()
	if w == nil {
		panic("zzsim: channel operation outside a simulation")
	}
	return w
}

func RecvCase[T any](ch <-chan T) *RecvC[T] {
	return &RecvC[T]{h: needW().ch(chptr(ch), cap(ch), ch)}
}
func SendCase[T any](ch chan<- T) func(T) *SendC {
	h := needW().ch(chptr(ch), cap(ch), ch)
	return func(v T) *SendC { return &SendC{h, v} }
}

// Select performs one ready arm, chosen by the scheduler, and returns its index.
func Select(site int, hasDefault bool, cases ...Case) int {
	w := needW()
	syncPoint()
	var ready []int
	for i, c := range cases {
		h := c.hc()
		if h == nil {
			continue
		}
		if c.send() && h.canSend() || !c.send() && h.canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = w.sched.draw(len(ready), func() int { return w.sched.uniform(len(ready)) })
			w.stats["sched.select_multi"]++
		}
		i := ready[k]
		c := cases[i]
		if c.send() {
			c.hc().doSend(w, c.value())
		} else {
			v, ok := c.hc().doRecv(w)
			c.got(v, ok)
		}
		syncPoint()
		return i
	}
	if hasDefault {
		return -1
	}
	st := &selState{t: w.cur}
	for i, c := range cases {
		h := c.hc()
		if h == nil {
			continue
		}
		x := &waiter{s: st, idx: i, val: c.value()}
		if c.send() {
			h.sendq = append(h.sendq, x)
		} else {
			h.recvq = append(h.recvq, x)
		}
	}
	for !st.done {
		w.block(st, "select/channel")
	}
	if st.pan {
		panic("send on closed channel")
	}
	cases[st.idx].got(st.val, st.ok)
	return st.idx
}

// SendTo(ch)(v) sends v on ch.
func SendTo[T any](ch chan<- T) func(T) {
	h := needW().ch(chptr(ch), cap(ch), ch)
	return func(v T) {
		w := needW()
		if h == nil {
			w.block(new(int), "send on nil channel")
			return
		}
		Select(-1, false, &SendC{h, v})
	}
}
func Recv[T any](ch <-chan T) T {
	c := RecvCase(ch)
	Select(-1, false, c)
	return c.V
}
func Recv2[T any](ch <-chan T) (T, bool) {
	c := RecvCase(ch)
	Select(-1, false, c)
	return c.V, c.OK
}
func Close[T any](ch chan<- T) {
	w := enter()
	if w == nil {
		close(ch)
		return
	}
	syncPoint()
	h := w.ch(chptr(ch), cap(ch), ch)
	if h == nil {
		panic("close of nil channel")
	}
	if h.closed {
		panic("close of closed channel")
	}
	h.closed = true
	for {
		x := popW(&h.recvq)
		if x == nil {
			break
		}
		x.s.done, x.s.idx, x.s.val, x.s.ok = true, x.idx, nil, false
		w.wakeTask(x.s.t)
	}
	for {
		x := popW(&h.sendq)
		if x == nil {
			break
		}
		x.s.done, x.s.idx, x.s.pan = true, x.idx, true
		w.wakeTask(x.s.t)
	}
	syncPoint()
}
// Len is len(ch) on the simulated channel.
func Len(ch interface{}) int {
	w := enter()
	if w == nil {
		return 0
	}
	rv := reflect.ValueOf(ch)
	h := w.ch(rv.UnsafePointer(), rv.Cap(), ch)
	if h == nil {
		return 0
	}
	return len(h.buf)
}

// Cap is cap(ch).
func Cap(ch interface{}) int { return reflect.ValueOf(ch).Cap() }

type chIter[T any] struct{ ch <-chan T }

func ChanIter[T any](ch <-chan T) (T, *chIter[T]) {
	var z T
	return z, &chIter[T]{ch}
}
func (it *chIter[T]) Next(p *T) bool {
	v, ok := Recv2(it.ch)
	if ok && p != nil {
		*p = v
	}
	return ok
}
