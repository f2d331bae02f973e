//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/log"
	"github.com/ThinkiumGroup/go-common/zzsim"
	"github.com/sirupsen/logrus"
)

var errInjected = errors.New("injected I/O error")

func isInjected(err error) bool {
	return err != nil && strings.Contains(err.Error(), errInjected.Error())
}

func resetGlobals() {
	zzsim.EntropyFault = nil
	zzsim.RotateOpen = nil
	zzsim.Stdout.W = nil
	zzsim.Stderr.W = nil
	noDisk()
	resetPackages()
	quietLogs()
}

func n(stream string, k int) int             { return zzsim.Choose(stream, k) }
func op(k int) int                           { return zzsim.Choose("op", k) }
func opChance(a, b int) bool                 { return zzsim.Chance("op", a, b) }
func more(num, den int) bool                 { return zzsim.More("op", num, den) }
func ev(f string, a ...interface{})          { zzsim.Event(f, a...) }
func fail(class, f string, a ...interface{}) { zzsim.Fail(class, f, a...) }
func stat(s string)                          { zzsim.Stat(s, 1) }

// try runs f and returns the recovered panic value, if any.
func try(f func()) (pv interface{}) {
	defer func() {
		if r := recover(); r != nil {
			pv = r
		}
	}()
	f()
	return nil
}

// ---------------------------------------------------------------- simulated durable key-value media

// Media is the durable medium below an adapter: an ordered log of writes plus
// the image after it. A power cut keeps a prefix of the log.
type Media struct {
	img  map[string][]byte
	log  []mediaWrite
	keep bool // record the log
	// faults
	loadErr, saveErr int // per-mille
	shortLoad        int // per-mille, keys with prefix shortPre
	shortPre         string
	ambiguous        bool
	budget           int // maximum number of injected errors, <0 unlimited
	fired            int
	inject           bool
	crashAt          int // crash the group when the write counter reaches this (0 = never)
	writes           int
	torn             bool // writes at the crash point may be applied or not
	onCrash          func()
	loads            int
}

type mediaWrite struct {
	k   string
	v   []byte
	del bool
}

func newMedia() *Media { return &Media{img: map[string][]byte{}, budget: -1} }

// imageAt returns the image after the first n writes of the log.
func (m *Media) imageAt(n int) map[string][]byte {
	r := map[string][]byte{}
	for _, w := range m.log[:n] {
		if w.del {
			delete(r, w.k)
		} else {
			r[w.k] = w.v
		}
	}
	return r
}

func (m *Media) roll(permille int, what string) bool {
	if !m.inject || permille == 0 || m.budget == 0 {
		return false
	}
	if zzsim.Chance("fault", permille, 1000) {
		m.budget--
		m.fired++
		stat("fault." + what)
		ev("fault %s", what)
		return true
	}
	return false
}

func (m *Media) read(k string) ([]byte, error) {
	zzsim.Point()
	m.loads++
	if m.roll(m.loadErr, "load_error") {
		return nil, errInjected
	}
	v, ok := m.img[k]
	if !ok {
		return nil, nil
	}
	if m.shortLoad > 0 && len(v) > 0 && strings.HasPrefix(k, m.shortPre) && m.roll(m.shortLoad, "short_load") {
		return append([]byte{}, v[:zzsim.Choose("fault", len(v))]...), nil
	}
	return append([]byte{}, v...), nil
}

func (m *Media) has(k string) (bool, error) {
	zzsim.Point()
	if m.roll(m.loadErr, "load_error") {
		return false, errInjected
	}
	_, ok := m.img[k]
	return ok, nil
}

func (m *Media) write(k string, v []byte, del bool) error {
	zzsim.Point()
	if m.roll(m.saveErr, "save_error") {
		if m.ambiguous && zzsim.Chance("fault", 1, 3) {
			stat("fault.save_error_but_applied")
			m.apply(k, v, del)
		}
		return errInjected
	}
	if m.crashAt > 0 && m.writes+1 >= m.crashAt {
		m.crashAt = 0
		if zzsim.Chance("fault", 1, 2) {
			m.apply(k, v, del)
		}
		stat("fault.crash")
		ev("crash at write %d", m.writes)
		m.onCrash()
	}
	m.apply(k, v, del)
	zzsim.Point()
	return nil
}

func (m *Media) apply(k string, v []byte, del bool) {
	m.writes++
	w := mediaWrite{k: k, v: append([]byte{}, v...), del: del}
	if m.keep {
		m.log = append(m.log, w)
	}
	if del {
		delete(m.img, k)
	} else {
		m.img[k] = w.v
	}
}

// Adapter is a db.DataAdapter over a key space of a Media.
type Adapter struct {
	m   *Media
	pre string
}

func (a *Adapter) Load(key []byte) ([]byte, error) { return a.m.read(a.pre + string(key)) }
func (a *Adapter) Save(key, value []byte) error    { return a.m.write(a.pre+string(key), value, false) }
func (a *Adapter) Clone() db.DataAdapter           { return &Adapter{a.m, a.pre} }
func (a *Adapter) String() string                  { return "sim(" + a.pre + ")" }

// MediaDB is a db.Database over a Media (atomic batches).
type MediaDB struct{ m *Media }
type mediaBatch struct {
	w []mediaWrite
}

func (b *mediaBatch) Put(k, v []byte) error {
	b.w = append(b.w, mediaWrite{string(k), append([]byte{}, v...), false})
	return nil
}
func (b *mediaBatch) Delete(k []byte) error {
	b.w = append(b.w, mediaWrite{string(k), nil, true})
	return nil
}
func (b *mediaBatch) Size() int { return len(b.w) }

func (d *MediaDB) Put(k, v []byte) error        { return d.m.write(string(k), v, false) }
func (d *MediaDB) Has(k []byte) (bool, error)   { return d.m.has(string(k)) }
func (d *MediaDB) Get(k []byte) ([]byte, error) { return d.m.read(string(k)) }
func (d *MediaDB) Delete(k []byte) error        { return d.m.write(string(k), nil, true) }
func (d *MediaDB) NewBatch() db.Batch           { return &mediaBatch{} }
func (d *MediaDB) Close() error                 { return nil }
func (d *MediaDB) Batch(b db.Batch) error {
	mb, ok := b.(*mediaBatch)
	if !ok {
		return fmt.Errorf("illegal batch type %T", b)
	}
	zzsim.Point()
	if d.m.roll(d.m.saveErr, "batch_error") {
		if d.m.ambiguous && zzsim.Chance("fault", 1, 3) {
			stat("fault.batch_error_but_applied")
			for _, w := range mb.w {
				d.m.apply(w.k, w.v, w.del)
			}
		}
		return errInjected
	}
	for _, w := range mb.w {
		d.m.apply(w.k, w.v, w.del)
	}
	zzsim.Point()
	return nil
}

// ---------------------------------------------------------------- histories

// HOp is one operation of a concurrent history.
type HOp struct {
	Client   int
	Name     string
	In       string
	Out      string
	Call     int64
	Ret      int64 // 0 while pending
	Optional bool  // pending/ambiguous: may or may not have taken effect
}

func (o *HOp) String() string {
	r := "pending"
	if o.Ret > 0 {
		r = fmt.Sprint(o.Ret)
	}
	return fmt.Sprintf("c%d[%d..%s] %s(%s) -> %s", o.Client, o.Call, r, o.Name, o.In, o.Out)
}

type History struct{ ops []*HOp }

func (h *History) Call(client int, name, in string) *HOp {
	o := &HOp{Client: client, Name: name, In: in, Call: zzsim.Stamp()}
	h.ops = append(h.ops, o)
	ev("call c%d %s(%s)", client, name, in)
	return o
}
func (h *History) Return(o *HOp, out string) {
	o.Out = out
	o.Ret = zzsim.Stamp()
	ev("ret c%d %s(%s) -> %s", o.Client, o.Name, o.In, out)
}

// drop forgets an operation that returned an error and had no effect.
func (h *History) drop(o *HOp) {
	for i, x := range h.ops {
		if x == o {
			h.ops = append(h.ops[:i:i], h.ops[i+1:]...)
			return
		}
	}
}

func (h *History) String() string {
	var b strings.Builder
	for _, o := range h.ops {
		b.WriteString("    " + o.String() + "\n")
	}
	return b.String()
}

// linearizable decides whether the history has a linearization under the
// sequential model. step returns the successor states (usually one) allowed
// for op in state, or none if its output is impossible.
func linearizable(h *History, init string, step func(state string, o *HOp) []string) (ok bool, conclusive bool) {
	ops := make([]*HOp, 0, len(h.ops))
	for _, o := range h.ops {
		if o.Ret == 0 {
			o.Optional = true
		}
		ops = append(ops, o)
	}
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	nops := len(ops)
	seen := map[string]bool{}
	budget := 400000
	done := make([]byte, (nops+7)/8)
	var rec func(state string, left int) bool
	rec = func(state string, left int) bool {
		if left == 0 {
			return true
		}
		budget--
		if budget < 0 {
			return true
		}
		key := string(done) + "|" + state
		if seen[key] {
			return false
		}
		seen[key] = true
		// earliest return among the remaining mandatory ops bounds what may go first
		minRet := int64(1) << 62
		for i, o := range ops {
			if done[i/8]&(1<<(i%8)) == 0 && o.Ret > 0 && o.Ret < minRet {
				minRet = o.Ret
			}
		}
		for i, o := range ops {
			if done[i/8]&(1<<(i%8)) != 0 {
				continue
			}
			if o.Call > minRet {
				break
			}
			done[i/8] |= 1 << (i % 8)
			l := left
			if !o.Optional {
				l--
			}
			for _, ns := range step(state, o) {
				if rec(ns, l) {
					return true
				}
			}
			if o.Optional {
				// it never takes effect
				if rec(state, l) {
					return true
				}
			}
			done[i/8] &^= 1 << (i % 8)
		}
		return false
	}
	left := 0
	for _, o := range ops {
		if !o.Optional {
			left++
		}
	}
	r := rec(init, left)
	if budget < 0 {
		return true, false
	}
	return r, true
}

// checkLin fails the run when the history is not linearizable.
func checkLin(class string, h *History, init string, step func(string, *HOp) []string) {
	ok, conclusive := linearizable(h, init, step)
	if !conclusive {
		stat("lin.inconclusive")
		return
	}
	stat("lin.checked")
	if !ok {
		fail(class, "no sequential order of the operations explains the results (initial state %q)\n%s", init, h)
	}
}

// ---------------------------------------------------------------- small helpers

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func hx(b []byte) string {
	if len(b) > 8 {
		return fmt.Sprintf("%x..", b[:8])
	}
	return fmt.Sprintf("%x", b)
}

func eq(a, b []byte) bool { return bytes.Equal(a, b) }

// genKeys draws a small key universe with shared prefixes.
func genKeys(count, maxLen int, fixed int) [][]byte {
	alpha := []byte{0x00, 0x01, 0x10, 0x11, 0xff, 0x1f}
	seen := map[string]bool{}
	var ks [][]byte
	for tries := 0; len(ks) < count && tries < count*4; tries++ {
		l := fixed
		if fixed == 0 {
			l = 1 + op(maxLen)
		}
		k := make([]byte, l)
		for i := range k {
			k[i] = alpha[op(len(alpha))]
		}
		if !seen[string(k)] {
			seen[string(k)] = true
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		ks = append(ks, make([]byte, 1+fixed))
	}
	return ks
}

// quietLogs keeps the library's own logging from reaching the console.
func quietLogs() {
	switch l := log.WithField().(type) {
	case *logrus.Logger:
		l.Level = logrus.PanicLevel
	case *logrus.Entry:
		l.Logger.Level = logrus.PanicLevel
	}
}
