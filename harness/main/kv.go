//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/zzsim"
)

func init() {
	const ldbStub = "the file system below goleveldb (simulated files with sync state); goroutine scheduling, clocks and timers"
	register(&Prop{ID: "P20", Run: runP20, Quick: 60000, QuickS: 18, Rule: "Non-trivial: at least 6 operations including an overwrite or delete.",
		Real: "db.MemDB, db.LDB over the real goleveldb, cached store, read-only and temporary views, key-prefixed adapters", Stub: ldbStub})
	register(&Prop{ID: "P21", Run: runP21, Quick: 40000, QuickS: 18, Rule: "Non-trivial: operations of two clients overlapped.",
		Real: "db.MemDB, db.LDB over the real goleveldb, cached store, temporary view, key-prefixed adapters", Stub: ldbStub})
	register(&Prop{ID: "P22", Run: runP22, Quick: 40000, QuickS: 18, Rule: "Non-trivial: a batch with several operations was written and a fault or reader was active.",
		Real: "db batches of every backend, BatchWrite, real goleveldb", Stub: ldbStub})
	register(&Prop{ID: "P23", Run: runP23, Quick: 12000, QuickS: 20, Rule: "Non-trivial: a crash or power cut hit while operations were being executed.",
		Real: "db.LDB and the complete real goleveldb (journal, recovery, compaction goroutines)", Stub: ldbStub})
	register(&Prop{ID: "P24", Run: runP24, Quick: 20000, QuickS: 20, Rule: "Non-trivial: a read was served after a write to the same key.",
		Real: "cached store, hashicorp lru, db.LDB over the real goleveldb", Stub: ldbStub})
	register(&Prop{ID: "P25", Run: runP25, Quick: 40000, QuickS: 18, Rule: "Non-trivial: the view received at least two mutations.",
		Real: "read-only and temporary views, tries rebased on them", Stub: "the base database (in-memory, with injected errors)"})
}

// kv is one backend under test.
type kv struct {
	base   db.Database // of a prefixed view
	prefix []byte
	near   db.Database // another prefixed view
	d      db.Database
	name   string
	close  func()
}

// newKV builds a backend; init is its initial content.
// prefixed is a view of d; the prefix given stays the caller's.
func prefixed(d db.Database, p ...byte) db.Database {
	x := cp(p)
	v := db.NewKeyPrefixedDataAdapter(d, x).(db.Database)
	scramble(x)
	return v
}

func newKV(kind int, disk *Disk, init model) *kv {
	put := func(d db.Database) {
		for _, k := range sortedKeys(init) {
			if err := d.Put([]byte(k), []byte(init[k])); err != nil {
				fail("put-error", "Put: %v", err)
			}
		}
	}
	open := func(path string) db.Database {
		l, err := db.NewLDB(path)
		if err != nil {
			fail("open-error", "NewLDB: %v", err)
		}
		return l
	}
	switch kind {
	case 0:
		m := db.NewMemDB()
		put(m)
		return &kv{d: m, name: "mem"}
	case 1:
		l := open("ldb")
		put(l)
		return &kv{d: l, name: "ldb"}
	case 2:
		c, err := db.NewCachedDBWithPath("cdb", 1+op(4))
		if err != nil {
			fail("open-error", "NewCachedDBWithPath: %v", err)
		}
		put(c)
		return &kv{d: c, name: "cached"}
	case 3:
		m := db.NewMemDB()
		put(m)
		t := db.Temporary(m)
		return &kv{d: t, name: "temporary"}
	case 4:
		m := db.NewMemDB()
		b := byte(op(2))
		p := prefixed(m, b, 7)
		put(p)
		return &kv{d: p, name: "prefixed(mem)", base: m, prefix: []byte{b, 7}, near: prefixed(m, b^1, 7)}
	case 5:
		l := open("pldb")
		p := prefixed(l, 7)
		put(p)
		return &kv{d: p, name: "prefixed(ldb)", base: l, prefix: []byte{7}, near: prefixed(l, 6)}
	case 6:
		l := open("tldb")
		put(l)
		return &kv{d: db.Temporary(db.ReadOnly(l)), name: "temporary(readonly(ldb))"}
	case 7:
		m := db.NewMemDB()
		t := db.Temporary(db.NewKeyPrefixedDataAdapter(m, nil).(db.Database))
		put(t)
		return &kv{d: t, name: "temporary(prefixed(mem))"}
	case 8:
		m := db.NewMemDB()
		p2 := prefixed(prefixed(m, 1), 2)
		put(p2)
		return &kv{d: p2, name: "prefixed(prefixed(mem))", base: m, prefix: []byte{1, 2}, near: prefixed(prefixed(m, 2), 2)}
	}
	panic(kind)
}

const kvKinds = 9

func kvIsLDB(kind int) bool { return kind == 1 || kind == 2 || kind == 5 || kind == 6 }

func kvKeys() [][]byte {
	ks := genKeys(2+op(5), 2, 0)
	if opChance(1, 6) {
		ks = append(ks, []byte{})
	}
	return ks
}

var kvSeq int

func kvVal() []byte {
	if opChance(1, 12) {
		return []byte{}
	}
	kvSeq++
	return []byte(fmt.Sprintf("w%d", kvSeq))
}

// scramble overwrites a buffer the caller lent to the database.
func scramble(bs ...[]byte) {
	for _, b := range bs {
		for i := range b {
			b[i] = 0xEE
		}
	}
}

func cp(b []byte) []byte { return append([]byte{}, b...) }

func kvGet(class string, d db.Database, k []byte, m model) {
	v, err := d.Get(cp(k))
	if err != nil {
		fail(class, "Get(%x): %v", k, err)
	}
	want, has := m[string(k)]
	if (v != nil) != has || string(v) != want {
		fail(class, "Get(%x) returned (%q, nil=%t), the store holds (%q, %t); content %q", k, v, v == nil, want, has, map[string]string(m))
	}
	scramble(v) // the result belongs to the caller
}

func kvHas(class string, d db.Database, k []byte, m model) {
	ok, err := d.Has(cp(k))
	if err != nil {
		fail(class, "Has(%x): %v", k, err)
	}
	if _, has := m[string(k)]; has != ok {
		fail(class, "Has(%x) returned %t; content %q", k, ok, map[string]string(m))
	}
}

// ---------------------------------------------------------------- P20

func runP20(r *R) {
	kvSeq = 0
	disk := newDisk()
	keys := kvKeys()
	m := model{}
	for i := op(4); i > 0; i-- {
		m[string(keys[op(len(keys))])] = string(kvVal())
	}
	kind := n("cfg", kvKinds)
	b := newKV(kind, disk, m)
	d := b.d
	ev("backend %s", b.name)
	nearM := model{} // content of the view next to it
	nops, muts := 0, 0
	for more(24, 25) && nops < 60 {
		nops++
		k := keys[op(len(keys))]
		switch zzsim.Weighted("op", 8, 4, 8, 4, 4, 1, 2, 1) {
		case 6: // another view of the same base
			if b.near == nil {
				break
			}
			switch op(3) {
			case 0:
				v := kvVal()
				ev("near put %x %q", k, v)
				if err := b.near.Put(cp(k), cp(v)); err != nil {
					fail("put-error", "Put(%x): %v", k, err)
				}
				nearM[string(k)] = string(v)
			case 1:
				ev("near delete %x", k)
				if err := b.near.Delete(cp(k)); err != nil {
					fail("delete-error", "Delete(%x): %v", k, err)
				}
				delete(nearM, string(k))
			case 2:
				kvGet("near", b.near, k, nearM)
			}
		case 7: // the same view made again
			switch {
			case b.near == nil || len(b.prefix) == 2 && kind != 4:
			case opChance(1, 2):
				ev("clone of the view")
				d = d.(db.DataAdapter).Clone().(db.Database)
			default:
				ev("rebase of the view")
				x, err := db.RebaseAdapter(d.(db.DataAdapter), b.base)
				if err != nil {
					fail("rebase-error", "%v", err)
				}
				d = x.(db.Database)
			}
		case 0:
			v := kvVal()
			kb, vb := cp(k), cp(v)
			if err := d.Put(kb, vb); err != nil {
				fail("put-error", "Put(%x): %v", k, err)
			}
			scramble(kb, vb)
			ev("put %x %q", k, v)
			m[string(k)] = string(v)
			muts++
		case 1:
			kb := cp(k)
			if err := d.Delete(kb); err != nil {
				fail("delete-error", "Delete(%x): %v", k, err)
			}
			scramble(kb)
			ev("delete %x", k)
			delete(m, string(k))
			muts++
		case 2:
			ev("get %x", k)
			kvGet("get", d, k, m)
		case 3:
			ev("has %x", k)
			kvHas("has", d, k, m)
		case 4:
			bt := d.NewBatch()
			var ops []string
			cnt := op(5)
			for i := 0; i < cnt; i++ {
				k := keys[op(len(keys))]
				kb := cp(k)
				if opChance(1, 3) {
					if err := bt.Delete(kb); err != nil {
						fail("batch-error", "%v", err)
					}
					delete(m, string(k))
					ops = append(ops, fmt.Sprintf("del %x", k))
				} else {
					v := kvVal()
					vb := cp(v)
					if err := bt.Put(kb, vb); err != nil {
						fail("batch-error", "%v", err)
					}
					scramble(vb)
					m[string(k)] = string(v)
					ops = append(ops, fmt.Sprintf("put %x %q", k, v))
				}
				scramble(kb)
			}
			ev("batch %v", ops)
			if bt.Size() != cnt {
				fail("batch-size", "Size() of a batch of %d operations is %d", cnt, bt.Size())
			}
			if err := d.Batch(bt); err != nil {
				fail("batch-error", "Batch: %v", err)
			}
			muts++
		case 5: // reopen a persistent store
			if kind == 1 {
				ev("close and reopen")
				if err := d.Close(); err != nil {
					fail("close-error", "Close: %v", err)
				}
				stat("fault.restart")
				l, err := db.NewLDB("ldb")
				if err != nil {
					fail("open-error", "reopen: %v", err)
				}
				d = l
			}
		}
	}
	for _, k := range keys {
		if b.near != nil {
			kvGet("near", b.near, k, nearM)
			kvHas("near", b.near, k, nearM)
			x := model{}
			if v, ok := m[string(k)]; ok {
				x[string(b.prefix)+string(k)] = v
			}
			kvGet("prefix-base", b.base, append(cp(b.prefix), k...), x)
		}
		kvGet("get", d, k, m)
		kvHas("has", d, k, m)
		v, err := db.GetNilError(d, k)
		want, has := m[string(k)]
		if has && want != "" {
			if err != nil || string(v) != want {
				fail("get-nil-error", "GetNilError(%x) = %q, %v; the store holds %q", k, v, err, want)
			}
		} else if err != db.ErrNotFound {
			fail("get-nil-error", "GetNilError(%x) of an absent or empty entry = %q, %v", k, v, err)
		}
	}
	if nops >= 6 && muts >= 2 {
		r.Nontrivial()
	}
}

// ---------------------------------------------------------------- P21

// kvopStep is the sequential model of a key-value store.
func kvopStep(state string, o *HOp) []string {
	m := stateKV(state)
	switch o.Name {
	case "get", "has":
		v, ok := m[unhex(o.In)]
		out := "-"
		if ok {
			out = v
			if o.Name == "has" {
				out = "yes"
			}
		}
		if o.Ret > 0 && out != o.Out {
			return nil
		}
		return []string{state}
	case "batch": // "p<hex>=<v>,d<hex>,"
		for _, c := range strings.Split(o.In, ",") {
			if c == "" {
				continue
			}
			if c[0] == 'd' {
				delete(m, unhex(c[1:]))
			} else {
				i := strings.IndexByte(c, '=')
				m[unhex(c[1:i])] = c[i+1:]
			}
		}
		return []string{kvState(m)}
	}
	panic("kvopStep " + o.Name)
}

func hGet(h *History, c int, d db.Database, k []byte) {
	o := h.Call(c, "get", keyIn(k))
	v, err := d.Get(cp(k))
	if err != nil {
		hErr(o, err, "get-error")
		return
	}
	out := "-"
	if v != nil {
		out = kvShort(v)
	}
	h.Return(o, out)
}

// hErr accepts an injected error as the result of a read, and no other.
func hErr(o *HOp, err error, class string) {
	if !errors.Is(err, errInjected) {
		fail(class, "%s(%s): %v", o.Name, o.In, err)
	}
	o.Out = "error"
	ev("ret c%d %s(%s) -> %v", o.Client, o.Name, o.In, err)
}

func hHas(h *History, c int, d db.Database, k []byte) {
	o := h.Call(c, "has", keyIn(k))
	ok, err := d.Has(cp(k))
	if err != nil {
		hErr(o, err, "has-error")
		return
	}
	out := "-"
	if ok {
		out = "yes"
	}
	h.Return(o, out)
}

func hPut(h *History, c int, d db.Database, k, v []byte) error {
	o := h.Call(c, "batch", "p"+putIn(k, string(v)))
	err := d.Put(cp(k), cp(v))
	if err != nil {
		o.Out = "error, may or may not take effect"
		ev("ret c%d %s(%s) -> %v", c, o.Name, o.In, err)
		return err
	}
	h.Return(o, "")
	return nil
}

func hDel(h *History, c int, d db.Database, k []byte) error {
	o := h.Call(c, "batch", "d"+keyIn(k))
	err := d.Delete(cp(k))
	if err != nil {
		o.Out = "error, may or may not take effect"
		ev("ret c%d %s(%s) -> %v", c, o.Name, o.In, err)
		return err
	}
	h.Return(o, "")
	return nil
}

// hBatch writes a random batch; seq records it as a sequence of single operations.
// kvPad marks a value as padded to a size; kvShort checks and removes the padding.
func kvPad(v []byte, pad int) []byte {
	if pad == 0 || len(v) == 0 {
		return v
	}
	return append([]byte(fmt.Sprintf("%s~%d~", v, pad)), bytes.Repeat([]byte{'.'}, pad)...)
}

func kvShort(v []byte) string {
	i := bytes.IndexByte(v, '~')
	if i < 0 {
		return string(v)
	}
	j := bytes.LastIndexByte(v, '~')
	pad, err := strconv.Atoi(string(v[i+1 : j]))
	if err != nil || pad != len(v)-j-1 || bytes.Count(v[j+1:], []byte{'.'}) != pad {
		if len(v) > 200 {
			return fmt.Sprintf("damaged value of %d bytes: %q...", len(v), v[:200])
		}
		return fmt.Sprintf("damaged value %q", v)
	}
	return string(v[:j+1])
}

func hBatch(h *History, c int, d db.Database, keys [][]byte, maxOps int, seq bool) error {
	bt := d.NewBatch()
	in := ""
	var parts []*HOp
	count, pad := 1+op(maxOps), 0
	switch {
	case seq:
	case opChance(1, 8): // many operations
		count = 1 + op([]int{40, 300, 1500}[op(3)])
		stat("batch.long")
	case opChance(1, 8): // large values
		pad = 1 << uint(6+op(11))
		stat("batch.large")
	}
	net := map[string]string{}
	for i := count; i > 0; i-- {
		k := keys[op(len(keys))]
		s := "d" + keyIn(k)
		if opChance(1, 4) {
			if err := bt.Delete(cp(k)); err != nil {
				fail("batch-error", "%v", err)
			}
		} else {
			v := kvPad(kvVal(), pad)
			s = "p" + putIn(k, kvShort(v))
			if err := bt.Put(cp(k), cp(v)); err != nil {
				fail("batch-error", "%v", err)
			}
		}
		if seq {
			parts = append(parts, &HOp{Client: c, Name: "batch", In: s})
		}
		net[string(k)] = s
	}
	if bt.Size() != count {
		fail("batch-size", "the Size of a batch of %d operations is %d", count, bt.Size())
	}
	for _, k := range sortedKeys(net) {
		in += net[k] + ","
	}
	if !seq {
		parts = []*HOp{{Client: c, Name: "batch", In: in}}
	}
	ev("call c%d batch(%s)", c, in)
	for _, o := range parts {
		o.Call = zzsim.Stamp()
		h.ops = append(h.ops, o)
	}
	err := d.Batch(bt)
	ev("ret c%d batch -> %v", c, err)
	for _, o := range parts {
		if err == nil {
			o.Ret = zzsim.Stamp()
		} else {
			o.Out = "error, may or may not take effect"
		}
	}
	return err
}

func overlapping(h *History) bool {
	for i, a := range h.ops {
		for _, b := range h.ops[:i] {
			if a.Client != b.Client && a.Call < b.Ret && b.Call < a.Ret {
				return true
			}
		}
	}
	return false
}

func runP21(r *R) {
	kvSeq = 0
	disk := newDisk()
	keys := genKeys(1+op(3), 2, 0)
	m := model{}
	for i := op(3); i > 0; i-- {
		m[string(keys[op(len(keys))])] = string(kvVal())
	}
	kind := n("cfg", kvKinds)
	b := newKV(kind, disk, m)
	d := b.d
	ev("backend %s", b.name)
	// the in-memory store applies a batch operation by operation
	seqBatch := kind == 0 || kind == 4 || kind == 8
	h := &History{}
	nops := 0
	var ts []*zzsim.Task
	for c := 0; c < 2+op(3); c++ {
		c := c
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("client%d", c), 1, func() {
			for i := 0; more(4, 5) && i < 6 && nops < 18; i++ {
				nops++
				k := keys[op(len(keys))]
				var err error
				switch zzsim.Weighted("op", 6, 3, 8, 3, 3) {
				case 0:
					err = hPut(h, c, d, k, kvVal())
				case 1:
					err = hDel(h, c, d, k)
				case 2:
					hGet(h, c, d, k)
				case 3:
					hHas(h, c, d, k)
				case 4:
					err = hBatch(h, c, d, keys, 3, seqBatch)
				}
				if err != nil {
					fail("write-error", "a write failed without a fault: %v", err)
				}
			}
		}))
	}
	zzsim.Join(ts...)
	for _, k := range keys {
		hGet(h, 99, d, k)
	}
	if overlapping(h) {
		r.Nontrivial()
	}
	checkLin("not-linearizable", h, kvState(m), kvopStep)
}

// ---------------------------------------------------------------- P22 batches

// flakyDB is a database whose batch, put and delete calls can fail.
func runP22(r *R) {
	kvSeq = 0
	disk := newDisk()
	keys := genKeys(2+op(4), 2, 0)
	m := model{}
	switch n("cfg", 3) {
	case 0: // batches of every backend under storage errors, atomic to readers
		for i := op(3); i > 0; i-- {
			m[string(keys[op(len(keys))])] = string(kvVal())
		}
		kind := []int{1, 2, 5, 3, 6}[n("cfg", 5)]
		b := newKV(kind, disk, m)
		d := b.d
		ev("backend %s", b.name)
		disk.writeErr = []int{0, 0, 200, 500}[n("cfg", 4)]
		disk.onlyJournal = true
		h := &History{}
		var ts []*zzsim.Task
		nops := 0
		disk.inject = true
		for c := 0; c < 1+op(3); c++ {
			c := c
			ts = append(ts, zzsim.Spawn(fmt.Sprintf("client%d", c), 1, func() {
				for i := 0; more(4, 5) && i < 5 && nops < 14; i++ {
					nops++
					f0 := disk.fired
					if c == 0 || opChance(1, 3) {
						if err := hBatch(h, c, d, keys, 4, false); err != nil && disk.fired == 0 {
							fail("batch-error", "Batch failed without a fault: %v", err)
						}
						if disk.fired > f0 || c > 0 {
							r.Nontrivial()
						}
					} else {
						hGet(h, c, d, keys[op(len(keys))])
					}
				}
			}))
		}
		zzsim.Join(ts...)
		disk.inject = false
		for _, k := range keys {
			hGet(h, 99, d, k)
		}
		if kind == 1 && opChance(1, 2) { // what was acknowledged is still there after reopening
			d.Close()
			stat("fault.restart")
			l, err := db.NewLDB("ldb")
			if err != nil {
				fail("open-error", "reopen: %v", err)
			}
			for _, k := range keys {
				hGet(h, 99, l, k)
			}
		}
		checkLin("batch", h, kvState(m), kvopStep)
	default: // BatchWrite
		var d db.Database
		kind := n("cfg", 4)
		var md *MediaDB
		if kind == 0 {
			md = &MediaDB{newMedia()}
			d = md
			md.m.saveErr = []int{0, 0, 100, 300}[n("cfg", 4)]
			md.m.inject = true
		} else {
			d = newKV([]int{0, 1, 4, 5}[n("cfg", 4)], disk, nil).d
		}
		length := op(12)
		thr := 1 + op(5)
		type item struct {
			ok   bool
			k, v string
		}
		items := make([]item, length)
		for i := range items {
			items[i] = item{opChance(3, 4), fmt.Sprintf("k%d", op(12)), string(kvVal())}
		}
		errAt := -1
		if opChance(1, 5) && length > 0 {
			errAt = op(length)
		}
		ev("batchwrite length %d threshold %d items %v error at %d", length, thr, items, errAt)
		cnt, err := db.BatchWrite(d, thr, length, func(j int, w db.Writer) (bool, error) {
			if j == errAt {
				return false, errInjected
			}
			it := items[j]
			if !it.ok {
				return false, nil
			}
			return true, w.Put([]byte(it.k), []byte(it.v))
		})
		accepted := 0
		want := model{}
		for i, it := range items {
			if i == errAt {
				break
			}
			if it.ok {
				accepted++
				want[it.k] = it.v
			}
		}
		if md != nil {
			md.m.inject = false
		}
		if accepted > 1 {
			r.Nontrivial()
		}
		if err == nil {
			if cnt != accepted {
				fail("batchwrite-count", "BatchWrite reported %d items, %d were accepted", cnt, accepted)
			}
			for i := 0; i < 12; i++ {
				kvGet("batchwrite-lost", d, []byte(fmt.Sprintf("k%d", i)), want)
			}
			if errAt >= 0 {
				fail("batchwrite-error", "BatchWrite hid the error of item %d", errAt)
			}
		} else {
			if errAt < 0 && (md == nil || md.m.fired == 0) {
				fail("batchwrite-error", "BatchWrite failed without a fault: %v", err)
			}
			// exactly the first cnt accepted items are stored
			part := model{}
			left := cnt
			for _, it := range items {
				if it.ok && left > 0 {
					part[it.k] = it.v
					left--
				}
			}
			for i := 0; i < 12; i++ {
				kvGet("batchwrite-count", d, []byte(fmt.Sprintf("k%d", i)), part)
			}
		}
	}
}

// ---------------------------------------------------------------- P23 LevelDB durability

func runP23(r *R) {
	kvSeq = 0
	disk := newDisk()
	keys := genKeys(2+op(4), 2, 0)
	power := zzsim.Chance("cfg", 1, 3)
	cached := zzsim.Chance("cfg", 1, 5)
	clients := 1
	if !power {
		clients = 1 + op(2)
	}
	open := func() db.Database {
		var d db.Database
		var err error
		if cached {
			d, err = db.NewCachedDBWithPath("x", 2)
		} else {
			d, err = db.NewLDB("x")
		}
		if err != nil {
			fail("open-error", "the store does not open after a crash: %v", err)
		}
		return d
	}
	h := &History{}
	open().Close() // the store exists before anything goes wrong
	for round := 0; round < 3; round++ {
		g := round + 1
		crashed := false
		disk.crashAt = 0
		if zzsim.Chance("fault", 4, 5) {
			disk.crashAt = disk.ops + 1 + n("fault", 4<<uint(n("fault", 5)))
		}
		disk.onCrash = func() {
			crashed = true
			zzsim.KillGroup(g)
		}
		var d db.Database
		opened := false
		zzsim.Spawn("proc", g, func() {
			d = open()
			opened = true
			var ts []*zzsim.Task
			for c := 0; c < clients; c++ {
				c := c
				ts = append(ts, zzsim.Spawn(fmt.Sprintf("client%d", c), g, func() {
					for i := 0; more(6, 7) && i < 8; i++ {
						var err error
						k := keys[op(len(keys))]
						switch zzsim.Weighted("op", 6, 2, 4, 3) {
						case 0:
							err = hPut(h, round*10+c, d, k, kvVal())
						case 1:
							err = hDel(h, round*10+c, d, k)
						case 2:
							err = hBatch(h, round*10+c, d, keys, 4, false)
						case 3:
							hGet(h, round*10+c, d, k)
						}
						if err != nil {
							fail("write-error", "a write failed without an I/O error: %v", err)
						}
					}
				}))
			}
			zzsim.Join(ts...)
			if opChance(1, 3) {
				ev("close")
				if err := d.Close(); err != nil {
					fail("close-error", "Close: %v", err)
				}
			}
			ev("exit")
			zzsim.KillGroup(g) // the process exits; background goroutines die with it
		})
		zzsim.JoinGroup(g)
		if crashed && opened {
			r.Nontrivial()
		}
		disk.crashAt = 0
		if power && round == 2 {
			break
		}
		disk.restart()
	}
	if power {
		// power cut: the content must be the result of a prefix of the writes
		disk.powerCut()
		r.Nontrivial()
		d := open()
		got := model{}
		for _, k := range keys {
			v, err := d.Get(k)
			if err != nil {
				fail("get-error", "Get(%x) after the power cut: %v", k, err)
			}
			if v != nil {
				got[string(k)] = kvShort(v)
			}
		}
		states := map[string]bool{kvState(model{}): true}
		cur := map[string]bool{kvState(model{}): true}
		for _, o := range h.ops {
			if o.Name != "batch" {
				continue
			}
			nx := map[string]bool{}
			for _, s := range sortedKeys(cur) {
				if o.Ret == 0 {
					nx[s] = true
				}
				for _, t := range kvopStep(s, o) {
					nx[t] = true
				}
			}
			cur = nx
			for s := range cur {
				states[s] = true
			}
		}
		if !states[kvState(got)] {
			fail("power-cut-hole", "after the power cut the content %q is not the result of any prefix of the writes\n%s", map[string]string(got), h)
		}
		return
	}
	d := open()
	for _, k := range keys {
		hGet(h, 99, d, k)
		hHas(h, 99, d, k)
	}
	checkLin("acked-lost", h, "", kvopStep)
}

// ---------------------------------------------------------------- P24 cached store

func runP24(r *R) {
	kvSeq = 0
	disk := newDisk()
	keys := genKeys(1+op(4), 2, 0)
	d, err := db.NewCachedDBWithPath("a", 1+op(3))
	if err != nil {
		fail("open-error", "%v", err)
	}
	disk.writeErr = []int{0, 0, 0, 60}[n("cfg", 4)]
	disk.onlyJournal = true
	swap := zzsim.Chance("cfg", 1, 3)
	h := &History{}
	var fb *Media
	if zzsim.Chance("cfg", 1, 3) { // another base, whose failed writes may have taken effect
		fb = newMedia()
		fb.loadErr = []int{0, 60}[n("cfg", 2)]
		fb.saveErr = []int{0, 60, 250}[n("cfg", 3)]
		fb.ambiguous = true
		d.(db.Replaceable).Replace("a", &MediaDB{fb})
		fb.inject = true
	}
	nops := 0
	cls := 1 + op(3)
	var ts []*zzsim.Task
	disk.inject = true
	for c := 0; c < cls; c++ {
		c := c
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("client%d", c), 1, func() {
			for i := 0; more(7, 8) && i < 10 && nops < 20; i++ {
				nops++
				k := keys[op(len(keys))]
				var err error
				switch zzsim.Weighted("op", 5, 3, 8, 4, 2) {
				case 0:
					err = hPut(h, c, d, k, kvVal())
				case 1:
					err = hDel(h, c, d, k)
				case 2:
					o := h.Call(c, "get", keyIn(k))
					v, err := d.Get(cp(k))
					if err != nil {
						hErr(o, err, "get-error")
						break
					}
					out := "-"
					if v != nil {
						out = kvShort(v)
						scramble(v)
					}
					h.Return(o, out)
					r.Nontrivial()
				case 3:
					hHas(h, c, d, k)
				case 4:
					err = hBatch(h, c, d, keys, 3, false)
				}
				if err != nil && (fb == nil && disk.fired == 0 || fb != nil && !errors.Is(err, errInjected)) {
					fail("write-error", "a write failed without an I/O error: %v", err)
				}
			}
		}))
	}
	zzsim.Join(ts...)
	disk.inject = false
	if fb != nil {
		fb.inject = false
		// at rest every answer is that of the base
		for _, k := range keys {
			has, err := d.Has(cp(k))
			bv, bhas := fb.img[string(k)]
			if err != nil || has != bhas {
				fail("cache-stale", "Has(%x) is %v, %v and the base answers %v", k, has, err, bhas)
			}
			v, err := d.Get(cp(k))
			if err != nil || (v != nil) != bhas || !bytes.Equal(v, bv) {
				fail("cache-stale", "Get(%x) is %q, %v and the base holds %q, %v", k, v, err, bv, bhas)
			}
		}
	}
	for _, k := range keys {
		hGet(h, 99, d, k)
		hHas(h, 99, d, k)
		hGet(h, 99, d, k)
	}
	checkLin("cache-incoherent", h, "", kvopStep)
	if !swap {
		return
	}
	// replacing the base database: everything afterwards is answered from the new one
	nm := model{}
	nb := db.NewMemDB()
	for _, k := range keys {
		if opChance(1, 2) {
			v := kvVal()
			nb.Put(k, v)
			nm[string(k)] = string(v)
		}
	}
	h2 := &History{}
	rd := zzsim.Spawn("reader", 2, func() {
		for i := 0; i < 3; i++ {
			d.Get(keys[op(len(keys))])
			d.Has(keys[op(len(keys))])
		}
	})
	op2, _ := d.(db.Replaceable).Replace("b", nb)
	if op2 != "a" {
		fail("replace", "Replace returned old path %q", op2)
	}
	ev("replace")
	for _, k := range keys {
		hGet(h2, 99, d, k)
		hHas(h2, 99, d, k)
		hGet(h2, 99, d, k)
	}
	zzsim.Join(rd)
	for _, k := range keys {
		hGet(h2, 99, d, k)
	}
	hPut(h2, 99, d, keys[0], []byte("fresh"))
	hGet(h2, 99, d, keys[0])
	if v, _ := nb.Get(keys[0]); string(v) != "fresh" {
		fail("replace", "a write after Replace did not reach the new base")
	}
	checkLin("replace-stale", h2, kvState(nm), kvopStep)
}

// ---------------------------------------------------------------- P25 views

// overState is the state of an overlay: the entries of the base and its own,
// where "!" stands for a deleted one.
func overState(base, over model) string {
	x := model{}
	for k, v := range base {
		x["b"+k] = v
	}
	for k, v := range over {
		x["o"+k] = v
	}
	return kvState(x)
}

func overStep(state string, o *HOp) []string {
	base, over, shown := model{}, model{}, model{}
	x := stateKV(state)
	for _, k := range sortedKeys(x) {
		switch {
		case k[0] == 'b':
			base[k[1:]], shown[k[1:]] = x[k], x[k]
		case x[k] == "!":
			over[k[1:]] = "!"
			delete(shown, k[1:])
		default:
			over[k[1:]], shown[k[1:]] = x[k], x[k]
		}
	}
	to := over
	switch o.Name {
	case "base":
		to = base
	case "batch":
	default:
		if kvopStep(kvState(shown), o) == nil {
			return nil
		}
		return []string{state}
	}
	for _, c := range strings.Split(o.In, ",") {
		switch {
		case c == "":
		case c[0] == 'p':
			i := strings.IndexByte(c, '=')
			to[unhex(c[1:i])] = c[i+1:]
		case o.Name == "base":
			delete(base, unhex(c[1:]))
		default:
			over[unhex(c[1:])] = "!"
		}
	}
	return []string{overState(base, over)}
}

func runP25(r *R) {
	kvSeq = 0
	keys := genKeys(2+op(4), 2, 0)
	base := &MediaDB{newMedia()}
	m := model{}
	for i := op(5); i > 0; i-- {
		k, v := keys[op(len(keys))], kvVal()
		base.Put(k, v)
		m[string(k)] = string(v)
	}
	w0 := base.m.writes
	pending := 0 // writes of the owner of the base that are under way
	check := func(what string) {
		if base.m.writes < w0 || base.m.writes > w0+pending {
			fail("base-touched", "%s wrote to the base database", what)
		}
	}
	// the owner of the base changes an entry
	owner := func(k []byte) string {
		pending++
		s := "d" + keyIn(k)
		if opChance(1, 3) {
			base.Delete(cp(k))
			delete(m, string(k))
		} else {
			v := kvVal()
			base.Put(cp(k), cp(v))
			m[string(k)] = string(v)
			s = "p" + putIn(k, string(v))
		}
		pending--
		w0++
		stat("base.changed")
		return s
	}
	muts := 0
	switch n("cfg", 3) {
	case 0: // read-only
		ro := db.ReadOnly(base)
		for i := 0; more(11, 12) && i < 20; i++ {
			k := keys[op(len(keys))]
			switch op(7) {
			case 6:
				owner(k)
			case 0:
				if err := ro.Put(k, kvVal()); err == nil {
					fail("readonly-accepted", "Put on a read-only view succeeded")
				}
				muts++
			case 1:
				if err := ro.Delete(k); err == nil {
					fail("readonly-accepted", "Delete on a read-only view succeeded")
				}
				muts++
			case 2:
				bt := base.NewBatch()
				bt.Put(k, kvVal())
				if err := ro.Batch(bt); err == nil {
					fail("readonly-accepted", "Batch on a read-only view succeeded")
				}
				muts++
			case 3:
				if err := ro.Close(); err == nil {
					fail("readonly-accepted", "Close on a read-only view succeeded")
				}
			case 4:
				ro = db.ReadOnly(ro)
			}
			check("a read-only view")
			kvGet("view-read", ro, k, m)
			kvHas("view-read", ro, k, m)
		}
	case 1: // temporary overlay, with concurrent clients and base read errors
		tdb := db.Temporary(base)
		base.m.loadErr = []int{0, 0, 150}[n("cfg", 3)]
		base.m.inject = true
		h := &History{}
		nops := 0
		init := overState(m, nil)
		var ts []*zzsim.Task
		if opChance(1, 2) { // entries of the base change below the overlay
			ts = append(ts, zzsim.Spawn("owner", 1, func() {
				for i := 0; more(4, 5) && i < 6; i++ {
					o := h.Call(98, "base", "")
					o.In = owner(keys[op(len(keys))])
					h.Return(o, "")
				}
			}))
		}
		for c := 0; c < 1+op(3); c++ {
			c := c
			ts = append(ts, zzsim.Spawn(fmt.Sprintf("client%d", c), 1, func() {
				for i := 0; more(5, 6) && i < 8 && nops < 18; i++ {
					nops++
					k := keys[op(len(keys))]
					var err error
					switch zzsim.Weighted("op", 5, 4, 6, 3, 3) {
					case 0:
						err = hPut(h, c, tdb, k, kvVal())
						muts++
					case 1:
						err = hDel(h, c, tdb, k)
						muts++
					case 2:
						o := h.Call(c, "get", keyIn(k))
						v, gerr := tdb.Get(cp(k))
						out := "-"
						if gerr != nil {
							if !isInjected(gerr) {
								fail("get-error", "Get: %v", gerr)
							}
							h.drop(o)
							continue
						}
						if v != nil {
							out = kvShort(v)
							scramble(v)
						}
						h.Return(o, out)
					case 3:
						o := h.Call(c, "has", keyIn(k))
						ok, gerr := tdb.Has(cp(k))
						if gerr != nil {
							if !isInjected(gerr) {
								fail("get-error", "Has: %v", gerr)
							}
							h.drop(o)
							continue
						}
						out := "-"
						if ok {
							out = "yes"
						}
						h.Return(o, out)
					case 4:
						err = hBatch(h, c, tdb, keys, 3, false)
						muts++
					}
					if err != nil {
						fail("write-error", "a write to the overlay failed: %v", err)
					}
					check("the overlay")
				}
			}))
		}
		zzsim.Join(ts...)
		base.m.inject = false
		tdb.Close()
		for _, k := range keys {
			hGet(h, 99, tdb, k)
			hHas(h, 99, tdb, k)
		}
		check("the overlay")
		for _, k := range keys {
			kvGet("base-changed", base, k, m)
		}
		checkLin("overlay", h, init, overStep)
	case 2: // a trie rebased on an overlay leaves the base alone
		w := &tworld{m: base.m}
		w.na = db.NewKeyPrefixedDataAdapter(base, []byte("n"))
		w.va = db.NewKeyPrefixedDataAdapter(base, []byte("v"))
		tkeys := genKeys(3+op(5), 0, 2)
		t := w.open(nil)
		tm := model{}
		for _, k := range tkeys {
			if opChance(2, 3) {
				v, s := w.newVal(k)
				t.Put(k, v)
				tm[string(k)] = s
			}
		}
		root := mustRoot(t)
		w0 = base.m.writes
		om := tm.clone()
		over := db.Temporary(db.ReadOnly(base))
		t2, err := t.Rebase(over)
		if err != nil {
			fail("rebase-error", "Rebase: %v", err)
		}
		w0 = base.m.writes
		for i := 0; more(9, 10) && i < 20; i++ {
			k := tkeys[op(len(tkeys))]
			switch op(4) {
			case 0, 1:
				v, s := w.newVal(k)
				t2.Put(k, v)
				om[string(k)] = s
				muts++
			case 2:
				t2.Delete(k)
				delete(om, string(k))
				muts++
			case 3:
				r2 := mustRoot(t2)
				if opChance(1, 2) {
					t2 = t2.Inherit(r2)
				}
			}
			check("a trie on the overlay")
		}
		r2 := mustRoot(t2)
		check("a trie on the overlay")
		w.checkAll("rebased", "the rebased trie", t2, tkeys, om)
		w.checkAll("rebased", "the rebased trie reopened", t2.Inherit(r2), tkeys, om)
		w.checkAll("rebase-source", "the original trie", t, tkeys, tm)
		w.checkAll("rebase-source", "the original trie reopened", w.open(root), tkeys, tm)
	}
	if muts >= 2 {
		r.Nontrivial()
	}
}
