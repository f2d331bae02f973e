//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/ThinkiumGroup/go-common/zzsim"
	"github.com/stephenfire/go-rtl"
)

func init() {
	register(&Prop{ID: "P42", Run: runP42, Quick: 60000, QuickS: 15,
		Rule: "Non-trivial: a trie with at least two entries was dumped while it was in use, or a fault fired during the dump.",
		Real: "trie.Trie.Dump, trie.RevertableTrie.Dump, node iteration, db.NewKeyPrefixedDataAdapter, db.NewTransparentDataAdapter", Stub: "the source and destination databases, with injected errors; goroutine scheduling"})
}

func runP42(r *R) {
	w := newTWorld()
	src := &MediaDB{w.m}
	w.na = db.NewKeyPrefixedDataAdapter(src, []byte("n"))
	w.va = db.NewKeyPrefixedDataAdapter(src, []byte("v"))
	rc := newRootCache(w)
	keys := trieKeys()
	if zzsim.Chance("cfg", 1, 8) {
		keys = append(keys, []byte{})
	}
	t := w.open(nil)
	init := model{}
	for i := op(2*len(keys)) + 1; i > 0; i-- {
		k := keys[op(len(keys))]
		if opChance(1, 5) {
			t.Delete(k)
			delete(init, string(k))
			continue
		}
		v, s := rc.val(k)
		t.Put(k, v)
		init[string(k)] = s
	}
	dirty := false
	switch op(5) {
	case 0:
		dirty = t.IsDirty()
	case 1:
		mustRoot(t)
	case 2:
		mustRoot(t)
		t.Collapse()
	default:
		t = w.open(mustRoot(t))
	}
	revertable := zzsim.Chance("cfg", 1, 3)
	rt := &trie.RevertableTrie{Origin: t}
	mode := n("cfg", 3) // 0 alone, 1 with writers, 2 with faults
	h := &History{}
	nops := 0
	var ts []*zzsim.Task
	if mode == 1 {
		for c := 0; c < 1+op(2); c++ {
			c := c
			ts = append(ts, zzsim.Spawn(fmt.Sprintf("writer%d", c), 1, func() {
				for i := 0; more(5, 6) && i < 8 && nops < 12; i++ {
					nops++
					k := keys[op(len(keys))]
					switch zzsim.Weighted("op", 6, 3, 5, 1, 1) {
					case 0:
						v, s := rc.val(k)
						o := h.Call(c, "put", putIn(k, s))
						ok := false
						if revertable {
							ok = rt.Put(k, v)
						} else {
							ok = t.Put(k, v)
						}
						h.Return(o, fmt.Sprint(ok))
					case 1:
						o := h.Call(c, "del", keyIn(k))
						var ch bool
						var old interface{}
						if revertable {
							ch, old = rt.Delete(k)
						} else {
							ch, old = t.Delete(k)
						}
						out := "-"
						if ch {
							out = w.vstr(old)
						}
						h.Return(o, out)
					case 2:
						var err error
						if revertable {
							o := h.Call(c, "commit", "")
							err = rt.Commit()
							h.Return(o, "")
						} else {
							err = t.Commit()
							ev("commit %v", err)
						}
						if err != nil {
							fail("commit-error", "Commit: %v", err)
						}
					case 3:
						if revertable {
							o := h.Call(c, "rollback", "")
							rt.Rollback()
							h.Return(o, "")
						}
					case 4:
						if !revertable {
							t.Collapse()
							ev("collapse")
						}
					}
				}
			}))
		}
	}
	dump := func(c int, dst *Media, during func()) (model, error) {
		var got []kvPair
		var to db.Database = &MediaDB{dst}
		cb := func(k, v []byte) {
			s := ""
			if w.raw {
				s = w.vstr(v)
			} else {
				x := new(TV)
				if err := rtl.Unmarshal(v, x); err != nil {
					fail("dump-value", "the value of key %x was given as %x, which does not decode: %v", k, v, err)
				}
				s = w.vstr(x)
			}
			zzsim.Point()
			got = append(got, kvPair{string(k), s})
		}
		o := h.Call(c, "iter", "")
		var err error
		if c%2 == 0 { // not every caller wants the values
			cb = nil
		}
		if revertable {
			err = rt.Dump(to, cb)
		} else {
			err = t.Dump(to, cb)
		}
		ev("dump c%d -> %v", c, err)
		if err != nil {
			h.drop(o)
			return nil, err
		}
		ret := zzsim.Stamp()
		if cb == nil {
			h.drop(o)
			return nil, nil
		}
		sort.SliceStable(got, func(i, j int) bool { return got[i].k < got[j].k })
		m := model{}
		for _, p := range got {
			if _, dup := m[p.k]; dup {
				fail("dump-twice", "the dump gave the value of key %x twice", p.k)
			}
			m[p.k] = p.v
		}
		o.Out, o.Ret = fmtPairs(got), ret
		checkDump(w, rc, dst, keys, m)
		return m, nil
	}
	if len(init) >= 2 && mode == 1 {
		r.Nontrivial()
	}
	for c := 0; c < 1+op(2)*n("cfg", 2); c++ {
		c := 11 + 2*c
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("dumper%d", c), 1, func() {
			for i := 0; i < 1+op(2); i++ {
				dst := newMedia()
				if mode == 2 {
					if zzsim.Chance("fault", 1, 2) {
						w.m.loadErr, w.m.budget, w.m.inject = []int{20, 100, 400}[zzsim.Choose("fault", 3)], 1, true
					}
					if zzsim.Chance("fault", 1, 2) {
						dst.saveErr, dst.budget, dst.inject = []int{20, 100, 400}[zzsim.Choose("fault", 3)], 1, true
					}
				}
				f0 := w.m.fired
				var err error
				for try := 0; try < 4; try++ {
					_, err = dump(c, dst, nil)
					if dirty && err == nil && mode != 1 && len(init) > 0 {
						fail("dump-dirty", "a trie with unsaved changes was dumped")
					}
					if err == nil {
						break
					}
					if mode == 1 || dirty {
						break
					}
					if dst.fired == 0 && w.m.fired == f0 {
						fail("dump-error", "dumping a saved trie failed without a fault: %v", err)
					}
				}
				if w.m.fired > f0 || dst.fired > 0 {
					r.Nontrivial()
				}
				w.m.inject = false
				if mode != 1 && !dirty && err != nil {
					fail("dump-retry", "dumping a saved trie did not succeed after the faults stopped: %v", err)
				}
			}
		}))
	}
	zzsim.Join(ts...)
	// at the end, a saved trie can be dumped and the copy is complete
	if revertable {
		if mode == 1 {
			o := h.Call(99, "commit", "")
			if err := rt.Commit(); err != nil {
				fail("commit-error", "Commit: %v", err)
			}
			h.Return(o, "")
		} else {
			mustRoot(rt.Origin)
		}
	} else {
		mustRoot(t)
	}
	dst := newMedia()
	m, err := dump(99, dst, nil)
	if err != nil {
		fail("dump-error", "dumping a saved trie failed: %v", err)
	}
	d2 := newMedia()
	if _, err := dump(98, d2, nil); err != nil {
		fail("dump-error", "dumping a saved trie without a callback failed: %v", err)
	}
	checkDump(w, rc, d2, keys, m)
	if revertable {
		checkLin("dump-content", h, rstate{o: kvState(init)}.String(), rstep(rc))
	} else {
		checkLin("dump-content", h, kvState(init), kvStep)
	}
}

// checkDump opens the copy and compares it with the content that was dumped.
func checkDump(w *tworld, rc *rootCache, dst *Media, keys [][]byte, m model) {
	if len(m) == 0 {
		return
	}
	root := []byte(rc.of(m))
	d := &MediaDB{dst}
	t := w.openOn(root, db.NewKeyPrefixedDataAdapter(d, []byte("n")), db.NewKeyPrefixedDataAdapter(d, []byte("v")))
	w.checkAll("dump-incomplete", "the copy", t, keys, m)
	if got := fmtPairs(w.drain(t.ValueIterator())); got != fmtPairs(wantPairs(m, false)) {
		fail("dump-incomplete", "the copy iterates as %s; dumped %s", got, m)
	}
}

var _ = bytes.Equal
