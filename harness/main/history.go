//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strconv"
	"strings"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/ThinkiumGroup/go-common/zzsim"
)

func init() {
	const real = "trie.HistoryTree and tree nodes, go-rtl codec, common hashing and proofs, key-prefixed adapters"
	register(&Prop{ID: "P11", Run: runP11, Quick: 30000, QuickS: 18,
		Rule: "Non-trivial: more than 16 values were appended and the tree was reopened, cloned, chopped or collapsed.",
		Real: real, Stub: "the key-value store below the adapter"})
	register(&Prop{ID: "P12", Run: runP12, Quick: 30000, QuickS: 28,
		Rule: "Non-trivial: a fault fired, or the process was killed with uncommitted values.",
		Real: real, Stub: "the key-value store below the adapter, with injected errors and crashes"})
	register(&Prop{ID: "P13", Run: runP13, Quick: 30000, QuickS: 18,
		Rule: "Non-trivial: operations of two clients overlapped.",
		Real: real, Stub: "the key-value store; goroutine scheduling, sync primitives"})
	register(&Prop{ID: "P15", Run: runP15, Quick: 30000, QuickS: 25,
		Rule: "Non-trivial: a rollback or commit happened while appended values were pending.",
		Real: "trie.RevertableHistoryTree, " + real, Stub: "the key-value store, with injected errors; goroutine scheduling, sync primitives"})
}

// hmod is the reference model of a history tree: the list of values from base
// on, and the hashes of the complete subtrees left of base.
type hmod struct {
	base uint64
	fr0  [64][]byte // subtrees left of base, by level
	vals [][]byte   // values of base, base+1, ...
	fr   [64][]byte
	left map[uint64][]byte // values left of base a partial tree may know
}

func (m *hmod) n() uint64 { return m.base + uint64(len(m.vals)) }

func (m *hmod) clone() *hmod {
	c := *m
	c.vals = m.vals[:len(m.vals):len(m.vals)]
	return &c
}

func (m *hmod) add(v []byte) {
	if len(m.vals) == 0 {
		m.fr = m.fr0
	} else {
		i := m.n() - 1
		h := m.vals[len(m.vals)-1]
		t := 0
		for ; i>>t&1 == 1; t++ {
			h = hpair(m.fr[t], h)
		}
		m.fr[t] = h
	}
	m.vals = append(m.vals, v)
}

func (m *hmod) root() []byte {
	if len(m.vals) == 0 {
		return common.NilHashSlice
	}
	i := m.n() - 1
	h := m.vals[len(m.vals)-1]
	for t := 0; t < 64; t++ {
		if i>>t&1 == 1 {
			h = hpair(m.fr[t], h)
		} else {
			h = hpair(h, common.NilHashSlice)
		}
	}
	return h
}

// chop keeps the values up to key k.
func (m *hmod) chop(k uint64) *hmod {
	c := &hmod{base: m.base, fr0: m.fr0, left: m.left}
	for _, v := range m.vals[:k-m.base+1] {
		c.add(v)
	}
	return c
}

func (m *hmod) get(k uint64) []byte {
	if k < m.base || k >= m.n() {
		return nil
	}
	return m.vals[k-m.base]
}

// key draws an interesting key.
func (m *hmod) key() uint64 {
	switch op(6) {
	case 0:
		return m.n()
	case 1:
		return m.n() + uint64(op(300))
	case 2:
		if m.base > 0 {
			return m.base - 1 - uint64(op(40))%m.base
		}
		return uint64(op(4))
	case 3:
		return m.n() - 1
	}
	if len(m.vals) == 0 {
		return uint64(op(3))
	}
	return m.base + uint64(op(len(m.vals)))
}

type hw struct {
	m   *Media
	d   db.Database
	seq uint64
}

func (w *hw) val() []byte {
	w.seq++
	v := bytes.Repeat([]byte{0x5a}, 32)
	binary.BigEndian.PutUint64(v, w.seq)
	return v
}

func (w *hw) open(prefix string, root []byte, strict bool) (*trie.HistoryTree, error) {
	return trie.NewHistoryTree(w.d, []byte(prefix), root, strict)
}

type hh struct {
	t      *trie.HistoryTree
	m      *hmod
	name   string
	prefix string
	d      db.Database
}

type hroot struct {
	root   []byte
	m      *hmod
	prefix string
}

// hproof is the proof of value v at key k: the siblings given by fr left of it, nothing right of it.
func hproof(k uint64, fr [64][]byte) trie.ProofChain {
	mp := common.NewMerkleProofs()
	for t := 0; t < 64; t++ {
		if k>>t&1 == 1 {
			mp.Append(common.BytesToHash(fr[t]), true)
		} else {
			mp.Append(common.NilHash, false)
		}
	}
	return trie.ProofChain{trie.NewMerkleOnlyProof(trie.ProofMerkleOnly, mp)}
}

func bigStart() uint64 {
	switch n("cfg", 9) {
	case 0:
		return 15
	case 1:
		return 0xf
	case 2:
		return 0xfe
	case 3:
		return 0xfff8
	case 4:
		return 0xfffffff0
	case 5:
		return 0x0fffffffffffffff
	case 6:
		return 0xfffffffffffff000
	case 7:
		return 1 << uint(n("cfg", 63))
	}
	return uint64(n("cfg", 1<<30))
}

// newPartial restores a tree from the proof of one value.
func (w *hw) newPartial(prefix string) *hh {
	m := &hmod{base: bigStart(), left: map[uint64][]byte{}}
	for t := 0; t < 64; t++ {
		if m.base>>t&1 == 1 {
			m.fr0[t] = w.val()
		}
	}
	if m.base&1 == 1 {
		m.left[m.base-1] = m.fr0[0]
	}
	v := w.val()
	t, err := trie.RestoreTreeFromProofs(w.d, []byte(prefix), m.base, cp(v), hproof(m.base, m.fr0))
	if err != nil {
		fail("restore-error", "RestoreTreeFromProofs(%d): %v", m.base, err)
	}
	m.add(v)
	ev("restored at %d", m.base)
	return &hh{t: t, m: m, prefix: prefix, name: "p" + prefix, d: w.d}
}

func (h *hh) checkGet(class string, k uint64) {
	v, ok := h.t.Get(k)
	h.judge(class, k, v, ok, false)
}

func (h *hh) judge(class string, k uint64, v []byte, ok bool, faulty bool) {
	want := h.m.get(k)
	if ok && !eq(v, want) {
		if l, is := h.m.left[k]; is && eq(l, v) {
			return
		}
		fail(class, "%s: Get(%d) returned %x, the value is %x (keys %d..%d)", h.name, k, v, want, h.m.base, h.m.n())
	}
	if !ok && want != nil && !faulty {
		fail(class, "%s: Get(%d) found nothing, the value is %x (keys %d..%d)", h.name, k, want, h.m.base, h.m.n())
	}
}

func (h *hh) checkRoot(class string) {
	x, err := h.t.HashValue()
	if err != nil || !eq(x, h.m.root()) {
		fail(class, "%s: HashValue = %x, %v; the root of keys %d..%d is %x", h.name, x, err, h.m.base, h.m.n(), h.m.root())
	}
}

func (h *hh) checkAll(class string) {
	if h.t.Expecting() != h.m.n() {
		fail(class, "%s: Expecting = %d, want %d", h.name, h.t.Expecting(), h.m.n())
	}
	for i := range h.m.vals {
		if l := len(h.m.vals); i < 40 || i > l-40 || i%7 == l%7 {
			h.checkGet(class, h.m.base+uint64(i))
		}
	}
	h.checkGet(class, h.m.n())
	if h.m.base > 0 {
		h.checkGet(class, h.m.base-1)
		h.checkGet(class, h.m.base/2)
	}
	h.checkRoot(class)
}

func (h *hh) append(w *hw, cnt int) {
	for ; cnt > 0; cnt-- {
		v := w.val()
		b := cp(v)
		if err := h.t.Append(h.m.n(), b); err != nil {
			fail("append-error", "%s: Append(%d): %v", h.name, h.m.n(), err)
		}
		scramble(b)
		h.m.add(v)
	}
}

// hburst draws a number of values to append; most runs stay small.
func hburst(total int) int {
	k := op(8)
	if total > 500 && k == 1 {
		k = 3
	}
	switch k {
	case 0:
		return 15 + op(4)
	case 1:
		return 240 + op(20)
	case 2:
		return 30 + op(10)
	}
	return 1 + op(5)
}

func runP11(r *R) {
	w := &hw{m: newMedia()}
	base := &MediaDB{w.m}
	w.d = base
	var hs []*hh
	if zzsim.Chance("cfg", 1, 3) {
		hs = append(hs, w.newPartial("p"))
	} else {
		t, err := w.open("h", nil, false)
		if err != nil {
			fail("open-error", "NewHistoryTree: %v", err)
		}
		hs = append(hs, &hh{t: t, m: &hmod{}, name: "h0", prefix: "h", d: w.d})
	}
	var roots []hroot
	moved, count := false, 0
	for i := 0; more(29, 30) && i < 80 && count < 900; i++ {
		h := hs[op(len(hs))]
		switch zzsim.Weighted("op", 14, 3, 10, 3, 3, 8, 5, 4, 4, 2, 4) {
		case 0:
			c := hburst(count)
			ev("%s append %d from %d", h.name, c, h.m.n())
			h.append(w, c)
			count += c
		case 1: // refused appends
			k := h.m.key()
			if k != h.m.n() {
				if err := h.t.Append(k, w.val()); err == nil {
					fail("append-accepted", "%s: Append(%d) was accepted, the next key is %d", h.name, k, h.m.n())
				}
			}
			if err := h.t.Append(h.m.n(), nil); err == nil {
				fail("append-accepted", "%s: Append of an empty value was accepted", h.name)
			}
			if h.t.Expecting() != h.m.n() {
				fail("expecting", "%s: Expecting = %d, want %d", h.name, h.t.Expecting(), h.m.n())
			}
		case 2:
			k := h.m.key()
			ev("%s get %d", h.name, k)
			h.checkGet("get", k)
		case 3:
			k := h.m.key()
			ev("%s has %d", h.name, k)
			ok := h.t.Has(k)
			if _, l := h.m.left[k]; !l && ok != (h.m.get(k) != nil) {
				fail("has", "%s: Has(%d) = %t (keys %d..%d)", h.name, k, ok, h.m.base, h.m.n())
			}
		case 4:
			ev("%s hash", h.name)
			h.checkRoot("root")
		case 5:
			x, err := commitHash(h.t)
			ev("%s commit", h.name)
			if err != nil {
				fail("commit-error", "%s: CommitAndHash: %v", h.name, err)
			}
			if !eq(x, h.m.root()) {
				fail("root", "%s: CommitAndHash = %x; the root of keys %d..%d is %x", h.name, x, h.m.base, h.m.n(), h.m.root())
			}
			if h.d == db.Database(base) {
				roots = append(roots, hroot{cp(x), h.m.clone(), h.prefix})
			}
		case 6: // reopen a committed root
			if len(roots) == 0 {
				break
			}
			x := roots[op(len(roots))]
			strict := x.m.base == 0 && opChance(1, 2)
			t, err := w.open(x.prefix, cp(x.root), strict)
			ev("reopen %d..%d strict %t", x.m.base, x.m.n(), strict)
			if err != nil {
				fail("reopen-error", "NewHistoryTree of the committed root of keys %d..%d: %v", x.m.base, x.m.n(), err)
			}
			nh := &hh{t: t, m: x.m.clone(), prefix: x.prefix, d: w.d, name: fmt.Sprintf("h%d(reopened)", len(hs))}
			moved = true
			if opChance(1, 2) {
				nh.checkAll("reopened")
			} else {
				nh.checkGet("reopened", nh.m.key())
				nh.checkRoot("reopened")
			}
			if len(hs) < 4 {
				hs = append(hs, nh)
			} else {
				hs[op(len(hs))] = nh
			}
		case 7:
			k := h.m.key()
			if opChance(2, 3) {
				k &^= 0xf
			}
			if opChance(1, 3) {
				k &^= 0xff
			}
			var err error
			if p := try(func() { err = h.t.CollapseBefore(k) }); p != nil {
				fail("collapse-panic", "%s: CollapseBefore(%d) with keys %d..%d panicked: %v", h.name, k, h.m.base, h.m.n(), p)
			}
			ev("%s collapse before %d -> %v", h.name, k, err)
			moved = true
		case 8:
			t := h.t.Clone()
			ev("%s clone", h.name)
			if t == nil {
				fail("clone-nil", "Clone returned nil without a fault")
			}
			moved = true
			nh := &hh{t: t, m: h.m.clone(), prefix: h.prefix, d: h.d, name: fmt.Sprintf("h%d(clone)", len(hs))}
			if len(hs) < 4 {
				hs = append(hs, nh)
			} else {
				hs[op(len(hs))] = nh
			}
		case 9:
			over := db.Temporary(db.ReadOnly(h.d))
			t, err := h.t.Rebase(over)
			ev("%s rebase", h.name)
			if err != nil {
				fail("rebase-error", "Rebase: %v", err)
			}
			nh := &hh{t: t, m: h.m.clone(), prefix: h.prefix, d: over, name: fmt.Sprintf("h%d(rebased)", len(hs))}
			if len(hs) < 4 {
				hs = append(hs, nh)
			}
			moved = true
		case 10:
			if len(h.m.vals) == 0 {
				if _, err := h.t.Chop(h.m.n()); err == nil {
					fail("chop-accepted", "%s: Chop of an empty tree succeeded", h.name)
				}
				break
			}
			k := h.m.base + uint64(op(len(h.m.vals)))
			if opChance(1, 6) {
				if _, err := h.t.Chop(h.m.n() + uint64(op(20))); err == nil {
					fail("chop-accepted", "%s: Chop beyond the last key succeeded", h.name)
				}
				break
			}
			t, err := h.t.Chop(k)
			ev("%s chop %d", h.name, k)
			if err != nil {
				fail("chop-error", "%s: Chop(%d) with keys %d..%d: %v", h.name, k, h.m.base, h.m.n(), err)
			}
			nh := &hh{t: t, m: h.m.chop(k), prefix: h.prefix, d: h.d, name: fmt.Sprintf("h%d(chopped)", len(hs))}
			nh.checkRoot("chop")
			moved = true
			if opChance(1, 2) {
				nh.checkAll("chop")
			}
			if len(hs) < 4 {
				hs = append(hs, nh)
			} else {
				hs[op(len(hs))] = nh
			}
		}
	}
	if moved && count > 16 {
		r.Nontrivial()
	}
	for _, h := range hs {
		h.checkAll("content")
	}
	for _, x := range roots {
		t, err := w.open(x.prefix, x.root, false)
		if err != nil {
			fail("reopen-error", "NewHistoryTree of the committed root of keys %d..%d: %v", x.m.base, x.m.n(), err)
		}
		nh := &hh{t: t, m: x.m, name: "committed root", prefix: x.prefix}
		nh.checkRoot("reopened")
		nh.checkGet("reopened", x.m.n()-1)
		nh.checkGet("reopened", nh.m.key())
	}
}

// ---------------------------------------------------------------- P12 durability and faults

func runP12(r *R) {
	w := &hw{m: newMedia()}
	w.d = &MediaDB{w.m}
	errs := []int{0, 30, 150, 400}
	w.m.loadErr, w.m.saveErr = errs[n("cfg", 4)], errs[n("cfg", 4)]
	w.m.ambiguous = zzsim.Chance("cfg", 1, 2)
	if zzsim.Chance("cfg", 1, 3) {
		w.m.shortLoad, w.m.shortPre = 100, "h"
	}
	total := 0
	var acks []hroot
	last := hroot{nil, &hmod{}, "h"}
	for round := 0; round < 3; round++ {
		g := round + 1
		w.m.crashAt = 0
		if zzsim.Chance("fault", 1, 2) {
			w.m.crashAt = w.m.writes + 1 + n("fault", 4<<uint(n("fault", 5)))
		}
		w.m.onCrash = func() {
			r.Nontrivial()
			zzsim.KillGroup(g)
		}
		w.m.inject = false
		zzsim.Spawn("proc", g, func() {
			t, err := w.open("h", last.root, false)
			if err != nil {
				fail("acked-lost", "after the restart the acknowledged root of %d keys does not open: %v", last.m.n(), err)
			}
			h := &hh{t: t, m: last.m.clone(), name: "h", prefix: "h"}
			for i := 0; more(24, 25) && i < 40; i++ {
				w.m.inject = opChance(1, 2)
				f0 := w.m.fired
				faulty := func() bool {
					if w.m.fired > f0 {
						r.Nontrivial()
						return true
					}
					return false
				}
				switch zzsim.Weighted("op", 12, 10, 8, 4, 3, 3, 2, 4, 2) {
				case 0:
					c := hburst(total)
					if total > 500 {
						break
					}
					total += c
					ev("append %d from %d", c, h.m.n())
					for ; c > 0; c-- {
						v := w.val()
						err := h.t.Append(h.m.n(), cp(v))
						if err == nil {
							h.m.add(v)
						} else {
							if !faulty() {
								fail("append-error", "Append(%d) failed without a fault: %v", h.m.n(), err)
							}
							ev("append %d -> %v", h.m.n(), err)
						}
					}
				case 1:
					k := h.m.key()
					v, ok := h.t.Get(k)
					ev("get %d -> %t", k, ok)
					h.judge("get", k, v, ok, faulty())
				case 2:
					x, err := commitHash(h.t)
					ev("commit %d -> %v", h.m.n(), err)
					if err != nil {
						if !faulty() {
							fail("commit-error", "CommitAndHash failed without a fault: %v", err)
						}
						break
					}
					if !eq(x, h.m.root()) {
						fail("root", "CommitAndHash = %x; the root of %d keys is %x", x, h.m.n(), h.m.root())
					}
					last = hroot{cp(x), h.m.clone(), "h"}
					acks = append(acks, last)
				case 3:
					k := h.m.key() &^ 0xf
					err := h.t.CollapseBefore(k)
					ev("collapse before %d -> %v", k, err)
				case 4:
					t := h.t.Clone()
					ev("clone")
					if t == nil {
						if !faulty() {
							fail("clone-nil", "Clone returned nil without a fault")
						}
						fail("clone-nil", "Clone returned nil: a caller that replaces its tree by the clone loses it")
					}
					if opChance(1, 2) {
						h.t = t
					} else {
						w.m.inject = false
						(&hh{t: t, m: h.m, name: "clone"}).checkAll("clone")
					}
				case 5:
					if len(acks) == 0 {
						break
					}
					x := acks[op(len(acks))]
					t, err := w.open("h", x.root, false)
					ev("reopen %d -> %v", x.m.n(), err)
					if err != nil {
						if !faulty() {
							fail("acked-lost", "the acknowledged root of %d keys does not open: %v", x.m.n(), err)
						}
						break
					}
					h.t, h.m = t, x.m.clone()
				case 6:
					if len(h.m.vals) == 0 {
						break
					}
					k := uint64(op(len(h.m.vals)))
					t, err := h.t.Chop(k)
					ev("chop %d -> %v", k, err)
					if err != nil {
						if !faulty() {
							fail("chop-error", "Chop(%d) of %d keys failed without a fault: %v", k, h.m.n(), err)
						}
						break
					}
					if opChance(1, 2) {
						h.t, h.m = t, h.m.chop(k)
					}
				case 7:
					k := h.m.key()
					v, p, ok := h.t.GetProof(k)
					ev("proof of %d -> %t", k, ok)
					h.judge("proof", k, v, ok, faulty())
					if ok {
						x, err := p.Proof(common.BytesToHash(v))
						if err != nil || !eq(x, h.m.root()) {
							fail("proof", "the proof of key %d leads to %x, %v; the root of %d keys is %x", k, x, err, h.m.n(), h.m.root())
						}
						checkHistoryProof(k, v, p, x)
					}
					f0 = w.m.fired
					if ok := h.t.Has(k); ok != (h.m.get(k) != nil) && !faulty() {
						fail("has", "Has(%d) = %t with %d keys", k, ok, h.m.n())
					}
				case 8:
					t, err := h.t.Rebase(db.Temporary(db.ReadOnly(w.d)))
					ev("rebase -> %v", err)
					if err != nil {
						if !faulty() {
							fail("rebase-error", "Rebase failed without a fault: %v", err)
						}
						break
					}
					w.m.inject = false
					if t == nil {
						fail("rebase-nil", "Rebase returned nothing and no error")
					}
					x := &hh{t: t, m: h.m.clone(), name: "rebased tree"}
					x.append(w, 1)
					x.checkAll("rebase")
				}
				if w.m.crashAt == 0 && opChance(1, 12) {
					w.m.inject = false
					h.checkAll("content")
				}
			}
			w.m.inject = false
			h.checkAll("after-faults")
			x, err := commitHash(h.t)
			if err != nil || !eq(x, h.m.root()) {
				fail("commit-after-faults", "CommitAndHash after the faults = %x, %v, expected %x", x, err, h.m.root())
			}
			last = hroot{cp(x), h.m.clone(), "h"}
			acks = append(acks, last)
		})
		zzsim.JoinGroup(g)
		w.m.inject, w.m.crashAt = false, 0
		for i, a := range acks {
			t, err := w.open("h", a.root, true)
			if err != nil {
				fail("acked-lost", "after the restart the acknowledged root of %d keys does not open: %v", a.m.n(), err)
			}
			h := &hh{t: t, m: a.m, name: fmt.Sprintf("acknowledged root %d", i)}
			if i == len(acks)-1 || len(a.m.vals) < 40 {
				h.checkAll("acked-lost")
			} else {
				h.checkRoot("acked-lost")
				for j := 0; j < 5; j++ {
					h.checkGet("acked-lost", h.m.key())
				}
			}
		}
	}
}

// ---------------------------------------------------------------- P13 concurrency

// The state of a shared history tree in a linearization is the number of values.
func runP13(r *R) {
	w := &hw{m: newMedia()}
	w.d = &MediaDB{w.m}
	t, err := w.open("h", nil, false)
	if err != nil {
		fail("open-error", "%v", err)
	}
	full := &hmod{} // all values ever appended, in order
	start := []int{0, 3, 14, 31, 250}[n("cfg", 5)]
	for i := 0; i < start; i++ {
		v := w.val()
		if err := t.Append(uint64(i), v); err != nil {
			fail("append-error", "%v", err)
		}
		full.add(v)
	}
	if opChance(1, 2) {
		t.Commit()
		if opChance(1, 2) {
			t.CollapseBefore(uint64(start) &^ 0xf)
		}
		if opChance(1, 2) {
			t, err = w.open("h", full.root(), true)
			if err != nil {
				fail("reopen-error", "%v", err)
			}
		}
	}
	h := &History{}
	nops := 0
	var ts []*zzsim.Task
	vals := map[uint64]map[string]bool{}
	num := func(c int, name string, x uint64) *HOp { return h.Call(c, name, strconv.FormatUint(x, 10)) }
	for c := 0; c < 2+op(2); c++ {
		c := c
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("client%d", c), 1, func() {
			for i := 0; more(5, 6) && i < 6 && nops < 14; i++ {
				nops++
				k := uint64(start) + uint64(op(6)) - uint64(op(3))
				if int64(k) < 0 {
					k = 0
				}
				switch zzsim.Weighted("op", 8, 4, 4, 3, 3, 2, 2, 2, 2, 1) {
				case 0:
					x := t.Expecting() + uint64(op(6)/5)
					v := w.val()
					o := h.Call(c, "append", fmt.Sprintf("%d=%x", x, v[:8]))
					err := t.Append(x, v)
					out := "refused"
					if err == nil {
						out = "ok"
						if vals[x] == nil {
							vals[x] = map[string]bool{}
						}
						full.vals = append(full.vals, nil)
						full.vals[len(full.vals)-1] = v
					}
					h.Return(o, out)
				case 1:
					o := h.Call(c, "expecting", "")
					h.Return(o, strconv.FormatUint(t.Expecting(), 10))
				case 2:
					o := num(c, "get", k)
					v, ok := t.Get(k)
					out := "-"
					if ok {
						out = fmt.Sprintf("%x", v[:8])
					}
					h.Return(o, out)
				case 3:
					o := num(c, "has", k)
					h.Return(o, strconv.FormatBool(t.Has(k)))
				case 4:
					o := h.Call(c, "root", "")
					var x []byte
					var err error
					if opChance(1, 2) {
						x, err = t.CommitAndHash()
					} else {
						x, err = t.HashValue()
					}
					if err != nil {
						fail("hash-error", "%v", err)
					}
					h.Return(o, fmt.Sprintf("%x", x))
				case 5:
					if err := t.Commit(); err != nil {
						fail("commit-error", "%v", err)
					}
					ev("commit")
				case 6:
					t.CollapseBefore(k &^ 0xf)
					ev("collapse")
				case 7:
					o := h.Call(c, "root", "")
					x := t.Clone()
					if x == nil {
						fail("clone-nil", "Clone returned nil")
					}
					rt, err := x.HashValue()
					if err != nil {
						fail("hash-error", "%v", err)
					}
					if opChance(1, 2) { // a clone is independent
						x.Append(x.Expecting(), w.val())
					}
					h.Return(o, fmt.Sprintf("%x", rt))
				case 8:
					o := num(c, "proof", k)
					v, p, ok := t.GetProof(k)
					out := "-"
					if ok {
						rt, err := p.Proof(common.BytesToHash(v))
						if err != nil {
							fail("proof-error", "%v", err)
						}
						out = fmt.Sprintf("%x %x", v[:8], rt)
					}
					h.Return(o, out)
				case 9:
					_ = t.String()
				}
			}
		}))
	}
	zzsim.Join(ts...)
	for k := 0; k < len(full.vals)+1; k++ {
		o := num(99, "get", uint64(k))
		v, ok := t.Get(uint64(k))
		out := "-"
		if ok {
			out = fmt.Sprintf("%x", v[:8])
		}
		if k < start { // constant prefix: judge directly
			if !ok || !eq(v, full.vals[k]) {
				fail("get", "Get(%d) = %x, %t; want %x", k, v, ok, full.vals[k])
			}
			h.drop(o)
			continue
		}
		h.Return(o, out)
	}
	if overlapping(h) {
		r.Nontrivial()
	}
	// state: comma separated list of the ids of the values appended after start
	pre := &hmod{}
	for _, v := range full.vals[:start] {
		pre.add(v)
	}
	roots := map[string]string{}
	rootOf := func(state string) string {
		if x, ok := roots[state]; ok {
			return x
		}
		m := pre.clone()
		for _, id := range strings.Split(state, ",") {
			if id != "" {
				v := bytes.Repeat([]byte{0x5a}, 32)
				copy(v, unhex(id))
				m.add(v)
			}
		}
		x := fmt.Sprintf("%x", m.root())
		roots[state] = x
		return x
	}
	checkLin("not-linearizable", h, "", func(state string, o *HOp) []string {
		var ids []string
		if state != "" {
			ids = strings.Split(strings.TrimSuffix(state, ","), ",")
		}
		cnt := uint64(start + len(ids))
		at := func(k uint64) string {
			if k >= cnt {
				return "-"
			}
			if k < uint64(start) {
				return fmt.Sprintf("%x", full.vals[k][:8])
			}
			return ids[k-uint64(start)]
		}
		is := func(want string) []string {
			if o.Ret > 0 && o.Out != want {
				return nil
			}
			return []string{state}
		}
		switch o.Name {
		case "append":
			i := strings.IndexByte(o.In, '=')
			k, _ := strconv.ParseUint(o.In[:i], 10, 64)
			if k != cnt {
				return is("refused")
			}
			if o.Out != "ok" {
				return nil
			}
			return []string{state + o.In[i+1:] + ","}
		case "expecting":
			return is(strconv.FormatUint(cnt, 10))
		case "get":
			k, _ := strconv.ParseUint(o.In, 10, 64)
			return is(at(k))
		case "has":
			k, _ := strconv.ParseUint(o.In, 10, 64)
			return is(strconv.FormatBool(k < cnt))
		case "root":
			return is(rootOf(state))
		case "proof":
			k, _ := strconv.ParseUint(o.In, 10, 64)
			if k >= cnt {
				return is("-")
			}
			return is(at(k) + " " + rootOf(state))
		}
		panic(o.Name)
	})
}

// ---------------------------------------------------------------- P15 revertable history tree

func runP15(r *R) {
	switch n("cfg", 6) {
	case 3, 4:
		runP15c(r)
		return
	case 5:
		runP15m(r)
		return
	}
	w := &hw{m: newMedia()}
	w.d = &MediaDB{w.m}
	errs := []int{0, 0, 50, 300}
	w.m.loadErr, w.m.saveErr = errs[n("cfg", 4)], errs[n("cfg", 4)]
	w.m.ambiguous = zzsim.Chance("cfg", 1, 2)
	om := &hmod{}
	t, err := w.open("h", nil, false)
	if err != nil {
		fail("open-error", "%v", err)
	}
	for i := op(40); i > 0; i-- {
		v := w.val()
		t.Append(om.n(), v)
		om.add(v)
	}
	if opChance(1, 2) {
		t.Commit()
	}
	rt := &trie.RevertableHistoryTree{Origin: t}
	var lm *hmod
	cur := func() *hmod {
		if lm != nil {
			return lm
		}
		return om
	}
	var acks []hroot
	pend, total := false, 0
	for i := 0; more(24, 25) && i < 60; i++ {
		w.m.inject = opChance(1, 2)
		f0 := w.m.fired
		faulty := func() bool { return w.m.fired > f0 }
		switch zzsim.Weighted("op", 12, 8, 3, 4, 5, 5, 3, 3, 2, 2, 2) {
		case 0:
			c := hburst(total)
			if total > 500 {
				break
			}
			total += c
			ev("append %d from %d", c, cur().n())
			for ; c > 0; c-- {
				v := w.val()
				err := rt.Append(cur().n(), cp(v))
				if lm == nil && rt.Live != nil {
					lm = om.clone()
				}
				if err == nil {
					lm.add(v)
				} else if !faulty() {
					fail("append-error", "Append(%d) failed without a fault: %v", cur().n(), err)
				}
			}
		case 1:
			k := om.key()
			v, ok := rt.Get(k)
			ev("get %d -> %t", k, ok)
			(&hh{m: om, name: "committed view"}).judge("committed-content", k, v, ok, faulty())
		case 2:
			k := om.key()
			ok := rt.Has(k)
			ev("has %d -> %t", k, ok)
			if ok != (om.get(k) != nil) && !faulty() {
				fail("has", "Has(%d) = %t with %d committed keys", k, ok, om.n())
			}
		case 3:
			if e := rt.Expecting(); e != om.n() {
				fail("expecting", "Expecting = %d with %d committed keys", e, om.n())
			}
			x, err := rt.HashValue()
			if err != nil || !eq(x, om.root()) {
				fail("hash", "HashValue = %x, %v; the root of the %d committed keys is %x", x, err, om.n(), om.root())
			}
			x, err = rt.PreHashValue()
			if err != nil || !eq(x, cur().root()) {
				fail("prehash", "PreHashValue = %x, %v; the root of the %d live keys is %x", x, err, cur().n(), cur().root())
			}
		case 4:
			pend = pend || lm != nil
			for {
				f0 = w.m.fired
				var x []byte
				var err error
				if opChance(1, 2) {
					x, err = rt.CommitAndHash()
				} else if err = rt.Commit(); err == nil {
					inj := w.m.inject
					w.m.inject = false
					if x, err = rt.HashValue(); err != nil {
						fail("commit-error", "HashValue after Commit: %v", err)
					}
					w.m.inject = inj
				}
				ev("commit %d -> %v", cur().n(), err)
				if err != nil {
					if !faulty() {
						fail("commit-error", "CommitAndHash failed without a fault: %v", err)
					}
					w.m.inject = opChance(1, 2)
					continue
				}
				om, lm = cur(), nil
				if !eq(x, om.root()) {
					fail("commit-root", "CommitAndHash = %x; the root of %d keys is %x", x, om.n(), om.root())
				}
				acks = append(acks, hroot{cp(x), om.clone(), "h"})
				break
			}
		case 5:
			pend = pend || lm != nil
			ev("rollback to %d", om.n())
			rt.Rollback()
			lm = nil
		case 6:
			x, err := rt.PreCommit()
			ev("precommit %d -> %v", cur().n(), err)
			if err != nil {
				if !faulty() {
					fail("precommit-error", "PreCommit failed without a fault: %v", err)
				}
				break
			}
			if !eq(x, cur().root()) {
				fail("precommit", "PreCommit = %x; the root of %d live keys is %x", x, cur().n(), cur().root())
			}
			if lm != nil {
				acks = append(acks, hroot{cp(x), lm.clone(), "h"})
			}
		case 7:
			k := cur().key() &^ 0xf
			ev("collapse before %d", k)
			if opChance(1, 2) {
				rt.PreCollapseBefore(k)
			} else {
				rt.CollapseBefore(k)
			}
		case 8:
			if om.n() == 0 {
				break
			}
			k := uint64(op(int(om.n())))
			v, p, ok := rt.GetProof(k)
			if !ok {
				if !faulty() {
					fail("proof", "GetProof(%d) failed without a fault; %d committed keys", k, om.n())
				}
				break
			}
			x, err := p.Proof(common.BytesToHash(v))
			if err != nil || !eq(v, om.get(k)) || !eq(x, om.root()) {
				fail("proof", "GetProof(%d): value %x, root %x, %v; committed value %x, root %x", k, v, x, err, om.get(k), om.root())
			}
			checkHistoryProof(k, v, p, x)
		case 9:
			w.m.inject = false
			over := db.Temporary(db.ReadOnly(w.d))
			x, err := rt.Rebase(over)
			ev("rebase")
			if err != nil {
				fail("rebase-error", "Rebase: %v", err)
			}
			y, err := x.HashValue()
			if err != nil || !eq(y, om.root()) {
				fail("rebase", "the rebased tree has root %x, %v; want %x", y, err, om.root())
			}
			x.Append(om.n(), w.val())
			x.Commit()
		case 10:
			_ = rt.String()
		}
	}
	w.m.inject = false
	if pend {
		r.Nontrivial()
	}
	(&hh{t: rt.Origin, m: om, name: "committed view"}).checkAll("committed-content")
	if lm != nil {
		(&hh{t: rt.Live, m: lm, name: "live view"}).checkAll("live-content")
	}
	for _, a := range acks {
		t, err := w.open("h", a.root, false)
		if err != nil {
			fail("acked-lost", "the acknowledged root of %d keys does not open: %v", a.m.n(), err)
		}
		(&hh{t: t, m: a.m, name: "acknowledged root"}).checkAll("acked-lost")
	}
}
