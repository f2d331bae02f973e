//go:build go1.22

package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/ThinkiumGroup/go-common/zzsim"
)

// TV is the value type stored in the simulated tries.
type TV struct {
	K []byte
	N uint64
	P []byte
}

func (v *TV) Key() []byte { return v.K }

// String is what the printing functions of the trie show of a value
func (v *TV) String() string {
	if v == nil {
		return "nil*TV"
	}
	return fmt.Sprintf("%x=%d+%d", v.K, v.N, len(v.P))
}

var tvType = reflect.TypeOf((*TV)(nil))

// tworld is one durable store with tries on it.
type tworld struct {
	m    *Media
	na   db.DataAdapter
	va   db.DataAdapter
	raw  bool // values are byte strings with custom codec and hasher
	vseq uint64
	big  bool
}

func newTWorld() *tworld {
	w := &tworld{m: newMedia()}
	w.na, w.va = &Adapter{w.m, "n"}, &Adapter{w.m, "v"}
	w.raw = zzsim.Chance("cfg", 1, 4)
	w.big = zzsim.Chance("cfg", 1, 6)
	return w
}

func rawEnc(o interface{}, w io.Writer) error { _, err := w.Write(o.([]byte)); return err }
func rawDec(r io.Reader) (interface{}, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	if len(b) == 0 {
		return nil, io.ErrUnexpectedEOF
	}
	return b, nil
}
func rawHash(v interface{}, b []byte) ([]byte, error) { return keccak(b), nil }

func (w *tworld) open(root []byte) *trie.Trie {
	return w.openOn(root, w.na, w.va)
}
func (w *tworld) openOn(root []byte, na, va db.DataAdapter) *trie.Trie {
	if w.raw {
		return trie.NewTrieWithValueFuncs(root, na, va, rawEnc, rawDec, rawHash)
	}
	return trie.NewTrieWithValueType(root, na, va, tvType)
}

// newVal draws a value; the string form identifies its content.
func (w *tworld) newVal(key []byte) (interface{}, string) {
	nn := uint64(op(4))
	if nn == 0 {
		w.vseq++
		nn = 100 + w.vseq
	}
	var p []byte
	if w.big && opChance(1, 6) {
		p = bytes.Repeat([]byte{byte(nn)}, 4097+op(40))
	}
	if w.raw {
		b := append([]byte(fmt.Sprintf("v%d:", nn)), p...)
		return b, w.vstr(b)
	}
	v := &TV{K: append([]byte{}, key...), N: nn, P: p}
	return v, w.vstr(v)
}

func (w *tworld) vstr(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case []byte:
		if len(x) > 40 {
			return fmt.Sprintf("%s+%d", x[:8], len(x))
		}
		return string(x)
	case *TV:
		if x == nil {
			return "nil*TV"
		}
		return fmt.Sprintf("%x=%d+%d", x.K, x.N, len(x.P))
	}
	return fmt.Sprintf("%T", v)
}

// trieKeys draws the key universe of a run.
func trieKeys() [][]byte {
	switch n("cfg", 4) {
	case 0:
		return genKeys(3+op(6), 3, 0) // variable length: some keys are prefixes of others
	case 1:
		return genKeys(4+op(12), 0, 2)
	case 2:
		return genKeys(4+op(20), 0, 3)
	default:
		ks := genKeys(4+op(10), 0, 4)
		for _, k := range ks { // long common stem
			k[0], k[1] = 0xab, 0xcd
		}
		seen := map[string]bool{}
		var r [][]byte
		for _, k := range ks {
			if !seen[string(k)] {
				seen[string(k)] = true
				r = append(r, k)
			}
		}
		return r
	}
}

type model map[string]string

func (m model) clone() model {
	r := model{}
	for k, v := range m {
		r[k] = v
	}
	return r
}
func (m model) String() string {
	var b strings.Builder
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(&b, "%x:%s ", k, m[k])
	}
	return b.String()
}

type getter interface {
	Get(key []byte) (interface{}, bool)
}

// checkAll compares every key of the universe with the model.
func (w *tworld) checkAll(class, what string, t getter, keys [][]byte, m model) {
	for _, k := range keys {
		v, ok := t.Get(k)
		want, has := m[string(k)]
		if ok != has || (ok && w.vstr(v) != want) {
			fail(class, "%s: key %x reads (%s, %t), expected (%s, %t)\n  expected content: %s", what, k, w.vstr(v), ok, want, has, m)
		}
	}
}

type kvPair struct{ k, v string }

func (w *tworld) drain(it trie.ValueIterator) []kvPair {
	var r []kvPair
	for i := 0; it.Next(); i++ {
		k, v := it.Current()
		r = append(r, kvPair{string(k), w.vstr(v)})
		if i > 10000 {
			fail("iterator-endless", "the iterator does not end")
		}
	}
	return r
}

func wantPairs(m model, rev bool) []kvPair {
	var r []kvPair
	for _, k := range sortedKeys(m) {
		r = append(r, kvPair{k, m[k]})
	}
	if rev {
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
	}
	return r
}

func fmtPairs(p []kvPair) string {
	var b strings.Builder
	for _, x := range p {
		fmt.Fprintf(&b, "%x:%s ", x.k, x.v)
	}
	return b.String()
}

func samePairs(a, b []kvPair) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type committer interface {
	Commit() error
	HashValue() ([]byte, error)
	CommitAndHash() ([]byte, error)
}

// commitHash commits in one of the two ways there are and returns the root.
func commitHash(t committer) ([]byte, error) {
	if opChance(1, 2) {
		return t.CommitAndHash()
	}
	if err := t.Commit(); err != nil {
		return nil, err
	}
	return t.HashValue()
}

func mustRoot(t committer) []byte {
	r, err := commitHash(t)
	if err != nil {
		fail("commit-error", "CommitAndHash failed without a fault: %v", err)
	}
	return append([]byte{}, r...)
}

// ---------------------------------------------------------------- P01 map refinement

type thandle struct {
	t     *trie.Trie
	m     model
	count bool // Count() is meaningful
	root  []byte
	rm    model
	name  string
}

func init() {
	register(&Prop{ID: "P01", Run: runP01, Quick: 60000, QuickS: 18,
		Rule: "Non-trivial: at least 8 operations including a commit and an overwrite, delete or reopen.",
		Real: "trie.Trie and nodes, db adapter interface, go-rtl codec, common hashing", Stub: "the key-value store below the two data adapters (in-memory durable image)"})
	register(&Prop{ID: "P02", Run: runP02, Quick: 40000, QuickS: 18,
		Rule: "Non-trivial: the process was killed inside a commit that still had nodes to write.",
		Real: "trie.Trie and nodes, go-rtl codec, common hashing", Stub: "the key-value store below the data adapters: durable image plus ordered write log, crash at any write"})
	register(&Prop{ID: "P03", Run: runP03, Quick: 40000, QuickS: 18,
		Rule: "Non-trivial: at least one load or save error fired.",
		Real: "trie.Trie and nodes, go-rtl codec, common hashing", Stub: "the key-value store below the data adapters, with injected load and save errors"})
	register(&Prop{ID: "P04", Run: runP04, Quick: 30000, QuickS: 18,
		Rule: "Non-trivial: at least two different histories reached the same content.",
		Real: "trie.Trie and nodes, go-rtl codec, common hashing", Stub: "the key-value store below the data adapters"})
	register(&Prop{ID: "P05", Run: runP05, Quick: 30000, QuickS: 18,
		Rule: "Non-trivial: at least two tasks had overlapping operations on the shared trie.",
		Real: "trie.Trie, SyncTrie, nodes, node cache collapse", Stub: "the key-value store; goroutine scheduling, sync primitives"})
	register(&Prop{ID: "P06", Run: runP06, Quick: 30000, QuickS: 18,
		Rule: "Non-trivial: the trie held at least two keys while iterated.",
		Real: "trie.Trie value iterators, Clone, nodes", Stub: "the key-value store; goroutine scheduling, sync primitives"})
}

func runP01(r *R) {
	w := newTWorld()
	keys := trieKeys()
	if zzsim.Chance("cfg", 1, 8) {
		keys = append(keys, []byte{})
	}
	hs := []*thandle{{t: w.open(nil), m: model{}, count: true, name: "t0"}}
	type saved struct {
		root []byte
		m    model
	}
	var roots []saved
	ops, muts, commits := 0, 0, 0
	for more(39, 40) && ops < 160 {
		ops++
		h := hs[op(len(hs))]
		k := keys[op(len(keys))]
		switch zzsim.Weighted("op", 30, 14, 18, 8, 4, 4, 2, 2, 2, 2, 1, 2, 1) {
		case 0: // put
			v, s := w.newVal(k)
			var ok bool
			if tv, is := v.(*TV); is && opChance(1, 4) {
				ok = h.t.PutValue(tv)
			} else {
				ok = h.t.Put(append([]byte{}, k...), v)
			}
			ev("%s put %x %s -> %t", h.name, k, s, ok)
			if !ok {
				fail("put-refused", "Put(%x) reported no change", k)
			}
			h.m[string(k)] = s
			muts++
		case 1: // delete
			want, had := h.m[string(k)]
			ch, old := h.t.Delete(append([]byte{}, k...))
			ev("%s delete %x -> %t %s", h.name, k, ch, w.vstr(old))
			if ch != had || (had && w.vstr(old) != want) || (!had && old != nil) {
				fail("delete-result", "Delete(%x) returned (%t, %s), the key held (%s, %t)", k, ch, w.vstr(old), want, had)
			}
			delete(h.m, string(k))
			muts++
		case 2: // get
			want, had := h.m[string(k)]
			v, ok := h.t.Get(k)
			ev("%s get %x -> %s %t", h.name, k, w.vstr(v), ok)
			if ok != had || (ok && w.vstr(v) != want) {
				fail("get-result", "Get(%x) returned (%s, %t), the key holds (%s, %t)\n  content: %s", k, w.vstr(v), ok, want, had, h.m)
			}
		case 3: // commit
			if opChance(1, 2) {
				h.root = mustRoot(h.t)
			} else {
				if err := h.t.Commit(); err != nil {
					fail("commit-error", "Commit failed without a fault: %v", err)
				}
				if h.t.IsDirty() {
					fail("dirty-after-commit", "the trie is dirty after Commit")
				}
				x, err := h.t.HashValue()
				if err != nil {
					fail("hash-error", "HashValue: %v", err)
				}
				h.root = append([]byte{}, x...)
			}
			h.rm = h.m.clone()
			roots = append(roots, saved{h.root, h.rm})
			ev("%s commit -> %x", h.name, h.root[:4])
			commits++
		case 4: // collapse
			ev("%s collapse", h.name)
			if err := h.t.Collapse(); err != nil {
				fail("collapse-error", "Collapse: %v", err)
			}
		case 5: // hash without commit
			if _, err := h.t.HashValue(); err != nil {
				fail("hash-error", "HashValue: %v", err)
			}
			ev("%s hash", h.name)
		case 6: // clone
			c := h.t.Clone()
			nh := &thandle{t: c, m: h.m.clone(), name: fmt.Sprintf("%s.c%d", h.name, ops)}
			ev("%s clone -> %s", h.name, nh.name)
			if len(hs) < 4 {
				hs = append(hs, nh)
			} else {
				hs[op(len(hs))] = nh
			}
		case 7: // restart: only committed state survives
			if h.root == nil {
				continue
			}
			stat("fault.restart")
			ev("%s restart at %x", h.name, h.root[:4])
			h.t, h.m, h.count = w.open(append([]byte{}, h.root...)), h.rm.clone(), false
		case 8: // inherit an older root
			if len(roots) == 0 {
				continue
			}
			s := roots[op(len(roots))]
			ev("%s inherit %x", h.name, s.root[:4])
			nh := &thandle{t: h.t.Inherit(s.root), m: s.m.clone(), name: fmt.Sprintf("%s.i%d", h.name, ops)}
			hs[op(len(hs))] = nh
		case 9: // burst of commits: nodes untouched for long are dropped from memory
			ev("%s commit burst", h.name)
			for i := 0; i < 103; i++ {
				if err := h.t.Commit(); err != nil {
					fail("commit-error", "Commit failed without a fault: %v", err)
				}
			}
			stat("probe.commit_burst")
		case 10: // full content
			w.checkAll("content", h.name, h.t, keys, h.m)
		case 11:
			if h.count && h.t.Count() != len(h.m) {
				fail("count", "Count() is %d, the trie holds %d keys: %s", h.t.Count(), len(h.m), h.m)
			}
			if h.t.IsEmpty() != (len(h.m) == 0) {
				fail("is-empty", "IsEmpty() is %t, the trie holds %d keys", h.t.IsEmpty(), len(h.m))
			}
		case 12: // batch putter
			bp := trie.NewBatchPutter(h.t, 1+op(3))
			c := op(6)
			for i := c; i > 0; i-- {
				k := keys[op(len(keys))]
				v, s := w.newVal(k)
				ok, err := bp.Put(k, v)
				if !ok || err != nil {
					fail("batchputter", "BatchPutter.Put(%x) = %t, %v", k, ok, err)
				}
				h.m[string(k)] = s
			}
			if bp.Count() != c {
				fail("batchputter", "Count() = %d after %d puts", bp.Count(), c)
			}
			ev("%s batchputter", h.name)
		}
	}
	for _, h := range hs {
		w.checkAll("content", "at the end "+h.name, h.t, keys, h.m)
		if h.count && h.t.Count() != len(h.m) {
			fail("count", "Count() is %d, the trie holds %d keys", h.t.Count(), len(h.m))
		}
	}
	for i, s := range roots {
		if i%3 == 0 {
			w.checkAll("history-root", "root "+hx(s.root), w.open(s.root), keys, s.m)
		}
	}
	if ops >= 8 && commits > 0 && muts > 2 {
		r.Nontrivial()
	}
}

// ---------------------------------------------------------------- P02 crash durability

func runP02(r *R) {
	w := newTWorld()
	w.m.keep = true
	keys := trieKeys()
	type acked struct {
		root []byte
		m    model
		at   int
	}
	var acks []acked
	var root []byte
	mod := model{}
	attempted := map[string]model{}
	for round := 0; round < 4; round++ {
		t := w.open(root)
		m := mod.clone()
		w.m.crashAt = 0
		if round < 3 {
			w.m.crashAt = w.m.writes + 1 + n("fault", 6<<uint(n("fault", 4)))
		}
		g := round + 1
		crashed := false
		midCommit := false
		committing := false
		w.m.onCrash = func() {
			crashed = true
			midCommit = committing
			zzsim.KillGroup(g)
		}
		zzsim.Spawn("proc", g, func() {
			for i := 0; more(11, 12) && i < 40; i++ {
				k := keys[op(len(keys))]
				switch zzsim.Weighted("op", 8, 4, 3, 2, 1, 1) {
				case 0:
					v, s := w.newVal(k)
					ev("put %x %s", k, s)
					t.Put(k, v)
					m[string(k)] = s
				case 1:
					ev("delete %x", k)
					t.Delete(k)
					delete(m, string(k))
				case 2, 5:
					h, err := t.HashValue()
					if err == nil {
						attempted[string(h)] = m.clone()
					}
					committing = true
					rt, err := commitHash(t)
					committing = false
					if err != nil {
						fail("commit-error", "CommitAndHash: %v", err)
					}
					ev("acked %x", rt[:4])
					attempted[string(rt)] = m.clone()
					acks = append(acks, acked{append([]byte{}, rt...), m.clone(), w.m.writes})
				case 3:
					t.Collapse()
				case 4: // iterate (clones and commits inside)
					h, err := t.HashValue()
					if err == nil {
						attempted[string(h)] = m.clone()
					}
					w.drain(t.ValueIterator())
				}
			}
		})
		zzsim.JoinGroup(g)
		if crashed && midCommit {
			r.Nontrivial()
			stat("probe.crash_mid_commit")
		}
		// restart: only the durable image survives
		if len(acks) > 0 {
			a := acks[len(acks)-1]
			root, mod = a.root, a.m
			w.checkAll("acked-lost", "after the crash, acknowledged root "+hx(root), w.open(root), keys, mod)
		}
		// any root a commit got as far as making loadable must be complete
		for _, h := range sortedKeys(attempted) {
			if _, ok := w.m.img["n"+h]; ok {
				w.checkAll("partial-root", fmt.Sprintf("after the crash, loadable root %x", h[:4]), w.open([]byte(h)), keys, attempted[h])
			}
		}
	}
	for _, a := range acks {
		w.checkAll("acked-lost", "acknowledged root "+hx(a.root), w.open(a.root), keys, a.m)
	}
	// power cut: every prefix of the write log that contains an ack point
	if len(acks) > 0 {
		a := acks[n("fault", len(acks))]
		cut := a.at + n("fault", len(w.m.log)-a.at+1)
		m2 := newMedia()
		m2.img = w.m.imageAt(cut)
		stat("fault.power_cut_prefix")
		w.checkAll("acked-lost", fmt.Sprintf("power cut after write %d, root %x acknowledged at write %d", cut, a.root[:4], a.at),
			w.openOn(a.root, &Adapter{m2, "n"}, &Adapter{m2, "v"}), keys, a.m)
	}
}

// ---------------------------------------------------------------- P03 I/O faults

func runP03(r *R) {
	w := newTWorld()
	rc := newRootCache(w)
	keys := trieKeys()
	w.m.loadErr = []int{0, 30, 150, 400}[n("cfg", 4)]
	w.m.saveErr = []int{0, 30, 150, 400}[n("cfg", 4)]
	w.m.ambiguous = zzsim.Chance("cfg", 1, 2)
	if zzsim.Chance("cfg", 1, 3) {
		w.m.shortLoad, w.m.shortPre = 100, "n"
	}
	t := w.open(nil)
	m := model{}
	var root []byte
	rm := model{}
	reopen := func(why string) {
		ev("reopen: %s", why)
		t = w.open(root)
		m = rm.clone()
	}
	for i := 0; more(29, 30) && i < 100; i++ {
		w.m.inject = opChance(2, 3)
		k := keys[op(len(keys))]
		f0 := w.m.fired
		faulty := func() bool { return w.m.fired > f0 }
		want, had := m[string(k)]
		switch zzsim.Weighted("op", 12, 6, 10, 6, 4, 2, 2, 1, 3, 3, 2, 1, 2) {
		case 12:
			bp := trie.NewBatchPutter(t, 1+op(3))
			for j := 1 + op(5); j > 0; j-- {
				k := keys[op(len(keys))]
				v, s := rc.val(k)
				f0 = w.m.fired
				ok, err := bp.Put(k, v)
				ev("batch put %x %s -> %t, %v", k, s, ok, err)
				if (!ok || err != nil) && !faulty() {
					fail("put-refused", "BatchPutter.Put(%x) = %t, %v and nothing failed", k, ok, err)
				}
				if ok {
					m[string(k)] = s
				}
			}
		case 0:
			v, s := rc.val(k)
			ok := t.Put(k, v)
			ev("put %x %s -> %t", k, s, ok)
			if !ok && !faulty() {
				fail("put-refused", "Put(%x) reported no change and nothing failed", k)
			}
			if ok {
				m[string(k)] = s
			}
		case 1:
			var ch bool
			var old interface{}
			if p := try(func() { ch, old = t.Delete(k) }); p != nil {
				if _, is := p.(error); is && faulty() {
					// the code stops on purpose: the process is restarted
					stat("probe.delete_failstop")
					reopen("delete fail-stop")
					continue
				}
				panic(p)
			}
			ev("delete %x -> %t", k, ch)
			if ch {
				if !had || w.vstr(old) != want {
					fail("delete-result", "Delete(%x) returned (true, %s), the key held (%s, %t)", k, w.vstr(old), want, had)
				}
				delete(m, string(k))
			} else if had && !faulty() {
				fail("delete-refused", "Delete(%x) reported no change and nothing failed", k)
			}
		case 2:
			v, ok := t.Get(k)
			ev("get %x -> %s %t", k, w.vstr(v), ok)
			if ok && (!had || w.vstr(v) != want) {
				fail("get-wrong", "Get(%x) returned %s, the key holds (%s, %t)", k, w.vstr(v), want, had)
			}
			if !ok && had && !faulty() {
				fail("get-lost", "Get(%x) found nothing although no load failed during the call; the key holds %s", k, want)
			}
		case 3:
			x, err := commitHash(t)
			ev("commit -> %v", err)
			if err == nil {
				root, rm = append([]byte{}, x...), m.clone()
				w.m.inject = false
				w.checkAll("ack-incomplete", "Commit succeeded, but the reopened root "+hx(root), w.open(root), keys, rm)
			} else if !faulty() {
				fail("commit-error", "CommitAndHash failed without a fault: %v", err)
			}
		case 4:
			if err := t.Collapse(); err != nil && !faulty() {
				fail("collapse-error", "Collapse: %v", err)
			}
			ev("collapse")
		case 5:
			c := t.Clone()
			ev("clone")
			if c == nil {
				if !faulty() {
					fail("clone-nil", "Clone returned nil")
				}
				continue
			}
			if opChance(1, 2) {
				t = c
			} else {
				w.m.inject = false
				w.checkAll("clone-content", "the clone", c, keys, m)
			}
		case 6:
			if root == nil {
				continue
			}
			reopen("restart")
		case 7:
			ev("burst")
			ok := true
			for i := 0; i < 102 && ok; i++ {
				ok = t.Commit() == nil
			}
		case 8:
			v, c, ok := t.GetProof(k)
			ev("proof of %x -> %t", k, ok)
			if ok && (!had || w.vstr(v) != want) || !ok && had && !faulty() {
				fail("proof-wrong", "GetProof(%x) = %s, %t; the key holds (%s, %t)", k, w.vstr(v), ok, want, had)
			}
			if ok {
				hv, _ := keccak(encode(v)), error(nil)
				x, err := c.Proof(common.BytesToHash(hv))
				if err != nil || string(x) != rc.of(m) {
					fail("proof-wrong", "the proof of %x leads to %x, %v; the content has root %x", k, x, err, rc.of(m))
				}
			}
			f0 = w.m.fired
			e, c, err := t.GetExistenceProof(k)
			ev("existence of %x -> %t, %v", k, e, err)
			if err == nil && e != had || err != nil && !faulty() {
				fail("existence-wrong", "GetExistenceProof(%x) = %t, %v; the trie holds it: %t", k, e, err, had)
			}
			if err == nil {
				x, err := c.ExistenceHash()
				if err != nil || string(x) != rc.of(m) {
					fail("existence-wrong", "the existence proof of %x leads to %x, %v; the content has root %x", k, x, err, rc.of(m))
				}
				if ok, err := c.IsExist(k); len(k) > 0 && (err != nil || ok != had) {
					fail("existence-wrong", "the existence proof of %x shows %t, %v; the trie holds it: %t", k, ok, err, had)
				}
			}
		case 9:
			x, err := t.HashValue()
			ev("hash -> %v", err)
			if err != nil && !faulty() || err == nil && string(x) != rc.of(m) {
				fail("hash", "HashValue = %x, %v; the content has root %x", x, err, rc.of(m))
			}
		case 10:
			rev := opChance(1, 3)
			var got []kvPair
			if rev {
				got = w.drain(t.ReversedValueIterator())
			} else {
				got = w.drain(t.ValueIterator())
			}
			ev("iterate -> %d", len(got))
			all := wantPairs(m, rev)
			if !faulty() && !samePairs(got, all) {
				fail("iterator", "the iterator delivers %s, content %s", fmtPairs(got), m)
			}
			j := 0
			for _, g := range got {
				for j < len(all) && all[j] != g {
					j++
				}
				if j++; j > len(all) {
					fail("iterator-wrong", "under load errors the iterator delivers %s, content %s", fmtPairs(got), m)
				}
			}
		case 11:
			if c := t.Count(); c >= 0 {
				ev("count %d", c)
			}
			if e := t.IsEmpty(); e != (len(m) == 0) && !faulty() {
				fail("is-empty", "IsEmpty = %t with %d keys", e, len(m))
			}
		}
	}
	w.m.inject = false
	if w.m.fired > 0 {
		r.Nontrivial()
	}
	w.checkAll("after-faults", "after the faults stopped", t, keys, m)
	x := mustRoot(t)
	w.checkAll("after-faults", "reopened after the faults stopped", w.open(x), keys, m)
}

// ---------------------------------------------------------------- P04 canonical root

func runP04(r *R) {
	w := newTWorld()
	keys := trieKeys()
	byRoot := map[string]string{}
	byContent := map[string]string{}
	dup := false
	note := func(root []byte, m model, how string) {
		c := m.String()
		if o, ok := byRoot[string(root)]; ok && o != c {
			fail("root-collision", "%s: root %x stands for two contents:\n  %s\n  %s", how, root, o, c)
		}
		if o, ok := byContent[c]; ok {
			dup = true
			if o != string(root) {
				fail("root-not-canonical", "%s: content %s has roots %x and %x", how, c, []byte(o)[:6], root[:6])
			}
		}
		if trie.IsEmptyTrieRoot(root) != (len(m) == 0) {
			fail("empty-root", "%s: IsEmptyTrieRoot(%x) = %t, content %s", how, root, len(m) != 0, c)
		}
		byRoot[string(root)] = c
		byContent[c] = string(root)
	}
	vals := map[string]interface{}{}
	build := func(m model, how string) {
		t := w.open(nil)
		ks := sortedKeys(m)
		for i := len(ks) - 1; i > 0; i-- {
			j := op(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
		// detours that must leave no trace
		for i, k := range ks {
			if opChance(1, 5) {
				x := keys[op(len(keys))]
				if _, in := m[string(x)]; !in {
					v, _ := w.newVal(x)
					t.Put(x, v)
					if opChance(1, 2) {
						t.Commit()
						t.Collapse()
					}
					if i%2 == 0 {
						t.Get([]byte(k))
					}
					t.Delete(x)
				}
			}
			if opChance(1, 6) {
				v, _ := w.newVal([]byte(k))
				t.Put([]byte(k), v)
			}
			t.Put([]byte(k), vals[k+"\x00"+m[k]])
			switch op(8) {
			case 1:
				t.Commit()
				t.Collapse()
			case 2:
				t.HashValue()
			case 3:
				t = w.open(mustRoot(t))
			}
		}
		h, err := t.HashValue()
		if err != nil {
			fail("hash-error", "%v", err)
		}
		note(append([]byte{}, h...), m, how+" (uncommitted)")
		note(mustRoot(t), m, how)
	}
	t := w.open(nil)
	m := model{}
	for i := 0; more(24, 25) && i < 60; i++ {
		k := keys[op(len(keys))]
		switch zzsim.Weighted("op", 10, 6, 4, 3, 3, 3) {
		case 0:
			v, s := w.newVal(k)
			vals[string(k)+"\x00"+s] = v
			t.Put(k, v)
			m[string(k)] = s
			ev("put %x %s", k, s)
		case 1:
			t.Delete(k)
			delete(m, string(k))
			ev("delete %x", k)
		case 2:
			h, err := t.HashValue()
			if err != nil {
				fail("hash-error", "%v", err)
			}
			ev("hash %x", h[:4])
			note(append([]byte{}, h...), m, "history (uncommitted)")
		case 3:
			h := mustRoot(t)
			ev("commit %x", h[:4])
			note(h, m, "history")
			if opChance(1, 2) {
				t.Collapse()
			}
		case 4:
			ev("rebuild")
			build(m, "rebuild")
		case 5:
			switch op(3) {
			case 0:
				t = w.open(mustRoot(t))
			case 1:
				t = t.Clone()
			case 2:
				t.Get(k)
			}
		}
	}
	note(mustRoot(t), m, "history end")
	build(m, "final rebuild")
	if dup && len(byContent) > 1 {
		r.Nontrivial()
	}
}

// ---------------------------------------------------------------- P05 concurrency

type prover interface {
	GetProof(key []byte) (value interface{}, proof trie.ProofChain, ok bool)
	GetExistenceProof(key []byte) (exist bool, proofs trie.ProofChain, err error)
}

// proofOut asks for a value or existence proof, verifies it and returns the
// answer with the root it leads to.
func (w *tworld) proofOut(t prover, k []byte, exist bool) string {
	if !exist {
		v, c, ok := t.GetProof(k)
		if !ok {
			return "-"
		}
		hv, err := keccak(encode(v)), error(nil)
		if err != nil {
			fail("hash-error", "%v", err)
		}
		root, err := c.Proof(common.BytesToHash(hv))
		if err != nil {
			fail("proof-error", "the proof of %x: %v", k, err)
		}
		return fmt.Sprintf("%s %x", w.vstr(v), root)
	}
	ok, c, err := t.GetExistenceProof(k)
	if err != nil {
		fail("existence-error", "GetExistenceProof(%x): %v", k, err)
	}
	root, err := c.ExistenceHash()
	if err != nil {
		fail("existence-error", "ExistenceHash of the proof of %x: %v", k, err)
	}
	if e, err := c.IsExist(k); len(k) > 0 && (err != nil || e != ok) {
		fail("existence-error", "GetExistenceProof(%x) = %t, its proof shows %t, %v", k, ok, e, err)
	}
	return fmt.Sprintf("%t %x", ok, root)
}

// proofWant is the answer for content m.
func proofWant(rc *rootCache, m model, k string, exist bool) string {
	v, ok := m[k]
	if exist {
		return fmt.Sprintf("%t %x", ok, rc.of(m))
	}
	if !ok {
		return "-"
	}
	return fmt.Sprintf("%s %x", v, rc.of(m))
}

// kvStepR is kvStep with roots and proofs.
func kvStepR(rc *rootCache) func(string, *HOp) []string {
	return func(state string, o *HOp) []string {
		want := ""
		switch o.Name {
		case "hash":
			want = rc.of(stateKV(state))
		case "proof", "exist":
			want = proofWant(rc, stateKV(state), unhex(o.In), o.Name == "exist")
		default:
			return kvStep(state, o)
		}
		if o.Ret > 0 && o.Out != want {
			return nil
		}
		return []string{state}
	}
}

type concTrie interface {
	prover
	PutValue(trie.TrieValue) bool
	Get(key []byte) (interface{}, bool)
	Put(key []byte, value interface{}) bool
	Delete(key []byte) (bool, interface{})
	Commit() error
	HashValue() ([]byte, error)
	IsDirty() bool
}

func kvState(m model) string {
	var b strings.Builder
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(&b, "%x=%s;", k, m[k])
	}
	return b.String()
}
func stateKV(s string) model {
	m := model{}
	for _, p := range strings.Split(s, ";") {
		if p == "" {
			continue
		}
		i := strings.IndexByte(p, '=')
		k, _ := hex.DecodeString(p[:i])
		m[string(k)] = p[i+1:]
	}
	return m
}

// putIn and keyIn are the inputs of put and of the other operations.
func putIn(k []byte, v string) string { return fmt.Sprintf("%x=%s", k, v) }
func unhex(s string) string           { b, _ := hex.DecodeString(s); return string(b) }
func keyIn(k []byte) string           { return hex.EncodeToString(k) }

// kvStep is the sequential model of a map with get, put, del, iter operations.
func kvStep(state string, o *HOp) []string {
	m := stateKV(state)
	switch o.Name {
	case "get":
		v, ok := m[unhex(o.In)]
		if !ok {
			v = "-"
		}
		if o.Ret > 0 && v != o.Out {
			return nil
		}
		return []string{state}
	case "put":
		i := strings.IndexByte(o.In, '=')
		if o.Out == "false" {
			return nil
		}
		m[unhex(o.In[:i])] = o.In[i+1:]
		return []string{kvState(m)}
	case "del":
		v, ok := m[unhex(o.In)]
		if !ok {
			v = "-"
		}
		if o.Ret > 0 && v != o.Out {
			return nil
		}
		delete(m, unhex(o.In))
		return []string{kvState(m)}
	case "iter":
		if o.Ret > 0 && fmtPairs(wantPairs(m, false)) != o.Out {
			return nil
		}
		return []string{state}
	case "riter":
		if o.Ret > 0 && fmtPairs(wantPairs(m, true)) != o.Out {
			return nil
		}
		return []string{state}
	case "root":
		if o.Ret > 0 && o.Out != m.String() {
			return nil
		}
		return []string{state}
	case "values":
		var vs []string
		for _, p := range wantPairs(m, false) {
			vs = append(vs, p.v)
		}
		if o.Ret > 0 && o.Out != strings.Join(vs, ", ") {
			return nil
		}
		return []string{state}
	case "count":
		if o.Ret > 0 && o.Out != fmt.Sprint(len(m)) {
			return nil
		}
		return []string{state}
	case "empty":
		if o.Ret > 0 && o.Out != fmt.Sprint(len(m) == 0) {
			return nil
		}
		return []string{state}
	}
	panic("kvStep " + o.Name)
}

func runP05(r *R) {
	w := newTWorld()
	w.big = w.big && zzsim.Chance("cfg", 1, 2)
	rc := newRootCache(w)
	keys := genKeys(2+op(5), 0, 1+op(2))
	t := w.open(nil)
	var ct concTrie = t
	sync := zzsim.Chance("cfg", 1, 3)
	var st *trie.SyncTrie
	if sync {
		st = trie.NewSyncTrie(t)
		ct = st
	}
	init := model{}
	for i := op(5); i > 0; i-- {
		k := keys[op(len(keys))]
		v, s := rc.val(k)
		t.Put(k, v)
		init[string(k)] = s
	}
	if opChance(2, 3) {
		t.Commit()
		if opChance(2, 3) {
			t.Collapse()
		}
	}
	h := &History{}
	rootOps := []*HOp{}
	nt := 2 + op(3)
	var ts []*zzsim.Task
	nops := 0
	for c := 0; c < nt; c++ {
		c := c
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("client%d", c), 1, func() {
			for i := 0; more(4, 5) && i < 6 && nops < 16; i++ {
				nops++
				k := keys[op(len(keys))]
				switch zzsim.Weighted("op", 8, 6, 8, 4, 3, 2, 2, 2, 2, 3, 1) {
				case 0:
					v, s := rc.val(k)
					o := h.Call(c, "put", putIn(k, s))
					if tv, is := v.(*TV); is && opChance(1, 3) {
						h.Return(o, fmt.Sprint(ct.PutValue(tv)))
					} else {
						h.Return(o, fmt.Sprint(ct.Put(k, v)))
					}
				case 1:
					o := h.Call(c, "del", keyIn(k))
					ch, old := ct.Delete(k)
					out := "-"
					if ch {
						out = w.vstr(old)
					}
					h.Return(o, out)
				case 2:
					o := h.Call(c, "get", keyIn(k))
					v, ok := ct.Get(k)
					out := "-"
					if ok {
						out = w.vstr(v)
					}
					h.Return(o, out)
				case 3:
					if err := ct.Commit(); err != nil {
						fail("commit-error", "Commit: %v", err)
					}
					ev("commit")
				case 4:
					if _, ok := ct.(*trie.Trie); ok {
						if err := t.Collapse(); err != nil {
							fail("collapse-error", "Collapse: %v", err)
						}
						ev("collapse")
					}
				case 5: // committed root: its content is a state of the map
					if _, ok := ct.(*trie.Trie); !ok {
						continue
					}
					o := h.Call(c, "root", "")
					rt, err := t.CommitAndHash()
					if err != nil {
						fail("commit-error", "CommitAndHash: %v", err)
					}
					h.Return(o, string(rt))
					rootOps = append(rootOps, o)
				case 6:
					ct.IsDirty()
					o := h.Call(c, "hash", "")
					x, err := ct.HashValue()
					if err != nil {
						fail("hash-error", "HashValue: %v", err)
					}
					h.Return(o, string(x))
				case 7:
					if _, ok := ct.(*trie.Trie); ok {
						o := h.Call(c, "count", "")
						h.Return(o, fmt.Sprint(t.Count()))
						o = h.Call(c, "empty", "")
						h.Return(o, fmt.Sprint(t.IsEmpty()))
					}
				case 8:
					var it trie.ValueIterator
					o := h.Call(c, "iter", "")
					if st != nil {
						it = st.ValueIterator()
					} else {
						it = t.ValueIterator()
					}
					h.Return(o, fmtPairs(w.drain(it)))
				case 9:
					name := []string{"proof", "exist"}[op(2)]
					o := h.Call(c, name, keyIn(k))
					h.Return(o, w.proofOut(ct, k, name == "exist"))
				case 10: // a clone has the content of one moment, and is independent
					if _, ok := ct.(*trie.Trie); !ok {
						continue
					}
					o := h.Call(c, "iter", "")
					x := t.Clone()
					if x == nil {
						fail("clone-nil", "Clone returned nil")
					}
					h.Return(o, fmtPairs(w.drain(x.ValueIterator())))
					v, _ := rc.val(k)
					x.Put(k, v)
					x.Commit()
				}
			}
		}))
	}
	zzsim.Join(ts...)
	for _, o := range rootOps {
		m := model{}
		for _, p := range w.drain(w.open([]byte(o.Out)).ValueIterator()) {
			m[p.k] = p.v
		}
		o.Out = m.String()
	}
	fin := h.Call(99, "iter", "")
	h.Return(fin, fmtPairs(w.drain(t.ValueIterator())))
	for _, k := range keys {
		o := h.Call(99, "get", keyIn(k))
		v, ok := t.Get(k)
		out := "-"
		if ok {
			out = w.vstr(v)
		}
		h.Return(o, out)
	}
	overlap := false
	for i, a := range h.ops {
		for _, b := range h.ops[:i] {
			if a.Client != b.Client && a.Call < b.Ret && b.Call < a.Ret {
				overlap = true
			}
		}
	}
	if overlap {
		r.Nontrivial()
	}
	checkLin("not-linearizable", h, kvState(init), kvStepR(rc))
}

// ---------------------------------------------------------------- P06 iteration

// printedValues extracts the values, in the order printed, from the dump of
// the tree: of all the nodes or of those that hold a value.
func printedValues(t *trie.Trie) string {
	var s string
	if opChance(1, 2) {
		s = t.PrintValues()
	} else {
		s = t.String()
	}
	var vs []string
	for _, l := range strings.Split(s, "\n") {
		_, l, ok := strings.Cut(l, ", value=")
		if !ok {
			continue
		}
		v, _, ok := strings.Cut(l, ", child[")
		if !ok {
			fail("printed-values", "line %q", l)
		}
		vs = append(vs, v)
	}
	return strings.Join(vs, ", ")
}

func runP06(r *R) {
	w := newTWorld()
	keys := trieKeys()
	emptyKey := zzsim.Chance("cfg", 1, 8)
	if emptyKey {
		keys = append(keys, []byte{})
	}
	t := w.open(nil)
	init := model{}
	for i := op(2 * len(keys)); i > 0; i-- {
		k := keys[op(len(keys))]
		if opChance(1, 4) {
			t.Delete(k)
			delete(init, string(k))
			continue
		}
		v, s := w.newVal(k)
		t.Put(k, v)
		init[string(k)] = s
	}
	switch op(4) {
	case 1:
		t.Commit()
		t.Collapse()
	case 2:
		t = w.open(mustRoot(t))
	case 3:
		t.Commit()
	}
	if len(init) >= 2 {
		r.Nontrivial()
	}
	h := &History{}
	nw := op(3)
	var ts []*zzsim.Task
	for c := 0; c < nw; c++ {
		c := c
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("writer%d", c), 1, func() {
			for i := 0; more(3, 4) && i < 4; i++ {
				k := keys[op(len(keys))]
				if opChance(1, 3) {
					o := h.Call(c, "del", keyIn(k))
					ch, old := t.Delete(k)
					out := "-"
					if ch {
						out = w.vstr(old)
					}
					h.Return(o, out)
				} else {
					v, s := w.newVal(k)
					o := h.Call(c, "put", putIn(k, s))
					h.Return(o, fmt.Sprint(t.Put(k, v)))
				}
				if opChance(1, 4) {
					t.Commit()
				}
			}
		}))
	}
	for c := 0; c < 1+op(2); c++ {
		c := c + 10
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("reader%d", c), 1, func() {
			for i := 0; i < 1+op(2); i++ {
				switch op(6) {
				case 4:
					// the printed values, in key order
					if w.raw || emptyKey {
						continue
					}
					o := h.Call(c, "values", "")
					s := t.ValueString()
					if len(s) < 2 || s[0] != '<' || s[len(s)-1] != '>' {
						fail("value-string", "ValueString: %q", s)
					}
					h.Return(o, s[1:len(s)-1])
				case 5:
					// the dump of the nodes that have values, one to a line
					if w.raw {
						continue
					}
					o := h.Call(c, "values", "")
					h.Return(o, printedValues(t))
				case 0:
					o := h.Call(c, "iter", "")
					it := t.ValueIterator()
					o2 := zzsim.Stamp()
					p := w.drain(it)
					h.Return(o, fmtPairs(p))
					o.Ret = o2 // the snapshot is fixed when the iterator is made
				case 1:
					o := h.Call(c, "riter", "")
					it := t.ReversedValueIterator()
					o2 := zzsim.Stamp()
					p := w.drain(it)
					h.Return(o, fmtPairs(p))
					o.Ret = o2
				case 2:
					o := h.Call(c, "iter", "")
					var p []kvPair
					t.IterateAll(!emptyKey && opChance(1, 2), func(k []byte, v interface{}) bool {
						p = append(p, kvPair{string(k), w.vstr(v)})
						return true
					})
					h.Return(o, fmtPairs(p))
				case 3:
					if w.raw {
						continue
					}
					// serialise and rebuild
					o := h.Call(c, "root", "")
					var buf bytes.Buffer
					if err := t.Marshal(&buf); err != nil {
						fail("marshal-error", "%v", err)
					}
					nt, err := t.UnmarshalNewTrie(&buf, tvType, func(x interface{}) []byte { return x.(*TV).K })
					if err != nil {
						fail("marshal-error", "UnmarshalNewTrie: %v", err)
					}
					m := model{}
					for _, p := range w.drain(nt.ValueIterator()) {
						m[p.k] = p.v
					}
					h.Return(o, m.String())
				}
			}
		}))
	}
	zzsim.Join(ts...)
	for _, name := range []string{"iter", "riter"} {
		o := h.Call(99, name, "")
		var it trie.ValueIterator = t.ReversedValueIterator()
		if name == "iter" {
			it = t.ValueIterator()
		}
		h.Return(o, fmtPairs(w.drain(it)))
	}
	checkLin("iteration", h, kvState(init), kvStep)
}

var _ = sort.Strings
