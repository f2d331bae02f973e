//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/ThinkiumGroup/go-common/zzsim"
)

// runP15c: several clients share one RevertableHistoryTree.
func runP15c(r *R) {
	w := &hw{m: newMedia()}
	w.d = &MediaDB{w.m}
	t, err := w.open("h", nil, false)
	if err != nil {
		fail("open-error", "%v", err)
	}
	pre := &hmod{}
	start := []int{0, 3, 14, 31, 250}[n("cfg", 5)]
	for i := 0; i < start; i++ {
		v := w.val()
		if err := t.Append(uint64(i), v); err != nil {
			fail("append-error", "%v", err)
		}
		pre.add(v)
	}
	if opChance(1, 2) {
		t.Commit()
		if opChance(1, 2) {
			t.CollapseBefore(uint64(start) &^ 0xf)
		}
	}
	rt := &trie.RevertableHistoryTree{Origin: t}
	h := &History{}
	nops := 0
	next := uint64(start)
	var ts []*zzsim.Task
	num := func(c int, name string, x uint64) *HOp { return h.Call(c, name, strconv.FormatUint(x, 10)) }
	hash := func(c int, name string, f func() ([]byte, error)) {
		o := h.Call(c, name, "")
		x, err := f()
		if err != nil {
			fail("hash-error", "%s: %v", name, err)
		}
		h.Return(o, fmt.Sprintf("%x", x))
	}
	get := func(c int, k uint64) {
		o := num(c, "get", k)
		v, ok := rt.Get(k)
		out := "-"
		if ok {
			out = fmt.Sprintf("%x", v[:8])
		}
		h.Return(o, out)
	}
	for c := 0; c < 2+op(2); c++ {
		c := c
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("client%d", c), 1, func() {
			for i := 0; more(5, 6) && i < 6 && nops < 14; i++ {
				nops++
				k := uint64(start) + uint64(op(6)) - uint64(op(3))
				if int64(k) < 0 {
					k = 0
				}
				switch zzsim.Weighted("op", 9, 3, 4, 2, 3, 3, 3, 3, 2, 2, 2, 1) {
				case 0:
					x := next - uint64(op(5)/4)
					if int64(x) < 0 {
						x = 0
					}
					v := w.val()
					o := h.Call(c, "append", fmt.Sprintf("%d=%x", x, v[:8]))
					if err := rt.Append(x, v); err == nil {
						next = x + 1
						h.Return(o, "ok")
					} else {
						h.Return(o, "refused")
					}
				case 1:
					o := h.Call(c, "expecting", "")
					h.Return(o, strconv.FormatUint(rt.Expecting(), 10))
				case 2:
					get(c, k)
				case 3:
					o := num(c, "has", k)
					h.Return(o, strconv.FormatBool(rt.Has(k)))
				case 4:
					hash(c, "hash", rt.HashValue)
				case 5:
					if opChance(1, 2) {
						hash(c, "prehash", rt.PreHashValue)
					} else {
						hash(c, "prehash", rt.PreCommit)
					}
				case 6:
					if opChance(1, 2) {
						hash(c, "commithash", rt.CommitAndHash)
					} else {
						o := h.Call(c, "commit", "")
						if err := rt.Commit(); err != nil {
							fail("commit-error", "Commit: %v", err)
						}
						h.Return(o, "")
					}
				case 7:
					o := h.Call(c, "rollback", "")
					rt.Rollback()
					h.Return(o, "")
					next = rt.Expecting()
				case 8:
					if opChance(1, 2) {
						rt.PreCollapseBefore(k &^ 0xf)
					} else {
						rt.CollapseBefore(k &^ 0xf)
					}
					ev("collapse")
				case 9:
					o := h.Call(c, "hash", "")
					x, err := rt.Rebase(db.Temporary(db.ReadOnly(w.d)))
					if err != nil {
						fail("rebase-error", "Rebase: %v", err)
					}
					rh, err := x.HashValue()
					if err != nil {
						fail("hash-error", "%v", err)
					}
					x.Append(x.Expecting(), w.val())
					h.Return(o, fmt.Sprintf("%x", rh))
				case 10:
					o := num(c, "proof", k)
					v, p, ok := rt.GetProof(k)
					out := "-"
					if ok {
						rh, err := p.Proof(common.BytesToHash(v))
						if err != nil {
							fail("proof-error", "%v", err)
						}
						out = fmt.Sprintf("%x %x", v[:8], rh)
					}
					h.Return(o, out)
				case 11:
					_ = rt.String()
				}
			}
		}))
	}
	zzsim.Join(ts...)
	for k := uint64(start); k < uint64(start)+8; k++ {
		get(99, k)
	}
	hash(99, "hash", rt.HashValue)
	hash(99, "prehash", rt.PreHashValue)
	if overlapping(h) {
		r.Nontrivial()
	}
	roots := map[string]string{}
	rootOf := func(ids string) string {
		if x, ok := roots[ids]; ok {
			return x
		}
		m := pre.clone()
		for _, id := range strings.Split(ids, ",") {
			if id != "" {
				v := bytes.Repeat([]byte{0x5a}, 32)
				copy(v, unhex(id))
				m.add(v)
			}
		}
		x := fmt.Sprintf("%x", m.root())
		roots[ids] = x
		return x
	}
	list := func(ids string) []string {
		if ids == "" {
			return nil
		}
		return strings.Split(strings.TrimSuffix(ids, ","), ",")
	}
	checkLin("not-linearizable", h, "|", func(state string, o *HOp) []string {
		sp := strings.SplitN(state, "|", 2)
		org, live := sp[0], sp[1] // live "" = none, "L..." = pending
		cur := org
		if live != "" {
			cur = live[1:]
		}
		ids := list(org)
		cnt := uint64(start + len(ids))
		at := func(k uint64) string {
			if k >= cnt {
				return "-"
			}
			if k < uint64(start) {
				return fmt.Sprintf("%x", pre.vals[k][:8])
			}
			return ids[k-uint64(start)]
		}
		is := func(want string) []string {
			if o.Ret > 0 && o.Out != want {
				return nil
			}
			return []string{state}
		}
		k, _ := strconv.ParseUint(o.In, 10, 64)
		switch o.Name {
		case "append":
			i := strings.IndexByte(o.In, '=')
			k, _ := strconv.ParseUint(o.In[:i], 10, 64)
			if k != uint64(start+len(list(cur))) {
				return is("refused")
			}
			if o.Out != "ok" {
				return nil
			}
			return []string{org + "|L" + cur + o.In[i+1:] + ","}
		case "expecting":
			return is(strconv.FormatUint(cnt, 10))
		case "get":
			return is(at(k))
		case "has":
			return is(strconv.FormatBool(k < cnt))
		case "hash":
			return is(rootOf(org))
		case "prehash":
			return is(rootOf(cur))
		case "commit", "commithash":
			state = cur + "|"
			if o.Name == "commithash" {
				return is(rootOf(cur))
			}
			return []string{state}
		case "rollback":
			return []string{org + "|"}
		case "proof":
			if k >= cnt {
				return is("-")
			}
			return is(at(k) + " " + rootOf(org))
		}
		panic(o.Name)
	})
}

// runP15m: a light RevertableHistoryTree learns proved values.
func runP15m(r *R) {
	sw := &hw{m: newMedia()}
	sw.d = &MediaDB{sw.m}
	st, err := sw.open("s", nil, true)
	if err != nil {
		fail("open-error", "%v", err)
	}
	sm := &hmod{}
	for c := []int{2, 3, 15, 17, 40, 257}[n("cfg", 6)]; c > 0; c-- {
		v := sw.val()
		st.Append(sm.n(), cp(v))
		sm.add(v)
	}
	w := &hw{m: newMedia(), seq: 1 << 40}
	w.d = &MediaDB{w.m}
	errs := []int{0, 0, 50, 300}
	w.m.loadErr, w.m.saveErr = errs[n("cfg", 4)], errs[n("cfg", 4)]
	w.m.ambiguous = zzsim.Chance("cfg", 1, 2)
	last := sm.n() - 1
	v, c, ok := st.GetProof(last)
	if !ok {
		fail("proof", "the server has no proof of key %d", last)
	}
	t, err := trie.RestoreTreeFromProofs(w.d, []byte("c"), last, cp(v), c)
	if err != nil {
		fail("restore-error", "%v", err)
	}
	rt := &trie.RevertableHistoryTree{Origin: t}
	om, lm := sm.clone(), (*hmod)(nil)
	okn, lkn := map[uint64]bool{last: true}, map[uint64]bool(nil)
	live := func() *hmod {
		if lm == nil {
			lm, lkn = om.clone(), map[uint64]bool{}
			for _, k := range sortedNums(okn) {
				lkn[k] = true
			}
		}
		return lm
	}
	judge := func(k uint64, v []byte, ok, faulty bool) {
		if ok && !eq(v, om.get(k)) {
			fail("committed-content", "Get(%d) = %x, the value is %x (%d committed keys)", k, v, om.get(k), om.n())
		}
		if !ok && okn[k] && !faulty {
			fail("committed-content", "Get(%d) found nothing, the key was proved or appended and committed", k)
		}
	}
	merged := 0
	for i := 0; more(19, 20) && i < 40; i++ {
		w.m.inject = opChance(1, 2)
		f0 := w.m.fired
		faulty := func() bool { return w.m.fired > f0 }
		switch zzsim.Weighted("op", 8, 4, 8, 4, 3, 3, 2) {
		case 0:
			if len(sm.vals) == 0 || lm != nil && lm.n() != sm.n() || lm == nil && om.n() != sm.n() {
				break // the proofs are for the old root
			}
			k := uint64(op(int(sm.n())))
			v, c, _ := st.GetProof(k)
			bad := opChance(1, 6)
			if bad {
				v = w.val()
			}
			err := rt.MergeProof(k, cp(v), c)
			ev("merge %d -> %v", k, err)
			live()
			if err == nil && bad {
				fail("merge-false", "MergeProof(%d) accepted a wrong value", k)
			}
			if err != nil && !bad && !faulty() {
				fail("merge-error", "MergeProof(%d): %v", k, err)
			}
			if err == nil {
				merged++
				lkn[k] = true
			}
		case 1:
			m := live()
			if m.n() > om.n()+20 {
				break
			}
			v := w.val()
			err := rt.Append(m.n(), cp(v))
			ev("append %d -> %v", m.n(), err)
			if err == nil {
				lkn[m.n()] = true
				m.add(v)
			} else if !faulty() {
				fail("append-error", "Append(%d): %v", m.n(), err)
			}
		case 2:
			k := uint64(op(int(om.n()) + 2))
			v, ok := rt.Get(k)
			judge(k, v, ok, faulty())
		case 3:
			x, err := rt.HashValue()
			if err != nil || !eq(x, om.root()) {
				fail("hash", "HashValue = %x, %v; the committed root is %x", x, err, om.root())
			}
			cur := om
			if lm != nil {
				cur = lm
			}
			x, err = rt.PreHashValue()
			if err != nil || !eq(x, cur.root()) {
				fail("prehash", "PreHashValue = %x, %v; the live root is %x", x, err, cur.root())
			}
			if e := rt.Expecting(); e != om.n() {
				fail("expecting", "Expecting = %d with %d committed keys", e, om.n())
			}
		case 4:
			for {
				f0 = w.m.fired
				x, err := rt.CommitAndHash()
				ev("commit -> %v", err)
				if err != nil {
					if !faulty() {
						fail("commit-error", "%v", err)
					}
					w.m.inject = opChance(1, 2)
					continue
				}
				if lm != nil {
					om, okn, lm, lkn = lm, lkn, nil, nil
				}
				if !eq(x, om.root()) {
					fail("commit-root", "CommitAndHash = %x; want %x", x, om.root())
				}
				break
			}
		case 5:
			rt.Rollback()
			ev("rollback")
			lm, lkn = nil, nil
		case 6:
			k := uint64(op(int(om.n())))
			v, p, ok := rt.GetProof(k)
			if ok {
				x, err := p.Proof(common.BytesToHash(v))
				if err != nil || !eq(v, om.get(k)) || !eq(x, om.root()) {
					fail("proof", "GetProof(%d): value %x, root %x, %v; value %x, root %x", k, v, x, err, om.get(k), om.root())
				}
				checkHistoryProof(k, v, p, x)
			} else if okn[k] && !faulty() {
				fail("proof", "no proof of key %d, which was proved or appended and committed", k)
			}
		}
	}
	if merged > 0 {
		r.Nontrivial()
	}
	w.m.inject = false
	for _, k := range sortedNums(okn) {
		v, ok := rt.Get(k)
		judge(k, v, ok, false)
	}
	root, err := rt.CommitAndHash()
	if err != nil {
		fail("commit-error", "%v", err)
	}
	if lm != nil {
		om, okn = lm, lkn
	}
	if !eq(root, om.root()) {
		fail("commit-root", "CommitAndHash = %x; want %x", root, om.root())
	}
	t, err = w.open("c", root, false)
	if err != nil {
		fail("reopen-error", "%v", err)
	}
	rt = &trie.RevertableHistoryTree{Origin: t}
	for _, k := range sortedNums(okn) {
		v, ok := rt.Get(k)
		judge(k, v, ok, false)
	}
}

func sortedNums(m map[uint64]bool) []uint64 {
	x := map[string]bool{}
	for k := range m {
		x[fmt.Sprintf("%020d", k)] = true
	}
	var r []uint64
	for _, s := range sortedKeys(x) {
		k, _ := strconv.ParseUint(s, 10, 64)
		r = append(r, k)
	}
	return r
}
