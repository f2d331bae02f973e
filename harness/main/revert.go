//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/ThinkiumGroup/go-common/zzsim"
)

func init() {
	register(&Prop{ID: "P08", Run: runP08, Quick: 60000, QuickS: 18,
		Rule: "Non-trivial: a rollback, commit or revert happened while live changes were pending.",
		Real: "trie.RevertableTrie, trie.Trie and nodes", Stub: "the key-value store below the data adapters"})
	register(&Prop{ID: "P09", Run: runP09, Quick: 30000, QuickS: 18,
		Rule: "Non-trivial: operations of two clients overlapped.",
		Real: "trie.RevertableTrie, trie.Trie and nodes", Stub: "the key-value store; goroutine scheduling, sync primitives"})
	register(&Prop{ID: "P10", Run: runP10, Quick: 40000, QuickS: 18,
		Rule: "Non-trivial: a fault fired or the process was killed while changes were pending.",
		Real: "trie.RevertableTrie, trie.Trie and nodes", Stub: "the key-value store below the data adapters, with injected errors and crashes"})
}

// rootCache computes the canonical root of a content on a store of its own.
type rootCache struct {
	w    *tworld
	vals map[string]interface{}
	m    map[string]string
}

func newRootCache(w *tworld) *rootCache {
	return &rootCache{w: w, vals: map[string]interface{}{}, m: map[string]string{}}
}

// val draws a value and remembers it.
func (c *rootCache) val(k []byte) (interface{}, string) {
	v, s := c.w.newVal(k)
	c.vals[string(k)+"\x00"+s] = v
	return v, s
}

func (c *rootCache) of(m model) string {
	key := kvState(m)
	if r, ok := c.m[key]; ok {
		return r
	}
	med := newMedia()
	t := c.w.openOn(nil, &Adapter{med, "n"}, &Adapter{med, "v"})
	for _, k := range sortedKeys(m) {
		t.Put([]byte(k), c.vals[k+"\x00"+m[k]])
	}
	h, err := t.HashValue()
	if err != nil {
		fail("hash-error", "HashValue: %v", err)
	}
	c.m[key] = string(h)
	return string(h)
}

type rchk struct {
	root []byte
	m    model
}

type rhandle struct {
	t    *trie.RevertableTrie
	om   model // committed content
	lm   model // live content, nil without pending changes
	chk  []rchk
	name string
	d    db.Database
}

func (h *rhandle) cur() model {
	if h.lm != nil {
		return h.lm
	}
	return h.om
}

// liveGet adapts GetLive to getter.
type liveGet struct{ t *trie.RevertableTrie }

func (l liveGet) Get(k []byte) (interface{}, bool) { return l.t.GetLive(k) }

func (h *rhandle) check(w *tworld, keys [][]byte) {
	w.checkAll("committed-content", h.name+" committed view", h.t, keys, h.om)
	w.checkAll("live-content", h.name+" live view", liveGet{h.t}, keys, h.cur())
}

func runP08(r *R) {
	w := newTWorld()
	rc := newRootCache(w)
	keys := trieKeys()
	base := &MediaDB{w.m}
	w.na = db.NewKeyPrefixedDataAdapter(base, []byte("n"))
	w.va = db.NewKeyPrefixedDataAdapter(base, []byte("v"))
	t := w.open(nil)
	m := model{}
	for i := op(5); i > 0; i-- {
		k := keys[op(len(keys))]
		v, s := rc.val(k)
		t.Put(k, v)
		m[string(k)] = s
	}
	if opChance(1, 2) {
		mustRoot(t)
	}
	hs := []*rhandle{{t: &trie.RevertableTrie{Origin: t}, om: m, name: "r0", d: base}}
	var durable []rchk
	pendingUse := false
	for i := 0; more(39, 40) && i < 120; i++ {
		h := hs[op(len(hs))]
		k := keys[op(len(keys))]
		want, had := h.cur()[string(k)]
		switch zzsim.Weighted("op", 20, 10, 8, 8, 5, 5, 4, 8, 6, 3, 2, 1, 1, 2, 3, 3) {
		case 0:
			v, s := rc.val(k)
			var ok bool
			if tv, is := v.(*TV); is && opChance(1, 4) {
				ok = h.t.PutValue(tv)
			} else {
				ok = h.t.Put(cp(k), v)
			}
			ev("%s put %x %s", h.name, k, s)
			if !ok {
				fail("put-refused", "%s: Put(%x) reported no change", h.name, k)
			}
			nm := h.cur().clone()
			nm[string(k)] = s
			h.lm = nm
		case 1:
			ch, old := h.t.Delete(cp(k))
			ev("%s delete %x -> %t", h.name, k, ch)
			if ch != had || (had && w.vstr(old) != want) {
				fail("delete-result", "%s: Delete(%x) returned (%t, %s), the live key held (%s, %t)", h.name, k, ch, w.vstr(old), want, had)
			}
			nm := h.cur().clone()
			delete(nm, string(k))
			h.lm = nm
		case 2:
			v, ok := h.t.GetLive(k)
			if ok != had || (ok && w.vstr(v) != want) {
				fail("live-content", "%s: GetLive(%x) = (%s, %t), want (%s, %t)", h.name, k, w.vstr(v), ok, want, had)
			}
			v, ok = h.t.Get(k)
			want, had = h.om[string(k)]
			if ok != had || (ok && w.vstr(v) != want) {
				fail("committed-content", "%s: Get(%x) = (%s, %t), want (%s, %t)", h.name, k, w.vstr(v), ok, want, had)
			}
		case 3: // commit
			pendingUse = pendingUse || h.lm != nil
			h.om, h.lm, h.chk = h.cur(), nil, nil
			if opChance(1, 2) {
				root := mustRoot(h.t)
				if string(root) != rc.of(h.om) {
					fail("commit-root", "%s: CommitAndHash returned %x, the root of the content is %x", h.name, root, rc.of(h.om))
				}
				durable = append(durable, rchk{root, h.om})
			} else if err := h.t.Commit(); err != nil {
				fail("commit-error", "Commit: %v", err)
			}
			ev("%s commit", h.name)
		case 4:
			ev("%s rollback", h.name)
			pendingUse = pendingUse || h.lm != nil
			h.t.Rollback()
			h.lm, h.chk = nil, nil
		case 5: // hashes
			x, err := h.t.HashValue()
			if err != nil || string(x) != rc.of(h.om) {
				fail("hash", "%s: HashValue = %x, %v; the committed content has root %x", h.name, x, err, rc.of(h.om))
			}
			x, err = h.t.PreHashValue()
			if err != nil || string(x) != rc.of(h.cur()) {
				fail("prehash", "%s: PreHashValue = %x, %v; the live content has root %x", h.name, x, err, rc.of(h.cur()))
			}
		case 6:
			x, err := h.t.PreCommit()
			ev("%s precommit", h.name)
			if err != nil || string(x) != rc.of(h.cur()) {
				fail("precommit", "%s: PreCommit = %x, %v; the live content has root %x", h.name, x, err, rc.of(h.cur()))
			}
			if h.lm != nil {
				durable = append(durable, rchk{cp(x), h.cur()})
			}
		case 7:
			idx, root, err := h.t.CheckPoint()
			ev("%s checkpoint -> %d", h.name, idx)
			if err != nil {
				fail("checkpoint-error", "CheckPoint: %v", err)
			}
			if idx != len(h.chk) || string(root) != rc.of(h.cur()) {
				fail("checkpoint", "%s: CheckPoint = (%d, %x), expected index %d and root %x", h.name, idx, root, len(h.chk), rc.of(h.cur()))
			}
			h.chk = append(h.chk, rchk{cp(root), h.cur()})
			if h.lm != nil {
				durable = append(durable, rchk{cp(root), h.cur()})
			}
		case 8:
			if len(h.chk) == 0 {
				if err := h.t.RevertTo(op(2), common32(7)); err == nil {
					fail("revert-unknown", "%s: RevertTo without checkpoints succeeded", h.name)
				}
				break
			}
			i := op(len(h.chk))
			if opChance(1, 5) { // wrong index or root
				bad := common32(9)
				if err := h.t.RevertTo(i, bad); err == nil {
					fail("revert-unknown", "%s: RevertTo(%d) with a foreign root succeeded", h.name, i)
				}
				if err := h.t.RevertTo(len(h.chk)+op(2), h.chk[i].root); err == nil {
					fail("revert-unknown", "%s: RevertTo beyond the last checkpoint succeeded", h.name)
				}
				if err := h.t.RevertTo(-1-op(2), h.chk[i].root); err == nil {
					fail("revert-unknown", "%s: RevertTo a negative checkpoint succeeded", h.name)
				}
				if err := h.t.RevertTo(i, nil); err == nil {
					fail("revert-unknown", "%s: RevertTo without a root succeeded", h.name)
				}
				break
			}
			c := h.chk[i]
			if err := h.t.RevertTo(i, cp(c.root)); err != nil {
				fail("revert-error", "%s: RevertTo(%d): %v", h.name, i, err)
			}
			ev("%s revert to %d", h.name, i)
			pendingUse = true
			h.chk = h.chk[:i]
			if h.lm != nil || kvState(c.m) != kvState(h.om) {
				h.lm = c.m
			}
			// whether unchanged content still counts as pending is the library's choice
			w.checkAll("revert-content", fmt.Sprintf("%s reverted to checkpoint %d", h.name, i), liveGet{h.t}, keys, h.cur())
		case 9:
			if len(hs) < 4 {
				c := h.t.Copy()
				ev("%s copy", h.name)
				hs = append(hs, &rhandle{t: c, om: h.om, name: fmt.Sprintf("r%d", len(hs)), d: h.d})
			}
		case 10:
			if len(hs) < 4 {
				over := db.Temporary(db.ReadOnly(h.d))
				c, err := h.t.Rebase(over)
				if err != nil {
					fail("rebase-error", "Rebase: %v", err)
				}
				ev("%s rebase", h.name)
				hs = append(hs, &rhandle{t: c, om: h.om, name: fmt.Sprintf("r%d(rebased)", len(hs)), d: over})
			}
		case 11: // another committed state
			if len(durable) > 0 && h.d == db.Database(base) {
				d := durable[op(len(durable))]
				ev("%s set to an older root", h.name)
				if _, ok := w.m.img["n"+string(d.root)]; !ok && len(d.m) > 0 {
					break // a root that lives on an overlay only
				}
				if err := h.t.SetTo(w.open(d.root)); err != nil {
					fail("setto-error", "SetTo: %v", err)
				}
				h.om, h.lm, h.chk = d.m, nil, nil
			}
		case 12:
			x, err := h.t.LiveTrie()
			if err != nil {
				fail("livetrie-error", "LiveTrie: %v", err)
			}
			h.lm = h.cur().clone()
			if opChance(1, 2) {
				v, s := rc.val(k)
				x.Put(k, v)
				h.lm[string(k)] = s
			}
			ev("%s livetrie", h.name)
		case 13:
			d := h.t.IsDirty()
			if !d && h.lm != nil && kvState(h.lm) != kvState(h.om) {
				fail("dirty", "%s: IsDirty is false with pending changes", h.name)
			}
			if d && h.lm == nil {
				fail("dirty", "%s: IsDirty is true without pending changes", h.name)
			}
			h.check(w, keys)
		case 14:
			g := w.drain(h.t.ValueIterator())
			if !samePairs(g, wantPairs(h.om, false)) {
				fail("iterator", "%s: the iterator delivers %s, committed content %s", h.name, fmtPairs(g), h.om)
			}
			g = w.drain(h.t.LiveValueIterator())
			if !samePairs(g, wantPairs(h.cur(), false)) {
				fail("live-iterator", "%s: the live iterator delivers %s, live content %s", h.name, fmtPairs(g), h.cur())
			}
		case 15:
			ex := opChance(1, 2)
			if got, want := w.proofOut(h.t, k, ex), proofWant(rc, h.om, string(k), ex); got != want {
				fail("proof", "%s: the proof of %x gives %s, the committed content %s", h.name, k, got, want)
			}
		}
	}
	if pendingUse {
		r.Nontrivial()
	}
	for _, h := range hs {
		h.check(w, keys)
	}
	for _, d := range durable {
		if _, ok := w.m.img["n"+string(d.root)]; ok {
			w.checkAll("durable-root", "persisted root "+hx(d.root), w.open(d.root), keys, d.m)
		}
	}
}

func common32(b byte) []byte { return bytes.Repeat([]byte{b}, 32) }

// ---------------------------------------------------------------- P09

// rstate is the sequential model: committed | live or "-" | checkpoints.
type rstate struct {
	o, l string
	live bool
	chk  []string
}

func (s rstate) String() string {
	l := "-"
	if s.live {
		l = "L" + s.l
	}
	return s.o + "\n" + l + "\n" + strings.Join(s.chk, "\t")
}

func parseRstate(x string) rstate {
	p := strings.SplitN(x, "\n", 3)
	s := rstate{o: p[0]}
	if p[1] != "-" {
		s.live, s.l = true, p[1][1:]
	}
	if p[2] != "" {
		s.chk = strings.Split(p[2], "\t")
	}
	return s
}

func (s rstate) cur() string {
	if s.live {
		return s.l
	}
	return s.o
}

func rstep(rc *rootCache) func(string, *HOp) []string {
	return func(state string, o *HOp) []string {
		s := parseRstate(state)
		s.chk = append([]string{}, s.chk...)
		one := func() []string { return []string{s.String()} }
		is := func(want string) []string {
			if o.Ret > 0 && o.Out != want {
				return nil
			}
			return one()
		}
		hash := func(kv string) string { return rc.of(stateKV(kv)) }
		sub := func(kv, name string) []string {
			return kvStep(kv, &HOp{Name: name, In: o.In, Out: o.Out, Ret: o.Ret})
		}
		switch o.Name {
		case "get", "iter":
			if sub(s.o, o.Name) == nil {
				return nil
			}
			return one()
		case "proof", "exist":
			return is(proofWant(rc, stateKV(s.o), unhex(o.In), o.Name == "exist"))
		case "getlive":
			if sub(s.cur(), "get") == nil {
				return nil
			}
			return one()
		case "liveiter":
			if sub(s.cur(), "iter") == nil {
				return nil
			}
			return one()
		case "put", "del":
			ns := sub(s.cur(), o.Name)
			if ns == nil {
				return nil
			}
			s.live, s.l = true, ns[0]
			return one()
		case "commit", "commithash":
			s.o, s.l, s.live, s.chk = s.cur(), "", false, nil
			if o.Name == "commithash" {
				return is(hash(s.o))
			}
			return one()
		case "rollback":
			s.l, s.live, s.chk = "", false, nil
			return one()
		case "hash":
			return is(hash(s.o))
		case "prehash":
			return is(hash(s.cur()))
		case "checkpoint":
			r := is(fmt.Sprintf("%d %x", len(s.chk), hash(s.cur())))
			if r == nil {
				return nil
			}
			s.chk = append(s.chk, "K"+s.cur())
			return one()
		case "revert":
			var i int
			var root string
			fmt.Sscanf(o.In, "%d %s", &i, &root)
			if i >= len(s.chk) || fmt.Sprintf("%x", hash(s.chk[i][1:])) != root {
				return is("refused")
			}
			s.live, s.l = true, s.chk[i][1:]
			s.chk = s.chk[:i]
			if is("ok") == nil {
				return nil
			}
			r := []string{s.String()}
			if s.l == s.o { // unchanged content may or may not count as pending
				s.l, s.live = "", false
				r = append(r, s.String())
			}
			return r
		case "copy":
			if sub(s.o, "iter") == nil {
				return nil
			}
			return one()
		case "dirty":
			return is(strconv.FormatBool(s.live))
		}
		panic("rstep " + o.Name)
	}
}

func runP09(r *R) {
	w := newTWorld()
	w.big = false
	rc := newRootCache(w)
	w.na = db.NewKeyPrefixedDataAdapter(&MediaDB{w.m}, []byte("n"))
	w.va = db.NewKeyPrefixedDataAdapter(&MediaDB{w.m}, []byte("v"))
	keys := genKeys(1+op(4), 0, 1+op(2))
	t := w.open(nil)
	m := model{}
	for i := op(4); i > 0; i-- {
		k := keys[op(len(keys))]
		v, s := rc.val(k)
		t.Put(k, v)
		m[string(k)] = s
	}
	if opChance(1, 2) {
		mustRoot(t)
	}
	rt := &trie.RevertableTrie{Origin: t}
	h := &History{}
	type ck struct {
		i    int
		root []byte
	}
	var cks []ck
	get := func(c int, name string, k []byte, f func([]byte) (interface{}, bool)) {
		o := h.Call(c, name, keyIn(k))
		v, ok := f(k)
		out := "-"
		if ok {
			out = w.vstr(v)
		}
		h.Return(o, out)
	}
	hash := func(c int, name string, f func() ([]byte, error)) {
		o := h.Call(c, name, "")
		x, err := f()
		if err != nil {
			fail("hash-error", "%s: %v", name, err)
		}
		h.Return(o, string(x))
	}
	nops := 0
	var ts []*zzsim.Task
	for c := 0; c < 2+op(2); c++ {
		c := c
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("client%d", c), 1, func() {
			for i := 0; more(5, 6) && i < 6 && nops < 14; i++ {
				nops++
				k := keys[op(len(keys))]
				switch zzsim.Weighted("op", 7, 4, 4, 5, 3, 2, 2, 2, 4, 4, 2, 2, 2, 1, 2) {
				case 0:
					v, s := rc.val(k)
					o := h.Call(c, "put", putIn(k, s))
					if tv, is := v.(*TV); is && opChance(1, 3) {
						h.Return(o, fmt.Sprint(rt.PutValue(tv)))
					} else {
						h.Return(o, fmt.Sprint(rt.Put(k, v)))
					}
				case 1:
					o := h.Call(c, "del", keyIn(k))
					ch, old := rt.Delete(k)
					out := "-"
					if ch {
						out = w.vstr(old)
					}
					h.Return(o, out)
				case 2:
					get(c, "get", k, rt.Get)
				case 3:
					get(c, "getlive", k, rt.GetLive)
				case 4:
					if opChance(1, 2) {
						hash(c, "commithash", rt.CommitAndHash)
					} else {
						o := h.Call(c, "commit", "")
						if err := rt.Commit(); err != nil {
							fail("commit-error", "Commit: %v", err)
						}
						h.Return(o, "")
					}
				case 5:
					o := h.Call(c, "rollback", "")
					rt.Rollback()
					h.Return(o, "")
				case 6:
					hash(c, "hash", rt.HashValue)
				case 7:
					if opChance(1, 2) {
						hash(c, "prehash", rt.PreHashValue)
					} else {
						hash(c, "prehash", rt.PreCommit)
					}
				case 8:
					o := h.Call(c, "checkpoint", "")
					i, root, err := rt.CheckPoint()
					if err != nil {
						fail("checkpoint-error", "CheckPoint: %v", err)
					}
					cks = append(cks, ck{i, cp(root)})
					h.Return(o, fmt.Sprintf("%d %x", i, root))
				case 9:
					if len(cks) == 0 {
						break
					}
					x := cks[len(cks)-1-op(len(cks))]
					o := h.Call(c, "revert", fmt.Sprintf("%d %x", x.i, x.root))
					if err := rt.RevertTo(x.i, cp(x.root)); err != nil {
						h.Return(o, "refused")
					} else {
						h.Return(o, "ok")
					}
				case 10:
					o := h.Call(c, "iter", "")
					h.Return(o, fmtPairs(w.drain(rt.ValueIterator())))
				case 11:
					o := h.Call(c, "liveiter", "")
					h.Return(o, fmtPairs(w.drain(rt.LiveValueIterator())))
				case 12:
					o := h.Call(c, "copy", "")
					x := rt.Copy()
					if opChance(1, 3) {
						var err error
						if x, err = rt.Rebase(db.Temporary(db.ReadOnly(&MediaDB{w.m}))); err != nil {
							fail("rebase-error", "Rebase: %v", err)
						}
					}
					h.Return(o, fmtPairs(w.drain(x.ValueIterator())))
				case 13:
					o := h.Call(c, "dirty", "")
					h.Return(o, strconv.FormatBool(rt.IsDirty()))
				case 14:
					name := []string{"proof", "exist"}[op(2)]
					o := h.Call(c, name, keyIn(k))
					h.Return(o, w.proofOut(rt, k, name == "exist"))
				}
			}
		}))
	}
	zzsim.Join(ts...)
	for _, k := range keys {
		get(99, "get", k, rt.Get)
		get(99, "getlive", k, rt.GetLive)
	}
	if overlapping(h) {
		r.Nontrivial()
	}
	checkLin("not-linearizable", h, rstate{o: kvState(m)}.String(), rstep(rc))
}

// ---------------------------------------------------------------- P10

func runP10(r *R) {
	w := newTWorld()
	w.big = false
	rc := newRootCache(w)
	base := &MediaDB{w.m}
	w.na = db.NewKeyPrefixedDataAdapter(base, []byte("n"))
	w.va = db.NewKeyPrefixedDataAdapter(base, []byte("v"))
	keys := trieKeys()
	errs := []int{0, 30, 150, 400}
	w.m.loadErr, w.m.saveErr = errs[n("cfg", 4)], errs[n("cfg", 4)]
	w.m.ambiguous = zzsim.Chance("cfg", 1, 2)
	var acks []rchk // every root whose persistence was acknowledged
	last := rchk{nil, model{}}
	for round := 0; round < 3; round++ {
		g := round + 1
		w.m.crashAt = 0
		if zzsim.Chance("fault", 2, 3) {
			w.m.crashAt = w.m.writes + 1 + n("fault", 4<<uint(n("fault", 4)))
		}
		w.m.onCrash = func() {
			r.Nontrivial()
			zzsim.KillGroup(g)
		}
		w.m.inject = false
		zzsim.Spawn("proc", g, func() {
			h := &rhandle{t: &trie.RevertableTrie{Origin: w.open(last.root)}, om: last.m, name: "r"}
			restart := func(why string) {
				ev("restart: %s", why)
				stat("fault.restart")
				h = &rhandle{t: &trie.RevertableTrie{Origin: w.open(last.root)}, om: last.m, name: "r"}
			}
			for i := 0; more(24, 25) && i < 40; i++ {
				w.m.inject = opChance(1, 2)
				f0 := w.m.fired
				faulty := func() bool {
					if w.m.fired > f0 {
						r.Nontrivial()
						return true
					}
					return false
				}
				k := keys[op(len(keys))]
				want, had := h.cur()[string(k)]
				switch zzsim.Weighted("op", 12, 6, 6, 5, 4, 4, 4, 4, 2, 2) {
				case 0:
					v, s := rc.val(k)
					ok := h.t.Put(k, v)
					ev("put %x %s -> %t", k, s, ok)
					if ok {
						nm := h.cur().clone()
						nm[string(k)] = s
						h.lm = nm
					} else if !faulty() {
						fail("put-refused", "Put(%x) reported no change and nothing failed", k)
					} else if h.lm == nil {
						h.lm = h.om
					}
				case 1:
					var ch bool
					var old interface{}
					if p := try(func() { ch, old = h.t.Delete(k) }); p != nil {
						if _, is := p.(error); is && faulty() {
							stat("probe.delete_failstop")
							restart("delete fail-stop")
							continue
						}
						panic(p)
					}
					ev("delete %x -> %t", k, ch)
					if ch {
						if !had || w.vstr(old) != want {
							fail("delete-result", "Delete(%x) returned (true, %s), the live key held (%s, %t)", k, w.vstr(old), want, had)
						}
					} else if had && !faulty() {
						fail("delete-refused", "Delete(%x) reported no change and nothing failed", k)
					}
					nm := h.cur().clone()
					if ch {
						delete(nm, string(k))
					}
					h.lm = nm
				case 2:
					v, ok := h.t.GetLive(k)
					if ok && (!had || w.vstr(v) != want) {
						fail("live-content", "GetLive(%x) = %s, want (%s, %t)", k, w.vstr(v), want, had)
					}
					if !ok && had && !faulty() {
						fail("live-content", "GetLive(%x) found nothing although no load failed, want %s", k, want)
					}
					f0 = w.m.fired
					want, had = h.om[string(k)]
					v, ok = h.t.Get(k)
					if ok && (!had || w.vstr(v) != want) {
						fail("committed-content", "Get(%x) = %s, want (%s, %t)", k, w.vstr(v), want, had)
					}
					if !ok && had && !faulty() {
						fail("committed-content", "Get(%x) found nothing although no load failed, want %s", k, want)
					}
				case 3: // commit, retried until it succeeds
					target := h.cur()
					for try := 0; ; try++ {
						f0 = w.m.fired
						if try > 3 {
							w.m.inject = false
						}
						var root []byte
						var err error
						if opChance(1, 2) {
							root, err = h.t.CommitAndHash()
						} else if err = h.t.Commit(); err == nil {
							inj := w.m.inject
							w.m.inject = false
							if root, err = h.t.HashValue(); err != nil {
								fail("commit-error", "HashValue after Commit: %v", err)
							}
							w.m.inject = inj
						}
						ev("commit -> %v", err)
						if err != nil {
							if !faulty() {
								fail("commit-error", "Commit failed without a fault: %v", err)
							}
							inj := w.m.inject
							w.m.inject = false
							w.checkAll("failed-commit-lost", "after a failed commit", liveGet{h.t}, keys, target)
							w.m.inject = inj
							continue
						}
						if string(root) != rc.of(target) {
							fail("commit-root", "CommitAndHash returned %x, the root of the content is %x", root, rc.of(target))
						}
						h.om, h.lm, h.chk = target, nil, nil
						last = rchk{cp(root), target}
						acks = append(acks, last)
						break
					}
				case 4:
					ev("rollback")
					h.t.Rollback()
					h.lm, h.chk = nil, nil
				case 5:
					root, err := h.t.PreCommit()
					ev("precommit -> %v", err)
					if err != nil {
						if !faulty() {
							fail("precommit-error", "PreCommit failed without a fault: %v", err)
						}
						break
					}
					if string(root) != rc.of(h.cur()) {
						fail("precommit", "PreCommit returned %x, the live content has root %x", root, rc.of(h.cur()))
					}
					if h.lm != nil {
						acks = append(acks, rchk{cp(root), h.cur()})
					}
				case 6:
					idx, root, err := h.t.CheckPoint()
					ev("checkpoint -> %d %v", idx, err)
					if err != nil {
						if !faulty() {
							fail("checkpoint-error", "CheckPoint failed without a fault: %v", err)
						}
						break
					}
					if idx != len(h.chk) || string(root) != rc.of(h.cur()) {
						fail("checkpoint", "CheckPoint = (%d, %x), expected index %d and root %x", idx, root, len(h.chk), rc.of(h.cur()))
					}
					h.chk = append(h.chk, rchk{cp(root), h.cur()})
					if h.lm != nil {
						acks = append(acks, rchk{cp(root), h.cur()})
					}
				case 7:
					if len(h.chk) == 0 {
						break
					}
					i := op(len(h.chk))
					c := h.chk[i]
					err := h.t.RevertTo(i, cp(c.root))
					ev("revert to %d -> %v", i, err)
					if err != nil {
						if !faulty() {
							fail("revert-error", "RevertTo(%d) failed without a fault: %v", i, err)
						}
						break
					}
					h.chk = h.chk[:i]
					if h.lm != nil || kvState(c.m) != kvState(h.om) {
						h.lm = c.m
					}
				case 8:
					x, err := h.t.Rebase(db.Temporary(db.ReadOnly(base)))
					ev("rebase -> %v", err)
					if err != nil {
						if !faulty() {
							fail("rebase-error", "Rebase failed without a fault: %v", err)
						}
						break
					}
					w.m.inject = false
					w.checkAll("rebase-content", "the rebased trie", x, keys, h.om)
				case 9:
					x := h.t.Copy()
					ev("copy")
					if x == nil || x.Origin == nil {
						if !faulty() {
							fail("copy-nil", "Copy returned nothing")
						}
						break
					}
					w.m.inject = false
					w.checkAll("copy-content", "the copy", x, keys, h.om)
				}
			}
			w.m.inject = false
			h.check(w, keys)
		})
		zzsim.JoinGroup(g)
		w.m.inject = false
		w.m.crashAt = 0
		for _, a := range acks {
			w.checkAll("acked-lost", "after the restart, persisted root "+hx(a.root), w.open(a.root), keys, a.m)
		}
	}
}
