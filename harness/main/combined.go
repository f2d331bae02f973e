//go:build go1.22

package main

import (
	"fmt"
	"strings"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/ThinkiumGroup/go-common/zzsim"
	"github.com/stephenfire/go-rtl"
)

// ---------------------------------------------------------------- P16 combined trie

func init() {
	register(&Prop{ID: "P16", Run: runP16, Quick: 30000, QuickS: 18,
		Rule: "Non-trivial: a combined trie with at least two sub-tries was reopened from its root, or at least two clients overlapped on it.",
		Real: "trie.SmallCombinedTrie, trie.Trie and nodes, go-rtl codec, common Merkle hashing", Stub: "the key-value stores below the adapters (durable image, crash at any write, load and save errors); goroutine scheduling, sync primitives"})
}

type csub struct {
	t *trie.Trie
	m model
}

type cmodel map[string]*csub

// csnap is the durable content of a combined trie: key -> content of the sub-trie.
type csnap map[string]model

func (m cmodel) snap() csnap {
	r := csnap{}
	for k, s := range m {
		r[k] = s.m.clone()
	}
	return r
}

func (s csnap) String() string {
	var b strings.Builder
	for _, k := range sortedKeys(s) {
		fmt.Fprintf(&b, "%x{%s} ", k, s[k])
	}
	return b.String()
}

// refCombined is the reference root: the binary Merkle root of the sub-trie
// hashes in key order, padded with the nil hash to a power of two (at least 2).
func refCombined(hs [][]byte) []byte {
	if len(hs) == 0 {
		return common.NilHashSlice
	}
	width := 2
	for width < len(hs) {
		width *= 2
	}
	l := append([][]byte{}, hs...)
	for len(l) < width {
		l = append(l, common.NilHashSlice)
	}
	for len(l) > 1 {
		var u [][]byte
		for i := 0; i < len(l); i += 2 {
			u = append(u, hashPair(l[i], l[i+1]))
		}
		l = u
	}
	return l[0]
}

func hashPair(a, b []byte) []byte {
	h, err := hpair(a, b), error(nil)
	if err != nil {
		fail("reference", "hash: %v", err)
	}
	return h
}

func cclip(root []byte) string { return hx(root) }

func (w *tworld) openCombined(root []byte) (*trie.SmallCombinedTrie, error) {
	c := trie.NewCombinedTrie(&Adapter{w.m, "c"})
	return c, w.initCombined(c, root)
}

func (w *tworld) initCombined(c *trie.SmallCombinedTrie, root []byte) error {
	if w.raw {
		return c.InitTrie(root, w.na, w.va, rawEnc, rawDec, rawHash)
	}
	codec, err := rtl.NewStructCodec(tvType)
	if err != nil {
		fail("codec", "%v", err)
	}
	return c.InitTrie(root, w.na, w.va, codec.Encode, codec.Decode, nil)
}

// combinedContent reads everything through the public interface.
func (w *tworld) combinedContent(c *trie.SmallCombinedTrie) csnap {
	r := csnap{}
	for _, k := range c.Keys() {
		v, ok := c.Get([]byte(k))
		t, is := v.(*trie.Trie)
		if !ok || !is || t == nil {
			fail("combined-key-without-trie", "key %x of Keys() reads (%T, %t)", k, v, ok)
		}
		m := model{}
		for _, p := range w.drain(t.ValueIterator()) {
			m[p.k] = p.v
		}
		r[k] = m
	}
	return r
}

func runP16(r *R) {
	switch n("cfg", 6) {
	case 0, 1:
		p16conc(r)
	case 2:
		p16commit(r)
	default:
		p16seq(r)
	}
}

// p16commit: clients change the sub-tries while others commit the combined
// trie. Every combined root that became durable must be complete: it opens,
// its sub-tries can be read completely, and their content has that root.
func p16commit(r *R) {
	w := newTWorld()
	w.big = false
	ckeys := genKeys(2+op(2), 1, 0)
	skeys := genKeys(2+op(2), 0, 1)
	c := trie.NewCombinedTrie(&Adapter{w.m, "c"})
	final := csnap{}
	for _, k := range ckeys {
		c.Put(k, w.open(nil))
		final[string(k)] = model{}
	}
	nops := 0
	var ts []*zzsim.Task
	for cl := 0; cl < len(ckeys)+1; cl++ {
		cl := cl
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("client%d", cl), 1, func() {
			for i := 0; more(5, 6) && i < 6 && nops < 18; i++ {
				nops++
				if cl == len(ckeys) || opChance(1, 4) {
					if err := c.Commit(); err != nil {
						fail("combined-commit", "%v", err)
					}
					ev("commit")
					continue
				}
				// one writer per sub-trie
				v, ok := c.Get(ckeys[cl])
				if !ok {
					fail("combined-get", "the sub-trie %x is gone", ckeys[cl])
				}
				t := v.(*trie.Trie)
				k := skeys[op(len(skeys))]
				if opChance(1, 4) {
					t.Delete(k)
					delete(final[string(ckeys[cl])], string(k))
					ev("sub %x delete %x", ckeys[cl], k)
				} else {
					x, s := w.newVal(k)
					t.Put(k, x)
					final[string(ckeys[cl])][string(k)] = s
					ev("sub %x put %x %s", ckeys[cl], k, s)
				}
			}
		}))
	}
	zzsim.Join(ts...)
	if nops > 3 {
		r.Nontrivial()
	}
	if err := c.Commit(); err != nil {
		fail("combined-commit", "%v", err)
	}
	root, err := c.HashValue()
	if err != nil {
		fail("combined-hash", "%v", err)
	}
	root = append([]byte{}, root...)
	for _, x := range sortedKeys(w.m.img) {
		if x[0] != 'c' {
			continue
		}
		c2, err := w.openCombined([]byte(x[1:]))
		if err != nil {
			fail("combined-init", "stored root %s: %v", hx([]byte(x[1:])), err)
		}
		var hs [][]byte
		content := csnap{}
		for _, k := range c2.Keys() {
			v, _ := c2.Get([]byte(k))
			m := model{}
			t := w.open(nil)
			it := v.(*trie.Trie).ValueIterator()
			for it.Next() {
				key, x := it.Current()
				t.Put(key, x)
				m[string(key)] = w.vstr(x)
			}
			h, err := t.HashValue()
			if err != nil {
				fail("combined-hash", "%v", err)
			}
			hs = append(hs, h)
			content[k] = m
		}
		if got := refCombined(hs); !eq(got, []byte(x[1:])) {
			fail("combined-root-incomplete", "the content stored under root %s has the root %s: %s", hx([]byte(x[1:])), hx(got), content)
		}
		if x[1:] == string(root) && content.String() != final.String() {
			fail("combined-content", "the last root holds %s, expected %s", content, final)
		}
	}
}

func p16seq(r *R) {
	w := newTWorld()
	w.big = false
	ckeys := genKeys(1+op(9), 2, 0)
	if opChance(1, 6) {
		ckeys = append(ckeys, []byte{})
	}
	skeys := genKeys(2+op(3), 0, 1)
	faulty := zzsim.Chance("cfg", 1, 2)
	type ack struct {
		root []byte
		s    csnap
	}
	var acks []ack
	cand := map[string][]csnap{} // what may be stored under a root: the last acknowledged and later attempts
	var subRoots []struct {
		root []byte
		m    model
	}
	reopen := func(root []byte, what string) (*trie.SmallCombinedTrie, csnap) {
		c := trie.NewCombinedTrie(&Adapter{w.m, "c"})
		if faulty {
			w.m.inject, w.m.loadErr, w.m.shortLoad, w.m.shortPre = true, 300, 300, "c"
			f0 := w.m.fired
			err := w.initCombined(c, root)
			w.m.inject, w.m.shortLoad = false, 0
			if err != nil {
				if w.m.fired == f0 {
					fail("combined-init", "%s: InitTrie failed: %v", what, err)
				}
				if len(c.Keys()) != 0 {
					fail("combined-init", "%s: a failed InitTrie left keys %x", what, c.Keys())
				}
				err = w.initCombined(c, root)
				if err != nil {
					fail("combined-init", "%s: retried InitTrie failed: %v", what, err)
				}
			}
		} else if err := w.initCombined(c, root); err != nil {
			fail("combined-init", "%s: InitTrie(%s) failed: %v", what, cclip(root), err)
		}
		got := w.combinedContent(c)
		for _, s := range cand[string(root)] {
			if s.String() == got.String() {
				h, err := c.HashValue()
				if err != nil || !eq(h, root) {
					fail("combined-root", "%s: reopened from %x the root is %x (%v)", what, root, h, err)
				}
				return c, s
			}
		}
		fail("combined-content", "%s: reopened from %s the content is\n  %s\n  committed content: %s", what, cclip(root), got, cand[string(root)])
		return nil, nil
	}
	adopt := func(c *trie.SmallCombinedTrie, s csnap) cmodel {
		m := cmodel{}
		for _, k := range sortedKeys(s) {
			sm := s[k]
			v, _ := c.Get([]byte(k))
			m[k] = &csub{v.(*trie.Trie), sm.clone()}
		}
		return m
	}
	for round := 0; round < 3; round++ {
		var c *trie.SmallCombinedTrie
		m := cmodel{}
		if len(acks) > 0 {
			a := acks[len(acks)-1]
			var s csnap
			c, s = reopen(a.root, "restart")
			m = adopt(c, s)
			if len(s) > 1 {
				r.Nontrivial()
			}
		} else {
			c = trie.NewCombinedTrie(&Adapter{w.m, "c"})
		}
		g := round + 1
		w.m.crashAt = 0
		if round < 2 && opChance(1, 2) {
			w.m.crashAt = w.m.writes + 1 + n("fault", 30)
		}
		w.m.onCrash = func() { zzsim.KillGroup(g) }
		zzsim.Spawn("proc", g, func() {
			for i := 0; more(29, 30) && i < 60; i++ {
				k := ckeys[op(len(ckeys))]
				switch zzsim.Weighted("op", 8, 10, 4, 5, 4, 4, 3, 2) {
				case 0:
					s := &csub{}
					switch x := op(4); {
					case x == 0 && len(subRoots) > 0:
						sr := subRoots[op(len(subRoots))]
						s.t, s.m = w.open(sr.root), sr.m.clone()
					case x == 1 && len(m) > 0: // the same trie under a second key
						ks := sortedKeys(m)
						s = m[ks[op(len(ks))]]
					default:
						s.t, s.m = w.open(nil), model{}
					}
					ev("put sub %x %s", k, s.m)
					if !c.Put(append([]byte{}, k...), s.t) {
						fail("combined-put", "Put(%x) refused", k)
					}
					m[string(k)] = s
				case 1:
					v, ok := c.Get(k)
					s, has := m[string(k)]
					if ok != has || (ok && v != interface{}(s.t)) {
						fail("combined-get", "Get(%x) = (%T, %t), expected a trie: %t", k, v, ok, has)
					}
					if !ok {
						continue
					}
					for j := op(3); j >= 0; j-- {
						sk := skeys[op(len(skeys))]
						if opChance(1, 3) {
							ev("sub %x delete %x", k, sk)
							s.t.Delete(sk)
							delete(s.m, string(sk))
						} else {
							v, vs := w.newVal(sk)
							ev("sub %x put %x %s", k, sk, vs)
							s.t.Put(sk, v)
							s.m[string(sk)] = vs
						}
					}
				case 2:
					s, has := m[string(k)]
					ch, old := c.Delete(k)
					ev("delete %x -> %t", k, ch)
					if ch != has || (ch && old != interface{}(s.t)) {
						fail("combined-delete", "Delete(%x) = (%t, %T), the key was present: %t", k, ch, old, has)
					}
					delete(m, string(k))
				case 3, 7: // commit
					snap := m.snap()
					h, err := c.HashValue()
					if err != nil {
						fail("combined-hash", "HashValue: %v", err)
					}
					root := append([]byte{}, h...)
					cand[string(root)] = append(cand[string(root)], snap)
					if faulty && opChance(1, 2) {
						w.m.inject, w.m.saveErr, w.m.loadErr = true, 150, 60
						err = c.Commit()
						w.m.inject = false
						ev("commit with faults -> %v", err)
						if err != nil {
							if !isInjected(err) {
								fail("combined-commit", "Commit: %v", err)
							}
							continue
						}
					} else if err = c.Commit(); err != nil {
						fail("combined-commit", "Commit: %v", err)
					}
					if c.IsDirty() {
						fail("combined-dirty", "dirty after Commit")
					}
					ev("acked %s %s", cclip(root), snap)
					cand[string(root)] = []csnap{snap}
					acks = append(acks, ack{root, snap})
					for _, x := range sortedKeys(m) {
						if sh, err := m[x].t.HashValue(); err == nil && len(m[x].m) > 0 {
							subRoots = append(subRoots, struct {
								root []byte
								m    model
							}{append([]byte{}, sh...), m[x].m.clone()})
						}
					}
				case 4: // hash and proof
					var hs [][]byte
					ks := sortedKeys(m)
					for _, x := range ks {
						sh, err := m[x].t.HashValue()
						if err != nil {
							fail("combined-hash", "HashValue of a sub-trie: %v", err)
						}
						hs = append(hs, sh)
					}
					want := append([]byte{}, refCombined(hs)...)
					h, err := c.HashValue()
					if err != nil || !eq(h, want) {
						fail("combined-hash", "HashValue = %x (%v), the Merkle root of the %d sub-tries is %x", h, err, len(ks), want)
					}
					if _, _, ok := c.GetProof(nil); ok {
						fail("combined-proof", "GetProof(nil) found something")
					}
					v, pf, ok := c.GetProof(k)
					s, has := m[string(k)]
					if ok != has {
						fail("combined-proof", "GetProof(%x) = %t, the key is present: %t", k, ok, has)
					}
					if !ok {
						continue
					}
					if v != interface{}(s.t) {
						fail("combined-proof", "GetProof(%x) returned another trie", k)
					}
					sh, err := s.t.HashValue()
					if err != nil {
						fail("combined-hash", "HashValue of a sub-trie: %v", err)
					}
					pr, err := pf.Proof(common.BytesToHash(sh))
					if err != nil || !eq(pr, want) {
						fail("combined-proof", "the proof of %x leads to %x (%v), the root is %x; keys %x", k, pr, err, want, ks)
					}
				case 5: // keys, iteration
					ks := sortedKeys(m)
					got := c.Keys()
					if fmt.Sprintf("%x", got) != fmt.Sprintf("%x", ks) {
						fail("combined-keys", "Keys() = %x, expected %x", got, ks)
					}
					it := c.ValueIterator()
					if opChance(1, 2) {
						// the trie is changed while it is iterated: keys present all the time are
						// delivered exactly once, in order, with the trie they have at that moment
						all := map[string]bool{}
						for _, x := range ks {
							all[x] = true
						}
						var got []string
						for it.Next() {
							key, v := it.Current()
							if len(got) > 0 && string(key) <= got[len(got)-1] {
								fail("combined-iter", "key %x comes after %x", key, got[len(got)-1])
							}
							got = append(got, string(key))
							s, has := m[string(key)]
							if !has || v != interface{}(s.t) {
								fail("combined-iter", "the iteration shows (%x, %T), the key is present: %t", key, v, has)
							}
							for opChance(1, 3) {
								k := ckeys[op(len(ckeys))]
								delete(all, string(k))
								if opChance(1, 2) {
									ev("delete %x while iterating", k)
									c.Delete(k)
									delete(m, string(k))
								} else {
									ev("put %x while iterating", k)
									s := &csub{w.open(nil), model{}}
									c.Put(append([]byte{}, k...), s.t)
									m[string(k)] = s
								}
							}
						}
						for _, x := range sortedKeys(all) {
							ok := false
							for _, y := range got {
								ok = ok || x == y
							}
							if !ok {
								fail("combined-iter", "key %x was present all the time, the iteration shows only %x", x, got)
							}
						}
						continue
					}
					i := 0
					for it.Next() {
						key, v := it.Current()
						if i >= len(ks) || string(key) != ks[i] || v != interface{}(m[ks[i]].t) {
							fail("combined-iter", "entry %d of the iteration is %x, expected keys %x", i, key, ks)
						}
						i++
					}
					if i != len(ks) {
						fail("combined-iter", "the iteration ended after %d of %d keys", i, len(ks))
					}
					if k, v := it.Current(); i == 0 && (k != nil || v != nil) {
						fail("combined-iter", "Current of an empty iteration is (%x, %T)", k, v)
					}
				case 6:
					dirty := false
					for _, x := range sortedKeys(m) {
						dirty = m[x].t.IsDirty() || dirty
					}
					if dirty && !c.IsDirty() {
						fail("combined-dirty", "IsDirty() = false although a sub-trie has uncommitted changes")
					}
				}
			}
			if got := w.combinedContent(c); got.String() != m.snap().String() {
				fail("combined-content", "the content is\n  %s\n  expected %s", got, m.snap())
			}
		})
		zzsim.JoinGroup(g)
		w.m.crashAt, w.m.inject = 0, false
	}
	for _, a := range acks {
		_, s := reopen(a.root, "final check")
		if len(s) > 1 {
			r.Nontrivial()
		}
	}
	// a combined root that became loadable has all its sub-tries, also if its commit failed or was cut short
	for _, root := range sortedKeys(cand) {
		if _, ok := w.m.img["c"+root]; ok {
			reopen([]byte(root), "loadable root")
		}
	}
}

func p16conc(r *R) {
	w := newTWorld()
	w.big = false
	ckeys := genKeys(2+op(3), 2, 0)
	c := trie.NewCombinedTrie(&Adapter{w.m, "c"})
	// a fixed set of sub-tries whose content never changes during the run
	var subs []*trie.Trie
	var hashes [][]byte
	idx := map[interface{}]string{}
	for i := 0; i < 3; i++ {
		t := w.open(nil)
		t.Put([]byte{byte(i)}, func() interface{} { v, _ := w.newVal([]byte{byte(i)}); return v }())
		h, err := t.HashValue()
		if err != nil {
			fail("combined-hash", "%v", err)
		}
		hashes = append(hashes, append([]byte{}, h...))
		idx[t] = fmt.Sprint(i)
		subs = append(subs, t)
	}
	// state: "hexkey=i;" in key order
	parse := func(st string) map[string]string {
		m := map[string]string{}
		for _, e := range strings.Split(st, ";") {
			if i := strings.IndexByte(e, '='); i >= 0 {
				m[e[:i]] = e[i+1:]
			}
		}
		return m
	}
	build := func(m map[string]string) string {
		s := ""
		for _, k := range sortedKeys(m) {
			s += k + "=" + m[k] + ";"
		}
		return s
	}
	rootOf := func(m map[string]string) string {
		var hs [][]byte
		for _, k := range sortedKeys(m) {
			hs = append(hs, hashes[m[k][0]-'0'])
		}
		return hx(refCombined(hs))
	}
	step := func(st string, o *HOp) []string {
		m := parse(st)
		switch o.Name {
		case "put":
			f := strings.SplitN(o.In, "=", 2)
			m[f[0]] = f[1]
			return []string{build(m)}
		case "del", "get":
			want := "-"
			if x, ok := m[o.In]; ok {
				want = x
			}
			if o.Out != want {
				return nil
			}
			if o.Name == "del" {
				delete(m, o.In)
			}
			return []string{build(m)}
		case "keys":
			if o.Out != strings.Join(sortedKeys(m), ",") {
				return nil
			}
			return []string{st}
		case "hash":
			if o.Out != rootOf(m) {
				return nil
			}
			return []string{st}
		case "proof":
			x, ok := m[o.In]
			if !ok {
				if o.Out != "-" {
					return nil
				}
				return []string{st}
			}
			if o.Out != x+":"+rootOf(m) {
				return nil
			}
			return []string{st}
		}
		return nil
	}
	h := &History{}
	init := map[string]string{}
	for i := op(4); i > 0; i-- {
		k, s := ckeys[op(len(ckeys))], op(3)
		c.Put(k, subs[s])
		init[fmt.Sprintf("%x", k)] = fmt.Sprint(s)
	}
	subState := func(v interface{}) string {
		if s, ok := idx[v]; ok {
			return s
		}
		return fmt.Sprintf("?%T", v)
	}
	nops := 0
	var ts []*zzsim.Task
	for cl := 0; cl < 2+op(3); cl++ {
		cl := cl
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("client%d", cl), 1, func() {
			for i := 0; more(5, 6) && i < 6 && nops < 15; i++ {
				nops++
				k := ckeys[op(len(ckeys))]
				ks := fmt.Sprintf("%x", k)
				switch zzsim.Weighted("op", 8, 5, 5, 3, 4, 3, 3, 2, 3) {
				case 0:
					s := op(3)
					o := h.Call(cl, "put", ks+"="+fmt.Sprint(s))
					if !c.Put(k, subs[s]) {
						fail("combined-put", "Put refused")
					}
					h.Return(o, "")
				case 1:
					o := h.Call(cl, "del", ks)
					ch, old := c.Delete(k)
					out := "-"
					if ch {
						out = subState(old)
					}
					h.Return(o, out)
				case 2:
					o := h.Call(cl, "get", ks)
					v, ok := c.Get(k)
					out := "-"
					if ok {
						out = subState(v)
					}
					h.Return(o, out)
				case 3:
					o := h.Call(cl, "keys", "")
					var hk []string
					for _, x := range c.Keys() {
						hk = append(hk, fmt.Sprintf("%x", x))
					}
					h.Return(o, strings.Join(hk, ","))
				case 4:
					o := h.Call(cl, "hash", "")
					x, err := c.HashValue()
					if err != nil {
						fail("combined-hash", "%v", err)
					}
					h.Return(o, hx(x))
				case 5:
					o := h.Call(cl, "proof", ks)
					v, pf, ok := c.GetProof(k)
					out := "-"
					if ok {
						s := subState(v)
						out = s
						if len(s) == 1 && s[0] <= '2' {
							pr, err := pf.Proof(common.BytesToHash(hashes[s[0]-'0']))
							if err != nil {
								fail("combined-proof", "%v", err)
							}
							out = s + ":" + hx(pr)
						}
					}
					h.Return(o, out)
				case 6:
					if err := c.Commit(); err != nil {
						fail("combined-commit", "%v", err)
					}
					c.IsDirty()
				case 8:
					c.IsDirty()
				case 7:
					var last string
					it := c.ValueIterator()
					for it.Next() {
						key, v := it.Current()
						if key == nil && v == nil {
							continue // deleted meanwhile
						}
						if string(key) < last {
							fail("combined-iter", "the iteration is not in key order")
						}
						last = string(key)
						if _, ok := idx[v]; !ok {
							fail("combined-iter", "the iteration shows a value nobody stored: %T", v)
						}
					}
				}
			}
		}))
	}
	zzsim.Join(ts...)
	if len(h.ops) > 2 {
		r.Nontrivial()
	}
	// the final state takes part in the history
	o := h.Call(0, "keys", "")
	var hk []string
	for _, x := range c.Keys() {
		hk = append(hk, fmt.Sprintf("%x", x))
	}
	h.Return(o, strings.Join(hk, ","))
	checkLin("combined-not-linearizable", h, build(init), step)
	// and is what a commit makes durable
	if err := c.Commit(); err != nil {
		fail("combined-commit", "%v", err)
	}
	root, err := c.HashValue()
	if err != nil {
		fail("combined-hash", "%v", err)
	}
	want := w.combinedContent(c)
	c2, err := w.openCombined(append([]byte{}, root...))
	if err != nil {
		fail("combined-init", "InitTrie of the committed root: %v", err)
	}
	if got := w.combinedContent(c2); got.String() != want.String() {
		fail("combined-content", "reopened content %s, committed %s", got, want)
	}
}
