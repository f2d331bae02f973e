//go:build go1.22

package main

import (
	"fmt"
	"sort"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/ThinkiumGroup/go-common/zzsim"
	"github.com/stephenfire/go-rtl"
)

func init() {
	register(&Prop{ID: "P07", Run: runP07, Quick: 40000, QuickS: 18,
		Rule: "Non-trivial: a message was misdelivered, stale, corrupted or altered by the peer, and one was accepted.",
		Real: "trie.Trie GetProof and GetExistenceProof, NodeProof, ProofChain, common.MerkleProofs and hashing, their rtl codec", Stub: "the network and the server's key-value store"})
	register(&Prop{ID: "P14", Run: runP14, Quick: 30000, QuickS: 18,
		Rule: "Non-trivial: at least two proofs were merged, and a fault fired or the client was restarted.",
		Real: "trie.HistoryTree (server and light client), RestoreTreeFromProofs, MergeProof, ProofChain and MerkleProofs and their rtl codec", Stub: "the network and both key-value stores, with injected errors and crashes"})
}

// ---------------------------------------------------------------- network faults on proofs

// encode gives the bytes whose hash is the hash of a trie value.
func encode(v interface{}) []byte {
	if b, ok := v.([]byte); ok {
		return cp(b)
	}
	b, err := rtl.Marshal(v)
	if err != nil {
		fail("value-codec", "%v", err)
	}
	return b
}

// flipByte corrupts one byte of b.
func flipByte(b []byte) []byte {
	b = cp(b)
	if len(b) == 0 {
		return b
	}
	i := n("fault", len(b))
	switch n("fault", 4) {
	case 0:
		b[i] ^= 1 << uint(n("fault", 8))
	case 1:
		b[i] = byte(n("fault", 256))
	case 2:
		b = b[:i]
	case 3:
		b = append(b[:i], b[i+1:]...)
	}
	return b
}

// alter changes the decoded chain like a dishonest peer would. other is a chain of another message.
// checkHistoryProof: a genuine proof of height k leads to the root, for this height only.
func checkHistoryProof(k uint64, v []byte, c trie.ProofChain, root []byte) {
	if x, err := c.HistoryProof(common.Height(k), v); err != nil || !eq(x, root) {
		fail("history-proof", "HistoryProof(%d, %x) = %x, %v; the root is %x", k, v, x, err, root)
	}
	if x, err := c.HistoryProof(common.NilHeight, v); err != nil || !eq(x, root) {
		fail("history-proof", "HistoryProof(nil, %x) of key %d = %x, %v; the root is %x", v, k, x, err, root)
	}
	if _, err := c.HistoryProof(common.Height(k^1<<uint(op(63))), v); err == nil {
		fail("history-proof", "HistoryProof of key %d holds for another height", k)
	}
	if _, err := c.HistoryProof(common.NilHeight, nil); err == nil {
		fail("history-proof", "HistoryProof without height and value succeeds")
	}
}

func alter(c trie.ProofChain, other trie.ProofChain) trie.ProofChain {
	c = c.Clone()
	if len(c) == 0 {
		return c
	}
	for k := 1 + n("fault", 2); k > 0 && len(c) > 0; k-- {
		i := n("fault", len(c))
		switch n("fault", 13) {
		case 12:
			c[i] = nil
		case 0, 1, 2:
			if c[i] != nil {
				c[i].PType = trie.ProofType(n("fault", 18))
			}
		case 3:
			if c[i] != nil {
				c[i].PType = []trie.ProofType{trie.ProofExistence, trie.ProofMerkleOnly, trie.ProofHdsSummary, trie.ProofHeaderHistory, 0xb0}[n("fault", 5)]
			}
		case 4:
			if c[i] != nil {
				c[i].ValueHash = common.BytesToHashP(common.NilHashSlice)
			}
		case 5:
			if c[i] != nil {
				c[i].ValueHash = nil
			}
		case 6:
			if c[i] != nil {
				c[i].ChildProofs = nil
			}
		case 7:
			c = append(c[:i], c[i+1:]...)
		case 8:
			j := n("fault", len(c))
			c[i], c[j] = c[j], c[i]
		case 9:
			if len(other) > 0 {
				c[i] = other[n("fault", len(other))].Clone()
			}
		case 10: // collapse two levels into one: the node itself given as child of the root of the children
			if len(c) > 1 && c[i] != nil && c[i].ChildProofs.Len() > 0 {
				h, _, err := c[i].ChildProofs.Get(0)
				if err == nil {
					j := n("fault", len(c))
					if c[j] != nil {
						mp := common.NewMerkleProofs()
						mp.Append(h, opChance(1, 2))
						c[j].ChildProofs = mp
					}
					c[i].ChildProofs = nil
				}
			}
		case 11:
			if c[i] != nil && c[i].ChildProofs != nil && len(c[i].ChildProofs.Hashs) > 0 {
				mp := c[i].ChildProofs
				switch n("fault", 3) {
				case 0:
					mp.Repeats = append(mp.Repeats, common.MoreTime{Index: n("fault", len(mp.Hashs)+1), Times: n("fault", 5)})
				case 1:
					mp.Paths.SetBit(mp.Paths, n("fault", 8), uint(n("fault", 2)))
				case 2:
					mp.Hashs = append(mp.Hashs, mp.Hashs[0])
				}
			}
		}
	}
	return c
}

func decodeChain(b []byte) (c trie.ProofChain, err error) {
	if err = rtl.Unmarshal(b, &c); err != nil {
		return
	}
	// a receiver does not compute the thousands of steps that only a damaged proof claims
	l := 0
	for _, p := range c {
		if p != nil && p.ChildProofs != nil {
			l += repeatsOf(p.ChildProofs)
		}
	}
	if l > 1024 {
		return nil, fmt.Errorf("a proof of %d steps", l)
	}
	return
}

func encodeChain(c trie.ProofChain) []byte {
	b, err := rtl.Marshal(c)
	if err != nil {
		fail("proof-codec", "encoding a proof chain: %v", err)
	}
	return b
}

// pmsg is a proof on the wire.
type pmsg struct {
	key    []byte
	num    uint64
	ver    int // index of the root it was made for
	exist  bool
	found  bool
	val    []byte
	proof  []byte
	intact bool
}

// ---------------------------------------------------------------- P07

func runP07(r *R) {
	w := newTWorld()
	keys := trieKeys()
	if opChance(1, 3) { // the other keys are never stored
		keys = append(keys, genKeys(2, 3, 0)...)
	}
	w.m.loadErr = []int{0, 0, 30}[n("cfg", 3)]
	corrupt := []int{0, 20, 50}[n("cfg", 3)]
	byz := []int{0, 20, 60}[n("cfg", 3)]
	mis := []int{0, 20, 60}[n("cfg", 3)]
	srv := w.open(nil)
	type pub struct {
		root []byte
		m    model
		vals map[string]bool // encoded values
	}
	m := model{}
	enc := map[string][]byte{}
	var pubs []pub
	publish := func() {
		root := mustRoot(srv)
		vs := map[string]bool{}
		for k := range m {
			vs[string(enc[k])] = true
		}
		pubs = append(pubs, pub{root, m.clone(), vs})
		ev("publish %d: %x", len(pubs)-1, root[:4])
	}
	for i := 1 + op(12); i > 0; i-- {
		k := keys[op(len(keys))]
		v, s := w.newVal(k)
		srv.Put(cp(k), v)
		m[string(k)], enc[string(k)] = s, encode(v)
	}
	publish()
	var wire []*pmsg
	accepted, bad := 0, 0
	for i := 0; more(39, 40) && i < 80; i++ {
		w.m.inject = opChance(1, 2)
		switch zzsim.Weighted("op", 3, 2, 1, 10, 14, 1) {
		case 0:
			k := keys[op(len(keys))]
			v, s := w.newVal(k)
			w.m.inject = false
			srv.Put(cp(k), v)
			m[string(k)], enc[string(k)] = s, encode(v)
		case 1:
			k := keys[op(len(keys))]
			w.m.inject = false
			srv.Delete(k)
			delete(m, string(k))
		case 2:
			w.m.inject = false
			if len(pubs) < 6 {
				publish()
			}
			if opChance(1, 3) {
				srv.Collapse()
			} else if opChance(1, 3) {
				srv = w.open(pubs[len(pubs)-1].root)
				m = pubs[len(pubs)-1].m.clone()
			}
		case 3: // the server answers a request for a published root
			ver := len(pubs) - 1 - op(2)
			if ver < 0 {
				ver = 0
			}
			p := pubs[ver]
			t := w.open(p.root)
			k := keys[op(len(keys))]
			x := &pmsg{key: cp(k), ver: ver, exist: opChance(1, 2), intact: true}
			f0 := w.m.fired
			var chain trie.ProofChain
			if x.exist {
				ok, c, err := t.GetExistenceProof(k)
				x.found = ok
				if err != nil {
					if w.m.fired == f0 {
						fail("existence-error", "GetExistenceProof(%x): %v", k, err)
					}
					continue
				}
				_, has := p.m[string(k)]
				if ok != has {
					fail("existence-answer", "GetExistenceProof(%x) = %t, the trie holds it: %t", k, ok, has)
				}
				chain = c
			} else {
				v, c, ok := t.GetProof(k)
				s, has := p.m[string(k)]
				if ok && (!has || s != w.vstr(v)) || !ok && has && w.m.fired == f0 {
					fail("proof-answer", "GetProof(%x) = %s, %t, the trie holds (%s, %t)", k, w.vstr(v), ok, s, has)
				}
				if !ok {
					continue
				}
				x.found, x.val, chain = true, encode(v), c
			}
			x.proof = encodeChain(chain)
			wire = append(wire, x)
			ev("answer %d: key %x version %d exist=%t", len(wire)-1, k, ver, x.exist)
		case 4: // delivery to the client, in any order and any number of times
			if len(wire) == 0 {
				break
			}
			x := *wire[op(len(wire))]
			if zzsim.Chance("fault", 1, 8) {
				stat("fault.drop")
				break
			}
			if zzsim.Chance("fault", mis, 100) {
				stat("fault.misdelivered")
				x.key, x.intact = cp(keys[n("fault", len(keys))]), false
			}
			if zzsim.Chance("fault", mis, 100) {
				stat("fault.stale_or_early")
				x.ver, x.intact = n("fault", len(pubs)), false
			}
			if zzsim.Chance("fault", mis, 300) {
				stat("fault.foreign_value")
				x.val, x.intact = wire[n("fault", len(wire))].val, false
			}
			if zzsim.Chance("fault", corrupt, 100) {
				stat("fault.corrupt_byte")
				x.intact = false
				if len(x.val) > 0 && zzsim.Chance("fault", 1, 3) {
					x.val = flipByte(x.val)
				} else {
					x.proof = flipByte(x.proof)
				}
			}
			chain, err := decodeChain(x.proof)
			if err != nil {
				if x.intact {
					fail("proof-codec", "decoding an intact proof: %v", err)
				}
				ev("delivered garbage: %v", err)
				break
			}
			if zzsim.Chance("fault", byz, 100) {
				stat("fault.altered_proof")
				x.intact = false
				o, _ := decodeChain(wire[n("fault", len(wire))].proof)
				chain = alter(chain, o)
				if len(chain) > 0 {
					if c2, err := decodeChain(encodeChain(chain)); err == nil { // over the wire again
						chain = c2
					}
				}
			}
			if !x.intact {
				bad++
			}
			p := pubs[x.ver]
			if x.exist {
				root, err := chain.ExistenceHash()
				if err != nil || !eq(root, p.root) {
					if x.intact {
						fail("proof-incomplete", "the existence proof of %x does not lead to the root: %x, %v", x.key, root, err)
					}
					break
				}
				if len(x.key) == 0 {
					break
				}
				ok, err := chain.IsExist(x.key)
				_, has := p.m[string(x.key)]
				ev("existence of %x at %d -> %t %v", x.key, x.ver, ok, err)
				if err != nil {
					if x.intact {
						fail("proof-incomplete", "the existence proof of %x (held: %t) is refused: %v", x.key, has, err)
					}
					break
				}
				accepted++
				if ok != has {
					fail("proof-unsound", "a proof leading to root %d shows that key %x exists: %t; the trie holds it: %t\n  content %s\n  proof %s", x.ver, x.key, ok, has, p.m, chain)
				}
			} else {
				hv, err := keccak(x.val), error(nil)
				if err != nil {
					fail("hash-error", "%v", err)
				}
				ok := trie.VerifyProofChain(common.BytesToHash(hv), chain, p.root)
				ev("value of %x at %d -> %t", x.key, x.ver, ok)
				if !ok && x.intact {
					fail("proof-incomplete", "the proof of the value of %x is refused", x.key)
				}
				if ok {
					accepted++
					if !p.vals[string(x.val)] {
						fail("proof-unsound", "a proof leading to root %d was accepted for value %x, which the trie does not hold\n  content %s", x.ver, x.val, p.m)
					}
				}
			}
		case 5:
			if len(wire) > 0 {
				c, err := decodeChain(wire[op(len(wire))].proof)
				if err != nil {
					fail("proof-codec", "decoding an intact proof: %v", err)
				}
				_ = c.String()
				if !c.Equal(c.Clone()) {
					fail("proof-clone", "a clone of a proof chain differs from it")
				}
			}
		}
	}
	if accepted > 0 && bad > 0 {
		r.Nontrivial()
	}
}

// ---------------------------------------------------------------- P14

type lack struct {
	root  []byte
	cm    *hmod
	known map[uint64]bool
}

func runP14(r *R) {
	sw := &hw{m: newMedia()}
	sw.d = &MediaDB{sw.m}
	cw := &hw{m: newMedia()}
	cw.d = &MediaDB{cw.m}
	errs := []int{0, 0, 30, 150}
	cw.m.loadErr, cw.m.saveErr = errs[n("cfg", 4)], errs[n("cfg", 4)]
	cw.m.ambiguous = zzsim.Chance("cfg", 1, 2)
	corrupt := []int{0, 10, 30}[n("cfg", 3)]
	st, err := sw.open("s", nil, true)
	if err != nil {
		fail("open-error", "%v", err)
	}
	sm := &hmod{}
	grow := func(c int) {
		for ; c > 0 && sm.n() < 600; c-- {
			v := sw.val()
			if err := st.Append(sm.n(), cp(v)); err != nil {
				fail("append-error", "%v", err)
			}
			sm.add(v)
		}
	}
	grow([]int{1, 3, 15, 16, 17, 40, 255, 256, 280}[n("cfg", 9)])
	roots := map[int][]byte{}
	serve := func(k uint64) *pmsg {
		v, c, ok := st.GetProof(k)
		if !ok || !eq(v, sm.get(k)) {
			fail("proof-answer", "the server's GetProof(%d) = %x, %t; value %x", k, v, ok, sm.get(k))
		}
		if n := int(sm.n()); roots[n] == nil {
			roots[n] = sm.root()
		}
		return &pmsg{num: k, ver: int(sm.n()), val: v, proof: encodeChain(c), intact: true}
	}
	var ct *trie.HistoryTree
	cm := &hmod{}
	known := map[uint64]bool{}
	var acks []lack
	var wire []*pmsg
	merged, events := 0, 0
	judge := func(class string, k uint64, faulty bool) {
		v, ok := ct.Get(k)
		want := cm.get(k)
		if ok && !eq(v, want) {
			fail(class, "the light client's Get(%d) = %x, the value is %x (%d keys)", k, v, want, cm.n())
		}
		if !ok && known[k] && !faulty {
			fail(class, "the light client lost key %d, which was proved or appended (%d keys)", k, cm.n())
		}
	}
	checkRoot := func(class string) {
		x, err := ct.HashValue()
		if err != nil || !eq(x, cm.root()) {
			fail(class, "the light client's root of %d keys is %x, %v; want %x", cm.n(), x, err, cm.root())
		}
		if ct.Expecting() != cm.n() {
			fail(class, "the light client expects key %d, it has %d keys", ct.Expecting(), cm.n())
		}
	}
	sortedKnown := func() []uint64 {
		var ks []uint64
		for k := range known {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		return ks
	}
	checkAll := func(class string) {
		cw.m.inject = false
		checkRoot(class)
		for _, k := range sortedKnown() {
			judge(class, k, false)
		}
		judge(class, cm.n(), false)
	}
	restore := func() { // a fresh client, anchored at the server's last key
		for ct == nil {
			x := serve(sm.n() - 1)
			val, proof := x.val, x.proof
			if zzsim.Chance("fault", corrupt, 100) {
				stat("fault.corrupt_byte")
				if opChance(1, 3) {
					val = flipByte(val)
				} else {
					proof = flipByte(proof)
				}
			}
			chain, err := decodeChain(proof)
			if err != nil {
				continue
			}
			t, err := trie.RestoreTreeFromProofs(cw.d, []byte("c"), x.num, cp(val), chain)
			if err != nil {
				if eq(val, x.val) && eq(proof, x.proof) {
					fail("restore-error", "RestoreTreeFromProofs(%d): %v", x.num, err)
				}
				continue
			}
			h, err := t.HashValue()
			if err != nil || !eq(h, sm.root()) { // the client knows the right root
				if eq(val, x.val) && eq(proof, x.proof) {
					fail("restore-root", "the tree restored from the proof of key %d has root %x, %v; want %x", x.num, h, err, sm.root())
				}
				continue
			}
			ct, cm, known = t, sm.clone(), map[uint64]bool{x.num: true}
			ev("restored at %d", x.num)
		}
	}
	for round := 0; round < 3; round++ {
		g := round + 1
		cw.m.crashAt = 0
		if zzsim.Chance("fault", 1, 2) {
			cw.m.crashAt = cw.m.writes + 1 + n("fault", 4<<uint(n("fault", 5)))
		}
		cw.m.onCrash = func() {
			events++
			zzsim.KillGroup(g)
		}
		cw.m.inject = false
		zzsim.Spawn("client", g, func() {
			if len(acks) > 0 && ct == nil {
				a := acks[len(acks)-1]
				t, err := cw.open("c", a.root, false)
				if err != nil {
					fail("acked-lost", "the committed root of %d keys does not open: %v", a.cm.n(), err)
				}
				ct, cm, known = t, a.cm.clone(), map[uint64]bool{}
				for k := range a.known {
					known[k] = true
				}
			} else {
				restore()
			}
			for i := 0; more(24, 25) && i < 50; i++ {
				cw.m.inject = opChance(1, 2)
				f0 := cw.m.fired
				faulty := func() bool {
					if cw.m.fired > f0 {
						events++
						return true
					}
					return false
				}
				switch zzsim.Weighted("op", 4, 5, 10, 16, 6, 4, 2, 2, 4, 1) {
				case 0: // the server moves on
					grow(hburst(int(sm.n())))
				case 1: // the client follows
					for c := hburst(int(sm.n())); c > 0 && cm.n() < sm.n(); c-- {
						k, v := cm.n(), sm.get(cm.n())
						f0 = cw.m.fired
						err := ct.Append(k, cp(v))
						if err != nil {
							if !faulty() {
								fail("append-error", "the light client's Append(%d): %v", k, err)
							}
							break
						}
						cm.add(v)
						known[k] = true
					}
					ev("client at %d of %d", cm.n(), sm.n())
				case 2: // ask for some proofs
					for j := 1 + op(3); j > 0; j-- {
						k := uint64(op(int(sm.n())))
						wire = append(wire, serve(k))
						ev("ask %d at %d", k, sm.n())
					}
				case 3: // deliver one, in any order, possibly again
					if len(wire) == 0 {
						break
					}
					x := *wire[len(wire)-1-op(len(wire))]
					if zzsim.Chance("fault", corrupt, 100) {
						stat("fault.corrupt")
						x.intact = false
						switch n("fault", 5) {
						case 0:
							x.num ^= 1 << uint(n("fault", 10))
						case 1:
							x.val = cp(wire[n("fault", len(wire))].val)
						case 2:
							x.val = flipByte(x.val)
						default:
							x.proof = flipByte(x.proof)
						}
					}
					chain, err := decodeChain(x.proof)
					if err != nil {
						if x.intact {
							fail("proof-codec", "decoding an intact proof: %v", err)
						}
						break
					}
					if zzsim.Chance("fault", corrupt, 100) {
						stat("fault.altered_proof")
						x.intact = false
						o, _ := decodeChain(wire[n("fault", len(wire))].proof)
						chain = alter(chain, o)
					}
					// what a verifier that knows the roots only makes of it
					y, err := chain.HistoryProof(common.Height(x.num), x.val)
					if x.intact && (err != nil || !eq(y, roots[x.ver])) {
						fail("history-proof", "HistoryProof(%d) of an intact proof for %d keys = %x, %v", x.num, x.ver, y, err)
					}
					if err == nil {
						for ver := 0; ver <= int(sm.n()); ver++ {
							if root := roots[ver]; root != nil && eq(y, root) && (x.num >= uint64(ver) || common.BytesToHash(x.val) != common.BytesToHash(sm.get(x.num))) {
								fail("history-proof-unsound", "HistoryProof(%d, %x) leads to the root of %d keys, the value is %x", x.num, x.val, ver, sm.get(x.num))
							}
						}
					}
					err = ct.MergeProof(x.num, cp(x.val), chain)
					ev("merge %d made at %d into %d intact=%t -> %v", x.num, x.ver, cm.n(), x.intact, err != nil)
					f := faulty()
					if err != nil && x.intact && uint64(x.ver) == cm.n() && !f {
						fail("merge-refused", "MergeProof(%d) of a proof for the client's own root failed: %v", x.num, err)
					}
					if err == nil {
						if x.intact && uint64(x.ver) != cm.n() {
							fail("merge-foreign", "MergeProof(%d) accepted a proof made for %d keys, the tree has %d", x.num, x.ver, cm.n())
						}
						if !eq(x.val, cm.get(x.num)) {
							fail("merge-unsound", "MergeProof(%d) accepted value %x, the value is %x", x.num, x.val, cm.get(x.num))
						}
						known[x.num] = true
						merged++
						cw.m.inject = false
						judge("merged", x.num, false)
						checkRoot("merged")
					} else {
						cw.m.inject = false
						checkRoot("failed-merge")
					}
				case 4:
					k := uint64(op(int(cm.n()) + 2))
					f := cw.m.fired
					judge("get", k, false || func() bool { ct.Get(k); return cw.m.fired > f }())
				case 5:
					x, err := commitHash(ct)
					ev("commit %d -> %v", cm.n(), err)
					if err != nil {
						if !faulty() {
							fail("commit-error", "CommitAndHash: %v", err)
						}
						break
					}
					if !eq(x, cm.root()) {
						fail("root", "the light client's root of %d keys is %x, want %x", cm.n(), x, cm.root())
					}
					a := lack{cp(x), cm.clone(), map[uint64]bool{}}
					for k := range known {
						a.known[k] = true
					}
					acks = append(acks, a)
				case 6:
					k := uint64(op(int(cm.n())+2)) &^ 0xf
					err := ct.CollapseBefore(k)
					ev("collapse before %d -> %v", k, err)
				case 7: // restart
					if len(acks) == 0 {
						break
					}
					events++
					a := acks[len(acks)-1]
					t, err := cw.open("c", a.root, false)
					ev("reopen %d -> %v", a.cm.n(), err)
					if err != nil {
						if !faulty() {
							fail("acked-lost", "the committed root of %d keys does not open: %v", a.cm.n(), err)
						}
						break
					}
					ct, cm, known = t, a.cm.clone(), map[uint64]bool{}
					for k := range a.known {
						known[k] = true
					}
				case 8: // the light client can prove what it knows
					ks := sortedKnown()
					k := ks[op(len(ks))]
					v, c, ok := ct.GetProof(k)
					if !ok {
						if !faulty() {
							fail("client-proof", "the light client's GetProof(%d) failed", k)
						}
						break
					}
					x, err := c.Proof(common.BytesToHash(v))
					if err != nil || !eq(v, cm.get(k)) || !eq(x, cm.root()) || c.BigKey().Uint64() != k {
						fail("client-proof", "the light client's GetProof(%d): value %x, key %s, root %x, %v; want value %x, root %x", k, v, c.BigKey(), x, err, cm.get(k), cm.root())
					}
					checkHistoryProof(k, v, c, x)
				case 9:
					cw.m.inject = false
					t := ct.Clone()
					if t == nil {
						fail("clone-nil", "Clone returned nil")
					}
					ct = t
				}
				if opChance(1, 12) {
					checkAll("content")
				}
			}
			checkAll("after-faults")
		})
		zzsim.JoinGroup(g)
		cw.m.inject, cw.m.crashAt = false, 0
		ct = nil
		for i, a := range acks {
			if i < len(acks)-3 {
				continue
			}
			t, err := cw.open("c", a.root, false)
			if err != nil {
				fail("acked-lost", "after the restart the committed root of %d keys does not open: %v", a.cm.n(), err)
			}
			ct, cm, known = t, a.cm, a.known
			checkAll("acked-lost")
		}
		ct = nil
		if len(acks) == 0 {
			wire = nil
		}
	}
	if merged > 1 && events > 0 {
		r.Nontrivial()
	}
	_ = fmt.Sprint
}
