//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/ThinkiumGroup/go-common/zzsim"
	"golang.org/x/crypto/sha3"
)

func init() {
	register(&Prop{ID: "P43", Run: runP43, Quick: 30000, QuickS: 20,
		Rule: "Non-trivial: a message was misdelivered, stale, corrupted or altered by the peer, and one was accepted.",
		Real: "Merkle lists and proofs of hash.go, header property, header summary, existence and history proofs of trie/proof.go, Trie, HistoryTree, their rtl codec", Stub: "the blocks, the network, the servers' key-value stores with injected read errors, goroutine scheduling"})
}

func keccak(bs ...[]byte) []byte {
	h := sha3.NewLegacyKeccak256()
	for _, b := range bs {
		h.Write(b)
	}
	return h.Sum(nil)
}
func hpair(a, b []byte) []byte { return keccak(a, b) }

// refMerkle is the root of the list; complete: padded to a power of two, else one nil hash per level.
func refMerkle(list [][]byte, complete bool) []byte {
	if len(list) == 0 {
		return common.NilHashSlice
	}
	l := append([][]byte{}, list...)
	for first := true; first || len(l) > 1; first = false {
		if complete && first {
			for c := 2; ; c <<= 1 {
				if c >= len(l) {
					for len(l) < c {
						l = append(l, common.NilHashSlice)
					}
					break
				}
			}
		}
		if len(l)%2 == 1 {
			l = append(l, common.NilHashSlice)
		}
		var next [][]byte
		for i := 0; i < len(l); i += 2 {
			next = append(next, hpair(l[i], l[i+1]))
		}
		l = next
	}
	return l[0]
}

// list2root checks every Merkle function on one list and returns the complete root and the proof of element i.
func merkleList(list [][]byte, i int) ([]byte, *common.MerkleProofs) {
	keep := make([][]byte, len(list))
	for j := range list {
		keep[j] = cp(list[j])
	}
	spare := append(make([][]byte, 0, len(list)+6), list...)
	guard := spare[:cap(spare)]
	want, wantShort := refMerkle(list, true), refMerkle(list, false)
	var ret *common.MerkleProofs
	for way := 0; way < 3; way++ {
		var mp *common.MerkleProofs
		if i >= 0 {
			mp = common.NewMerkleProofs()
		}
		var got []byte
		var err error
		w := want
		switch way {
		case 0:
			got, err = common.MerkleHashComplete(spare, i, mp)
			ret = mp
		case 1:
			got, err = common.MerkleHashCompleteOld(spare, i, mp)
		case 2:
			got, err = common.MerkleHash(spare, i, mp)
			w = wantShort
		}
		zzsim.Point()
		if err != nil || !eq(got, w) {
			fail("merkle-root", "the root of %d hashes (way %d) is %x, %v; by definition %x", len(list), way, got, err, w)
		}
		for j := range list {
			if !eq(list[j], keep[j]) || !eq(spare[j], keep[j]) {
				fail("merkle-input", "computing the root (way %d) changed hash %d of its input", way, j)
			}
		}
		for j := len(list); j < len(guard); j++ {
			if guard[j] != nil {
				fail("merkle-input", "computing the root (way %d) wrote behind the end of its input", way)
			}
		}
		if i >= 0 && len(list) > 0 {
			checkMerkle(mp, list[i], uint64(i), w)
		}
	}
	return want, ret
}

// checkMerkle: the proof leads from the leaf to the root along the bits of the position, and all its views agree.
func checkMerkle(mp *common.MerkleProofs, leaf []byte, pos uint64, root []byte) {
	got, err := mp.Proof(common.BytesToHash(leaf))
	if err != nil || !eq(got, root) {
		fail("merkle-proof", "the proof of element %d leads to %x, %v; the root is %x", pos, got, err, root)
	}
	key := new(big.Int)
	if l := mp.BigKey(key, 0); l != mp.Len() || !key.IsUint64() || key.Uint64() != pos {
		fail("merkle-proof", "the proof of element %d has the path %v (%d of %d)", pos, key, l, mp.Len())
	}
	items, err := mp.ToItems()
	if err != nil || len(items) != mp.Len() {
		fail("merkle-items", "ToItems of %v gives %d items, %v", mp, len(items), err)
	}
	h := leaf
	for i, it := range items {
		g, o, err := mp.Get(i)
		if err != nil || g != it.Val || o != it.Order || mp.Order(i) != o || o != (pos>>uint(i)&1 == 1) {
			fail("merkle-items", "item %d of %v is %x %t, Get gives %x %t %v, Order %t", i, mp, it.Val[:4], it.Order, g[:4], o, err, mp.Order(i))
		}
		if o {
			h = hpair(g[:], h)
		} else {
			h = hpair(h, g[:])
		}
	}
	if !eq(h, root) {
		fail("merkle-items", "the items of %v lead to %x, the root is %x", mp, h, root)
	}
	if _, _, err := mp.Get(len(items)); err == nil && len(items) > 0 {
		fail("merkle-items", "%v has %d items and Get(%d) succeeds", mp, len(items), len(items))
	}
	if !mp.Repeats.IsValid() {
		fail("merkle-repeats", "the repeats of a computed proof are not valid: %v", mp.Repeats)
	}
	full := 0
	for i := range mp.Hashs {
		t, ok := mp.Repeats.Find(i)
		if ok != (t > 0) {
			fail("merkle-repeats", "Find(%d) of %v is %d, %t", i, mp.Repeats, t, ok)
		}
		for j := 0; j <= t; j++ {
			if full < len(items) && items[full].Val != mp.Hashs[i] {
				fail("merkle-repeats", "item %d of %v is not hash %d, which repeats %d times", full, mp, i, t)
			}
			full++
		}
	}
	if full != len(items) {
		fail("merkle-repeats", "%v has %d items, the repeats say %d", mp, len(items), full)
	}
	if c := mp.Clone(); !c.Equal(mp) || !mp.Equal(c) {
		fail("merkle-equal", "a clone of %v differs", mp)
	} else if len(c.Hashs) > 0 {
		c.Paths.SetBit(c.Paths, op(len(items)), c.Paths.Bit(0)^1)
		c.Hashs[0][3] ^= 1
		switch op(4) {
		case 0:
			c.Append(common.BytesToHash(keccak(root)), opChance(1, 2))
		case 1:
			if k := len(mp.Hashs); k > 0 { // the last hash once more
				c.Append(mp.Hashs[k-1], opChance(1, 2))
			}
		case 2:
			for k := range c.Repeats {
				c.Repeats[k].Times++
			}
		}
		if c.Equal(mp) {
			fail("merkle-equal", "proofs with different hashes are equal")
		}
		if g, err := mp.Proof(common.BytesToHash(leaf)); err != nil || !eq(g, root) {
			fail("merkle-equal", "changing a clone changed the proof")
		}
	}
}

type xblock struct {
	chain  common.ChainID
	height common.Height
	props  [][]byte
	leaves [][]byte
	hash   []byte
	state  model
	enc    map[string][]byte
	t      *trie.Trie
	main   *xblock // packaged in
	pos    int
	packed []*xblock
}

func posBytes(c common.ChainID, h common.Height) []byte {
	b := make([]byte, 12)
	binary.BigEndian.PutUint32(b, uint32(c))
	binary.BigEndian.PutUint64(b[4:], uint64(h))
	return b
}

const stateProp, hdsProp = 13, 20

func (b *xblock) seal() {
	b.leaves = nil
	for i, p := range b.props {
		b.leaves = append(b.leaves, hpair(keccak(append(posBytes(b.chain, b.height), byte(i))), p))
	}
	b.hash = refMerkle(b.leaves, true)
}

func propType(i int) trie.ProofType {
	if opChance(1, 2) {
		switch i {
		case 12:
			return trie.ProofHeaderDeltas
		case 1:
			return trie.ProofHeaderHistory
		case 13:
			return trie.ProofHeaderStateRoot
		case 16:
			return trie.ProofHeaderVCCRoot
		case 17:
			return trie.ProofHeaderCCCRoot
		case 20:
			return trie.ProofHeaderHdsRoot
		}
	}
	return trie.ProofHeaderBase + trie.ProofType(i)
}

// prove gives the proof node of property i.
func (b *xblock) prove(i int) *trie.NodeProof {
	root, mp := merkleList(b.leaves, i)
	if !eq(root, b.hash) {
		fail("merkle-root", "the header hash is %x, computed as %x", b.hash, root)
	}
	h := common.HeaderIndexHash(common.ToHeaderPosHashBuffer(b.chain, b.height), byte(i))
	return trie.NewHeaderPropertyProof(propType(i), common.BytesToHashP(h), mp)
}

func (b *xblock) summaries() [][]byte {
	var l [][]byte
	for _, p := range b.packed {
		l = append(l, hpair(keccak(posBytes(p.chain, p.height)), p.hash))
	}
	return l
}

// claim is what a message wants to convince its receiver of.
type claim struct {
	kind   int // 0 property, 1 state value exists or not, 2 main chain property
	chain  common.ChainID
	height common.Height
	index  int
	val    []byte // property, or value of the key in the state
	key    []byte
	found  bool
	mainH  common.Height
	root   int
	n      int // nodes of the state part
	proof  []byte
	intact bool
}

func (c *claim) String() string {
	return fmt.Sprintf("{kind %d block %d/%d property %d value %s key %x found %t in main block %d root %d}", c.kind, c.chain, c.height, c.index, hx(c.val), c.key, c.found, c.mainH, c.root)
}

func runP43(r *R) {
	w := newTWorld()
	w.m.loadErr = []int{0, 0, 30}[n("cfg", 3)]
	corrupt := []int{0, 20, 50}[n("cfg", 3)]
	byz := []int{0, 20, 60}[n("cfg", 3)]
	mis := []int{0, 20, 60}[n("cfg", 3)]
	keys := genKeys(1+op(5), 2, 0)
	hs := &hw{m: newMedia()}
	hs.d = &MediaDB{hs.m}
	hist, err := hs.open("h", nil, true)
	if err != nil {
		fail("open-error", "%v", err)
	}
	hm := &hmod{}
	var mains []*xblock
	blocks := map[string]*xblock{}
	var all []*xblock // packaged child blocks
	roots := [][]byte{}
	confirmed := 0
	nc := 1 + op(3)
	live := make([]*trie.Trie, nc)
	models := make([]model, nc)
	encs := make([]map[string][]byte, nc)
	heights := make([]common.Height, nc)
	for c := range live {
		live[c] = w.open(nil)
		models[c] = model{}
		encs[c] = map[string][]byte{}
		heights[c] = common.Height(op(3) * 1000)
	}
	seq := 0
	newHash := func() []byte {
		seq++
		if opChance(1, 4) {
			return cp(common.NilHashSlice)
		}
		if opChance(1, 4) {
			seq--
		}
		return keccak([]byte(fmt.Sprint("x", seq)))
	}
	props := func(least int) [][]byte {
		var l [][]byte
		for i, c := 0, least+op(24); i < c; i++ {
			l = append(l, newHash())
		}
		return l
	}
	id := func(c common.ChainID, h common.Height) string { return fmt.Sprintf("%d/%d", c, h) }
	build := func() {
		m := &xblock{chain: 0, height: common.Height(hm.n()), props: props(21)}
		for k := 1 + op(4); k > 0; k-- {
			c := op(nc)
			inj := w.m.inject
			w.m.inject = false
			for j := op(3); j >= 0; j-- {
				key := keys[op(len(keys))]
				if opChance(1, 4) {
					live[c].Delete(key)
					delete(models[c], string(key))
					delete(encs[c], string(key))
				} else {
					v, s := w.newVal(key)
					live[c].Put(cp(key), v)
					models[c][string(key)] = s
					encs[c][string(key)] = encode(v)
				}
			}
			b := &xblock{chain: common.ChainID(c + 1), height: heights[c], props: props(14), state: models[c].clone(), enc: map[string][]byte{}, main: m, pos: len(m.packed)}
			for k, v := range encs[c] {
				b.enc[k] = v
			}
			heights[c]++
			b.props[stateProp] = mustRoot(live[c])
			w.m.inject = inj
			b.t = w.open(b.props[stateProp])
			b.seal()
			m.packed = append(m.packed, b)
		}
		m.props[hdsProp] = refMerkle(m.summaries(), true)
		m.seal()
		blocks[id(0, m.height)] = m
		mains = append(mains, m)
		hm.add(m.hash)
		roots = append(roots, hm.root())
		if err := hist.Append(uint64(m.height), cp(m.hash)); err != nil {
			fail("append-error", "%v", err)
		}
		confirmed = len(roots)
		for _, b := range m.packed {
			blocks[id(b.chain, b.height)] = b
			all = append(all, b)
		}
		ev("main block %d with %d packaged, root %x", m.height, len(m.packed), roots[len(roots)-1][:4])
	}
	for i := op([]int{4, 8, 20}[n("cfg", 3)]); i >= 0; i-- {
		build()
	}
	w.m.inject = true
	var wire []*claim
	accepted, bad, made := 0, 0, 0
	produce := func() {
		b := all[op(len(all))]
		lo := confirmed - 1
		x := &claim{kind: op(3), chain: b.chain, height: b.height, intact: true, mainH: b.main.height}
		var chain trie.ProofChain
		var leaf []byte // what the value of the first proof is
		switch x.kind {
		case 0:
			x.index = op(len(b.props))
			x.val = b.props[x.index]
			chain = append(chain, b.prove(x.index))
			leaf = x.val
		case 1:
			x.key = keys[op(len(keys))]
			if len(x.key) == 0 {
				return
			}
			f0 := w.m.fired
			ok, c, err := b.t.GetExistenceProof(x.key)
			if err != nil {
				if w.m.fired == f0 {
					fail("existence-error", "GetExistenceProof(%x): %v", x.key, err)
				}
				return
			}
			if len(b.state) == 0 { // there is no root node to prove anything with
				return
			}
			x.val, x.found = b.enc[string(x.key)]
			if ok != x.found {
				fail("existence-answer", "GetExistenceProof(%x) = %t, the state holds it: %t", x.key, ok, x.found)
			}
			x.n = len(c)
			x.index = stateProp
			chain = append(append(chain, c...), b.prove(stateProp))
		case 2:
			m := b.main
			x.chain, x.height = 0, m.height
			x.index = op(len(m.props))
			x.val = m.props[x.index]
			chain = append(chain, m.prove(x.index))
			leaf = x.val
		}
		m := b.main
		if x.kind != 2 {
			root, mp := merkleList(m.summaries(), b.pos)
			if !eq(root, m.props[hdsProp]) {
				fail("merkle-root", "the root of %d summaries is %x, computed as %x", len(m.packed), m.props[hdsProp], root)
			}
			s := keccak(posBytes(b.chain, b.height))
			chain = append(chain, trie.NewHdsSummaryProof(common.BytesToHashP(s), mp), m.prove(hdsProp))
		}
		v, hc, ok := hist.GetProof(uint64(m.height))
		hi := len(roots)
		if !ok || !eq(v, m.hash) {
			fail("proof-answer", "the history's GetProof(%d) = %x, %t; the block is %x", m.height, v, ok, m.hash)
		}
		chain = append(chain, hc...)
		// which of the roots of this time is it?
		var got []byte
		var err error
		if x.kind == 1 {
			got, err = chain.ExistenceHash()
		} else {
			got, err = chain.Proof(common.BytesToHash(leaf))
		}
		x.root = -1
		for i := lo; i < hi; i++ {
			if eq(roots[i], got) {
				x.root = i
			}
		}
		if x.root < 0 {
			fail("proof-incomplete", "the composed proof of %s leads to %x, %v, which was no root between its call (%d) and its end (%d)\n  %s", x, got, err, lo, hi, chain)
		}
		if x.kind != 1 {
			views(chain, leaf, got)
		}
		x.proof = encodeChain(chain)
		wire = append(wire, x)
		made++
		ev("message %d: %s", len(wire)-1, x)
	}
	receive := func() {
		if len(wire) == 0 {
			return
		}
		x := *wire[op(len(wire))]
		if zzsim.Chance("fault", 1, 8) {
			stat("fault.drop")
			return
		}
		other := *wire[n("fault", len(wire))]
		if zzsim.Chance("fault", mis, 100) {
			stat("fault.misdelivered")
			x.intact = false
			switch n("fault", 7) {
			case 0:
				x.chain, x.height = other.chain, other.height
			case 1:
				x.index = other.index
			case 2:
				x.val, x.found = other.val, other.found
			case 3:
				x.key = keys[n("fault", len(keys))]
			case 4:
				x.mainH = other.mainH
			case 5:
				x.height++
			case 6:
				p := x.proof
				x = other
				x.proof, x.intact = p, false
			}
		}
		if zzsim.Chance("fault", mis, 100) {
			stat("fault.stale_or_early")
			x.root, x.intact = n("fault", len(roots)), false
		}
		if zzsim.Chance("fault", corrupt, 100) {
			stat("fault.corrupt_byte")
			x.intact = false
			x.proof = flipByte(x.proof)
		}
		chain, err := decodeChain(x.proof)
		if err != nil {
			if x.intact {
				fail("proof-codec", "decoding an intact proof: %v", err)
			}
			return
		}
		if zzsim.Chance("fault", byz, 100) {
			stat("fault.altered_proof")
			x.intact = false
			o, _ := decodeChain(other.proof)
			orig := chain
			chain = alter(chain, o)
			if e1, e2 := encodeChain(orig), encodeChain(chain); chain.Equal(orig) && !eq(e1, e2) {
				fail("proof-equal", "two proof chains are equal and encode differently\n  %s\n  %s", orig, chain)
			}
			if zzsim.Chance("fault", 1, 3) && x.n > 0 {
				x.n = n("fault", len(chain)+1)
			}
		}
		if !x.intact {
			bad++
		}
		for _, p := range chain {
			if p != nil && opChance(1, 3) {
				predicates(p, x.chain, x.height, x.index)
			}
		}
		ok := x.accept(chain, roots[x.root])
		ev("received %s intact=%t -> %t", &x, x.intact, ok)
		if !ok {
			if x.intact {
				fail("proof-incomplete", "the composed proof of %s is refused\n  %s", &x, chain)
			}
			return
		}
		accepted++
		b := blocks[id(x.chain, x.height)]
		truth := ""
		switch {
		case b == nil:
			truth = "there is no such block"
		case x.mainH >= common.Height(x.root+1):
			truth = "the main block is newer than the root"
		case x.kind == 1:
			v, has := b.enc[string(x.key)]
			if has != x.found || has && !eq(v, x.val) {
				truth = fmt.Sprintf("the state holds %x: %t, %x", x.key, has, v)
			}
		case x.index >= len(b.props) || !eq(b.props[x.index], x.val):
			truth = "the property is another one"
		}
		if truth != "" {
			fail("proof-unsound", "%s was accepted, but %s\n  %s", &x, truth, chain)
		}
	}
	nt := 1 + op(3)
	var ts []*zzsim.Task
	for c := 0; c < nt; c++ {
		c := c
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("peer%d", c), 1, func() {
			for i := 0; more(14, 15) && i < 30; i++ {
				switch {
				case c == 1 && opChance(1, 4) && len(roots) < 60:
					build()
				case opChance(2, 5):
					produce()
				default:
					receive()
				}
			}
		}))
	}
	zzsim.Join(ts...)
	if accepted > 0 && bad > 0 {
		r.Nontrivial()
	}
}

// accept is what a receiver that trusts only the root checks.
func (x *claim) accept(chain trie.ProofChain, root []byte) bool {
	np := x.n
	if x.kind != 1 {
		np = 0
	}
	rest := 3
	if x.kind == 2 {
		rest = 1
	}
	if len(chain) < np+rest+1 || x.kind == 1 && np == 0 {
		return false
	}
	p := chain[np:]
	i := x.index
	if x.kind == 1 {
		i = stateProp
	}
	if !p[0].IsHeaderOf(x.chain, x.height) || !isProp(p[0], i) {
		return false
	}
	if x.kind != 2 {
		if !p[1].IsHdsSummaryOf(x.chain, x.height) || !p[2].IsHeaderOf(0, x.mainH) || !isProp(p[2], hdsProp) {
			return false
		}
	}
	if x.kind == 2 && x.mainH != x.height {
		return false
	}
	if p[0].IsHdsSummaryOf(x.chain, x.height) || x.kind != 2 && p[1].IsHeaderOf(x.chain, x.height) {
		fail("proof-type", "a header property is a summary, or a summary a header property: %s", chain)
	}
	if p[rest:].BigKey().Cmp(new(big.Int).SetUint64(uint64(x.mainH))) != 0 {
		return false
	}
	if x.kind != 1 {
		if len(x.val) != 32 {
			return false
		}
		got, err := (trie.Proof{ToBeProof: common.BytesToHashP(x.val), Proofs: chain}).Proof()
		return err == nil && eq(got, root)
	}
	got, err := chain.ExistenceHash()
	if err != nil || !eq(got, root) {
		return false
	}
	has, err := chain[:np].IsExist(x.key)
	if err != nil || has != x.found {
		return false
	}
	var nibs []byte
	for _, k := range x.key {
		nibs = append(nibs, k>>4, k&15)
	}
	vh, err := chain[:np].Exist(nibs)
	if err != nil || (vh != nil) != has {
		fail("existence-view", "IsExist(%x) = %t, Exist = %v, %v", x.key, has, vh, err)
	}
	return !has || eq(vh[:], keccak(x.val))
}

// predicates: a proof node says of itself what its type and the hash it binds say.
func predicates(p *trie.NodeProof, c common.ChainID, h common.Height, idx int) {
	q := p.Clone()
	switch op(4) {
	case 0:
		q.ValueHash = common.BytesToHashP(keccak(posBytes(c, h)))
	case 1:
		q.ValueHash = common.BytesToHashP(keccak(append(posBytes(c, h), byte(idx))))
	}
	if opChance(1, 2) {
		q.PType = []trie.ProofType{propType(idx), propType(idx), trie.ProofHdsSummary, trie.ProofValue, trie.ProofExistence, trie.ProofMerkleOnly, trie.ProofType(op(256))}[op(7)]
	}
	switch op(4) {
	case 0:
		idx = op(130)
	case 1:
		h++
	case 2:
		c = common.ChainID(op(4))
	}
	prop := -1
	switch t := int(q.PType); {
	case t >= 0x30 && t < 0xa0:
		prop = t - 0x30
	case t >= 0x20 && t <= 0x26:
		prop = []int{12, 1, -1, 13, 16, 17, 20}[t-0x20]
	}
	pos := posBytes(c, h)
	byPos := q.ValueHash != nil && eq(q.ValueHash[:], keccak(pos))
	byIndex := prop >= 0 && q.ValueHash != nil && eq(q.ValueHash[:], keccak(append(cp(pos), byte(prop))))
	if g := q.IsHeaderOf(c, h); g != byIndex {
		fail("proof-type", "IsHeaderOf(%d, %d) of a %s is %t", c, h, q.PType, g)
	}
	if g := q.IsHeaderPropertyOf(c, h, idx); g != (prop >= 0 && prop == idx && byPos) {
		fail("proof-type", "IsHeaderPropertyOf(%d, %d, %d) of a %s is %t", c, h, idx, q.PType, g)
	}
	if g := q.IsHdsSummaryOf(c, h); g != (q.PType == trie.ProofHdsSummary && byPos) {
		fail("proof-type", "IsHdsSummaryOf(%d, %d) of a %s is %t", c, h, q.PType, g)
	}
	if q.PType.IsProofChild() != (q.PType < 16) || q.PType.IsProofValue() != (q.PType == trie.ProofValue) || q.PType.IsProofHdsSummary() != (q.PType == trie.ProofHdsSummary) ||
		q.PType.IsProofExistence() != (q.PType == trie.ProofExistence) || q.PType.IsProofMerkleOnly() != (q.PType == trie.ProofMerkleOnly) || isProp(q, idx) != (prop >= 0 && prop == idx) {
		fail("proof-type", "the kind of proof type %d is wrong", q.PType)
	}
}

func isProp(p *trie.NodeProof, i int) bool {
	k, ok := p.PType.IsProofHeaderProperty()
	return ok && k == i
}

// views: every way to use a proof chain gives the same.
func views(c trie.ProofChain, leaf, root []byte) {
	lh := common.BytesToHash(leaf)
	mp, err := c.ToMerkles()
	if err != nil {
		fail("proof-views", "ToMerkles: %v", err)
	}
	if got, err := mp.Proof(lh); err != nil || !eq(got, root) {
		fail("proof-views", "the chain leads to %x, its Merkle form to %x, %v", root, got, err)
	}
	its, err := c.ToItems()
	if err != nil || len(its) != mp.Len() {
		fail("proof-views", "ToItems gives %d items, the Merkle form %d, %v", len(its), mp.Len(), err)
	}
	h := leaf
	for i, it := range its {
		g, o, err := mp.Get(i)
		if err != nil || g != it.Val || o != it.Order {
			fail("proof-views", "item %d is %x %t, Get of the Merkle form gives %x %t %v", i, it.Val[:4], it.Order, g[:4], o, err)
		}
		if o {
			h = hpair(g[:], h)
		} else {
			h = hpair(h, g[:])
		}
	}
	if !bytes.Equal(h, root) {
		fail("proof-views", "the items lead to %x, the chain to %x", h, root)
	}
	if got, err := (trie.Proof{ToBeProof: &lh, Proofs: c.Clone()}).Proof(); err != nil || !eq(got, root) {
		fail("proof-views", "Proof leads to %x, %v, the chain to %x", got, err, root)
	}
	if !trie.VerifyProofChain(lh, c, root) || trie.VerifyProofChain(lh, c, leaf) {
		fail("proof-views", "VerifyProofChain disagrees with Proof")
	}
	if !c.Equal(c.Clone()) || c.Equal(c[1:]) {
		fail("proof-views", "Equal of a chain with its clone, or with its tail")
	}
}
