//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"time"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/ThinkiumGroup/go-common/zzsim"
	"github.com/stephenfire/go-rtl"
)

func init() {
	register(&Prop{ID: "P39", Run: runP39, Quick: 60000, QuickS: 15,
		Rule: "Non-trivial: a stream of at least two encoded values, or a trie with at least two entries, passed through the simulated connection.",
		Real: "the Serialization and Deserialization of common.MerkleProofs, trie.NodeHeader, NodeProof, ProofChain and TreeNode, trie.Trie Marshal and UnmarshalNewTrie, trie.MarshalAsMap, and the rtl library", Stub: "connections (short reads and writes, stalls, errors, truncation), the tries' stores"})
}

// simStream is the reading side of a connection.
type simStream struct {
	b       []byte
	off     int
	errAt   int // -1: never
	err     error
	idle    bool
	lost    bool // the error has been delivered
	short   int  // 0 whole reads, 1 short reads, 2 single bytes
	eofWith bool // the last bytes come with io.EOF
}

func newStream(b []byte) *simStream {
	return &simStream{b: b, errAt: -1, short: zzsim.Choose("fault", 3), eofWith: zzsim.Chance("fault", 1, 4)}
}

func (s *simStream) Read(p []byte) (int, error) {
	zzsim.Point()
	if len(p) == 0 {
		return 0, nil
	}
	if s.short > 0 && zzsim.Chance("fault", 1, 20) {
		stat("fault.slow_read")
		zzsim.Sleep(50 * time.Millisecond)
	}
	end := len(s.b)
	if s.errAt >= 0 {
		end = s.errAt
	}
	k := len(p)
	if s.short == 2 {
		k = 1
	} else if s.short == 1 && k > 1 && zzsim.Chance("fault", 1, 2) {
		k = 1 + zzsim.Choose("fault", k-1)
	}
	if s.short > 0 && !s.idle && zzsim.Chance("fault", 1, 30) {
		s.idle = true
		stat("fault.empty_read")
		return 0, nil
	}
	s.idle = false
	if k < len(p) {
		stat("fault.short_read")
	}
	if k > end-s.off {
		k = end - s.off
	}
	copy(p, s.b[s.off:s.off+k])
	s.off += k
	if s.off == end {
		if s.errAt >= 0 {
			if k == 0 || zzsim.Chance("fault", 1, 2) {
				s.lost = true
				return k, s.err
			}
		} else if k == 0 || s.eofWith {
			return k, io.EOF
		}
	}
	return k, nil
}

// simSink is the writing side.
type simSink struct {
	b      []byte
	errAt  int
	failed bool
}

func (s *simSink) Write(p []byte) (int, error) {
	zzsim.Point()
	keep := cp(p)
	if zzsim.Chance("fault", 1, 40) {
		stat("fault.slow_write")
		zzsim.Sleep(50 * time.Millisecond)
	}
	if !bytes.Equal(keep, p) {
		fail("buffer-reuse", "the bytes changed while they were written")
	}
	if s.errAt >= 0 && len(s.b)+len(p) > s.errAt {
		k := s.errAt - len(s.b)
		s.b = append(s.b, p[:k]...)
		s.failed = true
		stat("fault.write_error")
		return k, errInjected
	}
	s.b = append(s.b, p...)
	return len(p), nil
}

func hashOf(k int) (h common.Hash) {
	for i := range h {
		h[i] = byte(k*7 + i*k)
	}
	h[0] = byte(k)
	return
}

func genMerkle() *common.MerkleProofs {
	if opChance(1, 8) {
		return nil
	}
	mp := common.NewMerkleProofs()
	for i, l := 0, op(7); i < l; i++ {
		mp.Append(hashOf(op(3)), opChance(1, 2))
	}
	if opChance(1, 3) && len(mp.Hashs) > 0 { // real proofs
		var hs [][]byte
		for i, l := 0, 2+op(14); i < l; i++ {
			h := hashOf(i)
			hs = append(hs, h[:])
		}
		mp = common.NewMerkleProofs()
		if _, err := common.MerkleHashComplete(hs, op(len(hs)), mp); err != nil {
			fail("harness", "%v", err)
		}
	}
	return mp
}

func mpString(p *common.MerkleProofs) string {
	if p == nil {
		return "nil"
	}
	s := ""
	for _, h := range p.Hashs {
		s += fmt.Sprintf("%x,", h[:])
	}
	paths := p.Paths
	if paths == nil {
		paths = new(big.Int)
	}
	return s + paths.Text(16) + fmt.Sprintf(" %v", []common.MoreTime(p.Repeats))
}

func genHeader() trie.NodeHeader {
	h := trie.NodeHeader{NT: trie.NodeType(op(8))}
	if h.NT.HasPrefix() {
		h.KeyString = make([]byte, 1+op(70))
		for i := range h.KeyString {
			h.KeyString[i] = byte(op(256))
		}
	}
	if h.NT.HasChildren() {
		h.ChildrenFlag[0] = byte(1 + op(255))
		h.ChildrenFlag[1] = byte(op(256))
	}
	return h
}

func genNodeProof() *trie.NodeProof {
	if opChance(1, 10) {
		return nil
	}
	p := &trie.NodeProof{PType: trie.ProofType(op(256)), Header: genHeader(), ChildProofs: genMerkle()}
	if opChance(1, 2) {
		h := hashOf(op(9))
		p.ValueHash = &h
	}
	return p
}

func npString(p *trie.NodeProof) string {
	if p == nil {
		return "nil"
	}
	v := "nil"
	if p.ValueHash != nil {
		v = fmt.Sprintf("%x", p.ValueHash[:])
	}
	return fmt.Sprintf("{%d %s %s %s}", p.PType, hdString(&p.Header), v, mpString(p.ChildProofs))
}

func hdString(h *trie.NodeHeader) string {
	return fmt.Sprintf("%d %x %x", h.NT, h.KeyString, h.ChildrenFlag)
}

// sval is one value of a stream.
type sval struct {
	kind  string
	want  string
	write func(w io.Writer) error
	read  func(r io.Reader) (string, error)
}

func genSval(nodes []*storedNode) *sval {
	direct := opChance(1, 2)
	switch k := op(5); {
	case k == 0 || k == 1:
		mp := genMerkle()
		v := &sval{kind: "MerkleProofs", want: mpString(mp)}
		if direct {
			v.kind = "MerkleProofs direct"
		}
		v.write = func(w io.Writer) error {
			if direct {
				return mp.Serialization(w)
			}
			return rtl.Encode(mp, w)
		}
		v.read = func(r io.Reader) (string, error) {
			if direct {
				g := common.NewMerkleProofs()
				isNil, err := g.Deserialization(r)
				if isNil {
					g = nil
				}
				return mpString(g), err
			}
			var g *common.MerkleProofs
			err := rtl.Decode(r, &g)
			return mpString(g), err
		}
		return v
	case k == 2:
		h := genHeader()
		v := &sval{kind: "NodeHeader", want: hdString(&h)}
		v.write = func(w io.Writer) error {
			if direct {
				return h.Serialization(w)
			}
			return rtl.Encode(&h, w)
		}
		v.read = func(r io.Reader) (string, error) {
			g := new(trie.NodeHeader)
			if direct {
				_, err := g.Deserialization(r)
				return hdString(g), err
			}
			err := rtl.Decode(r, g)
			return hdString(g), err
		}
		return v
	case k == 3 && op(8) == 7:
		v := &sval{kind: "nil TreeNode", want: "nil"}
		v.write = func(w io.Writer) error { return (*trie.TreeNode)(nil).Serialization(w) }
		v.read = func(r io.Reader) (string, error) {
			isNil, err := trie.NewTreeNode().Deserialization(r)
			if err == nil && isNil {
				return "nil", nil
			}
			return "not nil", err
		}
		return v
	case k == 3 && len(nodes) > 0:
		b := nodes[op(len(nodes))]
		v := &sval{kind: "TreeNode", want: b.String()}
		v.write = func(w io.Writer) error {
			if direct {
				return b.node().Serialization(w)
			}
			return rtl.Encode(b.node(), w)
		}
		v.read = func(r io.Reader) (string, error) {
			g := trie.NewTreeNode()
			var err error
			if direct {
				_, err = g.Deserialization(r)
			} else {
				err = rtl.Decode(r, g)
			}
			if err != nil {
				return "", err
			}
			return tnString(g), nil
		}
		return v
	default:
		var c trie.ProofChain
		want := ""
		for i, l := 0, 1+op(4); i < l; i++ {
			p := genNodeProof()
			c = append(c, p)
			want += npString(p)
		}
		v := &sval{kind: "ProofChain", want: want}
		v.write = func(w io.Writer) error { return rtl.Encode(c, w) }
		v.read = func(r io.Reader) (string, error) {
			var g trie.ProofChain
			err := rtl.Decode(r, &g)
			s := ""
			for _, p := range g {
				s += npString(p)
			}
			return s, err
		}
		return v
	}
}

// storedNode has the layout of a stored history tree node.
type storedNode struct {
	IsLeaf          bool
	NeededBranchs   map[string][]byte
	ChildrenOrLeafs [16][]byte
}

func (s *storedNode) String() string {
	o := fmt.Sprint(s.IsLeaf)
	for _, k := range sortedKeys(s.NeededBranchs) {
		o += fmt.Sprintf(" %x=%x", k, s.NeededBranchs[k])
	}
	for i, c := range s.ChildrenOrLeafs {
		o += fmt.Sprintf(" %d:%x", i, c)
	}
	return o
}

// node makes a TreeNode from its documented encoding: a flag, the branches, the descendants.
func (s *storedNode) node() *trie.TreeNode {
	var buf bytes.Buffer
	if s.IsLeaf {
		buf.WriteByte(1)
	} else {
		buf.WriteByte(0)
	}
	if err := rtl.Encode(s.NeededBranchs, &buf); err != nil {
		fail("harness", "rtl.Encode: %v", err)
	}
	if err := rtl.Encode(s.ChildrenOrLeafs, &buf); err != nil {
		fail("harness", "rtl.Encode: %v", err)
	}
	n := trie.NewTreeNode()
	isNil, err := n.Deserialization(bytes.NewReader(buf.Bytes()))
	if err != nil || isNil {
		fail("stream-decode", "a TreeNode is read as (nil=%v, %v) from its own encoding %x", isNil, err, buf.Bytes())
	}
	if g := tnString(n); g != s.String() {
		fail("stream-value", "a TreeNode %s is read from its encoding as %s", s, g)
	}
	return n
}

func tnString(n *trie.TreeNode) string {
	s := &storedNode{IsLeaf: n.IsLeaf(), NeededBranchs: n.Branchs}
	for i := range s.ChildrenOrLeafs {
		h, err := n.LeafHash(i)
		if err != nil {
			return fmt.Sprintf("LeafHash(%d): %v", i, err)
		}
		s.ChildrenOrLeafs[i] = h
	}
	return s.String()
}

// treeNodes returns the stored nodes of a history tree.
func treeNodes() (r []*storedNode) {
	m := newMedia()
	t, err := trie.NewHistoryTree(&MediaDB{m}, []byte("h"), nil, true)
	if err != nil {
		fail("harness", "NewHistoryTree: %v", err)
	}
	for i, l := 0, op(70); i < l; i++ {
		h := hashOf(i)
		if err := t.Append(uint64(i), h[:]); err != nil {
			fail("harness", "Append(%d): %v", i, err)
		}
	}
	if err := t.Commit(); err != nil {
		fail("harness", "Commit: %v", err)
	}
	for _, k := range sortedKeys(m.img) {
		v := m.img[k]
		if len(v) == 0 || v[0] != 0xff {
			continue
		}
		s := new(storedNode)
		if err := rtl.Decode(bytes.NewReader(v[1:]), s); err != nil {
			continue
		}
		// at most one branch: the order in which a map is written is not the simulator's
		for i, b := range sortedKeys(s.NeededBranchs) {
			if i > 0 {
				delete(s.NeededBranchs, b)
			}
		}
		r = append(r, s)
	}
	return
}

func runP39(r *R) {
	if zzsim.Chance("cfg", 1, 2) {
		p39tries(r)
		return
	}
	nodes := treeNodes()
	ntask := 1 + op(3)
	var ts []*zzsim.Task
	total := 0
	for c := 0; c < ntask; c++ {
		var vals []*sval
		for i, l := 0, 1+op(5); i < l; i++ {
			vals = append(vals, genSval(nodes))
			total++
		}
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("conn%d", c), 1, func() { p39conn(vals) }))
	}
	if total >= 2 {
		r.Nontrivial()
	}
	zzsim.Join(ts...)
}

func p39conn(vals []*sval) {
	var full []byte
	var ends []int
	for _, v := range vals {
		s := &simSink{errAt: -1}
		if err := v.write(s); err != nil {
			fail("stream-write", "writing a %s: %v", v.kind, err)
		}
		full = append(full, s.b...)
		ends = append(ends, len(full))
	}
	// a failing writer
	if zzsim.Chance("fault", 1, 3) {
		i := op(len(vals))
		start := 0
		if i > 0 {
			start = ends[i-1]
		}
		one := full[start:ends[i]]
		if len(one) > 0 {
			s := &simSink{errAt: zzsim.Choose("fault", len(one))}
			err := vals[i].write(s)
			ev("failing write of a %s after %d of %d bytes: %v", vals[i].kind, s.errAt, len(one), err)
			// (the rtl library drops a write error of an array or map header: not this repository's code)
			if s.failed && err == nil && vals[i].kind != "ProofChain" && (vals[i].kind != "TreeNode" || s.errAt == 0) {
				fail("stream-write-error", "writing a %s: the connection failed after %d of %d bytes and no error was reported", vals[i].kind, s.errAt, len(one))
			}
			if !bytes.HasPrefix(one, s.b) {
				fail("stream-write", "writing a %s twice gives %x and %x", vals[i].kind, one, s.b)
			}
		}
	}
	st := newStream(full)
	trunc := -1
	switch zzsim.Choose("fault", 4) {
	case 0:
		trunc = zzsim.Choose("fault", len(full)+1)
		st.b = full[:trunc]
		stat("fault.truncated")
	case 1:
		st.errAt = zzsim.Choose("fault", len(full)+1)
		st.err = errInjected
		trunc = st.errAt
		stat("fault.read_error")
	}
	for i, v := range vals {
		got, err := v.read(st)
		ev("read %s -> %v", v.kind, err)
		if trunc >= 0 && ends[i] > trunc {
			if err == nil {
				fail("stream-read-cut", "the connection ended after %d bytes, inside a %s (bytes %d to %d), and reading it succeeded with %s; written %s",
					trunc, v.kind, ends[i]-len(full), ends[i], got, v.want)
			}
			return
		}
		if err != nil {
			if st.lost && errors.Is(err, errInjected) {
				return
			}
			fail("stream-read", "reading a %s, whole on the connection, failed: %v", v.kind, err)
		}
		if got != v.want {
			fail("stream-value", "a %s arrived as %s; written %s", v.kind, got, v.want)
		}
	}
}

// p39tries marshals tries that are in use, over failing connections and stores.
func p39tries(r *R) {
	w := newTWorld()
	asMap := zzsim.Chance("cfg", 1, 2)
	if !asMap {
		w.raw = false
	}
	keys := trieKeys()
	t := w.open(nil)
	init := model{}
	for i := op(2*len(keys)) + 1; i > 0; i-- {
		k := keys[op(len(keys))]
		if opChance(1, 5) {
			t.Delete(k)
			delete(init, string(k))
			continue
		}
		v, s := w.newVal(k)
		t.Put(k, v)
		init[string(k)] = s
	}
	switch op(4) {
	case 1:
		t.Commit()
		t.Collapse()
	case 2, 3:
		t = w.open(mustRoot(t))
	}
	if len(init) >= 2 {
		r.Nontrivial()
	}
	faults := zzsim.Chance("cfg", 1, 2)
	h := &History{}
	var ts []*zzsim.Task
	if !faults {
		for c := 0; c < op(3); c++ {
			c := c
			ts = append(ts, zzsim.Spawn(fmt.Sprintf("writer%d", c), 1, func() {
				for i := 0; more(3, 4) && i < 4; i++ {
					k := keys[op(len(keys))]
					v, s := w.newVal(k)
					o := h.Call(c, "put", putIn(k, s))
					h.Return(o, fmt.Sprint(t.Put(k, v)))
					if opChance(1, 4) {
						t.Commit()
					}
				}
			}))
		}
	}
	var it trie.ITrie = t
	if zzsim.Chance("cfg", 1, 4) {
		it = trie.NewSyncTrie(t)
	}
	nm := 1 + op(2)
	for c := 0; c < nm; c++ {
		c := c + 10
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("sender%d", c), 1, func() {
			sink := &simSink{errAt: -1}
			if faults && zzsim.Chance("fault", 1, 4) {
				sink.errAt = zzsim.Choose("fault", 200)
			}
			if faults && nm == 1 && zzsim.Chance("fault", 3, 4) {
				w.m.loadErr, w.m.budget, w.m.inject = []int{20, 100, 400}[zzsim.Choose("fault", 3)], 1, true
			}
			fired := w.m.fired
			o := h.Call(c, "root", "")
			var err error
			if asMap {
				err = trie.MarshalAsMap(it, sink)
			} else {
				err = t.Marshal(sink)
			}
			w.m.inject = false
			fired = w.m.fired - fired
			ev("marshalled %d bytes, %v", len(sink.b), err)
			if err != nil {
				if !sink.failed && fired == 0 {
					fail("marshal-error", "marshalling failed: %v", err)
				}
				h.drop(o)
				return
			}
			if sink.failed {
				fail("marshal-write-error", "the connection failed and marshalling reported success")
			}
			h.Return(o, "")
			st := newStream(sink.b)
			rerr := false
			if faults && zzsim.Chance("fault", 1, 4) {
				st.errAt, st.err = zzsim.Choose("fault", len(sink.b)+1), errInjected
				rerr = true
				stat("fault.read_error")
			}
			m := model{}
			if asMap {
				vr := rtl.NewValueReader(st, 0)
				for vr.HasMore() {
					var k []byte
					if err = rtl.Decode(vr, &k); err == io.EOF {
						err = nil
						break
					}
					var v interface{}
					if w.raw {
						var b []byte
						err = rtl.Decode(vr, &b)
						v = b
					} else {
						x := new(TV)
						err = rtl.Decode(vr, &x)
						v = x
					}
					if err != nil {
						break
					}
					if _, dup := m[string(k)]; dup {
						fail("marshal-twice", "key %x is in the stream twice", k)
					}
					m[string(k)] = w.vstr(v)
				}
			} else {
				var nt *trie.Trie
				nt, err = t.UnmarshalNewTrie(st, tvType, func(x interface{}) []byte { return x.(*TV).K })
				if err == nil {
					for _, p := range w.drain(nt.ValueIterator()) {
						m[p.k] = p.v
					}
				}
			}
			if rerr {
				if err == nil {
					fail("unmarshal-read-error", "the connection failed after %d of %d bytes and no error was reported", st.errAt, len(sink.b))
				}
				h.drop(o)
				return
			}
			if err != nil {
				fail("unmarshal-error", "reading a marshalled trie: %v", err)
			}
			o.Out = m.String()
			if fired > 0 {
				stat("marshal.over_fault")
			}
		}))
	}
	zzsim.Join(ts...)
	checkLin("marshal-content", h, kvState(init), kvStep)
}

var _ db.Database
