//go:build go1.22

package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"hash"
	"math/big"
	"sort"
	"strings"
	"time"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/zzsim"
	"github.com/stephenfire/go-rtl"
	"golang.org/x/crypto/ripemd160"
	"golang.org/x/crypto/sha3"
)

// ---------------------------------------------------------------- P45: every node derives the same committee

func init() {
	register(&Prop{ID: "P45", Run: runP45, Quick: 40000, QuickS: 16,
		Rule: "Non-trivial: at least two nodes derived a committee of at least two members, and messages were lost, repeated, reordered or damaged, or a node crashed.",
		Real: "node id lists, byte list and hex helpers, merkle lists of values, object hashing, version and proposal arithmetic, displays of package common", Stub: "the network, the storage of the nodes, the hash provider (keccak of the same library with a scheduling point at every write), goroutine scheduling"})
}

// slowHash is the system hash with a scheduling point at every step.
type slowHash struct{ hash.Hash }

func (h slowHash) Write(b []byte) (int, error) { zzsim.Point(); return h.Hash.Write(b) }
func (h slowHash) Sum(b []byte) []byte         { zzsim.Point(); return h.Hash.Sum(b) }

type slowProvider struct{}

var sysProvider = common.SystemHashProvider

func (slowProvider) Hasher() hash.Hash { return slowHash{sha3.NewLegacyKeccak256()} }

type idList []string // hex of the ids

func refIDs(ids common.NodeIDs) (r idList) {
	for _, id := range ids {
		r = append(r, hex.EncodeToString(id[:]))
	}
	return
}

func (l idList) has(s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (l idList) sorted() idList {
	r := append(idList{}, l...)
	sort.Strings(r)
	return r
}

func (l idList) uniq() (r idList) {
	for _, x := range l.sorted() {
		if len(r) == 0 || r[len(r)-1] != x {
			r = append(r, x)
		}
	}
	return
}

func (l idList) String() string {
	var s []string
	for _, x := range l {
		s = append(s, x[:4]+".."+x[120:])
	}
	return "[" + strings.Join(s, " ") + "]"
}

// settings: one change of the list of candidates
type cset struct {
	id   int
	kind int // 0 add, 1 remove, 2 replace
	ids  common.NodeIDs
	text string
}

func (o *cset) String() string {
	return fmt.Sprintf("%s %s", []string{"add", "remove", "replace by"}[o.kind], refIDs(o.ids))
}

func (o *cset) model(l idList) idList {
	x := refIDs(o.ids)
	switch o.kind {
	case 0:
		return append(append(idList{}, l...), x...).uniq()
	case 1:
		var r idList
		for _, s := range l {
			if !x.has(s) {
				r = append(r, s)
			}
		}
		return r
	}
	return x.uniq()
}

// the forms in which lists travel
func packList(ids common.NodeIDs, way int) []byte {
	switch way {
	case 0:
		return common.PackNodeIdsToBytes(ids)
	case 1, 2:
		return common.ConcatenateBytes(ids.ToBytesSlice())
	}
	var s []string
	for i := range ids {
		s = append(s, common.Bytes2Hex(ids[i].Bytes()))
	}
	return []byte(strings.Join(s, ","))
}

func unpackList(b []byte, way int) (common.NodeIDs, error) {
	switch way {
	case 0:
		ids, err := common.ParseBytesToNodeIds(b)
		return ids, err
	case 1:
		bs, err := common.ParseBytesToNodeIdBytes(b)
		if err != nil {
			return nil, err
		}
		return common.ByteSlicesToNodeIDs(bs)
	case 2:
		bs, err := common.SplitBytes(b, common.NodeIDBytes)
		if err != nil {
			return nil, err
		}
		// the pieces are copies: what is done to one of them reaches no other
		if len(bs) > 0 {
			own, err := common.SplitBytes(b, common.NodeIDBytes)
			if err != nil || len(own) != len(bs) {
				fail("split-bytes", "%x: %d pieces, then %d (%v)", b, len(bs), len(own), err)
			}
			whole := string(b)
			i := op(len(own))
			p := own[i]
			for j := range p {
				p[j] ^= 0xff
			}
			p = append(p, 0xee)
			_ = p
			if string(b) != whole {
				fail("split-bytes", "changing piece %d changed the input to %x", i, b)
			}
			for j := range own {
				if j != i && !bytes.Equal(own[j], bs[j]) {
					fail("split-bytes", "changing piece %d changed piece %d", i, j)
				}
			}
		}
		return common.ByteSlicesToNodeIDs(bs)
	}
	var s []string
	if len(b) > 0 {
		s = strings.Split(string(b), ",")
	}
	if way == 3 {
		return common.StringsToNodeIDs(s)
	}
	var ids common.NodeIDs
	for _, x := range s {
		if err := ids.AppendByHex(x); err != nil {
			return nil, err
		}
	}
	return ids, nil
}

// a message to a node
type cmsg struct {
	set     int // -1: a registration
	reg     int
	way     int
	body    []byte
	sum     []byte // hash of the body
	damaged int    // 0 no, 1 a byte changed, 2 a length or digit that no list has
	proof   []byte
	val     []byte
}

// cnode is a node.
type cnode struct {
	name  string
	value []byte // the setting as stored
	next  int
	regs  [][]byte // registered ids in the order of their acceptance
	seen  map[int]bool
	done  bool
}

func (c *cnode) ids() common.NodeIDs {
	l, err := common.ParseBytesToNodeIds(c.value)
	if err != nil {
		fail("committee-list", "%s: its own list of %d bytes: %v", c.name, len(c.value), err)
	}
	return l
}

// registry: the records of one epoch and their root.
type registry struct {
	way    int
	recs   [][]byte // id, or empty
	values []regVal
	ptrs   []*common.NodeID
	hashes [][]byte
	root   []byte
	proofs [][]byte
}

// regVal is a record without a hash of its own
type regVal struct {
	ID  []byte
	Num uint64
	Ver common.Version
}

type badVal struct {
	Num uint64
	C   chan int
}

func (g *registry) leaves() [][]byte {
	var r [][]byte
	for i := range g.recs {
		switch {
		case g.way < 2 && len(g.recs[i]) == 0:
			r = append(r, cp(common.NilHashSlice))
		case g.way < 3:
			r = append(r, keccak(g.record(i)))
		default:
			r = append(r, keccak(g.ptrs[i][:]))
		}
	}
	return r
}

// record is what is hashed for record i.
func (g *registry) record(i int) []byte {
	if g.way == 2 {
		b, err := rtl.Marshal(g.values[i])
		if err != nil {
			fail("committee-hash", "%v", err)
		}
		return b
	}
	return g.recs[i]
}

func (g *registry) build(i int, mp *common.MerkleProofs) ([]byte, error) {
	switch g.way {
	case 0:
		return common.SlicesMerkleHash(g.recs, i, mp)
	case 1:
		return common.SlicesMerkleHashComplete(g.recs, i, mp)
	case 2:
		return common.ValuesMerkleHash(g.values, i, mp)
	}
	return common.ValuesMerkleTreeHash(g.ptrs, i, mp)
}

func (g *registry) text() string {
	return fmt.Sprintf("%x %v %x", g.recs, g.values, g.ptrs)
}

func (g *registry) id(i int) []byte { return g.ptrs[i][:] }

func genCands(k int) (r common.NodeIDs) {
	for i := 0; i < k; i++ {
		var id common.NodeID
		switch op(4) {
		case 0:
			id[common.NodeIDBytes-1] = byte(i + 1)
		case 1:
			id[0] = byte(i + 1)
		case 2:
			copy(id[:], bytes.Repeat([]byte{byte(0x30 + i)}, common.NodeIDBytes))
		default:
			for j := range id {
				id[j] = byte(op(256))
				if j > 4 {
					break
				}
			}
			id[63] = byte(i)
		}
		r = append(r, id)
	}
	return
}

// checkIDs: every question about a list is answered by its members.
func checkIDs(who string, l common.NodeIDs, want idList, all common.NodeIDs) {
	got := refIDs(l)
	if got.String() != want.String() || fmt.Sprint([]string(got)) != fmt.Sprint([]string(want)) {
		fail("committee-list", "%s has the list %s, expected %s", who, got, want)
	}
	m := l.ToMap()
	var hs []common.Hash
	for _, id := range l {
		hs = append(hs, id.Hash())
	}
	for i := range all {
		in := want.has(hex.EncodeToString(all[i][:]))
		_, im := m[all[i]]
		if l.Contains(all[i]) != in || im != in || common.IsNodeIDIn(hs, all[i]) != in || l.IsIn(all[i]) != in {
			fail("committee-list", "%s, list %s: Contains(%x) %t, ToMap %t, IsNodeIDIn %t, IsIn %t, expected %t", who, want, all[i][:3], l.Contains(all[i]), im, common.IsNodeIDIn(hs, all[i]), l.IsIn(all[i]), in)
		}
	}
	if len(m) != len(want) {
		fail("committee-list", "%s: ToMap of %s has %d members", who, want, len(m))
	}
	c := l.Clone()
	if !c.Equal(l) || !l.Equal(c) {
		fail("committee-list", "%s: a clone of %s differs", who, want)
	}
	if len(c) > 0 {
		i := op(len(c))
		c[i][op(common.NodeIDBytes)] ^= 1
		if c.Equal(l) || l.Equal(c) || c[:len(c)-1].Equal(l) || fmt.Sprint(refIDs(l)) != fmt.Sprint(got) {
			fail("committee-list", "%s: changing a clone of %s: equal, or the list changed", who, want)
		}
	}
	if len(l) > 0 { // an id cut short, or longer, or twice
		bs, i := l.ToBytesSlice(), op(len(l))
		switch op(3) {
		case 0:
			bs[i] = bs[i][:op(common.NodeIDBytes)]
		case 1:
			bs[i] = append(bs[i], byte(op(3)))
		case 2:
			bs = append(bs, cp(bs[i]))
		}
		if ids, err := common.ByteSlicesToNodeIDs(bs); err == nil {
			fail("committee-damaged", "%s: %x is read as the list %s", who, bs, refIDs(ids))
		}
	}
	// lists of hashes
	hc := common.CopyHashs(hs)
	if !common.HashsEquals(hc, hs) {
		fail("committee-list", "a copy of a list of hashes differs")
	}
	if len(hc) > 0 {
		hc[op(len(hc))][op(32)] ^= 1
		if common.HashsEquals(hc, hs) || common.HashsEquals(hs, hc[:len(hc)-1]) {
			fail("committee-list", "HashsEquals of different lists")
		}
		i, j := op(len(hs)), op(len(hs))
		if common.HashLess(hs[i], hs[j]) != (bytes.Compare(hs[i][:], hs[j][:]) < 0) {
			fail("committee-list", "HashLess(%x, %x)", hs[i], hs[j])
		}
	}
}

// checkPointers: lists of pointers are ordered by length, then by their elements, nil first.
func checkPointers(all common.NodeIDs) {
	gen := func() []*common.NodeID {
		if opChance(1, 8) {
			return nil
		}
		l := []*common.NodeID{}
		for k := op(4); k > 0; k-- {
			if opChance(1, 4) {
				l = append(l, nil)
			} else {
				l = append(l, all[op(len(all))].New())
			}
		}
		return l
	}
	a, b := gen(), gen()
	if opChance(1, 2) && a != nil {
		b = append([]*common.NodeID{}, a...)
		if len(b) > 0 && opChance(1, 2) {
			b[op(len(b))] = all[op(len(all))].Clone()
		}
	}
	one := func(x, y *common.NodeID) int {
		switch {
		case x == nil && y == nil:
			return 0
		case x == nil:
			return -1
		case y == nil:
			return 1
		}
		return bytes.Compare(x[:], y[:])
	}
	want := 0
	switch {
	case a == nil && b == nil:
	case a == nil:
		want = -1
	case b == nil:
		want = 1
	case len(a) != len(b):
		want = 1
		if len(a) < len(b) {
			want = -1
		}
	default:
		for i := range a {
			if want = one(a[i], b[i]); want != 0 {
				break
			}
		}
	}
	got := common.CompareSlices(a, b, func(x, y interface{}) int {
		zzsim.Point()
		if c, need := common.PointerCompare(x, y); !need {
			return c
		}
		return x.(*common.NodeID).Compare(y.(*common.NodeID))
	})
	if got != want {
		fail("committee-order", "CompareSlices(%x, %x) = %d, expected %d", a, b, got, want)
	}
	for i := -1; i <= len(a); i++ {
		for j := -1; j <= len(a); j++ {
			less, need := common.PointerSliceLess(a, i, j)
			if need {
				less = a[i].Compare(a[j]) < 0
			}
			in := i >= 0 && j >= 0 && i < len(a) && j < len(a)
			if w := in && one(a[i], a[j]) < 0; less != w {
				fail("committee-order", "element %d of %x less than %d: %t, expected %t", i, a, j, less, w)
			}
		}
	}
}

// checkSeat: the proposals of an epoch are shared out completely and evenly.
func checkSeats(size int) {
	be := int(common.BlocksInEpoch)
	sum, last := 0, -1
	for i := 0; i < size; i++ {
		p := common.CommID(i).ShouldPropose(size)
		sum += p
		if last >= 0 && (p > last || last-p > 1) || p > (be+size-1)/size || p < be/size {
			fail("committee-propose", "member %d of %d proposes %d blocks of %d, the one before %d", i, size, p, be, last)
		}
		last = p
	}
	if sum != be {
		fail("committee-propose", "%d members propose %d of %d blocks", size, sum, be)
	}
}

func checkVersion(a, b, c uint64, prev common.Version) common.Version {
	v, err := common.NewNodeVersion(a, b, c)
	if bad := a > 999 || b > 999 || c > 999; bad != (err != nil) {
		fail("committee-version", "version %d.%d.%d: %v", a, b, c, err)
	} else if bad {
		return prev
	}
	if v.Major() != a || v.Minor() != b || v.Patch() != c || v.String() != fmt.Sprintf("%d.%d.%d", a, b, c) {
		fail("committee-version", "version %d.%d.%d is %d.%d.%d, %s", a, b, c, v.Major(), v.Minor(), v.Patch(), v)
	}
	less := func(x, y [3]uint64) bool {
		for i := range x {
			if x[i] != y[i] {
				return x[i] < y[i]
			}
		}
		return false
	}
	if (prev < v) != less([3]uint64{prev.Major(), prev.Minor(), prev.Patch()}, [3]uint64{a, b, c}) {
		fail("committee-version", "order of %s and %s", prev, v)
	}
	return v
}

// checkElection: the election type of a configuration.
func checkElection() {
	for _, c := range []struct {
		name string
		t    common.ElectionType
		vrf  bool
	}{{"VRF", common.ETVrf, true}, {"MANAGED", common.ETManagedCommittee, false}} {
		t, ok := common.StringToElectionType(c.name)
		if !ok || t != c.t || t.Name() != c.name || !t.IsValid() || t.IsVrf() != c.vrf || t.IsManaged() == c.vrf || t.Exclusiveness() == c.vrf || t.RewardNeeded() != c.vrf {
			fail("committee-election", "election type %s is %d, %t", c.name, t, ok)
		}
	}
	s := []string{"", "vrf", "VRF ", "None", "FIXED"}[op(5)]
	if t, ok := common.StringToElectionType(s); ok {
		fail("committee-election", "election type %q is %d", s, t)
	}
}

// checkBits: bits of a random value that is shared out.
func checkBits(b []byte) {
	keep := cp(b)
	from, size := op(8*len(b)+3), 1+op(8*len(b)+9)
	got, err := common.SubBytes(b, from, size)
	zzsim.Point()
	var want []byte
	if from < 8*len(b) {
		if from+size > 8*len(b) {
			size = 8*len(b) - from
		}
		x := new(big.Int).SetBytes(b)
		x.Rsh(x, uint(from))
		x.And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(size)), big.NewInt(1)))
		want = wide(x, (size+7)/8)
	}
	if err != nil || !eq(got, want) {
		fail("committee-bits", "SubBytes(%x, %d, %d) = %x, %v; expected %x", b, from, size, got, err, want)
	}
	if _, err := common.SubBytes(b, -1-op(2), size); err == nil {
		fail("committee-bits", "SubBytes from a negative bit")
	}
	if _, err := common.SubBytes(b, from, -op(2)); err == nil {
		fail("committee-bits", "SubBytes of no bit")
	}
	if len(b) >= 2 {
		sh, ln := uint8(op(8)), uint8(1+op(8))
		w := (uint16(b[0]) | uint16(b[1])<<8) >> sh & (1<<ln - 1)
		if g := common.ShiftBits(b[0], b[1], sh, ln); g != byte(w) {
			fail("committee-bits", "ShiftBits(%x, %x, %d, %d) = %x, expected %x", b[0], b[1], sh, ln, g, w)
		}
		w = (uint16(b[0]) | uint16(b[1])<<8) >> sh & 0xff
		if g := common.ShiftBits(b[0], b[1], sh); g != byte(w) {
			fail("committee-bits", "ShiftBits(%x, %x, %d) = %x, expected %x", b[0], b[1], sh, g, w)
		}
	}
	// padding, reversing, hex
	l := op(2*len(b) + 2)
	right, left := common.RightPadBytes(b, l), common.LeftPadBytes(b, l)
	z := make([]byte, max(0, l-len(b)))
	if !eq(right, append(cp(b), z...)) || !eq(left, append(cp(z), b...)) {
		fail("committee-bytes", "%x padded to %d: right %x, left %x", b, l, right, left)
	}
	if r := common.ReverseBytes(common.ReverseBytes(cp(b))); !eq(r, b) {
		fail("committee-bytes", "%x reversed twice is %x", b, r)
	}
	r := common.ReverseBytes(common.CloneByteSlice(b))
	for i := range b {
		if r[i] != b[len(b)-1-i] {
			fail("committee-bytes", "%x reversed is %x", b, r)
		}
	}
	h := common.Bytes2Hex(b)
	pre := []string{"", "0x", "0X"}[op(3)]
	d, err := common.DecodeHex(pre + h)
	f := common.FromHex(pre + h)
	if err != nil || !eq(d, b) || !eq(f, b) || !eq(common.Hex2Bytes(h), b) || common.HasHexPrefix(pre+h) != (pre != "") || !common.IsHex(h) || common.IsHex("0x"+h) {
		fail("committee-hex", "%x as hex %s%s: DecodeHex %x, %v, FromHex %x", b, pre, h, d, err, f)
	}
	if len(h) > 1 {
		odd := h[1:] // one digit less
		if _, err := common.DecodeHex(pre + odd); err == nil || common.IsHex(odd) {
			fail("committee-hex", "DecodeHex of the odd %s", odd)
		}
		if g, _ := hex.DecodeString("0" + odd); !eq(common.FromHex(pre+odd), g) {
			fail("committee-hex", "FromHex(%s) = %x", pre+odd, common.FromHex(pre+odd))
		}
		i := op(len(h))
		bad := h[:i] + string("ghxX -"[op(6)]) + h[i+1:]
		if _, err := common.DecodeHex(bad); err == nil && !common.HasHexPrefix(bad) || common.IsHex(bad) {
			fail("committee-hex", "DecodeHex of %s", bad)
		}
	}
	fl := op(len(b) + 4)
	g := common.Hex2BytesFixed(h, fl)
	if w := wide(new(big.Int).SetBytes(b), len(b)+4); len(g) != fl || !eq(g, append(make([]byte, 8), w...)[8+len(w)-fl:]) {
		fail("committee-hex", "Hex2BytesFixed(%s, %d) = %x", h, fl, g)
	}
	if !eq(b, keep) {
		fail("committee-bytes", "the helpers changed %x into %x", keep, b)
	}
}

// checkHash: the hash of an object is the hash it has, or that of its encoding.
func checkHash(id common.NodeID, v regVal) {
	enc, err := rtl.Marshal(v)
	if err != nil {
		fail("committee-hash", "%v", err)
	}
	for _, c := range []struct {
		o    interface{}
		want []byte
	}{{&id, keccak(id[:])}, {v, keccak(enc)}, {nil, common.NilHashSlice}} {
		o, e1 := common.HashObject(c.o)
		h := common.EncodeHash(c.o)
		if e1 != nil || !eq(o, c.want) || !eq(h[:], c.want) {
			fail("committee-hash", "the hash of %v is %x, %v, %x; expected %x", c.o, o, e1, h, c.want)
		}
	}
	if e, err := common.EncodeAndHash(v); err != nil || !eq(e, keccak(enc)) {
		fail("committee-hash", "EncodeAndHash(%v) = %x, %v", v, e, err)
	}
	if e, err := common.EncodeAndHash(nil); err != nil || !eq(e, common.NilHashSlice) {
		fail("committee-hash", "EncodeAndHash(nil) = %x, %v", e, err)
	}
	// a part of it can be encoded, and must not be left behind
	bad := []interface{}{v.Num, badVal{v.Num, make(chan int)}}
	if e, err := common.EncodeAndHash(bad); err == nil {
		fail("committee-hash", "EncodeAndHash of a channel is %x", e)
	}
	if e, err := common.HashObject(bad); err == nil {
		fail("committee-hash", "HashObject of a channel is %x", e)
	}
	if e := common.EncodeHash(bad); e != (common.Hash{}) {
		fail("committee-hash", "EncodeHash of a channel is %x", e)
	}
	if e, err := common.HashObject(v); err != nil || !eq(e, keccak(enc)) {
		fail("committee-hash", "the hash of %v after a failure is %x, %v; expected %x", v, e, err, keccak(enc))
	}
	md := ripemd160.New()
	md.Write(v.ID)
	if r := common.HashRipemd160(v.ID); !eq(r, md.Sum(nil)) {
		fail("committee-hash", "HashRipemd160(%x) = %x", v.ID, r)
	}
	k := keccak(id[:], v.ID)
	h256, err := common.Hash256WithError(id[:], v.ID)
	hs, err2 := common.Hash256s(id[:], v.ID)
	if p := common.Hash256p(id[:], v.ID); err != nil || err2 != nil || !eq(p[:], k) || !eq(h256[:], k) || !eq(hs, k) || !eq(common.Hash256NoError(id[:], v.ID), k) {
		fail("committee-hash", "Hash256 of (%x, %x)", id[:], v.ID)
	}
	a, b := cp(k), cp(k)
	b[op(32)] ^= 1
	ha, hb := common.BytesToHashP(a), common.BytesToHashP(b)
	nilh := common.NilHash
	for _, c := range []struct {
		a, b []byte
		x, y *common.Hash
		want bool
	}{{a, b, ha, hb, false}, {a, cp(a), ha, ha.Clone(), true}, {nil, common.NilHashSlice, nil, &nilh, true}, {nil, nil, nil, nil, true}, {a, nil, ha, nil, false}, {common.NilHashSlice, b, &nilh, hb, false}} {
		if common.HashSliceEquals(c.a, c.b) != c.want || common.HashEquals(c.x, c.y) != c.want || common.HashSliceEquals(c.b, c.a) != c.want || common.HashEquals(c.y, c.x) != c.want {
			fail("committee-hash", "HashSliceEquals, HashEquals(%x, %x) is not %t", c.a, c.b, c.want)
		}
	}
}

// shown: a node can log whatever it received.
func shown(b []byte, ids common.NodeIDs) {
	first := func(x []byte, k int) string {
		if len(x) > k {
			x = x[:k]
		}
		return hex.EncodeToString(x)
	}
	check := func(what, got, want string) {
		if got != want {
			fail("committee-display", "%s is shown as %q, expected %q", what, got, want)
		}
	}
	from, k := op(4), 1+op(9)
	check(fmt.Sprintf("%x", b), fmt.Sprintf("%x", common.ForPrint(b)), first(b, 5))
	check(fmt.Sprintf("string %x", b), fmt.Sprintf("%x", common.ForPrint(string(b))), first(b, 5))
	if from < len(b) {
		check(fmt.Sprintf("%x from %d", b, from), fmt.Sprintf("%x", common.ForPrint(b, from, -1)), hex.EncodeToString(b[from:]))
		check(fmt.Sprintf("%x from %d", b, from), fmt.Sprintf("%x", common.ForPrint(&b, from)), hex.EncodeToString(b[from:]))
		check(fmt.Sprintf("%x from %d to %d", b, from, from+k), fmt.Sprintf("%x", common.ForPrint(b, from, from+k)), first(b[from:], k))
	}
	check("nothing", fmt.Sprintf("%x%x", common.ForPrint(nil), common.ForPrint([]byte(nil), 0, 3)), "")
	check("lists", common.PrintBytesSlice([][]byte{b, nil, {}, {7}}, k), "["+first(b, k)+", , , 07]")
	check("byte lists", common.IndentLevel(1).DoubleByteSlice([][]byte{b, nil}), fmt.Sprintf("[\n\t\t%x,\n\t\t,\n\t]", b))
	for i := range ids {
		id := ids[i]
		check("a node id", fmt.Sprintf("%x", common.ForPrint(id)), hex.EncodeToString(id[:5]))
		check("a node id", fmt.Sprintf("%x", common.ForPrint(&id, 0, 7)), hex.EncodeToString(id[:7]))
		check("a node id", id.String(), hex.EncodeToString(id[:5]))
	}
	w := "["
	for i := range ids {
		w += "\n\t" + hex.EncodeToString(ids[i][:]) + ","
	}
	if len(ids) > 0 {
		w += "\n"
	}
	w += "]"
	if ids == nil {
		w = "<nil>"
	}
	check("a list", ids.InfoString(0), w)
	var some []string
	for i := range ids {
		some = append(some, hex.EncodeToString(ids[i][:5]))
	}
	check("a list", common.ForPrintSliceString(ids), "["+strings.Join(some, " ")+"]")
	m := op(len(ids)+3) - 1
	if m > 0 && m < len(some) {
		some = some[:m]
	}
	check(fmt.Sprintf("%d of a list", m), common.ForPrintSliceString(ids, m), "["+strings.Join(some, " ")+"]")
	check("no list", common.ForPrintSliceString(nil)+common.ForPrintSliceString(5), "")
	if to := op(from + 1); from < len(b) { // an empty part: at most a byte
		if g := common.ForPrint(b, from, to); len(g) > 1 || !bytes.HasPrefix(b[from:], g) {
			fail("committee-display", "%x from %d to %d is shown as %x", b, from, to, g)
		}
	}
}

func runP45(r *R) {
	defer func() { common.SystemHashProvider = sysProvider }()
	common.SystemHashProvider = slowProvider{}
	nn := 1 + n("cfg", 3)
	nops := 1 + n("cfg", 10)
	loss := []int{0, 20}[n("cfg", 2)]
	crashes := n("cfg", 3)
	damage := []int{0, 6}[n("cfg", 2)]
	budget, faults := 16, 0
	all := genCands(3 + op(8))
	some := func(k int, dup bool) (r common.NodeIDs) {
		for ; k > 0; k-- {
			id := all[op(len(all))]
			if dup || !r.Contains(id) {
				r = append(r, id)
			}
		}
		return
	}
	var log []*cset
	var want []idList // the list before and after every change
	want = append(want, nil)
	for i := 0; i < nops; i++ {
		o := &cset{id: i, kind: op(5) / 2, ids: some(op(6), opChance(1, 6))}
		o.text = o.String()
		log = append(log, o)
		want = append(want, o.model(want[i]))
	}
	final := want[nops]
	// the registrations of the epoch
	g := &registry{way: op(4)}
	var prev common.Version
	for i, k := 0, 1+op(9); i < k; i++ {
		id := all[op(len(all))]
		prev = checkVersion(uint64(op(1010)), uint64(op(1010)), uint64(op(1010)), prev)
		rec := cp(id[:])
		if opChance(1, 8) {
			rec = [][]byte{nil, {}}[op(2)]
		}
		g.recs = append(g.recs, rec)
		g.ptrs = append(g.ptrs, id.New())
		g.values = append(g.values, regVal{ID: rec, Num: uint64(op(300)), Ver: prev})
	}
	gtext := g.text()
	g.root = refMerkle(g.leaves(), g.way%2 == 1)
	var registered idList
	for i := range g.recs {
		if g.way >= 3 || len(g.recs[i]) > 0 {
			registered = append(registered, hex.EncodeToString(g.ptrs[i][:]))
		}
	}
	registered = registered.uniq()
	var committee idList
	for _, s := range final {
		if registered.has(s) {
			committee = append(committee, s)
		}
	}
	unchanged := func() {
		for _, o := range log {
			if o.String() != o.text {
				fail("committee-shared", "a list that others read was %s and is %s", o.text, o)
			}
		}
		if g.text() != gtext {
			fail("committee-shared", "the registered records changed")
		}
	}
	// the registrar computes the root and the proofs while the nodes work
	ready := false
	inbox := make([][]*cmsg, nn)
	nodes := make([]*cnode, nn)
	saved := make([]*cnode, nn)
	committees := make([]common.NodeIDs, nn)
	var ts []*zzsim.Task
	ts = append(ts, zzsim.Spawn("registrar", 90, func() {
		leaves := g.leaves()
		hl := common.SlicesToHashs(g.recs)
		for i := range g.recs {
			w := keccak(g.recs[i])
			if len(g.recs[i]) == 0 {
				w = common.NilHashSlice
			}
			if !eq(hl[i], w) {
				fail("committee-merkle", "SlicesToHashs: element %d of %d is %x, expected %x", i, len(g.recs), hl[i], w)
			}
		}
		for i := range g.recs {
			mp := common.NewMerkleProofs()
			root, err := g.build(i, mp)
			if err != nil || !eq(root, g.root) {
				fail("committee-merkle", "the root (way %d) of %d records is %x, %v; by definition %x", g.way, len(g.recs), root, err, g.root)
			}
			got, err := mp.Proof(common.BytesToHash(leaves[i]))
			if err != nil || !eq(got, g.root) {
				fail("committee-merkle", "the proof of record %d of %d (way %d) leads to %x, %v; the root is %x", i, len(g.recs), g.way, got, err, g.root)
			}
			buf := new(bytes.Buffer)
			if err := mp.Serialization(buf); err != nil {
				fail("committee-merkle", "%v", err)
			}
			g.proofs = append(g.proofs, buf.Bytes())
		}
		if root, err := g.build(-1, nil); err != nil || !eq(root, g.root) {
			fail("committee-merkle", "the root (way %d) without proof is %x, %v; by definition %x", g.way, root, err, g.root)
		}
		ready = true
	}))
	accept := func(c *cnode, m *cmsg) { // a registration
		leaf := keccak(m.val)
		mp := common.NewMerkleProofs()
		if _, err := mp.Deserialization(bytes.NewReader(m.proof)); err != nil {
			if m.damaged == 0 {
				fail("committee-merkle", "%s: the proof of registration %d: %v", c.name, m.reg, err)
			}
			return
		}
		if m.damaged != 0 && repeatsOf(mp) > 256 {
			return // nobody computes the thousands of steps that no proof of this network can have
		}
		root, err := mp.Proof(common.BytesToHash(leaf))
		if err != nil || !common.HashSliceEquals(root, g.root) {
			if m.damaged == 0 {
				fail("committee-merkle", "%s: registration %d is refused: %x, %v", c.name, m.reg, root, err)
			}
			return
		}
		if !eq(m.val, valueOf(g, m.reg)) {
			fail("committee-merkle", "%s accepts %x as registration %d, which is %x", c.name, m.val, m.reg, valueOf(g, m.reg))
		}
		c.seen[m.reg] = true
		c.regs = append(c.regs, cp(g.id(m.reg)))
	}
	change := func(c *cnode, m *cmsg) {
		if m.set != c.next {
			return // again
		}
		keep := cp(m.body)
		ids, err := unpackList(m.body, m.way)
		shown(m.body, ids)
		if !eq(keep, m.body) {
			fail("committee-shared", "%s: reading a list (way %d) changed the message", c.name, m.way)
		}
		o := log[m.set]
		dup := len(refIDs(o.ids).uniq()) != len(o.ids)
		if m.damaged == 2 {
			if err == nil {
				fail("committee-damaged", "%s reads the damaged list %q (way %d) as %s", c.name, clip(m.body), m.way, refIDs(ids))
			}
			return
		}
		if sum := common.Hash256(m.body); !common.HashEquals(&sum, common.BytesToHashP(m.sum)) {
			if m.damaged == 0 {
				fail("committee-hash", "%s: the hash of a message differs from that of its sender", c.name)
			}
			return
		}
		if m.damaged != 0 {
			fail("committee-hash", "%s: a damaged message has the hash of the whole one", c.name)
		}
		if dup && (m.way == 1 || m.way == 2) {
			if err == nil {
				fail("committee-damaged", "%s accepts a list with a node twice: %s", c.name, o)
			}
			return
		}
		if err != nil || fmt.Sprint(refIDs(ids)) != fmt.Sprint(refIDs(o.ids)) {
			fail("committee-list", "%s reads %s (way %d) as %s, %v", c.name, o, m.way, refIDs(ids), err)
		}
		if opChance(1, 3) { // the list of the proposer, which all share
			ids = o.ids
		}
		l := c.ids()
		old := refIDs(l)
		var nl common.NodeIDs
		switch o.kind {
		case 0:
			nl = l.Union(ids)
		case 1:
			nl = l.Remove(ids)
		case 2:
			nl = ids.Union(nil)
		}
		zzsim.Point()
		if fmt.Sprint(refIDs(l)) != fmt.Sprint(old) {
			fail("committee-shared", "%s: %s changed the list it was applied to", c.name, o)
		}
		if len(nl) > 0 { // it belongs to us
			nl = append(nl[:len(nl):len(nl)], nl[0])[:len(nl)]
		}
		sort.Sort(nl)
		c.value = common.PackNodeIdsToBytes(nl)
		c.next++
		ev("%s: %s", c.name, o)
		checkIDs(c.name, c.ids(), want[c.next], all)
	}
	for i := 0; i < nn; i++ {
		ts = append(ts, zzsim.Spawn(fmt.Sprint("node", i), i, func() {
			c := &cnode{name: fmt.Sprint("node", i), seen: map[int]bool{}}
			nodes[i] = c
			complete := func() bool { return c.next >= nops && ready && len(c.seen) >= expected(g) }
			for {
				zzsim.WaitUntil("messages", func() bool { return len(inbox[i]) > 0 || complete() })
				if complete() {
					break
				}
				m := inbox[i][0]
				inbox[i] = inbox[i][1:]
				if m.set >= 0 {
					change(c, m)
				} else if !c.seen[m.reg] {
					accept(c, m)
				}
				if n("fault", 4) == 0 {
					s := *c
					s.value, s.regs, s.seen = cp(c.value), common.CopyBytesSlice(c.regs), map[int]bool{}
					for _, k := range intKeys(c.seen) {
						s.seen[k] = true
					}
					if !common.BytesSliceEqual(s.regs, c.regs) {
						fail("committee-list", "a copy of the registrations differs")
					}
					saved[i] = &s
				}
				if crashes > 0 && n("fault", 8) == 0 {
					crashes--
					faults++
					stat("fault.crash")
					if s := saved[i]; s != nil {
						*c = cnode{name: c.name, value: cp(s.value), next: s.next, regs: common.CopyBytesSlice(s.regs), seen: map[int]bool{}}
						for _, k := range intKeys(s.seen) {
							c.seen[k] = true
						}
					} else {
						*c = cnode{name: c.name, seen: map[int]bool{}}
					}
					ev("%s crashes and restarts at %d", c.name, c.next)
					checkIDs(c.name+" restarted", c.ids(), want[c.next], all)
				}
			}
			// the committee
			cands := c.ids()
			cb := cands.ToBytesSlice()
			regs := common.CopyBytesSlice(c.regs)
			in := common.BytesIntersection(cb, c.regs)
			rm := map[string]struct{}{}
			for _, b := range c.regs {
				rm[string(b)] = struct{}{}
			}
			im := common.BytesIntersectionMap(rm, append(cb[:len(cb):len(cb)], cb...))
			if !common.BytesSliceEqual(regs, c.regs) || !eq(common.ConcatenateBytes(cb), c.value) {
				fail("committee-shared", "%s: the intersection changed the lists", c.name)
			}
			for way, x := range [][][]byte{in, im} {
				ids, err := common.ByteSlicesToNodeIDs(x)
				if err != nil {
					fail("committee-members", "%s: the intersection %d of %s and %x: %v", c.name, way, refIDs(cands), c.regs, err)
				}
				sort.Sort(ids)
				checkIDs(fmt.Sprintf("%s, committee %d", c.name, way), ids, committee, all)
				committees[i] = ids
			}
			if len(committee) > 0 {
				checkSeats(len(committee))
			}
			c.done = true
		}))
	}
	stop := false
	zzsim.Spawn("network", 98, func() {
		roll := func(p int, what string) bool {
			if faults < budget && zzsim.Chance("fault", p, 100) {
				faults++
				stat("fault." + what)
				return true
			}
			return false
		}
		for !stop {
			for i := range inbox {
				c := nodes[i]
				if c == nil || c.done {
					continue
				}
				send := func(m *cmsg) {
					if roll(loss, "message_lost") {
						return
					}
					at := len(inbox[i])
					if at > 0 && roll(16, "message_reordered") {
						at = n("fault", at+1)
					}
					inbox[i] = append(inbox[i][:at:at], append([]*cmsg{m}, inbox[i][at:]...)...)
				}
				for k := c.next; k < nops && k < c.next+3; k++ {
					m := &cmsg{set: k, way: op(5)}
					if refIDs(log[k].ids).uniq() != nil && len(refIDs(log[k].ids).uniq()) != len(log[k].ids) && opChance(1, 2) {
						m.way = 3 // a form that keeps duplicates
					}
					m.body = packList(log[k].ids, m.way)
					m.sum = keccak(m.body)
					if len(m.body) > 0 && roll(damage, "message_damaged") {
						m.damaged, m.body = damageList(m.body, m.way)
					}
					send(m)
				}
				if ready && opChance(1, 2) {
					for k := range g.recs {
						if c.seen[k] || skipped(g, k) {
							continue
						}
						m := &cmsg{set: -1, reg: k, val: cp(valueOf(g, k)), proof: cp(g.proofs[k])}
						if roll(damage, "message_damaged") {
							m.damaged = 1
							switch n("fault", 3) {
							case 0:
								m.val = flipByte(m.val)
							case 1:
								m.proof = flipByte(m.proof)
							default: // another one's proof
								m.proof = cp(g.proofs[n("fault", len(g.proofs))])
							}
						}
						send(m)
					}
				}
			}
			zzsim.Sleep(10 * time.Millisecond)
		}
	})
	// others use the same lists and helpers
	busy := n("cfg", 3)
	for i := 0; i < busy; i++ {
		ts = append(ts, zzsim.Spawn(fmt.Sprint("reader", i), 50+i, func() {
			for j := op(5); j >= 0; j-- {
				switch op(6) {
				case 0:
					k := op(len(g.values))
					checkHash(*g.ptrs[k], g.values[k])
				case 1:
					b := g.recs[op(len(g.recs))]
					checkBits(b[:min(len(b), op(12))])
				case 2:
					checkPointers(all)
				case 3:
					checkElection()
					checkSeats(1 + op(300))
				case 4:
					b := g.recs[op(len(g.recs))]
					shown(b[:min(len(b), op(12))], log[op(len(log))].ids)
				case 5:
					o := log[op(len(log))]
					l := o.ids
					if len(l) == 0 {
						continue
					}
					u := l.Union(all[:op(len(all))]).Remove(all[op(len(all)):])
					for _, id := range u {
						if !all.Contains(id) {
							fail("committee-list", "%x from nowhere", id[:])
						}
					}
				}
				unchanged()
			}
		}))
	}
	zzsim.Join(ts...)
	stop = true
	unchanged()
	for i := range committees {
		if !committees[i].Equal(committees[0]) || fmt.Sprint(refIDs(committees[i])) != fmt.Sprint(committee) {
			fail("committee-members", "node %d has the committee %s, node 0 %s, expected %s", i, refIDs(committees[i]), refIDs(committees[0]), committee)
		}
	}
	if nn >= 2 && len(committee) >= 2 && faults > 0 {
		r.Nontrivial()
	}
}

// valueOf is what is sent as registration k.
func valueOf(g *registry, k int) []byte {
	if g.way == 3 {
		return g.ptrs[k][:]
	}
	return g.record(k)
}

// skipped: an empty record registers nobody.
func skipped(g *registry, k int) bool { return g.way < 3 && len(g.recs[k]) == 0 }

func expected(g *registry) (e int) {
	for k := range g.recs {
		if !skipped(g, k) {
			e++
		}
	}
	return
}

// damageList damages a message; 2: so that no list has this form.
func damageList(b []byte, way int) (int, []byte) {
	b = cp(b)
	switch n("fault", 3) {
	case 0:
		if way < 3 {
			return 2, b[:len(b)-1-n("fault", common.NodeIDBytes-1)]
		}
		i := n("fault", len(b))
		b[i] = "gxX -\x00"[n("fault", 6)]
		return 2, b
	case 1:
		if way < 3 {
			return 2, append(b, b[:1+n("fault", common.NodeIDBytes-1)]...)
		}
		if len(b) > 1 {
			return 2, b[:len(b)-1] // an odd digit
		}
	}
	i := n("fault", len(b))
	if way < 3 {
		b[i] ^= 1 << n("fault", 8)
		return 1, b
	}
	b[i] = 'g'
	return 2, b
}

func clip(b []byte) string {
	if len(b) > 200 {
		b = b[:200]
	}
	return string(b)
}

// repeatsOf counts the repetitions that a proof claims.
func repeatsOf(mp *common.MerkleProofs) (c int) {
	for _, t := range mp.Repeats {
		c += t.Times
	}
	return c
}
