//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/rlp"
)

// idBytes returns n bytes of an identifier: all zero, few ones at the end, or any.
func idBytes(n int) []byte {
	b := make([]byte, n)
	switch op(4) {
	case 0:
		return b
	case 1:
		b[n-1] = byte(op(3))
		b[0] = byte(op(2))
		return b
	}
	k := keccak([]byte{byte(op(4)), byte(op(4))})
	for i := range b {
		b[i] = k[i%32] ^ byte(i/32)
	}
	return b
}

// lastOf is b in n bytes: cropped from the left, or with zeros in front.
func lastOf(b []byte, n int) []byte {
	r := make([]byte, n)
	for i := 1; i <= n && i <= len(b); i++ {
		r[n-i] = b[len(b)-i]
	}
	return r
}

// checkIdentity: hashes, addresses, seeds, node ids, chain ids, eras, epochs,
// blocks and data servers in all their forms.
func checkIdentity(h common.Height) {
	const null = ^uint64(0)
	bad := func(what string, got, want interface{}) {
		if g, w := fmt.Sprint(got), fmt.Sprint(want); g != w {
			fail("identity", "%s is %s, expected %s", what, g, w)
		}
	}
	type l = []interface{}
	hx := hex.EncodeToString
	src := idBytes([]int{0, 1, 20, 32, 40, 64, 70}[op(6)+1])
	other := idBytes(len(src))
	in, oin := cp(src), cp(other)
	cmp := func(n int) int { return bytes.Compare(lastOf(src, n), lastOf(other, n)) }

	// hashes
	{
		a, b := common.BytesToHash(src), common.BytesToHash(other)
		w := lastOf(src, 32)
		bad("the hash of bytes", hx(a[:]), hx(w))
		bad("forms of a hash", l{a.String(), a.Hex(), hx(a.Bytes()), hx(a.Slice()), a.Big(), a.PrintString(), a.TerminalString(), (*common.Hash)(nil).PrintString()},
			l{"0x" + hx(w), "0x" + hx(w), hx(w), hx(w), new(big.Int).SetBytes(w), hx(w[:5]), hx(w[:3]) + "…" + hx(w[29:]), ""})
		bad("hashes read", l{common.HexToHash(a.Hex()), common.HexToHash(hx(w)), common.BigToHash(a.Big()), *common.BytesToHashP(src), *common.NewHash(w)}, l{a, a, a, a, a})
		v, err := a.HashValue()
		bad("the hash value of a hash", l{hx(v), err}, l{hx(w), nil})
		eq := cmp(32) == 0
		c := b
		bad("comparison of hashes", l{a.Equal(&c), a.Equal(&a), a.Equal(nil), (*common.Hash)(nil).Equal(nil), (*common.Hash)(nil).Equal(&a), common.HashLess(a, b),
			a.SliceEqual(b[:]), a.SliceEqual(w), a.SliceEqual(w[1:]), (*common.Hash)(nil).SliceEqual(nil), (*common.Hash)(nil).SliceEqual(w)},
			l{eq, true, false, true, false, cmp(32) < 0, eq, true, false, true, false})
		empty := eqZero(w)
		bad("special hashes", l{a.IsEmpty(), a.IsNil(), common.NilHash.IsNil(), common.NilHash.IsEmpty(), a.Invalid(), common.NilHash.Invalid(), common.EmptyHash.Invalid(), common.EmptyNodeHash.IsEmptyNode(), common.EmptyNodeHash.Invalid(), hx(common.NilHash[:])},
			l{empty, false, true, false, empty || a.IsEmptyNode(), true, true, true, true, hx(keccak(nil))})
		bad("the nil hash", l{(*common.Hash)(nil).Slice() == nil, (*common.Hash)(nil).Clone() == nil, (*common.Hash)(nil).FromRLP() == nil, *(*common.Hash)(nil).ForRLP()}, l{true, true, true, common.EmptyHash})
		for i, p := range []*common.Hash{a.Clone(), a.ForRLP()} {
			bad("the copy of a hash", *p, a)
			p[0] ^= 1
			bad(fmt.Sprintf("a hash whose copy (%d) was changed", i), hx(a[:]), hx(w))
		}
		if p := a.FromRLP(); empty {
			bad("an empty hash from rlp", p == nil, true)
		} else {
			bad("a hash from rlp", *p, a)
			p[0] ^= 1
			bad("a hash whose copy was changed", hx(a[:]), hx(w))
		}
		checkForms("hash", &a, new(common.Hash), w, true)
		hs := []common.Hash{a, b}
		hc := common.CopyHashs(hs)
		hc[0][0] ^= 1
		bad("the copies of hashes", l{hs[0], hc[1], common.CopyHashs(nil) == nil}, l{a, b, true})
	}
	// addresses
	{
		a, b := common.BytesToAddress(src), common.BytesToAddress(other)
		w := lastOf(src, 20)
		bad("the address of bytes", hx(a[:]), hx(w))
		bad("forms of an address", l{a.String(), a.ToString(), hx(a.Bytes()), hx(a.Slice()), a.Big(), a.Value(), (*common.Address)(nil).ToString(), (*common.Address)(nil).Value()},
			l{hx(w), hx(w), hx(w), hx(w), new(big.Int).SetBytes(w), a, "<nil>", common.Address{}})
		bad("addresses read", l{common.HexToAddress(hx(w)), *common.BytesToAddressP(src), common.StringsToAddresses([]string{string(src), string(other)}), common.StringsToAddresses(nil) == nil}, l{a, a, []common.Address{a, b}, true})
		ah := a.Hash()
		bad("an address as hash", hx(ah[:]), hx(lastOf(w, 32)))
		c := b
		bad("comparison of addresses", l{a.Equal(&c), a.Equal(&a), a.Equal(nil), (*common.Address)(nil).Equal(nil), a.Cmp(&c), a.Cmp(nil), (*common.Address)(nil).Cmp(&a), (*common.Address)(nil).Cmp(nil)},
			l{cmp(20) == 0, true, false, true, cmp(20), 1, -1, 0})
		bad("the nil address", l{(*common.Address)(nil).Slice() == nil, (*common.Address)(nil).Clone() == nil, (*common.Address)(nil).FromRLP() == nil, *(*common.Address)(nil).ForRLP()}, l{true, true, true, common.EmptyAddress})
		for i, p := range []*common.Address{a.Clone(), a.ForRLP(), a.Copy()} {
			bad("the copy of an address", *p, a)
			p[0] ^= 1
			bad(fmt.Sprintf("an address whose copy (%d) was changed", i), hx(a[:]), hx(w))
		}
		if p := a.FromRLP(); eqZero(w) {
			bad("an empty address from rlp", p == nil, true)
		} else {
			bad("an address from rlp", *p, a)
			p[0] ^= 1
			bad("an address whose copy was changed", hx(a[:]), hx(w))
		}
		checkForms("address", &a, new(common.Address), w, true)
	}
	// seeds
	{
		a, b := common.BytesToSeed(src), common.BytesToSeed(other)
		w := lastOf(src, common.SeedLength)
		bad("the seed of bytes", hx(a[:]), hx(w))
		bad("forms of a seed", l{a.String(), hx(a.Byte()), hx(a.Slice()), (*common.Seed)(nil).String(), (*common.Seed)(nil).Slice() == nil, *common.BytesToSeedP(src)}, l{hx(w[:5]), hx(w), hx(w), "<nil>", true, a})
		c := b
		bad("comparison of seeds", l{a.Equal(&c), a.Equals(&c), a.Equals(&a), a.Equals(a), a.Equals(nil), a.Equal(nil), (*common.Seed)(nil).Equal(nil), a.IsZero(), (*common.Seed)(nil).IsZero()},
			l{a == b, a == b, true, false, false, false, true, eqZero(w), false})
		p := a.Clone()
		bad("the copy of a seed", *p, a)
		p[0] ^= 1
		bad("a seed whose copy was changed", hx(a[:]), hx(w))
		sh, nh := a.Hash(), (*common.Seed)(nil).Hash()
		bad("the hash of a seed", l{hx(sh[:]), nh, (*common.Seed)(nil).Clone() == nil}, l{hx(keccak(w)), common.NilHash, true})
		checkForms("seed", &a, new(common.Seed), w, false)
	}
	// node ids
	{
		a, b := common.BytesToNodeID(src), common.BytesToNodeID(other)
		w := lastOf(src, common.NodeIDBytes)
		hv, err := a.HashValue()
		bad("a node id", l{hx(a[:]), a.String(), a.InfoString(0), hx(a.Bytes()), common.BytesToNodeIDP(src).InfoString(0), hx(hv), err, a.Compare(&b), a.Compare(nil), (*common.NodeID)(nil).Compare(&a)},
			l{hx(w), hx(w[:5]), hx(w), hx(w), hx(w), hx(keccak(w)), nil, cmp(common.NodeIDBytes), 1, -1})
		for i, p := range []*common.NodeID{a.Clone(), a.New()} {
			bad("the copy of a node id", p.InfoString(0), a.InfoString(0))
			p[0] ^= 1
			bad(fmt.Sprintf("a node id whose copy (%d) was changed", i), hx(a[:]), hx(w))
		}
		checkForms("node id", &a, new(common.NodeID), w, true)
		d := common.Dataserver{ChainID: uint32(op(3)), NodeIDString: hx(w), IP: "10.0.0." + strconv.Itoa(op(3)), BasicPort: uint16(op(2)), ConsensusPort0: uint16(1 + op(3)),
			ConsensusPort1: uint16(7 * op(2)), DataPort0: 3, DataPort1: 4, DataRpcPort: uint16(40000 + op(3))}
		e := *d.Clone()
		e.NodeIDString = hx(lastOf(other, common.NodeIDBytes))
		e.ChainID = uint32(op(3))
		id, err := d.GetNodeID()
		hv, err2 := (&d).HashValue()
		c := cmp(common.NodeIDBytes)
		if d.ChainID != e.ChainID {
			c = 1 - 2*b2i(d.ChainID < e.ChainID)
		}
		bad("a data server", l{err, id.InfoString(0), d.GetRpcAddr(), d.Validation() == nil, hx(hv), err2, d.Compare(e), e.Compare(d), d.Compare(d)},
			l{nil, hx(w), d.IP + ":" + strconv.Itoa(int(d.DataRpcPort)), d.BasicPort > 0 && d.ConsensusPort1 > 0,
				hx(keccak([]byte(strconv.Itoa(int(d.ChainID)) + hx(w) + d.IP + strconv.Itoa(int(d.BasicPort)) + strconv.Itoa(int(d.ConsensusPort0)) + strconv.Itoa(int(d.ConsensusPort1)) + "34" + strconv.Itoa(int(d.DataRpcPort))))),
				nil, c, -c, 0})
		e.NodeIDString = e.NodeIDString[1:]
		bad("a data server with a short id", e.Validation() == nil, false)
		if _, err := e.GetNodeID(); err == nil {
			fail("identity", "the id %q is accepted", e.NodeIDString)
		}
	}
	// networks of a node
	{
		id := common.BytesToNodeID(src)
		addr := make([]string, 5)
		for i := range addr {
			if op(3) > 0 {
				addr[i] = fmt.Sprintf("10.0.0.%d:%d", op(3), i)
			}
		}
		ni := common.NewNetInfo(&id, addr[0], addr[1], addr[2], addr[3], addr[4])
		for i, t := range []common.NetType{common.BasicNet, common.ConsensusNet1, common.ConsensusNet2, common.RootDataNet, common.BranchDataNet} {
			ep := ni.GetAddr(t)
			if addr[i] == "" {
				bad("an address nobody gave", ep == nil, true)
				ni.AddAddr(t, &common.Endpoint{NetType: "tcp", Address: "x:1"})
				ep = ni.GetAddr(t)
				addr[i] = "x:1"
			}
			bad("the address of "+t.String(), l{ep.String(), ep.Network(), ep.IsNil(), common.Endpoint{}.IsNil()}, l{addr[i], "tcp", false, true})
		}
	}
	// chain ids
	{
		x, y := binary.BigEndian.Uint32(lastOf(src, 4)), binary.BigEndian.Uint32(lastOf(other, 4))
		switch op(4) {
		case 0:
			x = uint32(common.NilChainID) - 1 + uint32(op(3))
		case 1:
			y = uint32(common.NilChainID)
		}
		a, b := common.ChainID(x), common.ChainID(y)
		n := uint32(common.NilChainID)
		var xb [4]byte
		binary.BigEndian.PutUint32(xb[:], x)
		c := 0
		switch {
		case x == y:
		case x == n, y != n && x < y:
			c = -1
		default:
			c = 1
		}
		text := strconv.FormatUint(uint64(x), 10)
		if x == n {
			text = "<nil>"
		}
		hv, err := a.HashValue()
		bad(fmt.Sprintf("chain id %d", x), l{hx(a.Bytes()), hx(a.Formalize()), a.String(), a.FromFormalize(a.Formalize()), common.BytesToChainID(append([]byte{9}, xb[:]...)), common.BytesToChainID(bigU(uint64(x)).Bytes()), a.Compare(b), b.Compare(a), hx(hv), err},
			l{hx(xb[:]), hx(xb[:]), text, a, a, a, c, -c, hx(keccak(xb[:])), nil})
		bad(fmt.Sprintf("kinds of chain id %d", x), l{a.IsNil(), a.IsMain(), a.IsReserved(), a.IsSub(), a.IsUserDefined()}, l{x == n, x == 0, x < n, x != 0 && x != n, x > n})
		f, ok := a.FromBig(bigU(uint64(x)))
		bad("a chain id from a number", l{f, ok}, l{a, true})
		for _, v := range []*big.Int{nil, big.NewInt(-1), bigU(1 << 32)} {
			f, ok := a.FromBig(v)
			bad(fmt.Sprintf("a chain id from %s", v), l{f, ok}, l{common.NilChainID, false})
		}
		ids := common.ChainIDs{a, b, 0, a + 1}
		cl := ids.Clone()
		sort.Sort(cl)
		for i := 1; i < len(cl); i++ {
			if cl[i-1].Compare(cl[i]) > 0 {
				fail("identity", "chain ids are sorted as %s", cl)
			}
		}
		bad("chain ids after their copy was sorted", l{ids[0], ids[1], ids[2], ids[3], ids.Equal(ids.Clone()), ids.Equal(ids[:3]), ids.Equal(nil), common.ChainIDs(nil).Equal(nil), common.ChainIDs(nil).Clone() == nil},
			l{a, b, common.ChainID(0), a + 1, true, false, false, true, true})
	}
	// eras, epochs and blocks
	{
		x, y := binary.BigEndian.Uint64(lastOf(src, 8)), binary.BigEndian.Uint64(lastOf(other, 8))
		switch op(4) {
		case 0:
			x = null - uint64(op(3))
		case 1:
			y = null
		case 2:
			x = uint64(h)
		}
		df, c := cmpNil(x, y)
		text := strconv.FormatUint(x, 10)
		if x == null {
			text = "<nil>"
		}
		raw := fmt.Sprintf("%016x", x)
		e, f := common.EraNum(x), common.EraNum(y)
		eh, fh := e.Hash(), f.Hash()
		bad(fmt.Sprintf("era %d", x), l{e.String(), (*common.EraNum)(nil).String(), hx(e.Bytes()), hx(e.Slice()), e.Value(), (*common.EraNum)(nil).Value(), *e.Clone(), e.IsNil(), e.Equal(&f), e.Equal(nil), e.Equal(&e), (*common.EraNum)(nil).Equal(nil), (*common.EraNum)(nil).Equal(&e), e.Compare(f), e.Cmp(&f), e.Cmp(nil), (*common.EraNum)(nil).Cmp(&e), eh == fh, (*common.EraNum)(nil).Hash(), (*common.EraNum)(nil).Slice() == nil, (*common.EraNum)(nil).Clone() == nil},
			l{text, "", raw, raw, e, common.NilEra, e, x == null, x == y, false, true, true, false, c, c, 1, -1, x == y, common.NilHash, true, true})
		p, q := common.EpochNum(x), common.EpochNum(y)
		bad(fmt.Sprintf("epoch %d", x), l{p.String(), p.ToString(), (*common.EpochNum)(nil).ToString(), hx(p.Bytes()), *p.Clone(), p.IsNil(), p.Compare(q), p.Cmp(&q), (*common.EpochNum)(nil).Clone() == nil},
			l{text, text, "", raw, p, x == null, c, c, true})
		d1, c1 := p.Diff(q)
		d2, c2 := common.Height(x).Diff(common.Height(y))
		bad(fmt.Sprintf("difference of epochs and heights %d %d", x, y), l{d1, c1, d2, c2}, l{df, c, df, c})
		g := common.Height(x)
		hv, err := g.HashValue()
		bad(fmt.Sprintf("height %d", x), l{g.String(), (*common.Height)(nil).String(), hx(g.Bytes()), (*common.Height)(nil).Slice() == nil, (*common.Height)(nil).Clone() == nil, (*common.Height)(nil).Hash(), hx(hv), err, (*common.Height)(nil).Equal(nil), g.Equal(nil)},
			l{text, "", raw, true, true, common.NilHash, hx(keccak(g.Bytes())), nil, true, false})
		bn := common.BlockNum(uint32(x))
		bt := strconv.FormatUint(uint64(bn), 10)
		switch {
		case uint32(x) == ^uint32(0):
			bt = "<nil>"
		case uint64(bn) >= common.BlocksInEpoch:
			bt = "<NA>"
		}
		bad(fmt.Sprintf("block %d", uint32(x)), l{bn.String(), hx(bn.Bytes()), bn.IsNil(), bn.IsValid()}, l{bt, fmt.Sprintf("%08x", uint32(x)), uint32(x) == ^uint32(0), uint64(bn) < common.BlocksInEpoch})
	}
	if !eq(src, in) || !eq(other, oin) {
		fail("identity", "the bytes of an identifier were changed")
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func eqZero(b []byte) bool { return len(bytes.Trim(b, "\x00")) == 0 }

// checkForms: an identifier of fixed size w travels as text, JSON and RLP.
func checkForms(what string, v, to interface{}, w []byte, text bool) {
	enc, err := rlp.EncodeToBytes(v)
	if err != nil || !eq(enc, refRLP(rS(w))) {
		fail("identity", "%s %x in RLP is %x, %v", what, w, enc, err)
	}
	dst := func() string { return fmt.Sprintf("%x", fmt.Sprint(rlpBytes(to))) }
	want := fmt.Sprintf("%x", fmt.Sprint(w))
	if err := rlp.DecodeBytes(enc, to); err != nil || dst() != want {
		fail("identity", "%s %x is read from RLP as %x, %v", what, w, rlpBytes(to), err)
	}
	for _, d := range [][]byte{w[1:], append([]byte{1}, w...)} {
		if rlp.DecodeBytes(refRLP(rS(d)), to) == nil {
			fail("identity", "%d bytes are read from RLP as %s %x", len(d), what, rlpBytes(to))
		}
	}
	if !text {
		return
	}
	js, err := json.Marshal(v)
	s := `"0x` + hex.EncodeToString(w) + `"`
	if err != nil || string(js) != s {
		fail("identity", "%s %x in JSON is %s, %v", what, w, js, err)
	}
	if err := json.Unmarshal([]byte(strings.ToUpper(s[3:])), to); err == nil {
		fail("identity", "JSON without quotes is read as %s", what)
	}
	in := s
	if op(2) == 0 {
		in = `"0x` + strings.ToUpper(s[3:])
	}
	if err := json.Unmarshal([]byte(in), to); err != nil || dst() != want {
		fail("identity", "%s %s is read from JSON as %x, %v", what, s, rlpBytes(to), err)
	}
	for _, d := range []string{s[:len(s)-2] + `"`, s[:len(s)-3] + `"`, s[:3] + "00" + s[3:], s[:3] + "g" + s[4:], `"` + s[3:], "12", `""`} {
		if json.Unmarshal([]byte(d), to) == nil {
			fail("identity", "the JSON %s is read as %s %x", d, what, rlpBytes(to))
		}
		if dst() != want {
			fail("identity", "the refused JSON %s changed %s %x to %x", d, what, w, rlpBytes(to))
		}
	}
}

// rlpBytes returns the bytes of an identifier.
func rlpBytes(p interface{}) []byte {
	switch x := p.(type) {
	case *common.Hash:
		return x[:]
	case *common.Address:
		return x[:]
	case *common.Seed:
		return x[:]
	case *common.NodeID:
		return x[:]
	}
	panic(fmt.Sprintf("%T", p))
}
