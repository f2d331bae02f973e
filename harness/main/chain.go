//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/hexutil"
	cmath "github.com/ThinkiumGroup/go-common/math"
	"github.com/ThinkiumGroup/go-common/rlp"
	"github.com/ThinkiumGroup/go-common/zzsim"
	"github.com/stephenfire/go-rtl"
)

func init() {
	register(&Prop{ID: "P44", Run: runP44, Quick: 60000, QuickS: 18,
		Rule: "Non-trivial: at least three configuration blocks were applied by two nodes although messages were lost, repeated, reordered or corrupted or a node crashed, or a transfer between two shards was carried out.",
		Real: "ChainInfos, ChainStruct, Dataserver, ChainAttrs, NodeIDs, ShardInfo, GasPool, heights, epochs, addresses and their text, JSON, RLP and rtl forms", Stub: "the network, the nodes' store, the ledger of balances, goroutine scheduling"})
}

func runP44(r *R) {
	common.BlocksInEpoch = []uint64{1, 2, 3, 7, 1000, 1 << 20}[n("cfg", 6)]
	common.EpochsInEra = uint64(1 + n("cfg", 40))
	defer func() { common.BlocksInEpoch, common.EpochsInEra = 1000, 36 }()
	if zzsim.Chance("cfg", 2, 5) {
		p44shards(r)
	} else {
		p44config(r)
	}
}

// ---------------------------------------------------------------- configuration replicas

const (
	copAddData = iota
	copDelData
	copAddBoot
	copDelBoot
	copAttr
	copAdmin
	copAuditor
	copVersion
	copSort
	copCoin
	copN
)

type cop struct {
	K uint8
	N common.NodeID
	D common.Dataserver
	P []byte
	A string
}

type cblock struct {
	Height common.Height
	Chain  common.ChainID
	Prev   common.Hash
	By     *common.Address
	Gas    *big.Int
	Ops    []cop
	Info   common.Hash
}

// jblock is how a block is shown in JSON.
type jblock struct {
	Height hexutil.Uint64
	Chain  cmath.HexOrDecimal64
	Prev   common.Hash
	By     *common.Address
	Gas    *hexutil.Big
	GasDec *cmath.HexOrDecimal256
	Ops    []cop
	Info   hexutil.Bytes
}

func (b *cblock) enc(way int) []byte {
	var bs []byte
	var err error
	switch way {
	case 0:
		bs, err = rtl.Marshal(b)
	case 1:
		c := *b
		c.By = b.By.ForRLP()
		bs, err = rlp.EncodeToBytes(&c)
	case 2:
		bs, err = json.Marshal(&jblock{hexutil.Uint64(b.Height), cmath.HexOrDecimal64(b.Chain), b.Prev, b.By, (*hexutil.Big)(b.Gas), (*cmath.HexOrDecimal256)(b.Gas), b.Ops, b.Info[:]})
	}
	if err != nil {
		fail("encode", "encoding %v (way %d): %v", b, way, err)
	}
	return bs
}

func decBlock(way int, bs []byte) (*cblock, error) {
	b := new(cblock)
	switch way {
	case 0:
		return b, rtl.Unmarshal(bs, b)
	case 1:
		err := rlp.DecodeBytes(bs, b)
		b.By = b.By.FromRLP()
		return b, err
	}
	j := new(jblock)
	if err := json.Unmarshal(bs, j); err != nil {
		return nil, err
	}
	*b = cblock{common.Height(j.Height), common.ChainID(j.Chain), j.Prev, j.By, j.Gas.ToInt(), j.Ops, common.BytesToHash(j.Info)}
	if j.Gas == nil || j.GasDec == nil || b.Gas.Cmp((*big.Int)(j.GasDec)) != 0 {
		return nil, fmt.Errorf("two gas values %v, %v", j.Gas, j.GasDec)
	}
	return b, nil
}

func (b *cblock) String() string {
	by := "-"
	if b.By != nil {
		by = hex.EncodeToString(b.By[:])
	}
	s := fmt.Sprintf("block %d of %d prev %x by %s gas %v info %x:", uint64(b.Height), uint32(b.Chain), b.Prev[:], by, b.Gas, b.Info[:])
	for _, o := range b.Ops {
		s += fmt.Sprintf(" (%d %x %v %x %q)", o.K, o.N[:], o.D, o.P, o.A)
	}
	return s
}

type infoModel struct {
	st             common.ChainStruct
	version        uint16
	coin           uint16
	datas          []common.NodeID // sorted
	genesis        []common.NodeID
	auditors       []common.NodeID
	boots          []common.Dataserver // by node
	admins, attrs  []string
	coinName       string
	comm           []common.NodeID
	election       common.ElectionType
	second, synced bool
}

func (m *infoModel) clone() *infoModel {
	o := *m
	o.datas = append([]common.NodeID{}, m.datas...)
	o.auditors = append([]common.NodeID{}, m.auditors...)
	o.boots = append([]common.Dataserver{}, m.boots...)
	o.admins = append([]string{}, m.admins...)
	o.attrs = append([]string{}, m.attrs...)
	return &o
}

func cfgView(c *common.ChainInfos) string {
	ids := func(l common.NodeIDs) (s string) {
		for _, id := range l {
			s += hex.EncodeToString(id[:]) + ","
		}
		return
	}
	s := fmt.Sprintf("chain %d/%d/%d v%d coin %d %q %t elect %d %q %t\n datas %s\n genesis %s\n comm %s\n auditors %s\n boots", uint32(c.ID), uint32(c.ParentID), byte(c.Mode), c.Version, c.SecondCoinId, c.SecondCoinName, c.HaveSecondCoin,
		byte(c.Election), c.ChainVersion, c.Syncblock, ids(c.Datas), ids(c.GenesisDatas), ids(c.GenesisCommIds), ids(c.Auditors))
	for _, d := range c.BootNodes {
		s += fmt.Sprintf(" %v", d)
	}
	s += "\n admins"
	for _, a := range c.AdminPubs {
		s += fmt.Sprintf(" %x", a)
	}
	return s + fmt.Sprintf("\n attrs %q", c.Attributes.ToStringSlice())
}

func (m *infoModel) view() string {
	c := &common.ChainInfos{ChainStruct: m.st, SecondCoinId: common.CoinID(m.coin), SecondCoinName: m.coinName, HaveSecondCoin: m.second, GenesisCommIds: m.comm, BootNodes: m.boots,
		Election: m.election, ChainVersion: "x", Syncblock: m.synced, GenesisDatas: m.genesis, Datas: m.datas, Auditors: m.auditors, Version: m.version}
	for _, a := range m.admins {
		c.AdminPubs = append(c.AdminPubs, []byte(a))
	}
	for _, a := range m.attrs {
		c.Attributes = append(c.Attributes, common.ChainAttr(a))
	}
	if c.Attributes == nil {
		c.Attributes = common.ChainAttrs{}
	}
	return cfgView(c)
}

type refInfosV0 struct {
	common.ChainStruct
	A common.CoinID
	B string
	C bool
	D [][]byte
	E common.NodeIDs
	F []common.Dataserver
	G common.ElectionType
	H string
	I bool
	J common.NodeIDs
	K common.NodeIDs
	L common.ChainAttrs
}

type refInfosV1 struct {
	common.ChainStruct
	A common.CoinID
	B string
	C bool
	D [][]byte
	E common.NodeIDs
	F []common.Dataserver
	G common.ElectionType
	H string
	I bool
	J common.NodeIDs
	K common.NodeIDs
	L common.ChainAttrs
	M common.NodeIDs
	N uint16
}

func refInfoHash(c *common.ChainInfos) []byte {
	var o interface{} = &refInfosV0{c.ChainStruct, c.SecondCoinId, c.SecondCoinName, c.HaveSecondCoin, c.AdminPubs, c.GenesisCommIds, c.BootNodes, c.Election, c.ChainVersion, c.Syncblock, c.GenesisDatas, c.Datas, c.Attributes}
	if c.Version > 0 {
		o = &refInfosV1{c.ChainStruct, c.SecondCoinId, c.SecondCoinName, c.HaveSecondCoin, c.AdminPubs, c.GenesisCommIds, c.BootNodes, c.Election, c.ChainVersion, c.Syncblock, c.GenesisDatas, c.Datas, c.Attributes, c.Auditors, c.Version}
	}
	bs, err := rtl.Marshal(o)
	if err != nil {
		fail("harness", "%v", err)
	}
	return keccak(bs)
}

func insertID(l []common.NodeID, id common.NodeID) ([]common.NodeID, bool) {
	for i := range l {
		switch bytes.Compare(l[i][:], id[:]) {
		case 0:
			return l, false
		case 1:
			return append(append(append([]common.NodeID{}, l[:i]...), id), l[i:]...), true
		}
	}
	return append(l, id), true
}

func removeID(l []common.NodeID, id common.NodeID) ([]common.NodeID, bool) {
	for i := range l {
		if l[i] == id {
			return append(append([]common.NodeID{}, l[:i]...), l[i+1:]...), true
		}
	}
	return l, len(l) == 0
}

func hasID(l []common.NodeID, id common.NodeID) bool {
	for i := range l {
		if l[i] == id {
			return true
		}
	}
	return false
}

// apply carries out one change on the real description and on the model, and compares the answers.
func (o *cop) apply(c *common.ChainInfos, m *infoModel) {
	var got, want interface{}
	switch o.K {
	case copAddData:
		got = c.AddDataNode(o.N)
		m.datas, want = insertID2(m.datas, o.N)
	case copDelData:
		got = c.RemoveDataNode(o.N)
		m.datas, want = removeID2(m.datas, o.N)
	case copAddBoot:
		got = c.AddBootNode(o.D)
		want = true
		for i := range m.boots {
			if m.boots[i].NodeIDString == o.D.NodeIDString {
				want = false
			}
		}
		if want == true {
			m.boots = append(m.boots, o.D)
			sort.Slice(m.boots, func(i, j int) bool { return m.boots[i].NodeIDString < m.boots[j].NodeIDString })
		}
	case copDelBoot:
		got = c.RemoveBootNode(o.N)
		want = len(m.boots) == 0
		for i := range m.boots {
			if m.boots[i].NodeIDString == hex.EncodeToString(o.N[:]) {
				want = true
				m.boots = append(append([]common.Dataserver{}, m.boots[:i]...), m.boots[i+1:]...)
				break
			}
		}
	case copAttr:
		names := strings.Split(o.A, ",")
		var err error
		valid := true
		if len(o.P) > 0 {
			err = c.Attributes.AddByName(names...)
			for i := range names {
				names[i] = strings.ToUpper(names[i])
			}
		} else {
			var l []common.ChainAttr
			for _, a := range names {
				l = append(l, common.ChainAttr(a))
			}
			err = c.Attributes.Add(l...)
		}
		for _, a := range names {
			valid = valid && (a == "POC" || a == "REWARD" || a == "NOGAS")
		}
		if valid {
			for _, a := range names {
				if !contains(m.attrs, a) {
					m.attrs = append(m.attrs, a)
				}
			}
			sort.Strings(m.attrs)
		}
		got, want = err == nil, valid
	case copAdmin:
		c.AdminPubs = append(c.AdminPubs, cp(o.P))
		m.admins = append(m.admins, string(o.P))
	case copAuditor:
		if len(o.P) > 0 {
			u := common.NodeIDs(c.Auditors).Union(common.NodeIDs{o.N})
			sort.Sort(u)
			c.Auditors = u
			m.auditors, _ = insertID2(m.auditors, o.N)
		} else {
			u := c.Auditors.Remove(common.NodeIDs{o.N})
			sort.Sort(u)
			c.Auditors = u
			m.auditors, _ = removeID2(m.auditors, o.N)
		}
	case copVersion:
		c.Version = uint16(len(o.P) % 2)
		m.version = c.Version
	case copSort:
		c.Sort()
		sort.Strings(m.admins)
	case copCoin:
		c.SecondCoinId = common.CoinID(len(o.A))
		c.SecondCoinName = o.A
		m.coin, m.coinName = uint16(len(o.A)), o.A
		got, want = c.SecondCoinId.IsSovereign(), len(o.A) == 0
	}
	if got != want {
		fail("config-answer", "change %d of node %x, %q: answer %v, expected %v\n%s", o.K, o.N[:3], o.A, got, want, m.view())
	}
}

func insertID2(l []common.NodeID, id common.NodeID) ([]common.NodeID, interface{}) {
	r, ok := insertID(l, id)
	return r, ok
}
func removeID2(l []common.NodeID, id common.NodeID) ([]common.NodeID, interface{}) {
	r, ok := removeID(l, id)
	return r, ok
}

// checkInfos compares every answer of the description with the model.
func checkInfos(c *common.ChainInfos, m *infoModel, ids []common.NodeID) {
	if g, w := cfgView(c), m.view(); g != w {
		fail("config-content", "the description is\n%s\nbut the changes make it\n%s", g, w)
	}
	h, err := c.HashValue()
	if err != nil || !eq(h, refInfoHash(c)) {
		fail("config-hash", "the hash of version %d is %x, %v; by definition %x", c.Version, h, err, refInfoHash(c))
	}
	id := ids[op(len(ids))]
	pos := -1
	for i := range m.datas {
		if m.datas[i] == id {
			pos = i
		}
	}
	if c.HasDataNode(id) != (pos >= 0) || c.Index(id) != pos || !c.IsGenesisDataNode(id) != !hasID(m.genesis, id) || c.Datas.Contains(id) != (pos >= 0) || c.Datas.IsIn(id) != (pos >= 0) {
		fail("config-member", "node %x: data node %t at %d, genesis %t; the model has it at %d in\n%s", id[:3], c.HasDataNode(id), c.Index(id), c.IsGenesisDataNode(id), pos, m.view())
	}
	var all []common.NodeID
	for _, l := range [][]common.NodeID{m.genesis, m.datas, m.auditors} {
		for _, x := range l {
			all, _ = insertID(all, x)
		}
	}
	if got := c.GetAuditorIds(); !got.Equal(all) || len(c.GetAuditorMap()) != len(all) {
		fail("config-auditors", "the auditors are %v, expected %v", got, all)
	}
	if got := common.NodeIDs(c.GetDataNodes()); !got.Equal(m.datas) {
		fail("config-member", "the data nodes are %v, expected %v", got, m.datas)
	}
	for _, a := range []string{"POC", "REWARD", "NOGAS", "POX"} {
		if c.HasAttribute(common.ChainAttr(a)) != contains(m.attrs, a) {
			fail("config-attribute", "attribute %s: %t, expected %q", a, c.HasAttribute(common.ChainAttr(a)), m.attrs)
		}
	}
	if c.IsPocChain() != contains(m.attrs, "POC") || c.IsRewardChain() != contains(m.attrs, "REWARD") || c.IsMainChain() != (c.ID == 0) {
		fail("config-attribute", "poc %t reward %t main %t of %q", c.IsPocChain(), c.IsRewardChain(), c.IsMainChain(), m.attrs)
	}
	if at := c.Attributes.ToMap(); len(at) != len(m.attrs) || fmt.Sprint(common.ChainAttrs(nil).FromMap(at)) != fmt.Sprint(append(common.ChainAttrs{}, c.Attributes...)) {
		fail("config-attribute", "the attributes as a map %v, as a list %v", at, c.Attributes)
	}
	pub := adminPub(op(4))
	addr := common.BytesToAddress(keccak(pub[1:])[12:])
	if c.PubIsAdmin(pub) != contains(m.admins, string(pub)) || c.AddrIsAdmin(addr) != contains(m.admins, string(pub)) {
		fail("config-admin", "key %x of %x: admin %t, %t, expected %t", pub[:3], addr[:3], c.PubIsAdmin(pub), c.AddrIsAdmin(addr), contains(m.admins, string(pub)))
	}
}

func adminPub(i int) []byte { return append([]byte{4}, bytes.Repeat([]byte{byte(i)}, 64)...) }

func infosEnc(c *common.ChainInfos, way int) []byte {
	var bs []byte
	var err error
	switch way {
	case 0:
		bs, err = rtl.Marshal(c)
	case 1:
		bs, err = json.Marshal(c)
	case 2:
		bs, err = rlp.EncodeToBytes(c)
	}
	if err != nil {
		fail("encode", "encoding a description (way %d): %v", way, err)
	}
	return bs
}

func infosDec(bs []byte, way int) (*common.ChainInfos, error) {
	c := new(common.ChainInfos)
	switch way {
	case 0:
		return c, rtl.Unmarshal(bs, c)
	case 1:
		return c, json.Unmarshal(bs, c)
	}
	return c, rlp.DecodeBytes(bs, c)
}

type cfgNode struct {
	g      int
	pub    *common.ChainInfos // what readers use
	height int                // blocks applied
	inbox  [][]byte
	up     bool
}

func p44config(r *R) {
	nids := 1 + op(7)
	var ids []common.NodeID
	for i := 0; i < nids; i++ {
		var id common.NodeID
		copy(id[:], keccak([]byte{byte(i)}))
		copy(id[32:], keccak([]byte{byte(i), 1}))
		if opChance(1, 4) && i > 0 { // differ in the last byte only
			id = ids[0]
			id[63] += byte(i)
		}
		ids = append(ids, id)
	}
	sub := func() (l common.NodeIDs) {
		for _, id := range ids {
			if opChance(1, 3) {
				l, _ = insertID(l, id)
			}
		}
		return
	}
	chain := common.ChainID([]uint32{0, 1, 2, 70, 1 << 20, 1<<20 + 5}[op(6)])
	parent := common.ChainID([]uint32{0, 1, 1 << 20}[op(3)])
	st, err := common.NewChainStruct(chain, parent)
	switch {
	case chain.IsNil() || parent.IsNil() && chain != 0:
		if err == nil {
			fail("chain-struct", "NewChainStruct(%d, %d) succeeds", chain, parent)
		}
		st = &common.ChainStruct{ID: chain, ParentID: parent}
	case err != nil:
		fail("chain-struct", "NewChainStruct(%d, %d): %v", chain, parent, err)
	case chain != 0 && st.Validate() != nil || chain == 0 && (st.Validate() == nil) != parent.IsNil():
		fail("chain-struct", "the structure %v is not valid: %v", st, st.Validate())
	}
	m0 := &infoModel{st: *st, genesis: sub(), comm: sub(), version: uint16(op(2)), election: common.ElectionType(op(2)), second: opChance(1, 2), synced: opChance(1, 2)}
	m0.datas = sub()
	c0 := &common.ChainInfos{ChainStruct: *st, GenesisCommIds: m0.comm, GenesisDatas: m0.genesis, Datas: common.NodeIDs(m0.datas).Clone(), Version: m0.version, ChainVersion: "x", Election: m0.election, HaveSecondCoin: m0.second, Syncblock: m0.synced}
	base := heightBase()
	// the proposer: the blocks and what they lead to
	models := []*infoModel{m0}
	infos := []string{cfgView(c0)}
	hashes := [][]byte{refInfoHash(c0)}
	var blocks []*cblock
	prop := c0.Clone()
	prev := common.NilHash
	for i, l := 0, 1+op(10); i < l; i++ {
		b := &cblock{Height: base + common.Height(i), Chain: chain, Prev: prev, Gas: new(big.Int).Rsh(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(int64(1+op(300)))), uint([]int{0, 0, 1, 128, 190, 192, 193, 250, 256}[op(9)]))}
		if opChance(1, 2) {
			a := common.BytesToAddress(keccak([]byte{byte(op(3))}))
			b.By = &a
		}
		m := models[len(models)-1].clone()
		for j := op(4); j >= 0; j-- {
			o := cop{K: uint8(op(copN)), N: ids[op(len(ids))]}
			switch o.K {
			case copAddBoot:
				o.D = common.Dataserver{ChainID: uint32(chain), NodeIDString: hex.EncodeToString(o.N[:]), IP: []string{"10.0.0.1", "::1", "h"}[op(3)], BasicPort: uint16(op(4)), ConsensusPort0: 65535, DataRpcPort: uint16(op(3))}
			case copAttr:
				o.A = []string{"POC", "REWARD", "NOGAS", "poc", "POC,NOGAS", "NOGAS,REWARD,POC", "POC,X", "reward,nogas", "X", "REWARD,REWARD"}[op(10)]
				if opChance(1, 2) {
					o.P = []byte{1}
				}
			case copAdmin:
				o.P = adminPub(op(4))
				if opChance(1, 8) {
					o.P = []byte{5}
				}
			case copAuditor, copVersion:
				if opChance(1, 2) {
					o.P = []byte{1}
				}
			case copCoin:
				o.A = []string{"", "TKM", "\x00\xff", "€"}[op(4)]
				if o.A == "\x00\xff" {
					o.A = "a\u0000b"
				}
			}
			b.Ops = append(b.Ops, o)
			o.apply(prop, m)
		}
		h, err := prop.HashValue()
		if err != nil {
			fail("config-hash", "%v", err)
		}
		b.Info = common.BytesToHash(h)
		prev = common.Hash256([]byte(b.String()))
		blocks = append(blocks, b)
		models = append(models, m)
		infos = append(infos, m.view())
		hashes = append(hashes, h)
		ev("block %d: %s", i, b)
	}
	corrupt := []int{0, 20, 50}[n("cfg", 3)]
	loss := []int{0, 15, 40}[n("cfg", 3)]
	crashes := n("cfg", 3)
	snap := n("cfg", 3)
	way := n("cfg", 3)
	nn := 2 + op(2)
	media := newMedia()
	media.inject = true
	media.saveErr = []int{0, 0, 100}[n("cfg", 3)]
	media.loadErr = []int{0, 0, 100}[n("cfg", 3)]
	nodes := make([]*cfgNode, nn)
	faulty, faults := true, 0
	send := func(to *cfgNode, i int) {
		bs := blocks[i].enc(way)
		for k := 1; k >= 0; k-- {
			if faulty && zzsim.Chance("fault", loss, 100) {
				stat("fault.message_lost")
				faults++
				continue
			}
			w := append(cp(keccak(bs)[:4]), bs...)
			if faulty && zzsim.Chance("fault", corrupt, 100) {
				stat("fault.message_corrupted")
				faults++
				w = flipByte(w)
			}
			at := len(to.inbox)
			if faulty && at > 0 && zzsim.Chance("fault", 1, 4) {
				at = n("fault", at+1)
				stat("fault.message_reordered")
				faults++
			}
			to.inbox = append(to.inbox[:at:at], append([][]byte{w}, to.inbox[at:]...)...)
			if !faulty || !zzsim.Chance("fault", 1, 5) {
				break
			}
			stat("fault.message_repeated")
		}
	}
	start := func(nd *cfgNode, round int) {
		nd.up = true
		zzsim.Spawn(fmt.Sprintf("node%d.%d", nd.g, round), nd.g, func() {
			key := fmt.Sprint("info", nd.g)
			var c *common.ChainInfos
			h := 0
			for {
				v, err := media.read(key)
				if err == nil {
					if v == nil {
						c = c0.Clone()
					} else {
						h = int(binary.BigEndian.Uint32(v))
						if c, err = infosDec(v[4:], snap); err != nil {
							fail("snapshot", "decoding the saved description of height %d (way %d): %v", h, snap, err)
						}
						if g := cfgView(c); g != infos[h] {
							fail("snapshot", "the saved description (way %d) is read as\n%s\nit was\n%s", snap, g, infos[h])
						}
						if g, err := c.HashValue(); snap < 2 && (err != nil || !eq(g, hashes[h])) {
							fail("snapshot-hash", "the restored description of height %d has hash %x, %v; it was %x", h, g, err, hashes[h])
						}
					}
					break
				}
			}
			nd.height = h
			nd.pub = c
			for h < len(blocks) {
				if len(nd.inbox) == 0 {
					send(nd, h)
					if op(3) == 0 {
						send(nd, op(len(blocks)))
					}
					zzsim.Sleep(10 * time.Millisecond)
					continue
				}
				w := nd.inbox[0]
				nd.inbox = nd.inbox[1:]
				if len(w) < 4 {
					continue
				}
				b, err := decBlock(way, w[4:])
				if !eq(keccak(w[4:])[:4], w[:4]) {
					continue
				}
				if err != nil {
					fail("decode", "decoding an intact block (way %d): %v\n%x", way, err, w[4:])
				}
				i := -1
				for j := range blocks {
					if blocks[j].Height == b.Height {
						i = j
					}
				}
				if i < 0 || b.String() != blocks[i].String() {
					fail("decode", "an intact block (way %d) is read as\n%s\n%x", way, b, w[4:])
				}
				checkHeight(b.Height, blocks[op(len(blocks))].Height)
				if b.By != nil {
					checkAddress(*b.By, uint64(b.Height))
				}
				if opChance(1, 3) {
					checkIdentity(b.Height)
				}
				if i != h {
					continue
				}
				next := c.Clone()
				old := cfgView(c)
				m := models[h].clone()
				for _, o := range b.Ops {
					o.apply(next, m)
					zzsim.Point()
				}
				if cfgView(c) != old || old != infos[h] {
					fail("clone", "changing a clone changed the description\n%s\ninto\n%s", infos[h], cfgView(c))
				}
				g, err := next.HashValue()
				if err != nil || snap < 2 && !eq(g, b.Info[:]) {
					fail("replicas", "node %d has hash %x after block %d, %v; the block says %x\n%s\nbut\n%s", nd.g, g, h, err, b.Info[:], cfgView(next), infos[h+1])
				}
				v := binary.BigEndian.AppendUint32(nil, uint32(h+1))
				for media.write(key, append(v, infosEnc(next, snap)...), false) != nil {
				}
				c = next
				h++
				nd.pub, nd.height = c, h
			}
			zzsim.WaitUntil("done", func() bool { return !faulty })
		})
	}
	for i := range nodes {
		nodes[i] = &cfgNode{g: i + 1}
		start(nodes[i], 0)
	}
	var readers []*zzsim.Task
	for k := 0; k < 1+op(2); k++ {
		readers = append(readers, zzsim.Spawn(fmt.Sprintf("reader%d", k), 50, func() {
			for i := 0; i < 12; i++ {
				nd := nodes[op(nn)]
				h, c := nd.height, nd.pub
				if c == nil || !nd.up {
					zzsim.Sleep(5 * time.Millisecond)
					continue
				}
				checkInfos(c, models[h], ids)
				zzsim.Sleep(time.Duration(op(20)) * time.Millisecond)
				checkInfos(c, models[h], ids)
			}
		}))
	}
	for k := 0; k < crashes; k++ {
		zzsim.Sleep(time.Duration(op(30)) * time.Millisecond)
		nd := nodes[op(nn)]
		stat("fault.crash")
		ev("node %d crashes", nd.g)
		faults++
		nd.up, nd.pub, nd.height = false, nil, -1
		zzsim.KillGroup(nd.g)
		zzsim.JoinGroup(nd.g)
		nd.inbox = nil
		zzsim.Sleep(time.Duration(op(20)) * time.Millisecond)
		start(nd, k+1)
	}
	zzsim.Join(readers...)
	faulty = false
	media.inject = false
	for i := 0; ; i++ {
		done := true
		for _, nd := range nodes {
			done = done && nd.height == len(blocks)
		}
		if done {
			break
		}
		if i > 400 {
			fail("liveness", "without faults the nodes do not reach block %d", len(blocks))
		}
		zzsim.Sleep(10 * time.Millisecond)
	}
	for _, nd := range nodes {
		checkInfos(nd.pub, models[len(blocks)], ids)
	}
	if len(blocks) > 2 && faults > 0 {
		r.Nontrivial()
	}
}

// ---------------------------------------------------------------- heights, addresses

func heightBase() common.Height {
	switch op(4) {
	case 0:
		return 0
	case 1:
		return common.Height(op(3000))
	case 2:
		return common.Height(common.BlocksInEpoch*uint64(op(5)+1)) - common.Height(op(3))
	}
	return common.NilHeight - 12
}

func bigU(u uint64) *big.Int { return new(big.Int).SetUint64(u) }

func cmpNil(a, b uint64) (uint64, int) {
	const null = ^uint64(0)
	switch {
	case a == b:
		return 0, 0
	case a == null:
		return b + 1, -1
	case b == null:
		return a + 1, 1
	case a < b:
		return b - a, -1
	}
	return a - b, 1
}

func checkHeight(h, o common.Height) {
	B := common.BlocksInEpoch
	bad := func(what string, got, want interface{}) {
		if fmt.Sprint(got) != fmt.Sprint(want) {
			fail("height", "%s of height %d with %d blocks in an epoch is %v, expected %v", what, uint64(h), B, got, want)
		}
	}
	nilH := uint64(common.NilHeight)
	u := uint64(h)
	e, b := u/B, u%B
	d, c := cmpNil(u, uint64(o))
	gd, gc := h.Diff(o)
	bad("difference", []interface{}{gd, gc, h.Compare(o)}, []interface{}{d, c, c})
	bad("bytes", hex.EncodeToString(h.Bytes()), fmt.Sprintf("%016x", u))
	bad("value of bytes", uint64(common.BytesToHeight(append([]byte{7}, h.Slice()...))), u)
	bad("value of short bytes", uint64(common.BytesToHeight(bigU(u).Bytes())), u)
	fb, ok := h.FromBig(bigU(u))
	bad("value of big", []interface{}{uint64(fb), ok}, []interface{}{u, true})
	_, ok = h.FromBig(new(big.Int).Lsh(big.NewInt(1), 64))
	bad("2^64", ok, false)
	hh := h.Hash()
	bad("hash", hex.EncodeToString(hh[:]), hex.EncodeToString(keccak(h.Bytes())))
	bad("clone", h.Clone().Equal(&h), true)
	bad("equality", h.Equal(&o), u == uint64(o))
	ge, gb := h.Split()
	ue, ub := h.UsefulEpoch(), h.UsefulBlock()
	if u == nilH {
		bad("epoch", []interface{}{uint64(ge), uint32(gb), uint64(h.EpochNum()), uint32(h.BlockNum()), uint64(h.EraNum()), uint64(ue), uint32(ub)}, []interface{}{nilH, ^uint32(0), nilH, ^uint32(0), nilH, 0, 0})
		bad("first, last", []interface{}{h.IsFirstOfEpoch(), h.IsLastOfEpoch(), h.IsNil()}, []interface{}{false, false, true})
		bad("remainder", uint64(h.RemoveRemainder(3)), nilH)
		bad("composition", uint64(common.ToHeight(ge, gb)), nilH)
		return
	}
	bad("epoch", []interface{}{uint64(ge), uint32(gb), uint64(h.EpochNum()), uint32(h.BlockNum()), uint64(ue), uint32(ub)}, []interface{}{e, b, e, b, e, b})
	bad("era", uint64(h.EraNum()), u/(B*common.EpochsInEra))
	bad("first, last", []interface{}{h.IsFirstOfEpoch(), h.IsLastOfEpoch(), h.IsNil(), gb.IsFirstOfEpoch(), gb.IsLastOfEpoch(), gb.IsValid()}, []interface{}{b == 0, b == B-1, false, b == 0, b == B-1, true})
	bad("composition", uint64(common.ToHeight(ge, gb)), u)
	bad("first of epoch", uint64(ge.FirstHeight()), e*B)
	last := nilH
	if x := e*B + B - 1; x >= e*B {
		last = x
	}
	bad("last of epoch", uint64(ge.LastHeight()), last)
	if B > 1 {
		bad("height of an overflowing epoch", []interface{}{uint64(common.ToHeight(common.EpochNum(nilH/B+1), gb)), uint64(common.EpochNum(nilH/B + 1).FirstHeight()), uint64(common.EpochNum(nilH/B + 1).LastHeight())}, []interface{}{nilH, nilH, nilH})
	}
	bad("height of an invalid block", uint64(common.ToHeight(ge, common.BlockNum(B))), nilH)
	for _, k := range []uint64{0, 1, 3, B} {
		w := u
		if k > 1 {
			w = u / k * k
		}
		bad("remainder", uint64(h.RemoveRemainder(common.Height(k))), w)
	}
	oe := o.EpochNum()
	d, c = cmpNil(e, uint64(oe))
	gd, gc = ge.Diff(oe)
	bad("difference of epochs", []interface{}{gd, gc, ge.Compare(oe), ge.Cmp(&oe), ge.Cmp(nil), (*common.EpochNum)(nil).Cmp(&ge)}, []interface{}{d, c, c, c, 1, -1})
	era, oera := h.EraNum(), o.EraNum()
	_, c = cmpNil(uint64(era), uint64(oera))
	bad("comparison of eras", []interface{}{era.Compare(oera), era.Cmp(&oera), era.Equal(&oera)}, []interface{}{c, c, c == 0})
	net := common.ConsensusNet1
	if e%2 == 1 {
		net = common.ConsensusNet2
	}
	bad("network", common.ChooseConNetByEpoch(ge), net)
}

func checkAddress(a common.Address, nonce uint64) {
	bad := func(what string, got, want interface{}) {
		if fmt.Sprint(got) != fmt.Sprint(want) {
			fail("address", "%s of %x is %v, expected %v", what, a[:], got, want)
		}
	}
	x := []byte(hex.EncodeToString(a[:]))
	k := keccak(x)
	for i := range x {
		if x[i] >= 'a' && (k[i/2]>>(4*uint(1-i%2)))&15 >= 8 {
			x[i] -= 'a' - 'A'
		}
	}
	bad("checksummed form", a.Hex(), "0x"+string(x))
	bad("value of its form", common.HexToAddress(a.Hex()), a)
	bad("form", common.IsHexAddress(a.Hex()) && common.IsHexAddress(string(x)) && !common.IsHexAddress(a.Hex()[:40]), true)
	bad("big", common.BigToAddress(a.Big()), a)
	bad("contract", common.CreateAddress(a, nonce), common.BytesToAddress(keccak(refRLP(rL(rS(a[:]), rU(nonce))))[12:]))
	var salt [32]byte
	salt[3] = byte(nonce)
	bad("contract 2", common.CreateAddress2(a, salt, k), common.BytesToAddress(keccak([]byte{255}, a[:], salt[:], k)[12:]))
	t, err := a.MarshalText()
	var b common.Address
	bad("text", []interface{}{err, string(t), b.UnmarshalText(t), b}, []interface{}{nil, "0x" + hex.EncodeToString(a[:]), nil, a})
	for _, s := range []string{string(t[:41]), string(t) + "0", string(t) + "00", string(t[2:]), "0x", "", "0x" + string(t), string(t[:41]) + "g"} {
		if b.UnmarshalText([]byte(s)) == nil {
			fail("address", "the text %q is accepted as address %x", s, b[:])
		}
	}
	id := common.BytesToNodeID(a[:])
	n2, err := common.ParseNodeID(hex.EncodeToString(id[:]))
	bad("node id", err == nil && *n2 == id && n2.Compare(&id) == 0, true)
	h := id.Hash()
	bad("node id hash", hex.EncodeToString(h[:]), hex.EncodeToString(keccak(id[:])))
	l := common.NodeIDs{id, common.BytesToNodeID(k)}
	p, err := common.ParseBytesToNodeIds(common.PackNodeIdsToBytes(l))
	bad("packed ids", err == nil && l.Equal(p), true)
	_, err = common.ParseBytesToNodeIds(common.PackNodeIdsToBytes(l)[1:])
	bad("badly packed ids", err != nil, true)
}

// ---------------------------------------------------------------- shards

type stx struct {
	id, from, to int
	amount, gas  uint64
	need         int // nodes that still have to act
	done         bool
}

type smsg struct {
	kind int // 0 transaction, 1 credit, 2 acknowledgement of the credit
	tx   *stx
	to   common.ChainID
}

type snode struct {
	chain    common.ChainID
	info     common.ShardInfo
	inbox    []smsg
	balance  map[int]uint64
	debited  map[int]bool
	credited map[int]bool
	acked    map[int]bool
	queue    []*stx
}

func p44shards(r *R) {
	ns := []int{1, 2, 3, 4, 5, 7, 8, 9, 33, 200}[op(10)]
	var list []common.ChainID
	for i := 0; i < ns; i++ {
		list = append(list, common.ChainID(103+i*(1+i%3)*5))
	}
	seen := map[common.ChainID]bool{}
	var uniq []common.ChainID
	for _, c := range list {
		if !seen[c] {
			seen[c] = true
			uniq = append(uniq, c)
		}
	}
	list = uniq
	ns = len(list)
	sorted := append([]common.ChainID{}, list...)
	sort.Slice(sorted, func(i, j int) bool { return sorted[i] < sorted[j] })
	bits := uint(0)
	for 1<<bits < ns {
		bits++
	}
	parent := common.ChainStruct{ID: 1, ParentID: 0, Mode: common.Branch}
	mk := func(self common.ChainID) common.ShardInfo {
		l := append([]common.ChainID{}, list...)
		for i := range l { // any order, with duplicates, with or without the node itself
			j := i + op(len(l)-i)
			l[i], l[j] = l[j], l[i]
		}
		for k := op(3); k > 0; k-- {
			l = append(l, l[op(len(l))])
		}
		if opChance(1, 3) && self != parent.ID {
			k := 0
			for _, c := range l {
				if c != self {
					l[k] = c
					k++
				}
			}
			l = l[:k]
		}
		keep := fmt.Sprint(l)
		si := common.NewShardInfo(parent, self, l)
		if fmt.Sprint(l) != keep {
			fail("shard-input", "NewShardInfo changed the list of its caller")
		}
		return si
	}
	nacc := 2 + op(8)
	accs := make([]common.Address, nacc)
	for i := range accs {
		accs[i] = common.BytesToAddress(keccak([]byte{byte(i)}))
		accs[i][0] = byte(op(256))
		if opChance(1, 4) {
			accs[i][0] = []byte{0, 255, 127, 128}[op(4)]
		}
	}
	one := common.NewShardInfo(parent, common.NilChainID, nil)
	pinfo := mk(parent.ID)
	nodes := map[common.ChainID]*snode{}
	owner := make([]common.ChainID, nacc)
	for i, a := range accs {
		a := a
		owner[i] = pinfo.ShardTo(a)
		if one.ShardTo(&a) != parent.ID {
			fail("shard-route", "without shards, %x belongs to %d", a[:2], one.ShardTo(&a))
		}
	}
	used := append([]common.ChainID{}, owner...)
	used = append(used, sorted[op(ns)])
	for _, c := range used {
		if nodes[c] == nil {
			nodes[c] = &snode{chain: c, info: mk(c), balance: map[int]uint64{}, debited: map[int]bool{}, credited: map[int]bool{}, acked: map[int]bool{}}
		}
	}
	var order []*snode
	for _, c := range sorted {
		if nodes[c] != nil {
			order = append(order, nodes[c])
		}
	}
	check := func(si common.ShardInfo, self common.ChainID) {
		if fmt.Sprint(si.AllIDs()) != fmt.Sprint(sorted) || si.LocalID() != self || si.GetMaskBits() != bits {
			fail("shard-list", "node of %d: shards %v, local %d, %d bits; expected %v, %d bits", self, si.AllIDs(), si.LocalID(), si.GetMaskBits(), sorted, bits)
		}
		c := sorted[op(ns)]
		if p := si.Pos(c); p < 0 || p >= ns || sorted[p] != c || si.Pos(c+1) >= 0 && (p+1 >= ns || sorted[p+1] != c+1) || si.Pos(parent.ID) >= 0 {
			fail("shard-list", "the position of shard %d is %d in %v", c, p, sorted)
		}
		i := op(nacc)
		a := accs[i]
		for k := 0; k < 2; k++ {
			g := si.ShardTo(a)
			if g != si.ShardTo(&a) || si.Pos(g) < 0 || g != owner[i] && k == 0 {
				fail("shard-route", "node of %d: %x belongs to %d, at the parent to %d, shards %v", self, a[:2], g, owner[i], sorted)
			}
			if k == 1 && bits < 8 && g != owner[i] {
				fail("shard-route", "%x and %x have the same first %d bits and belong to %d and %d", a[:2], accs[i][:2], bits, g, owner[i])
			}
			// what is behind the mask must not matter
			for j := range a {
				if 8*j >= int(bits) {
					a[j] ^= byte(op(256))
				} else if 8*j+8 > int(bits) {
					a[j] ^= byte(op(256)) >> (bits & 7)
				}
			}
		}
		if si.ShardTo(nil) != common.NilChainID {
			fail("shard-route", "nothing belongs to a shard")
		}
	}
	check(pinfo, parent.ID)
	total := uint64(0)
	for i := range accs {
		b := uint64(op(1000))
		nodes[owner[i]].balance[i] = b
		total += b
	}
	loss := []int{0, 15, 40}[n("cfg", 3)]
	limit := uint64(30 + op(100))
	faulty := true
	faults := 0
	var txs []*stx
	var post func(m smsg)
	post = func(m smsg) {
		for k := 0; k < 2; k++ {
			if faulty && zzsim.Chance("fault", loss, 100) {
				stat("fault.message_lost")
				faults++
				continue
			}
			nd := nodes[m.to]
			at := len(nd.inbox)
			if faulty && zzsim.Chance("fault", 1, 4) {
				at = n("fault", at+1)
				stat("fault.message_reordered")
			}
			nd.inbox = append(nd.inbox[:at:at], append([]smsg{m}, nd.inbox[at:]...)...)
			if !faulty || !zzsim.Chance("fault", 1, 5) {
				break
			}
			stat("fault.message_repeated")
			faults++
		}
	}
	stop := false
	cross := 0
	block := func(nd *snode) {
		gp := new(common.GasPool).AddGas(limit)
		used := uint64(0)
		var rest []*stx
		for _, t := range nd.queue {
			if nd.debited[t.id] {
				continue
			}
			err := gp.SubGas(t.gas)
			if (err == nil) != (used+t.gas <= limit) {
				fail("gas", "taking %d of %d gas with %d used: %v", t.gas, limit, used, err)
			}
			if err == nil {
				used += t.gas
			}
			if gp.Gas() != limit-used {
				fail("gas", "%d gas is left of %d after using %d", gp.Gas(), limit, used)
			}
			zzsim.Point()
			if err != nil {
				rest = append(rest, t)
				continue
			}
			nd.debited[t.id] = true
			if nd.balance[t.from] < t.amount { // fails, but is done
				t.done = true
				continue
			}
			nd.balance[t.from] -= t.amount
			to := nd.info.ShardTo(accs[t.to])
			if to == nd.info.LocalID() {
				nd.balance[t.to] += t.amount
				t.done = true
			} else {
				cross++
				nd.acked[t.id] = false
				post(smsg{1, t, to})
			}
		}
		nd.queue = rest
	}
	var ts []*zzsim.Task
	for _, nd := range order {
		nd := nd
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("shard%d", nd.chain), 1, func() {
			for !stop {
				if opChance(1, 4) {
					check(nd.info, nd.chain)
				}
				if len(nd.inbox) == 0 {
					block(nd)
					if opChance(1, 6) {
						nd.info = nd.info.Clone()
					}
					for _, id := range intKeys(nd.acked) {
						if t := txs[id]; !nd.acked[id] {
							post(smsg{1, t, nd.info.ShardTo(&accs[t.to])})
						}
					}
					zzsim.Sleep(10 * time.Millisecond)
					continue
				}
				m := nd.inbox[0]
				nd.inbox = nd.inbox[1:]
				t := m.tx
				switch m.kind {
				case 0:
					if to := nd.info.ShardTo(accs[t.from]); to != nd.info.LocalID() {
						fail("shard-route", "a transaction of %x was sent to %d by one node, %d says it belongs to %d", accs[t.from][:2], nd.chain, nd.chain, to)
					}
					if !nd.debited[t.id] {
						nd.queue = append(nd.queue, t)
					}
				case 1:
					if to := nd.info.ShardTo(accs[t.to]); to != nd.info.LocalID() {
						fail("shard-route", "a credit for %x was sent to %d by one node, %d says it belongs to %d", accs[t.to][:2], nd.chain, nd.chain, to)
					}
					if !nd.credited[t.id] {
						nd.credited[t.id] = true
						nd.balance[t.to] += t.amount
					}
					post(smsg{2, t, nd.info.ShardTo(accs[t.from])})
				case 2:
					nd.acked[t.id] = true
					t.done = true
				}
			}
		}))
	}
	for i, l := 0, 1+op(12); i < l; i++ {
		t := &stx{id: i, from: op(nacc), to: op(nacc), amount: uint64(op(300)), gas: uint64(1 + op(int(limit)))}
		txs = append(txs, t)
		ev("transaction %d: %d from %d to %d, gas %d", i, t.amount, t.from, t.to, t.gas)
		post(smsg{0, t, pinfo.ShardTo(&accs[t.from])})
		zzsim.Sleep(time.Duration(op(15)) * time.Millisecond)
	}
	faulty = false
	for i := 0; ; i++ {
		done := true
		for _, t := range txs {
			if !t.done {
				done = false
				if nd := nodes[owner[t.from]]; i%20 == 0 && !nd.debited[t.id] {
					post(smsg{0, t, pinfo.ShardTo(&accs[t.from])})
				}
			}
		}
		if done {
			break
		}
		if i > 600 {
			fail("liveness", "without faults the transfers do not finish")
		}
		zzsim.Sleep(10 * time.Millisecond)
	}
	stop = true
	zzsim.Join(ts...)
	sum := uint64(0)
	for _, nd := range order {
		for _, i := range intKeys(nd.balance) {
			if owner[i] != nd.chain {
				fail("shard-route", "shard %d holds a balance of account %d of shard %d", nd.chain, i, owner[i])
			}
			sum += nd.balance[i]
		}
	}
	if sum != total {
		fail("conservation", "the balances add up to %d, they were %d", sum, total)
	}
	if cross > 0 {
		r.Nontrivial()
	}
}

func intKeys[V any](m map[int]V) (r []int) {
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return
}
