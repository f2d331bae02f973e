//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"strings"
	"time"

	"github.com/ThinkiumGroup/go-common/rlp"
	"github.com/ThinkiumGroup/go-common/zzsim"
	"github.com/holiman/uint256"
)

func init() {
	register(&Prop{ID: "P37", Run: runP37, Quick: 40000, QuickS: 15,
		Rule: "Non-trivial: two tasks encoded at the same time.",
		Real: "rlp Encode, EncodeToBytes, EncodeToReader, EncoderBuffer, its buffer pool and type cache", Stub: "the writers (slow, failing), the buffer pool's choice of a buffer, goroutine scheduling"})
	register(&Prop{ID: "P38", Run: runP38, Quick: 40000, QuickS: 15,
		Rule: "Non-trivial: at least two values arrived over the simulated connections.",
		Real: "rlp Decode, DecodeBytes, Stream, its stream pool and type cache", Stub: "the connections (short and slow reads, errors, truncation, corruption), the pool's choice of a stream, goroutine scheduling"})
}

// ritem is the reference form of a value: a string or a list.
type ritem struct {
	str  []byte
	list bool
	kids []ritem
	raw  []byte // already encoded
}

func rlen(n int, short, long byte) []byte {
	if n < 56 {
		return []byte{short + byte(n)}
	}
	b := new(big.Int).SetInt64(int64(n)).Bytes()
	return append([]byte{long + byte(len(b))}, b...)
}

// refRLP encodes by the definition in the Yellow Paper, appendix B.
func refRLP(it ritem) []byte {
	if it.raw != nil {
		return it.raw
	}
	if !it.list {
		if len(it.str) == 1 && it.str[0] < 0x80 {
			return []byte{it.str[0]}
		}
		return append(rlen(len(it.str), 0x80, 0xb7), it.str...)
	}
	var body []byte
	for _, k := range it.kids {
		body = append(body, refRLP(k)...)
	}
	return append(rlen(len(body), 0xc0, 0xf7), body...)
}

func rS(b []byte) ritem         { return ritem{str: b} }
func rU(u uint64) ritem         { return ritem{str: new(big.Int).SetUint64(u).Bytes()} }
func rL(kids ...ritem) ritem    { return ritem{list: true, kids: kids} }
func rEnc(v interface{}) []byte { return refRLP(v.(rvalue).item()) }

type rvalue interface{ item() ritem }

type rA struct {
	N    uint64
	B    []byte
	S    string
	L    []uint16
	Big  *big.Int
	Arr  [3]byte
	Flag bool
	U    *uint256.Int
}

func (v *rA) item() ritem {
	var l []ritem
	for _, x := range v.L {
		l = append(l, rU(uint64(x)))
	}
	f := uint64(0)
	if v.Flag {
		f = 1
	}
	return rL(rU(v.N), rS(v.B), rS([]byte(v.S)), rL(l...), rS(v.Big.Bytes()), rS(v.Arr[:]), rU(f), rS(v.U.Bytes()))
}

type rB struct {
	As  []*rA
	P   *rA `rlp:"nil"`
	C   *rC
	Raw rlp.RawValue
	Opt uint32 `rlp:"optional"`
}

func (v *rB) item() ritem {
	var l []ritem
	for _, x := range v.As {
		l = append(l, x.item())
	}
	p := rL()
	if v.P != nil {
		p = v.P.item()
	}
	kids := []ritem{rL(l...), p, v.C.item(), {raw: v.Raw}}
	if v.Opt != 0 {
		kids = append(kids, rU(uint64(v.Opt)))
	}
	return rL(kids...)
}

type rTree struct {
	V    uint32
	Kids []*rTree
}

func (v *rTree) item() ritem {
	var l []ritem
	for _, x := range v.Kids {
		l = append(l, x.item())
	}
	return rL(rU(uint64(v.V)), rL(l...))
}

type rByte uint8

// rD has the less common shapes.
type rD struct {
	BV   big.Int
	UV   uint256.Int
	A0   [0]byte
	A1   [1]byte
	LA   [2]uint32
	TA   [2]rTail
	I    interface{}
	PA   *[4]byte `rlp:"nil"`
	PU   *uint64  `rlp:"nilString"`
	PL   *[]uint8 `rlp:"nilList"`
	PR   **rTree
	Nb   []rByte
	U8   uint8
	U16  uint16
	skip int
	Skip map[string]int `rlp:"-"`
	O1   []uint64       `rlp:"optional"`
	O2   *big.Int       `rlp:"optional"`
	O3   bool           `rlp:"optional"`
}

func ifaceItem(v interface{}) ritem {
	switch x := v.(type) {
	case []interface{}:
		it := rL()
		for _, e := range x {
			it.kids = append(it.kids, ifaceItem(e))
		}
		return it
	case []byte:
		return rS(x)
	}
	return rL()
}

func (v *rD) item() ritem {
	nb := make([]byte, len(v.Nb))
	for i := range nb {
		nb[i] = byte(v.Nb[i])
	}
	kids := []ritem{rS(v.BV.Bytes()), rS(v.UV.Bytes()), rS(nil), rS(v.A1[:]), rL(rU(uint64(v.LA[0])), rU(uint64(v.LA[1]))),
		rL(v.TA[0].item(), v.TA[1].item()), ifaceItem(v.I)}
	if v.PA == nil {
		kids = append(kids, rS(nil))
	} else {
		kids = append(kids, rS(v.PA[:]))
	}
	if v.PU == nil {
		kids = append(kids, rS(nil))
	} else {
		kids = append(kids, rU(*v.PU))
	}
	if v.PL == nil {
		kids = append(kids, rL())
	} else {
		kids = append(kids, rS(*v.PL))
	}
	kids = append(kids, (*v.PR).item(), rS(nb), rU(uint64(v.U8)), rU(uint64(v.U16)))
	o1 := rL()
	for _, x := range v.O1 {
		o1.kids = append(o1.kids, rU(x))
	}
	o2 := rS(nil)
	if v.O2 != nil {
		o2 = rS(v.O2.Bytes())
	}
	switch {
	case v.O3:
		kids = append(kids, o1, o2, rU(1))
	case v.O2 != nil:
		kids = append(kids, o1, o2)
	case v.O1 != nil:
		kids = append(kids, o1)
	}
	return rL(kids...)
}

func genIface(d int) interface{} {
	if d == 0 || opChance(1, 2) {
		return genBytes(4)
	}
	l := []interface{}{}
	for i, n := 0, op(4); i < n; i++ {
		l = append(l, genIface(d-1))
	}
	return l
}

func genRD() *rD {
	v := &rD{A1: [1]byte{byte(genUint(8))}, LA: [2]uint32{uint32(genUint(32)), uint32(genUint(32))}, I: genIface(3), U8: uint8(genUint(8)), U16: uint16(genUint(16)), skip: 1, Nb: []rByte{}}
	v.BV.SetBytes(genBytes(40))
	u := genBytes(32)
	v.UV.SetBytes(u[:min(len(u), 32)])
	for i := range v.TA {
		v.TA[i] = *genRTail(4)
	}
	if opChance(1, 2) {
		v.PA = new([4]byte)
		copy(v.PA[:], genBytes(4))
	}
	if opChance(1, 2) {
		x := genUint(63) | 1
		v.PU = &x
	}
	if opChance(1, 2) {
		x := []uint8(append(genBytes(5), 9))
		v.PL = &x
	}
	t := genTree(1)
	v.PR = &t
	for _, b := range genBytes(5) {
		v.Nb = append(v.Nb, rByte(b))
	}
	if opChance(1, 2) {
		v.O1 = []uint64{}
		for i, n := 0, op(3); i < n; i++ {
			v.O1 = append(v.O1, genUint(63))
		}
		if opChance(1, 2) {
			v.O2 = new(big.Int).SetBytes(genBytes(40))
			v.O3 = opChance(1, 2)
		}
	}
	return v
}

func genRTail(n int) *rTail {
	v := &rTail{A: uint8(genUint(8))}
	for i, l := 0, op(n); i < l; i++ {
		v.T = append(v.T, genUint(63))
	}
	return v
}

type rTail struct {
	A uint8
	T []uint64 `rlp:"tail"`
}

func (v *rTail) item() ritem {
	l := []ritem{rU(uint64(v.A))}
	for _, x := range v.T {
		l = append(l, rU(x))
	}
	return rL(l...)
}

var errRefuse = errors.New("custom encoder refuses")

// rC encodes itself, as a list of its numbers.
type rC struct {
	X    []uint64
	mode int
}

func (v *rC) item() ritem {
	var l []ritem
	for _, x := range v.X {
		l = append(l, rU(x))
	}
	return rL(l...)
}

func (v *rC) EncodeRLP(w io.Writer) error {
	zzsim.Point()
	switch v.mode {
	case 0:
		return rlp.Encode(w, v.X)
	case 1:
		b := rlp.NewEncoderBuffer(w)
		l := b.List()
		for _, x := range v.X {
			b.WriteUint64(x)
			zzsim.Point()
		}
		b.ListEnd(l)
		return b.Flush()
	case 2:
		b, err := rlp.EncodeToBytes(v.X)
		if err != nil {
			return err
		}
		_, err = w.Write(b)
		return err
	case 3:
		_, rd, err := rlp.EncodeToReader(v.X)
		if err != nil {
			return err
		}
		_, err = io.Copy(w, rd)
		return err
	default:
		b := rlp.NewEncoderBuffer(w)
		b.List()
		b.WriteUint64(7)
		return errRefuse
	}
}

func (v *rC) DecodeRLP(s *rlp.Stream) error {
	zzsim.Point()
	switch v.mode = zzsim.Choose("op", 3); v.mode {
	case 0:
		return s.Decode(&v.X)
	case 1:
		if _, err := s.List(); err != nil {
			return err
		}
		v.X = nil
		for s.MoreDataInList() {
			x, err := s.Uint64()
			if err != nil {
				return err
			}
			v.X = append(v.X, x)
		}
		return s.ListEnd()
	default:
		b, err := s.Raw()
		if err != nil {
			return err
		}
		return rlp.DecodeBytes(b, &v.X)
	}
}

func genBytes(max int) []byte {
	l := op(max + 1)
	if opChance(1, 12) {
		l = 50 + op(300)
	}
	b := make([]byte, l)
	for i := range b {
		b[i] = []byte{0, 1, 0x7f, 0x80, 0xff, byte(i)}[op(6)]
		if i > 12 {
			b[i] = byte(i * l)
		}
	}
	return b
}

func genUint(bits uint) uint64 {
	u := []uint64{0, 1, 0x7f, 0x80, 0xff, 0x100, 1 << 24, 1<<32 - 1, 1 << 56, 1<<64 - 1}[op(10)]
	return u & (1<<bits - 1)
}

func genRC(refuse bool) *rC {
	v := &rC{X: []uint64{}, mode: op(4)}
	for i, l := 0, op(5)*(1+op(4)); i < l; i++ {
		v.X = append(v.X, genUint(63))
	}
	if refuse && opChance(1, 3) {
		v.mode = 4
	}
	return v
}

func genRA() *rA {
	v := &rA{N: genUint(63), B: genBytes(4), S: string(genBytes(5)), Flag: opChance(1, 2), Big: new(big.Int).SetBytes(bytes.TrimLeft(genBytes(40), "\x00"))}
	for i, l := 0, op(4); i < l; i++ {
		v.L = append(v.L, uint16(genUint(16)))
	}
	copy(v.Arr[:], genBytes(3))
	v.U = new(uint256.Int)
	u := genBytes(32)
	if len(u) > 32 {
		u = u[:32]
	}
	v.U.SetBytes(u)
	return v
}

func genTree(d int) *rTree {
	v := &rTree{V: uint32(genUint(32))}
	if d > 0 {
		for i, l := 0, op(4); i < l; i++ {
			v.Kids = append(v.Kids, genTree(d-1))
		}
	}
	return v
}

func genRvalue(refuse bool) rvalue {
	switch op(6) {
	case 0:
		return genRA()
	case 1:
		v := &rB{C: genRC(refuse), Opt: uint32(genUint(32))}
		for i, l := 0, op(3); i < l; i++ {
			v.As = append(v.As, genRA())
		}
		if opChance(1, 2) {
			v.P = genRA()
		}
		v.Raw = refRLP(genTree(1).item())
		return v
	case 2:
		return genTree(3)
	case 3:
		return genRTail(20)
	case 4:
		v := genRD()
		if refuse && opChance(1, 3) {
			v.BV.SetInt64(-1 - int64(op(300)))
		}
		return v
	default:
		return genRC(refuse)
	}
}

func refuses(v rvalue) bool {
	switch x := v.(type) {
	case *rC:
		return x.mode == 4
	case *rB:
		return x.C.mode == 4
	case *rD:
		return x.BV.Sign() < 0
	}
	return false
}

// writeItem writes an item with the primitives of the incremental encoder, and compares
// the functions that announce sizes.
func writeItem(b rlp.EncoderBuffer, it ritem) {
	zzsim.Point()
	enc := refRLP(it)
	switch {
	case it.raw != nil:
		if k, err := b.Write(it.raw); k != len(it.raw) || err != nil {
			fail("rlp-write", "Write of %d bytes to an EncoderBuffer gives %d, %v", len(it.raw), k, err)
		}
	case it.list:
		size := 0
		l := b.List()
		for _, k := range it.kids {
			writeItem(b, k)
			size += len(refRLP(k))
		}
		b.ListEnd(l)
		if got := rlp.ListSize(uint64(size)); got != uint64(len(enc)) {
			fail("rlp-size", "ListSize(%d) = %d, the list takes %d bytes", size, got, len(enc))
		}
	default:
		s := it.str
		if a, c := rlp.BytesSize(s), rlp.StringSize(string(s)); a != uint64(len(enc)) || c != a {
			fail("rlp-size", "BytesSize(%x) = %d, StringSize = %d, the encoding takes %d bytes", s, a, c, len(enc))
		}
		num := len(s) == 0 || s[0] != 0
		u := new(big.Int).SetBytes(s)
		if num && len(s) <= 8 {
			if got := rlp.IntSize(u.Uint64()); got != len(enc) {
				fail("rlp-size", "IntSize(%v) = %d, the encoding takes %d bytes", u, got, len(enc))
			}
			if got := rlp.AppendUint64([]byte("ab"), u.Uint64()); string(got) != "ab"+string(enc) {
				fail("rlp-bytes", "AppendUint64(%v) appends %x, the encoding is %x", u, got[2:], enc)
			}
		}
		switch how := op(6); {
		case how == 0 && num && len(s) <= 8:
			b.WriteUint64(u.Uint64())
		case how == 1 && num:
			b.WriteBigInt(u)
		case how == 2 && num && len(s) <= 32:
			b.WriteUint256(new(uint256.Int).SetBytes(s))
		case how == 3 && num && u.BitLen() <= 1:
			b.WriteBool(u.Sign() == 1)
		case how == 4:
			b.WriteString(string(s))
		default:
			c := cp(s)
			b.WriteBytes(c)
			scramble(c)
		}
	}
}

func runP37(r *R) {
	nt := 1 + op(4)
	h := &History{}
	refuse := zzsim.Chance("cfg", 1, 2)
	shared := genRvalue(false)
	var ts []*zzsim.Task
	for c := 0; c < nt; c++ {
		c := c
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("encoder%d", c), 1, func() {
			for i, l := 0, 1+op(3); i < l; i++ {
				if opChance(1, 6) {
					checkTypes()
				}
				v := genRvalue(refuse)
				if opChance(1, 4) {
					v = shared
				}
				want := rEnc(v)
				bad := refuses(v)
				how := op(7)
				o := h.Call(c, "encode", fmt.Sprintf("%T how=%d refuses=%t %d bytes", v, how, bad, len(want)))
				var got []byte
				var err error
				werr := false
				switch how {
				case 0:
					got, err = rlp.EncodeToBytes(v)
				case 1:
					s := &simSink{errAt: -1}
					if zzsim.Chance("fault", 1, 3) {
						s.errAt = zzsim.Choose("fault", len(want))
					}
					err = rlp.Encode(s, v)
					got, werr = s.b, s.failed
				case 2:
					var sz int
					var rd io.Reader
					sz, rd, err = rlp.EncodeToReader(v)
					if err == nil {
						if sz != len(want) {
							fail("rlp-size", "EncodeToReader of %T announces %d bytes, the encoding has %d", v, sz, len(want))
						}
						abandon := zzsim.Chance("fault", 1, 6)
						buf := make([]byte, 1+op(40))
						for {
							k, e := rd.Read(buf)
							got = append(got, buf[:k]...)
							scramble(buf)
							if e == io.EOF {
								break
							}
							if e != nil {
								fail("rlp-reader", "EncodeToReader: %v", e)
							}
							if len(got) > len(want) {
								fail("rlp-bytes", "EncodeToReader of %T gives more than %d bytes", v, len(want))
							}
							if abandon && opChance(1, 3) {
								break
							}
							if opChance(1, 10) {
								zzsim.Sleep(time.Millisecond)
							}
						}
						if abandon {
							got = append(got, want[min(len(got), len(want)):]...)
						} else {
							for j := op(3); j > 0; j-- {
								if k, e := rd.Read(buf); k != 0 || e != io.EOF {
									fail("rlp-after-eof", "reading after the end gives %d bytes, %v", k, e)
								}
								zzsim.Point()
							}
						}
					}
				case 3: // incremental
					s := &simSink{errAt: -1}
					if zzsim.Chance("fault", 1, 3) {
						s.errAt = zzsim.Choose("fault", len(want)+3)
					}
					b := rlp.NewEncoderBuffer(s)
					if opChance(1, 4) {
						b.WriteString("discarded")
						b.Reset(s)
					}
					outer := b.List()
					b.WriteUint64(5)
					err = rlp.Encode(b, v)
					if err == nil {
						b.ListEnd(outer)
						want = refRLP(rL(rU(5), ritem{raw: want}))
						one := b.ToBytes()
						two := b.AppendToBytes([]byte("x"))
						if !bytes.Equal(one, want) || !bytes.Equal(two[1:], want) {
							fail("rlp-bytes", "EncoderBuffer with %T holds %x and %x, the encoding is %x", v, one, two[1:], want)
						}
						zzsim.Point()
						err = b.Flush()
						got, werr = s.b, s.failed
						if !bytes.Equal(one, want) {
							fail("rlp-aliased", "the bytes returned by ToBytes changed")
						}
					} else {
						b.Flush()
					}
				case 4: // a value and a list of it
					got, err = rlp.EncodeToBytes([]rvalue{v, v})
					want = refRLP(rL(ritem{raw: want}, ritem{raw: want}))
				case 5: // not through a pointer
					switch x := v.(type) {
					case *rA:
						got, err = rlp.EncodeToBytes(*x)
					case *rB:
						got, err = rlp.EncodeToBytes([]interface{}{*x})
						want = refRLP(rL(ritem{raw: want}))
					case *rD:
						got, err = rlp.EncodeToBytes(*x)
					case *rTree:
						got, err = rlp.EncodeToBytes([]rTree{*x})
						want = refRLP(rL(ritem{raw: want}))
					case *rTail:
						got, err = rlp.EncodeToBytes([2]rTail{*x, *x})
						want = refRLP(rL(ritem{raw: want}, ritem{raw: want}))
					case *rC:
						got, err = rlp.EncodeToBytes(struct{ C *rC }{x})
						want = refRLP(rL(ritem{raw: want}))
					}
				case 6: // primitive by primitive
					s := &simSink{errAt: -1}
					if zzsim.Chance("fault", 1, 3) {
						s.errAt = zzsim.Choose("fault", len(want))
					}
					b := rlp.NewEncoderBuffer(s)
					writeItem(b, v.item())
					err = b.Flush()
					got, werr = s.b, s.failed
					bad = false
				}
				h.Return(o, fmt.Sprint(err))
				switch {
				case bad:
					if _, neg := v.(*rD); err == nil || !neg && !errors.Is(err, errRefuse) {
						fail("rlp-encoder-error", "the custom encoder of %T failed and the result is %x, %v", v, got, err)
					}
				case werr:
					if err == nil {
						fail("rlp-writer-error", "the writer failed and Encode reported success")
					}
					if !bytes.HasPrefix(want, got) {
						fail("rlp-bytes", "encoding %T wrote %x, the encoding is %x", v, got, want)
					}
				case err != nil:
					fail("rlp-encode", "encoding %T: %v", v, err)
				case !bytes.Equal(got, want):
					fail("rlp-bytes", "encoding %T (way %d) gives %x, the encoding is %x", v, how, got, want)
				}
				keep := cp(got)
				zzsim.Point()
				if opChance(1, 3) {
					zzsim.Sleep(time.Millisecond)
				}
				if !bytes.Equal(keep, got) {
					fail("rlp-aliased", "the encoding changed after it was returned")
				}
			}
		}))
	}
	zzsim.Join(ts...)
	if overlapping(h) {
		r.Nontrivial()
	}
}

func newRvalue(v rvalue) rvalue {
	if opChance(1, 6) { // into a value that was used before
		switch v.(type) {
		case *rA:
			return genRA()
		case *rTree:
			return genTree(2)
		case *rTail:
			return genRTail(9)
		case *rD:
			return genRD()
		}
	}
	switch v.(type) {
	case *rA:
		return new(rA)
	case *rB:
		return new(rB)
	case *rTree:
		return new(rTree)
	case *rTail:
		return new(rTail)
	case *rD:
		return new(rD)
	}
	return new(rC)
}

// readItem reads one item with the primitives of Stream.
func readItem(s *rlp.Stream, it ritem) error {
	zzsim.Point()
	enc := refRLP(it)
	if it.raw != nil || opChance(1, 8) {
		b, err := s.Raw()
		if err == nil && !bytes.Equal(b, enc) {
			fail("rlp-value", "Raw gives %x, sent %x", b, enc)
		}
		return err
	}
	if opChance(1, 3) {
		k, size, err := s.Kind()
		want := rlp.String
		if it.list {
			want = rlp.List
		} else if len(enc) == 1 && len(it.str) == 1 {
			want = rlp.Byte
		}
		if err != nil {
			return err
		}
		if k != want || k == rlp.String && size != uint64(len(it.str)) {
			fail("rlp-kind", "Kind of %x is %v, %d", enc, k, size)
		}
	}
	if it.list {
		body := 0
		for _, k := range it.kids {
			body += len(refRLP(k))
		}
		if opChance(1, 4) { // wrong questions do not move the stream
			if _, err := s.Bytes(); err != rlp.ErrExpectedString && err != nil && !isReadErr(err) {
				fail("rlp-kind", "Bytes at the list %x reports %v", enc, err)
			} else if err == nil {
				fail("rlp-kind", "Bytes succeeds at the list %x", enc)
			}
		}
		size, err := s.List()
		if err != nil {
			return err
		}
		if size != uint64(body) {
			fail("rlp-size", "List announces %d bytes, %d are in the list", size, body)
		}
		for _, k := range it.kids {
			if !s.MoreDataInList() {
				fail("rlp-list", "MoreDataInList is false before %x", refRLP(k))
			}
			if opChance(1, 10) {
				if err := s.ListEnd(); err == nil {
					fail("rlp-list", "ListEnd succeeds before %x", refRLP(k))
				}
			}
			if err := readItem(s, k); err != nil {
				return err
			}
		}
		if s.MoreDataInList() {
			fail("rlp-list", "MoreDataInList is true at the end of %x", enc)
		}
		if opChance(1, 4) {
			if _, err := s.Uint64(); err != rlp.EOL {
				fail("rlp-list", "reading at the end of a list reports %v", err)
			}
		}
		return s.ListEnd()
	}
	v := it.str
	num := len(v) == 0 || v[0] != 0
	u := new(big.Int).SetBytes(v)
	if opChance(1, 6) {
		if _, err := s.List(); err == nil {
			fail("rlp-kind", "List succeeds at the string %x", enc)
		} else if isReadErr(err) {
			return err
		}
	}
	if num {
		var got uint64
		var err error
		how := op(8)
		bits := []int{8, 16, 32, 64, 64, 1, 0, 0}[how]
		if bits > 0 && (u.BitLen() <= bits || opChance(1, 3) && !(bits == 1 && u.BitLen() <= 8)) {
			switch how {
			case 0:
				var x uint8
				x, err = s.Uint8()
				got = uint64(x)
			case 1:
				var x uint16
				x, err = s.Uint16()
				got = uint64(x)
			case 2:
				var x uint32
				x, err = s.Uint32()
				got = uint64(x)
			case 3:
				got, err = s.Uint64()
			case 4:
				got, err = s.Uint()
			case 5:
				var x bool
				if x, err = s.Bool(); x {
					got = 1
				}
			}
			if u.BitLen() > bits {
				if err == nil {
					fail("rlp-overflow", "the number %x was read as a number of %d bits: %d", v, bits, got)
				}
				if isReadErr(err) {
					return err
				}
				// not moved: it is still there
			} else {
				if err == nil && got != u.Uint64() {
					fail("rlp-value", "the number %x was read as %d", v, got)
				}
				return err
			}
		}
		switch how {
		case 6:
			x, err := s.BigInt()
			if err == nil && x.Cmp(u) != 0 {
				fail("rlp-value", "BigInt gives %x for %x", x, v)
			}
			return err
		case 7:
			if len(v) <= 32 {
				x := uint256.NewInt(5)
				err := s.ReadUint256(x)
				if err == nil && !bytes.Equal(x.Bytes(), v) {
					fail("rlp-value", "ReadUint256 gives %x for %x", x.Bytes(), v)
				}
				return err
			}
		}
	}
	if opChance(1, 2) {
		if opChance(1, 6) {
			if err := s.ReadBytes(make([]byte, len(v)+1)); err == nil {
				fail("rlp-size", "ReadBytes reads %d bytes into %d", len(v), len(v)+1)
			} else if isReadErr(err) {
				return err
			}
		}
		b := make([]byte, len(v))
		err := s.ReadBytes(b)
		if err == nil && !bytes.Equal(b, v) {
			fail("rlp-value", "ReadBytes gives %x for %x", b, v)
		}
		return err
	}
	b, err := s.Bytes()
	if err == nil && !bytes.Equal(b, v) {
		fail("rlp-value", "Bytes gives %x for %x", b, v)
	}
	return err
}

func isReadErr(err error) bool {
	return errors.Is(err, errInjected) || err == io.EOF || err == io.ErrUnexpectedEOF
}

// refSplit splits the first item off b by the definition; ok is false if there is none.
func refSplit(b []byte) (list bool, content, rest []byte, ok bool) {
	if len(b) == 0 {
		return
	}
	t := b[0]
	if t < 0x80 {
		return false, b[:1], b[1:], true
	}
	short, long := byte(0x80), byte(0xb7)
	if list = t >= 0xc0; list {
		short, long = 0xc0, 0xf7
	}
	n, head := new(big.Int), 1
	if t <= long {
		n.SetInt64(int64(t - short))
	} else {
		head = 1 + int(t-long)
		if head > len(b) || b[1] == 0 {
			return
		}
		n.SetBytes(b[1:head])
		if n.Cmp(big.NewInt(56)) < 0 {
			return
		}
	}
	if n.Cmp(big.NewInt(int64(len(b)-head))) > 0 {
		return
	}
	end := head + int(n.Int64())
	content = b[head:end]
	if !list && len(content) == 1 && content[0] < 0x80 {
		return
	}
	return list, content, b[end:], true
}

// trimOptional drops the empty optional elements at the end of the list b, after the first n.
func trimOptional(b []byte, n int) []byte {
	list, content, rest, ok := refSplit(b)
	if !ok || !list || len(rest) > 0 {
		return b
	}
	it := rL()
	for len(content) > 0 && ok {
		_, _, rest, ok = refSplit(content)
		it.kids = append(it.kids, ritem{raw: content[:len(content)-len(rest)]})
		content = rest
	}
	for k := len(it.kids); ok && k > n && (it.kids[k-1].raw[0] == 0x80 || it.kids[k-1].raw[0] == 0xc0); k-- {
		it.kids = it.kids[:k-1]
	}
	return refRLP(it)
}

// checkSplit compares the splitting functions with the definition on any bytes.
func checkSplit(b []byte) {
	list, content, rest, ok := refSplit(b)
	k, c, rs, err := rlp.Split(b)
	if (err == nil) != ok || ok && (k == rlp.List != list || !bytes.Equal(c, content) || !bytes.Equal(rs, rest)) {
		fail("rlp-split", "Split(%x) = %v %x %x %v", b, k, c, rs, err)
	}
	c, rs, err = rlp.SplitString(b)
	if (err == nil) != (ok && !list) || err == nil && (!bytes.Equal(c, content) || !bytes.Equal(rs, rest)) {
		fail("rlp-split", "SplitString(%x) = %x %x %v", b, c, rs, err)
	}
	c, rs, err = rlp.SplitList(b)
	if (err == nil) != (ok && list) || err == nil && (!bytes.Equal(c, content) || !bytes.Equal(rs, rest)) {
		fail("rlp-split", "SplitList(%x) = %x %x %v", b, c, rs, err)
	}
	u, rs, err := rlp.SplitUint64(b)
	isU := ok && !list && len(content) <= 8 && (len(content) == 0 || content[0] != 0)
	if (err == nil) != isU {
		fail("rlp-split", "SplitUint64(%x) = %d %v", b, u, err)
	}
	if err == nil && (u != new(big.Int).SetBytes(content).Uint64() || !bytes.Equal(rs, rest)) {
		fail("rlp-split", "SplitUint64(%x) = %d %x", b, u, rs)
	}
	n, left, good := 0, b, true
	for len(left) > 0 && good {
		_, _, left, good = refSplit(left)
		n++
	}
	if got, err := rlp.CountValues(b); (err == nil) != good || good && got != n {
		fail("rlp-split", "CountValues(%x) = %d, %v", b, got, err)
	}
	it, err := rlp.NewListIterator(b)
	if (err == nil) != (ok && list) {
		fail("rlp-split", "NewListIterator(%x): %v", b, err)
	}
	if err == nil {
		left := content
		for it.Next() {
			_, _, rest, ok := refSplit(left)
			if (it.Err() == nil) != ok || ok && !bytes.Equal(it.Value(), left[:len(left)-len(rest)]) {
				fail("rlp-split", "the list iterator gives %x, %v at %x", it.Value(), it.Err(), left)
			}
			if !ok {
				break
			}
			left = rest
		}
		if it.Err() == nil && len(left) > 0 {
			fail("rlp-split", "the list iterator stops before %x", left)
		}
	}
}

// byteStream is a connection that can also read single bytes, so that nothing is buffered.
type byteStream struct{ *simStream }

func (s byteStream) ReadByte() (byte, error) {
	var b [1]byte
	for {
		k, err := s.Read(b[:])
		if k == 1 {
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

func runP38(r *R) {
	nt := 1 + op(4)
	total := 0
	var ts []*zzsim.Task
	for c := 0; c < nt; c++ {
		var vals []rvalue
		for i, l := 0, 1+op(4); i < l; i++ {
			vals = append(vals, genRvalue(false))
			total++
		}
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("conn%d", c), 1, func() { p38conn(vals) }))
	}
	zzsim.Join(ts...)
	if total >= 2 {
		r.Nontrivial()
	}
}

func p38conn(vals []rvalue) {
	var full []byte
	var ends []int
	for _, v := range vals {
		full = append(full, rEnc(v)...)
		ends = append(ends, len(full))
	}
	if zzsim.Chance("cfg", 1, 3) { // messages, one by one, some corrupted
		for i, v := range vals {
			start := 0
			if i > 0 {
				start = ends[i-1]
			}
			b := cp(full[start:ends[i]])
			intact := true
			for zzsim.Chance("fault", 1, 3) {
				stat("fault.corrupted")
				switch zzsim.Choose("fault", 4) {
				case 0:
					b[zzsim.Choose("fault", len(b))] ^= byte(1 << zzsim.Choose("fault", 8))
				case 1:
					b = b[:zzsim.Choose("fault", len(b))]
				case 2:
					b = append(b, byte(zzsim.Choose("fault", 256)))
				case 3:
					j := zzsim.Choose("fault", len(b))
					b = append(b[:j:j], append([]byte{byte(zzsim.Choose("fault", 256))}, b[j:]...)...)
				}
				intact = false
				if len(b) == 0 {
					break
				}
			}
			keep := cp(b)
			intact = intact || bytes.Equal(b, full[start:ends[i]])
			if opChance(1, 2) {
				checkSplit(b)
			}
			got := newRvalue(v)
			var err error
			how := op(3)
			switch how {
			case 0:
				err = rlp.DecodeBytes(b, got)
			case 1:
				s := rlp.NewStream(newStream(b), uint64(len(b)))
				if err = s.Decode(got); err == nil {
					if _, _, e := s.Kind(); e != io.EOF {
						err = fmt.Errorf("more data: %v", e)
					}
				}
			case 2:
				err = rlp.Decode(bytes.NewReader(b), got)
				if _, _, rest, ok := refSplit(b); err == nil && ok && len(rest) > 0 { // the first value of more
					b, keep = b[:len(b)-len(rest)], keep[:len(b)-len(rest)]
				}
			}
			ev("decode %T way %d intact=%t -> %v", v, how, intact, err)
			if !bytes.Equal(keep, b) {
				fail("rlp-input", "decoding changed its input")
			}
			scramble(b)
			if err != nil {
				if intact {
					fail("rlp-refused", "decoding the %T %x (way %d): %v", v, keep, how, err)
				}
				continue
			}
			if e := rEnc(got); !bytes.Equal(e, keep) {
				if intact {
					fail("rlp-value", "%x decodes as a %T that encodes as %x", keep, got, e)
				}
				// a list of the RawValue may hold anything, optional fields may be written though
				// they are empty; everything else is canonical
				n := map[string]int{"*main.rB": 4, "*main.rD": 14}[fmt.Sprintf("%T", v)]
				if n > 0 && bytes.Equal(trimOptional(e, n), trimOptional(keep, n)) {
					continue
				}
				fail("rlp-accepted", "the corrupted message %x was accepted as a %T that encodes as %x", keep, got, e)
			}
		}
		return
	}
	st := newStream(full)
	trunc := -1
	switch zzsim.Choose("fault", 4) {
	case 0:
		trunc = zzsim.Choose("fault", len(full)+1)
		st.b = full[:trunc]
		stat("fault.truncated")
	case 1:
		st.errAt = zzsim.Choose("fault", len(full)+1)
		st.err = errInjected
		trunc = st.errAt
		stat("fault.read_error")
	}
	bs := byteStream{st}
	way := op(6)
	var s *rlp.Stream
	limit := len(full)
	switch way {
	case 1:
		s = rlp.NewStream(st, 0)
	case 2:
		limit = len(full)
		if trunc < 0 && len(full) > 0 && opChance(1, 2) { // what follows belongs to somebody else
			limit = 1 + op(len(full))
		}
		s = rlp.NewStream(bs, uint64(limit))
	case 4:
		s = rlp.NewStream(bs, 0)
	}
	var i int
	var got rvalue
	var err error
	if way == 3 { // as elements of one list
		whole := refRLP(rL(ritem{raw: full}))
		st = newStream(whole)
		bs = byteStream{st}
		trunc = -1
		s = rlp.NewStream(bs, 0)
		if _, err := s.List(); err != nil {
			fail("rlp-refused", "List: %v", err)
		}
	}
	if way == 5 { // the content of a list whose head is known
		s = rlp.NewListStream(bs, uint64(len(full)))
		if _, err := s.List(); err != nil {
			fail("rlp-refused", "List: %v", err)
		}
	}
	for i = range vals {
		got = newRvalue(vals[i])
		if way == 4 {
			got = vals[i]
			err = readItem(s, vals[i].item())
		} else if way == 0 {
			err = rlp.Decode(bs, got)
		} else {
			err = s.Decode(got)
		}
		ev("read a %T, way %d -> %v", got, way, err)
		if ends[i] > limit {
			if err == nil || i > 0 && ends[i-1] == limit && err != io.EOF {
				fail("rlp-limit", "decoding a %T that ends at byte %d of a stream limited to %d: %v", got, ends[i], limit, err)
			}
			if st.off > limit {
				fail("rlp-limit", "%d bytes were taken from a stream limited to %d", st.off, limit)
			}
			return
		}
		if trunc >= 0 && ends[i] > trunc {
			if err == nil {
				fail("rlp-read-cut", "the connection ended after %d bytes, inside a %T that ends at byte %d, and decoding it succeeded", trunc, got, ends[i])
			}
			if st.lost && err == io.EOF {
				fail("rlp-read-error", "the connection failed inside a %T and decoding reports the end of the stream", got)
			}
			return
		}
		if err != nil {
			if st.lost { // the error came with the last bytes
				return
			}
			fail("rlp-refused", "decoding a %T, whole on the connection (way %d): %v", got, way, err)
		}
		if e := rEnc(got); !bytes.Equal(e, rEnc(vals[i])) {
			fail("rlp-value", "a %T arrived as %x, sent %x", got, e, rEnc(vals[i]))
		}
	}
	switch {
	case way == 5 && trunc >= 0:
	case way == 3 || way == 5:
		if _, _, e := s.Kind(); e != rlp.EOL {
			fail("rlp-end", "after the last element Kind reports %v", e)
		}
		if e := s.ListEnd(); e != nil {
			fail("rlp-end", "after the last element ListEnd reports %v", e)
		}
	case way == 0:
		err = rlp.Decode(bs, new(rTail))
	default:
		err = s.Decode(new(rTail))
	}
	if way != 3 && way != 5 && trunc < 0 && err != io.EOF {
		fail("rlp-end", "at the end of the stream decoding reports %v", err)
	}
}

// types that RLP cannot hold
type (
	badNil struct {
		A uint64 `rlp:"nil"`
	}
	badTail struct {
		A []uint64 `rlp:"tail"`
		B uint64
	}
	badTail2 struct {
		A uint64 `rlp:"tail"`
	}
	badOpt struct {
		A uint64 `rlp:"optional"`
		B uint64
	}
	badTag struct {
		A uint64 `rlp:"nill"`
	}
	badBoth struct {
		A []uint64 `rlp:"tail,optional"`
	}
	badField struct {
		A uint64
		B map[string]int
	}
	badElem struct{ L []chan int }
	rWords  struct {
		A uint
		B uintptr
		C uint8
		D uint32
		E bool
		F [3]byte
		G *uint
	}
)

var badTypes = []interface{}{make(chan int), map[string]uint64{}, int(5), int64(-5), 1.5, func() {}, badNil{}, badTail{}, badTail2{}, badOpt{}, badTag{}, badBoth{},
	badField{1, nil}, badElem{[]chan int{nil}}, []badTag{{}}, &badNil{}}

// checkTypes: what has no encoding is refused, every time; every unsigned type encodes as its number.
func checkTypes() {
	for j := 1 + op(2); j > 0; j-- {
		b := badTypes[op(len(badTypes))]
		var out []byte
		var err, derr error
		if pv := try(func() { out, err = rlp.EncodeToBytes(b) }); pv != nil {
			fail("rlp-type", "encoding a %T: %v", b, pv)
		}
		if err == nil {
			fail("rlp-type", "a %T is encoded as %x", b, out)
		}
		in := refRLP([]ritem{rU(5), rL(), rL(rU(1)), rL(rU(1), rU(2)), rL(rL(rU(1)))}[op(5)])
		v := reflect.New(reflect.TypeOf(b))
		if pv := try(func() { derr = rlp.DecodeBytes(in, v.Interface()) }); pv != nil {
			fail("rlp-type", "decoding %x as a %T: %v", in, b, pv)
		}
		if derr == nil {
			fail("rlp-type", "%x is decoded as a %T", in, b)
		}
		if strings.Contains(err.Error(), "tag") != strings.Contains(derr.Error(), "tag") {
			fail("rlp-type", "a %T is refused by the encoder with %q and by the decoder with %q", b, err, derr)
		}
	}
	x := rWords{uint(genUint(64)), uintptr(genUint(64)), uint8(genUint(8)), uint32(genUint(32)), opChance(1, 2), [3]byte{byte(op(256)), 0, byte(op(3))}, nil}
	g := uint(genUint(64))
	x.G = &g
	want := refRLP(rL(rU(uint64(x.A)), rU(uint64(x.B)), rU(uint64(x.C)), rU(uint64(x.D)), rU(uint64(boolInt(x.E))), rS(x.F[:]), rU(uint64(g))))
	got, err := rlp.EncodeToBytes(x)
	if err != nil || !bytes.Equal(got, want) {
		fail("rlp-bytes", "%+v is encoded as %x, %v; expected %x", x, got, err, want)
	}
	var y rWords
	if err := rlp.DecodeBytes(got, &y); err != nil || y.A != x.A || y.B != x.B || y.C != x.C || y.D != x.D || y.E != x.E || y.F != x.F || y.G == nil || *y.G != g {
		fail("rlp-value", "%x is decoded as %+v, %v; expected %+v", got, y, err, x)
	}
	// one more than a byte, or than a word
	for _, c := range []struct {
		to  interface{}
		max uint64
	}{{new(uint8), 0xff}, {new(uint16), 0xffff}, {new(uint32), 0xffffffff}} {
		v := genUint(40)
		err := rlp.DecodeBytes(refRLP(rU(v)), c.to)
		if r := reflect.ValueOf(c.to).Elem().Uint(); (err == nil) != (v <= c.max) || err == nil && r != v {
			fail("rlp-value", "%d is decoded as a %T: %d, %v", v, c.to, r, err)
		}
	}
}
