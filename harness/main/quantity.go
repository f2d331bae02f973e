//go:build go1.22

package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/bits"
	"reflect"
	"strings"
	"time"

	"github.com/ThinkiumGroup/go-common/hexutil"
	cmath "github.com/ThinkiumGroup/go-common/math"
	"github.com/ThinkiumGroup/go-common/zzsim"
)

func init() {
	register(&Prop{ID: "P51", Run: runP51, Quick: 60000, QuickS: 15,
		Rule: "Non-trivial: at least four quantities were exchanged although messages were lost, repeated, reordered or corrupted, or two tasks used one number at the same time.",
		Real: "hexutil, the text forms of package math", Stub: "the network, goroutine scheduling"})
	register(&Prop{ID: "P52", Run: runP52, Quick: 60000, QuickS: 15,
		Rule: "Non-trivial: at least two replicas applied at least six operations on numbers that they share, and messages were lost, repeated or reordered, or a replica crashed, or two tasks computed at the same time.",
		Real: "package math", Stub: "the network, the storage of the replicas, goroutine scheduling"})
}

// ---------------------------------------------------------------- reference texts

const hexDigits = "0123456789abcdef"

func isHex(s string) bool {
	for _, c := range []byte(s) {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return false
		}
	}
	return true
}

func isDec(s string) bool {
	for _, c := range []byte(s) {
		if c < '0' || c > '9' {
			return false
		}
	}
	return s != ""
}

func hexPrefixed(s string) bool { return strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X") }

// digits is the number that the digits denote.
func digits(s string, base int64) *big.Int {
	x := new(big.Int)
	for _, c := range []byte(strings.ToLower(s)) {
		x.Mul(x, big.NewInt(base)).Add(x, big.NewInt(int64(strings.IndexByte(hexDigits, c))))
	}
	return x
}

// a format of texts: the reference reading of a text, nil if it must be refused, and what the refusal says.
type reading func(s string) (v interface{}, bad string)

const anyBad = "?"

func readData(wantPrefix, emptyOK bool, size int) reading {
	return func(s string) (interface{}, string) {
		if s == "" && !emptyOK {
			return nil, "empty hex string"
		}
		if s != "" && !hexPrefixed(s) && wantPrefix {
			return nil, "hex string without 0x prefix"
		}
		if hexPrefixed(s) {
			s = s[2:]
		}
		odd, syntax, length := len(s)%2 != 0, !isHex(s), size >= 0 && len(s)/2 != size
		switch {
		case odd && !syntax && !length:
			return nil, "hex string of odd length"
		case !odd && syntax && !length:
			return nil, "invalid hex string"
		case odd || syntax || length:
			return nil, anyBad
		}
		b, _ := hex.DecodeString(s)
		return b, ""
	}
}

func readQuantity(emptyOK bool, nbits int, over string) reading {
	return func(s string) (interface{}, string) {
		if s == "" {
			if emptyOK {
				return new(big.Int), ""
			}
			return nil, "empty hex string"
		}
		if !hexPrefixed(s) {
			return nil, "hex string without 0x prefix"
		}
		s = s[2:]
		if s == "" {
			return nil, `hex string "0x"`
		}
		lead, syntax, long := len(s) > 1 && s[0] == '0', !isHex(s), len(s) > nbits/4
		switch {
		case lead && !syntax && !long:
			return nil, "hex number with leading zero digits"
		case syntax && !lead && !long:
			return nil, "invalid hex string"
		case long && !lead && !syntax:
			return nil, over
		case lead || syntax || long:
			return nil, anyBad
		}
		return digits(s, 16), ""
	}
}

func readHexOrDecimal(nbits int, signed bool) reading {
	return func(s string) (interface{}, string) {
		if s == "" {
			return new(big.Int), ""
		}
		neg := false
		if signed && (s[0] == '-' || s[0] == '+') {
			neg = s[0] == '-'
			s = s[1:]
		}
		var x *big.Int
		if hexPrefixed(s) && len(s) > 2 && isHex(s[2:]) {
			x = digits(s[2:], 16)
		} else if isDec(s) {
			x = digits(s, 10)
		}
		if x == nil || x.BitLen() > nbits {
			return nil, anyBad
		}
		if neg {
			x.Neg(x)
		}
		return x, ""
	}
}

type fixed20 [20]byte

var fixed20T = reflect.TypeOf(fixed20{})

func (f *fixed20) UnmarshalJSON(in []byte) error {
	return hexutil.UnmarshalFixedJSON(fixed20T, in, f[:])
}
func (f *fixed20) UnmarshalText(in []byte) error {
	return hexutil.UnmarshalFixedText("fixed20", in, f[:])
}
func (f fixed20) MarshalText() ([]byte, error) { return hexutil.Bytes(f[:]).MarshalText() }

type loose4 [4]byte

func (f *loose4) UnmarshalText(in []byte) error {
	return hexutil.UnmarshalFixedUnprefixedText("loose4", in, f[:])
}
func (f loose4) MarshalText() ([]byte, error) { return []byte(hex.EncodeToString(f[:])), nil }

// the payment that the nodes exchange
type payment struct {
	Amount  *hexutil.Big           `json:"amount"`
	Fee     hexutil.Big            `json:"fee"`
	Nonce   hexutil.Uint64         `json:"nonce"`
	Index   hexutil.Uint           `json:"index"`
	Data    hexutil.Bytes          `json:"data"`
	To      fixed20                `json:"to"`
	Tag     loose4                 `json:"tag"`
	Price   *cmath.HexOrDecimal256 `json:"price"`
	Balance *cmath.Decimal256      `json:"balance"`
	Gas     cmath.HexOrDecimal64   `json:"gas"`
}

var paymentFields = []string{"amount", "fee", "nonce", "index", "data", "to", "tag", "price", "balance", "gas"}

func (p *payment) values() []interface{} {
	return []interface{}{(*big.Int)(p.Amount), (*big.Int)(&p.Fee), uint64(p.Nonce), uint64(p.Index), []byte(p.Data), p.To[:], p.Tag[:],
		(*big.Int)(p.Price), (*big.Int)(p.Balance), uint64(p.Gas)}
}

// the readings of the fields and whether they are read from JSON strings as they are written
var paymentReads = []reading{readQuantity(true, 256, "hex number > 256 bits"), readQuantity(true, 256, "hex number > 256 bits"),
	readQuantity(true, 64, "hex number > 64 bits"), readQuantity(true, 64, "hex number > 64 bits"), readData(true, true, -1),
	readData(true, true, 20), readData(false, true, 4), readHexOrDecimal(256, true), readHexOrDecimal(256, true), readHexOrDecimal(64, false)}
var paymentRaw = []bool{true, true, true, true, true, true, false, false, false, false}

func showV(v interface{}) string {
	switch x := v.(type) {
	case *big.Int:
		if x == nil {
			return "nil"
		}
		return x.String()
	case uint64:
		return new(big.Int).SetUint64(x).String()
	case []byte:
		return fmt.Sprintf("%x", x)
	}
	return fmt.Sprint(v)
}

func showVs(vs []interface{}) (r []string) {
	for _, v := range vs {
		r = append(r, showV(v))
	}
	return
}

// genBig is a number with many edges, of up to n bits.
func genBig(n int) *big.Int {
	x := new(big.Int)
	b := op(n + 1)
	switch op(7) {
	case 0:
		return x.SetInt64(int64(op(20)))
	case 1:
		return x.Lsh(big.NewInt(1), uint(min(b, n-1)))
	case 2:
		return x.Sub(x.Lsh(big.NewInt(1), uint(b)), big.NewInt(1))
	case 3:
		x.SetInt64(int64(1 + op(99)))
		for x.BitLen() < b-4 {
			x.Mul(x, big.NewInt(10))
		}
		return x
	case 4: // a number with empty words
		x.Lsh(big.NewInt(int64(1+op(255))), uint(64*(op(n+63)/64)))
		x.Add(x, big.NewInt(int64(op(3))))
	default:
		x.SetBytes(rawBytes((b + 7) / 8))
	}
	return x.And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n)), big.NewInt(1)))
}

func rawBytes(k int) []byte {
	b := make([]byte, k)
	for i := range b {
		b[i] = byte(op(256))
	}
	return b
}

func genU64() uint64 { return genBig(64).Uint64() }

func genSigned(n int) *big.Int {
	x := genBig(n)
	if opChance(1, 4) {
		x.Neg(x)
	}
	return x
}

// ---------------------------------------------------------------- P51

// damageText corrupts a text: digits, case, prefix, length, sign, foreign characters.
func damageText(s string) string {
	b := []byte(s)
	at := 0
	if len(b) > 0 {
		at = n("fault", len(b))
	}
	ins := func(i int, t string) { b = append(b[:i:i], append([]byte(t), b[i:]...)...) }
	switch n("fault", 12) {
	case 0:
		if len(b) > 0 {
			b = append(b[:at:at], b[at+1:]...)
		}
	case 1:
		ins(at, string("0123456789abcdefABCDEF"[n("fault", 22)]))
	case 2:
		ins(at, string("gGxX_ +-.:/@`\"\\\x00\x80\xff{"[n("fault", 19)]))
	case 3:
		if len(b) > 0 {
			b[at] = byte(n("fault", 256))
		}
	case 4:
		b = []byte(strings.ToUpper(s))
	case 5:
		b = []byte(strings.TrimPrefix(s, "0x"))
	case 6:
		ins(0, "0x")
	case 7:
		b = b[:at]
	case 8:
		ins(min(2, len(b)), strings.Repeat("0", 1+n("fault", 3)))
	case 9:
		ins(len(b), strings.Repeat("f", 1+n("fault", 64)))
	case 10:
		ins(min(2*n("fault", 2), len(b)), []string{"-", "+"}[n("fault", 2)])
	case 11:
		b = []byte([]string{"", "0", "0x", "0X", "x", "0x0", "00", "-0", "+", "-", "0x-1", "-0x1", "null"}[n("fault", 13)])
	}
	return string(b)
}

// one way to read texts
type textReader struct {
	name string
	ref  reading
	// read decodes into a destination that holds old, and gives the value then held
	read func(s string) (got interface{}, held interface{}, err error)
}

func unmarshal(name string, ref reading, old interface{}, mk func() (dst interface{}, held func() interface{})) textReader {
	return textReader{name, ref, func(s string) (interface{}, interface{}, error) {
		d, held := mk()
		in := []byte(s)
		if j, is := d.(json.Unmarshaler); is && !strings.Contains(name, "Decimal") && opChance(1, 3) {
			notStrings(name, j, s, held, old)
		}
		err := d.(interface{ UnmarshalText([]byte) error }).UnmarshalText(in)
		if string(in) != s {
			fail("quantity-shared", "%s changed the text it reads: %q into %q", name, s, in)
		}
		for i := range in {
			in[i] ^= 0x55
		}
		return held(), old, err
	}}
}

// notStrings gives tokens that are no JSON strings to the decoder: they must be
// refused and leave the destination as it was.
func notStrings(name string, d json.Unmarshaler, s string, held func() interface{}, old interface{}) {
	for _, t := range []string{s, `"` + s, s + `"`, `"`, ""} {
		if len(t) >= 2 && t[0] == '"' && t[len(t)-1] == '"' {
			continue
		}
		var err error
		if pv := try(func() { err = d.UnmarshalJSON([]byte(t)) }); pv != nil {
			fail("quantity-json", "%s: the JSON token %q: %v", name, t, pv)
		}
		if err == nil {
			fail("quantity-json", "%s: the JSON token %q, which is no string, is read as %v", name, t, held())
		}
		if fmt.Sprint(held()) != fmt.Sprint(old) {
			fail("quantity-json", "%s: the refused JSON token %q changed %v into %v", name, t, old, held())
		}
	}
}

func must(f func() interface{}) (v interface{}, err error) {
	if pv := try(func() { v = f() }); pv != nil {
		return nil, fmt.Errorf("%v", pv)
	}
	return v, nil
}

var seven = big.NewInt(7)

var textReaders = []textReader{
	{"Decode", readData(true, false, -1), func(s string) (interface{}, interface{}, error) {
		b, err := hexutil.Decode(s)
		return b, nil, err
	}},
	{"MustDecode", readData(true, false, -1), func(s string) (interface{}, interface{}, error) {
		b, err := must(func() interface{} { return hexutil.MustDecode(s) })
		return b, nil, err
	}},
	{"DecodeUint64", readQuantity(false, 64, "hex number > 64 bits"), func(s string) (interface{}, interface{}, error) {
		x, err := hexutil.DecodeUint64(s)
		return x, nil, err
	}},
	{"MustDecodeUint64", readQuantity(false, 64, "hex number > 64 bits"), func(s string) (interface{}, interface{}, error) {
		x, err := must(func() interface{} { return hexutil.MustDecodeUint64(s) })
		return x, nil, err
	}},
	{"DecodeBig", readQuantity(false, 256, "hex number > 256 bits"), func(s string) (interface{}, interface{}, error) {
		x, err := hexutil.DecodeBig(s)
		return x, nil, err
	}},
	{"MustDecodeBig", readQuantity(false, 256, "hex number > 256 bits"), func(s string) (interface{}, interface{}, error) {
		x, err := must(func() interface{} { return hexutil.MustDecodeBig(s) })
		return x, nil, err
	}},
	unmarshal("Bytes.UnmarshalText", readData(true, true, -1), []byte("old"), func() (interface{}, func() interface{}) {
		d := hexutil.Bytes("old")
		return &d, func() interface{} { return []byte(d) }
	}),
	unmarshal("Big.UnmarshalText", readQuantity(true, 256, "hex number > 256 bits"), seven, func() (interface{}, func() interface{}) {
		d := hexutil.Big(*big.NewInt(7))
		return &d, func() interface{} { return d.ToInt() }
	}),
	unmarshal("Uint64.UnmarshalText", readQuantity(true, 64, "hex number > 64 bits"), uint64(7), func() (interface{}, func() interface{}) {
		d := hexutil.Uint64(7)
		return &d, func() interface{} { return uint64(d) }
	}),
	unmarshal("Uint.UnmarshalText", readQuantity(true, 64, fmt.Sprintf("hex number > %d bits", bits.UintSize)), uint64(7), func() (interface{}, func() interface{}) {
		d := hexutil.Uint(7)
		return &d, func() interface{} { return uint64(d) }
	}),
	unmarshal("UnmarshalFixedText", readData(true, true, 20), make([]byte, 20), func() (interface{}, func() interface{}) {
		d := &fixed20{}
		return d, func() interface{} { return d[:] }
	}),
	unmarshal("UnmarshalFixedUnprefixedText", readData(false, true, 4), make([]byte, 4), func() (interface{}, func() interface{}) {
		d := &loose4{}
		return d, func() interface{} { return d[:] }
	}),
	unmarshal("HexOrDecimal256.UnmarshalText", readHexOrDecimal(256, true), seven, func() (interface{}, func() interface{}) {
		d := cmath.NewHexOrDecimal256(7)
		return d, func() interface{} { return (*big.Int)(d) }
	}),
	unmarshal("Decimal256.UnmarshalText", readHexOrDecimal(256, true), seven, func() (interface{}, func() interface{}) {
		d := cmath.NewDecimal256(7)
		return d, func() interface{} { return (*big.Int)(d) }
	}),
	unmarshal("HexOrDecimal64.UnmarshalText", readHexOrDecimal(64, false), uint64(7), func() (interface{}, func() interface{}) {
		d := cmath.HexOrDecimal64(7)
		return &d, func() interface{} { return uint64(d) }
	}),
	{"ParseBig256", readHexOrDecimal(256, true), func(s string) (interface{}, interface{}, error) {
		x, ok := cmath.ParseBig256(s)
		if !ok {
			return nil, nil, errInjected
		}
		return x, nil, nil
	}},
	{"MustParseBig256", readHexOrDecimal(256, true), func(s string) (interface{}, interface{}, error) {
		x, err := must(func() interface{} { return cmath.MustParseBig256(s) })
		return x, nil, err
	}},
	{"ParseUint64", readHexOrDecimal(64, false), func(s string) (interface{}, interface{}, error) {
		x, ok := cmath.ParseUint64(s)
		if !ok {
			return nil, nil, errInjected
		}
		return x, nil, nil
	}},
	{"MustParseUint64", readHexOrDecimal(64, false), func(s string) (interface{}, interface{}, error) {
		x, err := must(func() interface{} { return cmath.MustParseUint64(s) })
		return x, nil, err
	}},
}

func readText(t *textReader, s string) {
	want, bad := t.ref(s)
	got, held, err := t.read(s)
	zzsim.Point()
	if bad != "" {
		if err == nil {
			fail("quantity-refuse", "%s accepts %q as %s", t.name, s, showV(got))
		}
		if bad != anyBad && err.Error() != bad {
			fail("quantity-refuse", "%s refuses %q with %q instead of %q", t.name, s, err, bad)
		}
		if held != nil && showV(got) != showV(held) {
			fail("quantity-refuse", "%s refuses %q and changes its destination from %s to %s", t.name, s, showV(held), showV(got))
		}
		return
	}
	if err != nil || showV(got) != showV(want) {
		fail("quantity-read", "%s(%q) = %s, %v; expected %s", t.name, s, showV(got), err, showV(want))
	}
}

func runP51(r *R) {
	loss := []int{0, 20}[n("cfg", 2)]
	corrupt := []int{0, 30, 60}[n("cfg", 3)]
	nc := 1 + n("cfg", 3)
	faults, budget := 0, 14
	var inbox [][]byte
	acks := map[int]bool{}
	sent := map[int][]interface{}{}
	texts := map[string]string{} // text of a value in flight
	send := func(id int, w []byte) {
		for k := 1; k >= 0; k-- {
			if faults < budget && zzsim.Chance("fault", loss, 100) {
				stat("fault.message_lost")
				faults++
				continue
			}
			w := cp(w)
			if faults < budget && zzsim.Chance("fault", corrupt, 100) {
				stat("fault.message_corrupted")
				faults++
				w = damagePayment(w)
			}
			at := len(inbox)
			if faults < budget && at > 0 && zzsim.Chance("fault", 1, 4) {
				stat("fault.message_reordered")
				at = n("fault", at+1)
			}
			inbox = append(inbox[:at:at], append([][]byte{w}, inbox[at:]...)...)
			if faults >= budget || !zzsim.Chance("fault", 1, 6) {
				break
			}
			stat("fault.message_repeated")
			faults++
		}
	}
	// numbers that all clients pay with
	var shared []*big.Int
	var sharedText []string
	for i := 0; i < 3; i++ {
		x := genBig(256)
		shared = append(shared, x)
		sharedText = append(sharedText, x.String())
	}
	sharedData := rawBytes(op(12))
	dataText := hex.EncodeToString(sharedData)
	unchanged := func(who string) {
		for i, x := range shared {
			if x.String() != sharedText[i] {
				fail("quantity-shared", "%s: the shared number %s changed into %s", who, sharedText[i], x)
			}
		}
		if hex.EncodeToString(sharedData) != dataText {
			fail("quantity-shared", "%s: the shared data %s changed into %x", who, dataText, sharedData)
		}
	}
	stop := false
	zzsim.Spawn("receiver", 99, func() {
		last := payment{}
		for !stop {
			zzsim.WaitUntil("payments", func() bool { return len(inbox) > 0 || stop })
			if stop {
				return
			}
			w := inbox[0]
			inbox = inbox[1:]
			if len(w) < 6 {
				continue
			}
			id, body := int(w[0])<<8|int(w[1]), w[6:]
			intact := eq(keccak(w[:2], body)[:4], w[2:6])
			if intact && sent[id] == nil {
				fail("quantity-shared", "a payment nobody made arrived intact")
			}
			dst := &payment{}
			switch op(3) {
			case 0: // a record that is used again
				dst = &last
			case 1: // a copy of a record with default values, which others hold too
				x, y, z, f := hexutil.Big(*shared[0]), cmath.HexOrDecimal256(*shared[1]), cmath.Decimal256(*shared[2]), hexutil.Big(*shared[1])
				dst = &payment{Amount: &x, Fee: f, Price: &y, Balance: &z, Data: sharedData}
			}
			before := showVs(dst.values())
			err := json.Unmarshal(body, dst)
			after := showVs(dst.values())
			zzsim.Point()
			judgePayment(body, before, after, err)
			if intact {
				if err != nil || fmt.Sprint(after) != fmt.Sprint(showVs(sent[id])) {
					fail("quantity-read", "the payment %s is read as %s, %v; expected %s", body, after, err, showVs(sent[id]))
				}
				acks[id] = true
			}
			for i := range body {
				body[i] ^= 0xaa
			}
			if g := showVs(dst.values()); fmt.Sprint(g) != fmt.Sprint(after) {
				fail("quantity-shared", "a payment read as %s becomes %s with its message", after, g)
			}
			unchanged("reading")
			if err == nil && intact && n("fault", 3) == 0 { // the record is ours
				for i := range dst.Data {
					dst.Data[i]++
				}
				if dst.Amount != nil {
					dst.Amount.ToInt().Add(dst.Amount.ToInt(), seven)
				}
			}
		}
	})
	var ts []*zzsim.Task
	made, busy, overlap, next := 0, 0, false, 0
	pick := func() *big.Int {
		if opChance(1, 2) {
			return shared[op(len(shared))]
		}
		return genBig(256)
	}
	for ci := 0; ci < nc; ci++ {
		ts = append(ts, zzsim.Spawn(fmt.Sprint("client", ci), ci, func() {
			for i := op(4); i >= 0; i-- {
				id := next
				next++
				busy++
				overlap = overlap || busy > 1
				p := &payment{Fee: hexutil.Big(*pick()), Nonce: hexutil.Uint64(genU64()), Index: hexutil.Uint(genU64()), Data: rawBytes(op(6)),
					Gas: cmath.HexOrDecimal64(genU64())}
				if opChance(1, 2) {
					p.Data = sharedData
				}
				p.Amount = (*hexutil.Big)(pick())
				p.Price, p.Balance = (*cmath.HexOrDecimal256)(pick()), (*cmath.Decimal256)(pick())
				if opChance(1, 6) {
					p.Price, p.Balance = (*cmath.HexOrDecimal256)(genSigned(200)), (*cmath.Decimal256)(genSigned(200))
				}
				copy(p.To[:], rawBytes(20))
				copy(p.Tag[:], rawBytes(4))
				vals := p.values()
				sent[id] = vals
				want := showVs(vals)
				ev("client %d: payment %d %s", ci, id, want)
				body, err := json.Marshal(p)
				exp := paymentText(vals)
				if err != nil || string(body) != exp {
					fail("quantity-write", "a payment of %s is written as %s, %v; expected %s", want, body, err, exp)
				}
				writeTexts(p, vals, texts)
				if g := showVs(vals); fmt.Sprint(g) != fmt.Sprint(want) {
					fail("quantity-shared", "writing changed the payment %s into %s", want, g)
				}
				unchanged("writing")
				// texts on their way to other nodes, some damaged, in every form
				for j := op(4); j >= 0; j-- {
					s := paymentTexts(vals)[op(len(paymentFields))]
					for corrupt > 0 && n("fault", 2) == 0 {
						stat("fault.text_damaged")
						s = damageText(s)
					}
					t := &textReaders[op(len(textReaders))]
					readText(t, s)
				}
				w := append([]byte{byte(id >> 8), byte(id)}, append(keccak([]byte{byte(id >> 8), byte(id)}, body)[:4], body...)...)
				for j := 0; !acks[id]; j++ {
					if j > 60 {
						fail("quantity-stuck", "payment %d is not read", id)
					}
					send(id, w)
					zzsim.Sleep(20 * time.Millisecond)
				}
				busy--
				made++
			}
		}))
	}
	zzsim.Join(ts...)
	stop = true
	unchanged("the end")
	if made >= 4 && (faults > 0 || overlap) {
		r.Nontrivial()
	}
}

func hexQ(x *big.Int) string {
	if x.Sign() < 0 {
		return "-0x" + new(big.Int).Neg(x).Text(16)
	}
	return "0x" + x.Text(16)
}

func paymentTexts(vs []interface{}) []string {
	u := func(i int) string { return hexQ(new(big.Int).SetUint64(vs[i].(uint64))) }
	b := func(i int) string { return fmt.Sprintf("%x", vs[i]) }
	q := func(i int) string { return hexQ(vs[i].(*big.Int)) }
	return []string{q(0), q(1), u(2), u(3), "0x" + b(4), "0x" + b(5), b(6), q(7), vs[8].(*big.Int).String(), u(9)}
}

func paymentText(vs []interface{}) string {
	var p []string
	for i, s := range paymentTexts(vs) {
		p = append(p, fmt.Sprintf("%q:%q", paymentFields[i], s))
	}
	return "{" + strings.Join(p, ",") + "}"
}

// writeTexts writes the fields in the other ways.
func writeTexts(p *payment, vs []interface{}, texts map[string]string) {
	want := paymentTexts(vs)
	check := func(what, got, want string) {
		if got != want {
			fail("quantity-write", "%s = %q, expected %q", what, got, want)
		}
	}
	text := func(what string, v interface{ MarshalText() ([]byte, error) }, want string) {
		b, err := v.MarshalText()
		if err != nil {
			fail("quantity-write", "%s: %v", what, err)
		}
		zzsim.Point()
		check(what, string(b), want)
		for i := range b { // the text is ours
			b[i] = '#'
		}
		c, _ := v.MarshalText()
		check(what+" again", string(c), want)
	}
	amount, data := vs[0].(*big.Int), vs[4].([]byte)
	check("EncodeBig", hexutil.EncodeBig(amount), want[0])
	check("Big.String", p.Amount.String(), want[0])
	check("EncodeUint64", hexutil.EncodeUint64(uint64(p.Nonce)), want[2])
	check("Uint64.String", p.Nonce.String(), want[2])
	check("Uint.String", p.Index.String(), want[3])
	check("Encode", hexutil.Encode(data), want[4])
	check("Bytes.String", p.Data.String(), want[4])
	check("Decimal256.String", p.Balance.String(), want[8])
	text("Big", p.Amount, want[0])
	text("Uint64", p.Nonce, want[2])
	text("Uint", p.Index, want[3])
	text("Bytes", p.Data, want[4])
	text("HexOrDecimal256", p.Price, want[7])
	text("Decimal256", p.Balance, want[8])
	text("HexOrDecimal64", p.Gas, want[9])
	check("nil Decimal256", (*cmath.Decimal256)(nil).String(), "0")
	text("nil HexOrDecimal256", (*cmath.HexOrDecimal256)(nil), "0x0")
	text("NewDecimal256", cmath.NewDecimal256(int64(p.Nonce)), fmt.Sprint(int64(p.Nonce)))
	text("NewHexOrDecimal256", cmath.NewHexOrDecimal256(int64(p.Nonce)), hexQ(big.NewInt(int64(p.Nonce))))
	if price := vs[7].(*big.Int); price.Sign() < 0 {
		if b, err := (*hexutil.Big)(price).MarshalText(); err == nil {
			fail("quantity-write", "the negative %s is written as the quantity %s", price, b)
		}
	}
}

// damagePayment corrupts a field of a payment or any byte of it.
func damagePayment(w []byte) []byte {
	if n("fault", 4) == 0 {
		return flipByte(w)
	}
	parts := strings.Split(string(w[6:]), `"`) // {, name, :, text, ...
	i := 3 + 4*n("fault", len(paymentFields))
	if i >= len(parts) {
		return w
	}
	parts[i] = damageText(parts[i])
	if n("fault", 12) == 0 {
		return append(w[:6:6], strings.Replace(strings.Join(parts, `"`), `"`+parts[i]+`"`, []string{"null", "5", "[]", `""`}[n("fault", 4)], 1)...)
	}
	return append(w[:6:6], strings.Join(parts, `"`)...)
}

// judgePayment decides whether reading body is right: each field of its own text.
func judgePayment(body []byte, before, after []string, err error) {
	var m map[string]json.RawMessage
	valid := json.Unmarshal(body, &m) == nil
	dup := strings.Count(string(body), `":`) > len(m)
	if !valid {
		if err == nil || fmt.Sprint(before) != fmt.Sprint(after) {
			fail("quantity-refuse", "the broken message %s is read as %s, %v", body, after, err)
		}
		return
	}
	if dup {
		return
	}
	bad := false
	for _, k := range sortedKeys(m) {
		i := -1
		for j, f := range paymentFields {
			if strings.EqualFold(k, f) { // as encoding/json matches names
				i = j
			}
		}
		if i < 0 {
			continue
		}
		raw := string(m[k])
		s, isStr := "", len(raw) >= 2 && raw[0] == '"'
		if raw == "null" {
			want := before[i]
			if i == 0 || i == 7 || i == 8 {
				want = "nil"
			} else if paymentRaw[i] {
				bad = true
			}
			if after[i] != want && !bad {
				fail("quantity-read", "%s null is read as %s", k, after[i])
			}
			continue
		}
		if isStr {
			if s = raw[1 : len(raw)-1]; !paymentRaw[i] {
				json.Unmarshal([]byte(raw), &s)
			}
		}
		want, why := paymentReads[i](s)
		if !isStr || why != "" {
			bad = true
			// a nil pointer is allocated before the text is read
			if after[i] != before[i] && !(before[i] == "nil" && after[i] == "0") {
				fail("quantity-refuse", "the %s %s is not acceptable and changed %s into %s", k, raw, before[i], after[i])
			}
			if err == nil {
				fail("quantity-refuse", "the %s %s is accepted as %s", k, raw, after[i])
			}
			continue
		}
		if err == nil && after[i] != showV(want) {
			fail("quantity-read", "the %s %s is read as %s, expected %s", k, raw, after[i], showV(want))
		}
	}
	if !bad && err != nil {
		fail("quantity-refuse", "the good payment %s is refused: %v", body, err)
	}
}
