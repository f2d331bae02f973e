//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"strings"
	"time"

	cmath "github.com/ThinkiumGroup/go-common/math"
	"github.com/ThinkiumGroup/go-common/zzsim"
)

// ---------------------------------------------------------------- P52: replicated arithmetic on shared numbers

// an operation of the log; its operands are shared by all replicas of the process
type lop struct {
	id   int
	kind int
	a, b int // accounts
	x    *big.Int
	y    *big.Int
	rat  *big.Rat
	u, v uint64
	k    int
	text string // the operands as they were made
}

func (o *lop) operands() string {
	return fmt.Sprint(bigText(o.x), " ", bigText(o.y), " ", o.rat)
}

func bigText(x *big.Int) string {
	if x == nil {
		return "nil"
	}
	return x.String()
}

// refNum is a number of the model: nil is the absent number.
type refNum = *big.Int

func refZ(x refNum) refNum {
	if x == nil {
		return new(big.Int)
	}
	return x
}

func refCopy(x refNum) refNum {
	if x == nil {
		return nil
	}
	return new(big.Int).Set(x)
}

const accounts = 5

type ledger struct {
	name string
	acc  [accounts]*cmath.BigInt
	big  *big.Int // a plain total
	next int
}

type refLedger struct {
	acc [accounts]refNum
	big refNum
}

func (l *ledger) show() string {
	var s []string
	for _, a := range l.acc {
		s = append(s, bigText((*big.Int)(a)))
	}
	return strings.Join(s, " ") + " | " + bigText(l.big)
}

func (l *refLedger) show() string {
	var s []string
	for _, a := range l.acc {
		s = append(s, bigText(a))
	}
	return strings.Join(s, " ") + " | " + bigText(l.big)
}

const ledgerKinds = 16

func genOp(id int) *lop {
	o := &lop{id: id, kind: op(ledgerKinds), a: op(accounts), b: op(accounts), x: genSigned(300), y: genBig(80), u: genU64(), v: genU64(), k: op(40)}
	if opChance(1, 8) {
		o.x = nil
	}
	if opChance(1, 6) {
		o.x = new(big.Int)
	}
	switch op(8) {
	case 0:
		o.rat = nil
	case 1:
		o.rat = new(big.Rat)
	case 2:
		o.rat = new(big.Rat).SetFrac(genSigned(64), big.NewInt(1))
	default:
		o.rat = new(big.Rat).SetFrac(genSigned(120), new(big.Int).Add(genBig(70), big.NewInt(1)))
	}
	o.text = o.operands()
	return o
}

func floorDiv(a, b *big.Int) *big.Int { // b > 0
	q, m := new(big.Int).QuoRem(a, b, new(big.Int))
	if m.Sign() < 0 {
		q.Sub(q, big.NewInt(1))
	}
	return q
}

// apply is the model: what the operation does to the accounts, and its other answers.
func (l *refLedger) apply(o *lop) string {
	a, b := l.acc[o.a], l.acc[o.b]
	switch o.kind {
	case 0: // add an amount
		if o.x != nil {
			l.acc[o.a] = new(big.Int).Add(refZ(a), o.x)
		}
	case 1: // add an account
		if b != nil {
			l.acc[o.a] = new(big.Int).Add(refZ(a), b)
		}
	case 2:
		if o.x != nil {
			l.acc[o.a] = new(big.Int).Sub(refZ(a), o.x)
		}
	case 3:
		if b != nil && o.a != o.b {
			l.acc[o.a] = new(big.Int).Sub(refZ(a), b)
		}
	case 4: // transfer as much as there is
		if o.a == o.b {
			break
		}
		amount := o.y
		left, moved := a, refNum(nil)
		if amount.Sign() > 0 && a != nil && a.Sign() > 0 {
			if a.Cmp(amount) > 0 {
				left, moved = new(big.Int).Sub(a, amount), refCopy(amount)
			} else {
				left, moved = nil, refCopy(a)
			}
		}
		l.acc[o.a] = left
		if moved != nil {
			l.acc[o.b] = new(big.Int).Add(refZ(b), moved)
		}
		return bigText(left) + " " + bigText(moved)
	case 5: // a share of an account, taken from a copy
		if a == nil || o.rat == nil || o.rat.Sign() == 0 {
			return "nil"
		}
		p := new(big.Int).Mul(a, o.rat.Num())
		return floorDiv(p, o.rat.Denom()).String()
	case 6: // multiply
		if o.k == 0 || a == nil {
			l.acc[o.a] = nil
		} else if a.BitLen() < 2000 {
			l.acc[o.a] = new(big.Int).Mul(a, big.NewInt(int64(o.k)))
		}
	case 7: // divide
		if a != nil {
			l.acc[o.a] = floorDiv(a, big.NewInt(int64(o.k+1)))
		}
	case 8: // replace
		l.acc[o.a] = refCopy(o.x)
	case 9: // several amounts
		s := refCopy(a)
		for _, i := range []*big.Int{o.x, nil, o.y, b} {
			if i != nil && i.Sign() != 0 {
				s = new(big.Int).Add(refZ(s), i)
			}
		}
		if o.a != o.b {
			l.acc[o.a] = s
		}
	case 10: // the total
		if o.x != nil {
			l.big = new(big.Int).Add(refZ(l.big), o.x)
		}
	case 11: // questions about an account
		return strings.Join(refAnswers(a, b, o.x), " ")
	case 12: // words of 256 bits
		return fmt.Sprint(refWords(o))
	case 13: // machine words
		return fmt.Sprint(refInts(o))
	case 14: // rationals
		return fmt.Sprint(refRats(o))
	case 15: // keep a copy of another account
		l.acc[o.a] = refCopy(b)
	}
	return ""
}

func b2s(b bool) string { return fmt.Sprint(b) }

func refCmp(a, b refNum) int {
	switch {
	case a == nil && b == nil:
		return 0
	case a == nil:
		return -1
	case b == nil:
		return 1
	}
	return a.Cmp(b)
}

func zero(a refNum) bool { return a == nil || a.Sign() == 0 }

func refAnswers(a, b, x refNum) []string {
	cmp := refCmp(a, b)
	cmpx := refCmp(a, x)
	if zero(a) && zero(b) {
		cmp = 0
	}
	if zero(a) && zero(x) {
		cmpx = 0
	}
	hx := "0"
	if !zero(a) {
		hx = a.Text(16)
		if t := strings.TrimPrefix(hx, "-"); len(t)%2 == 1 { // whole bytes
			hx = strings.Replace(hx, t, "0"+t, 1)
		}
	}
	u, ok := uint64(0), a != nil && a.IsUint64()
	if ok {
		u = a.Uint64()
	}
	pos := "nil"
	if a != nil && a.Sign() > 0 {
		pos = a.String()
	}
	nonzero := "nil"
	if !zero(a) {
		nonzero = a.String()
	}
	return []string{fmt.Sprint(refZ(a).Sign()), b2s(refZ(a).Sign() > 0), b2s(refZ(a).Sign() < 0), b2s(zero(a)), fmt.Sprint(cmp), fmt.Sprint(cmpx),
		hx, fmt.Sprint(u, ok), pos, nonzero, refZ(a).String(), fmt.Sprint(refCmp(a, b)), pos, refZ(a).String()}
}

func (l *ledger) answers(o *lop) []string {
	a, b := l.acc[o.a], l.acc[o.b]
	u, ok := a.ToUint64()
	return []string{fmt.Sprint(a.Sign()), b2s(a.Positive()), b2s(a.Negative()), b2s(a.IsZero()), fmt.Sprint(a.Compare(b)), fmt.Sprint(a.CompareInt(o.x)),
		a.HexString(), fmt.Sprint(u, ok), bigText((*big.Int)(a.MustPositive())), bigText(a.Int()), bigText(a.MustInt()),
		fmt.Sprint(cmath.CompareBigInt((*big.Int)(a), (*big.Int)(b))), bigText(cmath.MustPositiveInt((*big.Int)(a))), bigText(cmath.MustBigInt((*big.Int)(a)))}
}

// wide is |x| as big-endian bytes of at least n bytes.
func wide(x *big.Int, n int) []byte {
	b := new(big.Int).Abs(x).Bytes()
	for len(b) < n {
		b = append([]byte{0}, b...)
	}
	return b
}

func refWords(o *lop) (r []string) {
	x := refZ(o.x)
	m := new(big.Int).Mod(x, two256)
	s := new(big.Int).Set(m)
	if s.Bit(255) == 1 {
		s.Sub(s, two256)
	}
	r = append(r, m.String(), s.String(), fmt.Sprintf("%x", wide(m, 32)))
	r = append(r, new(big.Int).Exp(m, o.y, two256).String())
	full := wide(x, 80)
	r = append(r, fmt.Sprintf("%x", wide(x, o.k)))
	r = append(r, fmt.Sprintf("%x", full[len(full)-min(o.k, 20):]))
	for _, i := range []int{0, 31, o.k} {
		if i >= 32 {
			r = append(r, "0")
		} else {
			r = append(r, fmt.Sprint(full[len(full)-32+i]))
		}
	}
	r = append(r, fmt.Sprint(x.TrailingZeroBits()))
	mn, mx := x, o.y
	if x.Cmp(o.y) > 0 {
		mn, mx = o.y, x
	}
	r = append(r, mn.String(), mx.String())
	pw := big.NewInt(1)
	for i := 0; i < o.k; i++ {
		pw.Mul(pw, big.NewInt(int64(int16(o.u))))
	}
	return append(r, pw.String())
}

func words(o *lop) (r []string) {
	x := o.x
	if x == nil {
		x = cmath.Big0
	}
	m := cmath.U256(new(big.Int).Set(x))
	r = append(r, m.String(), cmath.S256(m).String(), fmt.Sprintf("%x", cmath.U256Bytes(new(big.Int).Set(x))))
	r = append(r, cmath.Exp(m, o.y).String())
	r = append(r, fmt.Sprintf("%x", cmath.PaddedBigBytes(x, o.k)))
	buf := make([]byte, min(o.k, 20))
	cmath.ReadBits(x, buf)
	r = append(r, fmt.Sprintf("%x", buf))
	for _, i := range []int{0, 31, o.k} {
		r = append(r, fmt.Sprint(cmath.Byte(x, 32, i)))
	}
	r = append(r, fmt.Sprint(cmath.FirstBitSet(x)))
	r = append(r, cmath.BigMin(x, o.y).String(), cmath.BigMax(x, o.y).String())
	if g := m.Cmp(new(big.Int).Mod(x, two256)); g != 0 {
		fail("ledger-operand", "Exp, S256 changed the word of %s", x)
	}
	return append(r, cmath.BigPow(int64(int16(o.u)), int64(o.k)).String())
}

func refInts(o *lop) []string {
	sum, c := bits.Add64(o.u, o.v, 0)
	dif, bo := bits.Sub64(o.u, o.v, 0)
	hi, lo := bits.Mul64(o.u, o.v)
	small, _ := bits.Mul64(o.u>>(o.k%64), o.v>>((64-o.k)%64))
	return []string{fmt.Sprint(sum, c == 1), fmt.Sprint(dif, bo == 1), fmt.Sprint(lo, hi != 0), fmt.Sprint(small != 0)}
}

func ints(o *lop) []string {
	a, ao := cmath.SafeAdd(o.u, o.v)
	s, so := cmath.SafeSub(o.u, o.v)
	m, mo := cmath.SafeMul(o.u, o.v)
	_, to := cmath.SafeMul(o.u>>(o.k%64), o.v>>((64-o.k)%64))
	return []string{fmt.Sprint(a, ao), fmt.Sprint(s, so), fmt.Sprint(m, mo), fmt.Sprint(to)}
}

func fitted(x *big.Int) string {
	if x.IsInt64() {
		return fmt.Sprint(x, false)
	}
	return "none"
}

func refRats(o *lop) []string {
	q := o.rat
	if q == nil {
		return []string{"nil", "", fmt.Sprint(boolInt(o.k%2 == 1))}
	}
	ceil := func(q *big.Rat) *big.Int {
		return new(big.Int).Neg(floorDiv(new(big.Int).Neg(q.Num()), q.Denom()))
	}
	part := new(big.Rat).SetInt64(int64(o.u))
	one := ratio(o)
	part.Mul(part, one)
	return []string{fitted(ceil(q)), fitted(floorDiv(q.Num(), q.Denom())), fitted(ceil(part)), q.String(), q.String(),
		fmt.Sprint(q.Cmp(one)), "1", "-1", "0"}
}

// ratio is a rational of the operation that is at most 1.
func ratio(o *lop) *big.Rat {
	q := new(big.Rat).Abs(o.rat)
	if q.Cmp(big.NewRat(1, 1)) > 0 {
		q.Inv(q)
	}
	return q
}

func rats(o *lop) []string {
	q := o.rat
	if q == nil {
		var other *big.Rat
		if o.k%2 == 1 {
			return []string{bigRat(cmath.CopyBigRat(nil)), cmath.BigRatForPrint(nil), fmt.Sprint(cmath.CompareBigRat(cmath.Rat1, nil))}
		}
		return []string{bigRat(cmath.CopyBigRat(nil)), cmath.BigRatForPrint(nil), fmt.Sprint(cmath.CompareBigRat(other, nil))}
	}
	f := func(x int64, none bool) string {
		if none {
			return "none"
		}
		return fmt.Sprint(x, none)
	}
	c := cmath.CopyBigRat(q)
	copied := c.String()
	c.Add(c, c) // the copy is ours
	printed, ok := new(big.Rat).SetString(cmath.BigRatForPrint(q))
	if !ok {
		fail("ledger-answer", "BigRatForPrint(%s) = %s", q, cmath.BigRatForPrint(q))
	}
	one := ratio(o)
	part := cmath.Int64MulRat(int64(o.u), one)
	return []string{f(cmath.RatToInt64(q)), f(cmath.RatToInt64Floor(q)), f(part, false), copied, printed.String(),
		fmt.Sprint(cmath.CompareBigRat(q, one)), fmt.Sprint(cmath.CompareBigRat(q, nil)), fmt.Sprint(cmath.CompareBigRat(nil, q)), fmt.Sprint(cmath.CompareBigRat(q, q))}
}

func bigRat(r *big.Rat) string {
	if r == nil {
		return "nil"
	}
	return r.String()
}

// apply runs the operation with the library.
func (l *ledger) apply(o *lop) string {
	a, b := l.acc[o.a], l.acc[o.b]
	switch o.kind {
	case 0:
		l.acc[o.a] = a.AddInt(o.x)
	case 1:
		l.acc[o.a] = a.Add(b)
	case 2:
		l.acc[o.a] = a.SubInt(o.x)
	case 3:
		if o.a != o.b {
			l.acc[o.a] = a.Sub(b)
		}
	case 4:
		if o.a == o.b {
			break
		}
		left, moved := a.SubIntNotLessZero(o.y)
		r := bigText((*big.Int)(left)) + " " + bigText((*big.Int)(moved))
		l.acc[o.a] = left
		if moved != nil {
			l.acc[o.b] = b.Add(moved)
			moved.SubInt(seven) // ours
		}
		return r
	case 5:
		c := a.Clone()
		return bigText((*big.Int)(c.MulRat(o.rat)))
	case 6:
		if o.k == 0 || a == nil || (*big.Int)(a).BitLen() < 2000 {
			l.acc[o.a] = a.Mul(cmath.NewBigInt(big.NewInt(int64(o.k))))
		}
	case 7:
		l.acc[o.a] = a.Div(cmath.NewBigInt(big.NewInt(int64(o.k + 1))))
	case 8:
		if o.k%2 == 0 {
			l.acc[o.a] = cmath.NewBigInt(o.x)
		} else {
			l.acc[o.a] = a.SetInt(o.x)
		}
	case 9:
		if o.a != o.b {
			l.acc[o.a] = a.AddInts(o.x, nil, o.y, (*big.Int)(b))
		}
	case 10:
		l.big = cmath.AddBigInt(l.big, o.x)
	case 11:
		return strings.Join(l.answers(o), " ")
	case 12:
		return fmt.Sprint(words(o))
	case 13:
		return fmt.Sprint(ints(o))
	case 14:
		return fmt.Sprint(rats(o))
	case 15:
		switch o.k % 3 {
		case 0:
			l.acc[o.a] = b.Clone()
		case 1:
			l.acc[o.a] = (*cmath.BigInt)(cmath.CopyBigInt((*big.Int)(b)))
		default:
			if b != nil {
				l.acc[o.a] = (*cmath.BigInt)(cmath.MustCreatedBigInt((*big.Int)(b), false))
			} else {
				l.acc[o.a] = nil
			}
		}
	}
	return ""
}

// printed checks that the rendering of a number denotes it.
func printed(x *big.Int) {
	if x == nil {
		if s := cmath.BigIntForPrint(nil) + cmath.BigForPrint(nil) + (*cmath.BigInt)(nil).String(); s != "" {
			fail("ledger-print", "the absent number is shown as %q", s)
		}
		return
	}
	is := func(s string) bool {
		q, ok := new(big.Rat).SetString(s)
		return ok && q.IsInt() && q.Num().Cmp(x) == 0
	}
	s := (*cmath.BigInt)(x).String()
	if !is(s) || s != cmath.BigIntForPrint(x) {
		fail("ledger-print", "%s is shown as %s, %s", x, s, cmath.BigIntForPrint(x))
	}
	if f := cmath.BigForPrint(x); f != x.String() && f != x.String()+" ("+s+")" {
		fail("ledger-print", "%s is shown as %s", x, f)
	}
}

func constants() string {
	r := []interface{}{cmath.Big0, cmath.Big1, cmath.Big2, cmath.Big3, cmath.Big32, cmath.Big256, cmath.Big257, cmath.BigMaxUint32, cmath.BigMaxUint64,
		cmath.MaxBig256, cmath.MaxBig63, cmath.Rat1}
	return fmt.Sprint(r...)
}

var rightConstants = fmt.Sprint(big.NewInt(0), big.NewInt(1), big.NewInt(2), big.NewInt(3), big.NewInt(32), big.NewInt(256), big.NewInt(257), uint64(1<<32-1),
	new(big.Int).SetUint64(1<<64-1), new(big.Int).Sub(two256, big.NewInt(1)), big.NewInt(1<<63-1), big.NewRat(1, 1))

func runP52(r *R) {
	nr := 1 + n("cfg", 3)
	nops := 1 + n("cfg", 24)
	loss := []int{0, 20}[n("cfg", 2)]
	crashes := n("cfg", 3)
	budget, faults := 14, 0
	var log []*lop
	var want []string  // the model after each operation
	var reply []string // its answers
	ref := &refLedger{}
	for i := 0; i < nops; i++ {
		o := genOp(i)
		log = append(log, o)
		reply = append(reply, ref.apply(o))
		want = append(want, ref.show())
	}
	unchanged := func(who string, o *lop) {
		if g := o.operands(); g != o.text {
			fail("ledger-operand", "%s: the operands of operation %d (kind %d) were %s and are %s", who, o.id, o.kind, o.text, g)
		}
		if g := constants(); g != rightConstants {
			fail("ledger-operand", "%s, operation %d (kind %d): the constants %s", who, o.id, o.kind, g)
		}
	}
	inbox := make([][]int, nr)
	ledgers := make([]*ledger, nr)
	saved := make([][]string, nr) // the durable state: the accounts, and how many operations are in it
	var ts []*zzsim.Task
	for i := 0; i < nr; i++ {
		ts = append(ts, zzsim.Spawn(fmt.Sprint("replica", i), i, func() {
			l := &ledger{name: fmt.Sprint("replica", i)}
			ledgers[i] = l
			for l.next < nops {
				zzsim.WaitUntil("operations", func() bool { return len(inbox[i]) > 0 })
				id := inbox[i][0]
				inbox[i] = inbox[i][1:]
				if id != l.next { // it comes again
					continue
				}
				o := log[id]
				got := l.apply(o)
				zzsim.Point()
				if got != reply[id] {
					fail("ledger-answer", "%s: operation %d (kind %d, %s, %d %d %d): %s, expected %s", l.name, id, o.kind, o.text, o.u, o.v, o.k, got, reply[id])
				}
				if g := l.show(); g != want[id] {
					fail("ledger-state", "%s: operation %d (kind %d, accounts %d %d, %s, k=%d) gives\n%s, expected\n%s", l.name, id, o.kind, o.a, o.b, o.text, o.k, g, want[id])
				}
				unchanged(l.name, o)
				if opChance(1, 4) {
					printed((*big.Int)(l.acc[o.a]))
				}
				l.next++
				if n("fault", 4) == 0 {
					saved[i] = l.save()
				}
				if crashes > 0 && n("fault", 8) == 0 {
					crashes--
					faults++
					stat("fault.crash")
					ev("%s crashes after %d", l.name, id)
					l = restore(saved[i])
					l.name = fmt.Sprint("replica", i)
					ledgers[i] = l
					w := "nil nil nil nil nil | nil"
					if l.next > 0 {
						w = want[l.next-1]
					}
					if g := l.show(); g != w {
						fail("ledger-state", "%s saved %s and restarts with %s", l.name, w, g)
					}
				}
			}
		}))
	}
	stop := false
	zzsim.Spawn("network", 98, func() {
		for !stop {
			for i := range inbox {
				if ledgers[i] == nil || ledgers[i].next >= nops {
					continue
				}
				for k := ledgers[i].next; k < nops && k < ledgers[i].next+3; k++ {
					if faults < budget && zzsim.Chance("fault", loss, 100) {
						stat("fault.message_lost")
						faults++
						continue
					}
					at := len(inbox[i])
					if faults < budget && at > 0 && zzsim.Chance("fault", 1, 6) {
						stat("fault.message_reordered")
						faults++
						at = n("fault", at+1)
					}
					inbox[i] = append(inbox[i][:at:at], append([]int{k}, inbox[i][at:]...)...)
				}
			}
			zzsim.Sleep(10 * time.Millisecond)
		}
	})
	// others compute with the same operands
	busy := n("cfg", 3)
	for i := 0; i < busy; i++ {
		ts = append(ts, zzsim.Spawn(fmt.Sprint("reader", i), nr+i, func() {
			for j := op(6); j >= 0; j-- {
				o := log[op(len(log))]
				var got, exp []string
				switch op(3) {
				case 0:
					got, exp = words(o), refWords(o)
				case 1:
					got, exp = rats(o), refRats(o)
				case 2:
					x := cmath.NewBigInt(o.x)
					y := x.Clone().Add((*cmath.BigInt)(o.y)).Sub(x)
					got, exp = []string{bigText((*big.Int)(x)), bigText((*big.Int)(y))}, []string{bigText(o.x), bigText(o.y)}
				}
				if fmt.Sprint(got) != fmt.Sprint(exp) {
					fail("ledger-answer", "reader %d with the operands %s (%d %d %d):\n%s, expected\n%s", i, o.text, o.u, o.v, o.k, got, exp)
				}
				unchanged("reader", o)
			}
		}))
	}
	zzsim.Join(ts...)
	stop = true
	for _, o := range log {
		unchanged("the end", o)
	}
	for i, l := range ledgers {
		if l.show() != want[nops-1] {
			fail("ledger-state", "replica %d ends with %s, expected %s", i, l.show(), want[nops-1])
		}
	}
	if nr >= 2 && nops >= 6 && (faults > 0 || busy > 0) {
		r.Nontrivial()
	}
}

func (l *ledger) save() (r []string) {
	r = append(r, fmt.Sprint(l.next))
	for _, a := range l.acc {
		if a == nil {
			r = append(r, "nil")
		} else {
			r = append(r, a.HexString())
		}
	}
	if l.big == nil {
		return append(r, "nil")
	}
	return append(r, cmath.NewBigInt(l.big).HexString())
}

func restore(s []string) *ledger {
	l := &ledger{}
	if s == nil {
		return l
	}
	fmt.Sscan(s[0], &l.next)
	get := func(t string) *big.Int {
		if t == "nil" {
			return nil
		}
		x, ok := new(big.Int).SetString(t, 16)
		if !ok {
			fail("ledger-print", "HexString %q", t)
		}
		return x
	}
	for i := range l.acc {
		l.acc[i] = (*cmath.BigInt)(get(s[1+i]))
	}
	l.big = get(s[6])
	return l
}
