//go:build go1.22

package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/abi"
	"github.com/ThinkiumGroup/go-common/zzsim"
)

func init() {
	register(&Prop{ID: "P50", Run: runP50, Quick: 40000, QuickS: 18,
		Rule: "Non-trivial: at least two calls with a dynamic argument or result were answered although messages were lost, repeated, reordered or corrupted, or two clients used one ABI at the same time.",
		Real: "abi.JSON, Pack and Unpack in all their forms, method and event lookup, topics, errors, selectors, renderings", Stub: "the network, the contract, goroutine scheduling"})
}

// ---------------------------------------------------------------- reference ABI

type aty struct {
	k     byte // i u b s y f a F S A T
	size  int
	elem  *aty
	comps []*aty
	names []string
}

type aval struct {
	n *big.Int
	b []byte
	l []*aval
}

func (t *aty) base() string {
	switch t.k {
	case 'i':
		return fmt.Sprint("int", t.size)
	case 'u':
		return fmt.Sprint("uint", t.size)
	case 'b':
		return "bool"
	case 's':
		return "string"
	case 'y':
		return "bytes"
	case 'f':
		return fmt.Sprint("bytes", t.size)
	case 'a':
		return "address"
	case 'F':
		return "function"
	}
	return ""
}

// sig is the canonical form, text the form in a definition.
func (t *aty) sig() string {
	switch t.k {
	case 'S':
		return t.elem.sig() + "[]"
	case 'A':
		return fmt.Sprintf("%s[%d]", t.elem.sig(), t.size)
	case 'T':
		return "(" + sigs(t.comps) + ")"
	}
	return t.base()
}

func sigs(ts []*aty) string {
	var s []string
	for _, t := range ts {
		s = append(s, t.sig())
	}
	return strings.Join(s, ",")
}

func (t *aty) text() string {
	switch t.k {
	case 'S':
		return t.elem.text() + "[]"
	case 'A':
		return fmt.Sprintf("%s[%d]", t.elem.text(), t.size)
	case 'T':
		return "tuple"
	}
	return t.base()
}

func (t *aty) def(name string, indexed bool) map[string]interface{} {
	m := map[string]interface{}{"name": name, "type": t.text()}
	if indexed {
		m["indexed"] = true
	}
	in := t
	for in.k == 'S' || in.k == 'A' {
		in = in.elem
	}
	if in.k == 'T' {
		var cs []interface{}
		for i, c := range in.comps {
			cs = append(cs, c.def(in.names[i], false))
		}
		m["components"] = cs
		m["internalType"] = "struct C.S" + strings.TrimPrefix(t.text(), "tuple")
	}
	return m
}

func (t *aty) dynamic() bool {
	switch t.k {
	case 's', 'y', 'S':
		return true
	case 'A':
		return t.elem.dynamic()
	case 'T':
		for _, c := range t.comps {
			if c.dynamic() {
				return true
			}
		}
	}
	return false
}

func (t *aty) head() int {
	if t.dynamic() {
		return 32
	}
	switch t.k {
	case 'A':
		return t.size * t.elem.head()
	case 'T':
		return heads(t.comps)
	}
	return 32
}

func heads(ts []*aty) (n int) {
	for _, t := range ts {
		n += t.head()
	}
	return
}

func times(t *aty, n int) (r []*aty) {
	for i := 0; i < n; i++ {
		r = append(r, t)
	}
	return
}

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

func word(n *big.Int) []byte {
	x := new(big.Int).Mod(n, two256)
	return x.FillBytes(make([]byte, 32))
}

func wordN(n int) []byte { return word(big.NewInt(int64(n))) }

func padRight(b []byte) []byte {
	return append(cp(b), make([]byte, (32-len(b)%32)%32)...)
}

func encSeq(ts []*aty, vs []*aval) []byte {
	var h, tail []byte
	off := heads(ts)
	for i, t := range ts {
		e := t.enc(vs[i])
		if t.dynamic() {
			h = append(h, wordN(off+len(tail))...)
			tail = append(tail, e...)
		} else {
			h = append(h, e...)
		}
	}
	return append(h, tail...)
}

func (t *aty) enc(v *aval) []byte {
	switch t.k {
	case 's', 'y':
		return append(wordN(len(v.b)), padRight(v.b)...)
	case 'f', 'F':
		return padRight(v.b)
	case 'a':
		return append(make([]byte, 12), v.b...)
	case 'S':
		return append(wordN(len(v.l)), encSeq(times(t.elem, len(v.l)), v.l)...)
	case 'A':
		return encSeq(times(t.elem, t.size), v.l)
	case 'T':
		return encSeq(t.comps, v.l)
	}
	return word(v.n)
}

type badABI string

// decSeq reads values which are inside the data; bytes that do not matter are ignored.
func decSeq(ts []*aty, buf []byte) (vs []*aval) {
	pos := 0
	for _, t := range ts {
		if !t.dynamic() {
			vs = append(vs, t.dec(from(buf, pos)))
		} else {
			vs = append(vs, t.dec(from(buf, offset(from(buf, pos), len(buf)))))
		}
		pos += t.head()
	}
	return
}

func from(b []byte, p int) []byte {
	if p > len(b) {
		panic(badABI("position outside the data"))
	}
	return b[p:]
}

func word32(b []byte) []byte {
	if len(b) < 32 {
		panic(badABI("word outside the data"))
	}
	return b[:32]
}

func offset(b []byte, max int) int {
	o := new(big.Int).SetBytes(word32(b))
	if o.Cmp(big.NewInt(int64(max))) > 0 {
		panic(badABI("offset or length outside the data"))
	}
	return int(o.Int64())
}

func (t *aty) dec(b []byte) *aval {
	switch t.k {
	case 's', 'y':
		l := offset(b, len(b)-32)
		return &aval{b: cp(b[32 : 32+l])}
	case 'S':
		l := offset(b, (len(b)-32)/t.elem.head())
		return &aval{l: decSeq(times(t.elem, l), b[32:])}
	case 'A':
		return &aval{l: decSeq(times(t.elem, t.size), b)}
	case 'T':
		return &aval{l: decSeq(t.comps, b)}
	}
	w := word32(b)
	switch t.k {
	case 'f':
		return &aval{b: cp(w[:t.size])}
	case 'F':
		if !eq(w[24:], make([]byte, 8)) {
			panic(badABI("not a function"))
		}
		return &aval{b: cp(w[:24])}
	case 'a':
		return &aval{b: cp(w[12:])}
	case 'b':
		x := new(big.Int).SetBytes(w)
		if x.BitLen() > 1 {
			panic(badABI("not a bool"))
		}
		return &aval{n: x}
	}
	x := new(big.Int).SetBytes(w)
	bits := 256
	switch t.size {
	case 8, 16, 32, 64:
		bits = t.size
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	x.Mod(x, m)
	if t.k == 'i' && x.Bit(bits-1) == 1 {
		x.Sub(x, m)
	}
	return &aval{n: x}
}

func refDecode(ts []*aty, data []byte) (vs []*aval, bad string) {
	defer func() {
		if e := recover(); e != nil {
			b, ok := e.(badABI)
			if !ok {
				panic(e)
			}
			bad = string(b)
		}
	}()
	return decSeq(ts, data), ""
}

func (t *aty) show(v *aval) string {
	switch t.k {
	case 'S', 'A':
		var s []string
		for _, x := range v.l {
			s = append(s, t.elem.show(x))
		}
		return "[" + strings.Join(s, " ") + "]"
	case 'T':
		return "{" + showAll(t.comps, v.l) + "}"
	case 's', 'y', 'f', 'a', 'F':
		return t.base() + ":" + hex.EncodeToString(v.b)
	}
	return v.n.String()
}

func showAll(ts []*aty, vs []*aval) string {
	if len(ts) != len(vs) {
		return fmt.Sprintf("%d values for %d types", len(vs), len(ts))
	}
	var s []string
	for i, t := range ts {
		s = append(s, t.show(vs[i]))
	}
	return strings.Join(s, ", ")
}

// ---------------------------------------------------------------- Go values

func camel(s string) (r string) {
	for _, p := range strings.Split(s, "_") {
		if p != "" {
			r += strings.ToUpper(p[:1]) + p[1:]
		}
	}
	return
}

// goType: tags says whether structures have the tags the library gives them.
func (t *aty) goType(tags bool) reflect.Type {
	switch t.k {
	case 'i', 'u':
		switch fmt.Sprint(string(t.k), t.size) {
		case "u8":
			return reflect.TypeOf(uint8(0))
		case "u16":
			return reflect.TypeOf(uint16(0))
		case "u32":
			return reflect.TypeOf(uint32(0))
		case "u64":
			return reflect.TypeOf(uint64(0))
		case "i8":
			return reflect.TypeOf(int8(0))
		case "i16":
			return reflect.TypeOf(int16(0))
		case "i32":
			return reflect.TypeOf(int32(0))
		case "i64":
			return reflect.TypeOf(int64(0))
		}
		return reflect.TypeOf(new(big.Int))
	case 'b':
		return reflect.TypeOf(false)
	case 's':
		return reflect.TypeOf("")
	case 'y':
		return reflect.TypeOf([]byte{})
	case 'f':
		return reflect.ArrayOf(t.size, reflect.TypeOf(byte(0)))
	case 'F':
		return reflect.TypeOf([24]byte{})
	case 'a':
		return reflect.TypeOf(common.Address{})
	case 'S':
		return reflect.SliceOf(t.elem.goType(tags))
	case 'A':
		return reflect.ArrayOf(t.size, t.elem.goType(tags))
	}
	var fs []reflect.StructField
	for i, c := range t.comps {
		f := reflect.StructField{Name: camel(t.names[i]), Type: c.goType(tags)}
		if tags {
			f.Tag = reflect.StructTag("json:\"" + t.names[i] + "\"")
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

func (t *aty) setGo(d reflect.Value, v *aval) {
	switch d.Kind() {
	case reflect.Ptr:
		d.Set(reflect.ValueOf(new(big.Int).Set(v.n)))
	case reflect.Bool:
		d.SetBool(v.n.Sign() != 0)
	case reflect.String:
		d.SetString(string(v.b))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		d.SetUint(v.n.Uint64())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.SetInt(v.n.Int64())
	default:
		switch t.k {
		case 'y':
			d.SetBytes(cp(v.b))
		case 'f', 'F', 'a':
			reflect.Copy(d, reflect.ValueOf(v.b))
		case 'S':
			d.Set(reflect.MakeSlice(d.Type(), len(v.l), len(v.l)))
			fallthrough
		case 'A':
			for i, x := range v.l {
				t.elem.setGo(d.Index(i), x)
			}
		case 'T':
			for i, x := range v.l {
				t.comps[i].setGo(d.Field(i), x)
			}
		}
	}
}

func (t *aty) toGo(v *aval, tags bool) interface{} {
	d := reflect.New(t.goType(tags)).Elem()
	t.setGo(d, v)
	return d.Interface()
}

// fromGo reads a Go value of exactly the expected shape.
func (t *aty) fromGo(d reflect.Value) (v *aval, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v is no %s: %v", d, t.sig(), e)
		}
	}()
	for d.Kind() == reflect.Interface {
		d = d.Elem()
	}
	if !d.IsValid() {
		return nil, fmt.Errorf("no %s", t.sig())
	}
	if w := t.goType(false); t.k != 'T' && t.k != 'S' && t.k != 'A' && d.Type() != w {
		return nil, fmt.Errorf("a %v, expected %v", d.Type(), w)
	}
	switch t.k {
	case 'b':
		v = &aval{n: new(big.Int)}
		if d.Bool() {
			v.n.SetInt64(1)
		}
		return
	case 's':
		return &aval{b: []byte(d.String())}, nil
	case 'y':
		return &aval{b: cp(d.Bytes())}, nil
	case 'f', 'F', 'a':
		v = &aval{b: make([]byte, d.Len())}
		reflect.Copy(reflect.ValueOf(v.b), d)
		return
	case 'S', 'A':
		if t.k == 'A' && (d.Kind() != reflect.Array || d.Len() != t.size) || t.k == 'S' && d.Kind() != reflect.Slice {
			return nil, fmt.Errorf("a %v, expected %v", d.Type(), t.sig())
		}
		v = new(aval)
		for i := 0; i < d.Len(); i++ {
			x, err := t.elem.fromGo(d.Index(i))
			if err != nil {
				return nil, err
			}
			v.l = append(v.l, x)
		}
		return
	case 'T':
		if d.NumField() != len(t.comps) {
			return nil, fmt.Errorf("a %v, expected %v", d.Type(), t.sig())
		}
		v = new(aval)
		for i, c := range t.comps {
			x, err := c.fromGo(d.Field(i))
			if err != nil {
				return nil, err
			}
			v.l = append(v.l, x)
		}
		return
	}
	switch d.Kind() {
	case reflect.Ptr:
		return &aval{n: new(big.Int).Set(d.Interface().(*big.Int))}, nil
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return &aval{n: new(big.Int).SetUint64(d.Uint())}, nil
	}
	return &aval{n: big.NewInt(d.Int())}, nil
}

// showGo renders Go values like showAll does.
func showGo(ts []*aty, gs []interface{}) string {
	if len(gs) != len(ts) {
		return fmt.Sprintf("%d values for %d types", len(gs), len(ts))
	}
	var vs []*aval
	for i, t := range ts {
		v, err := t.fromGo(reflect.ValueOf(gs[i]))
		if err != nil {
			return err.Error()
		}
		vs = append(vs, v)
	}
	return showAll(ts, vs)
}

// argText is how a value is rendered for a log.
func argText(name string, t *aty, v *aval) string {
	switch {
	case t.k == 'y' || t.k == 'f' || t.k == 'F' || t.k == 'a':
		return fmt.Sprintf("%s:0x%x", name, v.b)
	case (t.k == 'S' || t.k == 'A') && t.elem.k == 'u' && t.elem.size == 8:
		b := []byte{}
		for _, x := range v.l {
			b = append(b, byte(x.n.Uint64()))
		}
		return fmt.Sprintf("%s:0x%x", name, b)
	}
	return fmt.Sprintf("%s:%v", name, t.toGo(v, true))
}

// ---------------------------------------------------------------- generation

func genAty(d int) *aty {
	k := op(13)
	if d <= 0 && k >= 9 {
		k -= 9
	}
	switch k {
	case 0:
		return &aty{k: 'u', size: []int{256, 8, 16, 32, 64, 128, 24, 248}[op(8)]}
	case 1:
		return &aty{k: 'i', size: []int{256, 8, 16, 32, 64, 128, 40}[op(7)]}
	case 2:
		return &aty{k: 'b'}
	case 3, 4:
		return &aty{k: 's'}
	case 5:
		return &aty{k: 'y'}
	case 6:
		return &aty{k: 'f', size: []int{32, 1, 4, 20, 31}[op(5)]}
	case 7:
		return &aty{k: 'a'}
	case 8:
		return &aty{k: 'F'}
	case 9, 10:
		return &aty{k: 'S', elem: genAty(d - 1)}
	case 11:
		return &aty{k: 'A', size: 1 + op(3), elem: genAty(d - 1)}
	}
	t := &aty{k: 'T'}
	for i := op(3); i >= 0; i-- {
		t.comps = append(t.comps, genAty(d-1))
		t.names = append(t.names, genName(len(t.names)))
	}
	return t
}

// genName: names whose Go forms differ for different i.
func genName(i int) string {
	return []string{"a", "_b", "to_addr", "D"}[i%4] + []string{"", "1", "_x", "Y"}[op(4)]
}

func genAval(t *aty, d int) *aval {
	switch t.k {
	case 'b':
		return &aval{n: big.NewInt(int64(op(2)))}
	case 'u', 'i':
		bits := uint(t.size)
		if t.k == 'i' {
			bits--
		}
		max := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1))
		x := new(big.Int)
		switch op(4) {
		case 0:
			x.SetInt64(int64(op(3)))
		case 1:
			x.Set(max)
		case 2:
			x.Mod(new(big.Int).SetBytes(keccak([]byte{byte(op(256))})), max)
		case 3:
			x.Rsh(max, uint(op(t.size)))
		}
		if t.k == 'i' && opChance(1, 2) {
			x.Not(x)
		}
		return &aval{n: x}
	case 'f':
		return &aval{b: keccak([]byte{byte(op(256))})[:t.size]}
	case 'F':
		return &aval{b: keccak([]byte{byte(op(256))})[:24]}
	case 'a':
		if opChance(1, 8) {
			return &aval{b: make([]byte, 20)}
		}
		return &aval{b: keccak([]byte{byte(op(256))})[:20]}
	case 's', 'y':
		l := []int{0, 1, 31, 32, 33, 5, 64, 70}[op(8)]
		b := bytes.Repeat(keccak([]byte{byte(op(256))}), 3)[:l]
		if t.k == 's' && opChance(1, 2) {
			b = []byte(strings.Repeat("aé%\x00\n", 20)[:l])
		}
		return &aval{b: b}
	}
	v := new(aval)
	switch t.k {
	case 'S':
		for i := op(4 - d); i > 0; i-- {
			v.l = append(v.l, genAval(t.elem, d+1))
		}
	case 'A':
		for i := 0; i < t.size; i++ {
			v.l = append(v.l, genAval(t.elem, d+1))
		}
	case 'T':
		for _, c := range t.comps {
			v.l = append(v.l, genAval(c, d+1))
		}
	}
	return v
}

func genAvals(ts []*aty) (vs []*aval) {
	for _, t := range ts {
		vs = append(vs, genAval(t, 0))
	}
	return
}

type asig struct {
	kind    string // function, event, error, constructor
	name    string
	in, out []*aty
	inN     []string
	outN    []string
	indexed []bool
	named   bool // the names of all inputs are distinct Go names
	mut     int  // 0 nonpayable 1 view 2 pure 3 payable, 4 none, 5 old style constant, 6 old style payable
}

var muts = []string{"nonpayable", "view", "pure", "payable", "", "", ""}

func (s *asig) sig() string { return s.name + "(" + sigs(s.in) + ")" }
func (s *asig) id() []byte  { return keccak([]byte(s.sig())) }

func (s *asig) def() map[string]interface{} {
	m := map[string]interface{}{"type": s.kind, "name": s.name}
	in, out := []interface{}{}, []interface{}{}
	for i, t := range s.in {
		in = append(in, t.def(s.inN[i], s.indexed[i]))
	}
	for i, t := range s.out {
		out = append(out, t.def(s.outN[i], false))
	}
	m["inputs"] = in
	if s.kind == "function" {
		m["outputs"] = out
		switch s.mut {
		case 4:
		case 5:
			m["constant"] = true
		case 6:
			m["payable"] = true
		default:
			m["stateMutability"] = muts[s.mut]
		}
	}
	return m
}

// text is the declaration of a function, event or error.
func (s *asig) text(a func(t *aty) string) string {
	var in, out []string
	for i, t := range s.in {
		x := a(t) + " "
		if s.indexed[i] {
			x += "indexed "
		}
		name := s.inN[i]
		if name == "" && s.kind != "function" {
			name = fmt.Sprint("arg", i)
		}
		in = append(in, x+name)
	}
	for i, t := range s.out {
		x := a(t)
		if s.outN[i] != "" {
			x += " " + s.outN[i]
		}
		out = append(out, x)
	}
	r := s.kind + " " + s.name + "(" + strings.Join(in, ", ") + ")"
	if s.kind == "function" {
		if r += " "; s.mut != 0 && muts[s.mut] != "" {
			r += muts[s.mut] + " "
		}
		r += "returns(" + strings.Join(out, ", ") + ")"
	}
	return r
}

func genSig(kind, name string, depth int) *asig {
	s := &asig{kind: kind, name: name, named: true}
	for i := op(4); i > 0; i-- {
		s.in = append(s.in, genAty(depth))
		s.inN = append(s.inN, genName(len(s.inN)))
		s.indexed = append(s.indexed, false)
	}
	if kind == "function" {
		for i := op(4); i > 0; i-- {
			s.out = append(s.out, genAty(depth))
			s.outN = append(s.outN, genName(len(s.outN)))
		}
	}
	if kind == "event" {
		n := 0
		for i := range s.in {
			if n < 3 && s.in[i].k != 'F' && opChance(1, 2) {
				s.indexed[i] = true
				n++
			}
		}
	}
	if len(s.in) > 0 && opChance(1, 6) {
		s.inN[op(len(s.inN))] = ""
		s.named = false
	}
	return s
}

// ---------------------------------------------------------------- the simulated system

type contract struct {
	fns, evs, errs []*asig
	ctor           *asig
	fallback, recv bool
	text           []byte
}

func genContract() *contract {
	c := new(contract)
	depth := op(4)
	have := map[string]bool{}
	for i := op(4); i >= 0; i-- {
		s := genSig("function", []string{"f", "f", "f0", "get_x", "g"}[op(5)], depth)
		s.mut = op(len(muts))
		if !have[s.sig()] {
			have[s.sig()] = true
			c.fns = append(c.fns, s)
		}
	}
	for i := op(3); i > 0; i-- {
		s := genSig("event", []string{"E", "E", "Ev1"}[op(3)], depth)
		if !have[s.sig()] {
			have[s.sig()] = true
			c.evs = append(c.evs, s)
		}
	}
	for i := op(3); i > 0; i-- {
		c.errs = append(c.errs, genSig("error", fmt.Sprint("Bad", i), depth))
	}
	c.ctor = genSig("constructor", "", depth)
	var defs []interface{}
	for _, l := range [][]*asig{c.evs, {c.ctor}, c.fns, c.errs} {
		for _, s := range l {
			defs = append(defs, s.def())
		}
	}
	if c.fallback = opChance(1, 3); c.fallback {
		defs = append(defs, map[string]interface{}{"type": "fallback", "stateMutability": "nonpayable"})
	}
	if c.recv = opChance(1, 3); c.recv {
		defs = append([]interface{}{map[string]interface{}{"type": "receive", "stateMutability": "payable"}}, defs...)
	}
	c.text, _ = json.Marshal(defs)
	if opChance(1, 8) { // twice, of the wrong kind
		x := []map[string]interface{}{{"type": "fallback"}, {"type": "receive", "stateMutability": "payable"}, {"type": "receive", "stateMutability": "view"}, {"type": "method", "name": "f"},
			{"type": "function", "name": "q", "inputs": []interface{}{map[string]interface{}{"name": "a", "type": "fixed"}}}}
		i := op(len(x))
		if i > 1 || i == 0 && c.fallback || i == 1 && c.recv {
			t, _ := json.Marshal(append(append([]interface{}{}, defs...), x[i]))
			if _, err := abi.JSON(bytes.NewReader(t)); err == nil {
				fail("abi-def", "the definition %s is accepted", t)
			}
		}
	}
	return c
}

func goArgs(ts []*aty, vs []*aval) (r []interface{}) {
	tags := opChance(1, 2)
	for i, t := range ts {
		g := t.toGo(vs[i], tags)
		if _, ok := g.(*big.Int); !ok && opChance(1, 8) { // by pointer
			p := reflect.New(reflect.TypeOf(g))
			p.Elem().Set(reflect.ValueOf(g))
			g = p.Interface()
		}
		r = append(r, g)
	}
	return
}

func unptr(gs []interface{}) (r []interface{}) {
	for _, g := range gs {
		if v := reflect.ValueOf(g); v.Kind() == reflect.Ptr && v.Type() != reflect.TypeOf(new(big.Int)) {
			g = v.Elem().Interface()
		}
		r = append(r, g)
	}
	return
}

func goTypeOK(s []string) bool {
	have := map[string]bool{}
	for _, n := range s {
		c := camel(n)
		if c == "" || have[c] {
			return false
		}
		have[c] = true
	}
	return true
}

// structFor is a structure to receive values: fields in another order, some found by their tag, one unknown to the ABI.
func structFor(ts []*aty, names []string, hash []bool) (p interface{}, get func() []interface{}) {
	var fs []reflect.StructField
	field := make([]string, len(ts))
	rot := op(len(ts))
	tags := opChance(1, 2)
	for j := range ts {
		i := (j + rot) % len(ts)
		f := reflect.StructField{Name: camel(names[i]), Type: ts[i].goType(tags)}
		if hash != nil && hash[i] {
			f.Type = reflect.TypeOf(common.Hash{})
		}
		if len(ts) > 1 && opChance(1, 4) {
			f.Name = fmt.Sprint("Other", i)
			f.Tag = reflect.StructTag("abi:\"" + names[i] + "\"")
		}
		if opChance(1, 8) {
			f.Type = reflect.TypeOf((*interface{})(nil)).Elem()
		}
		field[i] = f.Name
		fs = append(fs, f)
	}
	if len(ts) > 1 && opChance(1, 4) {
		fs = append(fs, reflect.StructField{Name: "Unknown", Type: reflect.TypeOf(0)})
	}
	v := reflect.New(reflect.StructOf(fs))
	return v.Interface(), func() (r []interface{}) {
		for _, f := range field {
			r = append(r, v.Elem().FieldByName(f).Interface())
		}
		return
	}
}

// decodings: every way to decode the values of ts; each gives the values, or an error.
func inWays(a *abi.ABI, m *abi.Method, s *asig, call []byte) (ways []func() ([]interface{}, error)) {
	data := call[4:]
	ways = append(ways, func() ([]interface{}, error) { return m.Inputs.Unpack(data) })
	ok := len(s.in) > 0 && goTypeOK(s.inN)
	if ok {
		ways = append(ways, func() ([]interface{}, error) {
			v := map[string]interface{}{}
			if err := a.InputUnpack(v, m.Name, data); err != nil {
				return nil, err
			}
			return byName(v, s.inN), nil
		}, func() ([]interface{}, error) {
			p, get := structFor(s.in, s.inN, nil)
			err := a.UnpackInputObject(p, m.Name, call)
			return get(), err
		}, func() ([]interface{}, error) {
			p, get := structFor(s.in, s.inN, nil)
			err := a.UnpackInput(p, m.Name, data)
			return get(), err
		})
	}
	if len(s.in) > 1 {
		ways = append(ways, func() ([]interface{}, error) {
			v := make([]interface{}, len(s.in)+op(2))
			err := a.UnpackInput(&v, m.Name, data)
			return v[:len(s.in)], err
		})
	}
	if len(s.in) == 1 && s.in[0].k != 'T' {
		ways = append(ways, func() ([]interface{}, error) {
			v := reflect.New(s.in[0].goType(false))
			err := a.UnpackInput(v.Interface(), m.Name, data)
			return []interface{}{v.Elem().Interface()}, err
		})
	}
	return
}

func byName(m map[string]interface{}, names []string) (r []interface{}) {
	for _, n := range names {
		r = append(r, m[n])
	}
	if len(m) != len(names) {
		r = append(r, fmt.Sprintf("%d names", len(m)))
	}
	return
}

func outWays(a *abi.ABI, m *abi.Method, s *asig, data []byte) (ways []func() ([]interface{}, error)) {
	ways = append(ways, func() ([]interface{}, error) { return a.Unpack(m.Name, data) })
	ok := len(s.out) > 0 && goTypeOK(s.outN)
	if ok {
		ways = append(ways, func() ([]interface{}, error) {
			v := map[string]interface{}{}
			if err := a.UnpackIntoMap(v, m.Name, data); err != nil {
				return nil, err
			}
			return byName(v, s.outN), nil
		}, func() ([]interface{}, error) {
			v := map[string]interface{}{}
			if err := a.UnpackReturnsMap(v, m.Name, data); err != nil {
				return nil, err
			}
			return byName(v, s.outN), nil
		}, func() ([]interface{}, error) {
			p, get := structFor(s.out, s.outN, nil)
			err := a.UnpackIntoInterface(p, m.Name, data)
			return get(), err
		}, func() ([]interface{}, error) {
			p, get := structFor(s.out, s.outN, nil)
			err := a.UnpackReturns(p, m.Name, data)
			return get(), err
		})
	}
	if len(s.out) == 1 && s.out[0].k != 'T' {
		ways = append(ways, func() ([]interface{}, error) {
			v := reflect.New(s.out[0].goType(false))
			err := a.UnpackReturns(v.Interface(), m.Name, data)
			return []interface{}{v.Elem().Interface()}, err
		})
	}
	return
}

// decodeAll decodes in one or two of the ways and compares.
func decodeAll(what string, ts []*aty, data []byte, intact bool, want []*aval, ways []func() ([]interface{}, error)) {
	ref, bad := want, ""
	if !intact {
		ref, bad = refDecode(ts, data)
	}
	for k := op(2); k >= 0; k-- {
		w := op(len(ways))
		gs, err := ways[w]()
		switch {
		case err != nil && intact:
			fail("abi-decode", "%s: way %d cannot decode intact values (%s): %v\n%x", what, w, showAll(ts, want), err, data)
		case err != nil:
		case bad != "":
			fail("abi-made-up", "%s: way %d decodes %s, but %s\n%x", what, w, showGo(ts, gs), bad, data)
		case showGo(ts, gs) != showAll(ts, ref):
			fail("abi-decode", "%s: way %d decodes\n%s\nexpected\n%s\n%x", what, w, showGo(ts, gs), showAll(ts, ref), data)
		}
		if err == nil && bad == "" && opChance(1, 4) { // the values are the caller's
			zzsim.Point()
			if showGo(ts, gs) != showAll(ts, ref) {
				fail("abi-shared", "%s: decoded values changed under their reader into %s", what, showGo(ts, gs))
			}
		}
	}
}

func namedText(names []string, ts []*aty, vs []*aval) string {
	var s []string
	for i, t := range ts {
		s = append(s, argText(names[i], t, vs[i]))
	}
	return strings.Join(s, ", ")
}

// checkDef: the parsed definition is the contract's.
func checkDef(c *contract, a *abi.ABI) {
	if len(a.Methods) != len(c.fns) || len(a.Events) != len(c.evs) || len(a.Errors) != len(c.errs) {
		fail("abi-def", "%d methods, %d events, %d errors of %d, %d, %d\n%s", len(a.Methods), len(a.Events), len(a.Errors), len(c.fns), len(c.evs), len(c.errs), c.text)
	}
	for _, s := range c.fns {
		m := method(a, s)
		if !eq(m.ID, s.id()[:4]) || m.RawName != s.name {
			fail("abi-def", "method %s has id %x, raw name %s; expected %x", s.sig(), m.ID, m.RawName, s.id()[:4])
		}
		if m.IsConstant() != (s.mut == 1 || s.mut == 2 || s.mut == 5) || m.IsPayable() != (s.mut == 3 || s.mut == 6) || m.String() != s.text((*aty).sig) {
			fail("abi-def", "method %s (%s) is constant %t, payable %t: %s", s.text((*aty).sig), muts[s.mut], m.IsConstant(), m.IsPayable(), m)
		}
		if g, err := a.MethodById(append(s.id()[:4:4], 1, 2)); err != nil || g.Sig != s.sig() {
			fail("abi-def", "MethodById(%x) = %v, %v; expected %s", s.id()[:4], g, err, s.sig())
		}
	}
	for _, s := range c.evs {
		e := event(a, s)
		if !eq(e.ID[:], s.id()) || e.RawName != s.name || e.Anonymous {
			fail("abi-def", "event %s has id %x, raw name %s", s.sig(), e.ID[:], e.RawName)
		}
		if e.String() != s.text((*aty).sig) {
			fail("abi-def", "event %s is %s", s.text((*aty).sig), e)
		}
		if g, err := a.EventByID(common.BytesToHash(s.id())); err != nil || g.Sig != s.sig() {
			fail("abi-def", "EventByID(%x) = %v, %v; expected %s", s.id(), g, err, s.sig())
		}
	}
	for _, s := range c.errs {
		e, ok := a.Errors[s.name]
		if !ok || e.Sig != s.sig() || !eq(e.ID[:], s.id()) {
			fail("abi-def", "error %s is %v", s.sig(), e)
		}
		if e.String() != s.text((*aty).sig) {
			fail("abi-def", "error %s is %s", s.text((*aty).sig), e.String())
		}
	}
	if a.HasFallback() != c.fallback || a.HasReceive() != c.recv {
		fail("abi-def", "%s has a fallback: %t, a receive: %t", c.text, a.HasFallback(), a.HasReceive())
	}
	if _, err := a.MethodById(keccak([]byte("nothing"))); err == nil {
		fail("abi-def", "MethodById finds an unknown method")
	}
	if _, err := a.MethodById([]byte{1, 2, 3}); err == nil {
		fail("abi-def", "MethodById finds a method for three bytes")
	}
	if _, err := a.EventByID(common.BytesToHash(keccak([]byte("nothing")))); err == nil {
		fail("abi-def", "EventByID finds an unknown event")
	}
}

func method(a *abi.ABI, s *asig) *abi.Method {
	var r *abi.Method
	for _, k := range sortedKeys(a.Methods) {
		if m := a.Methods[k]; m.Sig == s.sig() {
			if r != nil || m.Name != k {
				fail("abi-def", "method %s twice, or as %s and %s", m.Sig, k, m.Name)
			}
			r = &m
		}
	}
	if r == nil {
		fail("abi-def", "method %s is missing", s.sig())
	}
	return r
}

func event(a *abi.ABI, s *asig) *abi.Event {
	var r *abi.Event
	for _, k := range sortedKeys(a.Events) {
		if m := a.Events[k]; m.Sig == s.sig() {
			if r != nil || m.Name != k {
				fail("abi-def", "event %s twice, or as %s and %s", m.Sig, k, m.Name)
			}
			r = &m
		}
	}
	if r == nil {
		fail("abi-def", "event %s is missing", s.sig())
	}
	return r
}

// pure is the one word or hash that stands for an indexed value.
func topicOf(t *aty, v *aval) []byte {
	switch t.k {
	case 's', 'y':
		return keccak(v.b)
	case 'S', 'A', 'T':
		return keccak(t.enc(v))
	}
	return t.enc(v)
}

func hashed(t *aty) bool {
	switch t.k {
	case 's', 'y', 'S', 'A', 'T':
		return true
	}
	return false
}

// emit makes the topics and data of an event.
func emit(a *abi.ABI, s *asig, vs []*aval) (topics []common.Hash, data []byte) {
	e := event(a, s)
	topics = append(topics, e.ID)
	var nts []*aty
	var nvs []*aval
	for i, t := range s.in {
		if !s.indexed[i] {
			nts, nvs = append(nts, t), append(nvs, vs[i])
			continue
		}
		want := topicOf(t, vs[i])
		if t.k != 'S' && t.k != 'A' && t.k != 'T' {
			g := t.toGo(vs[i], false)
			ts, err := abi.MakeTopics([]interface{}{g, g}, nil, []interface{}{g})
			if err != nil || len(ts) != 3 || len(ts[0]) != 2 || len(ts[1]) != 0 || len(ts[2]) != 1 || !eq(ts[0][0][:], want) || !eq(ts[0][1][:], want) || !eq(ts[2][0][:], want) {
				fail("abi-topic", "the topic of %s %s is %x, %v; expected %x", t.sig(), t.show(vs[i]), ts, err, want)
			}
			if showGo([]*aty{t}, []interface{}{g}) != t.show(vs[i]) {
				fail("abi-argument", "MakeTopics changed its argument %s into %v", t.show(vs[i]), g)
			}
		}
		topics = append(topics, common.BytesToHash(want))
	}
	if len(nts) > 0 {
		args := goArgs(nts, nvs)
		var err error
		if data, err = a.PackEventArgs(e.Name, args...); err != nil || !eq(data, encSeq(nts, nvs)) {
			fail("abi-encode", "the data of %s(%s) are\n%x, %v; expected\n%x", s.sig(), showAll(nts, nvs), data, err, encSeq(nts, nvs))
		}
	}
	return
}

// receive decodes an event.
func receive(a *abi.ABI, s *asig, vs []*aval, topics []common.Hash, data []byte, intact bool) {
	e := event(a, s)
	var nts, its []*aty
	var nvs []*aval
	var nN, iN []string
	var idx abi.Arguments
	hash := make([]bool, len(s.in))
	names := make([]string, len(s.in))
	for i, t := range s.in {
		names[i] = s.inN[i]
		if names[i] == "" {
			names[i] = fmt.Sprint("arg", i)
		}
		if s.indexed[i] {
			hash[i] = hashed(t)
			its, iN = append(its, t), append(iN, names[i])
			idx = append(idx, e.Inputs[i])
		} else {
			nts, nvs, nN = append(nts, t), append(nvs, vs[i]), append(nN, names[i])
		}
	}
	want := make([]string, len(s.in)) // "" = any
	text := make([]string, len(s.in))
	ref, bad := nvs, ""
	if !intact {
		ref, bad = refDecode(nts, data)
	}
	for i, k, j := 0, 0, 0; i < len(s.in); i++ {
		if !s.indexed[i] {
			if bad == "" {
				want[i] = s.in[i].show(ref[j])
				text[i] = argText(names[i], s.in[i], ref[j])
			}
			j++
			continue
		}
		if k+1 < len(topics) {
			w := topics[k+1]
			if hash[i] {
				want[i] = hex.EncodeToString(w[:])
				text[i] = fmt.Sprintf("%s:0x%x", names[i], w[:])
			} else if v, b := refDecode([]*aty{s.in[i]}, w[:]); b == "" {
				want[i] = s.in[i].show(v[0])
				text[i] = argText(names[i], s.in[i], v[0])
			} else {
				bad = b
			}
		} else {
			bad = "a topic is missing"
		}
		k++
	}
	check := func(way string, gs []interface{}, err error) {
		switch {
		case err != nil && intact:
			fail("abi-event", "%s cannot decode an intact %s(%s): %v", way, s.sig(), showAll(s.in, vs), err)
		case err != nil:
			return
		case bad != "":
			fail("abi-made-up", "%s decodes an event, but %s: %v", way, bad, gs)
		}
		for i, g := range gs {
			var got string
			if h, ok := g.(common.Hash); ok {
				got = hex.EncodeToString(h[:])
			} else {
				got = showGo([]*aty{s.in[i]}, []interface{}{g})
			}
			if got != want[i] {
				fail("abi-event", "%s of %s decodes parameter %d (indexed %v) as %s, expected %s", way, s.sig(), i, s.indexed[i], got, want[i])
			}
		}
	}
	way := op(4)
	for _, t := range its { // ParseTopics refuses tuples
		if t.k == 'T' && way < 2 {
			way = 3
		}
	}
	switch way {
	case 0:
		m := map[string]interface{}{}
		err := abi.ParseTopicsIntoMap(m, idx, topics[1:])
		if err == nil && len(nts) > 0 {
			err = a.UnpackIntoMap(m, e.Name, data)
		}
		check("ParseTopicsIntoMap", byName(m, names), err)
	case 1:
		if !goTypeOK(names) || len(its) == 0 {
			return
		}
		p, get := structForTopics(its, iN)
		err := abi.ParseTopics(p, idx, topics[1:])
		gs := make([]interface{}, len(s.in))
		if err == nil {
			for i, g := 0, get(); i < len(s.in); i++ {
				if s.indexed[i] {
					gs[i], g = g[0], g[1:]
				}
			}
			var ns []interface{}
			ns, err = e.Inputs.Unpack(data)
			for i := 0; err == nil && i < len(s.in); i++ {
				if !s.indexed[i] && len(ns) > 0 {
					gs[i], ns = ns[0], ns[1:]
				}
			}
		}
		check("ParseTopics", gs, err)
	case 2:
		if !goTypeOK(names) || len(s.in) == 0 {
			return
		}
		if len(s.in) > 1 && opChance(1, 3) {
			v := make([]interface{}, len(s.in))
			err := a.UnpackEvent(&v, topics, data)
			check("UnpackEvent into a slice", v, err)
			return
		}
		p, get := structFor(s.in, names, hash)
		err := a.UnpackEvent(p, topics, data)
		check("UnpackEvent", get(), err)
	case 3:
		g, err := a.EventString(topics, data)
		check("EventString", nil, err)
		if w := e.Name + "(" + strings.Join(text, ", ") + ")"; err == nil && g != w {
			fail("abi-text", "EventString = %q, expected %q", g, w)
		}
	}
}

func structForTopics(ts []*aty, names []string) (p interface{}, get func() []interface{}) {
	var fs []reflect.StructField
	for i, t := range ts {
		f := reflect.StructField{Name: camel(names[i]), Type: t.goType(true)}
		if hashed(t) {
			f.Type = reflect.TypeOf(common.Hash{})
		}
		fs = append(fs, f)
	}
	v := reflect.New(reflect.StructOf(fs))
	return v.Interface(), func() (r []interface{}) {
		for i := range fs {
			r = append(r, v.Elem().Field(i).Interface())
		}
		return
	}
}

type acall struct {
	s       *asig
	in, out []*aval
	bytes   []byte
	outcome int // 0 returns, 1 revert, 2 error
	reason  string
	es      *asig
	ev      []*aval
	evs     *asig
	evv     []*aval
	served  int
}

func runP50(r *R) {
	c := genContract()
	parse := func() *abi.ABI {
		a, err := abi.JSON(bytes.NewReader(c.text))
		if err != nil {
			fail("abi-def", "parsing %s: %v", c.text, err)
		}
		checkDef(c, &a)
		return &a
	}
	server, client := parse(), parse()
	for _, k := range sortedKeys(server.Methods) {
		if server.Methods[k].Sig != client.Methods[k].Sig {
			fail("abi-def", "%s is %s at one node and %s at the other", k, server.Methods[k].Sig, client.Methods[k].Sig)
		}
	}
	if opChance(1, 8) {
		damagedDef(c)
	}
	selectors(c)
	{
		vs := genAvals(c.ctor.in)
		b, err := client.Pack("", goArgs(c.ctor.in, vs)...)
		if err != nil || !eq(b, encSeq(c.ctor.in, vs)) {
			fail("abi-encode", "the constructor data %x, %v of (%s), expected %x", b, err, showAll(c.ctor.in, vs), encSeq(c.ctor.in, vs))
		}
	}
	loss := []int{0, 20}[n("cfg", 2)]
	corrupt := []int{0, 30, 60}[n("cfg", 3)]
	nc := 1 + n("cfg", 3)
	faults, budget := 0, 12
	calls := map[string]*acall{}
	var inbox [][]byte
	replies := make([][][]byte, nc)
	send := func(q *[][]byte, w []byte) {
		for k := 1; k >= 0; k-- {
			if faults < budget && zzsim.Chance("fault", loss, 100) {
				stat("fault.message_lost")
				faults++
				continue
			}
			w := cp(w)
			if faults < budget && zzsim.Chance("fault", corrupt, 100) {
				stat("fault.message_corrupted")
				faults++
				w = damage(w)
			}
			at := len(*q)
			if faults < budget && at > 0 && zzsim.Chance("fault", 1, 4) {
				stat("fault.message_reordered")
				at = n("fault", at+1)
			}
			*q = append((*q)[:at:at], append([][]byte{w}, (*q)[at:]...)...)
			if faults >= budget || !zzsim.Chance("fault", 1, 6) {
				break
			}
			stat("fault.message_repeated")
			faults++
		}
	}
	seal := func(b []byte) []byte { return append(b, keccak(b)[:4]...) } // b is ours
	open := func(w []byte) ([]byte, bool) {
		if len(w) < 4 {
			return nil, false
		}
		b := w[: len(w)-4 : len(w)-4]
		return b, eq(keccak(b)[:4], w[len(w)-4:])
	}
	stop := false
	zzsim.Spawn("contract", 99, func() {
		for !stop {
			zzsim.WaitUntil("calls", func() bool { return len(inbox) > 0 || stop })
			if stop {
				return
			}
			w := inbox[0]
			inbox = inbox[1:]
			b, intact := open(w)
			if len(b) < 1 {
				continue
			}
			from, b := int(b[0]), b[1:]
			var k *acall
			if intact {
				if k = calls[string(b)]; k == nil {
					fail("abi-shared", "a call nobody made arrived intact: %x", b)
				}
			}
			m, err := server.MethodById(b)
			if intact && (err != nil || m.Sig != k.s.sig()) {
				fail("abi-dispatch", "the call of %s is dispatched to %v, %v", k.s.sig(), m, err)
			}
			if err != nil {
				continue
			}
			s := findSig(c.fns, m.Sig)
			var want []*aval
			if intact {
				want = k.in
			}
			decodeAll("call of "+m.Sig, s.in, b[4:], intact, want, inWays(server, m, s, b))
			if opChance(1, 3) {
				str, err := server.MethodString(b)
				ref, bad := want, ""
				if !intact {
					ref, bad = refDecode(s.in, b[4:])
				}
				if intact && err != nil || err == nil && bad != "" || err == nil && str != m.Name+"("+namedText(s.inN, s.in, ref)+")" {
					fail("abi-text", "MethodString = %q, %v (%s), expected %q", str, err, bad, m.Name+"("+namedText(s.inN, s.in, ref)+")")
				}
			}
			if !intact {
				continue
			}
			k.served++
			// the answer: how it ended, the event, the result
			msg := append([]byte{byte(k.outcome)}, keccak(b)[:4]...)
			if k.evs != nil {
				ts, data := emit(server, k.evs, k.evv)
				msg = append(msg, byte(len(ts)))
				for _, t := range ts {
					msg = append(msg, t[:]...)
				}
				msg = append(msg, byte(len(data)>>8), byte(len(data)))
				msg = append(msg, data...)
			} else {
				msg = append(msg, 0)
			}
			switch k.outcome {
			case 0:
				args := goArgs(s.out, k.out)
				d, err := server.PackReturns(m.Name, args...)
				if err != nil || !eq(d, encSeq(s.out, k.out)) {
					fail("abi-encode", "the result %x, %v of %s (%s); expected %x", d, err, s.sig(), showAll(s.out, k.out), encSeq(s.out, k.out))
				}
				msg = append(msg, d...)
			case 1:
				t := []*aty{{k: 's'}}
				msg = append(append(msg, keccak([]byte("Error(string)"))[:4]...), encSeq(t, []*aval{{b: []byte(k.reason)}})...)
			case 2:
				e := server.Errors[k.es.name]
				d, err := e.Inputs.Pack(goArgs(k.es.in, k.ev)...)
				if err != nil || !eq(d, encSeq(k.es.in, k.ev)) {
					fail("abi-encode", "the error %x, %v of %s (%s)", d, err, k.es.sig(), showAll(k.es.in, k.ev))
				}
				msg = append(append(msg, e.ID[:4]...), d...)
			}
			if from < nc {
				send(&replies[from], seal(msg))
			}
		}
	})
	var ts []*zzsim.Task
	dyn, overlap, inCall := 0, false, 0
	for ci := 0; ci < nc; ci++ {
		ci := ci
		ts = append(ts, zzsim.Spawn(fmt.Sprint("client", ci), ci, func() {
			for i := op(4); i >= 0; i-- {
				k := &acall{s: c.fns[op(len(c.fns))], outcome: op(3)}
				k.in, k.out = genAvals(k.s.in), genAvals(k.s.out)
				k.reason = []string{"", "no", strings.Repeat("long ", 14), "é"}[op(4)]
				if len(c.errs) == 0 && k.outcome == 2 {
					k.outcome = 0
				}
				if k.outcome == 2 {
					k.es = c.errs[op(len(c.errs))]
					k.ev = genAvals(k.es.in)
				}
				if len(c.evs) > 0 && opChance(2, 3) {
					k.evs = c.evs[op(len(c.evs))]
					k.evv = genAvals(k.evs.in)
				}
				m := method(client, k.s)
				args := goArgs(k.s.in, k.in)
				want := append(k.s.id()[:4:4], encSeq(k.s.in, k.in)...)
				if o, ok := calls[string(want)]; ok { // the same call again has the same answer
					k = o
				} else {
					k.bytes = want
					calls[string(want)] = k
				}
				inCall++
				overlap = overlap || inCall > 1
				b, err := client.Pack(m.Name, args...)
				if err != nil || !eq(b, want) {
					fail("abi-encode", "Pack(%s, %s) =\n%x, %v; expected\n%x", k.s.sig(), showAll(k.s.in, k.in), b, err, want)
				}
				if g := showGo(k.s.in, unptr(args)); g != showAll(k.s.in, k.in) {
					fail("abi-argument", "Pack changed its arguments (%s) into (%s)", showAll(k.s.in, k.in), g)
				}
				if d, err := client.PackInputWithoutID(m.Name, args...); opChance(1, 4) && (err != nil || !eq(d, want[4:])) {
					fail("abi-encode", "PackInputWithoutID(%s) = %x, %v; expected %x", k.s.sig(), d, err, want[4:])
				}
				if len(k.s.in) > 0 && opChance(1, 4) {
					if d, err := client.Pack(m.Name, args[1:]...); err == nil {
						fail("abi-refuse", "Pack(%s) without its first argument = %x", k.s.sig(), d)
					}
				}
				if len(k.s.in) > 0 && opChance(1, 3) {
					i := op(len(k.s.in))
					if x := wrongs[op(len(wrongs))]; !k.s.in[i].takes(reflect.TypeOf(x), reflect.ValueOf(x)) {
						bad := append([]interface{}{}, args...)
						bad[i] = x
						if d, err := client.Pack(m.Name, bad...); err == nil {
							fail("abi-refuse", "Pack(%s) with %T %v as argument %d = %x", k.s.sig(), x, x, i, d)
						}
					}
				}
				if opChance(1, 6) {
					refusals(client, k.s, m, args, want)
				}
				// the call is ours now: it is sealed in place
				tag := keccak(append([]byte{byte(ci)}, want...))[:4]
				w := append(b, tag...)
				zzsim.Point()
				if !eq(w, append(cp(want), tag...)) {
					fail("abi-shared", "the sealed call of %s changed into %x, it was %x%x", k.s.sig(), w, want, tag)
				}
				w = append([]byte{byte(ci)}, w...)
				ev("client %d calls %s(%s)", ci, k.s.sig(), showAll(k.s.in, k.in))
				for j, got := 0, false; !got; j++ {
					if j > 60 {
						fail("abi-stuck", "the call of %s is not answered", k.s.sig())
					}
					send(&inbox, w)
					zzsim.Sleep(20 * time.Millisecond)
					for len(replies[ci]) > 0 {
						rw := replies[ci][0]
						replies[ci] = replies[ci][1:]
						rb, intact := open(rw)
						if len(rb) < 6 {
							continue
						}
						o := k
						if intact {
							o = nil
							for _, key := range sortedKeys(calls) {
								if eq(keccak([]byte(key))[:4], rb[1:5]) {
									o = calls[key]
								}
							}
							if o == nil {
								fail("abi-shared", "an answer to no call")
							}
							got = got || o == k
						}
						answer(c, client, o, rb, intact)
					}
				}
				inCall--
				for _, t := range append(append([]*aty{}, k.s.in...), k.s.out...) {
					if t.dynamic() {
						dyn++
						break
					}
				}
			}
		}))
	}
	if opChance(1, 3) { // another version of the contract is in use at the same time
		v := c.version()
		ts = append(ts, zzsim.Spawn("version", nc, func() { v.use() }))
	}
	zzsim.Join(ts...)
	stop = true
	checkDef(c, client)
	checkDef(c, server)
	if dyn >= 2 && (faults > 0 || overlap) {
		r.Nontrivial()
	}
}

// version is another version of the contract: the same calls, with other names and other results.
func (c *contract) version() *contract {
	off := 5 * op(2)
	v := &contract{ctor: c.ctor, fallback: !c.fallback}
	var defs []interface{}
	for _, s := range c.fns {
		x := genSig("function", s.name, 1)
		x.in, x.inN, x.indexed, x.mut = s.in, nil, s.indexed, op(len(muts))
		for range s.in {
			x.inN = append(x.inN, genName(len(x.inN)+off))
		}
		v.fns = append(v.fns, x)
		defs = append(defs, x.def())
	}
	for _, s := range c.evs {
		x := *s
		x.inN = nil
		for range s.in {
			x.inN = append(x.inN, genName(len(x.inN)+off))
		}
		v.evs = append(v.evs, &x)
		defs = append(defs, x.def())
	}
	if v.fallback {
		defs = append(defs, map[string]interface{}{"type": "fallback", "stateMutability": "nonpayable"})
	}
	v.text, _ = json.Marshal(defs)
	return v
}

func (c *contract) use() {
	a, err := abi.JSON(bytes.NewReader(c.text))
	if err != nil {
		fail("abi-def", "parsing %s: %v", c.text, err)
	}
	checkDef(c, &a)
	for i := op(4); i >= 0; i-- {
		s := c.fns[op(len(c.fns))]
		in, out := genAvals(s.in), genAvals(s.out)
		m := method(&a, s)
		want := append(s.id()[:4:4], encSeq(s.in, in)...)
		b, err := a.Pack(m.Name, goArgs(s.in, in)...)
		if err != nil || !eq(b, want) {
			fail("abi-encode", "Pack(%s, %s) =\n%x, %v; expected\n%x", s.sig(), showAll(s.in, in), b, err, want)
		}
		zzsim.Point()
		g, err := a.MethodById(b)
		if err != nil || g.Sig != m.Sig || g.Name != m.Name || g.String() != s.text((*aty).sig) {
			fail("abi-dispatch", "the call of %s is dispatched to %v, %v", s.text((*aty).sig), g, err)
		}
		decodeAll("call of "+m.Sig, s.in, b[4:], true, in, inWays(&a, g, s, b))
		if str, err := a.MethodString(b); err != nil || str != m.Name+"("+namedText(s.inN, s.in, in)+")" {
			fail("abi-text", "MethodString = %q, %v, expected %q", str, err, m.Name+"("+namedText(s.inN, s.in, in)+")")
		}
		d, err := a.PackReturns(m.Name, goArgs(s.out, out)...)
		if err != nil || !eq(d, encSeq(s.out, out)) {
			fail("abi-encode", "the result %x, %v of %s (%s)", d, err, s.sig(), showAll(s.out, out))
		}
		if len(s.out) > 0 {
			decodeAll("result of "+m.Sig, s.out, d, true, out, outWays(&a, g, s, d))
			if str, err := a.ReturnsString(b, d); err != nil || str != "returns ("+namedText(s.outN, s.out, out)+")" {
				fail("abi-text", "ReturnsString = %q, %v", str, err)
			}
		}
		if len(c.evs) > 0 {
			s := c.evs[op(len(c.evs))]
			vs := genAvals(s.in)
			ts, data := emit(&a, s, vs)
			receive(&a, s, vs, ts, data, true)
		}
	}
}

func findSig(l []*asig, sig string) *asig {
	for _, s := range l {
		if s.sig() == sig {
			return s
		}
	}
	fail("abi-def", "%s is in no definition", sig)
	return nil
}

// answer decodes what the contract answered.
func answer(c *contract, a *abi.ABI, k *acall, b []byte, intact bool) {
	outcome, nt, b := int(b[0]), int(b[5]), b[6:]
	if nt > 0 {
		if len(b) < 32*nt+2 {
			return
		}
		var topics []common.Hash
		for i := 0; i < nt; i++ {
			topics = append(topics, common.BytesToHash(b[:32]))
			b = b[32:]
		}
		l := int(b[0])<<8 + int(b[1])
		if b = b[2:]; l > len(b) {
			return
		}
		e, err := a.EventByID(topics[0])
		if intact && (err != nil || e.Sig != k.evs.sig()) {
			fail("abi-dispatch", "the event %s is taken for %v, %v", k.evs.sig(), e, err)
		}
		if err == nil {
			s := findSig(c.evs, e.Sig)
			vs := k.evv
			if !intact {
				vs = make([]*aval, len(s.in))
			}
			receive(a, s, vs, topics, b[:l:l], intact)
		}
		b = b[l:]
	}
	if !intact && op(4) == 0 {
		outcome = op(3)
	}
	switch outcome {
	case 0:
		m := method(a, k.s)
		decodeAll("result of "+m.Sig, k.s.out, b, intact, k.out, outWays(a, m, k.s, b))
		if opChance(1, 3) {
			str, err := a.ReturnsString(m.ID, b)
			ref, bad := k.out, ""
			if !intact {
				ref, bad = refDecode(k.s.out, b)
			}
			if len(k.s.out) == 0 {
				ref, bad = nil, ""
			}
			if intact && err != nil || err == nil && bad != "" || err == nil && str != "returns ("+namedText(k.s.outN, k.s.out, ref)+")" {
				fail("abi-text", "ReturnsString = %q, %v (%s), expected %q", str, err, bad, "returns ("+namedText(k.s.outN, k.s.out, ref)+")")
			}
		}
	case 1:
		g, err := abi.UnpackRevert(b)
		if intact && (err != nil || g != k.reason) {
			fail("abi-revert", "the reason %q is read as %q, %v", k.reason, g, err)
		}
		if !intact && err == nil {
			if len(b) < 4 || !eq(b[:4], keccak([]byte("Error(string)"))[:4]) {
				fail("abi-made-up", "UnpackRevert reads %q from %x", g, b)
			}
			if vs, bad := refDecode([]*aty{{k: 's'}}, b[4:]); bad != "" || string(vs[0].b) != g {
				fail("abi-made-up", "UnpackRevert reads %q from %x: %s", g, b, bad)
			}
		}
		for _, s := range c.errs {
			e := a.Errors[s.name]
			if v, err := e.Unpack(b); intact && err == nil {
				fail("abi-made-up", "a revert is read as error %s %v", s.sig(), v)
			}
		}
	case 2:
		for _, s := range c.errs {
			e := a.Errors[s.name]
			v, err := e.Unpack(b)
			gs, _ := v.([]interface{})
			switch {
			case !intact && err == nil:
				ref, bad := refDecode(s.in, b[4:])
				if bad != "" || showGo(s.in, gs) != showAll(s.in, ref) {
					fail("abi-made-up", "error %s is read as %s: %s", s.sig(), showGo(s.in, gs), bad)
				}
			case !intact:
			case s == k.es && (err != nil || showGo(s.in, gs) != showAll(s.in, k.ev)):
				fail("abi-error", "error %s(%s) is read as %s, %v", s.sig(), showAll(s.in, k.ev), showGo(s.in, gs), err)
			case s != k.es && err == nil:
				fail("abi-error", "error %s is read as %s", k.es.sig(), s.sig())
			}
		}
		if g, err := abi.UnpackRevert(b); intact && err == nil {
			fail("abi-made-up", "error %s is read as a revert %q", k.es.sig(), g)
		}
	}
}

// damage alters bytes; some alterations hit the words of offsets and lengths.
func damage(w []byte) []byte {
	if len(w) > 40 && n("fault", 3) > 0 {
		w = cp(w)
		p := n("fault", len(w))
		switch n("fault", 4) {
		case 0:
			w[p] = 0xff
		case 1:
			w[p] += byte(1 + n("fault", 64))
		case 2: // cut whole words
			if c := 32 * (1 + n("fault", 3)); c < len(w)-1 {
				w = w[:len(w)-c]
			}
		case 3:
			w = append(w[:p], append(make([]byte, 32), w[p:]...)...)
		}
		return w
	}
	return flipByte(w)
}

// damagedDef: a definition that arrived damaged is refused or taken for another one, and works or refuses data.
func damagedDef(c *contract) {
	t := flipByte(c.text)
	if i := bytes.Index(t, []byte("bytes")); i > 0 && n("fault", 2) == 0 {
		t = append(append(cp(t[:i+5]), []byte{'0' + byte(n("fault", 10)), '0' + byte(n("fault", 10))}...), t[i+5:]...)
	}
	stat("fault.definition_corrupted")
	a, err := abi.JSON(bytes.NewReader(t))
	if err != nil {
		return
	}
	data := append(encSeq(times(&aty{k: 'u', size: 256}, 3), []*aval{{n: big.NewInt(32)}, {n: big.NewInt(2)}, {n: big.NewInt(1)}}), bytes.Repeat(keccak(nil), 20)...)
	for _, k := range sortedKeys(a.Methods) {
		m := a.Methods[k]
		_, _ = m.Inputs.Unpack(data)
		_, _ = m.Outputs.Unpack(data)
		_, _ = a.MethodString(append(cp(m.ID), data...))
	}
}

var wrongs = []interface{}{"x", true, uint8(7), int8(-7), uint16(7), int16(7), uint32(7), int32(7), uint64(7), int64(7), 7, uint(7), 1.5, big.NewInt(7), *big.NewInt(7), []byte{1, 2, 3}, [1]byte{1}, [2]byte{1}, [19]byte{1}, [20]byte{1}, [21]byte{1}, [24]byte{1}, [32]byte{1},
	[64]byte{1}, common.Hash{1}, common.NodeID{1}, []string{"a"}, [2]string{"a"}, [20]int8{1}, [][]byte{{1}}, [2][]byte{{1}, {2}}, []uint16{1}, [2]uint64{}, []*big.Int{big.NewInt(1)}, []bool{true}, [1]bool{true}, [][]string{{"x"}}, struct{}{}, struct{ Other bool }{true},
	nil, (*big.Int)(nil), (*string)(nil), (*[20]byte)(nil), []*big.Int{nil}}

// takes: may a value of this Go type stand for the type?
func (t *aty) takes(g reflect.Type, v reflect.Value) bool {
	if g == nil || g.Kind() == reflect.Ptr && v.IsNil() {
		return false
	}
	switch t.k {
	case 'i', 'u', 'y':
		return g == t.goType(false)
	case 'b', 's':
		return g.Kind() == t.goType(false).Kind()
	case 'f', 'F', 'a':
		return g.Kind() == reflect.Array && g.Len() == t.goType(false).Len() && g.Elem().Kind() == reflect.Uint8
	case 'S', 'A':
		return (g.Kind() == reflect.Slice || g.Kind() == reflect.Array) && (t.k == 'S' || v.Len() == t.size) && t.elem.takes(g.Elem(), v.Index(0))
	}
	return false
}

// refusals: what is not a call, a result or an event of this name is refused.
func refusals(a *abi.ABI, s *asig, m *abi.Method, args []interface{}, call []byte) {
	outs := goArgs(s.out, genAvals(s.out))
	err := func(what string, err error) {
		if err == nil {
			fail("abi-refuse", "%s is accepted", what)
		}
	}
	var x interface{}
	switch op(8) {
	case 0:
		_, e := a.PackReturns(m.Name, append(outs, true)...)
		err("a result of "+s.sig()+" with one value more", e)
		if len(outs) > 0 {
			_, e = a.PackReturns(m.Name, outs[1:]...)
			err("a result of "+s.sig()+" without its first value", e)
		}
	case 1:
		_, e := a.Pack("nothing", args...)
		err("a call of an unknown method", e)
		_, e = a.PackReturns("nothing", outs...)
		err("a result of an unknown method", e)
		_, e = a.PackInputWithoutID("nothing", args...)
		err("the input of an unknown method", e)
		_, e = a.PackEventArgs("nothing", args...)
		err("an unknown event", e)
	case 2:
		short := call[:op(4)]
		_, e := a.MethodString(short)
		err("a call of less than four bytes", e)
		_, e = a.ReturnsString(short, call[4:])
		err("a result for less than four bytes", e)
		err("a call of less than four bytes", a.UnpackInputObject(&x, m.Name, short))
	case 3:
		other := cp(call)
		other[op(4)] ^= 1 << uint(op(8))
		err("a call of another method", a.UnpackInputObject(&x, m.Name, other))
	case 4:
		err("the input of an unknown method", a.UnpackInput(&x, "nothing", call[4:]))
		err("a result of an unknown method", a.UnpackReturns(&x, "nothing", make([]byte, 32)))
		err("a result of an unknown method", a.UnpackReturnsMap(map[string]interface{}{}, "nothing", make([]byte, 32)))
		_, e := a.Unpack("nothing", make([]byte, 32))
		err("a result of an unknown method", e)
		err("a call of an unknown method", a.UnpackInputObject(&x, "nothing", call))
	case 5:
		if len(s.out) > 0 {
			d := make([]byte, []int{0, 1, 31, 33, 63}[op(5)])
			err("a result of no whole words", a.UnpackReturns(&x, m.Name, d))
			err("a result of no whole words", a.UnpackReturnsMap(map[string]interface{}{}, m.Name, d))
			_, e := a.Unpack(m.Name, d)
			err("a result of no whole words", e)
		}
	case 6:
		if len(s.in) > 0 {
			err("a destination that is no pointer", a.UnpackInput(struct{}{}, m.Name, call[4:]))
			err("a nil destination", a.UnpackInput(nil, m.Name, call[4:]))
			err("a nil map", a.InputUnpack(nil, m.Name, call[4:]))
		}
		if len(s.in) > 1 {
			v := make([]interface{}, len(s.in)-1)
			err("a destination with too few elements", a.UnpackInput(&v, m.Name, call[4:]))
			err("a destination of another kind", a.UnpackInput(new(bool), m.Name, call[4:]))
		}
	case 7:
		_, e := a.EventString(nil, call)
		err("an event without topics", e)
		err("an event without topics", a.UnpackEvent(&x, nil, call))
		h := common.BytesToHash(keccak([]byte("nothing")))
		_, e = a.EventString([]common.Hash{h}, call)
		err("an unknown event", e)
		err("an unknown event", a.UnpackEvent(&x, []common.Hash{h}, call))
	}
}

// selectors: a selector is read as the signature it is; a damaged one is refused or read as something.
func selectors(c *contract) {
	s := c.fns[op(len(c.fns))]
	simple := true
	var walk func(t *aty, depth int)
	walk = func(t *aty, arr int) {
		switch t.k {
		case 'S', 'A':
			walk(t.elem, arr+1+boolInt(t.k == 'A'))
		case 'T':
			simple = simple && arr < 2
			for _, x := range t.comps {
				walk(x, 0)
			}
		}
	}
	for _, t := range s.in {
		walk(t, 0)
	}
	text := s.sig()
	m, err := abi.ParseSelector(text)
	if simple {
		if err != nil {
			fail("abi-selector", "ParseSelector(%q): %v", text, err)
		}
		js, err := json.Marshal([]interface{}{m})
		if err != nil {
			fail("abi-selector", "%v", err)
		}
		a, err := abi.JSON(bytes.NewReader(js))
		if err != nil || a.Methods[s.name].Sig != text || !eq(a.Methods[s.name].ID, s.id()[:4]) {
			fail("abi-selector", "ParseSelector(%q) is read as %s, %v", text, js, err)
		}
	}
	if opChance(1, 4) {
		stat("fault.selector_corrupted")
		t := flipByte([]byte(text))
		if n("fault", 2) == 0 {
			t = []byte(text)[:n("fault", len(text)+1)]
		}
		if m, err := abi.ParseSelector(string(t)); err == nil && (m.Name == "" || m.Type != "function") {
			fail("abi-selector", "ParseSelector(%q) = %v", t, m)
		}
	}
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}
