package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Symbolic terms: booleans, bit-vectors and (exact) reals, hash-consed per path.

type Sort uint8

const (
	SBool Sort = iota
	SBV
	SReal
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	// bit-vectors
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLshr
	OpAshr
	OpTrunc
	OpZext
	OpSext
	OpUlt
	OpUle
	OpSlt
	OpSle
	// reals
	OpRAdd
	OpRSub
	OpRMul
	OpRLt
	OpRLe
	OpBV2Real // signed
	OpUBV2Real
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr",
	OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpRAdd: "+", OpRSub: "-", OpRMul: "*", OpRLt: "<", OpRLe: "<=",
}

type Term struct {
	op     Op
	sort   Sort
	w      int
	a      []*Term
	bv     uint64
	rat    *big.Rat
	b      bool
	name   string
	id     int
	poly   *Poly
	pbad   bool // polynomial form too large
	vars   []*Term
	vset   bool
	sgn    int8 // cached signOf at version sgnVer of the sign table
	sgnVer int
}

type tkey struct {
	op      Op
	w       int
	a, b, c int
	bv      uint64
	s       string
}

type TermMgr struct {
	tab     map[tkey]*Term
	n       int
	True    *Term
	False   *Term
	vars    []*Term
	sign    map[int]int // real atom id -> 1 (>0), 0 (>=0)
	signVer int
	invs    map[string]*Term // canonical polynomial -> reciprocal variable
	invDef  map[int]*Term    // reciprocal var id -> denominator
	narrow  map[int]*Term    // real term id -> its value rounded to float32
	narDef  map[int]*Term    // variable of a rounded value -> the term
	facts   map[string]bool  // canonical comparison atoms known true/false on this path
}

func NewTermMgr() *TermMgr {
	m := &TermMgr{tab: map[tkey]*Term{}, sign: map[int]int{}, signVer: 1, invs: map[string]*Term{}, invDef: map[int]*Term{}, facts: map[string]bool{}, narrow: map[int]*Term{}, narDef: map[int]*Term{}}
	m.True = m.mk(&Term{op: OpConst, sort: SBool, b: true}, "T")
	m.False = m.mk(&Term{op: OpConst, sort: SBool, b: false}, "F")
	return m
}

func (m *TermMgr) mk(t *Term, s string) *Term {
	k := tkey{op: t.op, w: t.w, bv: t.bv, s: s, a: -1, b: -1, c: -1}
	if t.op == OpConst {
		k.s = string(rune('0'+t.sort)) + s
	}
	if len(t.a) > 0 {
		k.a = t.a[0].id
	}
	if len(t.a) > 1 {
		k.b = t.a[1].id
	}
	if len(t.a) > 2 {
		k.c = t.a[2].id
	}
	if x, ok := m.tab[k]; ok {
		return x
	}
	t.id = m.n
	m.n++
	m.tab[k] = t
	return t
}

func (m *TermMgr) Bool(b bool) *Term {
	if b {
		return m.True
	}
	return m.False
}

func maskW(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (m *TermMgr) BV(w int, v uint64) *Term {
	v &= maskW(w)
	return m.mk(&Term{op: OpConst, sort: SBV, w: w, bv: v}, "")
}

func (m *TermMgr) Rat(r *big.Rat) *Term {
	return m.mk(&Term{op: OpConst, sort: SReal, rat: r}, r.RatString())
}

func (m *TermMgr) Var(name string, s Sort, w int) *Term {
	t := m.mk(&Term{op: OpVar, sort: s, w: w, name: name}, name)
	if t.id == m.n-1 {
		m.vars = append(m.vars, t)
	}
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (m *TermMgr) Not(a *Term) *Term {
	if a.isConst() {
		return m.Bool(!a.b)
	}
	if a.op == OpNot {
		return a.a[0]
	}
	switch a.op {
	case OpRLt: // not (x<y) == y<=x
		return m.mk(&Term{op: OpRLe, sort: SBool, a: []*Term{a.a[1], a.a[0]}}, "")
	case OpRLe:
		return m.mk(&Term{op: OpRLt, sort: SBool, a: []*Term{a.a[1], a.a[0]}}, "")
	}
	return m.mk(&Term{op: OpNot, sort: SBool, a: []*Term{a}}, "")
}

func (m *TermMgr) And(a, b *Term) *Term {
	if a.isConst() {
		if a.b {
			return b
		}
		return m.False
	}
	if b.isConst() {
		if b.b {
			return a
		}
		return m.False
	}
	if a == b {
		return a
	}
	return m.mk(&Term{op: OpAnd, sort: SBool, a: []*Term{a, b}}, "")
}

func (m *TermMgr) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.b {
			return m.True
		}
		return b
	}
	if b.isConst() {
		if b.b {
			return m.True
		}
		return a
	}
	if a == b {
		return a
	}
	return m.mk(&Term{op: OpOr, sort: SBool, a: []*Term{a, b}}, "")
}

func (m *TermMgr) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.b {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a == m.True && b == m.False {
			return c
		}
		if a == m.False && b == m.True {
			return m.Not(c)
		}
	}
	return m.mk(&Term{op: OpIte, sort: a.sort, w: a.w, a: []*Term{c, a, b}}, "")
}

func (m *TermMgr) Eq(a, b *Term) *Term {
	if a == b {
		return m.True
	}
	if a.sort != b.sort || a.w != b.w {
		panic(unsupported{fmt.Sprintf("eq on different sorts %v/%d %v/%d", a.sort, a.w, b.sort, b.w)})
	}
	if a.isConst() && b.isConst() {
		switch a.sort {
		case SBool:
			return m.Bool(a.b == b.b)
		case SBV:
			return m.Bool(a.bv == b.bv)
		case SReal:
			return m.Bool(a.rat.Cmp(b.rat) == 0)
		}
	}
	if a.sort == SBool {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.b {
				return a
			}
			return m.Not(a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return m.mk(&Term{op: OpEq, sort: SBool, a: []*Term{a, b}}, "")
}

// BVOp builds a bit-vector operation with constant folding.
func (m *TermMgr) BVOp(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		x, y := a.bv, b.bv
		xs, ys := sx(x, w), sx(y, w)
		switch op {
		case OpAdd:
			return m.BV(w, x+y)
		case OpSub:
			return m.BV(w, x-y)
		case OpMul:
			return m.BV(w, x*y)
		case OpUDiv:
			if y != 0 {
				return m.BV(w, x/y)
			}
		case OpURem:
			if y != 0 {
				return m.BV(w, x%y)
			}
		case OpSDiv:
			if ys != 0 && ys != -1 {
				return m.BV(w, uint64(xs/ys))
			} else if ys == -1 {
				return m.BV(w, uint64(-xs))
			}
		case OpSRem:
			if ys != 0 && ys != -1 {
				return m.BV(w, uint64(xs%ys))
			} else if ys == -1 {
				return m.BV(w, 0)
			}
		case OpBAnd:
			return m.BV(w, x&y)
		case OpBOr:
			return m.BV(w, x|y)
		case OpBXor:
			return m.BV(w, x^y)
		case OpShl:
			if y >= uint64(w) {
				return m.BV(w, 0)
			}
			return m.BV(w, x<<y)
		case OpLshr:
			if y >= uint64(w) {
				return m.BV(w, 0)
			}
			return m.BV(w, x>>y)
		case OpAshr:
			if y >= uint64(w) {
				y = uint64(w - 1)
			}
			return m.BV(w, uint64(xs>>y))
		case OpUlt:
			return m.Bool(x < y)
		case OpUle:
			return m.Bool(x <= y)
		case OpSlt:
			return m.Bool(xs < ys)
		case OpSle:
			return m.Bool(xs <= ys)
		}
	}
	s, rw := SBV, w
	switch op {
	case OpUlt, OpUle, OpSlt, OpSle:
		s, rw = SBool, 0
		if a == b {
			return m.Bool(op == OpUle || op == OpSle)
		}
	case OpAdd, OpBOr, OpBXor:
		if a.isConst() && a.bv == 0 {
			return b
		}
		if b.isConst() && b.bv == 0 {
			return a
		}
	case OpSub, OpShl, OpLshr, OpAshr:
		if b.isConst() && b.bv == 0 {
			return a
		}
	case OpMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.bv == 1 {
			return a
		}
		if b.isConst() && b.bv == 0 {
			return b
		}
	case OpBAnd:
		if a.isConst() && a.bv == 0 {
			return a
		}
		if b.isConst() && b.bv == 0 {
			return b
		}
	}
	t := &Term{op: op, sort: s, w: rw, a: []*Term{a, b}}
	return m.mk(t, "")
}

func (m *TermMgr) BVUn(op Op, a *Term) *Term {
	if a.isConst() {
		switch op {
		case OpBNot:
			return m.BV(a.w, ^a.bv)
		case OpNeg:
			return m.BV(a.w, -a.bv)
		}
	}
	return m.mk(&Term{op: op, sort: SBV, w: a.w, a: []*Term{a}}, "")
}

// Resize converts a bit-vector to width w.
func (m *TermMgr) Resize(a *Term, w int, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if signed {
			return m.BV(w, uint64(sx(a.bv, a.w)))
		}
		return m.BV(w, a.bv)
	}
	op := OpZext
	if w < a.w {
		op = OpTrunc
	} else if signed {
		op = OpSext
	}
	return m.mk(&Term{op: op, sort: SBV, w: w, a: []*Term{a}}, "")
}

// ---- reals

func (m *TermMgr) ROp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		r := new(big.Rat)
		switch op {
		case OpRAdd:
			return m.Rat(r.Add(a.rat, b.rat))
		case OpRSub:
			return m.Rat(r.Sub(a.rat, b.rat))
		case OpRMul:
			return m.Rat(r.Mul(a.rat, b.rat))
		case OpRLt:
			return m.Bool(a.rat.Cmp(b.rat) < 0)
		case OpRLe:
			return m.Bool(a.rat.Cmp(b.rat) <= 0)
		}
	}
	switch op {
	case OpRAdd:
		if a.isConst() && a.rat.Sign() == 0 {
			return b
		}
		if b.isConst() && b.rat.Sign() == 0 {
			return a
		}
	case OpRSub:
		if b.isConst() && b.rat.Sign() == 0 {
			return a
		}
	case OpRMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.rat.Sign() == 0 {
				return b
			}
			if b.rat.Cmp(ratOne) == 0 {
				return a
			}
		}
	case OpRLt, OpRLe:
		if a == b {
			return m.Bool(op == OpRLe)
		}
		return m.mk(&Term{op: op, sort: SBool, a: []*Term{a, b}}, "")
	}
	return m.mk(&Term{op: op, sort: SReal, a: []*Term{a, b}}, "")
}

var ratOne = big.NewRat(1, 1)
var ratZero = new(big.Rat)

// Inv returns the term for 1/d and whether a fresh reciprocal variable was made.
// The caller has established d != 0 on the path.
func (m *TermMgr) Inv(d *Term) (*Term, *Term) {
	if d.isConst() {
		return m.Rat(new(big.Rat).Inv(d.rat)), nil
	}
	p := m.Poly(d)
	key := "t" + strconv.Itoa(d.id)
	scale := ratOne
	if p != nil {
		if c, ok := p.constVal(); ok {
			return m.Rat(new(big.Rat).Inv(c)), nil
		}
		np, c := p.monic()
		scale = c
		key = "p" + np.key()
	}
	if v, ok := m.invs[key]; ok {
		// v is the reciprocal of the monic polynomial
		return m.ROp(OpRMul, v, m.Rat(new(big.Rat).Inv(scale))), nil
	}
	v := m.Var(fmt.Sprintf("inv!%d", len(m.invs)), SReal, 0)
	m.invs[key] = v
	monic := m.ROp(OpRMul, d, m.Rat(new(big.Rat).Inv(scale)))
	m.invDef[v.id] = monic
	if s := m.signOf(monic); s == 2 {
		m.setSign(v.id, 1)
	}
	def := m.mk(&Term{op: OpEq, sort: SBool, a: []*Term{m.ROp(OpRMul, v, monic), m.Rat(ratOne)}}, "")
	return m.ROp(OpRMul, v, m.Rat(new(big.Rat).Inv(scale))), def
}

// ---- polynomials (canonical form of real terms)

type Poly struct {
	m map[string]*big.Rat // monomial key -> coefficient (non-zero)
	k string
}

const polyLimit = 30000

// monomial key: sorted "id^exp" packed as 4-byte id, 1 byte exp
func monoMul(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	var out []byte
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		ka, kb := a[i:i+4], b[j:j+4]
		if ka == kb {
			out = append(out, ka...)
			out = append(out, a[i+4]+b[j+4])
			i += 5
			j += 5
		} else if ka < kb {
			out = append(out, a[i:i+5]...)
			i += 5
		} else {
			out = append(out, b[j:j+5]...)
			j += 5
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return string(out)
}

func monoAtom(id int) string {
	return string([]byte{byte(id >> 24), byte(id >> 16), byte(id >> 8), byte(id), 1})
}

func (p *Poly) constVal() (*big.Rat, bool) {
	if len(p.m) == 0 {
		return ratZero, true
	}
	if len(p.m) == 1 {
		if c, ok := p.m[""]; ok {
			return c, true
		}
	}
	return nil, false
}

func (p *Poly) key() string {
	if p.k != "" {
		return p.k
	}
	ks := make([]string, 0, len(p.m))
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteByte(byte(len(k)))
		sb.WriteString(k)
		sb.WriteString(p.m[k].RatString())
		sb.WriteByte(';')
	}
	p.k = sb.String()
	if p.k == "" {
		p.k = "0"
	}
	return p.k
}

// monic scales so that the first monomial (in key order) has coefficient 1; returns the scale factor.
func (p *Poly) monic() (*Poly, *big.Rat) {
	first := ""
	has := false
	for k := range p.m {
		if !has || k < first {
			first, has = k, true
		}
	}
	if !has {
		return p, ratOne
	}
	// prefer a non-constant leading monomial so that a*x and x share a form; key order puts "" first
	if first == "" && len(p.m) > 1 {
		has = false
		for k := range p.m {
			if k != "" && (!has || k < first) {
				first, has = k, true
			}
		}
	}
	c := p.m[first]
	if c.Cmp(ratOne) == 0 {
		return p, ratOne
	}
	inv := new(big.Rat).Inv(c)
	q := &Poly{m: make(map[string]*big.Rat, len(p.m))}
	for k, v := range p.m {
		q.m[k] = new(big.Rat).Mul(v, inv)
	}
	return q, c
}

func polyAdd(a, b *Poly, neg bool) *Poly {
	checkLate()
	q := &Poly{m: make(map[string]*big.Rat, len(a.m)+len(b.m))}
	for k, v := range a.m {
		q.m[k] = v
	}
	for k, v := range b.m {
		var r *big.Rat
		if x, ok := q.m[k]; ok {
			if neg {
				r = new(big.Rat).Sub(x, v)
			} else {
				r = new(big.Rat).Add(x, v)
			}
			if r.Sign() == 0 {
				delete(q.m, k)
				continue
			}
		} else if neg {
			r = new(big.Rat).Neg(v)
		} else {
			r = v
		}
		q.m[k] = r
	}
	return q
}

func polyMul(a, b *Poly) *Poly {
	checkLate()
	if len(a.m)*len(b.m) > polyLimit*4 {
		return nil
	}
	q := &Poly{m: make(map[string]*big.Rat, len(a.m)*len(b.m))}
	for ka, va := range a.m {
		for kb, vb := range b.m {
			k := monoMul(ka, kb)
			c := new(big.Rat).Mul(va, vb)
			if x, ok := q.m[k]; ok {
				c.Add(c, x)
				if c.Sign() == 0 {
					delete(q.m, k)
					continue
				}
			}
			q.m[k] = c
		}
	}
	if len(q.m) > polyLimit {
		return nil
	}
	return q
}

// Poly returns the canonical polynomial of a real term, or nil if it got too large.
func (m *TermMgr) Poly(t *Term) *Poly {
	if t.poly != nil || t.pbad {
		return t.poly
	}
	switch t.op {
	case OpConst:
		p := &Poly{m: map[string]*big.Rat{}}
		if t.rat.Sign() != 0 {
			p.m[""] = t.rat
		}
		t.poly = p
	case OpRAdd, OpRSub, OpRMul:
		a, b := m.Poly(t.a[0]), m.Poly(t.a[1])
		if a != nil && b != nil {
			switch t.op {
			case OpRAdd:
				t.poly = polyAdd(a, b, false)
			case OpRSub:
				t.poly = polyAdd(a, b, true)
			case OpRMul:
				t.poly = polyMul(a, b)
			}
		}
		if t.poly != nil && len(t.poly.m) > polyLimit {
			t.poly = nil
		}
		if t.poly == nil {
			t.pbad = true
		}
	default:
		t.poly = &Poly{m: map[string]*big.Rat{monoAtom(t.id): ratOne}}
	}
	return t.poly
}

// signOf: 2 = known > 0, 1 = known >= 0, 0 = unknown
func (m *TermMgr) signOf(t *Term) int {
	if t.isConst() {
		switch t.rat.Sign() {
		case 1:
			return 2
		case 0:
			return 1
		}
		return 0
	}
	if s, ok := m.sign[t.id]; ok {
		return s + 1
	}
	if t.op != OpRAdd && t.op != OpRMul {
		return 0
	}
	if t.sgnVer == m.signVer {
		return int(t.sgn)
	}
	s := m.signOf1(t)
	t.sgn, t.sgnVer = int8(s), m.signVer
	return s
}

func (m *TermMgr) setSign(id, s int) {
	m.sign[id] = s
	m.signVer++
}

func (m *TermMgr) signOf1(t *Term) int {
	switch t.op {
	case OpRAdd:
		a := m.signOf(t.a[0])
		if a == 0 {
			return 0
		}
		b := m.signOf(t.a[1])
		if b == 0 {
			return 0
		}
		if a > b {
			return a
		}
		return b
	case OpRMul:
		if t.a[0] == t.a[1] {
			if s := m.signOf(t.a[0]); s > 0 {
				return s
			}
			return 1
		}
		a := m.signOf(t.a[0])
		if a == 0 {
			return 0
		}
		b := m.signOf(t.a[1])
		if a < b {
			return a
		}
		return b
	}
	return 0
}

// cmpKey canonicalises a real comparison "d op 0"; returns key for >0, and for =0, and whether the polynomial was negated.
func (m *TermMgr) cmpKey(a, b *Term) (string, bool, bool) {
	pa, pb := m.Poly(a), m.Poly(b)
	if pa == nil || pb == nil {
		return "", false, false
	}
	d := polyAdd(pa, pb, true)
	mp, c := d.monic()
	return mp.key(), c.Sign() < 0, true
}

// quotient splits a product with one reciprocal of a positive term into numerator and denominator.
func (m *TermMgr) quotient(t *Term) (*Term, *Term) {
	if t.op != OpRMul {
		return nil, nil
	}
	for i := 0; i < 2; i++ {
		x, y := t.a[i], t.a[1-i]
		if d := m.invDef[x.id]; d != nil && m.sign[x.id] == 1 && m.signOf(d) == 2 {
			return y, d
		}
		if n, d := m.quotient(x); d != nil {
			return m.ROp(OpRMul, n, y), d
		}
	}
	return nil, nil
}

// RealCmp builds a (op) b for op in lt, le, eq, with folding through the canonical form and known facts.
func (m *TermMgr) RealCmp(op Op, a, b *Term) *Term {
	if a == b {
		return m.Bool(op != OpRLt)
	}
	raw := func() *Term {
		if op == OpEq {
			return m.Eq(a, b)
		}
		return m.ROp(op, a, b)
	}
	if a.isConst() && b.isConst() {
		return raw()
	}
	// sign folding against zero
	if b.isConst() && b.rat.Sign() == 0 {
		s := m.signOf(a)
		if s == 2 {
			return m.False // a<0, a<=0, a==0 are all false
		}
		if s == 1 && op == OpRLt {
			return m.False
		}
	}
	if a.isConst() && a.rat.Sign() == 0 {
		s := m.signOf(b)
		if s == 2 {
			return m.Bool(op != OpEq)
		}
		if s == 1 && op == OpRLe {
			return m.True
		}
	}
	// a quotient with a positive denominator compared with a constant is multiplied out
	if b.isConst() {
		if n, d := m.quotient(a); d != nil {
			return m.RealCmp(op, n, m.ROp(OpRMul, d, b))
		}
	} else if a.isConst() {
		if n, d := m.quotient(b); d != nil {
			return m.RealCmp(op, m.ROp(OpRMul, d, a), n)
		}
	}
	pa, pb := m.Poly(a), m.Poly(b)
	if pa != nil && pb != nil {
		d := polyAdd(pa, pb, true)
		if c, ok := d.constVal(); ok {
			switch op {
			case OpEq:
				return m.Bool(c.Sign() == 0)
			case OpRLt:
				return m.Bool(c.Sign() < 0)
			case OpRLe:
				return m.Bool(c.Sign() <= 0)
			}
		}
		mp, c := d.monic()
		k := mp.key()
		neg := c.Sign() < 0
		// facts on monic polynomial q: "g"=q>0, "l"=q<0, "e"=q==0, each known true or false
		know := func(s string) (bool, bool) { v, ok := m.facts[s+k]; return v, ok }
		gt, lt := "g", "l"
		if neg {
			gt, lt = "l", "g"
		}
		// d>0 is fact gt; d<0 is fact lt
		dgt, okg := know(gt)
		dlt, okl := know(lt)
		deq, oke := know("e")
		switch op {
		case OpRLt: // d<0
			if okl {
				return m.Bool(dlt)
			}
			if okg && dgt || oke && deq {
				return m.False
			}
			if okg && !dgt && oke && !deq {
				return m.True
			}
		case OpRLe: // d<=0
			if okg {
				return m.Bool(!dgt)
			}
			if okl && dlt || oke && deq {
				return m.True
			}
		case OpEq:
			if oke {
				return m.Bool(deq)
			}
			if okg && dgt || okl && dlt {
				return m.False
			}
			if okg && !dgt && okl && !dlt {
				return m.True
			}
		}
	}
	return raw()
}

// LearnFact records a real comparison that holds on the path.
func (m *TermMgr) LearnFact(t *Term) {
	val := true
	if t.op == OpNot {
		t = t.a[0]
		val = false
	}
	if t.op == OpAnd && val {
		m.LearnFact(t.a[0])
		m.LearnFact(t.a[1])
		return
	}
	if t.op != OpRLt && t.op != OpRLe && !(t.op == OpEq && t.a[0].sort == SReal) {
		return
	}
	if val && (t.op == OpRLt || t.op == OpRLe) && t.a[0].isConst() && t.a[0].rat.Sign() >= 0 {
		// a term known to be positive (1) or non-negative (0)
		s := 0
		if t.op == OpRLt || t.a[0].rat.Sign() > 0 {
			s = 1
		}
		if s >= m.sign[t.a[1].id] {
			m.setSign(t.a[1].id, s)
		}
	}
	if !val && (t.op == OpRLt || t.op == OpRLe) && t.a[1].isConst() && t.a[1].rat.Sign() >= 0 {
		s := 0
		if t.op == OpRLe || t.a[1].rat.Sign() > 0 {
			s = 1
		}
		if s >= m.sign[t.a[0].id] {
			m.setSign(t.a[0].id, s)
		}
	}
	k, neg, ok := m.cmpKey(t.a[0], t.a[1])
	if !ok {
		return
	}
	gt, lt := "g", "l"
	if neg {
		gt, lt = "l", "g"
	}
	switch t.op {
	case OpRLt:
		m.facts[lt+k] = val
		if val {
			m.facts[gt+k] = false
			m.facts["e"+k] = false
		}
	case OpRLe:
		m.facts[gt+k] = !val
		if !val {
			m.facts[lt+k] = false
			m.facts["e"+k] = false
		}
	case OpEq:
		m.facts["e"+k] = val
		if val {
			m.facts[gt+k] = false
			m.facts[lt+k] = false
		}
	}
}

// ---- free variables

func (m *TermMgr) Vars(t *Term) []*Term {
	if t.vset {
		return t.vars
	}
	if t.op == OpVar {
		t.vars = []*Term{t}
		t.vset = true
		return t.vars
	}
	seen := map[int]bool{}
	var out []*Term
	for _, x := range t.a {
		for _, v := range m.Vars(x) {
			if !seen[v.id] {
				seen[v.id] = true
				out = append(out, v)
			}
		}
	}
	t.vars = out
	t.vset = true
	return out
}

// ---- printing

func ratSMT(r *big.Rat) string {
	n := new(big.Int).Set(r.Num())
	neg := n.Sign() < 0
	n.Abs(n)
	s := n.String() + ".0"
	if !r.IsInt() {
		s = "(/ " + s + " " + r.Denom().String() + ".0)"
	}
	if neg {
		s = "(- " + s + ")"
	}
	return s
}

func sortSMT(t *Term) string {
	switch t.sort {
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", t.w)
	}
	return "Real"
}

// Print emits declarations/definitions for the given roots and returns the reference for each root.
func (m *TermMgr) Print(sb *strings.Builder, roots []*Term, declared map[int]string) []string {
	refs := map[int]int{}
	var count func(t *Term)
	count = func(t *Term) {
		refs[t.id]++
		if refs[t.id] > 1 {
			return
		}
		for _, a := range t.a {
			count(a)
		}
	}
	for _, r := range roots {
		count(r)
	}
	names := map[int]string{}
	ndef := 0
	var emit func(t *Term) string
	emit = func(t *Term) string {
		if n, ok := names[t.id]; ok {
			return n
		}
		var s string
		switch t.op {
		case OpConst:
			switch t.sort {
			case SBool:
				s = strconv.FormatBool(t.b)
			case SBV:
				s = fmt.Sprintf("(_ bv%d %d)", t.bv, t.w)
			case SReal:
				s = ratSMT(t.rat)
			}
			names[t.id] = s
			return s
		case OpVar:
			s = declared[t.id]
			if s == "" {
				s = fmt.Sprintf("v!%d", len(declared))
				declared[t.id] = s
				fmt.Fprintf(sb, "(declare-const %s %s)\n", s, sortSMT(t))
			}
			names[t.id] = s
			return s
		case OpTrunc:
			s = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, emit(t.a[0]))
		case OpZext:
			s = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, emit(t.a[0]))
		case OpSext:
			s = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, emit(t.a[0]))
		case OpBV2Real:
			x := emit(t.a[0])
			s = fmt.Sprintf("(to_real (ite (bvslt %s (_ bv0 %d)) (- (bv2nat %s) %s) (bv2nat %s)))", x, t.a[0].w, x, new(big.Int).Lsh(big.NewInt(1), uint(t.a[0].w)).String(), x)
		case OpUBV2Real:
			s = fmt.Sprintf("(to_real (bv2nat %s))", emit(t.a[0]))
		default:
			parts := make([]string, 0, len(t.a)+1)
			parts = append(parts, opNames[t.op])
			for _, a := range t.a {
				parts = append(parts, emit(a))
			}
			s = "(" + strings.Join(parts, " ") + ")"
		}
		if refs[t.id] > 1 {
			n := fmt.Sprintf("n!%d", ndef)
			ndef++
			fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", n, sortSMT(t), s)
			s = n
		}
		names[t.id] = s
		return s
	}
	out := make([]string, len(roots))
	for i, r := range roots {
		out[i] = emit(r)
	}
	return out
}
