package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OULt
	OULe
	OSLt
	OSLe
	OZext
	OSext
	OExtract // val = lo; w = width
	OConcat
	OFLt
	OFLe
	OFEq
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFToSI // float -> signed int, RTZ (w = int width, val = float width)
	OFToUI
	OSIToF // signed int -> float
	OUIToF
	OFToF // float width change
	OFFloor
	OFCeil
	OFTrunc
	OFRound
	OFRoundE
	OFSqrt
)

// Term is a hash-consed SMT term. w==0 means Bool, otherwise bit-vector width.
type Term struct {
	id      int32
	op      Op
	w       uint16
	val     uint64
	a, b, c *Term
	name    string

	stamp uint32
	cval  uint64
	sent  bool // defined in solver
	sentI bool // defined in the integer solver
	intOK int8 // 1: has an integer encoding, 2: has not
	depth int32
}

type tkey struct {
	op      Op
	w       uint16
	val     uint64
	a, b, c int32
}

// TermTable hash-conses terms; one per worker.
type TermTable struct {
	tab    map[tkey]*Term
	vars   map[string]*Term
	all    int32
	stamp  uint32
	small  [65][]*Term
	tru    *Term
	fls    *Term
	varLst []*Term
}

func NewTermTable() *TermTable {
	tt := &TermTable{tab: map[tkey]*Term{}, vars: map[string]*Term{}}
	tt.tru = tt.mk(OConst, 0, 1, nil, nil, nil)
	tt.fls = tt.mk(OConst, 0, 0, nil, nil, nil)
	return tt
}

func mask(w uint16) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (tt *TermTable) mk(op Op, w uint16, val uint64, a, b, c *Term) *Term {
	k := tkey{op, w, val, tid(a), tid(b), tid(c)}
	if t, ok := tt.tab[k]; ok {
		return t
	}
	t := &Term{id: tt.all, op: op, w: w, val: val, a: a, b: b, c: c}
	d := int32(0)
	for _, x := range [...]*Term{a, b, c} {
		if x != nil && x.depth >= d {
			d = x.depth + 1
		}
	}
	t.depth = d
	tt.all++
	tt.tab[k] = t
	return t
}

func (tt *TermTable) Const(w uint16, v uint64) *Term {
	v &= mask(w)
	if w <= 64 && v < 257 {
		s := tt.small[w]
		if s == nil {
			s = make([]*Term, 257)
			tt.small[w] = s
		}
		if t := s[v]; t != nil {
			return t
		}
		t := tt.mk(OConst, w, v, nil, nil, nil)
		s[v] = t
		return t
	}
	return tt.mk(OConst, w, v, nil, nil, nil)
}

func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.tru
	}
	return tt.fls
}

func (tt *TermTable) Var(name string, w uint16) *Term {
	key := fmt.Sprintf("%s:%d", name, w)
	if t, ok := tt.vars[key]; ok {
		return t
	}
	t := &Term{id: tt.all, op: OVar, w: w, name: key}
	tt.all++
	tt.vars[key] = t
	tt.varLst = append(tt.varLst, t)
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

func sx(v uint64, w uint16) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (tt *TermTable) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return tt.Bool(a.val == 0)
	case ONot:
		return a.a
	case OULt:
		return tt.ULe(a.b, a.a)
	case OULe:
		return tt.ULt(a.b, a.a)
	case OSLt:
		return tt.SLe(a.b, a.a)
	case OSLe:
		return tt.SLt(a.b, a.a)
	}
	return tt.mk(ONot, 0, 0, a, nil, nil)
}

func (tt *TermTable) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) || tt.compl(a, b) {
		return tt.fls
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OAnd, 0, 0, a, b, nil)
}

// compl: a is syntactically the complement of b for comparison operators.
func (tt *TermTable) compl(a, b *Term) bool {
	if a.op == OULt && b.op == OULe || a.op == OULe && b.op == OULt || a.op == OSLt && b.op == OSLe || a.op == OSLe && b.op == OSLt {
		return a.a == b.b && a.b == b.a
	}
	return false
}

func (tt *TermTable) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) || tt.compl(a, b) {
		return tt.tru
	}
	// x < y or x = y
	for i := 0; i < 2; i++ {
		if a.op == OULt && b.op == OEq && ((b.a == a.a && b.b == a.b) || (b.a == a.b && b.b == a.a)) {
			return tt.ULe(a.a, a.b)
		}
		a, b = b, a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OOr, 0, 0, a, b, nil)
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() {
			return tt.Or(c, b)
		}
		if a.isFalse() {
			return tt.And(tt.Not(c), b)
		}
		if b.isTrue() {
			return tt.Or(tt.Not(c), a)
		}
		if b.isFalse() {
			return tt.And(c, a)
		}
	}
	if c.op == ONot {
		return tt.Ite(c.a, b, a)
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	return tt.mk(OIte, a.w, 0, c, a, b)
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return tt.tru
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return tt.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			if b.val&^mask(a.a.w) != 0 {
				return tt.fls
			}
			return tt.Eq(a.a, tt.Const(a.a.w, b.val))
		case OIte:
			if a.b.isConst() && a.c.isConst() {
				return tt.Ite(a.a, tt.Eq(a.b, b), tt.Eq(a.c, b))
			}
		case OAdd:
			if a.b.isConst() {
				return tt.Eq(a.a, tt.Const(a.w, b.val-a.b.val))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OEq, 0, 0, a, b, nil)
}

func (tt *TermTable) ULt(a, b *Term) *Term {
	if a == b {
		return tt.fls
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.val < b.val)
	}
	if b.isConst() {
		if b.val == 0 {
			return tt.fls
		}
		if b.val == 1 {
			return tt.Eq(a, tt.Const(a.w, 0))
		}
		if b.val == mask(b.w) {
			return tt.Not(tt.Eq(a, b))
		}
		if m, ok := umax(a); ok && m < b.val {
			return tt.tru
		}
	}
	if a.isConst() {
		if a.val == 0 {
			return tt.Not(tt.Eq(a, b))
		}
		if a.val == mask(a.w) {
			return tt.fls
		}
		if m, ok := umax(b); ok && m <= a.val {
			return tt.fls
		}
	}
	return tt.mk(OULt, 0, 0, a, b, nil)
}

func umax(a *Term) (uint64, bool) {
	switch a.op {
	case OZext:
		return mask(a.a.w), true
	case OBAnd:
		if a.b.isConst() {
			return a.b.val, true
		}
	case OURem:
		if a.b.isConst() && a.b.val > 0 {
			return a.b.val - 1, true
		}
	case OIte:
		if a.b.isConst() && a.c.isConst() {
			if a.b.val > a.c.val {
				return a.b.val, true
			}
			return a.c.val, true
		}
	}
	return 0, false
}

func (tt *TermTable) ULe(a, b *Term) *Term {
	if a == b {
		return tt.tru
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.val <= b.val)
	}
	if a.isConst() {
		if a.val == 0 {
			return tt.tru
		}
		if m, ok := umax(b); ok && m < a.val {
			return tt.fls
		}
	}
	if b.isConst() {
		if b.val == mask(b.w) {
			return tt.tru
		}
		if b.val == 0 {
			return tt.Eq(a, b)
		}
		if m, ok := umax(a); ok && m <= b.val {
			return tt.tru
		}
	}
	return tt.mk(OULe, 0, 0, a, b, nil)
}

func (tt *TermTable) SLt(a, b *Term) *Term {
	if a == b {
		return tt.fls
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(sx(a.val, a.w) < sx(b.val, b.w))
	}
	if a.op == OZext && a.a.w < a.w && b.isConst() {
		if sx(b.val, b.w) <= 0 {
			return tt.fls
		}
		return tt.ULt(a, b)
	}
	if b.op == OZext && b.a.w < b.w && a.isConst() {
		if sx(a.val, a.w) < 0 {
			return tt.tru
		}
		return tt.ULt(a, b)
	}
	return tt.mk(OSLt, 0, 0, a, b, nil)
}

func (tt *TermTable) SLe(a, b *Term) *Term {
	if a == b {
		return tt.tru
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(sx(a.val, a.w) <= sx(b.val, b.w))
	}
	if a.op == OZext && a.a.w < a.w && b.isConst() {
		if sx(b.val, b.w) < 0 {
			return tt.fls
		}
		return tt.ULe(a, b)
	}
	if b.op == OZext && b.a.w < b.w && a.isConst() {
		if sx(a.val, a.w) <= 0 {
			return tt.tru
		}
		return tt.ULe(a, b)
	}
	return tt.mk(OSLe, 0, 0, a, b, nil)
}

func (tt *TermTable) Add(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return tt.Const(w, a.val+b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if a.op == OAdd && a.b.isConst() {
			return tt.Add(a.a, tt.Const(w, a.b.val+b.val))
		}
	}
	return tt.mk(OAdd, w, 0, a, b, nil)
}

func (tt *TermTable) Sub(a, b *Term) *Term {
	w := a.w
	if a == b {
		return tt.Const(w, 0)
	}
	if b.isConst() {
		return tt.Add(a, tt.Const(w, -b.val))
	}
	return tt.mk(OSub, w, 0, a, b, nil)
}

func (tt *TermTable) Mul(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return tt.Const(w, a.val*b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		if b.val == 1 {
			return a
		}
	}
	return tt.mk(OMul, w, 0, a, b, nil)
}

// Division operators: caller guarantees divisor != 0 on the path.
func (tt *TermTable) Div(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() && b.val != 0 {
		return tt.Const(w, evalBin(op, w, a.val, b.val))
	}
	if b.isConst() && b.val == 1 {
		if op == OUDiv || op == OSDiv {
			return a
		}
		return tt.Const(w, 0)
	}
	if b.isConst() && b.val&(b.val-1) == 0 && b.val != 0 {
		k := uint64(bits.TrailingZeros64(b.val))
		switch op {
		case OUDiv:
			return tt.Shift(OLShr, a, tt.Const(w, k))
		case OURem:
			return tt.BAnd(a, tt.Const(w, b.val-1))
		}
	}
	return tt.mk(op, w, 0, a, b, nil)
}

func (tt *TermTable) BAnd(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return tt.Const(w, a.val&b.val)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		if b.val == mask(w) {
			return a
		}
		if a.op == OZext && b.val == mask(a.a.w) {
			return a
		}
		if a.op == OBAnd && a.b.isConst() {
			return tt.BAnd(a.a, tt.Const(w, a.b.val&b.val))
		}
	}
	return tt.mk(OBAnd, w, 0, a, b, nil)
}

func (tt *TermTable) BOr(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return tt.Const(w, a.val|b.val)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val == mask(w) {
			return b
		}
	}
	return tt.mk(OBOr, w, 0, a, b, nil)
}

func (tt *TermTable) BXor(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return tt.Const(w, a.val^b.val)
	}
	if a == b {
		return tt.Const(w, 0)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.val == 0 {
		return a
	}
	if b.isConst() && a.op == OBXor && a.b.isConst() {
		return tt.BXor(a.a, tt.Const(w, a.b.val^b.val))
	}
	return tt.mk(OBXor, w, 0, a, b, nil)
}

func (tt *TermTable) BNot(a *Term) *Term {
	if a.isConst() {
		return tt.Const(a.w, ^a.val)
	}
	if a.op == OBNot {
		return a.a
	}
	return tt.mk(OBNot, a.w, 0, a, nil, nil)
}

func (tt *TermTable) Neg(a *Term) *Term {
	if a.isConst() {
		return tt.Const(a.w, -a.val)
	}
	return tt.mk(ONeg, a.w, 0, a, nil, nil)
}

// Shift with amount in same width; SMT semantics for amount>=w: 0 (or sign) which matches Go.
func (tt *TermTable) Shift(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return tt.Const(w, evalBin(op, w, a.val, b.val))
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(w) && op != OAShr {
			return tt.Const(w, 0)
		}
		if op == OLShr {
			// normalise to zext(extract)
			if a.op == OZext && b.val >= uint64(a.a.w) {
				return tt.Const(w, 0)
			}
			k := uint16(b.val)
			return tt.Zext(tt.Extract(a, k, w-k), w)
		}
	}
	return tt.mk(op, w, 0, a, b, nil)
}

func (tt *TermTable) Zext(a *Term, w uint16) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.Const(w, a.val)
	}
	if a.op == OZext {
		return tt.Zext(a.a, w)
	}
	return tt.mk(OZext, w, 0, a, nil, nil)
}

func (tt *TermTable) Sext(a *Term, w uint16) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.Const(w, uint64(sx(a.val, a.w)))
	}
	if a.op == OZext {
		return tt.Zext(a.a, w)
	}
	return tt.mk(OSext, w, 0, a, nil, nil)
}

func (tt *TermTable) Extract(a *Term, lo, w uint16) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.isConst() {
		return tt.Const(w, a.val>>lo)
	}
	switch a.op {
	case OZext:
		if lo >= a.a.w {
			return tt.Const(w, 0)
		}
		if lo+w <= a.a.w {
			return tt.Extract(a.a, lo, w)
		}
		return tt.Zext(tt.Extract(a.a, lo, a.a.w-lo), w)
	case OSext:
		if lo+w <= a.a.w {
			return tt.Extract(a.a, lo, w)
		}
	case OExtract:
		return tt.Extract(a.a, lo+uint16(a.val), w)
	case OConcat:
		if lo >= a.b.w {
			return tt.Extract(a.a, lo-a.b.w, w)
		}
		if lo+w <= a.b.w {
			return tt.Extract(a.b, lo, w)
		}
	case OIte:
		if a.b.isConst() || a.c.isConst() {
			return tt.Ite(a.a, tt.Extract(a.b, lo, w), tt.Extract(a.c, lo, w))
		}
	case OBOr, OBAnd, OBXor:
		// push extracts through bitwise ops (byte re-assembly)
		x, y := tt.Extract(a.a, lo, w), tt.Extract(a.b, lo, w)
		switch a.op {
		case OBOr:
			return tt.BOr(x, y)
		case OBAnd:
			return tt.BAnd(x, y)
		default:
			return tt.BXor(x, y)
		}
	case OShl:
		if a.b.isConst() {
			k := uint16(a.b.val)
			if lo+w <= k {
				return tt.Const(w, 0)
			}
			if lo >= k {
				return tt.Extract(a.a, lo-k, w)
			}
		}
	}
	return tt.mk(OExtract, w, uint64(lo), a, nil, nil)
}

// Float ops on bit patterns. w is operand width.
func (tt *TermTable) FBin(op Op, a, b *Term) *Term {
	rw := a.w
	if op == OFLt || op == OFLe || op == OFEq {
		rw = 0
	}
	if a.isConst() && b.isConst() {
		v := evalFBin(op, a.w, a.val, b.val)
		if rw == 0 {
			return tt.Bool(v == 1)
		}
		return tt.Const(rw, v)
	}
	return tt.mk(op, rw, 0, a, b, nil)
}

func (tt *TermTable) FUn(op Op, a *Term, w uint16) *Term {
	if op == OFNeg {
		return tt.BXor(a, tt.Const(a.w, 1<<(a.w-1)))
	}
	if op == OFToF && a.w == w {
		return a
	}
	if a.isConst() {
		return tt.Const(w, evalFUn(op, a.w, w, a.val))
	}
	return tt.mk(op, w, 0, a, nil, nil)
}

func fl(w uint16, v uint64) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func unfl(w uint16, f float64) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalFBin(op Op, w uint16, x, y uint64) uint64 {
	a, b := fl(w, x), fl(w, y)
	switch op {
	case OFLt:
		return b2u(a < b)
	case OFLe:
		return b2u(a <= b)
	case OFEq:
		return b2u(a == b)
	}
	if w == 32 {
		a, b := float32(a), float32(b)
		var r float32
		switch op {
		case OFAdd:
			r = a + b
		case OFSub:
			r = a - b
		case OFMul:
			r = a * b
		case OFDiv:
			r = a / b
		}
		return uint64(math.Float32bits(r))
	}
	var r float64
	switch op {
	case OFAdd:
		r = a + b
	case OFSub:
		r = a - b
	case OFMul:
		r = a * b
	case OFDiv:
		r = a / b
	}
	return math.Float64bits(r)
}

func evalFUn(op Op, aw, w uint16, x uint64) uint64 {
	switch op {
	case OFToSI:
		return uint64(int64(fl(aw, x))) & mask(w)
	case OFToUI:
		return uint64(fl(aw, x)) & mask(w)
	case OSIToF:
		if w == 32 {
			return uint64(math.Float32bits(float32(sx(x, aw))))
		}
		return unfl(w, float64(sx(x, aw)))
	case OUIToF:
		if w == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return unfl(w, float64(x))
	case OFFloor:
		return unfl(w, math.Floor(fl(aw, x)))
	case OFCeil:
		return unfl(w, math.Ceil(fl(aw, x)))
	case OFTrunc:
		return unfl(w, math.Trunc(fl(aw, x)))
	case OFRound:
		return unfl(w, math.Round(fl(aw, x)))
	case OFRoundE:
		return unfl(w, math.RoundToEven(fl(aw, x)))
	case OFSqrt:
		return unfl(w, math.Sqrt(fl(aw, x)))
	case OFToF:
		return unfl(w, fl(aw, x))
	}
	panic("evalFUn")
}

func evalBin(op Op, w uint16, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		s := sx(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m
	}
	panic("evalBin")
}

// Model maps variable names to values.
type Model map[string]uint64

// Eval evaluates t under m (unassigned variables are 0). Memoised per stamp.
func (tt *TermTable) Eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.stamp == tt.stamp {
		return t.cval
	}
	var r uint64
	switch t.op {
	case OVar:
		r = m[t.name] & mask(t.w)
	case ONot:
		r = 1 - tt.Eval(t.a, m)
	case OAnd:
		r = tt.Eval(t.a, m)
		if r == 1 {
			r = tt.Eval(t.b, m)
		}
	case OOr:
		r = tt.Eval(t.a, m)
		if r == 0 {
			r = tt.Eval(t.b, m)
		}
	case OIte:
		if tt.Eval(t.a, m) == 1 {
			r = tt.Eval(t.b, m)
		} else {
			r = tt.Eval(t.c, m)
		}
	case OEq:
		r = b2u(tt.Eval(t.a, m) == tt.Eval(t.b, m))
	case OULt:
		r = b2u(tt.Eval(t.a, m) < tt.Eval(t.b, m))
	case OULe:
		r = b2u(tt.Eval(t.a, m) <= tt.Eval(t.b, m))
	case OSLt:
		r = b2u(sx(tt.Eval(t.a, m), t.a.w) < sx(tt.Eval(t.b, m), t.b.w))
	case OSLe:
		r = b2u(sx(tt.Eval(t.a, m), t.a.w) <= sx(tt.Eval(t.b, m), t.b.w))
	case OBNot:
		r = ^tt.Eval(t.a, m) & mask(t.w)
	case ONeg:
		r = -tt.Eval(t.a, m) & mask(t.w)
	case OZext:
		r = tt.Eval(t.a, m)
	case OSext:
		r = uint64(sx(tt.Eval(t.a, m), t.a.w)) & mask(t.w)
	case OExtract:
		r = (tt.Eval(t.a, m) >> t.val) & mask(t.w)
	case OConcat:
		r = tt.Eval(t.a, m)<<t.b.w | tt.Eval(t.b, m)
	case OFLt, OFLe, OFEq, OFAdd, OFSub, OFMul, OFDiv:
		r = evalFBin(t.op, t.a.w, tt.Eval(t.a, m), tt.Eval(t.b, m))
	case OFToSI, OFToUI, OSIToF, OUIToF, OFToF, OFFloor, OFCeil, OFTrunc, OFRound, OFRoundE, OFSqrt:
		r = evalFUn(t.op, t.a.w, t.w, tt.Eval(t.a, m))
	default:
		r = evalBin(t.op, t.w, tt.Eval(t.a, m), tt.Eval(t.b, m))
	}
	t.stamp = tt.stamp
	t.cval = r
	return r
}

// NewModel invalidates memoised evaluations.
func (tt *TermTable) NewModel() { tt.stamp++ }

// ---- SMT-LIB printing ----

func sortStr(w uint16) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

func fsort(w uint16) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func (t *Term) tofp() string {
	return fmt.Sprintf("((_ to_fp %s) %s)", fsort(t.w), t.ref())
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle", OConcat: "concat", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE"}

// define writes definitions needed for t to sb.
func (t *Term) define(sb *strings.Builder) {
	if t.sent || t.op == OConst {
		return
	}
	if t.op == OVar {
		fmt.Fprintf(sb, "(declare-fun %s () %s)\n", t.ref(), sortStr(t.w))
		t.sent = true
		return
	}
	for _, x := range [...]*Term{t.a, t.b, t.c} {
		if x != nil {
			x.define(sb)
		}
	}
	var body string
	switch t.op {
	case OZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", uint64(t.w)+t.val-1, t.val, t.a.ref())
	case OFLt, OFLe, OFEq:
		body = fmt.Sprintf("(%s %s %s)", opNames[t.op], t.a.tofp(), t.b.tofp())
	case OFAdd, OFSub, OFMul, OFDiv:
		body = fmt.Sprintf("(fp.to_ieee_bv (%s %s %s))", opNames[t.op], t.a.tofp(), t.b.tofp())
	case OFToSI:
		body = fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, t.a.tofp())
	case OFToUI:
		body = fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, t.a.tofp())
	case OSIToF:
		body = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fsort(t.w), t.a.ref())
	case OUIToF:
		body = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fsort(t.w), t.a.ref())
	case OFFloor, OFCeil, OFTrunc, OFRound, OFRoundE:
		body = fmt.Sprintf("(fp.to_ieee_bv (fp.roundToIntegral %s %s))", map[Op]string{OFFloor: "RTN", OFCeil: "RTP", OFTrunc: "RTZ", OFRound: "RNA", OFRoundE: "RNE"}[t.op], t.a.tofp())
	case OFSqrt:
		body = fmt.Sprintf("(fp.to_ieee_bv (fp.sqrt RNE %s))", t.a.tofp())
	case OFToF:
		body = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fsort(t.w), t.a.tofp())
	default:
		body = "(" + opNames[t.op]
		for _, x := range [...]*Term{t.a, t.b, t.c} {
			if x != nil {
				body += " " + x.ref()
			}
		}
		body += ")"
	}
	fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", t.ref(), sortStr(t.w), body)
	t.sent = true
}

// String pretty-prints (bounded).
func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprint(t.val)
	case OVar:
		return t.name
	}
	if d == 0 {
		return "..."
	}
	n := opNames[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d", t.op)
	}
	s := "(" + n
	for _, x := range [...]*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.str(d-1)
		}
	}
	return s + ")"
}

// ---- integer encoding ----
//
// Comparisons, additions and case splits over machine integers are exact in
// linear integer arithmetic with explicit wrap-around; order-heavy queries are
// decided much faster there than after bit-blasting.

func (t *Term) ints() bool {
	if t.intOK != 0 {
		return t.intOK == 1
	}
	ok := false
	switch t.op {
	case OConst, OVar, ONot, OAnd, OOr, OIte, OEq, OULt, OULe, OSLt, OSLe, OZext, OSext, OAdd, OSub, ONeg:
		ok = true
	case OExtract:
		ok = t.val == 0
	case OMul:
		ok = t.a.isConst() || t.b.isConst()
	}
	for _, x := range [...]*Term{t.a, t.b, t.c} {
		if ok && x != nil && !x.ints() {
			ok = false
		}
	}
	t.intOK = 2
	if ok {
		t.intOK = 1
	}
	return ok
}

func pow2(w uint16) string {
	if w < 64 {
		return fmt.Sprint(uint64(1) << w)
	}
	return "18446744073709551616"
}

func (t *Term) refI() string {
	if t.op == OConst {
		if t.w == 0 {
			return t.ref()
		}
		return fmt.Sprint(t.val)
	}
	if t.op == OVar {
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) signedI() string {
	if t.op == OConst {
		v := sx(t.val, t.w)
		if v < 0 {
			return "(- " + strings.TrimPrefix(fmt.Sprint(v), "-") + ")"
		}
		return fmt.Sprint(v)
	}
	return fmt.Sprintf("(ite (< %s %s) %s (- %s %s))", t.refI(), pow2(t.w-1), t.refI(), t.refI(), pow2(t.w))
}

func (t *Term) defineI(sb *strings.Builder) {
	if t.sentI || t.op == OConst {
		return
	}
	sort := "Int"
	if t.w == 0 {
		sort = "Bool"
	}
	if t.op == OVar {
		fmt.Fprintf(sb, "(declare-fun %s () %s)\n", t.refI(), sort)
		t.sentI = true
		return
	}
	for _, x := range [...]*Term{t.a, t.b, t.c} {
		if x != nil {
			x.defineI(sb)
		}
	}
	var a, b string
	if t.a != nil {
		a = t.a.refI()
	}
	if t.b != nil {
		b = t.b.refI()
	}
	m := pow2(t.w)
	var body string
	switch t.op {
	case ONot:
		body = "(not " + a + ")"
	case OAnd:
		body = "(and " + a + " " + b + ")"
	case OOr:
		body = "(or " + a + " " + b + ")"
	case OIte:
		body = "(ite " + a + " " + b + " " + t.c.refI() + ")"
	case OEq:
		body = "(= " + a + " " + b + ")"
	case OULt:
		body = "(< " + a + " " + b + ")"
	case OULe:
		body = "(<= " + a + " " + b + ")"
	case OSLt:
		body = "(< " + t.a.signedI() + " " + t.b.signedI() + ")"
	case OSLe:
		body = "(<= " + t.a.signedI() + " " + t.b.signedI() + ")"
	case OZext:
		body = a
	case OSext:
		body = fmt.Sprintf("(ite (< %s %s) %s (+ %s (- %s %s)))", a, pow2(t.a.w-1), a, a, m, pow2(t.a.w))
	case OExtract:
		body = fmt.Sprintf("(mod %s %s)", a, m)
	case OMul:
		body = fmt.Sprintf("(mod (* %s %s) %s)", a, b, m)
	case ONeg:
		body = fmt.Sprintf("(ite (= %s 0) 0 (- %s %s))", a, m, a)
	case OSub:
		body = fmt.Sprintf("(ite (< %s %s) (+ (- %s %s) %s) (- %s %s))", a, b, a, b, m, a, b)
	case OAdd:
		c, o := t.a, t.b
		if o.isConst() {
			c, o = o, c
		}
		if c.isConst() && c.val > mask(t.w)/2 { // x - k
			k := mask(t.w) - c.val + 1
			x := o.refI()
			body = fmt.Sprintf("(ite (< %s %d) (+ %s %d) (- %s %d))", x, k, x, c.val, x, k)
		} else {
			body = fmt.Sprintf("(ite (< (+ %s %s) %s) (+ %s %s) (- (+ %s %s) %s))", a, b, m, a, b, a, b, m)
		}
	}
	fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", t.refI(), sort, body)
	t.sentI = true
}

// rangeI is the range constraint of an integer encoded variable.
func (t *Term) rangeI() string {
	return fmt.Sprintf("(assert (and (<= 0 %s) (< %s %s)))\n", t.refI(), t.refI(), pow2(t.w))
}
