package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

// Op is the operator of a term
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLShr
	OpAShr
	OpNeg
	OpBNot
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpExtract // val = hi<<8|lo
	OpZExt
	OpSExt
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg
	OpFEq
	OpFLt
	OpFLe
	OpSToF
	OpUToF
	OpFToS
	OpFToU
	OpFromBits
	OpToF32 // round to float32 precision and back
)

const (
	wBool uint8 = 0
	wFP   uint8 = 200
)

// Term is a hash-consed SMT term; w is 0 for Bool, 1..64 for bit vectors and wFP for Float64
type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	val     uint64
	name    string
	id      int
	emitted int // generation of the solver that has seen a definition
	size    int
	lo, hi  int64 // bounds of the signed value when ok, reached without overflow
	ok      bool
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int
	val     uint64
	name    string
}

// Ctx holds the hash-consing table, one per worker
type Ctx struct {
	tab   map[termKey]*Term
	next  int
	smol  [65][]*Term
	True  *Term
	False *Term
	vars  []*Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[termKey]*Term{}, next: 1}
	c.True = c.mk(termKey{op: OpConst, w: wBool, val: 1}, nil, nil, nil)
	c.False = c.mk(termKey{op: OpConst, w: wBool, val: 0}, nil, nil, nil)
	for w := 1; w <= 64; w++ {
		n := 300
		if w < 8 {
			n = 1 << w
		} else if w == 8 {
			n = 256
		}
		c.smol[w] = make([]*Term, n)
	}
	return c
}

// Size is the number of terms made
func (c *Ctx) Size() int { return c.next }

func tid(t *Term) int {
	if t == nil {
		return 0
	}
	return t.id
}

func (c *Ctx) mk(k termKey, a, b, d *Term) *Term {
	if t, ok := c.tab[k]; ok {
		return t
	}
	sz := 1
	for _, x := range []*Term{a, b, d} {
		if x != nil {
			sz += x.size
		}
	}
	if sz > 1<<30 {
		sz = 1 << 30
	}
	t := &Term{op: k.op, w: k.w, a: a, b: b, c: d, val: k.val, name: k.name, id: c.next, size: sz}
	c.next++
	c.tab[k] = t
	t.bounds()
	return t
}

func (c *Ctx) raw(op Op, w uint8, a, b, d *Term, val uint64) *Term {
	return c.mk(termKey{op, w, tid(a), tid(b), tid(d), val, ""}, a, b, d)
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (c *Ctx) BV(v uint64, w uint8) *Term {
	v &= mask(w)
	if v < uint64(len(c.smol[w])) {
		if t := c.smol[w][v]; t != nil {
			return t
		}
		t := c.raw(OpConst, w, nil, nil, nil, v)
		c.smol[w][v] = t
		return t
	}
	return c.raw(OpConst, w, nil, nil, nil, v)
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) F(f float64) *Term {
	return c.raw(OpConst, wFP, nil, nil, nil, math.Float64bits(f))
}

func (c *Ctx) Var(name string, w uint8) *Term {
	k := termKey{op: OpVar, w: w, name: name}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := c.mk(k, nil, nil, nil)
	c.vars = append(c.vars, t)
	return t
}

// RangedVar is a variable that only holds values within the bounds, its user has to assert them
func (c *Ctx) RangedVar(name string, w uint8, lo, hi int64) *Term {
	t := c.Var(fmt.Sprintf("%s[%d,%d]", name, lo, hi), w)
	t.lo, t.hi, t.ok = lo, hi, true
	return t
}

func (t *Term) IsConst() bool { return t.op == OpConst }

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a == c.True:
		return c.False
	case a == c.False:
		return c.True
	case a.op == OpNot:
		return a.a
	}
	return c.raw(OpNot, wBool, a, nil, nil, 0)
}

func (c *Ctx) And(a, b *Term) *Term {
	switch {
	case a == c.False || b == c.False:
		return c.False
	case a == c.True:
		return b
	case b == c.True:
		return a
	case a == b:
		return a
	case a.op == OpNot && a.a == b, b.op == OpNot && b.a == a:
		return c.False
	}
	return c.raw(OpAnd, wBool, a, b, nil, 0)
}

func (c *Ctx) Or(a, b *Term) *Term {
	switch {
	case a == c.True || b == c.True:
		return c.True
	case a == c.False:
		return b
	case b == c.False:
		return a
	case a == b:
		return a
	case a.op == OpNot && a.a == b, b.op == OpNot && b.a == a:
		return c.True
	}
	return c.raw(OpOr, wBool, a, b, nil, 0)
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a == b {
		return c.True
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(a.val == b.val)
	}
	if a.w == wBool {
		if a.op == OpConst {
			a, b = b, a
		}
		if b == c.True {
			return a
		}
		if b == c.False {
			return c.Not(a)
		}
	}
	if b.op != OpConst && a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		switch a.op {
		case OpIte:
			if a.b.op == OpConst || a.c.op == OpConst {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		case OpZExt:
			if b.val > mask(a.a.w) {
				return c.False
			}
			return c.Eq(a.a, c.BV(b.val, a.a.w))
		case OpSExt:
			if uint64(sext(b.val&mask(a.a.w), a.a.w))&mask(a.w) != b.val {
				return c.False
			}
			return c.Eq(a.a, c.BV(b.val, a.a.w))
		case OpAdd:
			if a.b.op == OpConst {
				return c.Eq(a.a, c.BV(b.val-a.b.val, a.w))
			}
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.raw(OpEq, wBool, a, b, nil, 0)
}

func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p == c.True {
		return a
	}
	if p == c.False {
		return b
	}
	if a == b {
		return a
	}
	if a.w != b.w {
		panic("ite width mismatch")
	}
	if a.w == wBool {
		switch {
		case a == c.True && b == c.False:
			return p
		case a == c.False && b == c.True:
			return c.Not(p)
		case a == c.True:
			return c.Or(p, b)
		case a == c.False:
			return c.And(c.Not(p), b)
		case b == c.True:
			return c.Or(c.Not(p), a)
		case b == c.False:
			return c.And(p, a)
		}
	}
	if p.op == OpNot {
		return c.Ite(p.a, b, a)
	}
	if b.op == OpIte && b.a == p {
		b = b.c
	}
	if a.op == OpIte && a.a == p {
		a = a.b
	}
	return c.raw(OpIte, a.w, p, a, b, 0)
}

func shiftAmt(v uint64, w uint8) (uint, bool) {
	if v >= uint64(w) {
		return 0, true
	}
	return uint(v), false
}

// evalOp computes a non-leaf operator on concrete arguments
func evalOp(op Op, w uint8, aw uint8, a, b, d uint64, val uint64) (uint64, bool) {
	bo := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	m := mask(w)
	f := math.Float64frombits
	fb := math.Float64bits
	switch op {
	case OpNot:
		return a ^ 1, true
	case OpAnd:
		return a & b, true
	case OpOr:
		return a | b, true
	case OpEq:
		return bo(a == b), true
	case OpIte:
		if a == 1 {
			return b, true
		}
		return d, true
	case OpAdd:
		return (a + b) & m, true
	case OpSub:
		return (a - b) & m, true
	case OpMul:
		return (a * b) & m, true
	case OpUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OpURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OpSDiv:
		if b == 0 {
			if sext(a, w) < 0 {
				return 1, true
			}
			return m, true
		}
		x, y := sext(a, w), sext(b, w)
		if y == -1 {
			return uint64(-x) & m, true
		}
		return uint64(x/y) & m, true
	case OpSRem:
		if b == 0 {
			return a, true
		}
		x, y := sext(a, w), sext(b, w)
		if y == -1 {
			return 0, true
		}
		return uint64(x%y) & m, true
	case OpBAnd:
		return a & b, true
	case OpBOr:
		return a | b, true
	case OpBXor:
		return a ^ b, true
	case OpShl:
		s, over := shiftAmt(b, w)
		if over {
			return 0, true
		}
		return (a << s) & m, true
	case OpLShr:
		s, over := shiftAmt(b, w)
		if over {
			return 0, true
		}
		return a >> s, true
	case OpAShr:
		s, over := shiftAmt(b, w)
		if over {
			s = uint(w) - 1
		}
		return uint64(sext(a, w)>>s) & m, true
	case OpNeg:
		return (-a) & m, true
	case OpBNot:
		return (^a) & m, true
	case OpUlt:
		return bo(a < b), true
	case OpUle:
		return bo(a <= b), true
	case OpSlt:
		return bo(sext(a, aw) < sext(b, aw)), true
	case OpSle:
		return bo(sext(a, aw) <= sext(b, aw)), true
	case OpExtract:
		lo := val & 0xff
		return (a >> lo) & m, true
	case OpZExt:
		return a, true
	case OpSExt:
		return uint64(sext(a, aw)) & m, true
	case OpFAdd:
		return fb(f(a) + f(b)), true
	case OpFSub:
		return fb(f(a) - f(b)), true
	case OpFMul:
		return fb(f(a) * f(b)), true
	case OpFDiv:
		return fb(f(a) / f(b)), true
	case OpFNeg:
		return fb(-f(a)), true
	case OpFEq:
		return bo(f(a) == f(b)), true
	case OpFLt:
		return bo(f(a) < f(b)), true
	case OpFLe:
		return bo(f(a) <= f(b)), true
	case OpSToF:
		return fb(float64(sext(a, aw))), true
	case OpUToF:
		return fb(float64(a)), true
	case OpFToS:
		return uint64(int64(f(a))) & m, true
	case OpFToU:
		return uint64(f(a)) & m, true
	case OpFromBits:
		return a, true
	case OpToF32:
		return fb(float64(float32(f(a)))), true
	}
	return 0, false
}

func (c *Ctx) constOf(v uint64, w uint8) *Term {
	switch w {
	case wBool:
		return c.Bool(v == 1)
	case wFP:
		return c.raw(OpConst, wFP, nil, nil, nil, v)
	}
	return c.BV(v, w)
}

// Bin builds a binary operation, w is the width of the result
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	switch op {
	case OpUlt, OpUle, OpSlt, OpSle, OpFEq, OpFLt, OpFLe:
		w = wBool
	}
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch op %d: %d %d", op, a.w, b.w))
	}
	if a.op == OpConst && b.op == OpConst {
		r, _ := evalOp(op, w, a.w, a.val, b.val, 0, 0)
		return c.constOf(r, w)
	}
	switch op {
	case OpAdd:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return a
			}
			if a.op == OpAdd && a.b.op == OpConst {
				return c.Bin(OpAdd, a.a, c.BV(a.b.val+b.val, w))
			}
			if a.op == OpSub && a.a.op == OpConst {
				return c.Bin(OpSub, c.BV(a.a.val+b.val, w), a.b)
			}
			if a.op == OpIte && a.b.op == OpConst && a.c.op == OpConst {
				return c.Ite(a.a, c.Bin(OpAdd, a.b, b), c.Bin(OpAdd, a.c, b))
			}
		}
	case OpSub:
		if b.op == OpConst {
			return c.Bin(OpAdd, a, c.BV(-b.val, w))
		}
		if a == b {
			return c.BV(0, w)
		}
		if b.op == OpSub && b.a.op == OpConst && b.a.val == 0 {
			return c.Bin(OpAdd, a, b.b)
		}
		if b.op == OpAdd && b.b.op == OpConst {
			return c.Bin(OpAdd, c.Bin(OpSub, a, b.a), c.BV(-b.b.val, w))
		}
		if a.op == OpAdd && a.a == b {
			return a.b
		}
		if a.op == OpAdd && a.b == b {
			return a.a
		}
		if b.op == OpAdd && b.a == a {
			return c.Bin(OpSub, c.BV(0, w), b.b)
		}
		if b.op == OpAdd && b.b == a {
			return c.Bin(OpSub, c.BV(0, w), b.a)
		}
	case OpMul:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
			if a.op == OpMul && a.b.op == OpConst {
				return c.Bin(OpMul, a.a, c.BV(a.b.val*b.val, w))
			}
			if neg := -b.val & mask(w); neg < b.val&mask(w) {
				return c.Bin(OpSub, c.BV(0, w), c.Bin(OpMul, a, c.BV(neg, w)))
			}
			if bits.OnesCount64(b.val) == 1 {
				return c.Bin(OpShl, a, c.BV(uint64(bits.TrailingZeros64(b.val)), w))
			}
			if a.op == OpSub && a.a.op == OpConst && a.a.val == 0 {
				return c.Bin(OpSub, a.a, c.Bin(OpMul, a.b, b))
			}
		}
	case OpSRem:
		if _, ok := exactMul(a, b); ok {
			return c.BV(0, w)
		}
	case OpUDiv, OpSDiv:
		if b.op == OpConst && b.val == 1 {
			return a
		}
		if k, ok := exactMul(a, b); ok && op == OpSDiv {
			return c.Bin(OpMul, a.a, c.BV(uint64(k), w))
		}
		if op == OpUDiv && b.op == OpConst && bits.OnesCount64(b.val) == 1 {
			return c.Bin(OpLShr, a, c.BV(uint64(bits.TrailingZeros64(b.val)), w))
		}
	case OpBAnd:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OpBOr:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return a
			}
			if b.val == mask(w) {
				return b
			}
		}
		if a == b {
			return a
		}
	case OpBXor:
		if a == b {
			return c.BV(0, w)
		}
		if b.op == OpConst && b.val == 0 {
			return a
		}
	case OpShl, OpLShr, OpAShr:
		if b.op == OpConst && b.val == 0 {
			return a
		}
	case OpUlt:
		if a == b {
			return c.False
		}
		if b.op == OpConst && b.val == 0 {
			return c.False
		}
		if a.op == OpConst && a.val == mask(a.w) {
			return c.False
		}
		if a.op == OpZExt && b.op == OpConst {
			if b.val > mask(a.a.w) {
				return c.True
			}
			return c.Bin(OpUlt, a.a, c.BV(b.val, a.a.w))
		}
		if b.op == OpZExt && a.op == OpConst {
			if a.val >= mask(b.a.w) {
				return c.False
			}
			return c.Bin(OpUlt, c.BV(a.val, b.a.w), b.a)
		}
	case OpUle:
		if a == b {
			return c.True
		}
		if a.op == OpConst && a.val == 0 {
			return c.True
		}
		if b.op == OpConst && b.val == mask(b.w) {
			return c.True
		}
		if a.op == OpZExt && b.op == OpConst {
			if b.val >= mask(a.a.w) {
				return c.True
			}
			return c.Bin(OpUle, a.a, c.BV(b.val, a.a.w))
		}
		if b.op == OpZExt && a.op == OpConst {
			if a.val > mask(b.a.w) {
				return c.False
			}
			return c.Bin(OpUle, c.BV(a.val, b.a.w), b.a)
		}
	case OpSlt, OpSle:
		if a == b {
			return c.Bool(op == OpSle)
		}
		if a.ok && b.ok {
			if a.hi < b.lo || op == OpSle && a.hi == b.lo {
				return c.True
			}
			if a.lo > b.hi || op == OpSlt && a.lo == b.hi {
				return c.False
			}
			if t := c.linear(op, a, b); t != nil {
				return t
			}
		}
		// comparisons of zero extended values against non negative constants are unsigned
		uop := OpUlt
		if op == OpSle {
			uop = OpUle
		}
		if a.op == OpZExt && b.op == OpConst {
			if sext(b.val, b.w) < 0 {
				return c.False
			}
			return c.Bin(uop, a, b)
		}
		if b.op == OpZExt && a.op == OpConst {
			if sext(a.val, a.w) < 0 {
				return c.True
			}
			return c.Bin(uop, a, b)
		}
		if a.op == OpZExt && b.op == OpZExt {
			return c.Bin(uop, a, b)
		}
	}
	return c.raw(op, w, a, b, nil, 0)
}

func (c *Ctx) Un(op Op, a *Term, w uint8) *Term {
	if a.op == OpConst {
		r, _ := evalOp(op, w, a.w, a.val, 0, 0, 0)
		return c.constOf(r, w)
	}
	return c.raw(op, w, a, nil, nil, 0)
}

func (c *Ctx) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if lo == 0 && w == a.w {
		return a
	}
	if a.op == OpConst {
		return c.BV(a.val>>lo, w)
	}
	if lo == 0 && (a.op == OpZExt || a.op == OpSExt) {
		if w == a.a.w {
			return a.a
		}
		if w < a.a.w {
			return c.Extract(a.a, hi, lo)
		}
		if a.op == OpZExt {
			return c.ZExt(a.a, w)
		}
		return c.SExt(a.a, w)
	}
	return c.raw(OpExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo))
}

func (c *Ctx) ZExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.op == OpConst {
		return c.BV(a.val, w)
	}
	if a.op == OpZExt {
		return c.ZExt(a.a, w)
	}
	return c.raw(OpZExt, w, a, nil, nil, 0)
}

func (c *Ctx) SExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.op == OpConst {
		return c.BV(uint64(sext(a.val, a.w)), w)
	}
	if a.op == OpZExt {
		return c.ZExt(a.a, w)
	}
	return c.raw(OpSExt, w, a, nil, nil, 0)
}

// Resize changes a bit vector's width, signed tells how to extend
func (c *Ctx) Resize(a *Term, w uint8, signed bool) *Term {
	switch {
	case w == a.w:
		return a
	case w < a.w:
		return c.Extract(a, w-1, 0)
	case signed:
		return c.SExt(a, w)
	}
	return c.ZExt(a, w)
}

// Model assigns values to variables by name
type Model map[string]uint64

// Evaluator evaluates terms under a model
type Evaluator struct {
	m    Model
	memo map[int]uint64
}

func NewEvaluator(m Model) *Evaluator { return &Evaluator{m: m, memo: map[int]uint64{}} }

func (e *Evaluator) Eval(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpVar:
		return e.m[t.name]
	}
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	var a, b, d uint64
	var r uint64
	switch t.op {
	case OpIte:
		if e.Eval(t.a) == 1 {
			r = e.Eval(t.b)
		} else {
			r = e.Eval(t.c)
		}
	case OpAnd:
		r = e.Eval(t.a)
		if r == 1 {
			r = e.Eval(t.b)
		}
	case OpOr:
		r = e.Eval(t.a)
		if r == 0 {
			r = e.Eval(t.b)
		}
	default:
		a = e.Eval(t.a)
		if t.b != nil {
			b = e.Eval(t.b)
		}
		if t.c != nil {
			d = e.Eval(t.c)
		}
		r, _ = evalOp(t.op, t.w, t.a.w, a, b, d, t.val)
	}
	e.memo[t.id] = r
	return r
}

func sortName(w uint8) string {
	switch w {
	case wBool:
		return "Bool"
	case wFP:
		return "(_ FloatingPoint 11 53)"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func constSMT(v uint64, w uint8) string {
	switch w {
	case wBool:
		if v == 1 {
			return "true"
		}
		return "false"
	case wFP:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", v)
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul",
	OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpNeg: "bvneg", OpBNot: "bvnot", OpUlt: "bvult", OpUle: "bvule",
	OpSlt: "bvslt", OpSle: "bvsle", OpFAdd: "fp.add RNE", OpFSub: "fp.sub RNE", OpFMul: "fp.mul RNE", OpFDiv: "fp.div RNE",
	OpFNeg: "fp.neg", OpFEq: "fp.eq", OpFLt: "fp.lt", OpFLe: "fp.leq",
}

// render gives the SMT-LIB text of one node using ref for its children
func (t *Term) render(ref func(*Term) string) string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case OpExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", t.val>>8, t.val&0xff)
	case OpZExt:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.w-t.a.w)
	case OpSExt:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.w-t.a.w)
	case OpSToF:
		sb.WriteString("(_ to_fp 11 53) RNE")
	case OpUToF:
		sb.WriteString("(_ to_fp_unsigned 11 53) RNE")
	case OpFToS:
		fmt.Fprintf(&sb, "(_ fp.to_sbv %d) RTZ", t.w)
	case OpFToU:
		fmt.Fprintf(&sb, "(_ fp.to_ubv %d) RTZ", t.w)
	case OpFromBits:
		sb.WriteString("(_ to_fp 11 53)")
	case OpToF32:
		return "((_ to_fp 11 53) RNE ((_ to_fp 8 24) RNE " + ref(t.a) + "))"
	default:
		sb.WriteString(opNames[t.op])
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(ref(x))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

// String renders a term for diagnostics
func (t *Term) String() string {
	if t == nil {
		return "nil"
	}
	if t.size > 400 {
		return fmt.Sprintf("<term %d size %d>", t.id, t.size)
	}
	switch t.op {
	case OpConst:
		return constSMT(t.val, t.w)
	case OpVar:
		return t.name
	}
	return t.render(func(x *Term) string { return x.String() })
}

// exactMul is k when a is x*(b*k), does not overflow and b is a positive constant
func exactMul(a *Term, b *Term) (int64, bool) {
	if b.op != OpConst || a.op != OpMul || a.b == nil || a.b.op != OpConst || !a.a.ok {
		return 0, false
	}
	d, f := sext(b.val, b.w), sext(a.b.val, a.w)
	if d <= 0 || f%d != 0 {
		return 0, false
	}
	l, ok := mulOv(a.a.lo, f)
	h, ok2 := mulOv(a.a.hi, f)
	if !ok || !ok2 {
		return 0, false
	}
	min, max := int64(-1)<<(a.w-1), int64(uint64(1)<<(a.w-1)-1)
	if a.w < 64 && (l < min || l > max || h < min || h > max) {
		return 0, false
	}
	return f / d, true
}
