package main

import (
	"math/bits"
	"sort"
)

// bounds of terms and a normal form for comparisons of linear terms that cannot overflow, so that
// times computed in different ways are compared alike

func addOv(a, b int64) (int64, bool) {
	r := a + b
	return r, (r > a) == (b > 0)
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	if a == -1<<63 || b == -1<<63 {
		return 0, false
	}
	neg := (a < 0) != (b < 0)
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = uint64(-a)
	}
	if b < 0 {
		ub = uint64(-b)
	}
	h, l := bits.Mul64(ua, ub)
	if h != 0 || l > 1<<62 {
		return 0, false
	}
	if neg {
		return -int64(l), true
	}
	return int64(l), true
}

// bounds sets the bounds of a new term
func (t *Term) bounds() {
	if t.w == wBool || t.w == wFP || t.w > 64 {
		return
	}
	fit := func(lo, hi int64) {
		if t.w < 64 && (lo < -1<<(t.w-1) || hi > 1<<(t.w-1)-1) {
			return
		}
		t.lo, t.hi, t.ok = lo, hi, true
	}
	switch t.op {
	case OpConst:
		v := sext(t.val, t.w)
		fit(v, v)
	case OpZExt:
		if t.a.w < 63 {
			if t.a.ok && t.a.lo >= 0 {
				fit(t.a.lo, t.a.hi)
			} else {
				fit(0, int64(mask(t.a.w)))
			}
		}
	case OpSExt:
		if t.a.ok {
			fit(t.a.lo, t.a.hi)
		}
	case OpIte:
		if t.b.ok && t.c.ok {
			fit(min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi))
		}
	case OpAdd:
		if t.a.ok && t.b.ok {
			lo, o1 := addOv(t.a.lo, t.b.lo)
			hi, o2 := addOv(t.a.hi, t.b.hi)
			if o1 && o2 {
				fit(lo, hi)
			}
		}
	case OpSub:
		if t.a.ok && t.b.ok && t.b.lo != -1<<63 {
			lo, o1 := addOv(t.a.lo, -t.b.hi)
			hi, o2 := addOv(t.a.hi, -t.b.lo)
			if o1 && o2 {
				fit(lo, hi)
			}
		}
	case OpMul, OpShl:
		k, ok := t.factor()
		if ok && t.a.ok {
			x, o1 := mulOv(t.a.lo, k)
			y, o2 := mulOv(t.a.hi, k)
			if o1 && o2 {
				fit(min(x, y), max(x, y))
			}
		}
	}
}

// factor is the constant a term is multiplied with
func (t *Term) factor() (int64, bool) {
	if t.b == nil || t.b.op != OpConst {
		return 0, false
	}
	if t.op == OpShl {
		if t.b.val > 61 || t.b.val >= uint64(t.w)-1 {
			return 0, false
		}
		return 1 << t.b.val, true
	}
	return sext(t.b.val, t.b.w), true
}

type linForm struct {
	k map[*Term]int64
	n int64
}

// lin adds f*t to the form
func (l *linForm) add(t *Term, f int64) bool {
	var ok bool
	switch t.op {
	case OpConst:
		x, o := mulOv(sext(t.val, t.w), f)
		if !o {
			return false
		}
		l.n, ok = addOv(l.n, x)
		return ok
	case OpAdd:
		if t.ok {
			return l.add(t.a, f) && l.add(t.b, f)
		}
	case OpSub:
		if t.ok {
			return l.add(t.a, f) && l.add(t.b, -f)
		}
	case OpMul, OpShl:
		if k, o := t.factor(); o && t.ok {
			x, o := mulOv(k, f)
			return o && l.add(t.a, x)
		}
	}
	l.k[t], ok = addOv(l.k[t], f)
	return ok
}

// linear compares in normal form, nil when that cannot be done without overflow
func (c *Ctx) linear(op Op, a, b *Term) *Term {
	isSum := func(t *Term) bool {
		return t.op == OpAdd || t.op == OpSub || t.op == OpMul || t.op == OpShl
	}
	if a.w != 64 || !isSum(a) && !isSum(b) {
		return nil
	}
	// a - b < 0
	l := &linForm{k: map[*Term]int64{}}
	if !l.add(a, 1) || !l.add(b, -1) {
		return nil
	}
	if op == OpSle {
		var ok bool
		if l.n, ok = addOv(l.n, -1); !ok {
			return nil
		}
	}
	var ts []*Term
	for t, k := range l.k {
		if k != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return c.Bool(l.n < 0)
	}
	if len(ts) > 8 || l.n == -1<<63 {
		return nil
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	neg := l.k[ts[0]] < 0
	if neg {
		// not (d < 0) is -d - 1 < 0
		for _, t := range ts {
			l.k[t] = -l.k[t]
		}
		l.n = -l.n - 1
	}
	lhs, rhs := c.BV(0, 64), c.BV(0, 64)
	for _, t := range ts {
		k := l.k[t]
		if k > 0 {
			lhs = c.Bin(OpAdd, lhs, c.Bin(OpMul, t, c.BV(uint64(k), 64)))
		} else {
			rhs = c.Bin(OpAdd, rhs, c.Bin(OpMul, t, c.BV(uint64(-k), 64)))
		}
	}
	if l.n != 0 {
		rhs = c.Bin(OpAdd, rhs, c.BV(uint64(-l.n), 64))
	}
	if !lhs.ok || !rhs.ok {
		return nil
	}
	var r *Term
	switch {
	case lhs.hi < rhs.lo:
		r = c.True
	case lhs.lo >= rhs.hi:
		r = c.False
	case !isSum(lhs) && !isSum(rhs):
		r = c.Bin(OpSlt, lhs, rhs)
	default:
		r = c.raw(OpSlt, wBool, lhs, rhs, nil, 0)
	}
	if neg {
		r = c.Not(r)
	}
	return r
}
