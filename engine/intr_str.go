package main

import (
	"regexp"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// matchAt is true when sub (concrete) occurs at position i of s
func (m *Machine) matchAt(s *SStr, sub string, i int) *Term {
	c := m.c
	if i+len(sub) > len(s.b) {
		return c.False
	}
	r := c.Bin(OpUle, c.BV(uint64(i+len(sub)), 64), s.n)
	for k := 0; k < len(sub) && r != c.False; k++ {
		r = c.And(r, c.Eq(s.b[i+k], c.BV(uint64(sub[k]), 8)))
	}
	return r
}

// matchAtSym is matchAt for a symbolic needle of symbolic length
func (m *Machine) matchAtSym(s, sub *SStr, i int) *Term {
	c := m.c
	r := c.Bin(OpUle, c.Bin(OpAdd, c.BV(uint64(i), 64), sub.n), s.n)
	for k := 0; k < len(sub.b) && r != c.False; k++ {
		kt := c.BV(uint64(k), 64)
		var e *Term
		if i+k < len(s.b) {
			e = c.Eq(s.b[i+k], sub.b[k])
		} else {
			e = c.False
		}
		r = c.And(r, c.Or(c.Bin(OpUle, sub.n, kt), e))
	}
	return r
}

func (m *Machine) symStr(v Value) *SStr {
	s := m.sstr(v)
	if s.opaque {
		m.unsupported("inspection of opaque string")
	}
	return s
}

func (m *Machine) containsT(s, sub Value) *Term {
	c := m.c
	ss := m.symStr(s)
	if k, ok := sub.(string); ok {
		if k == "" {
			return c.True
		}
		r := c.False
		for i := 0; i+len(k) <= len(ss.b); i++ {
			r = c.Or(r, m.matchAt(ss, k, i))
		}
		return r
	}
	sb := m.symStr(sub)
	r := c.Eq(sb.n, c.BV(0, 64))
	for i := 0; i < len(ss.b); i++ {
		r = c.Or(r, m.matchAtSym(ss, sb, i))
	}
	return r
}

func (m *Machine) indexT(s, sub Value) *Term {
	c := m.c
	ss := m.symStr(s)
	r := c.BV(^uint64(0), 64)
	if k, ok := sub.(string); ok {
		for i := len(ss.b) - len(k); i >= 0; i-- {
			r = c.Ite(m.matchAt(ss, k, i), c.BV(uint64(i), 64), r)
		}
		return r
	}
	sb := m.symStr(sub)
	for i := len(ss.b); i >= 0; i-- {
		r = c.Ite(m.matchAtSym(ss, sb, i), c.BV(uint64(i), 64), r)
	}
	return r
}

func (m *Machine) hasPrefixT(s, p Value) *Term {
	if a, ok := p.(string); ok {
		return m.matchAt(m.symStr(s), a, 0)
	}
	return m.matchAtSym(m.symStr(s), m.symStr(p), 0)
}

func (m *Machine) hasSuffixT(s, p Value) *Term {
	c := m.c
	ss := m.symStr(s)
	if k, ok := p.(string); ok {
		r := c.False
		for n := len(k); n <= len(ss.b); n++ {
			e := c.Eq(ss.n, c.BV(uint64(n), 64))
			if e == c.False {
				continue
			}
			r = c.Or(r, c.And(e, m.matchAt(ss, k, n-len(k))))
		}
		return r
	}
	sp := m.fixLen(m.symStr(p))
	r := c.False
	for n := len(sp.b); n <= len(ss.b); n++ {
		e := c.Eq(ss.n, c.BV(uint64(n), 64))
		if e == c.False {
			continue
		}
		for k := range sp.b {
			e = c.And(e, c.Eq(ss.b[n-len(sp.b)+k], sp.b[k]))
		}
		r = c.Or(r, e)
	}
	return r
}

func bothConc(a []Value, idx ...int) bool {
	for _, i := range idx {
		if _, ok := a[i].(string); !ok {
			return false
		}
	}
	return true
}

func (m *Machine) asciiOnly(s *SStr) bool {
	c := m.c
	r := c.True
	for i, b := range s.b {
		if b.IsConst() {
			if b.val >= 0x80 {
				return false
			}
			continue
		}
		r = c.And(r, c.Or(c.Bin(OpUlt, b, c.BV(0x80, 8)), c.Bin(OpUle, s.n, c.BV(uint64(i), 64))))
	}
	return m.branch(r)
}

func (m *Machine) mapCase(v Value, lo, hi byte, delta int) *SStr {
	s := m.symStr(v)
	c := m.c
	n := &SStr{b: make([]*Term, len(s.b)), n: s.n}
	for i, b := range s.b {
		in := c.And(c.Bin(OpUle, c.BV(uint64(lo), 8), b), c.Bin(OpUle, b, c.BV(uint64(hi), 8)))
		n.b[i] = c.Ite(in, c.Bin(OpAdd, b, c.BV(uint64(delta), 8)), b)
	}
	return n
}

func regStrings() {
	S := "strings."
	hostOr := func(host func(a []Value) Value, sym intrinsic, idx ...int) intrinsic {
		return func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			if bothConc(a, idx...) {
				return host(a)
			}
			for _, i := range idx {
				if s, ok := a[i].(*SStr); ok && s.opaque {
					m.unsupported("opaque string in " + fn.String())
				}
			}
			if sym == nil {
				return m.callSSABody(fr, fn, a)
			}
			return sym(m, fr, fn, a)
		}
	}
	tb := func(m *Machine, b bool) Value { return m.c.Bool(b) }
	_ = tb
	reg(S+"Contains", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if bothConc(a, 0, 1) {
			return m.c.Bool(strings.Contains(a[0].(string), a[1].(string)))
		}
		return m.containsT(a[0], a[1])
	})
	reg(S+"HasPrefix", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if bothConc(a, 0, 1) {
			return m.c.Bool(strings.HasPrefix(a[0].(string), a[1].(string)))
		}
		return m.hasPrefixT(a[0], a[1])
	})
	reg(S+"HasSuffix", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if bothConc(a, 0, 1) {
			return m.c.Bool(strings.HasSuffix(a[0].(string), a[1].(string)))
		}
		return m.hasSuffixT(a[0], a[1])
	})
	idx := func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if bothConc(a, 0, 1) {
			return m.c.BV(uint64(int64(strings.Index(a[0].(string), a[1].(string)))), 64)
		}
		return m.indexT(a[0], a[1])
	}
	reg(S+"Index", idx)
	reg("internal/stringslite.Index", idx)
	reg("internal/stringslite.HasPrefix", intrinsics[S+"HasPrefix"])
	reg("internal/stringslite.HasSuffix", intrinsics[S+"HasSuffix"])
	idxByte := func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		bt := a[1].(*Term)
		if s, ok := a[0].(string); ok && bt.IsConst() {
			return m.c.BV(uint64(int64(strings.IndexByte(s, byte(bt.val)))), 64)
		}
		ss := m.symStr(a[0])
		c := m.c
		r := c.BV(^uint64(0), 64)
		for i := len(ss.b) - 1; i >= 0; i-- {
			r = c.Ite(c.And(c.Bin(OpUlt, c.BV(uint64(i), 64), ss.n), c.Eq(ss.b[i], bt)), c.BV(uint64(i), 64), r)
		}
		return r
	}
	reg(S+"IndexByte", idxByte)
	reg("internal/stringslite.IndexByte", idxByte)
	reg("internal/bytealg.IndexByteString", idxByte)
	reg("internal/bytealg.IndexByte", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return idxByte(m, fr, fn, []Value{m.bytesToString(m.sl(a[0])), a[1]})
	})
	reg("bytes.IndexByte", intrinsics["internal/bytealg.IndexByte"])
	reg(S+"LastIndexByte", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		bt := a[1].(*Term)
		if s, ok := a[0].(string); ok && bt.IsConst() {
			return m.c.BV(uint64(int64(strings.LastIndexByte(s, byte(bt.val)))), 64)
		}
		ss := m.symStr(a[0])
		c := m.c
		r := c.BV(^uint64(0), 64)
		for i := 0; i < len(ss.b); i++ {
			r = c.Ite(c.And(c.Bin(OpUlt, c.BV(uint64(i), 64), ss.n), c.Eq(ss.b[i], bt)), c.BV(uint64(i), 64), r)
		}
		return r
	})
	reg(S+"LastIndex", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if bothConc(a, 0, 1) {
			return m.c.BV(uint64(int64(strings.LastIndex(a[0].(string), a[1].(string)))), 64)
		}
		ss, sb := m.symStr(a[0]), m.symStr(a[1])
		c := m.c
		r := c.BV(^uint64(0), 64)
		for i := 0; i <= len(ss.b); i++ {
			r = c.Ite(m.matchAtSym(ss, sb, i), c.BV(uint64(i), 64), r)
		}
		return r
	})
	reg(S+"Count", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if bothConc(a, 0, 1) {
			return m.c.BV(uint64(strings.Count(a[0].(string), a[1].(string))), 64)
		}
		sub, ok := a[1].(string)
		if !ok || len(sub) != 1 {
			return m.callSSABody(fr, fn, a)
		}
		ss := m.symStr(a[0])
		c := m.c
		r := c.BV(0, 64)
		for i := range ss.b {
			r = c.Bin(OpAdd, r, c.Ite(m.matchAt(ss, sub, i), c.BV(1, 64), c.BV(0, 64)))
		}
		return r
	})
	reg("internal/bytealg.CountString", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		bt := a[1].(*Term)
		ss := m.symStr(a[0])
		c := m.c
		r := c.BV(0, 64)
		for i := range ss.b {
			r = c.Bin(OpAdd, r, c.Ite(c.And(c.Bin(OpUlt, c.BV(uint64(i), 64), ss.n), c.Eq(ss.b[i], bt)), c.BV(1, 64), c.BV(0, 64)))
		}
		return r
	})
	reg(S+"ContainsAny", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if bothConc(a, 0, 1) {
			return m.c.Bool(strings.ContainsAny(a[0].(string), a[1].(string)))
		}
		set, ok := a[1].(string)
		if !ok {
			return m.callSSABody(fr, fn, a)
		}
		for _, r := range set {
			if r >= 0x80 {
				return m.callSSABody(fr, fn, a)
			}
		}
		ss := m.symStr(a[0])
		c := m.c
		r := c.False
		for i, b := range ss.b {
			r = c.Or(r, c.And(c.Bin(OpUlt, c.BV(uint64(i), 64), ss.n), inSet(c, b, set)))
		}
		return r
	})
	reg(S+"ContainsRune", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		rt := a[1].(*Term)
		if rt.IsConst() {
			if s, ok := a[0].(string); ok {
				return m.c.Bool(strings.ContainsRune(s, rune(rt.val)))
			}
			if rt.val < 0x80 {
				return m.containsT(a[0], string(rune(rt.val)))
			}
		} else if s, ok := a[0].(string); ok {
			c := m.c
			r := c.False
			for _, x := range s {
				r = c.Or(r, c.Eq(rt, c.BV(uint64(x), 32)))
			}
			return r
		}
		return m.callSSABody(fr, fn, a)
	})
	reg(S+"EqualFold", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if bothConc(a, 0, 1) {
			return m.c.Bool(strings.EqualFold(a[0].(string), a[1].(string)))
		}
		x, y := m.symStr(a[0]), m.symStr(a[1])
		if m.asciiOnly(x) && m.asciiOnly(y) {
			return m.strEq(m.mapCase(x, 'A', 'Z', 32), m.mapCase(y, 'A', 'Z', 32))
		}
		return m.callSSABody(fr, fn, a)
	})
	reg(S+"ToLower", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if bothConc(a, 0) {
			return strings.ToLower(a[0].(string))
		}
		s := m.symStr(a[0])
		if m.asciiOnly(s) {
			return m.mkstr(m.mapCase(s, 'A', 'Z', 32))
		}
		return m.callSSABody(fr, fn, a)
	})
	reg(S+"ToUpper", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if bothConc(a, 0) {
			return strings.ToUpper(a[0].(string))
		}
		s := m.symStr(a[0])
		if m.asciiOnly(s) {
			return m.mkstr(m.mapCase(s, 'a', 'z', -32))
		}
		return m.callSSABody(fr, fn, a)
	})
	reg(S+"Split", hostOr2(func(m *Machine, a []Value) Value { return m.strSlice(strings.Split(a[0].(string), a[1].(string))) }, 0, 1))
	reg(S+"Fields", hostOr2(func(m *Machine, a []Value) Value { return m.strSlice(strings.Fields(a[0].(string))) }, 0))
	reg(S+"TrimSpace", hostOr(func(a []Value) Value { return strings.TrimSpace(a[0].(string)) }, nil, 0))
	reg(S+"ReplaceAll", hostOr(func(a []Value) Value {
		return strings.ReplaceAll(a[0].(string), a[1].(string), a[2].(string))
	}, nil, 0, 1, 2))
	reg(S+"Trim", hostOr(func(a []Value) Value { return strings.Trim(a[0].(string), a[1].(string)) }, nil, 0, 1))
	reg(S+"TrimLeft", hostOr(func(a []Value) Value { return strings.TrimLeft(a[0].(string), a[1].(string)) }, nil, 0, 1))
	reg(S+"TrimRight", hostOr(func(a []Value) Value { return strings.TrimRight(a[0].(string), a[1].(string)) }, nil, 0, 1))
	reg(S+"Title", hostOr(func(a []Value) Value { return strings.Title(a[0].(string)) }, nil, 0))
	reg(S+"Join", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		var r Value = ""
		for i, e := range m.sl(a[0]) {
			if i > 0 {
				r = m.strConcat(r, a[1])
			}
			r = m.strConcat(r, e)
		}
		return r
	})
	reg(S+"Compare", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		c := m.c
		return c.Ite(m.strLess(a[0], a[1]), c.BV(^uint64(0), 64), c.Ite(m.strEq(a[0], a[1]), c.BV(0, 64), c.BV(1, 64)))
	})
	reg("internal/bytealg.CompareString", intrinsics[S+"Compare"])
	reg("internal/bytealg.Compare", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return intrinsics[S+"Compare"](m, fr, fn, []Value{m.bytesToString(m.sl(a[0])), m.bytesToString(m.sl(a[1]))})
	})
	reg("bytes.Compare", intrinsics["internal/bytealg.Compare"])
	reg("internal/bytealg.Equal", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.bytesEqual(m.sl(a[0]), m.sl(a[1]))
	})
	reg("bytes.Equal", intrinsics["internal/bytealg.Equal"])
	reg("cmp.Compare[string]", intrinsics[S+"Compare"])
	reg("cmp.Less[string]", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return m.strLess(a[0], a[1]) })
	reg("internal/bytealg.MakeNoZero", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		n := m.concInt(a[0], "MakeNoZero")
		s := make([]Value, n)
		for i := range s {
			s[i] = m.c.BV(0, 8)
		}
		return s
	})
	reg(S+"Repeat", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		n := m.concInt(a[1], "Repeat")
		if n < 0 {
			m.targetPanicStr("strings: negative Repeat count")
		}
		var r Value = ""
		for i := 0; i < n; i++ {
			r = m.strConcat(r, a[0])
		}
		return r
	})
	reg(S+"Clone", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })

	// strings.Builder accumulates in a side table
	type sb struct{ v Value }
	bld := func(m *Machine, v Value) *Value {
		p := m.ptr(v)
		k := p
		if _, ok := m.side[k].(*Value); !ok {
			m.side[k] = newCell("")
		}
		return m.side[k].(*Value)
	}
	_ = sb{}
	B := "(*strings.Builder)."
	reg(B+"WriteString", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		p := bld(m, a[0])
		*p = m.strConcat(*p, a[1])
		n := m.c.BV(0, 64)
		if s, ok := a[1].(*SStr); !ok || !s.opaque {
			n = m.strLen(a[1])
		}
		return tuple{n, iface{}}
	})
	reg(B+"WriteByte", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		p := bld(m, a[0])
		*p = m.strConcat(*p, m.mkstr(&SStr{b: []*Term{a[1].(*Term)}, n: m.c.BV(1, 64)}))
		return iface{}
	})
	reg(B+"WriteRune", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		p := bld(m, a[0])
		*p = m.strConcat(*p, m.runeToString(a[1].(*Term)))
		return tuple{m.c.BV(1, 64), iface{}}
	})
	reg(B+"Write", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		p := bld(m, a[0])
		s := m.sl(a[1])
		*p = m.strConcat(*p, m.bytesToString(s))
		return tuple{m.c.BV(uint64(len(s)), 64), iface{}}
	})
	reg(B+"String", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return *bld(m, a[0]) })
	reg(B+"Len", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return m.strLen(*bld(m, a[0])) })
	reg(B+"Grow", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		bld(m, a[0])
		return nil
	})
	reg(B+"Cap", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		// some capacity: none before the first use and enough for what is in it after
		if _, ok := m.side[m.ptr(a[0])].(*Value); !ok {
			return m.c.BV(0, 64)
		}
		return m.c.Bin(OpAdd, m.strLen(*bld(m, a[0])), m.c.BV(16, 64))
	})
	reg("maps.clone", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		it := a[0].(iface)
		mp, ok := it.v.(*MapV)
		if !ok || mp == nil {
			return it
		}
		n := newMap()
		for _, e := range mp.entries {
			if e.live {
				m.mapSet(n, e.k, copyVal(e.v))
			}
		}
		return iface{t: it.t, v: n}
	})
	reg("slices.overlaps", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := m.sl(a[0]), m.sl(a[1])
		for i := range x {
			for j := range y {
				if &x[i] == &y[j] {
					return m.c.Bool(true)
				}
			}
		}
		return m.c.Bool(false)
	})
	reg("slices.startIdx", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := m.sl(a[0]), m.sl(a[1])
		for i := range x {
			if len(y) > 0 && &x[i] == &y[0] {
				return m.c.BV(uint64(i), 64)
			}
		}
		m.unsupported("slices.startIdx")
		return nil
	})
	reg("(*errors.joinError).Error", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		var r Value = ""
		for i, e := range m.sl((*m.ptr(a[0])).(structV)[0]) {
			if i > 0 {
				r = m.strConcat(r, "\n")
			}
			s, _ := m.callMethod(fr, e.(iface), "Error")
			r = m.strConcat(r, s)
		}
		return r
	})
	reg(B+"Reset", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		*bld(m, a[0]) = ""
		return nil
	})

	// utf8
	reg("unicode/utf8.RuneCountInString", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		it := &strIter{s: a[0]}
		n := 0
		for {
			ok, _, _ := m.strNext(it)
			if !ok {
				return m.c.BV(uint64(n), 64)
			}
			n++
		}
	})
	dec := func(m *Machine, v Value) Value {
		if s, ok := v.(string); ok {
			if s == "" {
				return tuple{m.c.BV(0xFFFD, 32), m.c.BV(0, 64)}
			}
		}
		ss := m.symStr(v)
		if len(ss.b) == 0 || m.branch(m.c.Eq(ss.n, m.c.BV(0, 64))) {
			return tuple{m.c.BV(0xFFFD, 32), m.c.BV(0, 64)}
		}
		r, n := m.decodeRune(ss, 0)
		return tuple{r, m.c.BV(uint64(n), 64)}
	}
	reg("unicode/utf8.DecodeRuneInString", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return dec(m, a[0]) })
	reg("unicode/utf8.DecodeRune", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return dec(m, m.bytesToString(m.sl(a[0])))
	})
	uni := func(set string, name string) {
		reg("unicode."+name, func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			r := a[0].(*Term)
			if r.IsConst() || !m.branch(m.c.Bin(OpUlt, r, m.c.BV(0x80, 32))) {
				return m.callSSABody(fr, fn, a)
			}
			return inSet(m.c, m.c.Extract(r, 7, 0), set)
		})
	}
	uni("\t\n\v\f\r ", "IsSpace")
	uni("0123456789", "IsDigit")
	uni("0123456789", "IsNumber")
	uni("ABCDEFGHIJKLMNOPQRSTUVWXYZ", "IsUpper")
	uni("abcdefghijklmnopqrstuvwxyz", "IsLower")
	uni("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz", "IsLetter")

	regRegexp()
}

func hostOr2(host func(m *Machine, a []Value) Value, idx ...int) intrinsic {
	return func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if bothConc(a, idx...) {
			return host(m, a)
		}
		for _, i := range idx {
			if s, ok := a[i].(*SStr); ok && s.opaque {
				m.unsupported("opaque string in " + fn.String())
			}
		}
		return m.callSSABody(fr, fn, a)
	}
}

func (m *Machine) bytesEqual(x, y []Value) *Term {
	if len(x) == 1 && len(y) == 1 {
		a, ok1 := x[0].(native)
		b, ok2 := y[0].(native)
		if ok1 && ok2 && a == b {
			return m.c.True
		}
		if ok1 && ok2 && a.kind == b.kind {
			if ja, ok := a.v.(*jnode); ok {
				if r := m.jnodeEq(ja, b.v.(*jnode)); r != nil {
					return r
				}
			}
		}
		if ok1 || ok2 {
			m.unsupported("comparison of opaque bytes")
		}
	}
	if len(x) != len(y) {
		return m.c.False
	}
	r := m.c.True
	for i := range x {
		r = m.c.And(r, m.equal(x[i], y[i]))
	}
	return r
}

// regular expressions

type reObj struct {
	re   *regexp.Regexp
	src  string
	prog *syntax.Prog
}

func (m *Machine) reOf(v Value) *reObj {
	p := m.ptr(v)
	n, ok := (*p).(native)
	if !ok || n.kind != "regexp" {
		m.badValue(*p, "regexp")
	}
	return n.v.(*reObj)
}

func (m *Machine) compileRe(src string) (Value, error) {
	re, err := regexp.Compile(src)
	if err != nil {
		return nil, err
	}
	o := &reObj{re: re, src: src}
	if p, err := syntax.Parse(src, syntax.Perl); err == nil {
		if pr, err := syntax.Compile(p.Simplify()); err == nil {
			o.prog = pr
		}
	}
	return newCell(native{"regexp", o}), nil
}

// reMatch simulates the NFA symbolically over an ASCII subject, unanchored search
func (m *Machine) reMatch(o *reObj, s *SStr) *Term {
	c := m.c
	if o.prog == nil {
		m.unsupported("regexp program")
	}
	if !m.asciiOnly(s) {
		m.unsupported("regexp over non ASCII symbolic string")
	}
	prog := o.prog
	N := len(prog.Inst)
	matched := c.False
	state := make([]*Term, N)
	isWord := func(i int) *Term {
		if i < 0 || i >= len(s.b) {
			return c.False
		}
		return c.And(c.Bin(OpUlt, c.BV(uint64(i), 64), s.n), inSet(c, s.b[i], "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_"))
	}
	emptyCond := func(op syntax.EmptyOp, pos int) *Term {
		r := c.True
		atEnd := c.Eq(s.n, c.BV(uint64(pos), 64))
		if op&syntax.EmptyBeginText != 0 {
			r = c.And(r, c.Bool(pos == 0))
		}
		if op&syntax.EmptyEndText != 0 {
			r = c.And(r, atEnd)
		}
		if op&syntax.EmptyBeginLine != 0 {
			if pos > 0 {
				r = c.And(r, c.Eq(s.b[pos-1], c.BV('\n', 8)))
			}
		}
		if op&syntax.EmptyEndLine != 0 {
			nl := c.False
			if pos < len(s.b) {
				nl = c.Eq(s.b[pos], c.BV('\n', 8))
			}
			r = c.And(r, c.Or(atEnd, nl))
		}
		wb := func() *Term { return c.Not(c.Eq(isWord(pos-1), isWord(pos))) }
		if op&syntax.EmptyWordBoundary != 0 {
			r = c.And(r, wb())
		}
		if op&syntax.EmptyNoWordBoundary != 0 {
			r = c.And(r, c.Not(wb()))
		}
		return r
	}
	// closure computes the conditions under which each instruction is active at pos
	closure := func(init []*Term, pos int) []*Term {
		act := make([]*Term, N)
		for i := range act {
			act[i] = c.False
		}
		type pk struct {
			pc int
			t  *Term
		}
		seen := map[pk]bool{}
		var add func(pc int, cond *Term, depth int)
		add = func(pc int, cond *Term, depth int) {
			if cond == c.False || seen[pk{pc, cond}] {
				return
			}
			seen[pk{pc, cond}] = true
			n := c.Or(act[pc], cond)
			if n == act[pc] {
				return
			}
			act[pc] = n
			delta := cond
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				add(int(in.Out), delta, depth+1)
				add(int(in.Arg), delta, depth+1)
			case syntax.InstCapture, syntax.InstNop:
				add(int(in.Out), delta, depth+1)
			case syntax.InstEmptyWidth:
				add(int(in.Out), c.And(delta, emptyCond(syntax.EmptyOp(in.Arg), pos)), depth+1)
			}
		}
		for i, t := range init {
			if t != nil && t != c.False {
				add(i, t, 0)
			}
		}
		return act
	}
	for i := range state {
		state[i] = c.False
	}
	for pos := 0; pos <= len(s.b); pos++ {
		inRange := c.Bin(OpUle, c.BV(uint64(pos), 64), s.n)
		state[prog.Start] = c.Or(state[prog.Start], inRange) // unanchored
		act := closure(state, pos)
		next := make([]*Term, N)
		for i := range next {
			next[i] = c.False
		}
		for pc := range prog.Inst {
			if act[pc] == c.False {
				continue
			}
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstMatch:
				matched = c.Or(matched, c.And(act[pc], inRange))
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				if pos >= len(s.b) {
					continue
				}
				var set []byte
				for b := 0; b < 0x80; b++ {
					if in.MatchRune(rune(b)) {
						set = append(set, byte(b))
					}
				}
				ok := c.And(c.Bin(OpUlt, c.BV(uint64(pos), 64), s.n), inSet(c, s.b[pos], string(set)))
				next[in.Out] = c.Or(next[in.Out], c.And(act[pc], ok))
			}
		}
		state = next
	}
	return matched
}

func regRegexp() {
	reg("regexp.MustCompile", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		v, err := m.compileRe(m.concString(a[0]))
		if err != nil {
			m.targetPanicStr(err.Error())
		}
		return v
	})
	reg("regexp.Compile", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		v, err := m.compileRe(m.concString(a[0]))
		if err != nil {
			return tuple{(*Value)(nil), m.mkError(err.Error())}
		}
		return tuple{v, iface{}}
	})
	reg("regexp.QuoteMeta", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return regexp.QuoteMeta(m.concString(a[0]))
	})
	matchV := func(m *Machine, o *reObj, v Value) Value {
		if s, ok := v.(string); ok {
			return m.c.Bool(o.re.MatchString(s))
		}
		return m.reMatch(o, m.symStr(v))
	}
	reg("(*regexp.Regexp).MatchString", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return matchV(m, m.reOf(a[0]), a[1])
	})
	reg("(*regexp.Regexp).Match", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return matchV(m, m.reOf(a[0]), m.bytesToString(m.sl(a[1])))
	})
	reg("regexp.MatchString", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		v, err := m.compileRe(m.concString(a[0]))
		if err != nil {
			return tuple{m.c.False, m.mkError(err.Error())}
		}
		return tuple{matchV(m, m.reOf(v), a[1]), iface{}}
	})
	reg("(*regexp.Regexp).String", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return m.reOf(a[0]).src })
	// submatches: symbolic subjects are resolved by backtracking with forks
	reg("(*regexp.Regexp).FindStringSubmatch", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		o := m.reOf(a[0])
		if s, ok := a[1].(string); ok {
			r := o.re.FindStringSubmatch(s)
			if r == nil {
				return []Value(nil)
			}
			return m.strSlice(r)
		}
		return m.reSubmatch(o, m.symStr(a[1]))
	})
	part := func(m *Machine, s *SStr, lo, hi int) Value {
		if lo < 0 || hi < 0 {
			return ""
		}
		return m.mkstr(&SStr{b: s.b[lo:hi], n: m.c.BV(uint64(hi-lo), 64)})
	}
	one := func(m *Machine, v, sv Value) ([]int, *SStr) {
		o := m.reOf(v)
		if s, ok := sv.(string); ok {
			return o.re.FindStringSubmatchIndex(s), m.symStr(sv)
		}
		s := m.symStr(sv)
		return m.reFind(o, s, 0), s
	}
	all := func(m *Machine, v, sv, nv Value) ([][]int, *SStr) {
		o := m.reOf(v)
		n := m.concInt(nv, "n")
		if s, ok := sv.(string); ok {
			return o.re.FindAllStringSubmatchIndex(s, n), m.symStr(sv)
		}
		s := m.symStr(sv)
		return m.reFindAll(o, s, n), s
	}
	reg("(*regexp.Regexp).FindString", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		r, s := one(m, a[0], a[1])
		if r == nil {
			return ""
		}
		return part(m, s, r[0], r[1])
	})
	reg("(*regexp.Regexp).FindStringIndex", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		r, _ := one(m, a[0], a[1])
		if r == nil {
			return []Value(nil)
		}
		return m.intSlice(r[:2])
	})
	reg("(*regexp.Regexp).FindStringSubmatchIndex", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		r, _ := one(m, a[0], a[1])
		return m.intSlice(r)
	})
	reg("(*regexp.Regexp).FindAllStringIndex", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		r, _ := all(m, a[0], a[1], a[2])
		if r == nil {
			return []Value(nil)
		}
		out := make([]Value, len(r))
		for i := range r {
			out[i] = m.intSlice(r[i][:2])
		}
		return out
	})
	reg("(*regexp.Regexp).FindAllString", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		r, s := all(m, a[0], a[1], a[2])
		if r == nil {
			return []Value(nil)
		}
		out := make([]Value, len(r))
		for i := range r {
			out[i] = part(m, s, r[i][0], r[i][1])
		}
		return out
	})
	reg("(*regexp.Regexp).FindAllStringSubmatch", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		r, s := all(m, a[0], a[1], a[2])
		if r == nil {
			return []Value(nil)
		}
		out := make([]Value, len(r))
		for i := range r {
			l := make([]Value, len(r[i])/2)
			for k := range l {
				l[k] = part(m, s, r[i][2*k], r[i][2*k+1])
			}
			out[i] = l
		}
		return out
	})
	reg("(*regexp.Regexp).ReplaceAllString", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.reOf(a[0]).re.ReplaceAllString(m.concString(a[1]), m.concString(a[2]))
	})
	reg("(*regexp.Regexp).NumSubexp", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.c.BV(uint64(m.reOf(a[0]).re.NumSubexp()), 64)
	})
	reg("(*regexp.Regexp).SubexpNames", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.strSlice(m.reOf(a[0]).re.SubexpNames())
	})
	reg("(*regexp.Regexp).Split", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		r := m.reOf(a[0]).re.Split(m.concString(a[1]), m.concInt(a[2], "n"))
		if r == nil {
			return []Value(nil)
		}
		return m.strSlice(r)
	})
}

func (m *Machine) reSubmatch(o *reObj, s *SStr) Value {
	if !m.branch(m.reMatch(o, s)) {
		return []Value(nil)
	}
	res := m.reFind(o, s, 0)
	if res == nil {
		return []Value(nil)
	}
	out := make([]Value, len(res)/2)
	for i := range out {
		lo, hi := res[2*i], res[2*i+1]
		if lo < 0 || hi < 0 {
			out[i] = ""
			continue
		}
		out[i] = m.mkstr(&SStr{b: s.b[lo:hi], n: m.c.BV(uint64(hi-lo), 64)})
	}
	return out
}

// reFindAll finds successive non overlapping matches like regexp does
func (m *Machine) reFindAll(o *reObj, s *SStr, n int) [][]int {
	var out [][]int
	pos, prevEnd := 0, -1
	for n < 0 || len(out) < n {
		if pos > len(s.b) || pos > 0 && !m.branch(m.c.Bin(OpUle, m.c.BV(uint64(pos), 64), s.n)) {
			break
		}
		r := m.reFind(o, s, pos)
		if r == nil {
			break
		}
		accept := true
		if r[1] == pos {
			if r[0] == prevEnd {
				accept = false
			}
			pos++
		} else {
			pos = r[1]
		}
		prevEnd = r[1]
		if accept {
			out = append(out, r)
		}
	}
	return out
}

func (m *Machine) intSlice(l []int) Value {
	if l == nil {
		return []Value(nil)
	}
	out := make([]Value, len(l))
	for i := range l {
		out[i] = m.c.BV(uint64(int64(l[i])), 64)
	}
	return out
}

// reFind runs the backtracking matcher from a position, forking on symbolic
// bytes, with leftmost first semantics
func (m *Machine) reFind(o *reObj, s *SStr, from int) []int {
	c := m.c
	prog := o.prog
	ncap := prog.NumCap
	type key struct{ pc, pos int }
	for start := from; start <= len(s.b); start++ {
		if start > 0 && !m.branch(c.Bin(OpUle, c.BV(uint64(start), 64), s.n)) {
			break
		}
		visited := map[key]bool{}
		caps := make([]int, ncap)
		for i := range caps {
			caps[i] = -1
		}
		var res []int
		var bt func(pc, pos int) bool
		bt = func(pc, pos int) bool {
			k := key{pc, pos}
			if visited[k] {
				return false
			}
			visited[k] = true
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstMatch:
				res = append([]int{}, caps...)
				res[1] = pos
				return true
			case syntax.InstFail:
				return false
			case syntax.InstAlt, syntax.InstAltMatch:
				return bt(int(in.Out), pos) || bt(int(in.Arg), pos)
			case syntax.InstNop:
				return bt(int(in.Out), pos)
			case syntax.InstCapture:
				if int(in.Arg) < ncap {
					old := caps[in.Arg]
					caps[in.Arg] = pos
					if bt(int(in.Out), pos) {
						return true
					}
					caps[in.Arg] = old
					return false
				}
				return bt(int(in.Out), pos)
			case syntax.InstEmptyWidth:
				op := syntax.EmptyOp(in.Arg)
				cond := c.True
				if op&syntax.EmptyBeginText != 0 {
					cond = c.And(cond, c.Bool(pos == 0))
				}
				if op&syntax.EmptyEndText != 0 {
					cond = c.And(cond, c.Eq(s.n, c.BV(uint64(pos), 64)))
				}
				if op&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
					m.unsupported("regexp empty width op in submatch")
				}
				if !m.branch(cond) {
					return false
				}
				return bt(int(in.Out), pos)
			default:
				if pos >= len(s.b) {
					return false
				}
				var set []byte
				for b := 0; b < 0x80; b++ {
					if in.MatchRune(rune(b)) {
						set = append(set, byte(b))
					}
				}
				cond := c.And(c.Bin(OpUlt, c.BV(uint64(pos), 64), s.n), inSet(c, s.b[pos], string(set)))
				if !m.branch(cond) {
					return false
				}
				return bt(int(in.Out), pos+1)
			}
		}
		if bt(prog.Start, start) {
			res[0] = start
			return res
		}
	}
	return nil
}
