package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"go/types"
	"math"
	"math/bits"
	"os"
	"path/filepath"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) concBytes(v Value) ([]byte, bool) {
	s := m.sl(v)
	out := make([]byte, len(s))
	for i, e := range s {
		t, ok := e.(*Term)
		if !ok || !t.IsConst() {
			return nil, false
		}
		out[i] = byte(t.val)
	}
	return out, true
}

func (m *Machine) hostBytes(b []byte) []Value {
	r := make([]Value, len(b))
	for i := range b {
		r[i] = m.c.BV(uint64(b[i]), 8)
	}
	return r
}

func (m *Machine) byteArray(b []byte) Value { return arrayV(m.hostBytes(b)) }

func (m *Machine) errorsIs(fr *frame, err, target Value, depth int) bool {
	e, ok := err.(iface)
	if !ok || e.t == nil {
		t, _ := target.(iface)
		return t.t == nil && e.t == nil
	}
	if depth > 20 {
		m.unsupported("error chain too deep")
	}
	t, _ := target.(iface)
	if t.t != nil && types.Comparable(t.t) && types.Identical(t.t, e.t) {
		if m.branch(m.equal(e, t)) {
			return true
		}
	}
	if m.hasMethod(e.t, "Is") {
		r, _ := m.callMethod(fr, e, "Is", target)
		if b, ok := r.(*Term); ok && m.branch(b) {
			return true
		}
	}
	if m.hasMethod(e.t, "Unwrap") {
		r, _ := m.callMethod(fr, e, "Unwrap")
		switch u := r.(type) {
		case iface:
			if u.t == nil {
				return false
			}
			return m.errorsIs(fr, u, target, depth+1)
		case []Value:
			for _, x := range u {
				if m.errorsIs(fr, x, target, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

func (m *Machine) errorsAs(fr *frame, err iface, pt types.Type, p *Value, depth int) bool {
	if err.t == nil || depth > 20 {
		return false
	}
	if it, ok := pt.Underlying().(*types.Interface); ok {
		if types.Implements(err.t, it) {
			m.store(p, err)
			return true
		}
	} else if types.Identical(err.t, pt) {
		m.store(p, err.v)
		return true
	}
	if m.hasMethod(err.t, "Unwrap") {
		r, _ := m.callMethod(fr, err, "Unwrap")
		switch u := r.(type) {
		case iface:
			return m.errorsAs(fr, u, pt, p, depth+1)
		case []Value:
			for _, x := range u {
				if e, ok := x.(iface); ok && m.errorsAs(fr, e, pt, p, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

func regMisc() {
	// the JSON schema validator is outside of reach, it accepts every document unless a harness replaces it
	reg("github.com/choria-io/go-choria/internal/util.ValidateSchemaFromFS", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return tuple{[]Value(nil), iface{}}
	})
	reg("errors.Is", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.c.Bool(m.errorsIs(fr, a[0], a[1], 0))
	})
	reg("errors.As", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		e, _ := a[0].(iface)
		t, _ := a[1].(iface)
		if t.t == nil {
			m.targetPanicStr("errors: target cannot be nil")
		}
		return m.c.Bool(m.errorsAs(fr, e, t.t.Underlying().(*types.Pointer).Elem(), m.ptr(t.v), 0))
	})

	// sorting with the real comparison function, any stable order is a legal result
	sortSlice := func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		it, _ := a[0].(iface)
		s := m.sl(it.v)
		// insertion sort on positions, calling less(i, j)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !m.branch(m.call(fr, a[1], []Value{m.c.BV(uint64(j), 64), m.c.BV(uint64(j-1), 64)}).(*Term)) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				m.store(&s[j], y)
				m.store(&s[j-1], x)
			}
		}
		return nil
	}
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)
	strSort := func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		s := m.sl(a[0])
		all := true
		for _, e := range s {
			if _, ok := e.(string); !ok {
				all = false
			}
		}
		if all {
			h := make([]string, len(s))
			for i := range s {
				h[i] = s[i].(string)
			}
			sort.Strings(h)
			for i := range s {
				m.set(&s[i], h[i])
			}
			return nil
		}
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !m.branch(m.strLess(s[j], s[j-1])) {
					break
				}
				x, y := s[j], s[j-1]
				m.set(&s[j], y)
				m.set(&s[j-1], x)
			}
		}
		return nil
	}
	reg("sort.Strings", strSort)
	reg("slices.Sort[[]string string]", strSort)
	reg("slices.Sort[[]string,string]", strSort)

	reg("strconv.Itoa", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if t.IsConst() {
			return strconv.Itoa(int(int64(t.val)))
		}
		if r := m.smallDecimal(t, types.Typ[types.Int]); r != nil {
			return r
		}
		return m.callSSABody(fr, fn, a)
	})
	numErr := func(m *Machine, err error) Value {
		if err == nil {
			return iface{}
		}
		ne, ok := err.(*strconv.NumError)
		if !ok {
			return m.mkError(err.Error())
		}
		t := m.typeOf("strconv", "NumError")
		var inner Value
		p := m.prog.ImportedPackage("strconv")
		gname := "ErrSyntax"
		if ne.Err == strconv.ErrRange {
			gname = "ErrRange"
		}
		if g, ok := p.Members[gname].(*ssa.Global); ok {
			inner = m.load(m.global(g))
		} else {
			inner = m.mkError(ne.Err.Error())
		}
		return iface{t: types.NewPointer(t), v: newCell(structV{ne.Func, ne.Num, inner})}
	}
	reg("strconv.Atoi", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			i, err := strconv.Atoi(s)
			return tuple{m.c.BV(uint64(int64(i)), 64), numErr(m, err)}
		}
		return m.callSSABody(fr, fn, a)
	})
	reg("strconv.ParseInt", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			i, err := strconv.ParseInt(s, m.concInt(a[1], "base"), m.concInt(a[2], "bits"))
			return tuple{m.c.BV(uint64(i), 64), numErr(m, err)}
		}
		return m.callSSABody(fr, fn, a)
	})
	reg("strconv.ParseUint", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			i, err := strconv.ParseUint(s, m.concInt(a[1], "base"), m.concInt(a[2], "bits"))
			return tuple{m.c.BV(i, 64), numErr(m, err)}
		}
		return m.callSSABody(fr, fn, a)
	})
	reg("strconv.ParseFloat", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		s := m.concString(a[0])
		f, err := strconv.ParseFloat(s, m.concInt(a[1], "bits"))
		return tuple{m.c.F(f), numErr(m, err)}
	})
	reg("strconv.ParseBool", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			b, err := strconv.ParseBool(s)
			return tuple{m.c.Bool(b), numErr(m, err)}
		}
		return m.callSSABody(fr, fn, a)
	})
	reg("strconv.Quote", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strconv.Quote(s)
		}
		return m.opaqueStr("quote")
	})
	reg("strconv.FormatFloat", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		f := a[0].(*Term)
		if !f.IsConst() {
			return m.opaqueStr("float")
		}
		return strconv.FormatFloat(math.Float64frombits(f.val), byte(a[1].(*Term).val), m.concInt(a[2], "prec"), m.concInt(a[3], "bits"))
	})
	reg("strconv.FormatInt", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		f := a[0].(*Term)
		if !f.IsConst() {
			return m.callSSABody(fr, fn, a)
		}
		return strconv.FormatInt(int64(f.val), m.concInt(a[1], "base"))
	})

	// math
	fcon := func(name string, f func(float64) float64) {
		g := func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			t := a[0].(*Term)
			if !t.IsConst() {
				m.unsupported("symbolic " + name)
			}
			return m.c.F(f(math.Float64frombits(t.val)))
		}
		reg("math."+name, g)
	}
	fcon("Floor", math.Floor)
	fcon("Ceil", math.Ceil)
	fcon("Trunc", math.Trunc)
	fcon("Round", math.Round)
	fcon("Sqrt", math.Sqrt)
	fcon("Log", math.Log)
	fcon("Log10", math.Log10)
	fcon("Exp", math.Exp)
	reg("math.Float64bits", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if t.IsConst() {
			return m.c.BV(t.val, 64)
		}
		if t.op == OpFromBits {
			return t.a
		}
		m.unsupported("Float64bits of symbolic float")
		return nil
	})
	reg("math.Float64frombits", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.c.Un(OpFromBits, a[0].(*Term), wFP)
	})
	reg("math.IsNaN", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		return m.c.Not(m.c.Bin(OpFEq, t, t))
	})
	reg("math.IsInf", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		s := m.concInt(a[1], "sign")
		c := m.c
		r := c.False
		if s >= 0 {
			r = c.Or(r, c.Bin(OpFEq, t, c.F(math.Inf(1))))
		}
		if s <= 0 {
			r = c.Or(r, c.Bin(OpFEq, t, c.F(math.Inf(-1))))
		}
		return r
	})
	reg("math.Abs", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		c := m.c
		if t.IsConst() {
			return c.F(math.Abs(math.Float64frombits(t.val)))
		}
		return c.Ite(c.Bin(OpFLt, t, c.F(0)), c.Un(OpFNeg, t, wFP), t)
	})
	fmm := func(name string, mx bool) {
		reg("math."+name, func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(*Term), a[1].(*Term)
			c := m.c
			if mx {
				return c.Ite(c.Bin(OpFLt, x, y), y, x)
			}
			return c.Ite(c.Bin(OpFLt, y, x), y, x)
		})
	}
	fmm("Max", true)
	fmm("Min", false)
	reg("math.Pow", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		if !x.IsConst() || !y.IsConst() {
			m.unsupported("symbolic Pow")
		}
		return m.c.F(math.Pow(math.Float64frombits(x.val), math.Float64frombits(y.val)))
	})
	reg("math/bits.Mul64", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		if x.IsConst() && y.IsConst() {
			h, l := bits.Mul64(x.val, y.val)
			return tuple{m.c.BV(h, 64), m.c.BV(l, 64)}
		}
		m.unsupported("symbolic Mul64")
		return nil
	})

	// randomness is arbitrary
	rndInt := func(w uint8, arg bool) intrinsic {
		return func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			v := m.newVar("rand", w)
			m.inputs = append(m.inputs, &Input{Name: "rand", Kind: "int", term: v, width: w, sign: true})
			if arg {
				n := a[len(a)-1].(*Term)
				if m.branch(m.c.Bin(OpSle, n, m.c.BV(0, n.w))) {
					m.targetPanicStr("invalid argument to rand")
				}
				m.assume(m.c.And(m.c.Bin(OpSle, m.c.BV(0, w), v), m.c.Bin(OpSlt, v, n)))
			} else {
				m.assume(m.c.Bin(OpSle, m.c.BV(0, w), v))
			}
			return v
		}
	}
	for _, p := range []string{"math/rand.", "math/rand/v2.", ndPath + ".Rand"} {
		if p == "math/rand/v2." {
			reg(p+"IntN", rndInt(64, true))
			reg(p+"Int64N", rndInt(64, true))
			continue
		}
		reg(p+"Intn", rndInt(64, true))
		reg(p+"Int63n", rndInt(64, true))
		reg(p+"Int31n", rndInt(32, true))
		reg(p+"Int", rndInt(64, false))
	}
	rndN := func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return rndInt(a[0].(*Term).w, true)(m, fr, fn, a)
	}
	reg(ndPath+".RandN", rndN)
	reg("math/rand/v2.N", rndN)
	reg("(*math/rand.Rand).Intn", rndInt(64, true))
	reg("(*math/rand.Rand).Int63n", rndInt(64, true))
	reg("math/rand.Seed", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return nil })
	reg("math/rand.Float64", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		m.unsupported("rand.Float64")
		return nil
	})
	reg("math/rand.NewSource", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return iface{} })
	reg("math/rand.New", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return newCell(native{"rand", nil}) })

	// the FIPS service indicator
	reg("crypto/internal/fips140.RecordApproved", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return nil })
	reg("crypto/internal/fips140.RecordNonApproved", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return nil })

	// hashes of concrete data
	reg("crypto/sha256.Sum256", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		b, ok := m.concBytes(a[0])
		if !ok {
			return m.ufHash("sha256", a[0], 32)
		}
		h := sha256.Sum256(b)
		return m.byteArray(h[:])
	})
	reg("crypto/md5.Sum", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		b, ok := m.concBytes(a[0])
		if !ok {
			return m.ufHash("md5", a[0], 16)
		}
		h := md5.Sum(b)
		return m.byteArray(h[:])
	})
	reg("crypto/sha1.Sum", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		b, ok := m.concBytes(a[0])
		if !ok {
			return m.ufHash("sha1", a[0], 20)
		}
		h := sha1.Sum(b)
		return m.byteArray(h[:])
	})

	// random bytes differ every time they are drawn; nothing else is known of them
	random := func(m *Machine, b []Value) Value {
		m.ids++
		for i := range b {
			v := uint64(m.ids>>(8*uint(i%4))&0xff) ^ uint64(0x5a+37*i)
			m.store(&b[i], m.c.BV(v&0xff, 8))
		}
		return tuple{m.c.BV(uint64(len(b)), 64), iface{}}
	}
	reg("crypto/rand.Read", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return random(m, m.sl(a[0])) })
	reg("(*crypto/rand.reader).Read", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return random(m, m.sl(a[1])) })

	reg("os.Getpid", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return m.c.BV(4242, 64) })
	envKey := func(m *Machine, v Value) string {
		k, ok := v.(string)
		if !ok {
			m.unsupported("environment variable with a symbolic name")
		}
		return k
	}
	reg("os.Getenv", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if v, ok := m.env[envKey(m, a[0])]; ok {
			return v
		}
		return ""
	})
	reg("os.LookupEnv", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if v, ok := m.env[envKey(m, a[0])]; ok {
			return tuple{v, m.c.True}
		}
		return tuple{"", m.c.False}
	})
	reg("os.Setenv", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		m.env[envKey(m, a[0])] = a[1]
		return iface{}
	})
	reg("os.Unsetenv", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		delete(m.env, envKey(m, a[0]))
		return iface{}
	})
	reg("os.Getuid", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return m.c.BV(0, 64) })
	reg("os.Geteuid", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return m.c.BV(0, 64) })
	reg("os.Hostname", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return tuple{"host.example.net", iface{}}
	})
	_ = os.Getpid
	reg("path/filepath.Join", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		var parts []string
		for _, e := range m.sl(a[0]) {
			s, ok := e.(string)
			if !ok {
				return m.callSSABody(fr, fn, a)
			}
			parts = append(parts, s)
		}
		return filepath.Join(parts...)
	})
	reg("runtime.Gosched", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint("gosched")
		return nil
	})
	reg("runtime.NumGoroutine", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return m.c.BV(1, 64) })
	reg("runtime.Caller", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return tuple{m.c.BV(0, 64), "", m.c.BV(0, 64), m.c.Bool(false)}
	})
	reg("runtime.KeepAlive", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return nil })
	reg("runtime.SetFinalizer", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return nil })
	reg("runtime/debug.Stack", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return []Value{} })
	reg("(*sync.copyChecker).check", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return nil })
	reg("context.WithValue", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		vt := m.typeOf("context", "valueCtx")
		return iface{t: types.NewPointer(vt), v: newCell(structV{a[0], a[1], a[2]})}
	})
	reg("internal/reflectlite.TypeOf", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return iface{} })
	reg("internal/race.Enabled", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return m.c.False })
	reg("runtime.Goexit", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { panic(goexit{}) })
	reg("runtime.fastrand", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return m.c.BV(4, 32) })
	reg("internal/abi.NoEscape", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("internal/abi.Escape", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("reflect.DeepEqual", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.deepEqual(a[0], a[1], 0)
	})
	regJSON()
	regReflect()
}

// ufHash models a hash of symbolic data as an uninterpreted function: equal
// inputs give equal outputs, different inputs give outputs that differ
func (m *Machine) ufHash(name string, data Value, n int) Value {
	s := m.sl(data)
	for _, e := range m.ufs[name] {
		if m.branch(m.bytesEqual(e.args[0].([]Value), s)) {
			return copyVal(e.res)
		}
	}
	idx := len(m.ufs[name])
	// a recognisable distinct digest per distinct input
	b := make([]byte, n)
	b[0] = 0xfe
	b[1] = byte(idx + 1)
	for i := 2; i < n; i++ {
		b[i] = byte(name[i%len(name)])
	}
	res := m.byteArray(b)
	m.ufs[name] = append(m.ufs[name], ufEnt{args: []Value{append([]Value{}, s...)}, res: res})
	return copyVal(res)
}

func (m *Machine) deepEqual(a, b Value, d int) *Term {
	c := m.c
	if d > 12 {
		m.unsupported("deep equal depth")
	}
	switch x := a.(type) {
	case iface:
		y, ok := b.(iface)
		if !ok {
			return c.False
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.False
		}
		return m.deepEqual(x.v, y.v, d+1)
	case []Value:
		y, ok := b.([]Value)
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return c.False
		}
		r := c.True
		for i := range x {
			r = c.And(r, m.deepEqual(x[i], y[i], d+1))
		}
		return r
	case structV:
		y, ok := b.(structV)
		if !ok {
			return c.False
		}
		r := c.True
		for i := range x {
			r = c.And(r, m.deepEqual(x[i], y[i], d+1))
		}
		return r
	case arrayV:
		y, ok := b.(arrayV)
		if !ok {
			return c.False
		}
		r := c.True
		for i := range x {
			r = c.And(r, m.deepEqual(x[i], y[i], d+1))
		}
		return r
	case *Value:
		y, ok := b.(*Value)
		if !ok {
			return c.False
		}
		if x == y {
			return c.True
		}
		if x == nil || y == nil {
			return c.False
		}
		return m.deepEqual(*x, *y, d+1)
	case *MapV:
		y, ok := b.(*MapV)
		if !ok || (x == nil) != (y == nil) {
			return c.False
		}
		if x == nil {
			return c.True
		}
		if x.n != y.n {
			return c.False
		}
		r := c.True
		for _, e := range x.entries {
			if !e.live {
				continue
			}
			o := m.mapFind(y, e.k)
			if o == nil {
				return c.False
			}
			r = c.And(r, m.deepEqual(e.v, o.v, d+1))
		}
		return r
	}
	return m.equal(a, b)
}
