package main

import (
	"fmt"
	"go/types"
	"math"
	"regexp"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *Machine, fr *frame, fn *ssa.Function, args []Value) Value

const ndPath = "github.com/choria-io/go-choria/internal/verifnd"

var intrinsics = map[string]intrinsic{}

// noopPkgs are packages whose calls have no effect the properties observe
var noopPkgs = []string{"github.com/sirupsen/logrus", "github.com/prometheus/", "go.opentelemetry.io/"}

func pkgPathOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func (m *Machine) findIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.String()
	if i, ok := intrinsics[name]; ok {
		return i
	}
	if o := fn.Origin(); o != nil {
		if i, ok := intrinsics[o.String()]; ok {
			return i
		}
	}
	pp := pkgPathOf(fn)
	for _, p := range noopPkgs {
		if pp == p || (strings.HasSuffix(p, "/") && strings.HasPrefix(pp, p)) {
			if fn.Synthetic != "" && fn.Name() == "init" {
				return func(m *Machine, fr *frame, fn *ssa.Function, args []Value) Value { return nil }
			}
			return noopCall
		}
	}
	return nil
}

func noopCall(m *Machine, fr *frame, fn *ssa.Function, args []Value) Value {
	return m.noopResults(fn.Signature)
}

func (m *Machine) noopResults(sig *types.Signature) Value {
	r := sig.Results()
	mk := func(t types.Type) Value {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return newCell(m.zero(p.Elem()))
		}
		return m.zero(t)
	}
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return mk(r.At(0).Type())
	}
	t := make(tuple, r.Len())
	for i := range t {
		t[i] = mk(r.At(i).Type())
	}
	return t
}

// noopInvoke handles calls on nil interfaces of no-op packages
func (m *Machine) noopInvoke(call *ssa.CallCommon) *nativeFn {
	if call.Method.Pkg() == nil {
		return nil
	}
	pp := call.Method.Pkg().Path()
	for _, p := range noopPkgs {
		if pp == p || (strings.HasSuffix(p, "/") && strings.HasPrefix(pp, p)) {
			sig := call.Signature()
			return &nativeFn{name: "noop", fn: func(m *Machine, args []Value) Value { return m.noopResults(sig) }}
		}
	}
	return nil
}

func (m *Machine) nativeMethod(n native, name string) *nativeFn {
	m.unsupported("native method " + n.kind + "." + name)
	return nil
}

func reg(name string, f intrinsic) {
	if _, ok := intrinsics[name]; ok {
		panic("duplicate intrinsic " + name)
	}
	intrinsics[name] = f
}

// helper types

func (m *Machine) typeOf(pkg, name string) types.Type {
	p := m.prog.ImportedPackage(pkg)
	if p == nil {
		m.unsupported("package not loaded: " + pkg)
	}
	t := p.Type(name)
	if t == nil {
		m.unsupported("type not found: " + pkg + "." + name)
	}
	return t.Type()
}

func (m *Machine) mkError(msg Value) Value {
	t := m.typeOf("errors", "errorString")
	return iface{t: types.NewPointer(t), v: newCell(structV{msg})}
}

func (m *Machine) nilErr() Value { return iface{} }

func (m *Machine) strSlice(ss []string) []Value {
	r := make([]Value, len(ss))
	for i, s := range ss {
		r[i] = s
	}
	return r
}

func (m *Machine) argT(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		m.badValue(v, "argument")
	}
	return t
}

func (m *Machine) sl(v Value) []Value {
	s, ok := v.([]Value)
	if !ok {
		m.badValue(v, "slice argument")
	}
	return s
}

// callMethod calls a method on an interface value by name
func (m *Machine) callMethod(fr *frame, it iface, name string, args ...Value) (Value, bool) {
	if it.t == nil {
		return nil, false
	}
	ms := m.prog.MethodSets.MethodSet(it.t)
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if sel.Obj().Name() == name {
			fn := m.prog.MethodValue(sel)
			return m.call(fr, fn, append([]Value{it.v}, args...)), true
		}
	}
	return nil, false
}

func (m *Machine) hasMethod(t types.Type, name string) bool {
	ms := m.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// showVal renders a value for diagnostics
func (m *Machine) showVal(v Value) string {
	switch x := v.(type) {
	case iface:
		if x.t == nil {
			return "nil"
		}
		if s, ok := x.v.(string); ok {
			return s
		}
		if m.hasMethod(x.t, "Error") {
			s := "error"
			func() {
				defer func() {
					if r := recover(); r != nil {
						s = "error?"
					}
				}()
				if r, ok := m.callMethod(nil, x, "Error"); ok {
					s = m.showVal(r)
				}
			}()
			return s
		}
		return m.showVal(x.v)
	case string:
		return x
	case *SStr:
		if x.opaque {
			return "<opaque>"
		}
		if m.ev != nil {
			return fmt.Sprintf("%q", m.evalStr(x, m.ev))
		}
		return "<sym>"
	case *Term:
		if x.IsConst() {
			return fmt.Sprint(sext(x.val, x.w))
		}
		return "<sym>"
	}
	return fmt.Sprintf("%T", v)
}

func (m *Machine) evalStr(v Value, ev *Evaluator) string {
	switch x := v.(type) {
	case string:
		return x
	case *SStr:
		if x.opaque {
			return "<opaque>"
		}
		n := int(ev.Eval(x.n))
		var b []byte
		for i := 0; i < n && i < len(x.b); i++ {
			b = append(b, byte(ev.Eval(x.b[i])))
		}
		return string(b)
	}
	return fmt.Sprintf("%T", v)
}

// obsString renders an observed value under a model the way the native side does
func (m *Machine) obsString(v Value, t types.Type, ev *Evaluator) string {
	switch x := v.(type) {
	case *Term:
		n := ev.Eval(x)
		if x.w == wBool {
			return strconv.FormatBool(n == 1)
		}
		if x.w == wFP {
			return strconv.FormatFloat(math.Float64frombits(n), 'g', -1, 64)
		}
		if t != nil {
			if _, s := numInfo(t); !s {
				return strconv.FormatUint(n, 10)
			}
		}
		return strconv.FormatInt(sext(n, x.w), 10)
	case string, *SStr:
		if s, ok := v.(*SStr); ok && s.opaque {
			return "*"
		}
		return m.evalStr(v, ev)
	case iface:
		if x.t == nil {
			return "nil"
		}
		if m.hasMethod(x.t, "Error") {
			return "error"
		}
		return m.obsString(x.v, x.t, ev)
	case []Value:
		var et types.Type
		if t != nil {
			if s, ok := t.Underlying().(*types.Slice); ok {
				et = s.Elem()
			}
		}
		var r []string
		for _, e := range x {
			r = append(r, m.obsString(e, et, ev))
		}
		return "[" + strings.Join(r, " ") + "]"
	case *Value:
		if x == nil {
			return "nil"
		}
		return "ptr"
	}
	return "*"
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func init() {
	nd := func(n string) string { return ndPath + "." + n }

	reg(nd("Bool"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		v := m.newVar(a[0].(string), wBool)
		m.inputs = append(m.inputs, &Input{Name: a[0].(string), Kind: "bool", term: v})
		return v
	})
	intRange := func(w uint8, signed bool) intrinsic {
		return func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			if len(a) > 2 && signed {
				lo, hi := a[1].(*Term), a[2].(*Term)
				if lo.IsConst() && hi.IsConst() && sext(lo.val, w) <= sext(hi.val, w) {
					v := m.newRanged(a[0].(string), w, sext(lo.val, w), sext(hi.val, w))
					m.inputs = append(m.inputs, &Input{Name: a[0].(string), Kind: "int", term: v, width: w, sign: signed})
					return v
				}
			}
			v := m.newVar(a[0].(string), w)
			m.inputs = append(m.inputs, &Input{Name: a[0].(string), Kind: "int", term: v, width: w, sign: signed})
			if len(a) > 2 {
				lo, hi := a[1].(*Term), a[2].(*Term)
				if signed {
					m.assume(m.c.And(m.c.Bin(OpSle, lo, v), m.c.Bin(OpSle, v, hi)))
				} else {
					m.assume(m.c.And(m.c.Bin(OpUle, lo, v), m.c.Bin(OpUle, v, hi)))
				}
			}
			return v
		}
	}
	reg(nd("Int"), intRange(64, true))
	reg(nd("Int64"), intRange(64, true))
	reg(nd("Uint64"), intRange(64, false))
	reg(nd("Int32"), intRange(32, true))
	reg(nd("Uint8"), intRange(8, false))
	reg(nd("Float"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		v := m.newVar(a[0].(string), 64)
		m.inputs = append(m.inputs, &Input{Name: a[0].(string), Kind: "float", term: v, width: 64})
		f := m.c.Un(OpFromBits, v, wFP)
		// not NaN, within bounds
		m.assume(m.c.And(m.c.Bin(OpFLe, a[1].(*Term), f), m.c.Bin(OpFLe, f, a[2].(*Term))))
		return f
	})
	mkStr := func(m *Machine, name string, max int, alpha string) Value {
		c := m.c
		s := &SStr{b: make([]*Term, max)}
		s.n = c.ZExt(m.newVar(name+".len", 8), 64)
		m.assume(c.Bin(OpUle, s.n, c.BV(uint64(max), 64)))
		al := c.True
		for i := range s.b {
			s.b[i] = m.newVar(fmt.Sprintf("%s.%d", name, i), 8)
			if alpha != "" {
				al = c.And(al, c.Or(inSet(c, s.b[i], alpha), c.Bin(OpUle, s.n, c.BV(uint64(i), 64))))
			}
		}
		m.assume(al)
		m.inputs = append(m.inputs, &Input{Name: name, Kind: "string", str: s})
		return s
	}
	reg(nd("String"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return mkStr(m, a[0].(string), int(a[1].(*Term).val), "")
	})
	reg(nd("StringOf"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return mkStr(m, a[0].(string), int(a[1].(*Term).val), a[2].(string))
	})
	// Pick is one of the options without forking the path
	reg(nd("Pick"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		opts := m.sl(a[1])
		c := m.c
		v := m.newVar(a[0].(string), 8)
		var hopts []string
		mx := 0
		for _, o := range opts {
			s, ok := o.(string)
			if !ok {
				m.unsupported("Pick with symbolic option")
			}
			hopts = append(hopts, s)
			if len(s) > mx {
				mx = len(s)
			}
		}
		m.inputs = append(m.inputs, &Input{Name: a[0].(string), Kind: "pick", term: v, opts: hopts})
		m.assume(c.Bin(OpUlt, v, c.BV(uint64(len(opts)), 8)))
		s := &SStr{b: make([]*Term, mx), n: c.BV(uint64(len(hopts[len(hopts)-1])), 64)}
		for i := range s.b {
			s.b[i] = c.BV(0, 8)
			if i < len(hopts[len(hopts)-1]) {
				s.b[i] = c.BV(uint64(hopts[len(hopts)-1][i]), 8)
			}
		}
		for k := len(hopts) - 2; k >= 0; k-- {
			is := c.Eq(v, c.BV(uint64(k), 8))
			s.n = c.Ite(is, c.BV(uint64(len(hopts[k])), 64), s.n)
			for i := range s.b {
				b := c.BV(0, 8)
				if i < len(hopts[k]) {
					b = c.BV(uint64(hopts[k][i]), 8)
				}
				s.b[i] = c.Ite(is, b, s.b[i])
			}
		}
		return m.mkstr(s)
	})
	reg(nd("OneOf"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		opts := m.sl(a[1])
		k := m.choose(len(opts), a[0].(string))
		m.inputs = append(m.inputs, &Input{Name: a[0].(string), Kind: "choice", conc: uint64(k)})
		return opts[k]
	})
	reg(nd("Choice"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		k := m.choose(int(a[1].(*Term).val), a[0].(string))
		m.inputs = append(m.inputs, &Input{Name: a[0].(string), Kind: "choice", conc: uint64(k)})
		return m.c.BV(uint64(k), 64)
	})
	// Value forces an integer to a concrete value, forking
	reg(nd("Concrete"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		return m.c.BV(m.concretize(t, "Concrete"), t.w)
	})
	reg(nd("ConcreteString"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.concString(a[0])
	})
	reg(nd("Assume"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		m.assume(m.argT(a[0]))
		return nil
	})
	reg(nd("Cut"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		m.fail(abInfeasible, "cut")
		return nil
	})
	reg(nd("Assert"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		m.checkAssert(m.argT(a[0]), m.showVal(a[1]), "", m.c.False)
		return nil
	})
	reg(nd("AssertKnown"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		m.checkAssert(m.argT(a[2]), m.showVal(a[3]), a[0].(string), m.argT(a[1]))
		return nil
	})
	reg(nd("Reach"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		l := a[0].(string)
		if m.pos >= len(m.prefix) || true {
			m.ex.mu.Lock()
			m.ex.reached[l]++
			m.ex.mu.Unlock()
		}
		return nil
	})
	reg(nd("Observe"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		m.obs = append(m.obs, obsEnt{a[0].(string), a[1]})
		return nil
	})
	reg(nd("MapOrder"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		m.mapOrder = a[0] == m.c.True
		return nil
	})
	reg(nd("Symbolic"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return m.c.True })
	reg(nd("Schedules"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		m.sched.budget, m.sched.delays = int(m.concInt(a[0], "preemptions")), int(m.concInt(a[1], "delays"))
		return nil
	})
	reg(nd("Quiesce"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		m.quiesce()
		return nil
	})
	reg(nd("Yield"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint("yield")
		return nil
	})
	reg(nd("Thorough"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.c.Bool(m.ex.cfg.Thorough)
	})
	// logic that never forks
	reg(nd("And"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		r := m.c.True
		for _, x := range m.sl(a[0]) {
			r = m.c.And(r, m.argT(x))
		}
		return r
	})
	reg(nd("Or"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		r := m.c.False
		for _, x := range m.sl(a[0]) {
			r = m.c.Or(r, m.argT(x))
		}
		return r
	})
	reg(nd("Implies"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.c.Or(m.c.Not(m.argT(a[0])), m.argT(a[1]))
	})
	reg(nd("Ite"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		v, ok := m.mergeVal(m.argT(a[0]), a[1], a[2])
		if !ok {
			if m.branch(m.argT(a[0])) {
				return a[1]
			}
			return a[2]
		}
		return v
	})
	reg(nd("ByteAt"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		s := m.symStr(a[0])
		i := m.argT(a[1])
		r := m.c.BV(0, 8)
		for k := range s.b {
			kt := m.c.BV(uint64(k), 64)
			r = m.c.Ite(m.c.And(m.c.Eq(i, kt), m.c.Bin(OpUlt, kt, s.n)), s.b[k], r)
		}
		return r
	})
	reg(nd("ByteIn"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return inSet(m.c, m.argT(a[0]), a[1].(string))
	})
	reg(nd("StrEq"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return m.strEq(a[0], a[1]) })
	reg(nd("StrIn"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		r := m.c.False
		for _, x := range m.sl(a[1]) {
			r = m.c.Or(r, m.strEq(a[0], x))
		}
		return r
	})
	// Merge runs a pure boolean function, folding its paths into one formula
	reg(nd("Merge"), func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.mergeCall(fr, func() Value { return m.call(fr, a[0], nil) })
	})

	regSync()
	regTime()
	regStrings()
	regFmt()
	regMisc()
}

// inSet builds membership of a byte in a set of bytes
func inSet(c *Ctx, b *Term, set string) *Term {
	var has [256]bool
	for i := 0; i < len(set); i++ {
		has[set[i]] = true
	}
	r := c.False
	for i := 0; i < 256; {
		if !has[i] {
			i++
			continue
		}
		j := i
		for j+1 < 256 && has[j+1] {
			j++
		}
		if j == i {
			r = c.Or(r, c.Eq(b, c.BV(uint64(i), 8)))
		} else {
			r = c.Or(r, c.And(c.Bin(OpUle, c.BV(uint64(i), 8), b), c.Bin(OpUle, b, c.BV(uint64(j), 8))))
		}
		i = j + 1
	}
	return r
}

var _ = regexp.MustCompile
var _ = time.Now

// checkAssert discharges an assertion for every input on this path
func (m *Machine) checkAssert(cond *Term, msg string, knownID string, knownCond *Term) {
	m.ex.mu.Lock()
	m.ex.asserts[msg]++
	m.ex.assertChecks++
	m.ex.mu.Unlock()
	if m.locSt != nil {
		m.fail(abMergeFail, "assert in merged call")
	}
	if m.pos < len(m.prefix) {
		// a path sharing this prefix has already checked it
		m.assumeAfterAssert(cond)
		return
	}
	if b, ok := m.known1(cond); ok && b {
		return
	}
	neg := m.c.Not(cond)
	if knownID != "" {
		// failures inside the known class
		if r, md := m.query(m.c.And(neg, knownCond)); r == Sat {
			if m.ex.cfg.Known[knownID] {
				m.ex.noteKnown(knownID, m.mkViolation(msg, md, "assert"))
			} else {
				m.report(m.mkViolation(msg, md, "assert"))
			}
		}
		neg = m.c.And(neg, m.c.Not(knownCond))
	}
	r, md := m.query(neg)
	switch r {
	case Sat:
		m.report(m.mkViolation(msg, md, "assert"))
	case Unknown:
		m.ex.mu.Lock()
		m.ex.assertUnk++
		m.ex.mu.Unlock()
	}
	m.assumeAfterAssert(cond)
}

func (m *Machine) assumeAfterAssert(cond *Term) {
	if b, ok := m.known1(cond); ok {
		if !b {
			m.fail(abInfeasible, "assert failed on all inputs")
		}
		return
	}
	m.assume(cond)
}
