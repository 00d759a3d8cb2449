package main

import (
	"fmt"
	"go/types"
	"math"
	"regexp"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type hostOpaque struct{}

// hostVal turns a concrete value into a host value for formatting
func (m *Machine) hostVal(fr *frame, v Value, t types.Type, depth int) (interface{}, bool) {
	if depth > 4 {
		return nil, false
	}
	switch x := v.(type) {
	case *Term:
		if !x.IsConst() {
			return nil, false
		}
		if x.w == wBool {
			return x.val == 1, true
		}
		if x.w == wFP {
			return math.Float64frombits(x.val), true
		}
		if _, s := numInfo(t); s {
			return sext(x.val, x.w), true
		}
		return x.val, true
	case string:
		return x, true
	case []Value:
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			return nil, false
		}
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			out := make([]byte, len(x))
			for i, e := range x {
				et, ok := e.(*Term)
				if !ok || !et.IsConst() {
					return nil, false
				}
				out[i] = byte(et.val)
			}
			return out, true
		}
		out := make([]interface{}, len(x))
		allStr := true
		for i, e := range x {
			h, ok := m.hostVal(fr, e, sl.Elem(), depth+1)
			if !ok {
				return nil, false
			}
			if _, is := h.(string); !is {
				allStr = false
			}
			out[i] = h
		}
		if allStr {
			ss := make([]string, len(out))
			for i := range out {
				ss[i] = out[i].(string)
			}
			return ss, true
		}
		return out, true
	case arrayV:
		at, ok := t.Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		return m.hostVal(fr, []Value(x), types.NewSlice(at.Elem()), depth)
	case iface:
		if x.t == nil {
			return nil, true
		}
		return m.hostVal(fr, x.v, x.t, depth+1)
	}
	return nil, false
}

var padSpec = regexp.MustCompile(`^%(-?)([0-9]{1,4})[sv]$`)

// fmtArg formats one operand with a verb
func (m *Machine) fmtArg(fr *frame, spec string, verb byte, a Value) Value {
	it, ok := a.(iface)
	if !ok {
		return m.opaqueStr("fmt")
	}
	if it.t == nil {
		return fmt.Sprintf(spec, nil)
	}
	if verb == 'T' {
		return types.TypeString(it.t, func(p *types.Package) string { return p.Name() })
	}
	if verb == 'p' {
		return m.opaqueStr("pointer")
	}
	v := it.v
	if verb == 'v' || verb == 's' || verb == 'q' {
		if m.hasMethod(it.t, "Error") || m.hasMethod(it.t, "String") {
			if p, ok := v.(*Value); ok && p == nil {
				return "<nil>"
			}
			name := "Error"
			if !m.hasMethod(it.t, "Error") {
				name = "String"
			}
			d := m.depth
			var r Value
			cur := m.sched.cur
			ofr := cur.fr
			func() {
				defer func() {
					if e := recover(); e != nil {
						if pa, ok := e.(pathAbort); ok && pa.kind == abUnsupported {
							m.depth = d
							cur.fr = ofr
							r = m.opaqueStr("fmt method")
							return
						}
						panic(e)
					}
				}()
				r, _ = m.callMethod(fr, it, name)
			}()
			v = r
			it = iface{t: types.Typ[types.String], v: r}
		}
	}
	if s, ok := v.(*SStr); ok {
		if s.opaque {
			return s
		}
		if (verb == 's' || verb == 'v') && (spec == "%s" || spec == "%v") {
			return s
		}
		if mt := padSpec.FindStringSubmatch(spec); mt != nil && s.n.IsConst() && (verb == 's' || verb == 'v') {
			ascii := m.c.True
			for _, b := range s.b[:s.n.val] {
				ascii = m.c.And(ascii, m.c.Bin(OpUlt, b, m.c.BV(128, 8)))
			}
			if m.branch(ascii) {
				w, _ := strconv.Atoi(mt[2])
				pad := strings.Repeat(" ", max(0, w-int(s.n.val)))
				if mt[1] == "-" {
					return m.strConcat(s, pad)
				}
				return m.strConcat(pad, s)
			}
		}
		return m.opaqueStr("formatted symbolic string")
	}
	if isNamed(it.t, "time", "Duration") {
		if t, ok := v.(*Term); ok && t.IsConst() {
			return fmt.Sprintf(spec, time.Duration(t.val))
		}
	}
	if bs, ok := v.([]Value); ok && (verb == 's') {
		if sl, ok := it.t.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				return m.bytesToString(bs)
			}
		}
	}
	h, ok := m.hostVal(fr, v, it.t, 0)
	if !ok {
		if t, isT := v.(*Term); isT && t.w != wFP && t.w != wBool && (spec == "%d" || spec == "%v") {
			if r := m.smallDecimal(t, it.t); r != nil {
				return r
			}
		}
		return m.opaqueStr("formatted value")
	}
	return fmt.Sprintf(spec, h)
}

// smallDecimal formats a symbolic integer known to be within 0..9
func (m *Machine) smallDecimal(t *Term, ty types.Type) Value {
	c := m.c
	if m.locSt != nil || m.pos < len(m.prefix) {
		// decided by the recorded path condition only
	}
	small := c.Bin(OpUlt, c.ZExtTo64(t), c.BV(10, 64))
	if b, ok := m.known1(small); ok && b {
		d := c.Bin(OpAdd, c.Resize(t, 8, false), c.BV('0', 8))
		return m.mkstr(&SStr{b: []*Term{d}, n: c.BV(1, 64)})
	}
	return nil
}

func (m *Machine) sprintf(fr *frame, format Value, args []Value) Value {
	f, ok := format.(string)
	if !ok {
		return m.opaqueStr("symbolic format")
	}
	var r Value = ""
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			r = m.strConcat(r, f[i:])
			break
		}
		r = m.strConcat(r, f[i:i+j])
		i += j
		k := i + 1
		star := false
		for k < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[k]) >= 0 {
			if f[k] == '*' || f[k] == '[' {
				star = true
			}
			k++
		}
		if k >= len(f) {
			r = m.strConcat(r, "%!(NOVERB)")
			break
		}
		verb := f[k]
		spec := f[i : k+1]
		i = k + 1
		if verb == '%' {
			r = m.strConcat(r, "%")
			continue
		}
		if star {
			return m.opaqueStr("fmt star")
		}
		if verb == 'w' {
			verb = 'v'
			spec = spec[:len(spec)-1] + "v"
		}
		if ai >= len(args) {
			r = m.strConcat(r, "%!"+string(verb)+"(MISSING)")
			continue
		}
		r = m.strConcat(r, m.fmtArg(fr, spec, verb, args[ai]))
		ai++
	}
	if ai < len(args) {
		r = m.strConcat(r, "%!(EXTRA)")
	}
	return r
}

func (m *Machine) sprint(fr *frame, args []Value, ln bool) Value {
	var r Value = ""
	prevStr := false
	for i, a := range args {
		it, _ := a.(iface)
		isStr := false
		if it.t != nil {
			if b, ok := it.t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
				isStr = true
			}
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			r = m.strConcat(r, " ")
		}
		prevStr = isStr
		r = m.strConcat(r, m.fmtArg(fr, "%v", 'v', a))
	}
	if ln {
		r = m.strConcat(r, "\n")
	}
	return r
}

func regFmt() {
	reg("fmt.Sprintf", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.sprintf(fr, a[0], m.sl(a[1]))
	})
	reg("fmt.Sprint", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return m.sprint(fr, m.sl(a[0]), false) })
	reg("fmt.Sprintln", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return m.sprint(fr, m.sl(a[0]), true) })
	reg("fmt.Errorf", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		args := m.sl(a[1])
		msg := m.sprintf(fr, a[0], args)
		f, _ := a[0].(string)
		if f != "" && strings.Contains(f, "%w") {
			// find the operand of the first %w
			n := 0
			for i := 0; i < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				i++
				for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
					i++
				}
				if i >= len(f) || f[i] == '%' {
					continue
				}
				if f[i] == 'w' {
					break
				}
				n++
			}
			if n < len(args) && strings.Count(f, "%w") == 1 {
				w, ok := args[n].(iface)
				if ok && w.t != nil {
					t := m.typeOf("fmt", "wrapError")
					return iface{t: types.NewPointer(t), v: newCell(structV{msg, w})}
				}
			} else if n < len(args) {
				t := m.typeOf("fmt", "wrapErrors")
				var errs []Value
				for _, x := range args {
					if it, ok := x.(iface); ok && it.t != nil && m.hasMethod(it.t, "Error") {
						errs = append(errs, it)
					}
				}
				return iface{t: types.NewPointer(t), v: newCell(structV{msg, errs})}
			}
		}
		return m.mkError(msg)
	})
	noop := func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return m.noopResults(fn.Signature) }
	reg("fmt.Printf", noop)
	reg("fmt.Println", noop)
	reg("fmt.Print", noop)
	fpr := func(kind int) intrinsic {
		return func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			var s Value
			switch kind {
			case 0:
				s = m.sprintf(fr, a[1], m.sl(a[2]))
			case 1:
				s = m.sprint(fr, m.sl(a[1]), false)
			case 2:
				s = m.sprint(fr, m.sl(a[1]), true)
			}
			it, _ := a[0].(iface)
			if it.t == nil {
				m.nilDeref()
			}
			if it.t.String() == "*os.File" {
				return tuple{m.c.BV(0, 64), iface{}}
			}
			if ss, ok := s.(*SStr); ok && ss.opaque && !isBlob(ss) {
				m.unsupported("Fprintf of opaque string")
			}
			r, ok := m.callMethod(fr, it, "Write", m.stringToBytes(s))
			if !ok {
				m.unsupported("Fprintf to " + it.t.String())
			}
			return r
		}
	}
	reg("fmt.Fprintf", fpr(0))
	reg("fmt.Fprint", fpr(1))
	reg("fmt.Fprintln", fpr(2))
}

func isBlob(s *SStr) bool {
	n, ok := s.tag.(native)
	return ok && n.kind == "jsonblob"
}
