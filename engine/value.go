package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term            bool, integer, float
//	string           concrete string
//	*SStr            string with symbolic content
//	*Value           pointer (nil pointer: (*Value)(nil))
//	structV          struct
//	arrayV           array
//	[]Value          slice
//	*MapV            map
//	iface            interface
//	*ssa.Function, *closure, *ssa.Builtin, nativeFn   function
//	*ChanV           channel
//	tuple            multiple results
//	poison           value that could not be computed
//	native           engine-implemented object
type Value interface{}

type structV []Value
type arrayV []Value
type tuple []Value

type iface struct {
	t types.Type
	v Value
}

type closure struct {
	fn  *ssa.Function
	env []Value
}

type nativeFn struct {
	name string
	fn   func(m *Machine, args []Value) Value
}

type poison struct{ why string }

// native is an opaque object the engine implements itself
type native struct {
	kind string
	v    interface{}
}

// SStr is a string with symbolic bytes, n is its length, at most len(b)
type SStr struct {
	b      []*Term
	n      *Term // 64 bit
	opaque bool  // content unknown, must not be inspected
	tag    interface{}
}

type mentry struct {
	k    Value
	v    Value
	live bool
}

// MapV is a map, insertion ordered
type MapV struct {
	idx     map[interface{}]int
	entries []*mentry
	sym     int // number of live entries with symbolic keys
	n       int
}

func newMap() *MapV { return &MapV{idx: map[interface{}]int{}} }

type ChanV struct {
	id     int
	buf    []Value
	cap    int
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	elem   types.Type
}

func isNilValue(v Value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case *Value:
		return x == nil
	case []Value:
		return x == nil
	case *MapV:
		return x == nil
	case *ChanV:
		return x == nil
	case iface:
		return x.t == nil
	case *ssa.Function:
		return x == nil
	case *closure:
		return x == nil
	case *nativeFn:
		return x == nil
	}
	return false
}

func basicWidth(b *types.Basic) (w uint8, signed bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return wBool, false
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Float64, types.UntypedFloat, types.Float32:
		return wFP, true
	}
	return 255, false
}

func numInfo(t types.Type) (w uint8, signed bool) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return basicWidth(b)
	}
	return 255, false
}

func (m *Machine) zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Basic:
		if t.Kind() == types.UntypedNil {
			return nil
		}
		if t.Info()&types.IsString != 0 {
			return ""
		}
		if t.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
		w, _ := basicWidth(t)
		switch w {
		case wBool:
			return m.c.False
		case wFP:
			return m.c.F(0)
		case 255:
			return poison{"zero of " + t.String()}
		}
		return m.c.BV(0, w)
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		a := make(arrayV, t.Len())
		if t.Len() > 0 {
			z := m.zero(t.Elem())
			a[0] = z
			for i := 1; i < len(a); i++ {
				if isAgg(z) {
					a[i] = m.zero(t.Elem())
				} else {
					a[i] = z
				}
			}
		}
		return a
	case *types.Named, *types.Alias:
		return m.zero(t.Underlying())
	case *types.Interface:
		return iface{}
	case *types.Slice:
		return []Value(nil)
	case *types.Struct:
		s := make(structV, t.NumFields())
		for i := range s {
			s[i] = m.zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return m.zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = m.zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.TypeParam:
		return poison{"zero of type param"}
	}
	panic(fmt.Sprintf("zero: unexpected type %T", t))
}

func isAgg(v Value) bool {
	switch v.(type) {
	case structV, arrayV:
		return true
	}
	return false
}

// copyVal copies aggregates
func copyVal(v Value) Value {
	switch x := v.(type) {
	case structV:
		n := make(structV, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	case arrayV:
		n := make(arrayV, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	}
	return v
}

func newCell(v Value) *Value {
	p := new(Value)
	*p = v
	return p
}

func (m *Machine) load(p *Value) Value {
	if p == nil {
		m.nilDeref()
	}
	return copyVal(*p)
}

type undoEnt struct {
	p   *Value
	old Value
	f   func()
}

func (m *Machine) set(p *Value, v Value) {
	if !m.initMode {
		m.undo = append(m.undo, undoEnt{p: p, old: *p})
	}
	*p = v
}

func (m *Machine) onUndo(f func()) {
	if !m.initMode {
		m.undo = append(m.undo, undoEnt{f: f})
	}
}

func (m *Machine) undoTo(n int) {
	for i := len(m.undo) - 1; i >= n; i-- {
		u := m.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
	}
	m.undo = m.undo[:n]
}

// store writes v to *p keeping the identity of the fields of aggregates
func (m *Machine) store(p *Value, v Value) {
	if p == nil {
		m.nilDeref()
	}
	switch x := v.(type) {
	case structV:
		if dst, ok := (*p).(structV); ok && len(dst) == len(x) {
			for i := range x {
				m.store(&dst[i], x[i])
			}
			return
		}
		m.set(p, copyVal(v))
	case arrayV:
		if dst, ok := (*p).(arrayV); ok && len(dst) == len(x) {
			for i := range x {
				m.store(&dst[i], x[i])
			}
			return
		}
		m.set(p, copyVal(v))
	default:
		m.set(p, v)
	}
}

// strings

func (m *Machine) sstr(v Value) *SStr {
	switch x := v.(type) {
	case *SStr:
		return x
	case string:
		s := &SStr{b: make([]*Term, len(x)), n: m.c.BV(uint64(len(x)), 64)}
		for i := 0; i < len(x); i++ {
			s.b[i] = m.c.BV(uint64(x[i]), 8)
		}
		return s
	case poison:
		m.unsupported("poison string: " + x.why)
	}
	m.unsupported(fmt.Sprintf("not a string: %T", v))
	return nil
}

// mkstr normalises to a concrete string when possible
func (m *Machine) mkstr(s *SStr) Value {
	if s.opaque {
		return s
	}
	if s.n.IsConst() {
		n := int(s.n.val)
		if len(s.b) > n {
			s = &SStr{b: s.b[:n], n: s.n, tag: s.tag}
		}
		for _, t := range s.b {
			if !t.IsConst() {
				return s
			}
		}
		var sb strings.Builder
		for _, t := range s.b {
			sb.WriteByte(byte(t.val))
		}
		return sb.String()
	}
	return s
}

func (m *Machine) strLen(v Value) *Term {
	switch x := v.(type) {
	case string:
		return m.c.BV(uint64(len(x)), 64)
	case *SStr:
		if x.opaque {
			if isBlob(x) {
				return m.c.BV(1000, 64)
			}
			if j, ok := x.tag.(*jnode); ok && j.kind == 'B' {
				if len(j.bytes) == 1 {
					if _, ok := j.bytes[0].(native); ok {
						return m.c.BV(1336, 64)
					}
				}
				return m.c.BV(uint64((len(j.bytes)+2)/3*4), 64)
			}
			m.unsupported("len of opaque string")
		}
		return x.n
	}
	m.unsupported(fmt.Sprintf("len of %T", v))
	return nil
}

func (m *Machine) strEq(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return m.c.Bool(x == y)
		}
	}
	if a == b {
		return m.c.True
	}
	x, y := m.sstr(a), m.sstr(b)
	if x.opaque || y.opaque {
		if r := m.tokenEq(x, y); r != nil {
			return r
		}
		m.unsupported("comparison of opaque string")
	}
	c := m.c
	r := c.Eq(x.n, y.n)
	mx := len(x.b)
	if len(y.b) < mx {
		mx = len(y.b)
	}
	// lengths above the shorter maximum are impossible
	if len(x.b) != len(y.b) {
		r = c.And(r, c.Bin(OpUle, x.n, c.BV(uint64(mx), 64)))
		r = c.And(r, c.Bin(OpUle, y.n, c.BV(uint64(mx), 64)))
	}
	for i := 0; i < mx && r != c.False; i++ {
		r = c.And(r, c.Or(c.Bin(OpUle, x.n, c.BV(uint64(i), 64)), c.Eq(x.b[i], y.b[i])))
	}
	return r
}

// strLess is the lexicographic a < b
func (m *Machine) strLess(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return m.c.Bool(x < y)
		}
	}
	x, y := m.sstr(a), m.sstr(b)
	if x.opaque || y.opaque {
		m.unsupported("comparison of opaque string")
	}
	c := m.c
	mx := len(x.b)
	if len(y.b) > mx {
		mx = len(y.b)
	}
	r := c.False // both ended
	for i := mx; i >= 0; i-- {
		it := c.BV(uint64(i), 64)
		xe := c.Bin(OpUle, x.n, it)
		ye := c.Bin(OpUle, y.n, it)
		var body *Term
		if i < len(x.b) && i < len(y.b) {
			body = c.Ite(c.Bin(OpUlt, x.b[i], y.b[i]), c.True, c.Ite(c.Eq(x.b[i], y.b[i]), r, c.False))
		} else {
			body = c.False
		}
		r = c.Ite(ye, c.False, c.Ite(xe, c.True, body))
	}
	return r
}

func (m *Machine) strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	x, y := m.sstr(a), m.sstr(b)
	if x.opaque || y.opaque {
		// white space around a JSON document does not change it
		if n, ok := x.tag.(native); ok && n.kind == "jsonblob" {
			if w, ok := b.(string); ok && strings.TrimSpace(w) == "" {
				return x
			}
		}
		if n, ok := y.tag.(native); ok && n.kind == "jsonblob" {
			if w, ok := a.(string); ok && strings.TrimSpace(w) == "" {
				return y
			}
		}
		return m.opaqueStr("concat")
	}
	if !x.n.IsConst() {
		if len(x.b) <= 24 && len(y.b) <= 24 {
			// merged concatenation, byte i is x[i] when i < n else y[i-n]
			c := m.c
			tot := len(x.b) + len(y.b)
			nb := make([]*Term, tot)
			for i := 0; i < tot; i++ {
				var t *Term
				if i < len(x.b) {
					t = x.b[i]
				} else {
					t = c.BV(0, 8)
				}
				for n := 0; n <= i && n <= len(x.b); n++ {
					if i-n < len(y.b) {
						t = c.Ite(c.Eq(x.n, c.BV(uint64(n), 64)), y.b[i-n], t)
					}
				}
				nb[i] = t
			}
			return m.mkstr(&SStr{b: nb, n: c.Bin(OpAdd, x.n, y.n)})
		}
		x = m.fixLen(x)
	}
	nb := make([]*Term, 0, len(x.b)+len(y.b))
	nb = append(nb, x.b[:x.n.val]...)
	nb = append(nb, y.b...)
	return m.mkstr(&SStr{b: nb, n: m.c.Bin(OpAdd, x.n, y.n)})
}

// fixLen forks on the length of a string
func (m *Machine) fixLen(s *SStr) *SStr {
	if s.opaque {
		m.unsupported("inspection of opaque string")
	}
	if s.n.IsConst() {
		if len(s.b) == int(s.n.val) {
			return s
		}
		return &SStr{b: s.b[:s.n.val], n: s.n, tag: s.tag}
	}
	n := m.concretize(s.n, "string length")
	return &SStr{b: s.b[:n], n: m.c.BV(n, 64), tag: s.tag}
}

func (m *Machine) opaqueStr(why string) Value {
	return &SStr{opaque: true, n: m.c.BV(0, 64), tag: why}
}

// concrete string from a value, forking over contents
func (m *Machine) concString(v Value) string {
	switch x := v.(type) {
	case string:
		return x
	case *SStr:
		s := m.fixLen(x)
		var sb strings.Builder
		for _, b := range s.b {
			if b.IsConst() {
				sb.WriteByte(byte(b.val))
			} else {
				sb.WriteByte(byte(m.concretize(b, "string byte")))
			}
		}
		return sb.String()
	}
	m.unsupported(fmt.Sprintf("concString %T", v))
	return ""
}

func isConcStr(v Value) (string, bool) {
	s, ok := v.(string)
	return s, ok
}

// map keys

type ptrKey struct{ p *Value }
type ifKey struct {
	t string
	k interface{}
}
type numKey struct {
	w uint8
	v uint64
}
type chKey struct{ c *ChanV }

// mapKey gives a comparable host value for a concrete key
func (m *Machine) mapKey(v Value) (interface{}, bool) {
	switch x := v.(type) {
	case *Term:
		if !x.IsConst() {
			return nil, false
		}
		return numKey{x.w, x.val}, true
	case string:
		return x, true
	case *SStr:
		return nil, false
	case *Value:
		return ptrKey{x}, true
	case *ChanV:
		return chKey{x}, true
	case iface:
		if x.t == nil {
			return ifKey{}, true
		}
		k, ok := m.mapKey(x.v)
		if !ok {
			return nil, false
		}
		return ifKey{typeKey(x.t), k}, true
	case structV:
		var sb strings.Builder
		for _, e := range x {
			k, ok := m.mapKey(e)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%#v|", k, k)
		}
		return "struct:" + sb.String(), true
	case arrayV:
		var sb strings.Builder
		for _, e := range x {
			k, ok := m.mapKey(e)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%#v|", k, k)
		}
		return "array:" + sb.String(), true
	}
	m.unsupported(fmt.Sprintf("map key %T", v))
	return nil, false
}

// mapFind returns the entry for k, forking when the answer is symbolic
func (m *Machine) mapFind(mp *MapV, k Value) *mentry {
	if mp == nil {
		return nil
	}
	hk, conc := m.mapKey(k)
	if conc {
		if i, ok := mp.idx[hk]; ok {
			return mp.entries[i]
		}
		if mp.sym == 0 {
			return nil
		}
	}
	for _, e := range mp.entries {
		if !e.live {
			continue
		}
		if conc {
			if _, ec := m.mapKey(e.k); ec {
				continue
			}
		}
		if m.branch(m.equal(e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *MapV, k, v Value) {
	if mp == nil {
		m.targetPanicStr("assignment to entry in nil map")
	}
	if e := m.mapFind(mp, k); e != nil {
		m.store(&e.v, v)
		return
	}
	e := &mentry{k: k, v: copyVal(v), live: true}
	hk, conc := m.mapKey(k)
	i := len(mp.entries)
	mp.entries = append(mp.entries, e)
	mp.n++
	if conc {
		mp.idx[hk] = i
	} else {
		mp.sym++
	}
	m.onUndo(func() {
		mp.entries = mp.entries[:i]
		mp.n--
		if conc {
			delete(mp.idx, hk)
		} else {
			mp.sym--
		}
	})
}

func (m *Machine) mapDelete(mp *MapV, k Value) {
	if mp == nil {
		return
	}
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	hk, conc := m.mapKey(e.k)
	e.live = false
	mp.n--
	var i int
	if conc {
		i = mp.idx[hk]
		delete(mp.idx, hk)
	} else {
		mp.sym--
	}
	m.onUndo(func() {
		e.live = true
		mp.n++
		if conc {
			mp.idx[hk] = i
		} else {
			mp.sym++
		}
	})
}

func (m *Machine) mapClear(mp *MapV) {
	if mp == nil {
		return
	}
	oi, oe, os, on := mp.idx, mp.entries, mp.sym, mp.n
	mp.idx = map[interface{}]int{}
	mp.entries = nil
	mp.sym, mp.n = 0, 0
	m.onUndo(func() { mp.idx, mp.entries, mp.sym, mp.n = oi, oe, os, on })
}

// equal gives the term for a == b
func (m *Machine) equal(a, b Value) *Term {
	c := m.c
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			m.unsupported(fmt.Sprintf("equal %T %T", a, b))
		}
		if x.w == wFP {
			return c.Bin(OpFEq, x, y)
		}
		return c.Eq(x, y)
	case string, *SStr:
		return m.strEq(a, b)
	case *Value:
		switch y := b.(type) {
		case *Value:
			return c.Bool(x == y)
		case nil:
			return c.Bool(x == nil)
		}
	case structV:
		y, ok := b.(structV)
		if ok {
			r := c.True
			for i := range x {
				r = c.And(r, m.equal(x[i], y[i]))
				if r == c.False {
					return r
				}
			}
			return r
		}
	case arrayV:
		y, ok := b.(arrayV)
		if ok {
			r := c.True
			for i := range x {
				r = c.And(r, m.equal(x[i], y[i]))
				if r == c.False {
					return r
				}
			}
			return r
		}
	case iface:
		switch y := b.(type) {
		case iface:
			if x.t == nil || y.t == nil {
				return c.Bool(x.t == nil && y.t == nil)
			}
			if !types.Identical(x.t, y.t) {
				return c.False
			}
			if !types.Comparable(x.t) {
				m.targetPanicStr("runtime error: comparing uncomparable type " + x.t.String())
			}
			return m.equal(x.v, y.v)
		case nil:
			return c.Bool(x.t == nil)
		}
	case *ChanV:
		y, ok := b.(*ChanV)
		if ok {
			return c.Bool(x == y)
		}
		if b == nil {
			return c.Bool(x == nil)
		}
	case *MapV:
		if isNilValue(b) {
			return c.Bool(x == nil)
		}
		if isNilValue(a) {
			return c.Bool(false)
		}
	case []Value:
		if isNilValue(b) {
			return c.Bool(x == nil)
		}
		if x == nil {
			return c.Bool(isNilValue(b))
		}
	case *ssa.Function, *closure, *nativeFn, *ssa.Builtin:
		if isNilValue(b) || isNilValue(a) {
			return c.Bool(isNilValue(a) && isNilValue(b))
		}
	case nil:
		return c.Bool(isNilValue(b))
	case native:
		if y, ok := b.(native); ok {
			return c.Bool(x == y)
		}
	}
	if p, ok := a.(poison); ok {
		m.unsupported("poison: " + p.why)
	}
	if p, ok := b.(poison); ok {
		m.unsupported("poison: " + p.why)
	}
	m.unsupported(fmt.Sprintf("equal %T %T", a, b))
	return nil
}

var typeKeyCache = newSyncCache()

func typeKey(t types.Type) string {
	return typeKeyCache.get(t)
}
