package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// region is an acyclic single-entry single-exit group of pure blocks that
// starts at a conditional branch
type region struct {
	inner []int // in topological order
	join  int
}

// regionOf finds the smallest such region below block b, nil when there is none
func (m *Machine) regionOf(info *fnInfo, b *ssa.BasicBlock) *region {
	if r, ok := info.regions[b.Index]; ok {
		return r
	}
	if info.regions == nil {
		info.regions = map[int]*region{}
	}
	r := findRegion(b)
	info.regions[b.Index] = r
	return r
}

func findRegion(b *ssa.BasicBlock) *region {
	in := map[*ssa.BasicBlock]bool{}
	var order []*ssa.BasicBlock
	exits := func() (out []*ssa.BasicBlock) {
		seen := map[*ssa.BasicBlock]bool{}
		for _, x := range append([]*ssa.BasicBlock{b}, order...) {
			for _, s := range x.Succs {
				if !in[s] && !seen[s] {
					seen[s] = true
					out = append(out, s)
				}
			}
		}
		return out
	}
	for len(order) < 40 {
		ex := exits()
		if len(ex) == 1 && len(order) > 0 {
			j := ex[0]
			if j == b {
				return nil
			}
			r := &region{join: j.Index}
			for _, x := range order {
				r.inner = append(r.inner, x.Index)
			}
			return r
		}
		grown := false
		for _, s := range ex {
			if s == b || !pureBlock(s) {
				continue
			}
			ok := true
			for _, p := range s.Preds {
				if p != b && !in[p] {
					ok = false
				}
			}
			if ok {
				in[s] = true
				order = append(order, s)
				grown = true
				break
			}
		}
		if !grown {
			return nil
		}
	}
	return nil
}

// pureBlock tells if a block only computes, cheaply and without effects
func pureBlock(x *ssa.BasicBlock) bool {
	if len(x.Instrs) > 16 {
		return false
	}
	for _, in := range x.Instrs {
		switch i := in.(type) {
		case *ssa.Jump, *ssa.If, *ssa.DebugRef, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Field, *ssa.Extract, *ssa.Phi, *ssa.FieldAddr, *ssa.ChangeInterface, *ssa.Index:
		case *ssa.Lookup:
		case *ssa.IndexAddr:
		case *ssa.UnOp:
			if i.Op == token.ARROW {
				return false
			}
		case *ssa.Call:
			switch f := i.Call.Value.(type) {
			case *ssa.Builtin:
				if f.Name() != "len" && f.Name() != "cap" {
					return false
				}
			case *ssa.Function:
				if !pureFuncs[f.String()] {
					return false
				}
			default:
				return false
			}
		default:
			return false
		}
	}
	switch x.Instrs[len(x.Instrs)-1].(type) {
	case *ssa.Jump, *ssa.If:
		return true
	}
	return false
}

var pureFuncs = map[string]bool{"strings.Contains": true, "strings.HasPrefix": true, "strings.HasSuffix": true, "strings.EqualFold": true, "strings.ContainsAny": true, "strings.ContainsRune": true,
	"(time.Time).IsZero": true, "(time.Time).Before": true, "(time.Time).After": true, "(time.Time).Sub": true, "(time.Duration).Seconds": true,
	"unicode.IsSpace": true, "unicode.IsDigit": true, "unicode.IsLetter": true, ndPath + ".And": true, ndPath + ".Or": true, ndPath + ".Not": true, ndPath + ".Implies": true, ndPath + ".ByteAt": true, ndPath + ".ByteIn": true}

// ifConvert folds a region of pure blocks below a branch into if-then-else
// terms, so that it does not fork the path
func (m *Machine) ifConvert(fr *frame, cond *Term) bool {
	if cond.IsConst() || m.initMode {
		return false
	}
	if _, ok := m.known1(cond); ok {
		return false
	}
	b := fr.fn.Blocks[fr.block]
	r := m.regionOf(fr.info, b)
	if r == nil || r.join == fr.block {
		return false
	}
	info := fr.info
	jb := &info.blocks[r.join]
	if jb.nphi == 0 {
		return false
	}
	type edge struct{ from, to int }
	eg := map[edge]*Term{}
	addEdge := func(from, to int, g *Term) {
		k := edge{from, to}
		if o, ok := eg[k]; ok {
			g = m.c.Or(o, g)
		}
		eg[k] = g
	}
	addEdge(b.Index, b.Succs[0].Index, cond)
	addEdge(b.Index, b.Succs[1].Index, m.c.Not(cond))
	merge := func(blk int, ci *cinstr) (Value, bool) {
		var out Value
		have := false
		for i, p := range fr.fn.Blocks[blk].Preds {
			g, ok := eg[edge{p.Index, blk}]
			if !ok || g == m.c.False {
				continue
			}
			v := fr.get(&ci.ops[i])
			if v == nil {
				if _, isI := ci.i.(*ssa.Phi); isI && ci.ops[i].kind == 1 {
					return nil, false
				}
			}
			if !have {
				out, have = v, true
				continue
			}
			o, ok := m.mergeVal(g, v, out)
			if !ok {
				return nil, false
			}
			out = o
		}
		return out, have
	}
	n0 := len(m.pc)
	og := m.specGuard
	defer func() { m.specGuard = og }()
	for _, x := range r.inner {
		guard := m.c.False
		for _, p := range fr.fn.Blocks[x].Preds {
			if g, ok := eg[edge{p.Index, x}]; ok {
				guard = m.c.Or(guard, g)
			}
		}
		if guard == m.c.False {
			continue
		}
		m.specGuard = guard
		blk := &info.blocks[x]
		vals := make([]Value, blk.nphi)
		for i := 0; i < blk.nphi; i++ {
			v, ok := merge(x, &blk.ins[i])
			if !ok {
				return false
			}
			vals[i] = v
		}
		for i := range vals {
			fr.regs[blk.ins[i].dst] = vals[i]
		}
		for i := blk.nphi; i < len(blk.ins); i++ {
			ci := &blk.ins[i]
			switch ci.i.(type) {
			case *ssa.Jump:
				addEdge(x, fr.fn.Blocks[x].Succs[0].Index, guard)
				continue
			case *ssa.If:
				c, ok := fr.get(&ci.ops[0]).(*Term)
				if !ok {
					return false
				}
				addEdge(x, fr.fn.Blocks[x].Succs[0].Index, m.c.And(guard, c))
				addEdge(x, fr.fn.Blocks[x].Succs[1].Index, m.c.And(guard, m.c.Not(c)))
				continue
			}
			if !m.specExec(fr, ci) {
				return false
			}
		}
	}
	if len(m.pc) != n0 {
		return false
	}
	vals := make([]Value, jb.nphi)
	for i := 0; i < jb.nphi; i++ {
		v, ok := merge(r.join, &jb.ins[i])
		if !ok {
			return false
		}
		vals[i] = v
	}
	for i := range vals {
		fr.regs[jb.ins[i].dst] = vals[i]
	}
	fr.prev = -2 // phis are done
	fr.block = r.join
	return true
}

// specExec executes one instruction, failing on anything but plain computation
func (m *Machine) specExec(fr *frame, ci *cinstr) (ok bool) {
	if b, is := ci.i.(*ssa.BinOp); is {
		switch b.Op.String() {
		case "/", "%", "<<", ">>":
			if y, isT := fr.get(&ci.ops[1]).(*Term); !isT || !y.IsConst() || y.val == 0 {
				return false
			}
		}
	}
	if c, is := ci.i.(*ssa.Convert); is {
		if _, isT := fr.get(&ci.ops[0]).(*Term); !isT {
			return false
		}
		if w, _ := numInfo(c.Type()); w == 255 {
			return false
		}
	}
	cur := m.sched.cur
	d0, nf := m.depth, m.noFork
	defer func() {
		m.noFork = nf
		if r := recover(); r != nil {
			m.depth = d0
			cur.fr = fr
			switch x := r.(type) {
			case targetPanic:
				ok = false
			case pathAbort:
				if x.kind == abMergeFail || x.kind == abUnsupported || x.kind == abInfeasible {
					ok = false
					return
				}
				panic(r)
			default:
				panic(r)
			}
		}
	}()
	m.noFork++
	fr.exec(ci, ci.i)
	return true
}

// mergeCall explores every path of a pure computation and folds the results
func (m *Machine) mergeCall(fr *frame, f func() Value) Value {
	if m.locSt != nil || m.initMode {
		return f()
	}
	type res struct {
		cond *Term
		v    Value
	}
	var out []res
	stack := [][]Decision{nil}
	pc0 := len(m.pc)
	savedSet := m.pcSet
	savedConst := m.constKnown
	undo0 := len(m.undo)
	nobs := len(m.obs)
	depth := m.depth
	cur := m.sched.cur
	ofr := cur.fr
	ev := m.ev
	ok := true
	why := ""
	replaying := m.pos < len(m.prefix)
	if replaying {
		m.ev = nil
	}
	m.flush()
	for len(stack) > 0 && ok {
		p := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		m.locSt = &localExplore{prefix: p, stack: &stack, pc0: pc0}
		m.pcSet = cloneSet(savedSet)
		m.constKnown = cloneConst(savedConst)
		m.s.Push()
		m.sent = pc0
		func() {
			defer func() {
				if r := recover(); r != nil {
					m.depth = depth
					cur.fr = ofr
					if pa, is := r.(pathAbort); is {
						if pa.kind == abInfeasible {
							return
						}
						if pa.kind == abMergeFail || pa.kind == abUnsupported {
							ok = false
							why = pa.why
							return
						}
					}
					if _, is := r.(targetPanic); is {
						ok = false
						why = "panic"
						return
					}
					m.locSt = nil
					panic(r)
				}
			}()
			v := f()
			cond := m.c.True
			for _, t := range m.pc[pc0:] {
				cond = m.c.And(cond, t)
			}
			out = append(out, res{cond, v})
		}()
		m.undoTo(undo0)
		m.s.Pop()
		m.pc = m.pc[:pc0]
		m.sent = pc0
		m.obs = m.obs[:nobs]
		if len(out) > 600 {
			ok = false
			why = "too many paths in merged call"
		}
	}
	m.locSt = nil
	m.pcSet = savedSet
	m.constKnown = savedConst
	m.ev = ev
	if ok && len(out) == 0 {
		m.fail(abInfeasible, "merge")
	}
	var r Value
	if ok {
		r = out[len(out)-1].v
		for i := len(out) - 2; i >= 0 && ok; i-- {
			r, ok = m.mergeVal(out[i].cond, out[i].v, r)
			why = "result type"
		}
	}
	if !ok {
		if verbose {
			fmt.Println("merge failed:", why)
		}
		return f()
	}
	return r
}

func (m *Machine) mergeVal(cond *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			return nil, false
		}
		return m.c.Ite(cond, x, y), true
	case string, *SStr:
		if xs, ok := a.(string); ok {
			if ys, ok := b.(string); ok && xs == ys {
				return a, true
			}
		}
		switch b.(type) {
		case string, *SStr:
		default:
			return nil, false
		}
		p, q := m.sstr(a), m.sstr(b)
		if p.opaque || q.opaque {
			return nil, false
		}
		n := len(p.b)
		if len(q.b) > n {
			n = len(q.b)
		}
		r := &SStr{b: make([]*Term, n), n: m.c.Ite(cond, p.n, q.n)}
		for i := range r.b {
			u, v := m.c.BV(0, 8), m.c.BV(0, 8)
			if i < len(p.b) {
				u = p.b[i]
			}
			if i < len(q.b) {
				v = q.b[i]
			}
			r.b[i] = m.c.Ite(cond, u, v)
		}
		return m.mkstr(r), true
	case tuple:
		y, ok := b.(tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(tuple, len(x))
		for i := range x {
			v, ok := m.mergeVal(cond, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	}
	if isNilValue(a) && isNilValue(b) {
		return a, true
	}
	if sameRef(a, b) {
		return a, true
	}
	return nil, false
}

// sameRef tells if two values are the very same reference
func sameRef(a, b Value) bool {
	switch x := a.(type) {
	case *Value:
		y, ok := b.(*Value)
		return ok && x == y
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x == y
	case *ChanV:
		y, ok := b.(*ChanV)
		return ok && x == y
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return ok && x == y
	case *closure:
		y, ok := b.(*closure)
		return ok && x == y
	case []Value:
		y, ok := b.([]Value)
		return ok && len(x) == len(y) && cap(x) == cap(y) && cap(x) > 0 && &x[:1][0] == &y[:1][0]
	case iface:
		y, ok := b.(iface)
		if !ok || x.t == nil || y.t == nil || !types.Identical(x.t, y.t) {
			return false
		}
		if s, ok := x.v.(string); ok {
			t, ok := y.v.(string)
			return ok && s == t
		}
		if s, ok := x.v.(*Term); ok {
			return s == y.v
		}
		return sameRef(x.v, y.v)
	}
	return false
}

func cloneSet(s map[*Term]bool) map[*Term]bool {
	n := make(map[*Term]bool, len(s))
	for k, v := range s {
		n[k] = v
	}
	return n
}

func cloneConst(s map[*Term]uint64) map[*Term]uint64 {
	n := make(map[*Term]uint64, len(s))
	for k, v := range s {
		n[k] = v
	}
	return n
}
