package main

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type symPtr struct {
	elems []Value
	idx   *Term
}

// call invokes any function value
func (m *Machine) call(fr *frame, fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			m.nilDeref()
		}
		return m.callSSA(fr, f, args, nil)
	case *closure:
		if f == nil {
			m.nilDeref()
		}
		return m.callSSA(fr, f.fn, args, f.env)
	case *nativeFn:
		return f.fn(m, args)
	case *ssa.Builtin:
		return m.builtin(fr, f, args, nil)
	case nil:
		m.nilDeref()
	case poison:
		m.unsupported("call of poison: " + f.why)
	}
	m.unsupported(fmt.Sprintf("call of %T", fn))
	return nil
}

func (m *Machine) callSSA(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	if in, ok := m.intr[fn]; ok {
		if in != nil {
			return in(m, caller, fn, args)
		}
	} else {
		in := m.findIntrinsic(fn)
		m.intr[fn] = in
		if in != nil {
			return in(m, caller, fn, args)
		}
	}
	if fn.Name() == "init" && fn.Synthetic != "" && m.initMode && fn.Pkg != nil && m.inited[fn.Pkg] != 1 {
		return nil // imported package initializers run lazily
	}
	if fn.Blocks == nil {
		m.unsupported("no body: " + fn.String())
	}
	if m.depth > m.ex.cfg.MaxDepth {
		m.fail(abBudget, "call depth in "+fn.String())
	}
	if fn.Name() == "init" && fn.Synthetic != "" && m.initMode && fn.Pkg != nil {
		m.inited[fn.Pkg] = 3
	}
	info := m.info(fn)
	if !m.initMode {
		m.funcs[fn]++
	}
	fr := &frame{m: m, info: info, fn: fn, regs: make([]Value, info.nregs), env: env, caller: caller}
	for i, p := range fn.Params {
		fr.regs[info.regs[p]] = args[i]
	}
	cur := m.sched.cur
	prev := cur.fr
	cur.fr = fr
	m.depth++
	fr.g = cur
	defer func() {
		// reached on both normal return and panics
		m.depth--
		cur.fr = prev
	}()
	for fr.block >= 0 {
		fr.run()
	}
	return fr.result
}

// run executes blocks until return, handling panics through deferred calls
func (fr *frame) run() {
	m := fr.m
	defer func() {
		if fr.block < 0 {
			return // normal return
		}
		r := recover()
		if r == nil {
			return
		}
		switch r.(type) {
		case targetPanic, goexit:
		default:
			panic(r)
		}
		fr.panicking = true
		fr.panicVal = r
		fr.g.fr = fr
		fr.runDefers()
		// recovered
		if fr.info.recov >= 0 {
			fr.block = fr.info.recov
			fr.prev = -1
		} else {
			fr.block = -1
			fr.result = m.zeroResults(fr.fn)
		}
	}()
	for {
		if fr.execBlock() {
			return
		}
	}
}

func (m *Machine) zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	return m.zero(r)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (fr *frame) runDefer(d deferred) {
	ok := false
	d0 := fr.m.depth
	defer func() {
		if !ok {
			r := recover()
			switch r.(type) {
			case targetPanic, goexit:
				fr.panicking = true
				fr.panicVal = r
				fr.m.depth = d0
				fr.g.fr = fr
			default:
				panic(r)
			}
		}
	}()
	if b, isb := d.fn.(*ssa.Builtin); isb {
		fr.m.builtin(fr, b, d.args, d.ci)
	} else {
		fr.m.call(fr, d.fn, d.args)
	}
	ok = true
}

// execBlock runs the current block, true when the function returned
func (fr *frame) execBlock() bool {
	m := fr.m
	b := &fr.info.blocks[fr.block]
	if b.nphi > 0 && fr.prev != -2 {
		blk := fr.fn.Blocks[fr.block]
		pi := -1
		for i, p := range blk.Preds {
			if p.Index == fr.prev {
				pi = i
				break
			}
		}
		if b.nphi == 1 {
			ci := &b.ins[0]
			fr.regs[ci.dst] = fr.get(&ci.ops[pi])
		} else {
			var tmp [16]Value
			vals := tmp[:0]
			for i := 0; i < b.nphi; i++ {
				vals = append(vals, fr.get(&b.ins[i].ops[pi]))
			}
			for i := 0; i < b.nphi; i++ {
				fr.regs[b.ins[i].dst] = vals[i]
			}
		}
	}
	for i := b.nphi; i < len(b.ins); i++ {
		ci := &b.ins[i]
		m.steps++
		if m.steps&1023 == 0 {
			if m.steps > m.ex.cfg.MaxSteps && !m.initMode {
				m.fail(abBudget, "steps in "+fr.fn.String())
			}
			if m.ex.expired() {
				m.fail(abDeadline, "deadline")
			}
		}
		switch in := ci.i.(type) {
		case *ssa.Jump:
			fr.prev, fr.block = fr.block, fr.fn.Blocks[fr.block].Succs[0].Index
			return false
		case *ssa.If:
			cv := fr.get(&ci.ops[0])
			ct, ok := cv.(*Term)
			if !ok {
				m.unsupported(fmt.Sprintf("if on %T %v", cv, cv))
			}
			if m.ifConvert(fr, ct) {
				return false
			}
			s := 1
			if m.branch(ct) {
				s = 0
			}
			fr.prev, fr.block = fr.block, fr.fn.Blocks[fr.block].Succs[s].Index
			return false
		case *ssa.Return:
			switch len(ci.ops) {
			case 0:
				fr.result = nil
			case 1:
				fr.result = fr.get(&ci.ops[0])
			default:
				t := make(tuple, len(ci.ops))
				for i := range ci.ops {
					t[i] = fr.get(&ci.ops[i])
				}
				fr.result = t
			}
			fr.block = -1
			return true
		default:
			if m.initMode {
				fr.execTolerant(ci, in)
			} else {
				fr.exec(ci, in)
			}
		}
	}
	m.unsupported("fell off block")
	return true
}

func (fr *frame) execTolerant(ci *cinstr, in ssa.Instruction) {
	top := fr.fn.Synthetic != "" && fr.fn.Name() == "init"
	if !top {
		fr.exec(ci, in)
		return
	}
	cur := fr.m.sched.cur
	d := fr.m.depth
	defer func() {
		if r := recover(); r != nil {
			why := ""
			switch x := r.(type) {
			case pathAbort:
				if x.kind == abDeadline || x.kind == abKill {
					panic(r)
				}
				why = x.why
			case targetPanic:
				why = "panic " + fr.m.showVal(x.v)
			default:
				panic(r)
			}
			cur.fr = fr
			fr.m.depth = d
			if verbose {
				fmt.Println("INIT", fr.fn.Pkg.Pkg.Path(), in, why)
			}
			if ci.dst >= 0 {
				fr.regs[ci.dst] = poison{"init: " + why}
			}
		}
	}()
	fr.exec(ci, in)
}

func (fr *frame) exec(ci *cinstr, instr ssa.Instruction) {
	m := fr.m
	switch in := instr.(type) {
	case *ssa.UnOp:
		fr.regs[ci.dst] = m.unop(fr, in, fr.get(&ci.ops[0]))
	case *ssa.BinOp:
		fr.regs[ci.dst] = m.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.Call:
		fr.regs[ci.dst] = fr.doCall(ci, &in.Call)
	case *ssa.FieldAddr:
		p, ok := fr.get(&ci.ops[0]).(*Value)
		if !ok {
			m.badValue(fr.get(&ci.ops[0]), "FieldAddr")
		}
		if p == nil {
			m.nilDeref()
		}
		s, ok := (*p).(structV)
		if !ok {
			m.badValue(*p, "FieldAddr of "+in.String())
		}
		fr.regs[ci.dst] = &s[in.Field]
	case *ssa.Field:
		s, ok := fr.get(&ci.ops[0]).(structV)
		if !ok {
			m.badValue(fr.get(&ci.ops[0]), "Field")
		}
		fr.regs[ci.dst] = s[in.Field]
	case *ssa.Store:
		p, ok := fr.get(&ci.ops[0]).(*Value)
		if !ok {
			m.badValue(fr.get(&ci.ops[0]), "Store")
		}
		m.store(p, fr.get(&ci.ops[1]))
	case *ssa.Alloc:
		fr.regs[ci.dst] = newCell(m.zero(in.Type().Underlying().(*types.Pointer).Elem()))
	case *ssa.MakeInterface:
		v := fr.get(&ci.ops[0])
		fr.regs[ci.dst] = iface{t: in.X.Type(), v: v}
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.ChangeType:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = m.convert(in.X.Type(), in.Type(), fr.get(&ci.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = m.convert(in.X.Type(), in.Type(), fr.get(&ci.ops[0]))
	case *ssa.SliceToArrayPointer:
		s, _ := fr.get(&ci.ops[0]).([]Value)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(len(s)) < n {
			m.targetPanicStr("cannot convert slice to array pointer: length too short")
		}
		fr.regs[ci.dst] = newCell(arrayV(s[:n:n]))
	case *ssa.Extract:
		t, ok := fr.get(&ci.ops[0]).(tuple)
		if !ok {
			if p, ok := fr.get(&ci.ops[0]).(poison); ok {
				fr.regs[ci.dst] = p
				return
			}
			m.badValue(fr.get(&ci.ops[0]), "Extract")
		}
		fr.regs[ci.dst] = t[in.Index]
	case *ssa.IndexAddr:
		fr.regs[ci.dst] = m.indexAddr(fr, ci, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.Index:
		fr.regs[ci.dst] = m.index(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.Lookup:
		fr.regs[ci.dst] = m.lookup(in, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.Slice:
		fr.regs[ci.dst] = m.slice(fr.get(&ci.ops[0]), fr.getOpt(ci, 1), fr.getOpt(ci, 2), fr.getOpt(ci, 3))
	case *ssa.MakeSlice:
		n := m.concInt(fr.get(&ci.ops[0]), "make length")
		c := m.concInt(fr.get(&ci.ops[1]), "make cap")
		if n < 0 || c < n {
			m.targetPanicStr("makeslice: len out of range")
		}
		if c > 1<<20 {
			m.unsupported("huge make")
		}
		s := make([]Value, n, c)
		elt := in.Type().Underlying().(*types.Slice).Elem()
		m.fillZero(s[:c], elt)
		fr.regs[ci.dst] = s
	case *ssa.MakeMap:
		fr.regs[ci.dst] = newMap()
	case *ssa.MakeChan:
		n := m.concInt(fr.get(&ci.ops[0]), "chan cap")
		m.ids++
		fr.regs[ci.dst] = &ChanV{cap: n, id: m.ids, elem: in.Type().Underlying().(*types.Chan).Elem()}
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops)-1)
		for i := range env {
			env[i] = fr.get(&ci.ops[i+1])
		}
		fr.regs[ci.dst] = &closure{fn: in.Fn.(*ssa.Function), env: env}
	case *ssa.MapUpdate:
		mp, ok := fr.get(&ci.ops[0]).(*MapV)
		if !ok {
			m.badValue(fr.get(&ci.ops[0]), "MapUpdate")
		}
		m.mapSet(mp, fr.get(&ci.ops[1]), fr.get(&ci.ops[2]))
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = m.typeAssert(in, fr.get(&ci.ops[0]))
	case *ssa.Range:
		fr.regs[ci.dst] = m.rangeIter(fr.get(&ci.ops[0]))
	case *ssa.Next:
		fr.regs[ci.dst] = m.next(fr, fr.get(&ci.ops[0]), in)
	case *ssa.Defer:
		fn, args := fr.prepCall(ci, &in.Call)
		if len(ci.ops) > 0 && in.DeferStack != nil {
			m.unsupported("DeferStack")
		}
		fr.defers = append(fr.defers, deferred{fn, args, &in.Call})
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		v := fr.get(&ci.ops[0])
		panic(targetPanic{v: v, trace: m.where()})
	case *ssa.Go:
		fn, args := fr.prepCall(ci, &in.Call)
		m.sched.spawn(fr, fn, args, in.Call.Value.String())
	case *ssa.Send:
		m.chanSend(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.Select:
		fr.regs[ci.dst] = m.doSelect(fr, ci, in)
	case *ssa.Phi, *ssa.DebugRef:
	default:
		m.unsupported(fmt.Sprintf("instruction %T", instr))
	}
}

func (m *Machine) badValue(v Value, what string) {
	if p, ok := v.(poison); ok {
		m.unsupported("poison in " + what + ": " + p.why)
	}
	m.unsupported(fmt.Sprintf("%s of %T", what, v))
}

func (fr *frame) getOpt(ci *cinstr, i int) Value {
	// Slice operands: X, Low, High, Max, absent ones are nil operands
	if i >= len(ci.ops) || ci.ops[i].kind == 4 {
		return nil
	}
	return fr.get(&ci.ops[i])
}

func (m *Machine) fillZero(s []Value, elt types.Type) {
	if len(s) == 0 {
		return
	}
	z := m.zero(elt)
	agg := isAgg(z)
	for i := range s {
		if agg {
			s[i] = m.zero(elt)
		} else {
			s[i] = z
		}
	}
}

func (fr *frame) prepCall(ci *cinstr, call *ssa.CallCommon) (Value, []Value) {
	m := fr.m
	if call.IsInvoke() {
		recv := fr.get(&ci.ops[0])
		n := len(call.Args)
		it, ok := recv.(iface)
		if !ok {
			m.badValue(recv, "invoke "+call.Method.Name())
		}
		if it.t == nil {
			if nf := m.noopInvoke(call); nf != nil {
				args := make([]Value, n)
				for i := 0; i < n; i++ {
					args[i] = fr.get(&ci.ops[i+1])
				}
				return nf, args
			}
			m.nilDeref()
		}
		args := make([]Value, n+1)
		args[0] = it.v
		for i := 0; i < n; i++ {
			args[i+1] = fr.get(&ci.ops[i+1])
		}
		fn := m.findMethod(it.t, call.Method)
		if fn == nil {
			if nf, ok := it.v.(native); ok {
				return m.nativeMethod(nf, call.Method.Name()), args
			}
			m.unsupported("no method " + call.Method.String() + " on " + it.t.String())
		}
		return fn, args
	}
	fn := fr.get(&ci.ops[0])
	args := make([]Value, len(call.Args))
	for i := range args {
		args[i] = fr.get(&ci.ops[i+1])
	}
	return fn, args
}

type methKey struct {
	t string
	m *types.Func
}

func (m *Machine) findMethod(t types.Type, meth *types.Func) *ssa.Function {
	return m.methodNamed(t, meth.Pkg(), meth.Name())
}

func (m *Machine) methodNamed(t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := m.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return m.prog.MethodValue(sel)
}

func (fr *frame) doCall(ci *cinstr, call *ssa.CallCommon) Value {
	fn, args := fr.prepCall(ci, call)
	if b, ok := fn.(*ssa.Builtin); ok {
		return fr.m.builtin(fr, b, args, call)
	}
	fr.pos = ci.i.Pos()
	return fr.m.call(fr, fn, args)
}

func (m *Machine) unop(fr *frame, in *ssa.UnOp, x Value) Value {
	c := m.c
	switch in.Op {
	case token.MUL:
		switch p := x.(type) {
		case *Value:
			return m.load(p)
		case symPtr:
			return m.symLoad(p.elems, p.idx)
		}
		m.badValue(x, "load")
	case token.NOT:
		t, ok := x.(*Term)
		if !ok {
			m.badValue(x, "!")
		}
		return c.Not(t)
	case token.SUB:
		t, ok := x.(*Term)
		if !ok {
			m.badValue(x, "-")
		}
		if t.w == wFP {
			return c.Un(OpFNeg, t, wFP)
		}
		return c.Un(OpNeg, t, t.w)
	case token.XOR:
		t, ok := x.(*Term)
		if !ok {
			m.badValue(x, "^")
		}
		return c.Un(OpBNot, t, t.w)
	case token.ARROW:
		v, ok := m.chanRecv(x, in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return tuple{v, c.Bool(ok)}
		}
		return v
	}
	m.unsupported("unop " + in.Op.String())
	return nil
}

// symLoad reads a symbolic index from a table of terms
func (m *Machine) symLoad(elems []Value, idx *Term) Value {
	c := m.c
	ok := len(elems) > 0
	var w uint8
	if ok {
		t, is := elems[0].(*Term)
		ok = is
		if is {
			w = t.w
		}
	}
	if ok {
		for _, e := range elems {
			t, is := e.(*Term)
			if !is || t.w != w {
				ok = false
				break
			}
		}
	}
	if !ok {
		i := m.concretize(idx, "index")
		return copyVal(elems[i])
	}
	// group equal values
	groups := map[*Term][]int{}
	var order []*Term
	for i, e := range elems {
		t := e.(*Term)
		if idx.w < 64 && uint64(i) > mask(idx.w) {
			break
		}
		if _, ok := groups[t]; !ok {
			order = append(order, t)
		}
		groups[t] = append(groups[t], i)
	}
	best := order[0]
	for _, t := range order {
		if len(groups[t]) > len(groups[best]) {
			best = t
		}
	}
	r := best
	for _, t := range order {
		if t == best {
			continue
		}
		cond := c.False
		is := groups[t]
		for k := 0; k < len(is); {
			j := k
			for j+1 < len(is) && is[j+1] == is[j]+1 {
				j++
			}
			if j-k >= 3 {
				cond = c.Or(cond, c.And(c.Bin(OpUle, c.BV(uint64(is[k]), idx.w), idx), c.Bin(OpUle, idx, c.BV(uint64(is[j]), idx.w))))
			} else {
				for q := k; q <= j; q++ {
					cond = c.Or(cond, c.Eq(idx, c.BV(uint64(is[q]), idx.w)))
				}
			}
			k = j + 1
		}
		r = c.Ite(cond, t, r)
	}
	return r
}

func (m *Machine) boundsCheck(idx *Term, n int) {
	in := m.c.Bin(OpUlt, m.c.ZExtTo64(idx), m.c.BV(uint64(n), 64))
	if !m.branch(in) {
		m.targetPanicStr(fmt.Sprintf("index out of range with length %d", n))
	}
}

// ZExtTo64 widens an index, negative values become huge which is what bounds checks want
func (c *Ctx) ZExtTo64(t *Term) *Term {
	if t.w == 64 {
		return t
	}
	return c.ZExt(t, 64)
}

func (m *Machine) indexAddr(fr *frame, ci *cinstr, x, i Value) Value {
	var elems []Value
	switch s := x.(type) {
	case []Value:
		elems = s
	case *Value:
		if s == nil {
			m.nilDeref()
		}
		a, ok := (*s).(arrayV)
		if !ok {
			m.badValue(*s, "IndexAddr")
		}
		elems = a
	default:
		m.badValue(x, "IndexAddr")
	}
	it, ok := i.(*Term)
	if !ok {
		m.badValue(i, "index")
	}
	if it.IsConst() {
		k := sext(it.val, it.w)
		if it.w < 64 {
			k = int64(it.val)
			if _, sg := numInfo(ci.i.(*ssa.IndexAddr).Index.Type()); sg {
				k = sext(it.val, it.w)
			}
		}
		if k < 0 || k >= int64(len(elems)) {
			m.targetPanicStr(fmt.Sprintf("index out of range [%d] with length %d", k, len(elems)))
		}
		return &elems[k]
	}
	if _, sg := numInfo(ci.i.(*ssa.IndexAddr).Index.Type()); sg {
		it = m.c.SExt(it, 64)
	} else {
		it = m.c.ZExt(it, 64)
	}
	m.boundsCheck(it, len(elems))
	if only, _ := ci.x.(bool); only {
		return symPtr{elems, it}
	}
	k := m.concretize(it, "index")
	return &elems[k]
}

func (m *Machine) index(x, i Value) Value {
	it := i.(*Term)
	switch s := x.(type) {
	case string, *SStr:
		return m.strIndex(x, it)
	case arrayV:
		if it.IsConst() {
			k := sext(it.val, it.w)
			if k < 0 || k >= int64(len(s)) {
				m.targetPanicStr("index out of range")
			}
			return copyVal(s[k])
		}
		m.boundsCheck(it, len(s))
		return m.symLoad(s, m.c.ZExt(it, 64))
	}
	m.badValue(x, "index")
	return nil
}

func (m *Machine) strIndex(x Value, it *Term) Value {
	if s, ok := x.(string); ok && it.IsConst() {
		k := int64(it.val)
		if k < 0 || k >= int64(len(s)) {
			m.targetPanicStr(fmt.Sprintf("index out of range [%d] with length %d", k, len(s)))
		}
		return m.c.BV(uint64(s[k]), 8)
	}
	ss := m.sstr(x)
	if ss.opaque {
		m.unsupported("index of opaque string")
	}
	it = m.c.ZExt(it, 64)
	if !m.branch(m.c.Bin(OpUlt, it, ss.n)) {
		m.targetPanicStr("index out of range")
	}
	if it.IsConst() {
		if int(it.val) >= len(ss.b) {
			m.fail(abInfeasible, "")
		}
		return ss.b[it.val]
	}
	el := make([]Value, len(ss.b))
	for i, b := range ss.b {
		el[i] = b
	}
	return m.symLoad(el, it)
}

func (m *Machine) lookup(in *ssa.Lookup, x, k Value) Value {
	switch mp := x.(type) {
	case *MapV:
		e := m.mapFind(mp, k)
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = m.zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return tuple{v, m.c.Bool(e != nil)}
		}
		return v
	case string, *SStr:
		return m.strIndex(x, k.(*Term))
	}
	m.badValue(x, "lookup")
	return nil
}

func (m *Machine) slice(x, lo, hi, mx Value) Value {
	switch s := x.(type) {
	case string, *SStr:
		if str, ok := s.(string); ok {
			l, h := 0, len(str)
			lt, _ := lo.(*Term)
			ht, _ := hi.(*Term)
			if (lt == nil || lt.IsConst()) && (ht == nil || ht.IsConst()) {
				if lt != nil {
					l = int(sext(lt.val, lt.w))
				}
				if ht != nil {
					h = int(sext(ht.val, ht.w))
				}
				if l < 0 || h < l || h > len(str) {
					m.targetPanicStr("slice bounds out of range")
				}
				return str[l:h]
			}
		}
		ss := m.sstr(s)
		if ss.opaque {
			m.unsupported("slice of opaque string")
		}
		c := m.c
		l := c.BV(0, 64)
		if lo != nil {
			l = c.SExt(lo.(*Term), 64)
		}
		h := ss.n
		if hi != nil {
			h = c.SExt(hi.(*Term), 64)
		}
		ok := c.And(c.Bin(OpUle, l, h), c.Bin(OpUle, h, ss.n))
		if !m.branch(ok) {
			m.targetPanicStr("slice bounds out of range")
		}
		li := int(m.concretize(l, "slice low"))
		if li > len(ss.b) {
			m.fail(abInfeasible, "")
		}
		mxl := len(ss.b)
		if h.IsConst() && int(h.val) < mxl {
			mxl = int(h.val)
		}
		if mxl < li {
			mxl = li
		}
		return m.mkstr(&SStr{b: ss.b[li:mxl], n: c.Bin(OpSub, h, c.BV(uint64(li), 64))})
	case []Value:
		l, h, k := 0, len(s), cap(s)
		if lo != nil {
			l = m.concInt(lo, "slice low")
		}
		if hi != nil {
			h = m.concInt(hi, "slice high")
		}
		if mx != nil {
			k = m.concInt(mx, "slice max")
		}
		if l < 0 || h < l || k < h || k > cap(s) {
			m.targetPanicStr("slice bounds out of range")
		}
		if s == nil {
			return s
		}
		return s[l:h:k]
	case *Value:
		if s == nil {
			m.nilDeref()
		}
		a, ok := (*s).(arrayV)
		if !ok {
			m.badValue(*s, "slice")
		}
		l, h, k := 0, len(a), len(a)
		if lo != nil {
			l = m.concInt(lo, "slice low")
		}
		if hi != nil {
			h = m.concInt(hi, "slice high")
		}
		if mx != nil {
			k = m.concInt(mx, "slice max")
		}
		if l < 0 || h < l || k < h || k > len(a) {
			m.targetPanicStr("slice bounds out of range")
		}
		return []Value(a)[l:h:k]
	}
	m.badValue(x, "slice")
	return nil
}

func (m *Machine) shift(op token.Token, x, y *Term, xs, ys bool) Value {
	c := m.c
	if ys && !y.IsConst() {
		if m.branch(c.Bin(OpSlt, y, c.BV(0, y.w))) {
			m.targetPanicStr("negative shift amount")
		}
	} else if ys && sext(y.val, y.w) < 0 {
		m.targetPanicStr("negative shift amount")
	}
	// bring the count to the width of x, saturating
	var cnt *Term
	if y.w <= x.w {
		cnt = c.ZExt(y, x.w)
	} else {
		cnt = c.Ite(c.Bin(OpUlt, y, c.BV(uint64(x.w), y.w)), c.Extract(y, x.w-1, 0), c.BV(uint64(x.w), x.w))
	}
	switch {
	case op == token.SHL:
		return c.Bin(OpShl, x, cnt)
	case xs:
		return c.Bin(OpAShr, x, cnt)
	}
	return c.Bin(OpLShr, x, cnt)
}

func (m *Machine) binop(op token.Token, tx, ty types.Type, x, y Value) Value {
	c := m.c
	switch op {
	case token.EQL:
		return m.equal(x, y)
	case token.NEQ:
		return c.Not(m.equal(x, y))
	}
	switch x.(type) {
	case string, *SStr:
		switch op {
		case token.ADD:
			return m.strConcat(x, y)
		case token.LSS:
			return m.strLess(x, y)
		case token.GTR:
			return m.strLess(y, x)
		case token.LEQ:
			return c.Not(m.strLess(y, x))
		case token.GEQ:
			return c.Not(m.strLess(x, y))
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		if p, ok := x.(poison); ok {
			m.unsupported("poison: " + p.why)
		}
		if p, ok := y.(poison); ok {
			m.unsupported("poison: " + p.why)
		}
		m.unsupported(fmt.Sprintf("binop %s %T %T", op, x, y))
	}
	_, xs := numInfo(tx)
	if op == token.SHL || op == token.SHR {
		_, ys := numInfo(ty)
		return m.shift(op, a, b, xs, ys)
	}
	if a.w == wFP {
		f32 := false
		if bt, ok := tx.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			f32 = true
		}
		rd := func(t *Term) Value {
			if f32 {
				return c.Un(OpToF32, t, wFP)
			}
			return t
		}
		switch op {
		case token.ADD:
			return rd(c.Bin(OpFAdd, a, b))
		case token.SUB:
			return rd(c.Bin(OpFSub, a, b))
		case token.MUL:
			return rd(c.Bin(OpFMul, a, b))
		case token.QUO:
			return rd(c.Bin(OpFDiv, a, b))
		case token.LSS:
			return c.Bin(OpFLt, a, b)
		case token.LEQ:
			return c.Bin(OpFLe, a, b)
		case token.GTR:
			return c.Bin(OpFLt, b, a)
		case token.GEQ:
			return c.Bin(OpFLe, b, a)
		}
	}
	lt, le := OpUlt, OpUle
	if xs {
		lt, le = OpSlt, OpSle
	}
	switch op {
	case token.ADD:
		return c.Bin(OpAdd, a, b)
	case token.SUB:
		return c.Bin(OpSub, a, b)
	case token.MUL:
		return c.Bin(OpMul, a, b)
	case token.QUO, token.REM:
		if m.branch(c.Eq(b, c.BV(0, b.w))) {
			m.targetPanicStr("integer divide by zero")
		}
		switch {
		case op == token.QUO && xs:
			return c.Bin(OpSDiv, a, b)
		case op == token.QUO:
			return c.Bin(OpUDiv, a, b)
		case xs:
			return c.Bin(OpSRem, a, b)
		}
		return c.Bin(OpURem, a, b)
	case token.AND:
		if a.w == wBool {
			return c.And(a, b)
		}
		return c.Bin(OpBAnd, a, b)
	case token.OR:
		if a.w == wBool {
			return c.Or(a, b)
		}
		return c.Bin(OpBOr, a, b)
	case token.XOR:
		return c.Bin(OpBXor, a, b)
	case token.AND_NOT:
		return c.Bin(OpBAnd, a, c.Un(OpBNot, b, b.w))
	case token.LSS:
		return c.Bin(lt, a, b)
	case token.LEQ:
		return c.Bin(le, a, b)
	case token.GTR:
		return c.Bin(lt, b, a)
	case token.GEQ:
		return c.Bin(le, b, a)
	}
	m.unsupported("binop " + op.String())
	return nil
}

func (m *Machine) runeToString(t *Term) Value {
	c := m.c
	if t.IsConst() {
		return string(rune(sext(t.val, t.w)))
	}
	t32 := t
	if t.w > 32 {
		t32 = c.Extract(t, 31, 0)
	}
	if m.branch(c.Bin(OpUlt, t32, c.BV(0x80, t32.w))) {
		return m.mkstr(&SStr{b: []*Term{c.Extract(c.Resize(t32, 32, false), 7, 0)}, n: c.BV(1, 64)})
	}
	if t.w == 32 && m.branch(c.Bin(OpUlt, t32, c.BV(0x800, 32))) {
		hi := c.Bin(OpBOr, c.BV(0xC0, 32), c.Bin(OpLShr, t32, c.BV(6, 32)))
		lo := c.Bin(OpBOr, c.BV(0x80, 32), c.Bin(OpBAnd, t32, c.BV(0x3f, 32)))
		return m.mkstr(&SStr{b: []*Term{c.Extract(hi, 7, 0), c.Extract(lo, 7, 0)}, n: c.BV(2, 64)})
	}
	v := m.concretize(t, "rune")
	return string(rune(sext(v, t.w)))
}

func (m *Machine) bytesToString(s []Value) Value {
	if len(s) == 1 {
		if j, ok := s[0].(native); ok && j.kind == "jsonblob" {
			return &SStr{opaque: true, n: m.c.BV(0, 64), tag: j}
		}
		if j, ok := s[0].(native); ok && j.kind == "b64" {
			return &SStr{opaque: true, n: m.c.BV(0, 64), tag: j.v}
		}
	}
	ss := &SStr{b: make([]*Term, len(s)), n: m.c.BV(uint64(len(s)), 64)}
	for i, e := range s {
		t, ok := e.(*Term)
		if !ok {
			m.badValue(e, "byte")
		}
		ss.b[i] = t
	}
	return m.mkstr(ss)
}

func (m *Machine) stringToBytes(v Value) []Value {
	if s, ok := v.(string); ok {
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = m.c.BV(uint64(s[i]), 8)
		}
		return r
	}
	ss := m.sstr(v)
	if ss.opaque {
		if n, ok := ss.tag.(native); ok && n.kind == "jsonblob" {
			return []Value{n}
		}
		if n, ok := ss.tag.(*jnode); ok && n.kind == 'B' {
			return []Value{native{"b64", n}}
		}
		m.unsupported("bytes of opaque string")
	}
	ss = m.fixLen(ss)
	r := make([]Value, len(ss.b))
	for i, b := range ss.b {
		r[i] = b
	}
	return r
}

func (m *Machine) convert(from, to types.Type, x Value) Value {
	if p, ok := x.(poison); ok {
		return p
	}
	c := m.c
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := tu.(*types.Pointer); ok {
		_ = tp
		return x // unsafe.Pointer to pointer
	}
	if sl, ok := tu.(*types.Slice); ok {
		if b, ok := fu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if e, ok := sl.Elem().Underlying().(*types.Basic); ok {
				if e.Kind() == types.Byte {
					return m.stringToBytes(x)
				}
				// []rune
				return m.stringToRunes(x)
			}
		}
		return x
	}
	tb, ok := tu.(*types.Basic)
	if !ok {
		return x
	}
	if tb.Kind() == types.UnsafePointer {
		return x
	}
	if tb.Info()&types.IsString != 0 {
		switch f := fu.(type) {
		case *types.Basic:
			if f.Info()&types.IsString != 0 {
				return x
			}
			if f.Info()&types.IsInteger != 0 {
				t := x.(*Term)
				w, sg := basicWidth(f)
				_ = w
				t = c.Resize(t, 32, sg)
				return m.runeToString(t)
			}
		case *types.Slice:
			s, _ := x.([]Value)
			if e, ok := f.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Byte {
				return m.bytesToString(s)
			}
			var r Value = ""
			for _, e := range s {
				r = m.strConcat(r, m.runeToString(e.(*Term)))
			}
			return r
		}
		return x
	}
	fb, ok := fu.(*types.Basic)
	if !ok {
		if _, isP := x.(*Value); isP && tb.Kind() == types.Uintptr {
			m.unsupported("pointer to uintptr")
		}
		return x
	}
	t, ok := x.(*Term)
	if !ok {
		if tb.Kind() == types.Uintptr {
			m.unsupported("pointer to uintptr")
		}
		m.badValue(x, "convert")
	}
	fw, fs := basicWidth(fb)
	tw, ts := basicWidth(tb)
	switch {
	case fw == wFP && tw == wFP:
		if tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
			return c.Un(OpToF32, t, wFP)
		}
		return t
	case fw == wFP:
		if ts {
			return c.Un(OpFToS, t, tw)
		}
		return c.Un(OpFToU, t, tw)
	case tw == wFP:
		var r *Term
		if fs {
			r = c.Un(OpSToF, t, wFP)
		} else {
			r = c.Un(OpUToF, t, wFP)
		}
		if tb.Kind() == types.Float32 {
			r = c.Un(OpToF32, r, wFP)
		}
		return r
	}
	if tw == 255 || fw == 255 {
		m.unsupported("convert " + from.String() + " to " + to.String())
	}
	return c.Resize(t, tw, fs)
}

func (m *Machine) stringToRunes(x Value) Value {
	var out []Value
	it := &strIter{s: x}
	for {
		ok, _, r := m.strNext(it)
		if !ok {
			break
		}
		out = append(out, r)
	}
	if out == nil {
		out = []Value{}
	}
	return out
}

type strIter struct {
	s   Value
	pos int
}

type mapIter struct {
	order []*mentry
	m     *MapV
	pos   int
	next  int // entries seen
}

func (m *Machine) rangeIter(x Value) Value {
	switch s := x.(type) {
	case string, *SStr:
		return &strIter{s: x}
	case *MapV:
		if s == nil {
			return &mapIter{}
		}
		it := &mapIter{m: s, order: append([]*mentry{}, s.entries...)}
		if m.mapOrder && s.n > 1 {
			// arbitrary order: permute by choices
			live := []*mentry{}
			for _, e := range s.entries {
				if e.live {
					live = append(live, e)
				}
			}
			lim := m.ex.cfg.MapOrderMax
			for i := 0; i < len(live)-1 && i < lim; i++ {
				j := i + m.choose(len(live)-i, "map order")
				live[i], live[j] = live[j], live[i]
			}
			it.order = live
		}
		return it
	}
	m.badValue(x, "range")
	return nil
}

func (m *Machine) strNext(it *strIter) (bool, int, *Term) {
	c := m.c
	if s, ok := it.s.(string); ok {
		if it.pos >= len(s) {
			return false, 0, nil
		}
		r, sz := utf8.DecodeRuneInString(s[it.pos:])
		p := it.pos
		it.pos += sz
		return true, p, c.BV(uint64(r), 32)
	}
	ss := m.sstr(it.s)
	if ss.opaque {
		m.unsupported("range over opaque string")
	}
	if it.pos >= len(ss.b) {
		return false, 0, nil
	}
	if !m.branch(c.Bin(OpUlt, c.BV(uint64(it.pos), 64), ss.n)) {
		return false, 0, nil
	}
	p := it.pos
	r, sz := m.decodeRune(ss, p)
	it.pos += sz
	return true, p, r
}

// decodeRune decodes UTF-8 at position p of a string whose length exceeds p
func (m *Machine) decodeRune(ss *SStr, p int) (*Term, int) {
	c := m.c
	b0 := ss.b[p]
	if m.branch(c.Bin(OpUlt, b0, c.BV(0x80, 8))) {
		return c.ZExt(b0, 32), 1
	}
	bad := c.BV(0xFFFD, 32)
	in := func(b *Term, lo, hi uint64) *Term {
		return c.And(c.Bin(OpUle, c.BV(lo, 8), b), c.Bin(OpUle, b, c.BV(hi, 8)))
	}
	avail := func(k int) bool {
		if p+k >= len(ss.b) {
			return false
		}
		return m.branch(c.Bin(OpUlt, c.BV(uint64(p+k), 64), ss.n))
	}
	bits := func(b *Term, msk uint64, sh uint64) *Term {
		return c.Bin(OpShl, c.ZExt(c.Bin(OpBAnd, b, c.BV(msk, 8)), 32), c.BV(sh, 32))
	}
	or := func(ts ...*Term) *Term {
		r := ts[0]
		for _, t := range ts[1:] {
			r = c.Bin(OpBOr, r, t)
		}
		return r
	}
	if m.branch(in(b0, 0xC2, 0xDF)) {
		if !avail(1) {
			return bad, 1
		}
		b1 := ss.b[p+1]
		if !m.branch(in(b1, 0x80, 0xBF)) {
			return bad, 1
		}
		return or(bits(b0, 0x1f, 6), bits(b1, 0x3f, 0)), 2
	}
	if m.branch(in(b0, 0xE0, 0xEF)) {
		if !avail(1) {
			return bad, 1
		}
		b1 := ss.b[p+1]
		ok := c.And(in(b1, 0x80, 0xBF), c.And(c.Implies(c.Eq(b0, c.BV(0xE0, 8)), in(b1, 0xA0, 0xBF)), c.Implies(c.Eq(b0, c.BV(0xED, 8)), in(b1, 0x80, 0x9F))))
		if !m.branch(ok) {
			return bad, 1
		}
		if !avail(2) {
			return bad, 1
		}
		b2 := ss.b[p+2]
		if !m.branch(in(b2, 0x80, 0xBF)) {
			return bad, 1
		}
		return or(bits(b0, 0xf, 12), bits(b1, 0x3f, 6), bits(b2, 0x3f, 0)), 3
	}
	if m.branch(in(b0, 0xF0, 0xF4)) {
		if !avail(1) {
			return bad, 1
		}
		b1 := ss.b[p+1]
		ok := c.And(in(b1, 0x80, 0xBF), c.And(c.Implies(c.Eq(b0, c.BV(0xF0, 8)), in(b1, 0x90, 0xBF)), c.Implies(c.Eq(b0, c.BV(0xF4, 8)), in(b1, 0x80, 0x8F))))
		if !m.branch(ok) {
			return bad, 1
		}
		if !avail(2) {
			return bad, 1
		}
		b2 := ss.b[p+2]
		if !m.branch(in(b2, 0x80, 0xBF)) {
			return bad, 1
		}
		if !avail(3) {
			return bad, 1
		}
		b3 := ss.b[p+3]
		if !m.branch(in(b3, 0x80, 0xBF)) {
			return bad, 1
		}
		return or(bits(b0, 7, 18), bits(b1, 0x3f, 12), bits(b2, 0x3f, 6), bits(b3, 0x3f, 0)), 4
	}
	return bad, 1
}

func (m *Machine) next(fr *frame, itv Value, in *ssa.Next) Value {
	switch it := itv.(type) {
	case *strIter:
		ok, p, r := m.strNext(it)
		if !ok {
			return tuple{m.c.False, m.c.BV(0, 64), m.c.BV(0, 32)}
		}
		return tuple{m.c.True, m.c.BV(uint64(p), 64), r}
	case *mapIter:
		for it.pos < len(it.order) {
			e := it.order[it.pos]
			it.pos++
			if e.live {
				return tuple{m.c.True, e.k, copyVal(e.v)}
			}
		}
		tt := in.Type().(*types.Tuple)
		r := tuple{m.c.False, nil, nil}
		for i := 1; i < 3; i++ {
			if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				continue
			}
			r[i] = m.zero(tt.At(i).Type())
		}
		return r
	}
	m.badValue(itv, "next")
	return nil
}

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (m *Machine) typeAssert(in *ssa.TypeAssert, x Value) Value {
	it, ok := x.(iface)
	if !ok {
		m.badValue(x, "type assert")
	}
	var good bool
	var v Value
	if ai, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		good = it.t != nil && m.implements(it.t, ai)
		v = it
	} else {
		good = it.t != nil && types.Identical(it.t, in.AssertedType)
		if good {
			v = copyVal(it.v)
		}
	}
	if !good {
		if !in.CommaOk {
			d := "nil"
			if it.t != nil {
				d = it.t.String()
			}
			m.targetPanicStr(fmt.Sprintf("interface conversion: interface is %s, not %s", d, in.AssertedType))
		}
		return tuple{m.zero(in.AssertedType), m.c.False}
	}
	if in.CommaOk {
		return tuple{v, m.c.True}
	}
	return v
}

func (m *Machine) growCap(old, need, esz int) int {
	nc := old
	dbl := old * 2
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	// round the byte size up to a malloc size class
	classes := []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048}
	if esz > 0 {
		bytes := nc * esz
		for _, s := range classes {
			if s >= bytes {
				return s / esz
			}
		}
	}
	return nc
}

var stdSizes = types.SizesFor("gc", "amd64")

func (m *Machine) appendVals(dst []Value, src []Value, elt types.Type) []Value {
	if len(src) == 0 {
		return dst
	}
	n := len(dst) + len(src)
	if n <= cap(dst) {
		r := dst[:n]
		for i, v := range src {
			m.store(&r[len(dst)+i], copyVal(v))
		}
		return r
	}
	esz := 16
	if elt != nil {
		func() {
			defer func() { recover() }()
			esz = int(stdSizes.Sizeof(elt))
		}()
	}
	nc := m.growCap(cap(dst), n, esz)
	if nc < n {
		nc = n
	}
	r := make([]Value, n, nc)
	copy(r, dst)
	for i := range dst {
		r[i] = copyVal(dst[i])
	}
	for i, v := range src {
		r[len(dst)+i] = copyVal(v)
	}
	if elt != nil && nc > n {
		m.fillZero(r[n:nc], elt)
	}
	return r
}

func (m *Machine) builtin(fr *frame, b *ssa.Builtin, args []Value, ci *ssa.CallCommon) Value {
	c := m.c
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		dst, ok := args[0].([]Value)
		if !ok {
			m.badValue(args[0], "append")
		}
		var src []Value
		switch s := args[1].(type) {
		case []Value:
			src = s
		case string, *SStr:
			src = m.stringToBytes(s)
		default:
			m.badValue(args[1], "append")
		}
		var elt types.Type
		if ci != nil {
			if sl, ok := ci.Args[0].Type().Underlying().(*types.Slice); ok {
				elt = sl.Elem()
			}
		}
		return m.appendVals(dst, src, elt)
	case "copy":
		dst := args[0].([]Value)
		var src []Value
		switch s := args[1].(type) {
		case []Value:
			src = s
		default:
			src = m.stringToBytes(s)
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			m.store(&dst[i], tmp[i])
		}
		return c.BV(uint64(n), 64)
	case "len":
		switch x := args[0].(type) {
		case string, *SStr:
			return m.strLen(x)
		case []Value:
			if len(x) == 1 {
				if n, ok := x[0].(native); ok && (n.kind == "jsonblob" || n.kind == "b64") {
					return m.blobLen(n)
				}
			}
			return c.BV(uint64(len(x)), 64)
		case arrayV:
			return c.BV(uint64(len(x)), 64)
		case *Value:
			if x == nil {
				if ci != nil {
					if p, ok := ci.Args[0].Type().Underlying().(*types.Pointer); ok {
						if a, ok := p.Elem().Underlying().(*types.Array); ok {
							return c.BV(uint64(a.Len()), 64)
						}
					}
				}
				m.nilDeref()
			}
			return c.BV(uint64(len((*x).(arrayV))), 64)
		case *MapV:
			if x == nil {
				return c.BV(0, 64)
			}
			return c.BV(uint64(x.n), 64)
		case *ChanV:
			if x == nil {
				return c.BV(0, 64)
			}
			return c.BV(uint64(len(x.buf)), 64)
		}
		m.badValue(args[0], "len")
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return c.BV(uint64(cap(x)), 64)
		case arrayV:
			return c.BV(uint64(len(x)), 64)
		case *ChanV:
			if x == nil {
				return c.BV(0, 64)
			}
			return c.BV(uint64(x.cap), 64)
		case *Value:
			return c.BV(uint64(len((*x).(arrayV))), 64)
		}
		m.badValue(args[0], "cap")
	case "delete":
		mp, ok := args[0].(*MapV)
		if !ok {
			m.badValue(args[0], "delete")
		}
		m.mapDelete(mp, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			m.mapClear(x)
		case []Value:
			if sl, ok := ci.Args[0].Type().Underlying().(*types.Slice); ok {
				for i := range x {
					m.store(&x[i], m.zero(sl.Elem()))
				}
			}
		}
		return nil
	case "close":
		m.chanClose(args[0])
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{v: args[0], trace: m.where()})
	case "recover":
		return m.doRecover(fr)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var less *Term
			t := ci.Args[0].Type()
			less = m.binop(token.LSS, t, t, a, r).(*Term)
			if b.Name() == "max" {
				less = m.binop(token.LSS, t, t, r, a).(*Term)
			}
			at, ok1 := a.(*Term)
			rt, ok2 := r.(*Term)
			if ok1 && ok2 {
				r = c.Ite(less, at, rt)
			} else if m.branch(less) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.nilDeref()
		}
		return args[0]
	case "String": // unsafe.String
		p, ok := args[0].(*Value)
		n := m.concInt(args[1], "unsafe.String")
		if n == 0 {
			return ""
		}
		if ok {
			if s, ok := m.side[p].([]Value); ok && len(s) >= n {
				return m.bytesToString(s[:n])
			}
		}
		m.unsupported("unsafe.String")
	case "Sizeof":
		return c.BV(uint64(types.SizesFor("gc", "amd64").Sizeof(ci.Args[0].Type())), 64)
	case "Alignof":
		return c.BV(uint64(types.SizesFor("gc", "amd64").Alignof(ci.Args[0].Type())), 64)
	case "SliceData":
		s, _ := args[0].([]Value)
		if s == nil {
			return (*Value)(nil)
		}
		if cap(s) == 0 {
			return newCell(nil)
		}
		p := &s[:1][0]
		m.side[p] = s
		return p
	case "StringData":
		s := m.stringToBytes(args[0])
		if len(s) == 0 {
			return newCell(m.c.BV(0, 8))
		}
		p := &s[0]
		m.side[p] = s
		return p
	case "Slice":
		p, ok := args[0].(*Value)
		n := m.concInt(args[1], "unsafe.Slice")
		if ok {
			if s, ok := m.side[p].([]Value); ok && len(s) >= n {
				return s[:n:n]
			}
		}
		m.unsupported("unsafe.Slice")
	}
	m.unsupported("builtin " + b.Name())
	return nil
}

func (m *Machine) doRecover(fr *frame) Value {
	// recover is called by a deferred function: the frame whose defers run is its caller
	if fr != nil && fr.caller != nil && fr.caller.panicking {
		c := fr.caller
		if tp, ok := c.panicVal.(targetPanic); ok {
			c.panicking = false
			c.panicVal = nil
			if it, ok := tp.v.(iface); ok {
				return it
			}
			return iface{t: types.Typ[types.String], v: "panic"}
		}
	}
	return iface{}
}
