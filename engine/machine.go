package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var verbose bool
var dbgDecide bool

// Decision is one recorded choice of a path
type Decision struct {
	Kind byte // 'b' branch, 'v' concretize value test, 'c' n-way choice
	T    bool
	V    uint64
}

// Item is a path prefix to explore
type Item struct {
	prefix []Decision
	model  Model
}

type abortKind int

const (
	abInfeasible abortKind = iota
	abUnsupported
	abBudget
	abDone
	abDeadline
	abKill
	abMergeFail
)

type pathAbort struct {
	kind abortKind
	why  string
}

// targetPanic is a panic of the program under test
type targetPanic struct {
	v     Value
	trace string
}

type goexit struct{}

// Input is one nondeterministic input of a path in creation order
type Input struct {
	Name  string
	Kind  string // bool,int,string,choice
	term  *Term
	str   *SStr
	conc  uint64
	width uint8
	sign  bool
	opts  []string
}

type obsEnt struct {
	label string
	v     Value
}

// Violation is a failed assertion with its inputs
type Violation struct {
	Harness  string
	Msg      string
	Known    string // id of a known finding when it is in its class
	Inputs   []ReplayInput
	Trace    string
	Kind     string // assert, panic, deadlock
	Where    string
	Replayed string
	Confirm  bool
	SchedDep bool
}

// ReplayInput is the concrete value of an input
type ReplayInput struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Int  int64  `json:"int,omitempty"`
	Str  []byte `json:"str,omitempty"`
	Bool bool   `json:"bool,omitempty"`
}

type ReplayObs struct {
	Label string `json:"label"`
	Val   string `json:"val"`
}

// Machine executes paths, one per worker
type Machine struct {
	prog    *ssa.Program
	ex      *Explorer
	c       *Ctx
	s       *Solver
	id      int
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]int
	infos   map[*ssa.Function]*fnInfo
	intr    map[*ssa.Function]intrinsic
	funcs   map[*ssa.Function]int

	undo     []undoEnt
	initMode bool
	uniq     map[string]*Value // canonical values of package unique

	// per path
	prefix     []Decision
	pos        int
	trace      []Decision
	model      Model
	ev         *Evaluator
	pc         []*Term
	pcSet      map[*Term]bool
	constKnown map[*Term]uint64
	sent       int
	steps      int
	inputs     []*Input
	nvars      int
	obs        []obsEnt
	depth      int
	side       map[*Value]interface{}
	locSt      *localExplore
	sched      *scheduler
	mapOrder   bool
	viols      int
	known      []string
	forks      int
	schedDep   bool
	nowTerm    *Term
	ufs        map[string][]ufEnt
	ids        int
	lastPos    token.Pos
	preempts   int
	hookVals   map[string]Value
	env        map[string]Value
	noFork     int
	specGuard  *Term
	pathVars   []*Term

	totalSteps int64
}

type ufEnt struct {
	args []Value
	res  Value
}

type localExplore struct {
	prefix []Decision
	pos    int
	trace  []Decision
	stack  *[][]Decision
	pc0    int
}

type opnd struct {
	kind uint8 // 0 const 1 reg 2 free 3 global 4 none
	idx  int
	v    Value
	g    *ssa.Global
}

type cinstr struct {
	i   ssa.Instruction
	ops []opnd
	dst int
	x   interface{}
}

type cblock struct {
	ins  []cinstr
	nphi int
}

type fnInfo struct {
	fn      *ssa.Function
	blocks  []cblock
	nregs   int
	recov   int
	regs    map[ssa.Value]int
	regions map[int]*region
}

type frame struct {
	m         *Machine
	info      *fnInfo
	fn        *ssa.Function
	regs      []Value
	env       []Value
	defers    []deferred
	caller    *frame
	result    Value
	panicking bool
	panicVal  interface{}
	block     int
	prev      int
	pos       token.Pos
	g         *gor
}

type deferred struct {
	fn   Value
	args []Value
	ci   *ssa.CallCommon
}

func (m *Machine) unsupported(why string) {
	panic(pathAbort{abUnsupported, why + m.where()})
}

func (m *Machine) where() string {
	if m.sched != nil && m.sched.cur != nil && m.sched.cur.fr != nil {
		f := m.sched.cur.fr
		s := ""
		for i := 0; i < 6 && f != nil; i++ {
			s += " @" + f.fn.String()
			f = f.caller
		}
		return s
	}
	return ""
}

func (m *Machine) fail(kind abortKind, why string) { panic(pathAbort{kind, why}) }

func (m *Machine) runtimeError(msg string) Value {
	if p := m.prog.ImportedPackage("runtime"); p != nil {
		if t := p.Type("errorString"); t != nil {
			return iface{t: t.Type(), v: msg}
		}
	}
	return iface{t: types.Typ[types.String], v: msg}
}

func (m *Machine) targetPanicStr(msg string) {
	msg = strings.TrimPrefix(msg, "runtime error: ")
	panic(targetPanic{v: m.runtimeError(msg), trace: m.where()})
}

func (m *Machine) nilDeref() {
	m.targetPanicStr("invalid memory address or nil pointer dereference")
}

// Solver interplay

func (m *Machine) flush() {
	for m.sent < len(m.pc) {
		m.s.Assert(m.pc[m.sent])
		m.sent++
	}
}

func (m *Machine) addPC(t *Term) {
	if t == m.c.True {
		return
	}
	m.pc = append(m.pc, t)
	m.note(t)
}

func (m *Machine) note(t *Term) {
	m.pcSet[t] = true
	if t.op == OpEq && t.b.op == OpConst {
		m.constKnown[t.a] = t.b.val
	}
	if t.op == OpAnd {
		m.note(t.a)
		m.note(t.b)
	}
	if t.op == OpNot && t.a.op == OpOr {
		m.note(m.c.Not(t.a.a))
		m.note(m.c.Not(t.a.b))
	}
}

// query checks pc and t, returning a model when satisfiable
func (m *Machine) query(t *Term) (Result, Model) {
	if t == m.c.False {
		return Unsat, nil
	}
	if m.ex.expired() {
		m.fail(abDeadline, "deadline")
	}
	m.flush()
	m.s.Push()
	m.s.Assert(t)
	r := m.s.Check()
	var md Model
	if r == Sat {
		var err error
		md, err = m.s.Values(m.pathVars)
		if err != nil {
			r = Unknown
			md = nil
		}
	}
	m.s.Pop()
	return r, md
}

func (m *Machine) setModel(md Model) {
	m.model = md
	if md == nil {
		m.ev = nil
	} else {
		m.ev = NewEvaluator(md)
	}
}

func (m *Machine) known1(cond *Term) (bool, bool) {
	if cond.IsConst() {
		return cond.val == 1, true
	}
	if m.pcSet[cond] {
		return true, true
	}
	if m.pcSet[m.c.Not(cond)] {
		return false, true
	}
	return false, false
}

// branch decides a symbolic condition, forking when both sides are feasible
func (m *Machine) branch(cond *Term) bool {
	if b, ok := m.known1(cond); ok {
		return b
	}
	if m.noFork > 0 && m.specGuard != nil && !m.initMode {
		// speculation may go on when the guard decides the condition
		if r, _ := m.query(m.c.And(m.specGuard, m.c.Not(cond))); r == Unsat {
			return true
		}
		if r, _ := m.query(m.c.And(m.specGuard, cond)); r == Unsat {
			return false
		}
		m.fail(abMergeFail, "fork in speculation")
	}
	return m.decide('b', cond, 0)
}

func (m *Machine) decide(kind byte, cond *Term, val uint64) bool {
	if m.initMode {
		m.unsupported("symbolic branch in init")
	}
	if m.noFork > 0 {
		m.fail(abMergeFail, "fork in speculation")
	}
	if l := m.locSt; l != nil {
		if l.pos < len(l.prefix) {
			d := l.prefix[l.pos]
			l.pos++
			l.trace = append(l.trace, d)
			m.take(cond, d.T)
			return d.T
		}
		t, both := m.sides(cond)
		if both {
			alt := append(append([]Decision{}, l.trace...), Decision{Kind: kind, T: !t, V: val})
			*l.stack = append(*l.stack, alt)
		}
		l.trace = append(l.trace, Decision{Kind: kind, T: t, V: val})
		m.take(cond, t)
		return t
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		if d.Kind != kind {
			m.unsupported("replay of a path prefix diverged")
		}
		m.pos++
		m.trace = append(m.trace, d)
		m.take(cond, d.T)
		if m.pos == len(m.prefix) && m.model != nil {
			m.ev = NewEvaluator(m.model)
		}
		return d.T
	}
	var t bool
	var alt Model
	both := false
	if dbgDecide {
		fmt.Println("DECIDE", m.trace, cond.String(), m.ev != nil, m.where())
	}
	m.forks++
	if m.ev != nil {
		t = m.ev.Eval(cond) == 1
		oc := cond
		if t {
			oc = m.c.Not(cond)
		}
		r, md := m.query(oc)
		both = r != Unsat
		alt = md
	} else {
		r, md := m.query(cond)
		r2, md2 := m.query(m.c.Not(cond))
		switch {
		case r == Unsat && r2 == Unsat:
			m.fail(abInfeasible, "")
		case r == Unsat:
			t = false
			m.setModel(md2)
		case r2 == Unsat:
			t = true
			m.setModel(md)
		default:
			t = true
			m.setModel(md)
			both = true
			alt = md2
		}
	}
	if both {
		p := make([]Decision, len(m.trace)+1)
		copy(p, m.trace)
		p[len(m.trace)] = Decision{Kind: kind, T: !t, V: val}
		m.ex.push(Item{prefix: p, model: alt})
	}
	m.trace = append(m.trace, Decision{Kind: kind, T: t, V: val})
	m.take(cond, t)
	return t
}

// sides tells a feasible direction and if both are, used in local exploration
func (m *Machine) sides(cond *Term) (bool, bool) {
	// the order must not depend on the model at hand: replays must see the same
	hintT, hintF := false, false
	if m.ev != nil {
		ok := true
		for _, t := range m.pc[m.locSt.pc0:] {
			if m.ev.Eval(t) != 1 {
				ok = false
				break
			}
		}
		if ok {
			hintT = m.ev.Eval(cond) == 1
			hintF = !hintT
		}
	}
	if !hintT {
		if r, _ := m.query(cond); r == Unsat {
			return false, false
		}
	}
	if !hintF {
		r2, _ := m.query(m.c.Not(cond))
		return true, r2 != Unsat
	}
	return true, true
}

func (m *Machine) take(cond *Term, t bool) {
	if !t {
		cond = m.c.Not(cond)
	}
	m.addPC(cond)
}

// choose makes an n-way concrete choice
func (m *Machine) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if m.locSt != nil || m.noFork > 0 {
		m.fail(abMergeFail, "choice in merged call")
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		if d.Kind != 'c' {
			m.unsupported("replay of a path prefix diverged")
		}
		m.pos++
		m.trace = append(m.trace, d)
		if m.pos == len(m.prefix) && m.model != nil {
			m.ev = NewEvaluator(m.model)
		}
		return int(d.V)
	}
	m.forks++
	for i := n - 1; i > 0; i-- {
		p := make([]Decision, len(m.trace)+1)
		copy(p, m.trace)
		p[len(m.trace)] = Decision{Kind: 'c', V: uint64(i)}
		m.ex.push(Item{prefix: p, model: m.model})
	}
	m.trace = append(m.trace, Decision{Kind: 'c', V: 0})
	return 0
}

// ensureModel makes sure the model satisfies the path condition
func (m *Machine) ensureModel() bool {
	if m.ev != nil {
		return true
	}
	r, md := m.query(m.c.True)
	if r == Sat {
		m.setModel(md)
		return true
	}
	if r == Unsat {
		m.fail(abInfeasible, "")
	}
	return false
}

// concretize forks over the feasible values of a term
func (m *Machine) concretize(t *Term, what string) uint64 {
	if t.IsConst() {
		return t.val
	}
	if m.initMode {
		m.unsupported("concretize in init")
	}
	if v, ok := m.constKnown[t]; ok {
		return v
	}
	for n := 0; ; n++ {
		if n > m.ex.cfg.MaxConc {
			m.unsupported("too many values for " + what)
		}
		var v uint64
		if l := m.locSt; l != nil {
			if l.pos < len(l.prefix) {
				v = l.prefix[l.pos].V
			} else {
				m.fail(abMergeFail, "concretize "+what)
			}
		} else if m.pos < len(m.prefix) {
			v = m.prefix[m.pos].V
		} else {
			if !m.ensureModel() {
				m.unsupported("solver unknown in concretize")
			}
			v = m.ev.Eval(t)
		}
		if m.decide('v', m.c.Eq(t, m.c.constOf(v, t.w)), v) {
			m.constKnown[t] = v
			return v
		}
	}
}

func (m *Machine) concInt(v Value, what string) int {
	t, ok := v.(*Term)
	if !ok {
		m.unsupported(fmt.Sprintf("concInt %T", v))
	}
	return int(sext(m.concretize(t, what), t.w))
}

// assume restricts the path
func (m *Machine) assume(t *Term) {
	if b, ok := m.known1(t); ok {
		if !b {
			m.fail(abInfeasible, "assume")
		}
		return
	}
	if m.locSt != nil {
		m.addPC(t)
		return
	}
	if m.pos < len(m.prefix) {
		m.addPC(t)
		return
	}
	if m.ev != nil && m.ev.Eval(t) == 1 {
		m.addPC(t)
		return
	}
	r, md := m.query(t)
	if r == Unsat {
		m.fail(abInfeasible, "assume")
	}
	m.setModel(md)
	m.addPC(t)
}

// newVar makes a fresh variable
func (m *Machine) newVar(name string, w uint8) *Term {
	if m.locSt != nil || m.noFork > 0 {
		m.fail(abMergeFail, "nondet in merged call")
	}
	if m.initMode {
		m.unsupported("input in init")
	}
	m.nvars++
	v := m.c.Var(fmt.Sprintf("%d:%s/%d", m.nvars, strings.NewReplacer("|", "_", "\\", "_").Replace(name), w), w)
	m.pathVars = append(m.pathVars, v)
	return v
}

// newRanged makes a fresh variable that is within bounds
func (m *Machine) newRanged(name string, w uint8, lo, hi int64) *Term {
	if m.locSt != nil || m.noFork > 0 {
		m.fail(abMergeFail, "nondet in merged call")
	}
	if m.initMode {
		m.unsupported("input in init")
	}
	m.nvars++
	c := m.c
	v := c.RangedVar(fmt.Sprintf("%d:%s/%d", m.nvars, strings.NewReplacer("|", "_", "\\", "_").Replace(name), w), w, lo, hi)
	m.pathVars = append(m.pathVars, v)
	// not through Bin, which knows the bounds
	m.assume(c.raw(OpAnd, wBool, c.raw(OpSle, wBool, c.BV(uint64(lo), w), v, nil, 0), c.raw(OpSle, wBool, v, c.BV(uint64(hi), w), nil, 0), nil, 0))
	return v
}

// SSA compilation

func (m *Machine) info(fn *ssa.Function) *fnInfo {
	if i, ok := m.infos[fn]; ok {
		return i
	}
	in := &fnInfo{fn: fn, recov: -1, regs: map[ssa.Value]int{}}
	m.infos[fn] = in
	reg := func(v ssa.Value) int {
		r, ok := in.regs[v]
		if !ok {
			r = in.nregs
			in.nregs++
			in.regs[v] = r
		}
		return r
	}
	free := map[ssa.Value]int{}
	for i, f := range fn.FreeVars {
		free[f] = i
	}
	for _, p := range fn.Params {
		reg(p)
	}
	op := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{kind: 4}
		case *ssa.Const:
			return opnd{kind: 0, v: m.constant(x)}
		case *ssa.Global:
			return opnd{kind: 3, g: x}
		case *ssa.Function:
			return opnd{kind: 0, v: x}
		case *ssa.Builtin:
			return opnd{kind: 0, v: x}
		case *ssa.FreeVar:
			return opnd{kind: 2, idx: free[x]}
		}
		return opnd{kind: 1, idx: reg(v)}
	}
	in.blocks = make([]cblock, len(fn.Blocks))
	var buf []*ssa.Value
	for bi, b := range fn.Blocks {
		cb := &in.blocks[bi]
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			if _, ok := ins.(*ssa.Phi); ok {
				cb.nphi++
			}
			ci := cinstr{i: ins, dst: -1}
			buf = ins.Operands(buf[:0])
			ci.ops = make([]opnd, len(buf))
			for i, o := range buf {
				if *o == nil {
					ci.ops[i] = opnd{kind: 4}
				} else {
					ci.ops[i] = op(*o)
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = reg(v)
			}
			if ia, ok := ins.(*ssa.IndexAddr); ok {
				only := true
				for _, r := range *ia.Referrers() {
					if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					if _, ok := r.(*ssa.DebugRef); ok {
						continue
					}
					only = false
				}
				ci.x = only
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	if fn.Recover != nil {
		in.recov = fn.Recover.Index
	}
	return in
}

func (m *Machine) constant(c *ssa.Const) Value {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		return poison{"const " + c.String()}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return m.c.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case b.Info()&types.IsFloat != 0:
		return m.c.F(c.Float64())
	case b.Info()&types.IsInteger != 0:
		w, _ := basicWidth(b)
		if b.Info()&types.IsUnsigned != 0 {
			return m.c.BV(c.Uint64(), w)
		}
		return m.c.BV(uint64(c.Int64()), w)
	}
	return poison{"const " + c.String()}
}

func (fr *frame) get(o *opnd) Value {
	switch o.kind {
	case 0:
		return o.v
	case 1:
		v := fr.regs[o.idx]
		return v
	case 2:
		return fr.env[o.idx]
	case 3:
		return fr.m.global(o.g)
	}
	return nil
}

func (m *Machine) global(g *ssa.Global) *Value {
	if g.Pkg != nil && m.inited[g.Pkg] == 0 {
		m.initPackage(g.Pkg)
	}
	return m.globalCell(g)
}

func (m *Machine) globalCell(g *ssa.Global) *Value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	p := newCell(m.zero(g.Type().Underlying().(*types.Pointer).Elem()))
	m.globals[g] = p
	return p
}

// initPackage runs the initializer of a package once per worker, tolerating
// what the engine cannot execute
func (m *Machine) initPackage(p *ssa.Package) {
	m.inited[p] = 1
	if initSkip[p.Pkg.Path()] {
		return
	}
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	oi := m.initMode
	ol := m.locSt
	os := m.steps
	oc := m.sched.cur.fr
	m.initMode = true
	m.locSt = nil
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(pathAbort); ok {
					if verbose {
						fmt.Println("INIT abort", p.Pkg.Path(), r)
					}
					return
				}
				if tp, ok := r.(targetPanic); ok {
					if verbose {
						fmt.Println("INIT panic", p.Pkg.Path(), m.showVal(tp.v))
					}
					return
				}
				panic(r)
			}
		}()
		m.callSSA(nil, fn, nil, nil)
	}()
	m.initMode = oi
	m.locSt = ol
	m.steps = os
	m.sched.cur.fr = oc
	m.inited[p] = 2
}

var initSkip = map[string]bool{"runtime": true, "internal/runtime/atomic": true, "internal/cpu": true,
	"internal/godebug": true, "crypto/internal/fips140/check": true}

// Explorer shares the work between machines
type Explorer struct {
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []Item
	running  int
	stop     bool
	cfg      HarnessCfg
	deadline time.Time
	limitHit bool

	paths        int
	doneN        int
	infeas       int
	pruned       int
	unsup        map[string]int
	budgetHits   int
	violations   []*Violation
	knownHit     map[string]*Violation
	reached      map[string]int
	asserts      map[string]int
	samples      []pathSample
	assertChecks int
	assertUnk    int
	maxDepth     int
	rnd          uint64
	seed         uint64
}

type pathSample struct {
	inputs []ReplayInput
	obs    []ReplayObs
	panics bool
	desc   string
}

func (e *Explorer) expired() bool { return e.stop || time.Now().After(e.deadline) }

func (e *Explorer) push(i Item) {
	e.mu.Lock()
	e.stack = append(e.stack, i)
	e.mu.Unlock()
	e.cond.Signal()
}
