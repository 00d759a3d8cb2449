package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// HarnessCfg bounds the exploration of one harness
type HarnessCfg struct {
	MaxConc     int
	MaxSteps    int
	MaxDepth    int
	MapOrderMax int
	Preempt     int
	Simul       bool // timers that expire at the same time can fire together
	Delays      int  // delays of runnable goroutines explored, all when negative
	Epoch       int64
	Horizon     int64
	FrozenClock bool
	MaxTimers   int
	MaxPaths    int
	Thorough    bool
	Deadlock    bool // a deadlock of the modelled goroutines is a violation
	Known       map[string]bool
	SolverMs    int
	Seconds     int
	Workers     int
	Samples     int
}

func defaultCfg() HarnessCfg {
	return HarnessCfg{MaxConc: 300, MaxSteps: 3000000, MaxDepth: 250, MapOrderMax: 3, Epoch: 1700000000000000000,
		Horizon: 100 * 365 * 24 * 3600 * 1000000000, MaxTimers: 300, Delays: -1, MaxPaths: 200000, SolverMs: 10000, Seconds: 60, Workers: 8, Samples: 24}
}

// Stats are summed over the machines of a run
type Stats struct {
	Paths, Done, Infeasible, Budget int
	Steps                           int64
	Queries, Sat, Unsat, Unknown    int
	SolverErrors                    int
	SolverS, MaxQueryS, WallS       float64
	Asserts                         map[string]int
	AssertUnknown                   int
	Unsupported                     map[string]int
	Reached                         map[string]int
	Funcs                           map[string]int
	Exhausted                       bool
	Deadlocks                       int
}

func newMachine(prog *ssa.Program, ex *Explorer, id int) *Machine {
	m := &Machine{prog: prog, ex: ex, id: id, c: NewCtx(), globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]int{},
		infos: map[*ssa.Function]*fnInfo{}, intr: map[*ssa.Function]intrinsic{}, funcs: map[*ssa.Function]int{}}
	m.s = NewSolver(solverBin, ex.cfg.SolverMs, 0)
	return m
}

var solverBin = "z3-new"

func newExplorer(cfg HarnessCfg, seed uint64) *Explorer {
	e := &Explorer{cfg: cfg, unsup: map[string]int{}, knownHit: map[string]*Violation{}, reached: map[string]int{}, asserts: map[string]int{}, seed: seed, rnd: seed*2862933555777941757 + 3037000493}
	e.cond = sync.NewCond(&e.mu)
	e.deadline = time.Now().Add(time.Duration(cfg.Seconds) * time.Second)
	return e
}

func (e *Explorer) rand() uint64 {
	e.rnd ^= e.rnd << 13
	e.rnd ^= e.rnd >> 7
	e.rnd ^= e.rnd << 17
	return e.rnd
}

// explore runs a harness over all its paths
func explore(prog *ssa.Program, fn *ssa.Function, cfg HarnessCfg, seed uint64) (*Explorer, *Stats) {
	t0 := time.Now()
	e := newExplorer(cfg, seed)
	e.stack = []Item{{model: Model{}}}
	st := &Stats{Asserts: e.asserts, Unsupported: e.unsup, Reached: e.reached, Funcs: map[string]int{}}
	var wg sync.WaitGroup
	var smu sync.Mutex
	for i := 0; i < cfg.Workers; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			var m *Machine
			collect := func() {
				if m == nil {
					return
				}
				smu.Lock()
				defer smu.Unlock()
				st.Steps += m.totalSteps
				st.Queries += m.s.Queries
				st.Sat += m.s.NSat
				st.Unsat += m.s.NUnsat
				st.Unknown += m.s.Unknowns
				st.SolverErrors += m.s.Errors
				st.SolverS += m.s.Time.Seconds()
				st.MaxQueryS = math.Max(st.MaxQueryS, m.s.MaxQuery.Seconds())
				for f, n := range m.funcs {
					st.Funcs[f.String()] += n
				}
				m.s.Close()
				m = nil
			}
			defer collect()
			for {
				it, ok := e.next()
				if !ok {
					return
				}
				if m != nil && m.c.Size() > 4000000 {
					collect()
				}
				if m == nil {
					m = newMachine(prog, e, id)
				}
				m.runPath(it, fn)
				e.finish()
			}
		}(i)
	}
	wg.Wait()
	st.Paths = e.paths
	st.Done = e.doneN
	st.Infeasible = e.infeas
	st.Budget = e.budgetHits
	st.AssertUnknown = e.assertUnk
	st.Exhausted = len(e.stack) == 0 && !e.limitHit
	st.WallS = time.Since(t0).Seconds()
	return e, st
}

func (e *Explorer) next() (Item, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop || time.Now().After(e.deadline) {
			if len(e.stack) > 0 {
				e.limitHit = true
			}
			e.cond.Broadcast()
			return Item{}, false
		}
		if len(e.stack) > 0 {
			if e.paths >= e.cfg.MaxPaths {
				e.limitHit = true
				e.stop = true
				continue
			}
			// mostly depth first, now and then the oldest prefix for spread
			k := len(e.stack) - 1
			if e.paths%4 == 3 {
				k = 0
			} else if e.paths%4 == 1 {
				k = int(e.rand() % uint64(len(e.stack)))
			}
			it := e.stack[k]
			e.stack = append(e.stack[:k], e.stack[k+1:]...)
			e.running++
			e.paths++
			return it, true
		}
		if e.running == 0 {
			e.cond.Broadcast()
			return Item{}, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) finish() {
	e.mu.Lock()
	e.running--
	e.mu.Unlock()
	e.cond.Broadcast()
}

func (m *Machine) resetPath(it Item) {
	m.undoTo(0)
	m.s.Reset()
	m.prefix = it.prefix
	m.pos = 0
	m.trace = make([]Decision, 0, len(it.prefix)+16)
	m.model = it.model
	m.ev = nil
	if len(it.prefix) == 0 && it.model != nil {
		m.ev = NewEvaluator(it.model)
	}
	m.pc = m.pc[:0]
	m.pcSet = map[*Term]bool{}
	m.constKnown = map[*Term]uint64{}
	m.sent = 0
	m.steps = 0
	m.inputs = nil
	m.nvars = 0
	m.pathVars = nil
	m.obs = nil
	m.depth = 0
	m.side = map[*Value]interface{}{}
	m.locSt = nil
	m.noFork = 0
	m.specGuard = nil
	m.mapOrder = false
	m.viols = 0
	m.schedDep = false
	m.nowTerm = nil
	m.ufs = map[string][]ufEnt{}
	m.ids = 0
	m.preempts = 0
	m.hookVals = map[string]Value{}
	m.env = map[string]Value{}
	m.initMode = false
	m.known = nil
	m.sched = newScheduler(m)
}

func (m *Machine) runPath(it Item, fn *ssa.Function) {
	m.resetPath(it)
	e := m.ex
	err := m.sched.run(func() { m.callSSA(nil, fn, nil, nil) })
	m.totalSteps += int64(m.steps)
	e.mu.Lock()
	if d := len(m.trace); d > e.maxDepth {
		e.maxDepth = d
	}
	e.mu.Unlock()
	switch x := err.(type) {
	case nil:
		e.mu.Lock()
		e.doneN++
		want := !m.schedDep && len(m.obs) > 0 && e.wantSample()
		e.mu.Unlock()
		if want {
			m.sample()
		}
	case targetPanic:
		m.safely(func() {
			if m.ensureModel() {
				v := m.mkViolation("panic: "+m.showVal(x.v), m.model, "panic")
				v.Trace = x.trace
				m.report(v)
			}
		})
		e.mu.Lock()
		e.doneN++
		e.mu.Unlock()
	case pathAbort:
		switch x.kind {
		case abInfeasible:
			e.mu.Lock()
			e.infeas++
			e.mu.Unlock()
		case abBudget:
			e.mu.Lock()
			e.budgetHits++
			e.unsup["budget: "+x.why]++
			e.mu.Unlock()
		case abDone:
			// a lock nobody will ever release is a deadlock of the code whatever
			// the harness is about; other blocking only where the harness says so
			if e.cfg.Deadlock || strings.HasPrefix(x.why, "deadlock: ") && (strings.Contains(x.why, ": lock]") || strings.Contains(x.why, ": rlock]")) {
				m.safely(func() {
					if m.ensureModel() {
						m.report(m.mkViolation(x.why, m.model, "deadlock"))
					}
				})
			}
			e.mu.Lock()
			e.doneN++
			e.unsup["blocked: "+x.why]++
			e.mu.Unlock()
		case abDeadline:
			e.mu.Lock()
			e.limitHit = true
			e.mu.Unlock()
		case abKill:
		default:
			e.mu.Lock()
			e.unsup[x.why]++
			e.mu.Unlock()
		}
	default:
		e.mu.Lock()
		e.unsup["engine: "+fmt.Sprint(err)]++
		e.mu.Unlock()
	}
}

func (m *Machine) safely(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if verbose {
				fmt.Println("safely:", r)
			}
		}
	}()
	f()
}

// wantSample decides whether to keep this path for differential validation
func (e *Explorer) wantSample() bool {
	n := e.cfg.Samples
	if len(e.samples) < n {
		return true
	}
	return e.rand()%uint64(e.doneN+1) < uint64(n)
}

func (m *Machine) sample() {
	m.safely(func() {
		if !m.ensureModel() {
			return
		}
		ps := pathSample{inputs: m.concreteInputs(m.model)}
		for _, o := range m.obs {
			var s string
			if it, ok := o.v.(iface); ok {
				s = m.obsString(it, nil, m.ev)
			} else {
				s = m.obsString(o.v, nil, m.ev)
			}
			ps.obs = append(ps.obs, ReplayObs{o.label, s})
		}
		e := m.ex
		e.mu.Lock()
		defer e.mu.Unlock()
		if len(e.samples) < e.cfg.Samples {
			e.samples = append(e.samples, ps)
		} else {
			e.samples[e.rand()%uint64(len(e.samples))] = ps
		}
	})
}

func (m *Machine) concreteInputs(md Model) []ReplayInput {
	ev := NewEvaluator(md)
	var out []ReplayInput
	for _, in := range m.inputs {
		r := ReplayInput{Name: in.Name, Kind: in.Kind}
		switch in.Kind {
		case "bool":
			r.Bool = ev.Eval(in.term) == 1
		case "int":
			v := ev.Eval(in.term)
			if in.sign {
				r.Int = sext(v, in.width)
			} else {
				r.Int = int64(v)
			}
		case "float":
			r.Int = int64(ev.Eval(in.term))
		case "string":
			r.Str = []byte(m.evalStr(in.str, ev))
		case "pick":
			v := int(ev.Eval(in.term))
			if v < len(in.opts) {
				r.Str = []byte(in.opts[v])
			}
		case "choice":
			r.Int = int64(in.conc)
		}
		out = append(out, r)
	}
	return out
}

func (m *Machine) mkViolation(msg string, md Model, kind string) *Violation {
	if md == nil {
		md = Model{}
	}
	return &Violation{Msg: msg, Inputs: m.concreteInputs(md), Kind: kind, SchedDep: m.schedDep, Where: m.where(), Trace: m.traceString()}
}

func (m *Machine) traceString() string {
	var sb strings.Builder
	for _, d := range m.trace {
		if d.Kind == 'c' {
			fmt.Fprintf(&sb, "c%d ", d.V)
		}
	}
	return sb.String()
}

// report records a violation, a few per message
func (m *Machine) report(v *Violation) {
	e := m.ex
	e.mu.Lock()
	defer e.mu.Unlock()
	n := 0
	for _, o := range e.violations {
		if o.Msg == v.Msg && o.SchedDep == v.SchedDep {
			n++
		}
	}
	if n >= 4 {
		return
	}
	e.violations = append(e.violations, v)
	if len(e.violations) > 40 {
		e.stop = true
	}
}

func (e *Explorer) noteKnown(id string, v *Violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if _, ok := e.knownHit[id]; !ok {
		v.Known = id
		e.knownHit[id] = v
	}
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
