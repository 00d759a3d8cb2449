package main

import (
	"fmt"
	"go/types"
	"runtime/debug"

	"golang.org/x/tools/go/ssa"
)

// gor is a goroutine of the program under test
type gor struct {
	id      int
	name    string
	fr      *frame
	resume  chan bool // true: run, false: die
	done    bool
	ready   func() bool // nil when runnable
	what    string
	timer   bool // a virtual timer, runs when time passes
	timerFn func()
	due     *Term
	stopped bool
	wasDead bool
}

// scheduler runs goroutines one at a time, every switch is a decision of the path
type scheduler struct {
	m       *Machine
	gs      []*gor
	cur     *gor
	main    *gor
	yieldCh chan schedMsg
	nextID  int
	budget  int // remaining preemptions
	delays  int // remaining delays of goroutines that could run
	multi   bool
	killed  bool
}

type schedMsg struct {
	g   *gor
	err interface{}
}

func newScheduler(m *Machine) *scheduler {
	s := &scheduler{m: m, yieldCh: make(chan schedMsg)}
	s.main = &gor{id: 0, name: "main", resume: make(chan bool)}
	s.gs = []*gor{s.main}
	s.cur = s.main
	s.nextID = 1
	s.budget = m.ex.cfg.Preempt
	s.delays = m.ex.cfg.Delays
	return s
}

// spawn starts a goroutine
func (s *scheduler) spawn(fr *frame, fn Value, args []Value, name string) *gor {
	m := s.m
	if m.initMode {
		m.unsupported("go in init")
	}
	if m.locSt != nil {
		m.fail(abMergeFail, "go in merged call")
	}
	g := &gor{id: s.nextID, name: name, resume: make(chan bool)}
	s.nextID++
	s.gs = append(s.gs, g)
	s.multi = true
	go s.body(g, func() { m.call(nil, fn, args) })
	m.schedPoint("go " + name)
	return g
}

func (s *scheduler) body(g *gor, f func()) {
	if !<-g.resume {
		s.yieldCh <- schedMsg{g, pathAbort{abKill, ""}}
		return
	}
	var err interface{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case goexit:
				case targetPanic, pathAbort:
					err = x
				default:
					err = fmt.Sprintf("%v\n%s", r, debug.Stack())
				}
			}
		}()
		f()
	}()
	g.done = true
	if s.killed || err != nil {
		if err == nil {
			err = pathAbort{abKill, ""}
		}
		s.yieldCh <- schedMsg{g, err}
		return
	}
	// hand over to another goroutine
	var n *gor
	func() {
		defer func() {
			if r := recover(); r != nil {
				err = r
			}
		}()
		n = s.pick(g, true)
	}()
	if err == nil && n == nil {
		err = pathAbort{abDone, "deadlock: " + s.describe()}
	}
	if err != nil {
		s.yieldCh <- schedMsg{g, err}
		return
	}
	s.cur = n
	n.resume <- true
}

func (g *gor) runnable() bool {
	return !g.done && !g.stopped && (g.ready == nil || g.ready())
}

// pick chooses who runs next, g is the goroutine that stops running
func (s *scheduler) pick(g *gor, mustSwitch bool) *gor {
	for {
		var run []*gor
		for _, x := range s.gs {
			if x.timer {
				continue
			}
			if x.runnable() {
				run = append(run, x)
			}
		}
		var timers []*gor
		for _, x := range s.gs {
			if x.timer && !x.done && !x.stopped {
				timers = append(timers, x)
			}
		}
		if len(run) == 0 {
			if len(timers) == 0 {
				return nil
			}
			if !s.m.stepTime() {
				panic(pathAbort{abBudget, "more timers expired than the limit"})
			}
			t := s.firstTimer(timers)
			t.done = true
			t.timerFn()
			if s.m.ex.cfg.Simul {
				// others that expire at the same time, together with this one or after what it caused
				for _, o := range timers {
					if o != t && !o.done && !o.stopped && s.m.branch(s.m.c.Eq(o.due, t.due)) && s.choose(2) == 0 {
						o.done = true
						o.timerFn()
					}
				}
			}
			continue
		}
		if len(run) == 1 {
			return run[0]
		}
		n := len(run)
		if s.delays >= 0 && n > s.delays+1 {
			n = s.delays + 1
		}
		if n == 1 {
			return run[0]
		}
		k := s.choose(n)
		if s.delays >= 0 {
			s.delays -= k
		}
		return run[k]
	}
}

func (s *scheduler) firstTimer(ts []*gor) *gor {
	m := s.m
	best := ts[0]
	for _, t := range ts[1:] {
		if m.branch(m.c.Bin(OpSlt, t.due, best.due)) {
			best = t
		}
	}
	// virtual time advances to the deadline
	if m.nowTerm != nil && m.nowTerm.w == 64 {
		if m.branch(m.c.Bin(OpSlt, m.nowTerm, best.due)) {
			m.nowTerm = best.due
		}
	}
	return best
}

func (s *scheduler) choose(n int) int {
	k := s.m.choose(n, "schedule")
	if n > 1 {
		s.m.schedDep = true
	}
	return k
}

// schedPoint is a place where another goroutine may run first
func (m *Machine) schedPoint(what string) {
	s := m.sched
	if s == nil || !s.multi || m.initMode || m.locSt != nil {
		return
	}
	if s.budget <= 0 {
		return
	}
	cur := s.cur
	var others []*gor
	for _, x := range s.gs {
		if x != cur && !x.timer && x.runnable() {
			others = append(others, x)
		}
	}
	if len(others) == 0 {
		return
	}
	k := s.choose(len(others) + 1)
	if k == 0 {
		return
	}
	s.budget--
	s.switchTo(others[k-1])
}

func (s *scheduler) switchTo(n *gor) {
	cur := s.cur
	s.cur = n
	n.resume <- true
	if !<-cur.resume {
		panic(pathAbort{abKill, ""})
	}
}

// block waits until ready() holds
func (m *Machine) block(what string, ready func() bool) {
	if m.initMode {
		m.unsupported("blocking in init: " + what)
	}
	if m.locSt != nil {
		m.fail(abMergeFail, "block")
	}
	s := m.sched
	cur := s.cur
	for !ready() {
		cur.ready = ready
		cur.what = what
		n := s.pick(cur, true)
		if n == nil {
			// nobody can run: a deadlock of the modelled goroutines
			panic(pathAbort{abDone, "deadlock: " + s.describe()})
		}
		if n != cur {
			s.switchTo(n)
		}
		cur.ready = nil
	}
	cur.ready = nil
}

func (s *scheduler) describe() string {
	r := ""
	for _, g := range s.gs {
		if !g.done && !g.timer {
			r += fmt.Sprintf("[%d %s: %s]", g.id, g.name, g.what)
		}
	}
	return r
}

// quiesce runs all other goroutines until they are done or blocked
func (m *Machine) quiesce() {
	s := m.sched
	if s == nil || !s.multi {
		return
	}
	cur := s.cur
	m.block("quiesce", func() bool {
		for _, x := range s.gs {
			if x == cur || x.timer || x.done || x.what == "quiesce" {
				continue
			}
			if x.runnable() {
				return false
			}
		}
		return true
	})
}

// run executes f as the main goroutine and cleans up the others
func (s *scheduler) run(f func()) (err interface{}) {
	go func() {
		if !<-s.main.resume {
			s.yieldCh <- schedMsg{s.main, pathAbort{abKill, ""}}
			return
		}
		var e interface{}
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch x := r.(type) {
					case targetPanic, pathAbort:
						e = x
					case goexit:
					default:
						e = fmt.Sprintf("%v\n%s", r, debug.Stack())
					}
				}
			}()
			f()
		}()
		s.main.done = true
		s.yieldCh <- schedMsg{s.main, e}
	}()
	s.main.resume <- true
	msg := <-s.yieldCh
	err = msg.err
	if msg.g != nil {
		msg.g.done = true
		msg.g.wasDead = true
	}
	s.killed = true
	for _, g := range s.gs {
		if g == msg.g || g.timer {
			continue
		}
		if g.done {
			continue
		}
		g.resume <- false
		<-s.yieldCh
	}
	return err
}

// channels

type waiter struct {
	g    *gor
	val  Value
	ok   bool
	done *bool
	idx  int
	hit  *int
	rval *Value
	rok  *bool
}

func (m *Machine) asChan(v Value) *ChanV {
	c, ok := v.(*ChanV)
	if !ok {
		m.badValue(v, "channel")
	}
	return c
}

func popLive(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !*w.done {
			return w
		}
	}
	return nil
}

func hasLive(q []*waiter) bool {
	for _, w := range q {
		if !*w.done {
			return true
		}
	}
	return false
}

func fire(w *waiter, v Value, ok bool) {
	*w.done = true
	if w.hit != nil {
		*w.hit = w.idx
	}
	if w.rval != nil {
		*w.rval = v
		*w.rok = ok
	}
}

// trySend attempts a send without blocking
func (m *Machine) trySend(c *ChanV, v Value) bool {
	if c.closed {
		m.targetPanicStr("send on closed channel")
	}
	if w := popLive(&c.recvq); w != nil {
		fire(w, v, true)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (m *Machine) tryRecv(c *ChanV, elem types.Type) (Value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value{}, c.buf[1:]...)
		if w := popLive(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			fire(w, nil, true)
		}
		return v, true, true
	}
	if w := popLive(&c.sendq); w != nil {
		fire(w, nil, true)
		return w.val, true, true
	}
	if c.closed {
		return m.zero(elem), false, true
	}
	return nil, false, false
}

func (m *Machine) chanSend(cv, v Value) {
	c := m.asChan(cv)
	m.schedPoint("send")
	if c == nil {
		m.block("send on nil channel", func() bool { return false })
	}
	v = copyVal(v)
	if m.trySend(c, v) {
		return
	}
	done := false
	w := &waiter{g: m.sched.cur, val: v, done: &done}
	c.sendq = append(c.sendq, w)
	m.block("chan send", func() bool { return done || c.closed })
	if !done {
		m.targetPanicStr("send on closed channel")
	}
}

func (m *Machine) chanRecv(cv Value, elem types.Type) (Value, bool) {
	c := m.asChan(cv)
	m.schedPoint("recv")
	if c == nil {
		m.block("receive on nil channel", func() bool { return false })
	}
	if v, ok, got := m.tryRecv(c, elem); got {
		return v, ok
	}
	done := false
	var rv Value
	var rok bool
	w := &waiter{g: m.sched.cur, done: &done, rval: &rv, rok: &rok}
	c.recvq = append(c.recvq, w)
	m.block("chan receive", func() bool { return done || c.closed })
	if !done {
		done = true
		return m.zero(elem), false
	}
	return rv, rok
}

func (m *Machine) chanClose(cv Value) {
	c := m.asChan(cv)
	if c == nil {
		m.targetPanicStr("close of nil channel")
	}
	if c.closed {
		m.targetPanicStr("close of closed channel")
	}
	m.schedPoint("close")
	c.closed = true
}

func (m *Machine) doSelect(fr *frame, ci *cinstr, in *ssa.Select) Value {
	type sc struct {
		c    *ChanV
		send bool
		v    Value
		elem types.Type
	}
	// operands: chan, value pairs flattened in order
	cases := make([]sc, len(in.States))
	k := 0
	for i, st := range in.States {
		cases[i].c = m.asChan(fr.get(&ci.ops[k]))
		k++
		cases[i].send = st.Dir == types.SendOnly
		cases[i].elem = st.Chan.Type().Underlying().(*types.Chan).Elem()
		// Select.Operands always yields Chan and Send, the latter may be nil
		if k < len(ci.ops) {
			if cases[i].send {
				cases[i].v = copyVal(fr.get(&ci.ops[k]))
			}
			k++
		}
	}
	m.schedPoint("select")
	nrecv := 0
	ridx := map[int]int{}
	for i, s := range cases {
		if !s.send {
			ridx[i] = nrecv
			nrecv++
		}
	}
	result := func(idx int, rv Value, ok bool) Value {
		t := make(tuple, 2+nrecv)
		t[0] = m.c.BV(uint64(int64(idx)), 64)
		t[1] = m.c.Bool(ok)
		for i, s := range cases {
			if !s.send {
				if i == idx {
					t[2+ridx[i]] = rv
				} else {
					t[2+ridx[i]] = m.zero(s.elem)
				}
			}
		}
		return t
	}
	var ready []int
	for i, s := range cases {
		if s.c == nil {
			continue
		}
		if s.send {
			if s.c.closed || hasLive(s.c.recvq) || len(s.c.buf) < s.c.cap {
				ready = append(ready, i)
			}
		} else if len(s.c.buf) > 0 || hasLive(s.c.sendq) || s.c.closed {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[m.sched.choose(len(ready))]
		s := cases[i]
		if s.send {
			m.trySend(s.c, s.v)
			return result(i, nil, false)
		}
		v, ok, _ := m.tryRecv(s.c, s.elem)
		return result(i, v, ok)
	}
	if !in.Blocking {
		return result(-1, nil, false)
	}
	done := false
	hit := -1
	var rv Value
	var rok bool
	for i, s := range cases {
		if s.c == nil {
			continue
		}
		w := &waiter{g: m.sched.cur, done: &done, idx: i, hit: &hit, val: s.v, rval: &rv, rok: &rok}
		if s.send {
			w.rval = nil
			s.c.sendq = append(s.c.sendq, w)
		} else {
			s.c.recvq = append(s.c.recvq, w)
		}
	}
	anyClosed := func() int {
		for i, s := range cases {
			if s.c != nil && s.c.closed {
				return i
			}
		}
		return -1
	}
	m.block("select", func() bool { return done || anyClosed() >= 0 })
	if done {
		if cases[hit].send {
			return result(hit, nil, false)
		}
		return result(hit, rv, rok)
	}
	done = true
	i := anyClosed()
	if cases[i].send {
		m.targetPanicStr("send on closed channel")
	}
	return result(i, m.zero(cases[i].elem), false)
}

// locks

type mutexSt struct {
	writer  bool
	readers int
	owner   *gor
}

func (m *Machine) mutex(p *Value) *mutexSt {
	if p == nil {
		m.nilDeref()
	}
	if s, ok := m.side[p].(*mutexSt); ok {
		return s
	}
	s := &mutexSt{}
	m.side[p] = s
	return s
}

func (m *Machine) lock(p *Value) {
	m.schedPoint("lock")
	s := m.mutex(p)
	if s.writer || s.readers > 0 {
		m.block("lock", func() bool { return !s.writer && s.readers == 0 })
	}
	s.writer = true
	s.owner = m.sched.cur
}

func (m *Machine) unlock(p *Value) {
	s := m.mutex(p)
	if !s.writer {
		m.fatal("sync: unlock of unlocked mutex")
	}
	s.writer = false
	m.schedPoint("unlock")
}

func (m *Machine) rlock(p *Value) {
	m.schedPoint("rlock")
	s := m.mutex(p)
	if s.writer {
		m.block("rlock", func() bool { return !s.writer })
	}
	s.readers++
}

func (m *Machine) runlock(p *Value) {
	s := m.mutex(p)
	if s.readers == 0 {
		m.fatal("sync: RUnlock of unlocked RWMutex")
	}
	s.readers--
	m.schedPoint("runlock")
}

func (m *Machine) fatal(msg string) {
	panic(targetPanic{v: m.runtimeError("fatal error: " + msg), trace: m.where()})
}
