package main

import (
	"fmt"
	"go/types"
	"time"

	"golang.org/x/tools/go/ssa"
)

type wgSt struct{ n int64 }
type onceSt struct{ done, busy bool }
type smapSt struct{ mp *MapV }

func (m *Machine) ptr(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		m.badValue(v, "pointer")
	}
	if p == nil {
		m.nilDeref()
	}
	return p
}

func regSync() {
	pm := func(f func(m *Machine, p *Value)) intrinsic {
		return func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			f(m, m.ptr(a[0]))
			return nil
		}
	}
	reg("(*sync.Mutex).Lock", pm(func(m *Machine, p *Value) { m.lock(p) }))
	reg("(*sync.Mutex).Unlock", pm(func(m *Machine, p *Value) { m.unlock(p) }))
	reg("(*sync.Mutex).TryLock", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		s := m.mutex(m.ptr(a[0]))
		if s.writer || s.readers > 0 {
			return m.c.False
		}
		s.writer = true
		return m.c.True
	})
	reg("(*sync.RWMutex).Lock", pm(func(m *Machine, p *Value) { m.lock(p) }))
	reg("(*sync.RWMutex).Unlock", pm(func(m *Machine, p *Value) { m.unlock(p) }))
	reg("(*sync.RWMutex).RLock", pm(func(m *Machine, p *Value) { m.rlock(p) }))
	reg("(*sync.RWMutex).RUnlock", pm(func(m *Machine, p *Value) { m.runlock(p) }))
	reg("(*sync.Once).Do", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		p := m.ptr(a[0])
		st, ok := m.side[p].(*onceSt)
		if !ok {
			st = &onceSt{}
			m.side[p] = st
		}
		if st.done {
			return nil
		}
		if st.busy {
			m.block("once", func() bool { return st.done })
			return nil
		}
		st.busy = true
		defer func() { st.done = true }()
		m.call(fr, a[1], nil)
		return nil
	})
	wg := func(m *Machine, p *Value) *wgSt {
		st, ok := m.side[p].(*wgSt)
		if !ok {
			st = &wgSt{}
			m.side[p] = st
		}
		return st
	}
	reg("(*sync.WaitGroup).Add", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		st := wg(m, m.ptr(a[0]))
		st.n += int64(m.concInt(a[1], "wg"))
		if st.n < 0 {
			panic(targetPanic{v: iface{t: types.Typ[types.String], v: "sync: negative WaitGroup counter"}, trace: m.where()})
		}
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		st := wg(m, m.ptr(a[0]))
		st.n--
		if st.n < 0 {
			panic(targetPanic{v: iface{t: types.Typ[types.String], v: "sync: negative WaitGroup counter"}, trace: m.where()})
		}
		return nil
	})
	type notifySt struct{ wait, notify uint64 }
	nl := func(m *Machine, p *Value) *notifySt {
		st, ok := m.side[p].(*notifySt)
		if !ok {
			st = &notifySt{}
			m.side[p] = st
		}
		return st
	}
	reg("sync.runtime_notifyListAdd", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		st := nl(m, m.ptr(a[0]))
		st.wait++
		return m.c.BV(st.wait-1, 32)
	})
	reg("sync.runtime_notifyListWait", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		st, t := nl(m, m.ptr(a[0])), a[1].(*Term).val
		m.block("cond", func() bool { return t < st.notify })
		return nil
	})
	reg("sync.runtime_notifyListNotifyAll", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		st := nl(m, m.ptr(a[0]))
		st.notify = st.wait
		m.schedPoint("cond.broadcast")
		return nil
	})
	reg("sync.runtime_notifyListNotifyOne", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		st := nl(m, m.ptr(a[0]))
		if st.notify < st.wait {
			st.notify++
		}
		m.schedPoint("cond.signal")
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		st := wg(m, m.ptr(a[0]))
		m.schedPoint("wg.wait")
		if st.n > 0 {
			m.block("waitgroup", func() bool { return st.n == 0 })
		}
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		st := wg(m, m.ptr(a[0]))
		st.n++
		f := a[1]
		m.sched.spawn(fr, &nativeFn{name: "wg.Go", fn: func(m *Machine, args []Value) Value {
			m.call(nil, f, nil)
			st.n--
			return nil
		}}, nil, "wg.Go")
		return nil
	})
	sm := func(m *Machine, p *Value) *MapV {
		st, ok := m.side[p].(*smapSt)
		if !ok {
			st = &smapSt{mp: newMap()}
			m.side[p] = st
		}
		return st.mp
	}
	reg("(*sync.Map).Load", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		e := m.mapFind(sm(m, m.ptr(a[0])), a[1])
		if e == nil {
			return tuple{iface{}, m.c.False}
		}
		return tuple{e.v, m.c.True}
	})
	reg("(*sync.Map).Store", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		m.mapSet(sm(m, m.ptr(a[0])), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).Delete", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		m.mapDelete(sm(m, m.ptr(a[0])), a[1])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		mp := sm(m, m.ptr(a[0]))
		if e := m.mapFind(mp, a[1]); e != nil {
			return tuple{e.v, m.c.True}
		}
		m.mapSet(mp, a[1], a[2])
		return tuple{a[2], m.c.False}
	})
	reg("(*sync.Map).Range", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		mp := sm(m, m.ptr(a[0]))
		for _, e := range append([]*mentry{}, mp.entries...) {
			if e.live {
				if !m.branch(m.call(fr, a[1], []Value{e.k, e.v}).(*Term)) {
					break
				}
			}
		}
		return nil
	})
	reg("(*sync.Pool).Get", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		p := m.ptr(a[0])
		st := (*p).(structV)
		f := st[len(st)-1]
		if isNilValue(f) {
			return iface{}
		}
		return m.call(fr, f, nil)
	})
	reg("(*sync.Pool).Put", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return nil })

	// atomics
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		t := t
		reg("sync/atomic.Load"+t, func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			m.schedPoint("atomic")
			return m.load(m.ptr(a[0]))
		})
		reg("sync/atomic.Store"+t, func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			m.schedPoint("atomic")
			m.store(m.ptr(a[0]), a[1])
			return nil
		})
		reg("sync/atomic.Add"+t, func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			m.schedPoint("atomic")
			p := m.ptr(a[0])
			r := m.c.Bin(OpAdd, m.load(p).(*Term), a[1].(*Term))
			m.store(p, r)
			return r
		})
		reg("sync/atomic.Swap"+t, func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			m.schedPoint("atomic")
			p := m.ptr(a[0])
			o := m.load(p)
			m.store(p, a[1])
			return o
		})
		reg("sync/atomic.CompareAndSwap"+t, func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			m.schedPoint("atomic")
			p := m.ptr(a[0])
			if m.branch(m.equal(m.load(p), a[1])) {
				m.store(p, a[2])
				return m.c.True
			}
			return m.c.False
		})
		if t == "Uintptr" {
			continue
		}
		ty := "(*sync/atomic." + t + ")."
		fld := func(m *Machine, v Value) *Value {
			s := (*m.ptr(v)).(structV)
			return &s[len(s)-1]
		}
		reg(ty+"Load", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			m.schedPoint("atomic")
			return m.load(fld(m, a[0]))
		})
		reg(ty+"Store", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			m.schedPoint("atomic")
			m.store(fld(m, a[0]), a[1])
			return nil
		})
		reg(ty+"Add", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			m.schedPoint("atomic")
			p := fld(m, a[0])
			r := m.c.Bin(OpAdd, m.load(p).(*Term), a[1].(*Term))
			m.store(p, r)
			return r
		})
		reg(ty+"CompareAndSwap", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			m.schedPoint("atomic")
			p := fld(m, a[0])
			if m.branch(m.equal(m.load(p), a[1])) {
				m.store(p, a[2])
				return m.c.True
			}
			return m.c.False
		})
		reg(ty+"Swap", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			m.schedPoint("atomic")
			p := fld(m, a[0])
			o := m.load(p)
			m.store(p, a[1])
			return o
		})
	}
	bf := func(m *Machine, v Value) *Value {
		s := (*m.ptr(v)).(structV)
		return &s[len(s)-1]
	}
	reg("(*sync/atomic.Bool).Load", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint("atomic")
		return m.c.Not(m.c.Eq(m.load(bf(m, a[0])).(*Term), m.c.BV(0, 32)))
	})
	b32 := func(m *Machine, v Value) Value { return m.c.Ite(v.(*Term), m.c.BV(1, 32), m.c.BV(0, 32)) }
	reg("(*sync/atomic.Bool).Store", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint("atomic")
		m.store(bf(m, a[0]), b32(m, a[1]))
		return nil
	})
	reg("(*sync/atomic.Bool).Swap", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint("atomic")
		p := bf(m, a[0])
		o := m.c.Not(m.c.Eq(m.load(p).(*Term), m.c.BV(0, 32)))
		m.store(p, b32(m, a[1]))
		return o
	})
	reg("(*sync/atomic.Bool).CompareAndSwap", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint("atomic")
		p := bf(m, a[0])
		if m.branch(m.equal(m.load(p), b32(m, a[1]))) {
			m.store(p, b32(m, a[2]))
			return m.c.True
		}
		return m.c.False
	})
	reg("(*sync/atomic.Value).Load", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		p := m.ptr(a[0])
		return m.load(&(*p).(structV)[0])
	})
	reg("(*sync/atomic.Value).Store", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		p := m.ptr(a[0])
		m.store(&(*p).(structV)[0], a[1])
		return nil
	})
	// atomic.Pointer[T]
	reg("(*sync/atomic.Pointer[T]).Load", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		s := (*m.ptr(a[0])).(structV)
		return m.load(&s[len(s)-1])
	})
	reg("(*sync/atomic.Pointer[T]).Store", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		s := (*m.ptr(a[0])).(structV)
		m.store(&s[len(s)-1], a[1])
		return nil
	})
	reg("(*sync/atomic.Pointer[T]).CompareAndSwap", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		s := (*m.ptr(a[0])).(structV)
		p := &s[len(s)-1]
		if m.branch(m.equal(m.load(p), a[1])) {
			m.store(p, a[2])
			return m.c.True
		}
		return m.c.False
	})
}

// time: a Time is {wall: 0 zero time, 1 instant; ext: ns since the unix epoch; loc}

var maxDur = int64(1<<63 - 1)

func (m *Machine) mkTime(ns *Term) Value {
	return structV{m.c.BV(1, 64), ns, (*Value)(nil)}
}

func (m *Machine) zeroTime() Value {
	return structV{m.c.BV(0, 64), m.c.BV(0, 64), (*Value)(nil)}
}

func (m *Machine) timeParts(v Value) (zero bool, ns *Term) {
	s, ok := v.(structV)
	if !ok {
		m.badValue(v, "time")
	}
	w := s[0].(*Term)
	return m.branch(m.c.Eq(w, m.c.BV(0, 64))), s[1].(*Term)
}

func (m *Machine) hostTime(v Value) time.Time {
	z, ns := m.timeParts(v)
	if z {
		return time.Time{}
	}
	if !ns.IsConst() {
		m.unsupported("formatting of symbolic time")
	}
	return time.Unix(0, int64(ns.val)).UTC()
}

func (m *Machine) fromHostTime(t time.Time) Value {
	if t.IsZero() {
		return m.zeroTime()
	}
	return m.mkTime(m.c.BV(uint64(t.UnixNano()), 64))
}

// now gives an arbitrary instant not before the previous one
func (m *Machine) now() *Term {
	if m.nowTerm == nil {
		m.nowTerm = m.c.BV(uint64(m.ex.cfg.Epoch), 64)
	}
	if m.ex.cfg.FrozenClock {
		return m.nowTerm
	}
	v := m.newRanged("now", 64, m.ex.cfg.Epoch, m.ex.cfg.Epoch+m.ex.cfg.Horizon)
	m.inputs = append(m.inputs, &Input{Name: "now", Kind: "int", term: v, width: 64, sign: true})
	c := m.c
	// within the configured horizon of the epoch
	m.assume(c.Bin(OpSle, m.nowTerm, v))
	m.nowTerm = v
	return v
}

// stepTime allows virtual time to advance to the next timer
func (m *Machine) stepTime() bool {
	m.preempts++
	return m.preempts < m.ex.cfg.MaxTimers
}

func (m *Machine) addTimer(name string, d *Term, f func()) *gor {
	if m.nowTerm == nil {
		m.nowTerm = m.c.BV(uint64(m.ex.cfg.Epoch), 64)
	}
	due := m.c.Bin(OpAdd, m.nowTerm, d)
	g := &gor{id: m.sched.nextID, name: name, timer: true, timerFn: f, due: due}
	m.sched.nextID++
	m.sched.gs = append(m.sched.gs, g)
	return g
}

func regTime() {
	c := func(m *Machine) *Ctx { return m.c }
	now := func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return m.mkTime(m.now()) }
	// a clock read outside of the modelled packages is arbitrary and not replayable
	wild := func(m *Machine, fr *frame) Value {
		if fr != nil && fr.fn != nil && fr.fn.Pkg != nil && fr.fn.Pkg.Pkg.Path() == "context" {
			// deadlines of contexts are timers of the modelled clock
			if m.nowTerm == nil {
				m.nowTerm = m.c.BV(uint64(m.ex.cfg.Epoch), 64)
			}
			return m.mkTime(m.nowTerm)
		}
		if m.initMode {
			return m.mkTime(m.c.BV(uint64(m.ex.cfg.Epoch), 64))
		}
		m.schedDep = true
		v := m.newRanged("wildnow", 64, m.ex.cfg.Epoch, m.ex.cfg.Epoch+m.ex.cfg.Horizon)
		return m.mkTime(v)
	}
	reg("time.Now", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return wild(m, fr) })
	reg(ndPath+".Now", now)
	T := "(time.Time)."
	sub := func(m *Machine, x, y Value) *Term {
		zx, nx := m.timeParts(x)
		zy, ny := m.timeParts(y)
		switch {
		case zx && zy:
			return m.c.BV(0, 64)
		case zx:
			return m.c.BV(1<<63, 64)
		case zy:
			return m.c.BV(uint64(maxDur), 64)
		}
		return m.c.Bin(OpSub, nx, ny)
	}
	cmp := func(op Op) func(m *Machine, x, y Value) *Term {
		return func(m *Machine, x, y Value) *Term {
			zx, nx := m.timeParts(x)
			zy, ny := m.timeParts(y)
			a, b := nx, ny
			if zx || zy {
				// the zero time is before every modelled instant
				r := func(z bool) *Term {
					if z {
						return m.c.BV(0, 64)
					}
					return m.c.BV(1, 64)
				}
				a, b = r(zx), r(zy)
			}
			if op == OpEq {
				return m.c.Eq(a, b)
			}
			return m.c.Bin(op, a, b)
		}
	}
	reg(T+"Sub", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return sub(m, a[0], a[1]) })
	reg("time.Since", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return sub(m, wild(m, fr), a[0])
	})
	reg("time.Until", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return sub(m, a[0], wild(m, fr))
	})
	reg(ndPath+".Since", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return sub(m, m.mkTime(m.now()), a[0])
	})
	reg(ndPath+".Until", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return sub(m, a[0], m.mkTime(m.now()))
	})
	reg(T+"Before", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return cmp(OpSlt)(m, a[0], a[1]) })
	reg(T+"After", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return cmp(OpSlt)(m, a[1], a[0]) })
	reg(T+"Equal", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return cmp(OpEq)(m, a[0], a[1]) })
	reg(T+"Compare", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.c.Ite(cmp(OpSlt)(m, a[0], a[1]), m.c.BV(^uint64(0), 64), m.c.Ite(cmp(OpEq)(m, a[0], a[1]), m.c.BV(0, 64), m.c.BV(1, 64)))
	})
	reg(T+"IsZero", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(structV)
		return m.c.Eq(s[0].(*Term), m.c.BV(0, 64))
	})
	reg(T+"Add", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		z, n := m.timeParts(a[0])
		if z {
			d := a[1].(*Term)
			if d.IsConst() && d.val == 0 {
				return m.zeroTime()
			}
			m.unsupported("Add on the zero time")
		}
		return m.mkTime(m.c.Bin(OpAdd, n, a[1].(*Term)))
	})
	reg(T+"AddDate", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		t := m.hostTime(a[0])
		return m.fromHostTime(t.AddDate(m.concInt(a[1], "y"), m.concInt(a[2], "m"), m.concInt(a[3], "d")))
	})
	unix := func(div int64) intrinsic {
		return func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			z, n := m.timeParts(a[0])
			if z {
				if div == 1 {
					return m.c.BV(uint64(time.Time{}.UnixNano()), 64)
				}
				return m.c.BV(uint64(time.Time{}.Unix()*(1000000000/div)), 64)
			}
			if n.IsConst() {
				v := int64(n.val)
				q := v / div
				if v%div < 0 {
					q--
				}
				return m.c.BV(uint64(q), 64)
			}
			if div == 1 {
				return n
			}
			// modelled instants are after the epoch so unsigned division applies
			return m.divConst(n, uint64(div))
		}
	}
	reg(T+"Unix", unix(1000000000))
	reg(T+"UnixMilli", unix(1000000))
	reg(T+"UnixMicro", unix(1000))
	reg(T+"UnixNano", unix(1))
	reg("time.Unix", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		s, n := a[0].(*Term), a[1].(*Term)
		return m.mkTime(c(m).Bin(OpAdd, c(m).Bin(OpMul, s, c(m).BV(1000000000, 64)), n))
	})
	reg("time.UnixMilli", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.mkTime(c(m).Bin(OpMul, a[0].(*Term), c(m).BV(1000000, 64)))
	})
	id := func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] }
	for _, n := range []string{"UTC", "Local", "In", "Round0"} {
		if n == "Round0" {
			continue
		}
		reg(T+n, id)
	}
	trunc := func(round bool) intrinsic {
		return func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			z, n := m.timeParts(a[0])
			d := a[1].(*Term)
			if z || (d.IsConst() && int64(d.val) <= 0) {
				return a[0]
			}
			if n.IsConst() && d.IsConst() {
				if round {
					return m.fromHostTime(m.hostTime(a[0]).Round(time.Duration(d.val)))
				}
				return m.fromHostTime(m.hostTime(a[0]).Truncate(time.Duration(d.val)))
			}
			m.unsupported("Truncate of symbolic time")
			return nil
		}
	}
	reg(T+"Truncate", trunc(false))
	reg(T+"Round", trunc(true))
	reg(T+"Format", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		z, n := m.timeParts(a[0])
		if !z && !n.IsConst() {
			return m.opaqueStr("time format")
		}
		return m.hostTime(a[0]).Format(m.concString(a[1]))
	})
	reg(T+"String", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		z, n := m.timeParts(a[0])
		if !z && !n.IsConst() {
			return m.opaqueStr("time string")
		}
		return m.hostTime(a[0]).String()
	})
	for _, n := range []string{"Hour", "Minute", "Second", "Year", "Day", "YearDay", "Nanosecond"} {
		n := n
		reg(T+n, func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			t := m.hostTime(a[0])
			var v int
			switch n {
			case "Hour":
				v = t.Hour()
			case "Minute":
				v = t.Minute()
			case "Second":
				v = t.Second()
			case "Year":
				v = t.Year()
			case "Day":
				v = t.Day()
			case "YearDay":
				v = t.YearDay()
			case "Nanosecond":
				v = t.Nanosecond()
			}
			return m.c.BV(uint64(v), 64)
		})
	}
	reg(T+"Weekday", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.c.BV(uint64(m.hostTime(a[0]).Weekday()), 64)
	})
	reg(T+"Month", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.c.BV(uint64(m.hostTime(a[0]).Month()), 64)
	})
	reg(T+"Location", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return (*Value)(nil) })
	reg("time.Date", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		i := func(k int) int { return m.concInt(a[k], "date") }
		return m.fromHostTime(time.Date(i(0), time.Month(i(1)), i(2), i(3), i(4), i(5), i(6), time.UTC))
	})
	reg("time.Parse", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		t, err := time.Parse(m.concString(a[0]), m.concString(a[1]))
		if err != nil {
			return tuple{m.zeroTime(), m.mkError(err.Error())}
		}
		return tuple{m.fromHostTime(t), iface{}}
	})
	reg("time.ParseDuration", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(*SStr); ok && s.opaque {
			m.unsupported("ParseDuration of opaque")
		}
		if s, ok := a[0].(string); ok {
			d, err := time.ParseDuration(s)
			if err != nil {
				return tuple{m.c.BV(uint64(d), 64), m.mkError(err.Error())}
			}
			return tuple{m.c.BV(uint64(d), 64), iface{}}
		}
		return m.callSSABody(fr, fn, a)
	})
	reg("(time.Duration).String", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if t.IsConst() {
			return time.Duration(t.val).String()
		}
		return m.opaqueStr("duration")
	})
	reg("time.Sleep", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		fired := false
		m.addTimer("sleep", a[0].(*Term), func() { fired = true })
		m.block("sleep", func() bool { return fired })
		return nil
	})
	mkTimerChan := func(m *Machine) *ChanV {
		m.ids++
		return &ChanV{cap: 1, id: m.ids}
	}
	send := func(m *Machine, ch *ChanV) {
		v := m.mkTime(m.nowTerm)
		if w := popLive(&ch.recvq); w != nil {
			fire(w, v, true)
			return
		}
		if len(ch.buf) < ch.cap {
			ch.buf = append(ch.buf, v)
		}
	}
	reg("time.After", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		ch := mkTimerChan(m)
		m.addTimer("after", a[0].(*Term), func() { send(m, ch) })
		return ch
	})
	type timerSt struct {
		g  *gor
		ch *ChanV
		f  Value
		d  *Term
	}
	newTimer := func(m *Machine, fn *ssa.Function, ch *ChanV, f Value, d *Term, periodic bool) Value {
		pt := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		cell := newCell(m.zero(pt))
		st := (*cell).(structV)
		if ch != nil {
			st[0] = ch
		}
		ts := &timerSt{ch: ch, f: f, d: d}
		m.side[cell] = ts
		var fireFn func()
		fireFn = func() {
			if ch != nil {
				send(m, ch)
			} else {
				g := m.sched
				fv := f
				ng := &gor{id: g.nextID, name: "timer func", resume: make(chan bool)}
				g.nextID++
				g.gs = append(g.gs, ng)
				g.multi = true
				go g.body(ng, func() { m.call(nil, fv, nil) })
			}
			if periodic {
				d := ts.d
				if ch != nil && len(ch.buf) == ch.cap {
					// nobody takes the ticks, most would be dropped
					min := m.c.BV(100000000, 64)
					d = m.c.Ite(m.c.Bin(OpSlt, d, min), min, d)
				}
				ts.g = m.addTimer("tick", d, fireFn)
			}
		}
		ts.g = m.addTimer("timer", d, fireFn)
		return cell
	}
	reg("time.NewTimer", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return newTimer(m, fn, mkTimerChan(m), nil, a[0].(*Term), false)
	})
	reg("time.NewTicker", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if d := a[0].(*Term); m.branch(m.c.Bin(OpSle, d, m.c.BV(0, d.w))) {
			m.targetPanicStr("non-positive interval for NewTicker")
		}
		return newTimer(m, fn, mkTimerChan(m), nil, a[0].(*Term), true)
	})
	reg("time.AfterFunc", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return newTimer(m, fn, nil, a[1], a[0].(*Term), false)
	})
	stop := func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		p := m.ptr(a[0])
		st, ok := m.side[p].(*timerSt)
		if !ok {
			m.unsupported("Stop of unknown timer")
		}
		was := !st.g.done && !st.g.stopped
		st.g.stopped = true
		if st.ch != nil {
			st.ch.buf = nil
		}
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return m.c.Bool(was)
	}
	reg("(*time.Timer).Stop", stop)
	reg("(*time.Ticker).Stop", stop)
	reset := func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		p := m.ptr(a[0])
		st, ok := m.side[p].(*timerSt)
		if !ok {
			m.unsupported("Reset of unknown timer")
		}
		if d := a[1].(*Term); fn.Signature.Results().Len() == 0 && m.branch(m.c.Bin(OpSle, d, m.c.BV(0, d.w))) {
			m.targetPanicStr("non-positive interval for Ticker.Reset")
		}
		was := !st.g.done && !st.g.stopped
		f := st.g.timerFn
		st.g.stopped = true
		if st.ch != nil {
			st.ch.buf = nil
		}
		st.d = a[1].(*Term)
		st.g = m.addTimer("timer", a[1].(*Term), f)
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return m.c.Bool(was)
	}
	reg("(*time.Timer).Reset", reset)
	reg("(*time.Ticker).Reset", reset)
	for _, n := range []string{"Sleep", "After", "NewTimer", "NewTicker", "AfterFunc"} {
		reg(ndPath+"."+n, intrinsics["time."+n])
	}
	reg(ndPath+".Hours", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return nil })
	_ = fmt.Sprint
}

// divConst divides a non negative term by a constant through a fresh quotient
func (m *Machine) divConst(n *Term, d uint64) *Term {
	c := m.c
	if n.IsConst() {
		return c.BV(n.val/d, n.w)
	}
	// n = k*d folds directly
	if n.op == OpMul && n.b.IsConst() && n.b.val == d {
		return n.a
	}
	if n.op == OpAdd && n.a.op == OpMul && n.a.b.IsConst() && n.a.b.val == d && n.b.IsConst() && n.b.val%d == 0 {
		return c.Bin(OpAdd, n.a.a, c.BV(n.b.val/d, n.w))
	}
	return c.Bin(OpUDiv, n, c.BV(d, n.w))
}

// callSSABody runs the real body of a function that has an intrinsic
func (m *Machine) callSSABody(fr *frame, fn *ssa.Function, a []Value) Value {
	old := m.intr[fn]
	m.intr[fn] = nil
	defer func() { m.intr[fn] = old }()
	return m.callSSA(fr, fn, a, nil)
}
