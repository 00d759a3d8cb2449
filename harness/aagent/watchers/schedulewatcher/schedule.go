package schedulewatcher

import (
	"context"
	"sync"
	"time"

	"github.com/choria-io/go-choria/aagent/model"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:clock . internal/util
//verif:replace github.com/choria-io/go-choria/aagent/util.ParseMapStructure verifProperties

// decoding properties uses reflection, this sets what would be decoded
func verifProperties(props map[string]any, target any) error {
	p := target.(*properties)
	p.Schedules = props["schedules"].([]string)
	if d, ok := props["duration"]; ok {
		p.Duration = d.(time.Duration)
	}
	if d, ok := props["start_splay"]; ok {
		p.StartSplay = d.(time.Duration)
	}
	_, p.SkipTriggerOnReenter = props["skip"]
	return nil
}

// verifSched starts at one time
type verifSched struct{ at time.Time }

func (s *verifSched) Next(t time.Time) time.Time {
	if s.at.After(t) {
		return s.at
	}
	return s.at.Add(24 * time.Hour)
}

type verifEvent struct {
	at   time.Time
	name string
}

type verifMachine struct {
	model.Machine
	mu     sync.Mutex
	state  string
	events []verifEvent
}

func (m *verifMachine) Name() string                       { return "m" }
func (m *verifMachine) Identity() string                   { return "i" }
func (m *verifMachine) InstanceID() string                 { return "1" }
func (m *verifMachine) Version() string                    { return "1" }
func (m *verifMachine) TimeStampSeconds() int64            { return 1 }
func (m *verifMachine) Debugf(string, string, ...any)      {}
func (m *verifMachine) Infof(string, string, ...any)       {}
func (m *verifMachine) Warnf(string, string, ...any)       {}
func (m *verifMachine) Errorf(string, string, ...any)      {}
func (m *verifMachine) NotifyWatcherState(_ string, s any) {}

func (m *verifMachine) State() string {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.state
}

func (m *verifMachine) Transition(t string, _ ...any) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.events = append(m.events, verifEvent{nd.Now(), t})
	return nil
}

func (m *verifMachine) sees(i int, name string, from time.Time) {
	nd.Assert(i < len(m.events), "a schedule that started or ended fired no transition")
	e := m.events[i]
	nd.Assert(e.name == name, "the start of a schedule fired the transition for its end or the other way around")
	nd.Assert(nd.And(!e.at.Before(from.Add(-60*time.Millisecond)), !e.at.After(from.Add(560*time.Millisecond))), "a schedule started or ended at the wrong time")
}

func verifMs(name string, lo, hi int) time.Duration {
	return time.Duration(nd.Int(name, lo, hi)) * time.Millisecond
}

//verif:harness prop=W01 reach=overlap,apart,default,stopped deadlock=violation clock=frozen preempt=0 delays=0 samples=2 timers=120 seconds=100 t.delays=1 t.seconds=500
//verif:bounds a watcher that starts 100 to 300 milliseconds into a second with two schedules that start 2 to 5 seconds later and last 1 to 2.5 seconds or the default, overlapping or at least 700 milliseconds apart, seen for 9 seconds
func VerifSchedules() {
	m := &verifMachine{}
	epoch := nd.Now()
	props := map[string]any{"schedules": []string{"1 1 * * *", "2 2 * * *"}}
	length := time.Minute
	dflt := nd.OneOf("duration", "given", "default") == "default"
	if !dflt {
		length = verifMs("length", 1000, 2500)
		props["duration"] = length
	}
	wi, err := New(m, "w", nil, nil, "off", "on", "", 0, props)
	nd.Assert(err == nil, "a watcher could not be made")
	w := wi.(*Watcher)
	nd.Assert(len(w.items) == 2, "a schedule is missing")
	var starts [2]time.Duration
	for i := range starts {
		starts[i] = time.Duration(2+nd.Choice("start", 4)) * time.Second
		w.items[i].sched = &verifSched{epoch.Truncate(time.Second).Add(starts[i])}
	}
	nd.Assume(starts[0] <= starts[1])
	gap := starts[1] - starts[0] - length
	nd.Assume(nd.Or(gap < -60*time.Millisecond, gap > 700*time.Millisecond))

	offset := verifMs("offset", 100, 300)
	time.Sleep(offset)
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	go w.Run(ctx, wg)
	time.Sleep(9 * time.Second)
	cancel()
	wg.Wait()

	// a schedule is noticed in the second before it starts
	first := epoch.Truncate(time.Second).Add(starts[0] - time.Second + offset)
	second := epoch.Truncate(time.Second).Add(starts[1] - time.Second + offset)
	m.sees(0, "on", first)
	switch {
	case dflt:
		nd.Reach("default")
		nd.Assert(len(m.events) == 1, "a schedule without a duration did not last the default of a minute")
		time.Sleep(100 * time.Millisecond)
		nd.Reach("stopped")
	case gap < 0:
		nd.Reach("overlap")
		m.sees(1, "off", second.Add(length))
		nd.Assert(len(m.events) == 2, "overlapping schedules did not act as one")
	default:
		nd.Reach("apart")
		m.sees(1, "off", first.Add(length))
		m.sees(2, "on", second)
		m.sees(3, "off", second.Add(length))
		nd.Assert(len(m.events) == 4, "a schedule fired more transitions than one when it starts and one when it ends")
	}
	nd.Observe("events", len(m.events))
}

//verif:harness prop=W01 reach=skipped,reenter,kept deadlock=violation clock=frozen preempt=0 delays=0 samples=2 timers=120 seconds=100 t.delays=1 t.seconds=500
//verif:bounds a schedule that lasts 1.5 to 2.5 seconds in a watcher for one state of its machine, where the machine leaves that state and comes back up to once at any time at least 600 milliseconds apart from other events, with or without skip_trigger_on_reenter
func VerifStates() {
	m := &verifMachine{state: nd.OneOf("initial", "in", "out")}
	epoch := nd.Now().Truncate(time.Second)
	length := verifMs("length", 1500, 2500)
	props := map[string]any{"schedules": []string{"1 1 * * *"}, "duration": length}
	skip := nd.OneOf("skip", "no", "yes") == "yes"
	if skip {
		props["skip"] = true
	}
	wi, err := New(m, "w", []string{"in"}, nil, "off", "on", "", 0, props)
	nd.Assert(err == nil, "a watcher could not be made")
	w := wi.(*Watcher)
	w.items[0].sched = &verifSched{epoch.Add(2 * time.Second)}
	time.Sleep(200 * time.Millisecond)
	start := epoch.Add(1200 * time.Millisecond)
	end := start.Add(length)
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	go w.Run(ctx, wg)

	// the oracle: what the watcher saw last
	seen, trig, n := "unknown", false, 0
	now := epoch.Add(200 * time.Millisecond)
	started, ended := false, false
	from := now
	saw := func(at time.Time) {
		sched := "unknown"
		if ended {
			sched = "off"
		} else if started {
			sched = "on"
		}
		s := sched
		if m.state == "out" {
			s = "skipped"
			nd.Reach("skipped")
		}
		was := seen
		seen = s
		if s == was || s == "skipped" {
			return
		}
		if s == "on" {
			if skip && trig {
				nd.Reach("kept")
				return
			}
			if trig {
				nd.Reach("reenter")
			}
			trig = true
			m.sees(n, "on", at)
		} else {
			trig = false
			m.sees(n, "off", at)
		}
		n++
	}
	step := func(to time.Time) {
		time.Sleep(to.Sub(now))
		now = to
		m.mu.Lock()
		defer m.mu.Unlock()
		saw(from)
		nd.Assert(len(m.events) == n, "a transition was fired when nothing changed")
	}
	changes := 2
	pos := now
	for i := 0; i < changes; i++ {
		t := pos.Add(verifMs("after", 700, 3000))
		for {
			var next time.Time
			if !started {
				next = start
			} else if !ended {
				next = end
			} else {
				break
			}
			nd.Assume(nd.Or(t.Before(next.Add(-700*time.Millisecond)), t.After(next.Add(700*time.Millisecond))))
			if t.Before(next) {
				break
			}
			step(next.Add(-60 * time.Millisecond))
			if !started {
				started = true
			} else {
				ended = true
			}
			from = next
			step(next.Add(600 * time.Millisecond))
		}
		step(t)
		m.mu.Lock()
		if m.state == "in" {
			m.state = "out"
		} else {
			m.state = "in"
		}
		m.mu.Unlock()
		w.NotifyStateChance()
		from = t
		pos = t
		step(t.Add(100 * time.Millisecond))
	}
	cancel()
	wg.Wait()
	nd.Observe("events", len(m.events))
}

//verif:harness prop=W01 reach=splayed,late deadlock=violation clock=frozen preempt=0 delays=1 samples=2 timers=120 seconds=100 t.delays=2 t.seconds=500
//verif:bounds a schedule that lasts 2 to 3 seconds with a start splay of 500 to 1500 milliseconds, any random delay, stopped while waiting or not
func VerifSplay() {
	m := &verifMachine{}
	epoch := nd.Now().Truncate(time.Second)
	length := verifMs("length", 2000, 3000)
	splay := verifMs("splay", 500, 1500)
	wi, err := New(m, "w", nil, nil, "off", "on", "", 0, map[string]any{"schedules": []string{"1 1 * * *"}, "duration": length, "start_splay": splay})
	if splay > length/2 {
		nd.Assert(err != nil, "a splay of more than half the duration was accepted")
		return
	}
	nd.Assert(err == nil, "a watcher could not be made")
	w := wi.(*Watcher)
	w.items[0].sched = &verifSched{epoch.Add(2 * time.Second)}
	time.Sleep(200 * time.Millisecond)
	start := epoch.Add(1200 * time.Millisecond)
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	go w.Run(ctx, wg)
	if nd.OneOf("stop", "after", "early") == "early" {
		time.Sleep(1010 * time.Millisecond)
		cancel()
		wg.Wait()
		nd.Assert(len(m.events) == 0, "a schedule that was stopped while it waits to start started")
		nd.Observe("events", 0)
		return
	}
	time.Sleep(5500 * time.Millisecond)
	cancel()
	wg.Wait()
	nd.Assert(len(m.events) == 2, "a splayed schedule did not start and end once")
	nd.Assert(m.events[0].name == "on" && m.events[1].name == "off", "a splayed schedule did not start and end")
	on := m.events[0].at.Sub(start)
	nd.Assert(on >= -60*time.Millisecond, "a splayed schedule started early")
	nd.Assert(on <= splay+560*time.Millisecond, "a splayed schedule started later than the splay allows")
	nd.Reach("splayed")
	if on > 600*time.Millisecond {
		nd.Reach("late")
	}
	m.sees(1, "off", start.Add(length))
	nd.Observe("events", 2)
}
