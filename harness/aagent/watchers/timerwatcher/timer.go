package timerwatcher

import (
	"context"
	"sync"
	"time"

	"github.com/choria-io/go-choria/aagent/model"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:clock .
//verif:replace github.com/choria-io/go-choria/aagent/util.ParseMapStructure verifProperties

// decoding properties uses reflection, this sets what would be decoded
func verifProperties(props map[string]any, target any) error {
	target.(*properties).Timer = props["timer"].(time.Duration)
	return nil
}

type verifMachine struct {
	model.Machine
	mu     sync.Mutex
	state  string
	fired  []time.Time
	watch  *Watcher
	next   string
	states []string
}

func (m *verifMachine) Name() string                       { return "m" }
func (m *verifMachine) Identity() string                   { return "i" }
func (m *verifMachine) InstanceID() string                 { return "1" }
func (m *verifMachine) Version() string                    { return "1" }
func (m *verifMachine) TimeStampSeconds() int64            { return 1 }
func (m *verifMachine) Debugf(string, string, ...any)      {}
func (m *verifMachine) Infof(string, string, ...any)       {}
func (m *verifMachine) Warnf(string, string, ...any)       {}
func (m *verifMachine) Errorf(string, string, ...any)      {}
func (m *verifMachine) NotifyWatcherState(_ string, s any) {}

func (m *verifMachine) State() string {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.state
}

// set changes the state and tells the watcher as the machine would
func (m *verifMachine) set(s string) {
	m.mu.Lock()
	m.state = s
	m.mu.Unlock()
	m.watch.NotifyStateChance()
}

func (m *verifMachine) Transition(t string, _ ...any) error {
	nd.Assert(t == "fail", "another transition than the one configured was fired")
	m.mu.Lock()
	m.fired = append(m.fired, nd.Now())
	next := m.next
	m.mu.Unlock()
	m.set(next)
	return nil
}

//verif:harness prop=W02 reach=fired,stopped,reset,again,idle,ended deadlock=violation clock=frozen preempt=0 delays=2 samples=4 seconds=100 t.delays=4 t.seconds=500
//verif:bounds a timer of 1000 to 1500 milliseconds for a state of a machine that starts in the state or not, with 3 changes of state (4 in thorough) into or out of the state 0 to 700 milliseconds after another (but not within 60 milliseconds of when the timer ends), with a transition to a state that starts the timer again or not, until the watcher is stopped or deleted while the timer runs or not
func VerifTimer() {
	m := &verifMachine{state: nd.OneOf("initial", "on", "off"), next: nd.OneOf("next", "off", "on")}
	length := time.Duration(nd.Int("timer", 1000, 1500)) * time.Millisecond
	wi, err := New(m, "w", []string{"on"}, nil, "fail", "", "", 0, map[string]any{"timer": length})
	nd.Assert(err == nil, "a timer could not be made")
	w := wi.(*Watcher)
	m.watch = w
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)

	// the oracle: when the timer ends, if it runs
	var due time.Time
	running := false
	start := nd.Now()
	var want []time.Time
	at := func(now time.Time, s string) {
		running = s == "on"
		due = now.Add(length)
	}
	at(start, m.state)
	go w.Run(ctx, wg)

	clear := func(t time.Time) {
		if running {
			nd.Assume(nd.Or(t.Before(due.Add(-60*time.Millisecond)), t.After(due.Add(60*time.Millisecond))))
		}
	}
	// passed tells what happens until now
	passed := func(now time.Time) {
		for running && now.After(due) {
			want = append(want, due)
			if len(want) > 1 {
				nd.Reach("again")
			}
			at(due, m.next)
			clear(now)
		}
	}

	n := 3
	if nd.Thorough() {
		n = 4
	}
	now := start
	for i := 0; i < n; i++ {
		d := time.Duration(nd.Int("after", 0, 700)) * time.Millisecond
		clear(now.Add(d))
		if i == 0 {
			// the first state is seen before it changes
			nd.Assume(d > 20*time.Millisecond)
		}
		time.Sleep(d)
		now = now.Add(d)
		passed(now)
		s := nd.OneOf("state", "on", "off")
		switch {
		case running && s == "off":
			nd.Reach("stopped")
		case running:
			nd.Reach("reset")
		}
		at(now, s)
		m.set(s)
	}
	end := nd.OneOf("end", "idle", "stop", "delete")
	if end == "idle" {
		now = now.Add(2300 * time.Millisecond)
		clear(now)
		time.Sleep(2300 * time.Millisecond)
		passed(now)
		nd.Reach("idle")
	} else {
		now = now.Add(100 * time.Millisecond)
		clear(now)
		time.Sleep(100 * time.Millisecond)
		passed(now)
		if running {
			nd.Reach("ended")
		}
	}
	if end == "delete" {
		w.Delete()
	}
	cancel()
	wg.Wait()
	time.Sleep(2 * time.Second)

	m.mu.Lock()
	defer m.mu.Unlock()
	if len(want) > 0 {
		nd.Reach("fired")
	}
	nd.Assert(len(m.fired) >= len(want), "a timer that ended fired no transition")
	nd.Assert(len(m.fired) <= len(want), "a timer fired more than once or after it was stopped")
	for i := range want {
		nd.Assert(m.fired[i].Sub(want[i]) < 60*time.Millisecond && want[i].Sub(m.fired[i]) < 60*time.Millisecond, "a timer fired at another time than when it ends")
	}
	w.mu.Lock()
	nd.Assert(w.state == Stopped, "a stopped timer is reported as running")
	w.mu.Unlock()
	nd.Observe("fired", len(m.fired))
}
