package machine

import (
	"context"
	"errors"
	"sync"
	"time"

	"github.com/choria-io/go-choria/aagent/watchers"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with backoff/fixed.go
//verif:clock . backoff

type verifManager struct {
	mu      sync.Mutex
	changes int
	runs    int
	deleted int
	ctx     context.Context
	fail    bool
}

func (w *verifManager) Run(ctx context.Context, wg *sync.WaitGroup) error {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.runs++
	w.ctx = ctx
	if w.fail {
		return errors.New("simulated")
	}
	return nil
}
func (w *verifManager) NotifyStateChance() {
	w.mu.Lock()
	w.changes++
	w.mu.Unlock()
}
func (w *verifManager) SetMachine(any) error           { return nil }
func (w *verifManager) WatcherState(string) (any, bool) { return nil, false }
func (w *verifManager) Delete()                        { w.deleted++ }

type verifSeen struct{ event, from, to string }

type verifNotifier struct {
	NotificationService
	seen []verifSeen
	at   []time.Time
	fail bool
}

func (n *verifNotifier) NotifyPostTransition(t *TransitionNotification) error {
	n.seen = append(n.seen, verifSeen{t.Transition, t.FromState, t.ToState})
	n.at = append(n.at, nd.Now())
	if n.fail {
		return errors.New("simulated")
	}
	return nil
}
func (n *verifNotifier) Debugf(InfoSource, string, string, ...any) {}
func (n *verifNotifier) Infof(InfoSource, string, string, ...any)  {}
func (n *verifNotifier) Warnf(InfoSource, string, string, ...any)  {}
func (n *verifNotifier) Errorf(InfoSource, string, string, ...any) {}

func verifMachine(name string, ts []*Transition) *Machine {
	return &Machine{MachineName: name, MachineVersion: "1.0.0", InitialState: "A", Transitions: ts, WatcherDefs: []*watchers.WatcherDef{{Name: "w", Type: "x"}}}
}

// verifTransitions are 2 transitions, from one and two of three states to any of them
func verifTransitions() []*Transition {
	var ts []*Transition
	for i := 0; i < 2; i++ {
		t := &Transition{Name: "t" + string(rune('0'+i)), Destination: nd.Pick("destination", "A", "B", "C")}
		if i == 0 {
			t.From = []string{nd.Pick("from", "A", "B", "C")}
		} else {
			t.From = [][]string{{"A", "B"}, {"A", "C"}, {"B", "C"}}[nd.Choice("from", 3)]
		}
		ts = append(ts, t)
	}
	return ts
}

//verif:harness prop=W03 reach=moved,refused,same,limited deadlock=violation clock=frozen samples=6 timers=60 seconds=100
//verif:bounds machines with two transitions, from one and two of three states to any of the three, given 3 events (4 in thorough), each one of the two or an unknown one, up to one second apart, with a notifier that fails
func VerifTransitions() {
	mgr := &verifManager{}
	ts := verifTransitions()
	m := verifMachine("m", ts)
	nd.Assert(initializeMachine(m, "", "", mgr) == nil, "a valid machine could not be made")
	nt := &verifNotifier{fail: true}
	m.RegisterNotifier(nt)
	var external []verifSeen
	m.SetExternalMachineNotifier(func(t *TransitionNotification) { external = append(external, verifSeen{t.Transition, t.FromState, t.ToState}) })
	nd.Assert(m.Transition("t0") != nil && m.State() == "A", "a machine that is not started made a transition")

	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	<-m.Start(ctx, wg)
	nd.Assert(m.IsStarted() && mgr.runs == 1 && mgr.ctx.Err() == nil, "a started machine does not run its watchers")

	state := "A"
	var want []verifSeen
	var prev time.Time
	n := 3
	if nd.Thorough() {
		n = 4
	}
	tries := 0
	for i := 0; i < n; i++ {
		time.Sleep(time.Duration(nd.Int("after", 0, 1000)) * time.Millisecond)
		event := nd.Pick("event", "t0", "t1", "other")
		to := ""
		for _, t := range ts {
			if t.Name == event {
				for _, f := range t.From {
					if f == state {
						to = t.Destination
					}
				}
			}
		}
		begin := nd.Now()
		can := m.Can(event)
		err := m.Transition(event)
		took := nd.Since(begin)
		nd.Assert(can == (to != ""), "a machine does not know which transitions it can make")
		nd.Assert(err == nil, "a transition of a running machine failed")
		if to == "" {
			nd.Reach("refused")
			nd.Assert(took < 15*time.Millisecond, "an event that has no effect was delayed")
		} else {
			if tries > 0 {
				nd.Reach("limited")
				nd.Assert(took >= 15*time.Millisecond, "fast transitions are not limited")
				nd.Assert(took <= 100*time.Millisecond, "a few transitions are delayed for long")
			} else {
				nd.Assert(took < 15*time.Millisecond, "the first transition was delayed")
			}
			tries++
			if to == state {
				nd.Reach("same")
			} else {
				nd.Reach("moved")
				want = append(want, verifSeen{event, state, to})
				state = to
			}
		}
		nd.Assert(m.State() == state, "a machine is in another state than its transitions lead to")
		prev = nd.Now()
	}
	_ = prev
	nd.Assert(len(nt.seen) == len(want) && len(external) == len(want) && mgr.changes == len(want), "a change of state was not announced once")
	for i := range want {
		nd.Assert(nt.seen[i] == want[i] && external[i] == want[i], "another change of state than was made was announced")
	}
	m.Stop()
	nd.Assert(!m.IsStarted() && mgr.ctx.Err() != nil, "a stopped machine runs")
	m.Transition("t0")
	m.Transition("t1")
	nd.Assert(m.State() == state && len(nt.seen) == len(want), "a stopped machine made a transition")
	cancel()
	nd.Observe("state", state)
	nd.Observe("changes", len(want))
}

//verif:harness prop=W03 reach=started,stopped,failed deadlock=violation clock=frozen samples=2 timers=60 preempt=1
//verif:bounds machines with a start splay of 0 to 3 seconds that are stopped at any moment in the first 2 or not, with watchers that start or fail
func VerifStart() {
	mgr := &verifManager{fail: nd.OneOf("watchers", "start", "fail") == "fail"}
	m := verifMachine("m", []*Transition{{Name: "t", From: []string{"A"}, Destination: "B"}})
	m.SplayStart = nd.Choice("splay", 4)
	nd.Assert(initializeMachine(m, "", "", mgr) == nil, "a valid machine could not be made")
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	nd.Assert(!m.IsStarted(), "a machine runs before it was started")
	begin := nd.Now()
	started := m.Start(ctx, wg)
	stop := nd.OneOf("stop", "no", "stop", "delete", "cancel")
	if stop == "no" {
		<-started
		nd.Assert(nd.Or(m.SplayStart == 0, nd.Since(begin) < time.Duration(m.SplayStart)*time.Second), "a machine started later than its splay")
		if mgr.fail {
			nd.Reach("failed")
			nd.Assert(!m.IsStarted(), "a machine that could not start runs")
		} else {
			nd.Reach("started")
			nd.Assert(m.IsStarted() && mgr.runs == 1 && mgr.ctx.Err() == nil, "a machine was started but does not run its watchers")
		}
		m.Stop()
	} else {
		if m.SplayStart > 0 {
			nd.Assert(m.IsStarted(), "a machine that waits to start would be started again")
		}
		time.Sleep(time.Duration(nd.Int("after", 10, 2000)) * time.Millisecond)
		switch stop {
		case "stop":
			m.Stop()
		case "delete":
			m.Delete()
			nd.Assert(mgr.deleted == 1, "the watchers of a deleted machine were not deleted")
		default:
			cancel()
		}
		<-started
		nd.Reach("stopped")
		nd.Assert(mgr.runs < 2, "watchers were started twice")
	}
	nd.Assert(mgr.ctx == nil || mgr.ctx.Err() != nil, "the watchers of a stopped machine run")
	cancel()
	nd.Assert(m.Transition("") == nil && m.State() == "A", "no transition is one")
	nd.Observe("runs", mgr.runs)
}

//verif:harness prop=W03 reach=triggered,ignored deadlock=violation clock=frozen samples=6
//verif:bounds events of machines and transitions of any name of up to 2 bytes given to a machine with two transitions, each with one or two subscriptions of any name of up to 2 bytes
func VerifSubscriptions() {
	mgr := &verifManager{}
	ts := []*Transition{{Name: "t0", From: []string{"A"}, Destination: "B"}, {Name: "t1", From: []string{"A", "B"}, Destination: "C"}}
	for i, t := range ts {
		n := 1 + i
		for j := 0; j < n; j++ {
			t.Subscriptions = append(t.Subscriptions, MachineSubscription{nd.String("machine", 2), nd.String("event", 2)})
		}
	}
	m := verifMachine("m", ts)
	nd.Assert(initializeMachine(m, "", "", mgr) == nil, "a valid machine could not be made")
	nt := &verifNotifier{}
	m.RegisterNotifier(nt)
	<-m.Start(context.Background(), &sync.WaitGroup{})
	ev := &TransitionNotification{Machine: nd.String("from", 2), Transition: nd.String("transition", 2)}
	hit := func(s MachineSubscription) bool {
		return nd.And(nd.StrEq(s.MachineName, ev.Machine), nd.StrEq(s.Event, ev.Transition))
	}
	first := hit(ts[0].Subscriptions[0])
	second := nd.Or(hit(ts[1].Subscriptions[0]), hit(ts[1].Subscriptions[1]))
	m.ExternalEventNotify(ev)
	state := m.State()
	nd.Assert(nd.Implies(second, state == "C"), "a transition was not triggered by a subscription")
	nd.Assert(nd.Implies(nd.And(first, !second), state == "B"), "a transition was not triggered by a subscription")
	nd.Assert(nd.Implies(nd.And(!first, !second), state == "A"), "an event nothing subscribes to triggered a transition")
	if state == "A" {
		nd.Reach("ignored")
	} else {
		nd.Reach("triggered")
	}
	nd.Observe("state", state)
}

//verif:harness prop=W03 reach=valid,invalid clock=frozen samples=12
//verif:bounds machines with a name, version, initial state, transitions and watchers or without, where a watcher names two states and a transition for success and failure of any name of up to 2 bytes and any of 6 announce intervals
func VerifValid() {
	mgr := &verifManager{}
	m := verifMachine("m", []*Transition{{Name: "t0", From: []string{"A", "B"}, Destination: "C"}, {Name: "t1", From: []string{"C"}, Destination: "D"}})
	w := m.WatcherDefs[0]
	missing := nd.OneOf("missing", "nothing", "name", "version", "initial", "transitions", "watchers")
	switch missing {
	case "name":
		m.MachineName = ""
	case "version":
		m.MachineVersion = ""
	case "initial":
		m.InitialState = ""
	case "transitions":
		m.Transitions = nil
	case "watchers":
		m.WatcherDefs = nil
	}
	valid := missing == "nothing"
	if valid {
		interval := nd.Choice("interval", 6)
		w.AnnounceInterval = []string{"", "1m", "59s", "x", "1h", "0"}[interval]
		w.StateMatch = []string{nd.String("state", 2), nd.String("state", 2)}
		w.SuccessTransition = nd.String("success", 2)
		w.FailTransition = nd.String("failure", 2)
		valid = interval == 0 || interval == 1 || interval == 4
		known := func(s string) bool { return nd.StrIn(s, []string{"A", "B", "C", "D"}) }
		trans := func(s string) bool { return nd.Or(len(s) == 0, nd.StrEq(s, "t0"), nd.StrEq(s, "t1")) }
		valid = nd.And(valid, known(w.StateMatch[0]), known(w.StateMatch[1]), trans(w.SuccessTransition), trans(w.FailTransition))
	}
	err := initializeMachine(m, "", "", mgr)
	nd.Assert((err == nil) == valid, "an invalid machine was accepted or a valid one refused")
	if err == nil {
		nd.Reach("valid")
	} else {
		nd.Reach("invalid")
	}
	nd.Observe("ok", err == nil)
}
