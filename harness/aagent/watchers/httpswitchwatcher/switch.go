package httpswitchwatcher

import (
	"context"
	"sync"
	"time"

	"github.com/choria-io/go-choria/aagent/model"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with aagent/watchers/watcher/template.go
//verif:clock .
//verif:replace github.com/choria-io/go-choria/aagent/util.ParseMapStructure verifProperties

func verifProperties(props map[string]any, target any) error {
	*(target.(*properties)) = props["p"].(properties)
	return nil
}

type verifMachine struct {
	model.Machine
	mu       sync.Mutex
	w        *Watcher
	state    string
	made     []string
	notified []bool
	exposed  bool
}

func (m *verifMachine) Name() string                  { return "m" }
func (m *verifMachine) Identity() string              { return "i" }
func (m *verifMachine) InstanceID() string            { return "1" }
func (m *verifMachine) Version() string               { return "1" }
func (m *verifMachine) Directory() string             { return "/m" }
func (m *verifMachine) TimeStampSeconds() int64       { return 1 }
func (m *verifMachine) Debugf(string, string, ...any) {}
func (m *verifMachine) Infof(string, string, ...any)  {}
func (m *verifMachine) Warnf(string, string, ...any)  {}
func (m *verifMachine) Errorf(string, string, ...any) {}
func (m *verifMachine) HttpManager() model.HttpManager {
	return &verifHTTP{m: m}
}

type verifHTTP struct {
	model.HttpManager
	m *verifMachine
}

func (h *verifHTTP) AddSwitchWatcher(n string, w model.HttpSwitchWatcher) {
	nd.Assert(n == "m" && w == model.HttpSwitchWatcher(h.m.w), "another switch is exposed")
	h.m.exposed = true
}
func (h *verifHTTP) RemoveSwitchWatcher(n string, w model.HttpSwitchWatcher) {
	nd.Assert(n == "m" && w == model.HttpSwitchWatcher(h.m.w), "another switch is removed")
	h.m.exposed = false
}
func (m *verifMachine) NotifyWatcherState(_ string, s any) {
	m.mu.Lock()
	m.notified = append(m.notified, s.(*StateNotification).IsOn)
	m.mu.Unlock()
}
func (m *verifMachine) State() string {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.state
}
func (m *verifMachine) set(s string) {
	m.mu.Lock()
	m.state = s
	m.mu.Unlock()
	m.w.NotifyStateChance()
}
func (m *verifMachine) take() []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	made := m.made
	m.made = nil
	return made
}

// the switch is on in a, off in b, neither in c, disabled in d and not active in e
func (m *verifMachine) Transition(t string, _ ...any) error {
	m.mu.Lock()
	m.made = append(m.made, t)
	m.mu.Unlock()
	if t == "success" {
		m.set("a")
	} else {
		m.set("b")
	}
	return nil
}

func verifStart(state string) (*verifMachine, context.CancelFunc, *sync.WaitGroup) {
	m := &verifMachine{state: state}
	p := properties{ShouldOn: []string{"x", "a"}, ShouldOff: []string{"b", "x"}, ShouldDisable: []string{"x", "d"}}
	wi, err := New(m, "w", []string{"a", "b", "c", "d"}, nil, "fail", "success", "", 0, map[string]any{"p": p})
	nd.Assert(err == nil, "a watcher could not be made")
	m.w = wi.(*Watcher)
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	go m.w.Run(ctx, wg)
	time.Sleep(100 * time.Millisecond)
	return m, cancel, wg
}

func verifState(name string) string { return string([]byte{nd.Uint8(name, 'a', 'e')}) }

//verif:harness prop=W14 reach=on,off,refused,changed deadlock=violation clock=frozen delays=0 samples=8 timers=16 seconds=60
//verif:bounds four times in any order the switch is pressed on or off or its machine enters any state, one where it is on, off, neither, disabled or not active
func VerifSwitch() {
	m, cancel, wg := verifStart(verifState("state"))
	nd.Assert(m.exposed, "a switch is not exposed")
	ison := m.state == "a"
	nd.Assert(m.w.CurrentState().(*StateNotification).IsOn == ison, "a switch has another state than its machine at the start")
	nd.Assert(len(m.take()) == 0, "starting presses a switch")
	for i := 0; i < 4; i++ {
		m.notified = nil
		n := []string{"1", "2", "3", "4"}[i]
		e := nd.Choice(n, 3)
		if e > 1 {
			nd.Reach("changed")
			m.set(verifState(n + " state"))
			time.Sleep(100 * time.Millisecond)
			nd.Assert(len(m.take()) == 0, "a change of state presses a switch")
			ison = nd.Or(m.state == "a", nd.And(ison, m.state != "b"))
		} else {
			was := m.state
			press, made, to := m.w.TurnOff, "fail", "b"
			if e == 1 {
				press, made, to = m.w.TurnOn, "success", "a"
			}
			on, err := press()
			time.Sleep(100 * time.Millisecond)
			got := m.take()
			nd.Assert((err == nil) == nd.And(was != "d", was != "e"), "a press is not accepted exactly when the switch is active")
			if err == nil {
				nd.Reach([]string{"off", "on"}[e])
				nd.Assert(on == (e == 1), "a press is not answered with the new state")
				nd.Assert(len(got) == 1 && got[0] == made && m.state == to, "a press does not do its transition once")
				ison = e == 1
				nd.Assert(len(m.notified) > 0 && m.notified[0] == ison, "the state of a switch is not published")
			} else {
				nd.Reach("refused")
				nd.Assert(len(got) == 0 && m.state == was && len(m.notified) == 0, "a press that was refused changes the machine")
			}
		}
		s := m.w.CurrentState().(*StateNotification)
		nd.Observe("on", s.IsOn)
		nd.Assert(s.IsOn == ison && (s.PreviousOutcome == "on") == ison, "a switch has another state than it was set to")
	}
	cancel()
	wg.Wait()
	nd.Assert(!m.exposed, "a switch is exposed after its machine stopped")
}

//verif:harness prop=W14 reach=pressed,refused deadlock=violation clock=frozen preempt=1 delays=1 simul=1 samples=4 timers=16 seconds=60
//verif:bounds two presses, on or off, at the same time as a change of state, with any one preemption and one delay
func VerifPresses() {
	m, cancel, wg := verifStart("b")
	done := &sync.WaitGroup{}
	accepted := 0
	for i := 0; i < 2; i++ {
		press := m.w.TurnOff
		if nd.Choice([]string{"a", "b"}[i], 2) == 1 {
			press = m.w.TurnOn
		}
		done.Add(1)
		go func() {
			defer done.Done()
			_, err := press()
			if err == nil {
				m.mu.Lock()
				accepted++
				m.mu.Unlock()
			}
		}()
	}
	to := []string{"a", "e"}[nd.Choice("to", 2)]
	m.set(to)
	done.Wait()
	time.Sleep(100 * time.Millisecond)
	nd.Quiesce()
	got := m.take()
	if accepted > 0 {
		nd.Reach("pressed")
	} else {
		nd.Reach("refused")
	}
	nd.Assert(len(got) <= accepted, "a press makes more than one transition")
	if to == "a" {
		nd.Assert(accepted == 2 && len(got) == 2, "a press of an active switch is lost")
	}
	cancel()
	wg.Wait()
}
