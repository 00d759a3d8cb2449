package expressionwatcher

import (
	"context"
	"errors"
	"sync"
	"time"

	"github.com/choria-io/go-choria/aagent/model"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with aagent/watchers/watcher/template.go
//verif:clock .
//verif:override Watcher.evaluateExpression
//verif:replace github.com/choria-io/go-choria/aagent/util.ParseMapStructure verifProperties

func verifProperties(props map[string]any, target any) error {
	*(target.(*properties)) = props["p"].(properties)
	return nil
}

// what the two expressions evaluate to in the next check
var verifHolds, verifFails map[string]bool
var verifAsked int

func (w *Watcher) evaluateExpression(e string) (bool, error) {
	verifAsked++
	nd.Assert(e == "good" || e == "bad", "another expression is evaluated")
	if verifFails[e] {
		return false, errors.New("simulated")
	}
	return verifHolds[e], nil
}

type verifMachine struct {
	model.Machine
	state    string
	made     []string
	notified []string
}

func (m *verifMachine) Name() string                  { return "m" }
func (m *verifMachine) Identity() string              { return "i" }
func (m *verifMachine) InstanceID() string            { return "1" }
func (m *verifMachine) Version() string               { return "1" }
func (m *verifMachine) Directory() string             { return "/m" }
func (m *verifMachine) TimeStampSeconds() int64       { return 1 }
func (m *verifMachine) Debugf(string, string, ...any) {}
func (m *verifMachine) Infof(string, string, ...any)  {}
func (m *verifMachine) Warnf(string, string, ...any)  {}
func (m *verifMachine) Errorf(string, string, ...any) {}
func (m *verifMachine) State() string                 { return m.state }
func (m *verifMachine) NotifyWatcherState(_ string, s any) {
	m.notified = append(m.notified, s.(*StateNotification).PreviousOutcome)
}
func (m *verifMachine) Transition(t string, _ ...any) error {
	m.made = append(m.made, t)
	return nil
}

//verif:harness prop=W16 reach=success,fail,none,again,error,inactive,stopped deadlock=violation clock=frozen delays=0 samples=8 timers=16 seconds=60
//verif:bounds four checks, on the interval or on a change of state, in each of which both expressions, of which at least one is configured, hold, do not hold or cannot be evaluated and the machine is in an active state or not; then stopped or deleted
func VerifExpression() {
	m := &verifMachine{state: "on"}
	p := properties{}
	conf := nd.Choice("expressions", 3)
	if conf != 1 {
		p.SuccessWhen = "good"
	}
	if conf != 0 {
		p.FailWhen = "bad"
	}
	wi, err := New(m, "w", []string{"on"}, nil, "fail", "success", "2s", 0, map[string]any{"p": p})
	nd.Assert(err == nil, "a watcher could not be made")
	w := wi.(*Watcher)
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	go w.Run(ctx, wg)
	time.Sleep(time.Second)
	nd.Assert(len(m.made) == 0, "a transition is made before the first check")

	previous := "skipped"
	for i := 0; i < 4; i++ {
		n := []string{"1", "2", "3", "4"}[i]
		verifHolds = map[string]bool{"good": nd.Bool(n + " good"), "bad": nd.Bool(n + " bad")}
		verifFails = map[string]bool{"good": nd.Bool(n + " good fails"), "bad": nd.Bool(n + " bad fails")}
		verifAsked = 0
		m.state = "on"
		if nd.Bool(n + " inactive") {
			m.state = "off"
		}
		m.made, m.notified = nil, nil
		if i == 2 {
			w.NotifyStateChance()
			time.Sleep(100 * time.Millisecond)
		} else {
			time.Sleep(2 * time.Second)
		}
		nd.Assert(len(m.made) < 2, "one check makes several transitions")
		made := ""
		if len(m.made) == 1 {
			made = m.made[0]
		}
		nd.Observe("made", made)

		is := "none"
		switch {
		case m.state == "off":
			is = "inactive"
			nd.Assert(verifAsked == 0, "expressions are evaluated while not active")
		case p.SuccessWhen != "" && verifFails["good"]:
			is = "error"
		case p.SuccessWhen != "" && verifHolds["good"]:
			is = "success"
		case p.FailWhen != "" && verifFails["bad"]:
			is = "error"
		case p.FailWhen != "" && verifHolds["bad"]:
			is = "fail"
		}
		want := ""
		if is == "success" || is == "fail" {
			if is == previous {
				nd.Reach("again")
			} else {
				want = is
			}
		}
		nd.Reach(is)
		nd.Assert(made == want, "a transition is not made once when its expression starts to hold")
		told := is == "success" || is == "fail" || is == "error"
		nd.Assert((len(m.notified) == 1) == told && len(m.notified) < 2, "the outcome is not published")
		previous = is
	}

	if nd.Choice("deleted", 2) == 1 {
		w.Delete()
	} else {
		cancel()
	}
	wg.Wait()
	cancel()
	m.made, verifAsked = nil, 0
	time.Sleep(4 * time.Second)
	nd.Reach("stopped")
	nd.Assert(len(m.made) == 0 && verifAsked == 0, "expressions are evaluated after the machine stopped")
}

//verif:harness prop=W16 reach=valid,invalid samples=8 seconds=60
//verif:bounds watchers with either, both or no expressions and valid and invalid intervals
func VerifValidate() {
	m := &verifMachine{state: "on"}
	p := properties{SuccessWhen: []string{"good", ""}[nd.Choice("success", 2)], FailWhen: []string{"bad", ""}[nd.Choice("fail", 2)]}
	interval := []string{"", "1s", "-2s", "100ms", "x", "0"}[nd.Choice("interval", 6)]
	_, err := New(m, "w", []string{"on"}, nil, "fail", "success", interval, 0, map[string]any{"p": p})
	valid := (p.SuccessWhen != "" || p.FailWhen != "") && (interval == "" || interval == "1s")
	nd.Observe("ok", err == nil)
	nd.Assert((err == nil) == valid, "a watcher is not validated")
	if valid {
		nd.Reach("valid")
	} else {
		nd.Reach("invalid")
	}
}
