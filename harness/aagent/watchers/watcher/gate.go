package watcher

import (
	"errors"

	"github.com/choria-io/go-choria/aagent/model"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

type verifMachine struct {
	model.Machine
	state string
	ext   []string
	fail  []bool
	fired []string
}

func (m *verifMachine) State() string                  { return m.state }
func (m *verifMachine) Debugf(string, string, ...any)  {}
func (m *verifMachine) Infof(string, string, ...any)   {}
func (m *verifMachine) Warnf(string, string, ...any)   {}
func (m *verifMachine) Errorf(string, string, ...any)  {}
func (m *verifMachine) Transition(t string, _ ...any) error {
	m.fired = append(m.fired, t)
	return nil
}
func (m *verifMachine) LookupExternalMachineState(name string) (string, error) {
	for i, n := range []string{"m0", "m1"} {
		if n == name {
			if m.fail[i] {
				return "", errors.New("simulated")
			}
			return m.ext[i], nil
		}
	}
	return "", errors.New("unknown machine")
}

//verif:harness prop=W04 reach=watches,gated samples=12
//verif:bounds a watcher for up to 2 states (3 in thorough) of any name of up to 2 bytes that requires up to 2 states of other machines of any name of up to 2 bytes, with the machines in any state of up to 2 bytes, unknown, or failing to be found
func VerifGate() {
	m := &verifMachine{state: nd.String("state", 2)}
	max := 3
	if nd.Thorough() {
		max = 4
	}
	var states []string
	for i := nd.Choice("states", max); i > 0; i-- {
		states = append(states, nd.String("active", 2))
	}
	var required []model.ForeignMachineState
	want := nd.Or(len(states) == 0, nd.StrIn(m.state, states))
	for i := 0; i < 2; i++ {
		m.ext = append(m.ext, nd.String("other.state", 2))
		m.fail = append(m.fail, nd.Bool("other.fails"))
	}
	for i := nd.Choice("required", 3); i > 0; i-- {
		r := model.ForeignMachineState{MachineName: nd.OneOf("other", "m0", "m1", "m2", ""), MachineState: nd.String("required.state", 2)}
		required = append(required, r)
		ok := false
		switch r.MachineName {
		case "m0":
			ok = nd.And(!m.fail[0], nd.StrEq(m.ext[0], r.MachineState))
		case "m1":
			ok = nd.And(!m.fail[1], nd.StrEq(m.ext[1], r.MachineState))
		}
		want = nd.And(want, ok, len(r.MachineState) > 0)
	}
	w, err := NewWatcher("w", "t", 0, states, required, m, "bad", "good")
	nd.Assert(err == nil, "a watcher could not be made")
	got := w.ShouldWatch()
	nd.Assert(got == want, "a watcher acts in a state it should not or does not in one it should")
	if got {
		nd.Reach("watches")
	} else {
		nd.Reach("gated")
	}
	nd.Observe("watch", got)
}

//verif:harness prop=W04 reach=success,failure,none
//verif:bounds watchers with any success and failure events of up to 2 bytes or none
func VerifEvents() {
	m := &verifMachine{}
	good, bad := nd.String("success", 2), nd.String("failure", 2)
	w, err := NewWatcher("w", "t", 0, nil, nil, m, bad, good)
	nd.Assert(err == nil, "a watcher could not be made")
	want := good
	if nd.OneOf("outcome", "success", "failure") == "success" {
		nd.Reach("success")
		err = w.SuccessTransition()
	} else {
		nd.Reach("failure")
		want = bad
		err = w.FailureTransition()
	}
	nd.Assert(err == nil, "a transition failed")
	if want == "" {
		nd.Reach("none")
		nd.Assert(len(m.fired) == 0, "a transition was fired but none is configured")
	} else {
		nd.Assert(len(m.fired) == 1 && nd.StrEq(m.fired[0], want), "another transition than the one configured was fired")
	}
	// changes of state are never lost
	n := nd.Choice("changes", 3)
	for i := 0; i < n; i++ {
		w.NotifyStateChance()
	}
	seen := 0
	select {
	case <-w.StateChangeC():
		seen++
	default:
	}
	nd.Assert((seen == 1) == (n > 0), "a change of state was not noticed, or one was that did not happen")
	nd.Observe("fired", len(m.fired))
}
