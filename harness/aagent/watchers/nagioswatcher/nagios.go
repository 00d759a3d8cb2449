package nagioswatcher

import (
	"context"
	"errors"
	"sync"
	"time"

	"github.com/choria-io/go-choria/aagent/model"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:clock .
//verif:exec .
//verif:override Watcher.processOverrides
//verif:replace github.com/choria-io/go-choria/aagent/util.ParseMapStructure verifProperties

// decoding properties uses reflection, this sets what would be decoded
func verifProperties(props map[string]any, target any) error {
	p := *(target.(**properties))
	p.Plugin = props["plugin"].(string)
	p.Timeout = props["timeout"].(time.Duration)
	return nil
}

// without templates in the command
func (w *Watcher) processOverrides(c string) (string, error) { return c, nil }

type verifMachine struct {
	model.Machine
	// held while a transition is made, as the machine does
	mu       sync.Mutex
	smu      sync.Mutex
	state    string
	watch    *Watcher
	made     []string
	notified []*StateNotification
	ignore   bool
}

func (m *verifMachine) Name() string                 { return "m" }
func (m *verifMachine) Identity() string             { return "i" }
func (m *verifMachine) InstanceID() string           { return "1" }
func (m *verifMachine) Version() string              { return "1" }
func (m *verifMachine) Directory() string            { return "/m" }
func (m *verifMachine) TextFileDirectory() string    { return "" }
func (m *verifMachine) TimeStampSeconds() int64      { return 1 }
func (m *verifMachine) Debugf(string, string, ...any) {}
func (m *verifMachine) Infof(string, string, ...any)  {}
func (m *verifMachine) Warnf(string, string, ...any)  {}
func (m *verifMachine) Errorf(string, string, ...any) {}
func (m *verifMachine) NotifyWatcherState(_ string, s any) {
	m.smu.Lock()
	m.notified = append(m.notified, s.(*StateNotification))
	m.smu.Unlock()
}

func (m *verifMachine) State() string {
	m.smu.Lock()
	defer m.smu.Unlock()
	return m.state
}

func (m *verifMachine) set(s string) {
	m.smu.Lock()
	m.state = s
	m.smu.Unlock()
	m.watch.NotifyStateChance()
}

// Transition moves into the state a check resulted in, or FORCE_CHECK, and tells the watcher while it holds its lock
func (m *verifMachine) Transition(t string, _ ...any) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.smu.Lock()
	if t != "FORCE_CHECK" {
		m.made = append(m.made, t)
	}
	ignore := m.ignore
	m.smu.Unlock()
	if !ignore {
		m.set(t)
	}
	return nil
}

func verifNew(m *verifMachine, interval string, states []string) *Watcher {
	wi, err := New(m, "w", states, nil, "", "", interval, 0, map[string]any{"plugin": "check 'a b'", "timeout": time.Second})
	nd.Assert(err == nil, "a nagios watcher could not be made")
	m.watch = wi.(*Watcher)
	return m.watch
}

//verif:harness prop=W07 reach=known,other,killed,failed deadlock=violation clock=frozen delays=1 samples=8 seconds=60
//verif:bounds a forced check that runs 0 to 2000 milliseconds (but not within 50 milliseconds of the timeout of a second) and ends with any exit code between 0 and 255, or cannot be started
func VerifCheck() {
	m := &verifMachine{state: nd.OneOf("state", "OK", "UNKNOWN", "OTHER")}
	code := nd.Int("code", 0, 255)
	took := nd.Int("took", 0, 2000)
	nd.Assume(nd.Or(took < 950, took > 1050))
	fail := nd.Bool("fail")
	runs := 0
	nd.Exec(func(c *nd.Cmd) nd.ExecResult {
		runs++
		nd.Assert(len(c.Args) == 2 && c.Args[0] == "check" && c.Args[1] == "a b" && c.Dir == "/m", "another command is run than the plugin")
		r := nd.ExecResult{Out: "fine | x=1 ", Code: code, Took: time.Duration(took) * time.Millisecond}
		if fail {
			r.Fail = errors.New("simulated")
		}
		return r
	})
	w := verifNew(m, "", nil)
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	go w.Run(ctx, wg)
	m.Transition("FORCE_CHECK")
	time.Sleep(2300 * time.Millisecond)
	nd.Assert(runs == 1, "a forced check does not run once")
	want := ""
	switch {
	case fail:
		nd.Reach("failed")
		want = "UNKNOWN"
	case took > 1000:
		nd.Reach("killed")
		want = "UNKNOWN"
	case code <= 3:
		nd.Reach("known")
		want = []string{"OK", "WARNING", "CRITICAL", "UNKNOWN"}[code]
	default:
		nd.Reach("other")
		want = "UNKNOWN"
	}
	m.smu.Lock()
	nd.Assert(len(m.made) == 1 && m.made[0] == want, "a check does not transition the machine to the state it resulted in")
	nd.Assert(len(m.notified) == 1 && m.notified[0].Status == want && stateNames[State(m.notified[0].StatusCode)] == want, "another state is published than the check resulted in")
	if !fail && took < 1000 {
		nd.Assert(m.notified[0].Output == "fine | x=1" && len(m.notified[0].PerfData) == 1 && m.notified[0].PerfData[0].Label == "x", "the output of a check is not published")
	}
	nd.Assert(len(m.notified[0].History) == 1 && StateName(m.notified[0].History[0].Status) == want, "a check is missing from the history")
	m.smu.Unlock()
	nd.Assert(w.CurrentState().(*StateNotification).Status == want, "another state is reported than the check resulted in")
	cancel()
	wg.Wait()
	nd.Observe("made", want)
}

//verif:harness prop=W07 reach=during,after deadlock=violation clock=frozen delays=2 samples=4 simul=1 preempt=1 seconds=60 t.preempt=2
//verif:bounds 3 checks (4 in thorough) forced 0, 100, 200, 300 or 400 milliseconds after each other while a check that takes 300 milliseconds runs or not
func VerifForce() {
	m := &verifMachine{state: "OK"}
	var started []time.Time
	nd.Exec(func(c *nd.Cmd) nd.ExecResult {
		started = append(started, nd.Now())
		return nd.ExecResult{Out: "fine", Took: 300 * time.Millisecond}
	})
	w := verifNew(m, "", nil)
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	go w.Run(ctx, wg)
	var mu sync.Mutex
	finished := false
	n := 3
	if nd.Thorough() {
		n = 4
	}
	var last time.Time
	go func() {
		for i := 0; i < n; i++ {
			time.Sleep(time.Duration(nd.Choice("after", 5)*100) * time.Millisecond)
			mu.Lock()
			last = nd.Now()
			mu.Unlock()
			m.Transition("FORCE_CHECK")
		}
		mu.Lock()
		finished = true
		mu.Unlock()
	}()
	time.Sleep(4 * time.Second)
	nd.Schedules(0, 0)
	mu.Lock()
	nd.Assert(finished, "forcing a check blocks the machine")
	mu.Unlock()
	nd.Assert(len(started) >= 1 && len(started) <= n, "checks run that nothing forced, or none")
	nd.Assert(!started[len(started)-1].Before(last.Add(-310*time.Millisecond)), "a forced check did not run")
	m.smu.Lock()
	nd.Assert(len(m.made) == len(started) && m.state == "OK", "the result of a forced check is lost")
	m.smu.Unlock()
	if len(started) < n {
		nd.Reach("during")
	} else {
		nd.Reach("after")
	}
	cancel()
	wg.Wait()
}

//verif:harness prop=W07 reach=checked,idle deadlock=violation clock=frozen samples=4 seconds=60
//verif:bounds a check every 2 seconds with every first splay, of a machine in a state the watcher is active in or not, that changes once between them at any time in 5 seconds
func VerifInterval() {
	m := &verifMachine{state: nd.OneOf("state", "OK", "OFF"), ignore: true}
	var started []time.Time
	nd.Exec(func(c *nd.Cmd) nd.ExecResult {
		started = append(started, nd.Now())
		nd.Assert(m.State() == "OK", "a check runs in a state it should not run in")
		return nd.ExecResult{Out: "fine", Code: 1}
	})
	w := verifNew(m, "2s", []string{"OK"})
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	go w.Run(ctx, wg)
	begin := nd.Now()
	initial := m.state
	change := nd.Int("change", 0, 6000)
	if change < 5000 {
		time.Sleep(time.Duration(change) * time.Millisecond)
		if initial == "OK" {
			m.set("OFF")
		} else {
			m.set("OK")
		}
		if len(started) == 0 && m.State() == "OFF" || initial == "OFF" {
			nd.Reach("idle")
		}
		time.Sleep(time.Duration(5000-change) * time.Millisecond)
	} else {
		time.Sleep(5 * time.Second)
	}
	// between the splay of at most 2 seconds and an interval, and another interval
	if initial == "OK" && change >= 5000 {
		nd.Reach("checked")
		nd.Assert(len(started) >= 1 && len(started) <= 2, "a check does not run on its interval")
		nd.Assert(started[0].Sub(begin) >= 1990*time.Millisecond && started[0].Sub(begin) < 4100*time.Millisecond, "the first check does not run after its splay and interval")
	}
	for i := 1; i < len(started); i++ {
		d := started[i].Sub(started[i-1])
		nd.Assert(d > 1900*time.Millisecond && d < 4200*time.Millisecond, "checks are not an interval apart")
	}
	cancel()
	wg.Wait()
	m.smu.Lock()
	nd.Assert(len(m.made) == len(started), "a check does not transition the machine to the state it resulted in")
	m.smu.Unlock()
}
