package execwatcher

import (
	"context"
	"encoding/json"
	"errors"
	"strings"
	"sync"
	"time"

	"github.com/choria-io/go-choria/aagent/model"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with aagent/watchers/watcher/template.go
//verif:clock .
//verif:exec .
//verif:fs . aagent/watchers/watcher
//verif:replace github.com/choria-io/go-choria/aagent/util.ParseMapStructure verifProperties

// decoding properties uses reflection, this sets what would be decoded
func verifProperties(props map[string]any, target any) error {
	*(target.(*Properties)) = props["p"].(Properties)
	return nil
}

type verifMachine struct {
	model.Machine
	mu       sync.Mutex
	state    string
	made     []string
	notified []string
	put      map[string]any
	badPut   bool
}

func (m *verifMachine) Name() string                  { return "m" }
func (m *verifMachine) Identity() string              { return "i" }
func (m *verifMachine) InstanceID() string            { return "1" }
func (m *verifMachine) Version() string               { return "1" }
func (m *verifMachine) Directory() string             { return "/m" }
func (m *verifMachine) TimeStampSeconds() int64       { return 1 }
func (m *verifMachine) Facts() json.RawMessage        { return json.RawMessage(`{"f":1}`) }
func (m *verifMachine) Data() map[string]any          { return map[string]any{"d": "x"} }
func (m *verifMachine) Debugf(string, string, ...any) {}
func (m *verifMachine) Infof(string, string, ...any)  {}
func (m *verifMachine) Warnf(string, string, ...any)  {}
func (m *verifMachine) Errorf(string, string, ...any) {}
func (m *verifMachine) NotifyWatcherState(_ string, s any) {
	m.notified = append(m.notified, s.(*StateNotification).PreviousOutcome)
}
func (m *verifMachine) State() string { return m.state }
func (m *verifMachine) Transition(t string, _ ...any) error {
	m.made = append(m.made, t)
	return nil
}
func (m *verifMachine) DataPut(k string, v any) error {
	if m.badPut {
		return errors.New("simulated")
	}
	if m.put == nil {
		m.put = map[string]any{}
	}
	m.put[k] = v
	return nil
}

func verifNew(m *verifMachine, interval string, states []string, p Properties) *Watcher {
	wi, err := New(m, "w", states, nil, "fail", "success", interval, 0, map[string]any{"p": p})
	nd.Assert(err == nil, "an exec watcher could not be made")
	return wi.(*Watcher)
}

//verif:harness prop=W08 reach=success,error,skipped,killed,data,disowned deadlock=violation clock=frozen samples=8 seconds=60
//verif:bounds a command that runs 0 to 2000 milliseconds (but not within 50 milliseconds of the timeout of a second), ends with any exit code between 0 and 255, cannot be started or has output that is data or not, with all settings, after a state change into a state the watcher is active in or not, with a failure of any file operation or of saving the data
func VerifExec() {
	nd.FSReset()
	nd.FSDir("/tmp")
	p := Properties{Command: "run 'a b'", Timeout: time.Second, Environment: []string{"A=b"}}
	p.Disown = nd.Bool("disown")
	if !p.Disown {
		p.OutputAsData = nd.Bool("data")
	}
	p.SuppressSuccessAnnounce = nd.Bool("suppress")
	m := &verifMachine{state: nd.OneOf("state", "on", "off")}
	out := nd.OneOf("output", `{"a":"b"}`, `nonsense`)
	if p.OutputAsData {
		m.badPut = nd.Bool("bad put")
	}
	code := nd.Int("code", 0, 255)
	took := nd.Int("took", 0, 2000)
	nd.Assume(nd.Or(took < 950, took > 1050))
	fail := nd.Bool("fail")
	runs := 0
	nd.Exec(func(c *nd.Cmd) nd.ExecResult {
		runs++
		nd.Assert(len(c.Args) == 2 && c.Args[0] == "run" && c.Args[1] == "a b" && c.Dir == "/m", "another command is run than the one configured")
		env := strings.Join(c.Env, "\n") + "\n"
		nd.Assert(strings.Contains(env, "A=b\n") && strings.Contains(env, "MACHINE_NAME=m\n") && strings.Contains(env, "MACHINE_WATCHER_NAME=w\n"), "the environment of the command is incomplete")
		for _, e := range c.Env {
			if f, ok := strings.CutPrefix(e, "WATCHER_DATA="); ok {
				d, ok := nd.FSGet(f)
				nd.Assert(ok && d == `{"d":"x"}`, "the command cannot read the data of the machine")
			}
			if f, ok := strings.CutPrefix(e, "WATCHER_FACTS="); ok {
				d, ok := nd.FSGet(f)
				nd.Assert(ok && d == `{"f":1}`, "the command cannot read the facts")
			}
		}
		r := nd.ExecResult{Out: out, Code: code, Took: time.Duration(took) * time.Millisecond}
		if fail {
			r.Fail = errors.New("simulated")
		}
		return r
	})
	at := nd.Int("fault", 0, 12)
	n := 0
	faulted := false
	nd.FSFaults(func(op, path string) error {
		n++
		if n == at && op != "remove" {
			faulted = true
			return errors.New("simulated")
		}
		return nil
	})
	w := verifNew(m, "", []string{"on"}, p)
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	go w.Run(ctx, wg)
	w.NotifyStateChance()
	time.Sleep(2300 * time.Millisecond)

	nd.Assert(len(nd.FSPaths("/tmp/")) == 0, "files of the command are left behind")
	want := "success"
	switch {
	case m.state == "off":
		nd.Reach("skipped")
		nd.Assert(runs == 0 && len(m.made) == 0 && len(m.notified) == 0, "a command runs in a state it should not run in")
		cancel()
		wg.Wait()
		return
	case faulted:
		want = "error"
		nd.Assert(runs == 0, "a command runs without its files")
	case fail:
		want = "error"
	case p.Disown:
		nd.Reach("disowned")
		if code != 0 {
			want = "error"
		}
	case took > 1000:
		nd.Reach("killed")
		want = "error"
	case code != 0:
		want = "error"
	case p.OutputAsData && (out == "nonsense" || m.badPut):
		want = "error"
	case p.OutputAsData:
		nd.Reach("data")
		nd.Assert(len(m.put) == 1 && m.put["a"] == "b", "the output of the command is not stored as data")
	}
	if !faulted {
		nd.Assert(runs == 1, "a command does not run once for one change of state")
	}
	nd.Assert(want == "success" && p.OutputAsData || m.put == nil, "data is stored that should not be")
	if want == "success" {
		nd.Reach("success")
		nd.Assert(len(m.made) == 1 && m.made[0] == "success", "a command that worked does not fire the success transition")
		nd.Assert(len(m.notified) == 1 && m.notified[0] == want || len(m.notified) == 0 && p.SuppressSuccessAnnounce, "the result of a command is not published")
	} else {
		nd.Reach("error")
		nd.Assert(len(m.made) == 1 && m.made[0] == "fail", "a command that failed does not fire the fail transition")
		nd.Assert(len(m.notified) == 1 && m.notified[0] == want, "the result of a command is not published")
	}
	cancel()
	wg.Wait()
	nd.Observe("want", want)
}

//verif:harness prop=W08 reach=many,idle deadlock=violation clock=frozen samples=3 delays=0 timers=60 seconds=60
//verif:bounds a command that takes 0, 300 or 600 milliseconds every second for 3 seconds and after one change of state, at any time for one that takes 300 milliseconds, with an initial execution after a splay or not
func VerifInterval() {
	nd.FSReset()
	nd.FSDir("/tmp")
	p := Properties{Command: "run", Timeout: time.Second}
	p.GatherInitialState = nd.Bool("initial")
	m := &verifMachine{state: "on"}
	took := 300 * time.Millisecond
	if !p.GatherInitialState {
		took = time.Duration(nd.Choice("took", 3)*300) * time.Millisecond
	}
	running := false
	var started []time.Time
	nd.Exec(func(c *nd.Cmd) nd.ExecResult {
		nd.Assert(!running || nd.Since(started[len(started)-1]) >= took-60*time.Millisecond, "a command runs while it is running")
		running = true
		started = append(started, nd.Now())
		return nd.ExecResult{Out: "fine", Took: took}
	})
	w := verifNew(m, "1s", []string{"on"}, p)
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	begin := nd.Now()
	go w.Run(ctx, wg)
	change := 2500 * time.Millisecond
	if !p.GatherInitialState && took == 300*time.Millisecond {
		change = time.Duration(nd.Int("change", 0, 2500)) * time.Millisecond
	}
	time.Sleep(change)
	w.NotifyStateChance()
	time.Sleep(3*time.Second - change)
	n := 0
	for _, s := range started {
		// those due to the state change start when it is or after another one that was running then
		if s.Sub(begin) < change-50*time.Millisecond || s.Sub(begin) > change+took+50*time.Millisecond {
			n++
		}
	}
	nd.Assert(len(started) >= 1, "a command is not run when the state changes")
	if p.GatherInitialState {
		nd.Reach("idle")
	} else {
		nd.Reach("many")
		nd.Assert(n >= 1 && n <= 4, "a command is not run on its interval")
	}
	cancel()
	wg.Wait()
	nd.Assert(len(m.made) >= len(started), "the result of a command is lost")
}
