package aagent

import (
	"context"
	"encoding/json"
	"io"
	"net/http"
	"sync"
	"time"

	"github.com/choria-io/go-choria/aagent/model"
	"github.com/choria-io/go-choria/aagent/watchers"
	"github.com/choria-io/go-choria/inter"
	"github.com/nats-io/nats.go"
	"github.com/sirupsen/logrus"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with aagent/machine/disk.go aagent/notifiers/choria/quiet.go backoff/fixed.go
//verif:fs . internal/util
//verif:clock . aagent/machine internal/util backoff
//verif:method ListenAndServe verifListen

type verifConn struct{ inter.Connector }

func (verifConn) Nats() *nats.Conn { return nil }

type verifFw struct {
	model.ChoriaProvider
	mu   sync.Mutex
	sent []string
	port int
}

func (f *verifFw) PublishRaw(_ string, b []byte) error {
	f.mu.Lock()
	f.sent = append(f.sent, string(b))
	f.mu.Unlock()
	return nil
}
func (f *verifFw) Logger(string) *logrus.Entry {
	l := logrus.New()
	l.SetOutput(io.Discard)
	return logrus.NewEntry(l)
}
func (f *verifFw) Identity() string                { return "n" }
func (f *verifFw) PrometheusTextFileDir() string   { return "" }
func (f *verifFw) ScoutOverridesPath() string      { return "" }
func (f *verifFw) ServerStatusFile() (string, int) { return "", 0 }
func (f *verifFw) MainCollective() string          { return "mcollective" }
func (f *verifFw) Connector() inter.Connector      { return verifConn{} }
func (f *verifFw) Facts() json.RawMessage          { return nil }
func (f *verifFw) MachineSignerKey() string        { return "" }
func (f *verifFw) MachineHTTPPort() int            { return f.port }

var verifListening []string

func verifListen(s *http.Server) error {
	verifListening = append(verifListening, s.Addr)
	return http.ErrServerClosed
}

// verifRun is one time a watcher of a machine ran
type verifRun struct {
	m       model.Machine
	name    string
	version string
	ctx     context.Context
	done    bool
	deleted bool
	changes int
}

var verifMu sync.Mutex
var verifRuns []*verifRun

type verifWatcher struct {
	model.Watcher
	run *verifRun
	m   model.Machine
}

func (w *verifWatcher) Name() string                   { return "w" }
func (w *verifWatcher) Type() string                   { return "verif" }
func (w *verifWatcher) AnnounceInterval() time.Duration { return 0 }
func (w *verifWatcher) CurrentState() any              { return nil }
func (w *verifWatcher) NotifyStateChance() {
	verifMu.Lock()
	w.run.changes++
	verifMu.Unlock()
}
func (w *verifWatcher) Delete() {
	verifMu.Lock()
	w.run.deleted = true
	verifMu.Unlock()
}
func (w *verifWatcher) Run(ctx context.Context, wg *sync.WaitGroup) {
	defer wg.Done()
	verifMu.Lock()
	w.run.ctx = ctx
	verifRuns = append(verifRuns, w.run)
	verifMu.Unlock()
	<-ctx.Done()
	verifMu.Lock()
	w.run.done = true
	verifMu.Unlock()
}

type verifPlugin struct{ model.WatcherConstructor }

func (verifPlugin) Type() string { return "verif" }
func (verifPlugin) New(m model.Machine, name string, states []string, required []model.ForeignMachineState, fail string, success string, interval string, ai time.Duration, properties map[string]any) (any, error) {
	return &verifWatcher{m: m, run: &verifRun{m: m, name: m.Name(), version: m.Version()}}, nil
}

// verifRunning are the versions of a machine that are running now
func verifRunning(name string) []*verifRun {
	verifMu.Lock()
	defer verifMu.Unlock()
	var res []*verifRun
	for _, r := range verifRuns {
		if r.name == name && !r.done && r.ctx.Err() == nil {
			res = append(res, r)
		}
	}
	return res
}

const verifDir = "/m"

func verifPut(dir, content string) {
	nd.FSDir(verifDir + "/" + dir)
	nd.FSPut(verifDir+"/"+dir+"/machine.yaml", content)
}

func verifManage() (*AAgent, *verifFw, context.CancelFunc, *sync.WaitGroup) {
	nd.FSDir(verifDir)
	verifRuns = nil
	watchers.RegisterWatcherPlugin("verif", verifPlugin{})
	fw := &verifFw{}
	a, err := New(verifDir, fw)
	nd.Assert(err == nil, "the machine host could not be made")
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	return a, fw, func() {
		cancel()
		wg.Wait()
		for _, r := range verifRuns {
			nd.Assert(r.done, "a machine is not stopped when the server stops")
		}
	}, func() *sync.WaitGroup { nd.Assert(a.ManageMachines(ctx, wg) == nil, "machines are not managed"); return wg }()
}

//verif:harness prop=W05 reach=started,changed,removed,invalid,same deadlock=violation clock=frozen preempt=0 delays=0 timers=60 seconds=100
//verif:bounds a directory that is absent or holds one of two versions of a machine or one that is not valid, changed at any time before each of 3 scans (4 in thorough), next to another machine, a file and directories that should be ignored
func VerifScan() {
	nd.FSReset()
	version := nd.OneOf("start", "", "one 1.0.0", "one 1.1.0", "broken")
	if version != "" {
		verifPut("a", version)
	}
	verifPut("b", "two 2.0.0")
	verifPut("tmp", "tmp 1.0.0")
	verifPut(".hidden", "hidden 1.0.0")
	verifPut("x-temp", "temp 1.0.0")
	nd.FSPut(verifDir+"/file", "file 1.0.0")
	a, _, stop, _ := verifManage()
	time.Sleep(2 * time.Second)

	n := 3
	if nd.Thorough() {
		n = 4
	}
	var last *verifRun
	for i := 0; ; i++ {
		one := verifRunning("one")
		two := verifRunning("two")
		nd.Assert(len(two) == 1 && !two[0].deleted, "a machine that did not change does not run exactly once")
		nd.Assert(len(verifRunning("tmp")) == 0 && len(verifRunning("hidden")) == 0 && len(verifRunning("temp")) == 0 && len(verifRunning("file")) == 0, "a machine runs from what is not a machine directory")
		states, err := a.AllMachineStates()
		nd.Assert(err == nil, "the machines cannot be listed")
		if version == "" || version == "broken" {
			nd.Reach("invalid")
			nd.Assert(len(one) == 0, "a machine runs that is not there or not valid")
			nd.Assert(len(states) == 1 && states[0].Name == "two", "the listed machines are not those that exist")
			nd.Assert(a.Transition("one", "", "", "", "go") != nil, "a machine that does not exist made a transition")
			nd.Assert(last == nil || version == "broken" || last.deleted, "a removed machine is not told so")
		} else {
			nd.Reach("started")
			nd.Assert(len(one) == 1, "a machine on disk does not run exactly once")
			nd.Assert("one "+one[0].version == version && !one[0].deleted, "another machine runs than the one on disk")
			nd.Assert(len(states) == 2 && states[0].Name == "one" && states[0].Version == one[0].version && states[1].Name == "two", "the listed machines are not those that exist")
			nd.Assert(states[0].Path == verifDir+"/a" && states[0].ID == one[0].m.InstanceID(), "the wrong machine is listed")
			nd.Assert(a.Transition("one", "9.9.9", "", "", "go") != nil && a.Transition("two", "", verifDir+"/a", "", "go") != nil, "a machine that does not match made a transition")
		}
		if i == n {
			break
		}
		if len(one) == 1 {
			last = one[0]
		} else {
			last = nil
		}
		before := len(verifRuns)
		prev := version
		wait := nd.Int("wait", 0, 7000)
		time.Sleep(time.Duration(wait) * time.Millisecond)
		version = nd.OneOf("next", "", "one 1.0.0", "one 1.1.0", "broken")
		if version == "" {
			if prev != "" {
				nd.FSRemoveAll(verifDir + "/a")
			}
		} else {
			verifPut("a", version)
		}
		time.Sleep(time.Duration(10000-wait)*time.Millisecond)
		if prev == version {
			nd.Reach("same")
			nd.Assert(len(verifRuns) == before, "a machine that did not change was started again")
		} else if version == "" {
			nd.Reach("removed")
		} else {
			nd.Reach("changed")
		}
	}
	stop()
}

//verif:harness prop=W05 reach=both,one,gone simul=1 preempt=0 delays=0 deadlock=violation clock=frozen timers=60 seconds=100
//verif:bounds two machines, one of which follows a transition of the other that is made around the time either, both or none of them are removed or changed, while states are listed and looked up, in every order of these
func VerifConcurrent() {
	nd.FSReset()
	verifPut("a", "one 1.0.0")
	verifPut("b", "two 2.0.0")
	a, fw, stop, _ := verifManage()
	time.Sleep(2 * time.Second)
	one, two := verifRunning("one")[0], verifRunning("two")[0]

	what := nd.Choice("what", 4)
	when := 8000
	if nd.Bool("early") {
		when = 5000
	}
	if what == 1 || what == 3 {
		nd.FSRemoveAll(verifDir + "/a")
	}
	if what == 2 {
		nd.FSRemoveAll(verifDir + "/b")
	}
	if what == 3 {
		verifPut("b", "two 2.1.0")
	}
	time.Sleep(time.Duration(when) * time.Millisecond)
	p, d := 1, 0
	if nd.Thorough() {
		d = 1
	}
	nd.Schedules(p, d)
	var mu sync.Mutex
	finished := 0
	done := func() {
		mu.Lock()
		finished++
		mu.Unlock()
	}
	var err error
	go func() {
		defer done()
		err = a.Transition("one", "", "", "", "go")
	}()
	go func() {
		defer done()
		two.m.LookupExternalMachineState("one")
		a.AllMachineStates()
	}()
	time.Sleep(4 * time.Second)
	nd.Schedules(0, 0)
	mu.Lock()
	nd.Assert(finished == 2, "a transition or a lookup never ends")
	mu.Unlock()
	fw.mu.Lock()
	sent := len(fw.sent)
	went := false
	for _, e := range fw.sent {
		went = went || e == "one go"
	}
	fw.mu.Unlock()
	if when == 5000 || what == 0 || what == 2 {
		nd.Assert(err == nil && went && one.m.State() == "B" && one.changes == 1, "a machine did not make the transition it was asked to")
	}
	if when == 5000 || what == 0 {
		nd.Assert(two.m.State() == "C" && sent == 2 && two.changes == 1, "a machine does not follow the machine it subscribed to")
	}
	switch what {
	case 0:
		nd.Reach("both")
		nd.Assert(len(verifRunning("one")) == 1 && len(verifRunning("two")) == 1, "a machine stopped")
	case 1:
		nd.Reach("one")
		nd.Assert(len(verifRunning("one")) == 0 && len(verifRunning("two")) == 1, "removing a machine had no effect or stopped another one")
	case 2:
		nd.Assert(len(verifRunning("one")) == 1 && len(verifRunning("two")) == 0, "removing a machine had no effect or stopped another one")
	case 3:
		nd.Reach("gone")
		time.Sleep(2 * time.Second)
		r := verifRunning("two")
		nd.Assert(len(verifRunning("one")) == 0 && len(r) == 1 && r[0].version == "2.1.0" && r[0].m.State() == "A", "a changed machine was not started anew")
	}
	stop()
}

//verif:harness prop=W05 reach=old,new deadlock=violation clock=frozen preempt=0 delays=0 timers=60 seconds=60
//verif:bounds a machine that is new on disk or replaces another one, and changes again at any file operation while it is being loaded
func VerifChanging() {
	nd.FSReset()
	replaces := nd.Bool("replaces")
	if replaces {
		verifPut("a", "one 1.0.0")
	} else {
		nd.FSDir(verifDir)
	}
	_, _, stop, _ := verifManage()
	time.Sleep(2 * time.Second)
	verifPut("a", "one 1.1.0")
	at := nd.Int("at", 0, 40)
	n := 0
	nd.FSFaults(func(op, path string) error {
		if n == at {
			verifPut("a", "one 1.2.0")
		}
		n++
		return nil
	})
	time.Sleep(11 * time.Second)
	if at < n {
		nd.Reach("new")
		time.Sleep(10 * time.Second)
		r := verifRunning("one")
		nd.Assert(len(r) == 1 && r[0].version == "1.2.0", "a machine that changed while it was loaded stays as it was")
	} else {
		nd.Reach("old")
		r := verifRunning("one")
		nd.Assert(len(r) == 1 && r[0].version == "1.1.0", "a machine that changed does not run")
	}
	stop()
}

//verif:harness prop=W14 reach=exposed,closed deadlock=violation preempt=0 delays=0 timers=60 samples=2 seconds=60
//verif:bounds one machine in a server with and without an HTTP port
func VerifExposed() {
	nd.FSReset()
	verifListening = nil
	nd.FSDir(verifDir)
	verifRuns = nil
	watchers.RegisterWatcherPlugin("verif", verifPlugin{})
	verifPut("a", "one 1.0.0")
	fw := &verifFw{port: nd.Choice("port", 2) * 8080}
	a, err := New(verifDir, fw)
	nd.Assert(err == nil, "the machine host could not be made")
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	nd.Assert(a.ManageMachines(ctx, wg) == nil, "machines are not managed")
	time.Sleep(4 * time.Second)
	one := verifRunning("one")
	nd.Assert(len(one) == 1, "a machine does not run")
	mgr := one[0].m.HttpManager()
	nd.Observe("exposed", mgr != nil)
	if fw.port == 0 {
		nd.Reach("closed")
		nd.Assert(mgr == nil && len(verifListening) == 0, "machines are exposed without a port")
	} else {
		nd.Reach("exposed")
		nd.Assert(mgr != nil && mgr == a.httpManager, "the watchers of machines are not exposed")
		nd.Assert(len(verifListening) == 1 && verifListening[0] == ":8080", "the wrong port is listened on")
	}
	cancel()
	wg.Wait()
}
