package metricwatcher

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/choria-io/go-choria/aagent/model"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with aagent/watchers/watcher/template.go
//verif:clock .
//verif:exec .
//verif:fs . internal/util
//verif:replace github.com/choria-io/go-choria/aagent/util.ParseMapStructure verifProperties

func verifProperties(props map[string]any, target any) error {
	*(target.(*properties)) = props["p"].(properties)
	return nil
}

type verifMachine struct {
	model.Machine
	mu       sync.Mutex
	state    string
	made     []string
	notified []*StateNotification
	texts    []string
	put      map[string]any
	bad      bool
}

func (m *verifMachine) Name() string                   { return "m" }
func (m *verifMachine) Identity() string               { return "i" }
func (m *verifMachine) InstanceID() string             { return "1" }
func (m *verifMachine) Version() string                { return "1" }
func (m *verifMachine) Directory() string              { return "/m" }
func (m *verifMachine) TextFileDirectory() string      { return "/t" }
func (m *verifMachine) TimeStampSeconds() int64        { return 1 }
func (m *verifMachine) HttpManager() model.HttpManager { return nil }
func (m *verifMachine) Debugf(string, string, ...any)  {}
func (m *verifMachine) Infof(string, string, ...any)   {}
func (m *verifMachine) Warnf(string, string, ...any)   {}
func (m *verifMachine) Errorf(string, string, ...any)  {}
func (m *verifMachine) State() string                  { return m.state }
func (m *verifMachine) NotifyWatcherState(_ string, s any) {
	m.notified = append(m.notified, s.(*StateNotification))
	m.texts = append(m.texts, verifText(s.(*StateNotification).Metrics.Metrics))
}
func (m *verifMachine) Transition(t string, _ ...any) error {
	m.made = append(m.made, t)
	return nil
}
func (m *verifMachine) DataPut(k string, v any) error {
	if m.bad {
		return errors.New("simulated")
	}
	m.put = map[string]any{k: v}
	return nil
}

func verifText(m map[string]float64) string {
	return fmt.Sprintf("%d a=%.1f b=%.1f", len(m), m["a"], m["b"])
}

//verif:harness prop=W13 reach=json,perf,nothing,invalid,error,blank,inactive,stored deadlock=violation clock=frozen delays=0 samples=8 timers=24 seconds=90
//verif:bounds three runs, the last the first again, with metrics as JSON, with null, missing and empty values, as performance data or not at all, or invalid; any exit code, run times of up to two seconds and commands that cannot be started or are blank (without any run); with and without labels and storing as data, which may fail; without Prometheus and Graphite
func VerifMetric() {
	nd.FSReset()
	m := &verifMachine{state: "on"}
	metrics = map[string]*Metric{}
	p := properties{Command: []string{"run 'a b'", " "}[nd.Choice("command", 2)], Interval: time.Second, SkipPrometheus: true}
	p.Labels = map[string]string{}
	labelled := nd.Choice("labels", 2) == 1
	if labelled {
		p.Labels["l"] = "v"
	}
	p.StoreAsData = nd.Choice("data", 2) == 1
	if p.StoreAsData {
		m.bad = nd.Choice("data fails", 2) == 1
	}
	outs := []string{`{"metrics":{"a":1},"labels":{"x":"y"}}`, `{"metrics":{"b":2},"labels":null}`, `{"metrics":null}`, `{}`, `{"metrics":`, `OK: fine|a=1 b=2`, `nothing`, ``}
	oi := nd.Choice("output", len(outs))
	code := nd.Int("code", 0, 255)
	took := nd.Int("took", 0, 2000)
	nd.Assume(nd.Or(took < 950, took > 1050))
	fail := nd.Choice("fail", 2) == 1
	run := 0
	nd.Exec(func(c *nd.Cmd) nd.ExecResult {
		run++
		nd.Assert(len(c.Args) == 2 && c.Args[0] == "run" && c.Args[1] == "a b" && c.Dir == "/m", "another command is run than the one configured")
		if run == 2 {
			r := nd.ExecResult{Out: outs[oi], Code: code, Took: time.Duration(took) * time.Millisecond}
			if fail {
				r.Fail = errors.New("simulated")
			}
			return r
		}
		return nd.ExecResult{Out: outs[0]}
	})
	off := nd.Choice("off", 2) == 1
	if off {
		m.state = "off"
	}

	wi, err := New(m, "w", []string{"on"}, nil, "fail", "success", "", 0, map[string]any{"p": p})
	nd.Assert(err == nil, "a watcher could not be made")
	w := wi.(*Watcher)
	ctx := context.Background()
	first := w.LastMetric()
	nd.Assert(len(first.GetMetrics()) == 0, "there are metrics before there are any")
	w.performWatch(ctx)
	kept := w.LastMetric()
	keptText := verifText(kept.GetMetrics())
	m.made, m.put = nil, nil
	notified := len(m.notified)
	w.performWatch(ctx)
	last := w.LastMetric()
	made := strings.Join(m.made, ",")
	nd.Observe("made", made)
	text := verifText(last.GetMetrics())
	same := last == kept || m.bad && text == keptText

	want := map[string]float64{}
	switch {
	case off:
		nd.Reach("inactive")
		nd.Assert(run == 0 && made == "" && len(m.notified) == 0, "a metric is gathered while not active")
		return
	case p.Command != "run 'a b'":
		nd.Reach("blank")
		nd.Assert(run == 0 && made == "" && len(last.GetMetrics()) == 0 && len(m.notified) == 0, "metrics are made without a command")
		return
	case nd.Or(fail, code != 0, took > 1000):
		nd.Reach("error")
		nd.Assert(made == "" && same && m.put == nil && len(m.notified) == notified, "metrics are taken from a command that failed")
		return
	case p.StoreAsData && m.bad:
		nd.Reach("error")
		nd.Assert(m.put == nil, "data was stored")
		return
	}
	switch oi {
	case 0:
		want["a"] = 1
	case 1:
		want["b"] = 2
	case 4:
		nd.Reach("invalid")
		nd.Assert(made == "fail" && same && m.put == nil, "metrics are taken from invalid output")
		return
	case 5:
		nd.Reach("perf")
		want["a"], want["b"] = 1, 2
	default:
		nd.Reach("nothing")
	}
	if oi < 4 {
		nd.Reach("json")
	}
	nd.Assert(made == "", "a metric makes a transition")
	nd.Assert(!same && len(m.notified) == notified+1, "a metric was not published")
	n := m.notified[notified].Metrics
	_, timed := last.GetMetrics()["choria_runtime_seconds"]
	nd.Assert(timed && len(last.GetMetrics()) == len(want)+1 && len(n.Metrics) == len(want)+1, "there are other metrics than the command made")
	for k, v := range want {
		nd.Assert(n.Metrics[k] == v && last.GetMetrics()[k] == v, "a metric has another value than the command gave it")
	}
	if labelled {
		nd.Assert(n.Labels["l"] == "v" && last.GetLabels()["l"] == "v", "a label is missing")
	}
	if oi == 0 {
		nd.Assert(n.Labels["x"] == "y", "a label is missing")
	}
	nd.Assert(last.GetTime() == nd.Now().Unix(), "a metric has another time")
	if p.StoreAsData {
		nd.Reach("stored")
		d := m.put["metric"].(map[string]any)["w"].(*Metric)
		for k, v := range want {
			nd.Assert(d.Metrics[k] == v, "a metric was stored with another value")
		}
	}

	w.performWatch(ctx)
	w.CurrentState()
	nd.Assert(verifText(kept.GetMetrics()) == keptText && verifText(last.GetMetrics()) == text, "metrics changed after being handed out")
	for i, s := range m.notified {
		nd.Assert(verifText(s.Metrics.Metrics) == m.texts[i], "metrics changed while being published")
	}
}

//verif:harness prop=W13 reach=saved,failed,stale,deleted deadlock=violation clock=frozen delays=0 samples=8 timers=40 seconds=60
//verif:bounds one or seven watchers that gather a metric each twice, a second or any time of up to two seconds apart, where any one file operation may fail and one of them then stops and is deleted or just stops
func VerifProm() {
	nd.FSReset()
	nd.FSDir("/t")
	metrics = map[string]*Metric{}
	m := &verifMachine{state: "on"}
	nd.Exec(func(c *nd.Cmd) nd.ExecResult {
		return nd.ExecResult{Out: fmt.Sprintf(`{"metrics":{"a":%s},"labels":{"x":"y"}}`, c.Args[1])}
	})
	n := 1 + 6*nd.Choice("watchers", 2)
	var ws []*Watcher
	for i := 0; i < n; i++ {
		p := properties{Command: fmt.Sprintf("run %d", i+1), Interval: 2 * time.Second, Labels: map[string]string{}}
		wi, err := New(m, fmt.Sprintf("w%d", i), []string{"on"}, nil, "fail", "success", "", 0, map[string]any{"p": p})
		nd.Assert(err == nil, "a watcher could not be made")
		ws = append(ws, wi.(*Watcher))
	}
	const file = "/t/choria_machine_metrics_watcher_status.prom"
	saved := func(i int) bool {
		got, _ := nd.FSGet(file)
		for _, l := range strings.Split(got, "\n") {
			if strings.HasPrefix(l, fmt.Sprintf("choria_machine_metric_watcher_w%d_a{", i)) && strings.Contains(l, `x="y"`) && strings.HasSuffix(l, fmt.Sprintf("} %d.000000", i+1)) {
				return true
			}
		}
		return false
	}
	check := func(want func(i int) bool) {
		got, _ := nd.FSGet(file)
		for i := 0; i < n; i++ {
			nd.Assert(saved(i) == want(i), "the metrics that are saved are not those of the machines")
			nd.Assert(strings.Count(got, fmt.Sprintf("# TYPE choria_machine_metric_watcher_w%d_a ", i)) < 2, "a metric is described twice")
		}
		for _, f := range nd.FSPaths("/t/") {
			nd.Assert(f == file, "a temporary file is left behind")
		}
	}
	ctx := context.Background()
	for _, w := range ws {
		w.performWatch(ctx)
	}
	check(func(int) bool { return true })
	gap := nd.Int("gap", 1000, 2000)
	time.Sleep(time.Duration(gap) * time.Millisecond)
	fault, ops, failed, removing := nd.Int("fault", 0, 5), 0, false, false
	nd.FSFaults(func(op, path string) error {
		ops++
		if ops == fault {
			failed, removing = true, op == "remove"
			return errors.New("simulated")
		}
		return nil
	})
	ws[0].performWatch(ctx)
	nd.FSFaults(nil)
	nd.Assert(len(m.made) == 0, "a metric makes a transition")
	if !removing {
		check(func(int) bool { return true })
	}
	nd.Observe("failed", failed)
	if failed {
		nd.Reach("failed")
		return
	}
	nd.Reach("saved")
	for i := 1; i < n; i++ {
		ws[i].performWatch(ctx)
	}
	if nd.Choice("deleted", 2) == 1 {
		nd.Reach("deleted")
		ws[n-1].Delete()
		check(func(i int) bool { return i < n-1 })
		return
	}
	if n == 1 {
		return
	}
	// the first stops without being deleted
	for r := 0; r < 10; r++ {
		time.Sleep(2 * time.Second)
		for i := 1; i < n; i++ {
			ws[i].performWatch(ctx)
		}
		check(func(i int) bool {
			if i > 0 {
				return true
			}
			return r < 4 || r < 9 && saved(0)
		})
	}
	nd.Reach("stale")
}

//verif:harness prop=W13 reach=on,off,stopped deadlock=violation clock=frozen delays=0 samples=6 timers=40 seconds=60
//verif:bounds a watcher with any splay over four intervals, whose machine leaves its active state at any time in the first two and returns after one more or does not, and is then stopped
func VerifRun() {
	nd.FSReset()
	m := &verifMachine{state: "on"}
	metrics = map[string]*Metric{}
	runs := 0
	nd.Exec(func(c *nd.Cmd) nd.ExecResult {
		runs++
		return nd.ExecResult{Out: `{"metrics":{"a":1}}`}
	})
	wi, err := New(m, "w", []string{"on"}, nil, "fail", "success", "", 0, map[string]any{"p": properties{Command: "run", Interval: 2 * time.Second, Labels: map[string]string{}, SkipPrometheus: true}})
	nd.Assert(err == nil, "a watcher could not be made")
	w := wi.(*Watcher)
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	go w.Run(ctx, wg)
	count := func(d time.Duration) int {
		runs = 0
		time.Sleep(d)
		return runs
	}
	n := count(2010 * time.Millisecond)
	nd.Assert(n == 1 || n == 2, "metrics are not gathered within the first interval")
	nd.Assert(len(w.LastMetric().GetMetrics()) == 2, "metrics that were gathered are not kept")
	time.Sleep(time.Duration(nd.Int("leaves", 0, 2000)) * time.Millisecond)
	m.state = "off"
	w.NotifyStateChance()
	nd.Assert(count(4*time.Second) == 0, "metrics are gathered while not active")
	nd.Reach("off")
	if nd.Choice("returns", 2) == 1 {
		nd.Reach("on")
		m.state = "on"
		w.NotifyStateChance()
		nd.Assert(count(10*time.Millisecond) >= 1, "metrics are not gathered when entering an active state")
		n := count(6500 * time.Millisecond)
		nd.Assert(n >= 3 && n <= 4, "metrics are not gathered once every interval")
	}
	cancel()
	wg.Wait()
	nd.Assert(count(4*time.Second) == 0, "metrics are gathered after the machine stopped")
	nd.Reach("stopped")
}
