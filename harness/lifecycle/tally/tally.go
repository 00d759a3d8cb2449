package tally

import (
	"context"
	"errors"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/lifecycle"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:clock . lifecycle
//verif:hours . lifecycle
//verif:method WithLabelValues verifVec
//verif:override Recorder.createStats
//verif:replace github.com/choria-io/go-choria/lifecycle.NewFromJSON verifParse

func (r *Recorder) createStats() {}

// verifMetric is a metric with its labels
type verifMetric struct {
	labels []string
	value  int
	gauge  bool
}

func (m *verifMetric) Inc()            { m.value++ }
func (m *verifMetric) Dec()            { m.value-- }
func (m *verifMetric) Observe(float64) {}

var verifGauges []*verifMetric

// verifVec keeps the values of the metric with three labels that is a gauge, the tally
func verifVec(v any, labels ...string) *verifMetric {
	if _, ok := v.(interface{ verifGauge() }); ok {
		return nil
	}
	for _, m := range verifGauges {
		same := len(m.labels) == len(labels)
		for i := range labels {
			same = same && m.labels[i] == labels[i]
		}
		if same {
			return m
		}
	}
	m := &verifMetric{labels: labels}
	verifGauges = append(verifGauges, m)
	return m
}

type verifNode struct {
	component, host string
	known           bool
	version, label  string
	seen            time.Time
}

// verifTally compares all values of the tally to the nodes that are known
func verifTally(nodes []*verifNode) {
	total := 0
	for _, m := range verifGauges {
		// the tally is the only metric with these labels
		if len(m.labels) != 3 || (m.labels[0] != "server" && m.labels[0] != "broker") || len(m.labels[1]) != 3 {
			continue
		}
		want := 0
		for _, n := range nodes {
			if n.known && n.component == m.labels[0] && n.version == m.labels[1] && n.label == m.labels[2] {
				want++
			}
		}
		nd.Assert(m.value >= 0, "the tally of a version is negative")
		nd.Assert(m.value == want, "the tally of a version is not the number of nodes that are known to run it")
		total += m.value
	}
	want := 0
	for _, n := range nodes {
		if n.known {
			want++
		}
	}
	nd.Assert(total == want, "the tally of all versions is not the number of nodes that are known")
}

func verifRecorder() (*Recorder, *verifMsgConn, bool) {
	verifGauges = nil
	conn := &verifMsgConn{}
	opts := []Option{Component("server"), StatsPrefix("verif"), Connection(conn), Logger(logrus.NewEntry(logrus.New()))}
	leader := true
	if nd.OneOf("election", "no", "yes") == "yes" {
		opts = append(opts, Election("e"))
		leader = false
	}
	r, err := New(opts...)
	nd.Assert(err == nil, "a recorder is refused")
	r.options.Election = ""
	return r, conn, leader
}

func verifEvent(kind string, n *verifNode, version string) lifecycle.Event {
	o := []lifecycle.Option{lifecycle.Identity(n.host), lifecycle.Component(n.component)}
	t := lifecycle.Shutdown
	switch kind {
	case "startup":
		t = lifecycle.Startup
		o = append(o, lifecycle.Version(version))
	case "alive":
		t = lifecycle.Alive
		o = append(o, lifecycle.Version(version))
	}
	e, err := lifecycle.New(t, o...)
	nd.Assert(err == nil, "an event cannot be made")
	return e
}

//verif:harness prop=L01 reach=counted,expired,stopped,upgraded,follower,refreshed clock=frozen horizon=10h t.maxdepth=0
//verif:bounds histories of 4 (thorough: 5) events for two nodes that have the same name or component, each a startup, alive or shutdown with any of 3 versions, a change in leadership, or any number of minutes up to 100 and the removal of nodes that were not seen for 80
func VerifHistory() {
	nd.Hours()
	r, _, leader := verifRecorder()
	nodes := []*verifNode{{component: "server", host: "n1"}, {component: "server", host: "n2"}}
	if nd.OneOf("nodes", "hosts", "components") == "components" {
		nodes = []*verifNode{{component: "server", host: "n1"}, {component: "broker", host: "n1"}}
	}
	steps := 4
	if nd.Thorough() {
		steps = 5
	}
	label := func() string {
		if leader {
			return "1"
		}
		return "0"
	}
	for i := 0; i < steps; i++ {
		ops := []string{"alive", "startup", "shutdown", "time", "leader"}
		if i == 0 {
			ops = ops[:2]
		}
		op := nd.OneOf("op", ops...)
		var n *verifNode
		version := "1.0"
		if op == "alive" || op == "startup" || op == "shutdown" {
			n = nodes[0]
			if i > 0 {
				n = nodes[nd.Choice("node", 2)]
			}
		}
		if i > 0 && (op == "alive" || op == "startup") {
			version = string([]byte{nd.Uint8("version", '1', '3'), '.', '0'})
		}
		switch op {
		case "alive", "startup":
			nd.Assert(r.process(verifEvent(op, n, version)) == nil, "an event is refused")
			if n.known && version != n.version {
				nd.Reach("upgraded")
			}
			if n.known && nd.Since(n.seen) > 0 {
				nd.Reach("refreshed")
			}
			// a node that says nothing new remains counted where it is
			if !n.known || op == "startup" || n.version != version {
				n.label = label()
			}
			n.known, n.version, n.seen = true, version, nd.Now()
			if !leader {
				nd.Reach("follower")
			}
			nd.Reach("counted")
		case "shutdown":
			nd.Assert(r.process(verifEvent(op, n, "")) == nil, "an event is refused")
			if n.known {
				nd.Reach("stopped")
			}
			n.known = false
		case "time":
			nd.Sleep(time.Duration(nd.Int("minutes", 1, 100)) * time.Minute)
			r.maintenance()
			for _, n := range nodes {
				if n.known && nd.Since(n.seen) > 80*time.Minute {
					n.known = false
					nd.Reach("expired")
				}
			}
		case "leader":
			leader = !leader
			if leader {
				r.wonCb()
			} else {
				r.lostCb()
			}
		}
		verifTally(nodes)
	}
}

// verifMsgConn gives the channels of subscriptions
type verifMsgConn struct {
	inter.Connector
	subs []string
	out  map[string]chan inter.ConnectorMessage
	fail int
}

func (c *verifMsgConn) QueueSubscribe(ctx context.Context, name string, subject string, group string, output chan inter.ConnectorMessage) error {
	if len(c.subs)+1 == c.fail {
		return errors.New("simulated")
	}
	if c.out == nil {
		c.out = map[string]chan inter.ConnectorMessage{}
	}
	for _, s := range c.subs {
		nd.Assert(s != name, "two subscriptions have the same name")
	}
	nd.Assert(group == "", "events are shared with other recorders")
	c.subs = append(c.subs, name)
	c.out[subject] = output
	return nil
}

type verifMsg struct {
	inter.ConnectorMessage
	data []byte
}

func (m *verifMsg) Data() []byte    { return m.data }
func (m *verifMsg) Subject() string { return "choria.lifecycle.event.x.server" }

var verifEvents []lifecycle.Event

func verifParse(j []byte) (lifecycle.Event, error) {
	if j[0] == 'x' {
		return nil, errors.New("simulated")
	}
	return verifEvents[j[0]-'0'], nil
}

//verif:harness prop=L01 reach=run,expired,malformed,refused clock=frozen delays=0 horizon=10h maxconc=0 timers=400
//verif:bounds a recorder that gets an alive or malformed event every 30 or 85 minutes for 3 times while running, where any subscription may fail
func VerifRun() {
	nd.Hours()
	r, conn, _ := verifRecorder()
	conn.fail = nd.Int("fail", 0, 3)
	ctx, cancel := context.WithCancel(context.Background())
	var err error
	done := false
	go func() {
		err = r.Run(ctx)
		done = true
	}()
	nd.Sleep(time.Second)
	if done {
		nd.Assert(err != nil && conn.fail > 0, "a recorder stops")
		nd.Reach("refused")
		cancel()
		return
	}
	nd.Assert(conn.fail == 0, "a recorder runs that does not get events")
	in := conn.out["choria.lifecycle.event.*.server"]
	nd.Assert(in != nil && len(conn.out) == 3, "a recorder listens for other events")
	n := &verifNode{component: "server", host: "n1"}
	label := r.activeLabel()
	verifEvents = []lifecycle.Event{verifEvent("alive", n, "1.0")}
	for i := 0; i < 3; i++ {
		if nd.OneOf("event", "alive", "malformed") == "alive" {
			in <- &verifMsg{data: []byte("0")}
			n.known, n.version, n.label, n.seen = true, "1.0", label, nd.Now()
		} else {
			in <- &verifMsg{data: []byte("x")}
			nd.Reach("malformed")
		}
		time.Sleep(0)
		verifTally([]*verifNode{n})
		nd.Sleep([]time.Duration{30 * time.Minute, 85 * time.Minute}[nd.Choice("wait", 2)])
		if n.known && nd.Since(n.seen) > 82*time.Minute {
			n.known = false
			nd.Reach("expired")
		}
		verifTally([]*verifNode{n})
	}
	cancel()
	time.Sleep(0)
	nd.Assert(done && err == nil, "a recorder does not stop")
	nd.Reach("run")
}
