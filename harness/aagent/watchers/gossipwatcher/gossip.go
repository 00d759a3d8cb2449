package gossipwatcher

import (
	"context"
	"errors"
	"sync"
	"time"

	"github.com/choria-io/go-choria/aagent/model"
	"github.com/nats-io/jsm.go"
	"github.com/nats-io/nats.go"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with aagent/watchers/watcher/template.go
//verif:clock .
//verif:replace github.com/choria-io/go-choria/aagent/util.ParseMapStructure verifProperties
//verif:method PublishMsg verifPublish
//verif:method NatsConn verifConn

func verifProperties(props map[string]any, target any) error {
	*(target.(*properties)) = props["p"].(properties)
	return nil
}

type verifMachine struct {
	model.Machine
	mu    sync.Mutex
	state string
	fail  bool
	count int
	wrong bool
	msg   *nats.Msg
}

var verifM *verifMachine

func (m *verifMachine) Name() string                    { return "m" }
func (m *verifMachine) Identity() string                { return "i" }
func (m *verifMachine) InstanceID() string              { return "1" }
func (m *verifMachine) Version() string                 { return "1" }
func (m *verifMachine) TimeStampSeconds() int64         { return 1 }
func (m *verifMachine) Debugf(string, string, ...any)   {}
func (m *verifMachine) Infof(string, string, ...any)    {}
func (m *verifMachine) Warnf(string, string, ...any)    {}
func (m *verifMachine) Errorf(string, string, ...any)   {}
func (m *verifMachine) NotifyWatcherState(string, any)  {}
func (m *verifMachine) Transition(string, ...any) error { return nil }
func (m *verifMachine) JetStreamConnection() (*jsm.Manager, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.fail {
		return nil, errors.New("simulated")
	}
	return &jsm.Manager{}, nil
}
func (m *verifMachine) State() string {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.state
}

var verifNC = &nats.Conn{}

func verifConn(*jsm.Manager) *nats.Conn { return verifNC }

func verifPublish(nc *nats.Conn, msg *nats.Msg) error {
	verifM.mu.Lock()
	defer verifM.mu.Unlock()
	nd.Assert(nc == verifNC, "gossip is not published on the connection of the machine")
	verifM.count++
	verifM.msg = msg
	return nil
}

func verifCount() int {
	verifM.mu.Lock()
	defer verifM.mu.Unlock()
	n := verifM.count
	verifM.count = 0
	return n
}

//verif:harness prop=W12 reach=active,inactive,restarted,stopped deadlock=violation clock=frozen preempt=1 delays=2 samples=6 timers=16 seconds=90
//verif:bounds up to three changes of state in and out of the active state, at once or up to any 1500 milliseconds apart, with any one preemption and any two delays of goroutines, over three intervals, with or without the connection failing at first
func VerifGossip() {
	verifM = &verifMachine{state: "on"}
	m := verifM
	m.fail = nd.Choice("not connected", 2) == 1
	if nd.Choice("starts", 2) == 1 {
		m.state = "off"
	}
	ttl := nd.Choice("ttl", 2) * 60
	wi, err := New(m, "w", []string{"on"}, nil, "fail", "success", "2s", 0, map[string]any{"p": properties{Subject: "s", Payload: "p", TTLSeconds: ttl}})
	nd.Assert(err == nil, "a watcher could not be made")
	w := wi.(*Watcher)
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	go w.Run(ctx, wg)
	time.Sleep(500 * time.Millisecond)
	m.mu.Lock()
	m.fail = false
	m.mu.Unlock()

	n := nd.Choice("changes", 4)
	gap := 0
	if n > 0 {
		gap = nd.Int("gap", 0, 1500)
	}
	for i := 0; i < n; i++ {
		m.mu.Lock()
		if m.state == "on" {
			m.state = "off"
		} else {
			m.state = "on"
		}
		m.mu.Unlock()
		w.NotifyStateChance()
		if gap > 0 {
			time.Sleep(time.Duration(gap) * time.Millisecond)
		}
	}
	if n > 1 {
		nd.Reach("restarted")
	}
	time.Sleep(100 * time.Millisecond)
	nd.Quiesce()
	verifCount()
	time.Sleep(4 * time.Second)
	nd.Quiesce()
	count := verifCount()
	nd.Observe("count", count)
	if m.State() == "on" {
		nd.Reach("active")
		nd.Assert(count == 2, "gossip is not published once every interval while active")
		nd.Assert(m.msg.Subject == "s" && string(m.msg.Data) == "p", "something else was published")
		want := ""
		if ttl > 0 {
			want = "60s"
		}
		nd.Assert(m.msg.Header.Get(nats.MsgTTLHdr) == want, "the life time of gossip is not set")
	} else {
		nd.Reach("inactive")
		nd.Assert(count == 0, "gossip is published while not active")
	}

	cancel()
	wg.Wait()
	nd.Quiesce()
	verifCount()
	time.Sleep(4 * time.Second)
	nd.Reach("stopped")
	nd.Assert(verifCount() == 0, "gossip is published after the machine stopped")
}

//verif:harness prop=W12 reach=valid,invalid samples=8 seconds=60
//verif:bounds registrations of which each of the fields is valid, missing or not valid, with any port, with and without a prefix, and with a subject or payload given as well
func VerifRegistration() {
	m := &verifMachine{state: "on"}
	names := []string{"c1", "", "1c", "c.d", "c d", "c>"}
	ci, si, pi := nd.Choice("cluster", len(names)), nd.Choice("service", len(names)), nd.Choice("protocol", len(names))
	ips := []string{"192.168.1.1", "::1", "", "192.168.1", "host"}
	ii := nd.Choice("ip", len(ips))
	bad := 0
	for _, b := range []bool{ci > 0, si > 0, pi > 0, ii > 1} {
		if b {
			bad++
		}
	}
	if bad > 1 { // each is checked on its own
		nd.Cut()
	}
	r := &Registration{Cluster: names[ci], Service: names[si], Protocol: names[pi], IP: ips[ii], Port: uint(nd.Uint64("port", 0, 3))}
	prefix := nd.Choice("prefix", 3)
	r.Prefix = []string{"", "pre.fix", "pre.*"}[prefix]
	p := properties{Registration: r}
	extra := nd.Choice("extra", 3)
	switch extra {
	case 1:
		p.Subject = "s"
	case 2:
		p.Payload = "p"
	}
	interval := []string{"", "2s", "-2s", "x"}[nd.Choice("interval", 4)]
	wi, err := New(m, "w", []string{"on"}, nil, "fail", "success", interval, 0, map[string]any{"p": p})
	valid := nd.And(bad == 0, r.Port > 0, prefix != 2, extra == 0, interval == "" || interval == "2s")
	nd.Observe("ok", err == nil)
	nd.Assert((err == nil) == valid, "a registration is not validated")
	if err != nil {
		nd.Reach("invalid")
		return
	}
	nd.Reach("valid")
	want := "$KV.CHORIA_SERVICES.c1.c1.c1.1"
	if prefix == 1 {
		want = "pre.fix.c1.c1.c1.1"
	}
	w := wi.(*Watcher)
	nd.Assert(w.properties.Subject == want, "a service is registered as another one")
	nd.Assert(w.interval > 0, "a watcher has no interval")
}
