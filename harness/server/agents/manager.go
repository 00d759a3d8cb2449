package agents

import (
	"context"
	"errors"
	"fmt"
	"sort"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/protocol"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with config/new.go

type verifFW struct {
	inter.Framework
	cfg *config.Config
}

func (f *verifFW) Configuration() *config.Config { return f.cfg }

// verifConn is a connection that knows what is subscribed and fails when told to
type verifConn struct {
	inter.Connector
	subs   map[string]string // name to target and group
	calls  int
	failAt int    // the call that fails
	failed string // the subscription that could not be made
	left   string // the subscription that could not be removed
}

func (c *verifConn) QueueSubscribe(ctx context.Context, name string, subject string, group string, out chan inter.ConnectorMessage) error {
	c.calls++
	if c.calls == c.failAt {
		c.failed = name
		return errors.New("simulated")
	}
	if _, ok := c.subs[name]; ok {
		return fmt.Errorf("%s is subscribed", name)
	}
	c.subs[name] = subject + " " + group
	return nil
}
func (c *verifConn) Unsubscribe(name string) error {
	c.calls++
	if c.calls == c.failAt {
		c.left = name
		return errors.New("simulated")
	}
	delete(c.subs, name)
	return nil
}
func (c *verifConn) AgentBroadcastTarget(collective string, agent string) string {
	return collective + ".agent." + agent
}
func (c *verifConn) ServiceBroadcastTarget(collective string, agent string) string {
	return collective + ".service." + agent
}

type verifAgent struct {
	name      string
	timeout   int
	service   bool
	active    bool
	serverSet bool
}

func (a *verifAgent) Metadata() *Metadata {
	return &Metadata{Name: a.name, Version: "1.0.0", Timeout: a.timeout, Service: a.service}
}
func (a *verifAgent) Name() string                   { return a.name }
func (a *verifAgent) SetServerInfo(ServerInfoSource) { a.serverSet = true }
func (a *verifAgent) ServerInfo() ServerInfoSource   { return nil }
func (a *verifAgent) ShouldActivate() bool           { return a.active }
func (a *verifAgent) HandleMessage(context.Context, inter.Message, protocol.Request, inter.ConnectorInfo, chan *AgentReply) {
}

func verifMakeAgent() *verifAgent {
	a := &verifAgent{name: "x", timeout: 10, active: true}
	switch nd.OneOf("kind", "good", "service", "inactive", "timeless", "nameless") {
	case "service":
		a.service = true
	case "inactive":
		a.active = false
	case "timeless":
		a.timeout = nd.Int("timeout", -1, 0)
	case "nameless":
		a.name = ""
	}
	return a
}

//verif:harness prop=P02 reach=registered,refused,removed,replaced
//verif:bounds 3 registrations (4 in thorough), removals and replacements of two agents that are good, service, inactive or invalid, in a server or a service host with one denied agent and two collectives, with any one of the first 5 calls to subscribe or unsubscribe failing at each step
func VerifManager() {
	cfg := config.VerifNew()
	cfg.Collectives = []string{"c1", "c2"}
	conn := &verifConn{subs: map[string]string{}}
	services := nd.OneOf("manager", "agents", "services") == "services"
	mgr := New(make(chan inter.ConnectorMessage, 1), &verifFW{cfg: cfg}, nil, nil, logrus.NewEntry(logrus.New()))
	if services {
		mgr = NewServices(make(chan inter.ConnectorMessage, 1), &verifFW{cfg: cfg}, nil, nil, logrus.NewEntry(logrus.New()))
	}
	mgr.DenyAgent("denied")

	known := map[string]*verifAgent{}
	stale := map[string]bool{}
	steps := 3
	if nd.Thorough() {
		steps = 4
	}
	for i := 0; i < steps; i++ {
		name := nd.OneOf("name", "a", "denied")
		conn.calls, conn.failAt, conn.failed = 0, nd.Int("fails", 1, 5), ""
		conn.left = ""
		before := stale["c1."+name] || stale["c2."+name]
		op := nd.OneOf("op", "register", "unregister", "replace")
		switch op {
		case "register":
			a := verifMakeAgent()
			valid := a.name != "" && a.timeout > 0
			err := mgr.RegisterAgent(context.Background(), name, a, conn)
			switch {
			case !valid:
				nd.Assert(err != nil, "an invalid agent was registered")
			case services && !a.service, !a.active, name == "denied":
				nd.Assert(err == nil, "declining an agent is not an error")
				nd.Reach("refused")
			case known[name] != nil:
				nd.Assert(err != nil, "an agent was registered twice")
			case conn.failed != "" || before:
				nd.Assert(err != nil, "an agent was registered without its subscriptions")
			default:
				nd.Assert(err == nil, "a good agent could not be registered")
				nd.Assert(a.serverSet, "an agent was not given access to its server")
				known[name] = a
				nd.Reach("registered")
			}
		case "unregister":
			err := mgr.UnregisterAgent(name, conn)
			nd.Assert((err == nil) == (known[name] != nil), "removing an agent that is known failed or one that is not succeeded")
			if known[name] != nil {
				nd.Reach("removed")
				delete(known, name)

			}
		case "replace":
			a := verifMakeAgent()
			err := mgr.ReplaceAgent(name, a)
			ok := a.name != "" && a.timeout > 0 && a.active && known[name] != nil && known[name].service == a.service
			nd.Assert((err == nil) == ok, "an agent was replaced by one that may not replace it, or could not be")
			if ok {
				nd.Assert(a.serverSet, "an agent was not given access to its server")
				known[name] = a
				nd.Reach("replaced")
			}
		}

		if conn.left != "" {
			stale[conn.left] = true
		}
		names, subs := []string{}, map[string]string{}
		for n, a := range known {
			names = append(names, n)
			got, ok := mgr.Get(n)
			nd.Assert(ok && got == Agent(a), "requests would go to another agent")
			for _, c := range cfg.Collectives {
				subs[c+"."+n] = c + ".agent." + n + " "
				if a.service {
					subs[c+"."+n] = c + ".service." + n + " " + n
				}
			}
		}
		sort.Strings(names)
		got := mgr.KnownAgents()
		nd.Assert(len(got) == len(names), "agents are known that are not registered, or not known")
		for k := range names {
			nd.Assert(got[k] == names[k], "agents are known that are not registered")
		}
		for k, v := range subs {
			nd.Assert(conn.subs[k] == v, "an agent is not subscribed to its requests")
		}
		for k := range conn.subs {
			_, ok := subs[k]
			nd.Assert(ok || stale[k], "requests are received for an agent that is not registered")
		}
	}
	nd.Observe("known", len(known))
}
