package server

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"sync"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/message"
	"github.com/choria-io/go-choria/protocol"
	v2 "github.com/choria-io/go-choria/protocol/v2"
	"github.com/choria-io/go-choria/server/agents"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with config/new.go
//verif:clock . message protocol/v2 server/agents
//verif:fs filter/classes

type verifTransport struct {
	protocol.TransportMessage
}

func (t *verifTransport) ReplyTo() string                     { return "reply.here" }
func (t *verifTransport) IsFederated() bool                   { return false }
func (t *verifTransport) FederationReplyTo() (string, bool)   { return "", false }
func (t *verifTransport) FederationRequestID() (string, bool) { return "", false }
func (t *verifTransport) NetworkHops() [][3]string            { return nil }

type verifRaw struct{ inter.ConnectorMessage }

func (verifRaw) Data() []byte    { return []byte("{}") }
func (verifRaw) Subject() string { return "c1.broadcast.agent.a1" }

type verifFW struct {
	inter.Framework
	cfg                        *config.Config
	transport, signed, decoded bool
	body                       []byte
	ids                        int
}

func (f *verifFW) Configuration() *config.Config             { return f.cfg }
func (f *verifFW) Logger(string) *logrus.Entry               { return logrus.NewEntry(logrus.New()) }
func (f *verifFW) CallerID() string                          { return "up=server" }
func (f *verifFW) ProvisionMode() bool                       { return false }
func (f *verifFW) HasCollective(c string) bool               { return c == "c1" }
func (f *verifFW) RequestProtocol() protocol.ProtocolVersion { return protocol.RequestV2 }
func (f *verifFW) NewRequestID() (string, error)             { f.ids++; return string(rune('A' + f.ids)), nil }
func (f *verifFW) NewTransportFromJSON(d []byte) (protocol.TransportMessage, error) {
	if !f.transport {
		return nil, errors.New("simulated")
	}
	return &verifTransport{}, nil
}
func (f *verifFW) NewSecureRequestFromTransport(t protocol.TransportMessage, skip bool) (protocol.SecureRequest, error) {
	if !skip && !f.signed {
		return nil, errors.New("simulated")
	}
	return &v2.SecureRequest{Protocol: protocol.SecureRequestV2, MessageBody: f.body}, nil
}
func (f *verifFW) NewRequestFromSecureRequest(s protocol.SecureRequest) (protocol.Request, error) {
	if !f.decoded {
		return nil, errors.New("simulated")
	}
	return v2.NewRequestFromSecureRequest(s)
}
func (f *verifFW) NewMessageFromRequest(req protocol.Request, replyto string) (inter.Message, error) {
	return message.NewMessageFromRequest(req, replyto, f)
}

type verifConn struct {
	inter.Connector
	sent   []inter.Message
	closed int
	raw    int
}

func (c *verifConn) QueueSubscribe(ctx context.Context, name string, subject string, group string, out chan inter.ConnectorMessage) error {
	return nil
}
func (c *verifConn) AgentBroadcastTarget(collective string, agent string) string {
	return collective + agent
}
func (c *verifConn) ServiceBroadcastTarget(collective string, agent string) string {
	return collective + agent
}
func (c *verifConn) Publish(m inter.Message) error       { c.sent = append(c.sent, m); return nil }
func (c *verifConn) PublishRaw(t string, d []byte) error { c.raw++; return nil }
func (c *verifConn) Close()                              { c.closed++ }
func (c *verifConn) ConnectedServer() string             { return "broker" }

type verifAgent struct {
	agents.Agent
	name   string
	mode   string
	ran    int
	done   int
	msg    []byte
	caller string
}

func (a *verifAgent) Metadata() *agents.Metadata {
	return &agents.Metadata{Name: a.name, Version: "1.0.0", Timeout: 1}
}
func (a *verifAgent) Name() string                          { return a.name }
func (a *verifAgent) SetServerInfo(agents.ServerInfoSource) {}
func (a *verifAgent) ServerInfo() agents.ServerInfoSource   { return nil }
func (a *verifAgent) ShouldActivate() bool                  { return true }
func (a *verifAgent) HandleMessage(ctx context.Context, m inter.Message, req protocol.Request, conn inter.ConnectorInfo, out chan *agents.AgentReply) {
	a.ran++
	a.msg = m.Payload()
	a.caller = req.CallerID()
	defer func() { a.done++ }()
	switch a.mode {
	case "replies":
		out <- &agents.AgentReply{Body: []byte("result"), Message: m, Request: req}
	case "fails":
		out <- &agents.AgentReply{Body: []byte("result"), Message: m, Request: req, Error: errors.New("simulated")}
	case "late":
		time.Sleep(1500 * time.Millisecond)
		out <- &agents.AgentReply{Body: []byte("result"), Message: m, Request: req}
	}
}

//verif:harness prop=P01 reach=ran,dropped,replied horizon=1m deadlock=violation clock=frozen samples=6 preempt=0
//verif:bounds one request from the network with any outcome of the transport, signature and request checks, verification on or off, for one of two agents or an unknown one, in a known or unknown collective, with no filter or an identity, class or agent filter of up to 2 bytes, any creation time within a year of now and TTL of 1 second to 10 years; agents that reply, fail or reply too late
func VerifPipeline() {
	fw := &verifFW{cfg: config.VerifNew(), transport: nd.Bool("transport.ok"), signed: nd.Bool("signed"), decoded: nd.Bool("decoded")}
	fw.cfg.Identity = "n1"
	fw.cfg.Collectives = []string{"c1"}
	fw.cfg.MainCollective = "c1"
	fw.cfg.TTL = 60
	nd.FSReset()
	nd.FSPut("/classes", "klass\n")
	fw.cfg.ClassesFile = "/classes"
	fw.cfg.Choria.LegacyLifeCycleFormat = true
	fw.cfg.DisableSecurityProviderVerify = nd.Bool("verify.disabled")

	agent := nd.OneOf("agent", "a1", "a2", "other")
	collective := nd.OneOf("collective", "c1", "c2")
	ttl := []int{1, 60, 3600, 10 * 365 * 86400}[nd.Choice("ttl", 4)]
	age := nd.Int64("age", -365*86400*1e9, 365*86400*1e9)
	start := nd.Now()
	created := start.Add(-time.Duration(age))
	doc := map[string]any{"protocol": "io.choria.protocol.v2.request", "message": []byte("aGVsbG8="), "id": "id1", "sender": "client", "caller": "up=client", "collective": collective, "agent": agent, "ttl": ttl, "time": created.UnixNano()}
	none := []string{}
	filter := map[string]any{"fact": []any{}, "cf_class": none, "agent": none, "identity": none, "compound": []any{}}
	matches := true
	switch nd.OneOf("filter", "none", "identity", "agent", "class") {
	case "identity":
		id := "n" + nd.StringOf("identity", 2, "12/.")
		filter["identity"] = []string{id}
		doc["filter"] = filter
		matches = nd.StrEq(id, "n1")
	case "agent":
		id := "a" + nd.StringOf("filter.agent", 2, "123")
		filter["agent"] = []string{id}
		doc["filter"] = filter
		matches = nd.Or(nd.StrEq(id, "a1"), nd.StrEq(id, "a2"))
	case "class":
		id := "k" + nd.StringOf("class", 4, "las.")
		filter["cf_class"] = []string{id}
		doc["filter"] = filter
		matches = nd.StrEq(id, "klass")
	}
	fw.body, _ = json.Marshal(doc)

	srv, err := NewInstance(fw)
	nd.Assert(err == nil, "the server could not be made")
	conn := &verifConn{}
	srv.connector = conn
	srv.agents = agents.New(srv.requests, fw, conn, srv, fw.Logger(""))
	mode := nd.OneOf("mode", "replies", "fails", "late")
	a1, a2 := &verifAgent{name: "a1", mode: mode}, &verifAgent{name: "a2", mode: mode}
	nd.Assert(srv.agents.RegisterAgent(context.Background(), "a1", a1, conn) == nil && srv.agents.RegisterAgent(context.Background(), "a2", a2, conn) == nil, "the agents could not be registered")

	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	before := nd.Now()
	srv.requests <- verifRaw{}
	go srv.processRequests(ctx, wg)
	nd.Quiesce()
	after := nd.Now()
	time.Sleep(2000 * time.Millisecond)
	nd.Quiesce()

	ttld := time.Duration(ttl) * time.Second
	ours := nd.And(fw.transport, nd.Or(fw.signed, fw.cfg.DisableSecurityProviderVerify), fw.decoded, collective == "c1", agent != "other", matches)
	// how old it is depends on when it is looked at, between before and after
	surely := nd.And(ours, after.Sub(created) < ttld, created.Sub(before) < ttld)
	maybe := nd.And(ours, before.Sub(created) < ttld, created.Sub(after) < ttld)
	ran := a1.ran + a2.ran
	if ran > 0 {
		nd.Reach("ran")
	} else {
		nd.Reach("dropped")
	}
	nd.Assert(nd.Implies(ran > 0, maybe), "a request was run that is not verified, not for this node or too old")
	nd.Assert(nd.Implies(surely, ran > 0), "a good request was not run")
	nd.Assert(ran <= 1, "a request was run twice")
	if ran == 1 {
		who := a1
		if agent == "a2" {
			who = a2
		}
		nd.Assert(who.ran == 1, "a request was run by another agent")
		nd.Assert(bytes.Equal(who.msg, []byte("hello")) && who.caller == "up=client", "the agent got another request")
	}
	want := 0
	if ran == 1 && mode == "replies" {
		nd.Reach("replied")
		want = 1
	}
	nd.Assert(len(conn.sent) == want, "the reply was not published exactly once")
	if want == 1 && len(conn.sent) == 1 {
		m := conn.sent[0]
		nd.Assert(m.Type() == inter.ReplyMessageType && m.ReplyTo() == "reply.here" && m.RequestID() == "id1" && bytes.Equal(m.Payload(), []byte("result")), "the reply published is not the reply to the request")
	}
	nd.Observe("ran", ran)
	nd.Assert(a1.done+a2.done == ran, "an agent that replied is stuck forever")
	cancel()
	nd.Quiesce()
	nd.Assert(conn.closed == 1, "the processor did not stop when interrupted")
	wg.Wait()
}
