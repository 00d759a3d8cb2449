package message

import (
	"context"
	"errors"
	"time"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/protocol"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with config/new.go
//verif:clock .

type verifTransport struct {
	protocol.TransportMessage
	n  int
	to string
}

func (t *verifTransport) SetReplyTo(r string) { t.to = r }

type verifFW struct {
	inter.Framework
	cfg   *config.Config
	ids   int
	noID  bool
	made  []*verifTransport
	fails bool
}

func (f *verifFW) Configuration() *config.Config             { return f.cfg }
func (f *verifFW) CallerID() string                          { return "up=me" }
func (f *verifFW) RequestProtocol() protocol.ProtocolVersion { return protocol.RequestV2 }
func (f *verifFW) HasCollective(c string) bool               { return nd.StrIn(c, f.cfg.Collectives) }
func (f *verifFW) NewRequestID() (string, error) {
	if f.noID {
		return "", errors.New("simulated")
	}
	f.ids++
	return string(rune('A' + f.ids)), nil
}
func (f *verifFW) NewRequestTransportForMessage(ctx context.Context, m inter.Message, v protocol.ProtocolVersion) (protocol.TransportMessage, error) {
	if f.fails {
		return nil, errors.New("simulated")
	}
	t := &verifTransport{n: len(f.made)}
	f.made = append(f.made, t)
	return t, nil
}
func (f *verifFW) NewReplyTransportForMessage(m inter.Message, req protocol.Request) (protocol.TransportMessage, error) {
	t := &verifTransport{n: len(f.made)}
	f.made = append(f.made, t)
	return t, nil
}

type verifRequest struct {
	protocol.Request
	ttl     int
	created time.Time
}

func (r *verifRequest) Message() []byte                  { return []byte("aGVsbG8=") }
func (r *verifRequest) Agent() string                    { return "a" }
func (r *verifRequest) Collective() string               { return "c1" }
func (r *verifRequest) RequestID() string                { return "id" }
func (r *verifRequest) TTL() int                         { return r.ttl }
func (r *verifRequest) Time() time.Time                  { return r.created }
func (r *verifRequest) Filter() (*protocol.Filter, bool) { return protocol.NewFilter(), false }

func verifNewFW() *verifFW {
	cfg := config.VerifNew()
	cfg.Collectives = []string{"c1", "c2"}
	cfg.Identity = "n1"
	cfg.TTL = 60
	return &verifFW{cfg: cfg}
}

//verif:harness prop=M01 reach=fresh,stale clock=frozen
//verif:bounds requests with any TTL of 0 seconds to 70000 seconds created at any nanosecond within 2^47 nanoseconds (39 hours) of now, before or after
func VerifTTL() {
	start := nd.Now()
	req := &verifRequest{ttl: nd.Int("ttl", 0, 70000), created: start.Add(time.Duration(nd.Int64("age", -1<<47, 1<<47)))}
	msg, err := NewMessageFromRequest(req, "reply", verifNewFW())
	nd.Assert(err == nil, "a good request could not be taken")
	ok := msg.ValidateTTL()
	off := start.Sub(req.created)
	limit := time.Duration(req.ttl) * time.Second
	nd.Assert(ok == nd.And(off < limit, -off < limit), "a request was accepted further from now than its TTL, or refused within it")
	if ok {
		nd.Reach("fresh")
	} else {
		nd.Reach("stale")
	}
	nd.Observe("ok", ok)
}

//verif:harness prop=M01 reach=fresh,stale horizon=1h
//verif:bounds the same with a clock that moves on while the request is looked at, for requests of four TTLs
func VerifTTLClock() {
	start := nd.Now()
	ttl := []int{0, 1, 60, 86400}[nd.Choice("ttl", 4)]
	req := &verifRequest{ttl: ttl, created: start.Add(time.Duration(nd.Int64("age", -1<<47, 1<<47)))}
	msg, err := NewMessageFromRequest(req, "reply", verifNewFW())
	nd.Assert(err == nil, "a good request could not be taken")
	before := nd.Now()
	ok := msg.ValidateTTL()
	after := nd.Now()
	limit := time.Duration(ttl) * time.Second
	nd.Assert(nd.Implies(ok, nd.And(before.Sub(req.created) < limit, req.created.Sub(after) < limit)), "a request was accepted further from now than its TTL")
	nd.Assert(nd.Implies(nd.And(after.Sub(req.created) < limit, req.created.Sub(before) < limit), ok), "a request was refused within its TTL")
	if ok {
		nd.Reach("fresh")
	} else {
		nd.Reach("stale")
	}
	nd.Observe("ok", ok)
}

//verif:harness prop=M04 reach=made,refused
//verif:bounds messages to any agent of up to 1 byte and any collective of up to 3 bytes, of the five types and an unknown one, made anew or as a reply to another
func VerifNewMessage() {
	fw := verifNewFW()
	fw.noID = nd.OneOf("id", "made", "fails") == "fails"
	agent := nd.StringOf("agent", 1, "ab")
	collective := nd.StringOf("collective", 3, "c12")
	kind := nd.OneOf("type", inter.MessageMessageType, inter.RequestMessageType, inter.DirectRequestMessageType, inter.ReplyMessageType, inter.ServiceRequestMessageType, "other")
	m, err := NewMessage([]byte("p"), agent, collective, kind, nil, fw)
	ok := nd.And(!fw.noID, len(agent) > 0, nd.Or(nd.StrEq(collective, "c1"), nd.StrEq(collective, "c2")), kind != "other", kind != inter.DirectRequestMessageType)
	nd.Assert((err == nil) == ok, "a message was made without agent, known collective, type or targets, or a good one was not")
	nd.Observe("made", err == nil)
	if err != nil {
		nd.Reach("refused")
		return
	}
	nd.Reach("made")
	nd.Assert(nd.And(nd.StrEq(m.Agent(), agent), nd.StrEq(m.Collective(), collective), m.Type() == kind, m.TTL() == 60, m.SenderID() == "n1", m.CallerID() == "up=me", string(m.Payload()) == "p"), "the message made is another one")
	m.SetReplyTo("there")

	r, err := NewMessage([]byte("q"), "ignored", "ignored", inter.RequestMessageType, m, fw)
	nd.Assert(err == nil, "the reply to a good message could not be made")
	nd.Assert(nd.And(nd.StrEq(r.Agent(), agent), nd.StrEq(r.Collective(), collective), r.Type() == inter.ReplyMessageType, r.ReplyTo() == m.ReplyTo(), r.RequestID() != m.RequestID()), "the reply to a message is not its reply")
}

//verif:harness prop=M04 reach=sent,refused
//verif:bounds any 3 of changing the type to one of the six, the hosts to none or two, the collective and reply target to any of up to 2 bytes, and then making the transport twice, with and without caching, required filters and failing framework
func VerifMessageChanges() {
	fw := verifNewFW()
	fw.cfg.CacheBatchedTransports = nd.OneOf("cached", "no", "yes") == "yes"
	fw.cfg.Choria.RequireClientFilter = nd.OneOf("filters", "optional", "required") == "required"
	fw.fails = nd.OneOf("framework", "works", "fails") == "fails"
	m, err := NewMessage([]byte("p"), "a", "c1", inter.RequestMessageType, nil, fw)
	nd.Assert(err == nil, "a good message could not be made")
	kind, hosts, coll, to := inter.RequestMessageType, 0, "c1", ""
	has, agents := false, false // whether the filter has parts, or agents alone
	for i := 0; i < 3; i++ {
		switch nd.OneOf("op", "type", "hosts", "collective", "reply", "filter") {
		case "type":
			k := nd.OneOf("type", inter.MessageMessageType, inter.RequestMessageType, inter.DirectRequestMessageType, inter.ReplyMessageType, inter.ServiceRequestMessageType, "other")
			err := m.SetType(k)
			ok := k != "other" && (k != inter.DirectRequestMessageType || hosts > 0) && (k != inter.ServiceRequestMessageType || hosts == 0)
			nd.Assert((err == nil) == ok, "a message has a type it cannot have or could not be given one it can")
			if ok {
				kind = k
				if k == inter.DirectRequestMessageType && !has {
					has, agents = true, true // may add one for the agent
				}
			}
		case "hosts":
			hosts = 2 * nd.Choice("hosts", 2)
			m.SetDiscoveredHosts([]string{"h1", "h2"}[:hosts])
		case "collective":
			c := "c" + nd.StringOf("collective", 2, "12")
			err := m.SetCollective(c)
			ok := nd.Or(nd.StrEq(c, "c1"), nd.StrEq(c, "c2"))
			nd.Assert((err == nil) == ok, "a message targets an unknown collective or could not target a known one")
			if ok {
				coll = c
			}
		case "reply":
			r := "r" + nd.StringOf("reply", 1, "12")
			err := m.SetReplyTo(r)
			ok := kind == inter.RequestMessageType || kind == inter.DirectRequestMessageType || kind == inter.ServiceRequestMessageType
			nd.Assert((err == nil) == ok, "something other than a request has a reply target or a request could not have one")
			if ok {
				to = r
			}
		case "filter":
			f := protocol.NewFilter()
			part := nd.OneOf("filter", "empty", "agent", "class", "fact", "identity", "compound")
			has, agents = part != "empty", part == "agent"
			switch part {
			case "agent":
				f.AddAgentFilter("a")
			case "class":
				f.AddClassFilter("c")
			case "fact":
				f.Fact = append(f.Fact, protocol.FactFilter{Fact: "a", Operator: "==", Value: "b"})
			case "identity":
				f.AddIdentityFilter("n")
			case "compound":
				f.Compound = append(f.Compound, []map[string]string{{"expr": "true"}})
			}
			m.SetFilter(f)
		}
		nd.Assert(nd.And(m.Type() == kind, nd.StrEq(m.Collective(), coll), nd.StrEq(m.ReplyTo(), to)), "a change that was refused was made, or one that was accepted was not")
	}

	if agents {
		nd.Cut() // whether an agent filter alone counts is not promised
	}
	request := kind == inter.RequestMessageType || kind == inter.DirectRequestMessageType || kind == inter.ServiceRequestMessageType
	t1, err := m.Transport(context.Background())
	ok := nd.And(request, len(to) > 0, !fw.fails, !(fw.cfg.Choria.RequireClientFilter && !has))
	nd.Assert((err == nil) == ok, "a message was sent that may not be or a good one was not")
	nd.Observe("sent", err == nil)
	if err != nil {
		nd.Reach("refused")
		return
	}
	nd.Reach("sent")
	nd.Assert(nd.StrEq(t1.(*verifTransport).to, to), "the request was sent with another reply target")
	t2, err := m.Transport(context.Background())
	nd.Assert(err == nil, "the request could not be sent again")
	nd.Assert((t1 == t2) == fw.cfg.CacheBatchedTransports, "a request was signed anew though cached, or not though it should be")
	m.(*Message).UniqueTransport()
	t3, err := m.Transport(context.Background())
	nd.Assert(err == nil && t3 != t1 && t3 != t2, "a unique transport was used before")
	m.(*Message).CacheTransport()
	t4, err := m.Transport(context.Background())
	nd.Assert(err == nil && t4 != t1 && t4 != t2, "a transport from before a unique one was asked for was used again")
}
