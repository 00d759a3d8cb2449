package federation

import (
	"bytes"
	"context"
	"errors"
	"sync"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/protocol"
	"github.com/choria-io/go-choria/srvcache"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with choria/base.go config/new.go

type verifPub struct {
	net, target string
	data        []byte
}

// verifNet is the two networks a broker connects
type verifNet struct {
	mu   sync.Mutex
	subs map[string]chan inter.ConnectorMessage
	pubs []verifPub
	fail map[string]bool
}

type verifFramework struct {
	*choria.Framework
	net *verifNet
}

func (f *verifFramework) FederationMiddlewareServers() (srvcache.Servers, error) {
	return srvcache.NewServers(srvcache.NewServer("federation", 4222, "nats")), nil
}

func (f *verifFramework) MiddlewareServers() (srvcache.Servers, error) {
	return srvcache.NewServers(srvcache.NewServer("collective", 4222, "nats")), nil
}

func (f *verifFramework) NewConnector(ctx context.Context, servers func() (srvcache.Servers, error), name string, logger *logrus.Entry) (inter.Connector, error) {
	s, err := servers()
	if err != nil {
		return nil, err
	}
	return &verifConn{net: f.net, name: s.Servers()[0].Host()}, nil
}

type verifConn struct {
	inter.Connector
	net  *verifNet
	name string
}

func (c *verifConn) ConnectedServer() string { return "nats://" + c.name }

func (c *verifConn) ChanQueueSubscribe(name string, subject string, group string, capacity int) (chan inter.ConnectorMessage, error) {
	c.net.mu.Lock()
	defer c.net.mu.Unlock()
	// members of a group get each message once
	k := c.name + " " + subject
	ch, ok := c.net.subs[k]
	if ok && group != "" {
		return ch, nil
	}
	ch = make(chan inter.ConnectorMessage, capacity)
	c.net.subs[k] = ch
	return ch, nil
}

func (c *verifConn) PublishRaw(target string, data []byte) error {
	c.net.mu.Lock()
	defer c.net.mu.Unlock()
	c.net.pubs = append(c.net.pubs, verifPub{c.name, target, append([]byte{}, data...)})
	if c.net.fail[target] {
		return errors.New("simulated")
	}
	return nil
}

type verifMsg struct {
	inter.ConnectorMessage
	subj string
	data []byte
}

func (m *verifMsg) Data() []byte    { return m.data }
func (m *verifMsg) Subject() string { return m.subj }

// settle waits for something to happen, and for all that follows
func (n *verifNet) settle(done func() bool) {
	for i := 0; i < 200; i++ {
		n.mu.Lock()
		ok := done()
		n.mu.Unlock()
		if ok {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	nd.Quiesce()
}

func verifBroker() (*verifNet, *verifFramework, *choria.Framework, func()) {
	tech := inter.SecurityTechnology(nd.OneOf("protocol", "\x02", "\x01")[0])
	client := choria.VerifNewFramework("client", tech)
	n := &verifNet{subs: map[string]chan inter.ConnectorMessage{}, fail: map[string]bool{}}
	fw := &verifFramework{choria.VerifNewFramework("broker", tech), n}
	ctx, cancel := context.WithCancel(context.Background())
	fb, err := NewFederationBroker("b1", fw)
	nd.Assert(err == nil, "no broker could be made")
	var wg sync.WaitGroup
	wg.Add(1)
	go fb.Start(ctx, &wg)
	n.settle(func() bool { return len(n.subs) >= 2 })
	_, f := n.subs["federation choria.federation.b1.federation"]
	_, c := n.subs["collective choria.federation.b1.collective"]
	nd.Assert(f && c && len(n.subs) == 2, "the broker does not listen for requests on the federation and replies on the collective")
	return n, fw, client, func() {
		cancel()
		nd.Quiesce()
		wg.Wait()
	}
}

func verifRequest(client *choria.Framework, body []byte, to string) protocol.TransportMessage {
	msg, err := client.NewMessage(string2(body), "agent", "c1", inter.RequestMessageType, nil)
	nd.Assert(err == nil, "no request could be made")
	nd.Assert(msg.SetReplyTo(to) == nil, "no reply target could be set")
	t, err := msg.Transport(context.Background())
	nd.Assert(err == nil, "no transport could be made")
	return t
}

func string2(b []byte) []byte { return append([]byte{}, b...) }

//verif:harness prop=N02 reach=forwarded,dropped clock=frozen timers=600 delays=0 t.delays=1 seconds=60 t.seconds=300
//verif:bounds up to two requests of either protocol with 0 to 2 targets of up to 2 bytes (the second request well formed), a reply target or not, federated or not, or malformed, given to a broker with all its workers, with publishing to a target failing or not; schedules with none (thorough one) departure from the default order
func VerifFederateRequests() {
	n, fw, client, stop := verifBroker()
	k := nd.Choice("requests", 2) + 1
	type want struct {
		target string
		body   []byte
		id     string
		to     string
	}
	var wants []want
	for i := 0; i < k; i++ {
		body := []byte("x" + nd.StringOf("payload", 1, "ab"))
		to := "reply." + nd.StringOf("to", 2, "ab.")
		id := "fed" + nd.StringOf("id", 2, "ab")
		t := verifRequest(client, body, to)
		var targets []string
		nt := nd.Choice("targets", 3)
		for j := 0; j < nt; j++ {
			targets = append(targets, "t"+nd.StringOf("target", 1, "ab."))
		}
		kind := "good"
		if i == 0 {
			kind = nd.OneOf("kind", "good", "unfederated", "noreply", "junk")
		}
		if kind != "unfederated" {
			t.SetFederationRequestID(id)
			t.SetFederationTargets(targets)
		}
		if kind == "noreply" {
			t.SetReplyTo("")
		}
		j, err := t.JSON()
		nd.Assert(err == nil, "the request could not be encoded")
		if kind == "junk" {
			j = []byte(nd.OneOf("junk", "null", "{}", "[]", "{", `{"headers":null}`))
		}
		if kind == "good" {
			for _, tg := range targets {
				wants = append(wants, want{tg, body, id, to})
			}
		}
		if nt > 0 && i == 0 && kind == "good" && nd.OneOf("fails", "no", "yes") == "yes" {
			n.fail[nd.ConcreteString(targets[0])] = true
		}
		n.subs["federation choria.federation.b1.federation"] <- &verifMsg{subj: "choria.federation.b1.federation", data: j}
	}
	n.settle(func() bool { return len(n.pubs) >= len(wants) })
	nd.Assert(len(n.pubs) == len(wants), "not as many requests were forwarded as there are targets")
	used := make([]bool, len(n.pubs))
	for _, w := range wants {
		found := false
		for i, p := range n.pubs {
			if used[i] {
				continue
			}
			nd.Assert(p.net == "collective", "a request was forwarded to the federation")
			if p.target != w.target {
				continue
			}
			t, err := fw.NewTransportFromJSON(p.data)
			nd.Assert(err == nil, "a request was forwarded damaged")
			id, ok := t.FederationRequestID()
			if !ok || id != w.id {
				continue
			}
			to, _ := t.FederationReplyTo()
			tgts, _ := t.FederationTargets()
			if to != w.to {
				continue
			}
			sreq, err := fw.NewSecureRequestFromTransport(t, false)
			nd.Assert(err == nil, "a request was forwarded that is not secure anymore")
			req, err := fw.NewRequestFromSecureRequest(sreq)
			nd.Assert(err == nil, "a request was forwarded that is no request anymore")
			if !bytes.Equal(req.Message(), w.body) {
				continue
			}
			nd.Assert(t.ReplyTo() == "choria.federation.b1.collective", "a forwarded request is not answered to the broker")
			nd.Assert(len(tgts) == 0, "a forwarded request still has its targets")
			nd.Assert(t.SenderID() == "client", "a forwarded request has another sender")
			hops := t.NetworkHops()
			nd.Assert(len(hops) == 1 && hops[0][0] == "nats://federation" && hops[0][2] == "nats://collective", "a forwarded request does not tell its way")
			used[i] = true
			found = true
			break
		}
		nd.Assert(found, "a target did not get its request")
	}
	if len(wants) > 0 {
		nd.Reach("forwarded")
	} else {
		nd.Reach("dropped")
	}
	stop()
	nd.Observe("pubs", len(n.pubs))
}

//verif:harness prop=N02 reach=forwarded,dropped clock=frozen timers=600 delays=0 t.delays=1 seconds=60 t.seconds=300
//verif:bounds up to two replies of either protocol to requests that have a federation reply target of up to 2 bytes or not, are federated or not, or malformed, given to a broker with all its workers; schedules with none (thorough one) departure from the default order
func VerifFederateReplies() {
	n, _, client, stop := verifBroker()
	k := nd.Choice("replies", 2) + 1
	type want struct {
		target string
		body   []byte
	}
	var wants []want
	server := choria.VerifNewFramework("server", inter.SecurityTechnology(client.VerifTech()))
	for i := 0; i < k; i++ {
		body := []byte("x" + nd.StringOf("payload", 1, "ab"))
		to := "reply." + nd.StringOf("to", 2, "ab.")
		rt := verifRequest(client, []byte("hello"), "choria.federation.b1.collective")
		kind := nd.OneOf("kind", "good", "unfederated", "noreply", "junk")
		if kind != "unfederated" {
			rt.SetFederationRequestID("fed" + nd.StringOf("id", 2, "ab"))
			if kind != "noreply" {
				rt.SetFederationReplyTo(to)
			}
		}
		sreq, err := server.NewSecureRequestFromTransport(rt, true)
		nd.Assert(err == nil, "the server got no request")
		req, err := server.NewRequestFromSecureRequest(sreq)
		nd.Assert(err == nil, "the server got no request")
		protocol.CopyFederationData(rt, req)
		m, err := server.NewMessageFromRequest(req, rt.ReplyTo())
		nd.Assert(err == nil, "the server could not handle the request")
		m.SetPayload(string2(body))
		t, err := m.Transport(context.Background())
		nd.Assert(err == nil, "the server made no reply")
		j, err := t.JSON()
		nd.Assert(err == nil, "the reply could not be encoded")
		if kind == "junk" {
			j = []byte(nd.OneOf("junk", "null", "{}", "[]", "{", `{"headers":null}`))
		}
		if kind == "good" {
			wants = append(wants, want{to, body})
		}
		n.subs["collective choria.federation.b1.collective"] <- &verifMsg{subj: "choria.federation.b1.collective", data: j}
	}
	n.settle(func() bool { return len(n.pubs) >= len(wants) })
	nd.Assert(len(n.pubs) == len(wants), "not every reply was forwarded once")
	used := make([]bool, len(n.pubs))
	for _, w := range wants {
		found := false
		for i, p := range n.pubs {
			if used[i] {
				continue
			}
			nd.Assert(p.net == "federation", "a reply was forwarded to the collective")
			if p.target != w.target {
				continue
			}
			r, err := client.NewReplyFromTransportJSON(p.data, false)
			nd.Assert(err == nil, "a reply was forwarded damaged")
			if !bytes.Equal(r.Message(), w.body) {
				continue
			}
			nd.Assert(r.SenderID() == "server", "a reply was forwarded with another sender")
			t, err := client.NewTransportFromJSON(p.data)
			nd.Assert(err == nil, "a reply was forwarded damaged")
			nd.Assert(!t.IsFederated(), "a forwarded reply is still federated")
			used[i] = true
			found = true
			break
		}
		nd.Assert(found, "a reply did not reach who asked for it")
	}
	if len(wants) > 0 {
		nd.Reach("forwarded")
	} else {
		nd.Reach("dropped")
	}
	stop()
	nd.Observe("pubs", len(n.pubs))
}
