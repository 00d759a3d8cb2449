package client

import (
	"context"
	"errors"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/srvcache"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with config/new.go

type verifMsg struct {
	inter.Message
}

func (m *verifMsg) ReplyTo() string { return "reply.here" }

type verifRaw struct {
	inter.ConnectorMessage
	n int
}

func (r *verifRaw) Data() []byte { return []byte{byte(r.n)} }

type verifNet struct {
	delays    []time.Duration // when each reply arrives
	fail      bool
	open      int
	published int
	subs      map[string][]chan inter.ConnectorMessage
	want      bool
	groups    map[string]bool
}

type verifConn struct {
	inter.Connector
	net    *verifNet
	closed bool
	chans  []chan inter.ConnectorMessage
}

func (c *verifConn) Close() {
	if !c.closed {
		c.closed = true
		c.net.open--
	}
}

func (c *verifConn) QueueSubscribe(ctx context.Context, name string, subject string, group string, output chan inter.ConnectorMessage) error {
	nd.Assert(subject == "reply.here", "replies are expected elsewhere")
	c.net.subs[subject] = append(c.net.subs[subject], output)
	c.net.groups[group] = true
	return nil
}

func (c *verifConn) Publish(msg inter.Message) error {
	net := c.net
	net.published++
	if net.want {
		nd.Assert(len(net.subs["reply.here"]) > 0, "a request was published before anything listens for its replies")
	}
	if net.fail {
		return errors.New("simulated")
	}
	subs := net.subs
	for i, d := range net.delays {
		go func(n int) {
			time.Sleep(d)
			// those of a request that is over are not subscribed anymore
			if len(subs["reply.here"]) > 0 {
				subs["reply.here"][0] <- &verifRaw{n: n}
			}
		}(i)
	}
	return nil
}

type verifFW struct {
	inter.Framework
	cfg *config.Config
	net *verifNet
}

func (f *verifFW) Configuration() *config.Config { return f.cfg }
func (f *verifFW) Logger(string) *logrus.Entry   { return logrus.NewEntry(logrus.New()) }
func (f *verifFW) CallerID() string              { return "up=me" }
func (f *verifFW) NewConnector(ctx context.Context, servers func() (srvcache.Servers, error), name string, logger *logrus.Entry) (inter.Connector, error) {
	f.net.open++
	return &verifConn{net: f.net}, nil
}

//verif:harness prop=C03 reach=replied,silent,failed,stopped deadlock=violation clock=frozen preempt=0 delays=3 samples=4 t.preempt=1 t.delays=5 t.seconds=300
//verif:bounds a request by a client with 1 or 2 receivers (1 to 3 in thorough) and own or given connections, with or without a handler, with 0 to 2 replies that each arrive at any moment in or after the timeout (but not within 0.2 seconds of it), publishing that fails, and a handler that stops the request after the first reply
func VerifRequest() {
	max := 2
	if nd.Thorough() {
		max = 3
	}
	verifRequests(1, max, 2)
}

//verif:harness prop=C03 reach=replied,silent,failed,second deadlock=violation clock=frozen preempt=0 delays=2 samples=4 t.delays=5 t.seconds=300
//verif:bounds two requests by one client with 1 or 2 receivers (1 to 3 in thorough) and own or given connections, with or without a handler, with up to one reply each and publishing that fails
func VerifSecondRequest() {
	max := 2
	if nd.Thorough() {
		max = 3
	}
	verifRequests(2, max, 1)
}

func verifRequests(requests int, max int, replies int) {
	net := &verifNet{subs: map[string][]chan inter.ConnectorMessage{}, groups: map[string]bool{}}
	fw := &verifFW{cfg: config.VerifNew(), net: net}
	opts := []Option{Timeout(time.Second), Receivers(1 + nd.Choice("receivers", max)), Name("me")}
	if nd.OneOf("connection", "own", "given") == "given" {
		opts = append(opts, Connection(&verifConn{net: net}))
	}
	starts, ends := 0, 0
	opts = append(opts, OnPublishStart(func() { starts++ }), OnPublishFinish(func() { ends++ }))
	c, err := New(fw, opts...)
	nd.Assert(err == nil, "client could not be made")

	for r := 0; r < requests; r++ {
		net.want = nd.OneOf("handler", "yes", "no") == "yes"
		net.delays = nil
		net.fail = nd.OneOf("publish", "works", "fails") == "fails"
		stop := false
		if net.want && !net.fail {
			for i := nd.Choice("replies", replies+1); i > 0; i-- {
				d := nd.Int("delay", 1, 1600)
				nd.Assume(nd.Or(d < 800, d > 1200))
				net.delays = append(net.delays, time.Duration(d)*time.Millisecond)
			}
			stop = replies > 1 && len(net.delays) > 0 && nd.OneOf("stop", "no", "first") == "first"
		}
		net.published = 0
		net.subs = map[string][]chan inter.ConnectorMessage{}
		ctx, cancel := context.WithCancel(context.Background())
		got := map[int]int{}
		over := false
		handler := func(ctx context.Context, m inter.ConnectorMessage) {
			nd.Assert(!over, "a reply was handled after the request was over")
			got[int(m.Data()[0])]++
			if stop {
				cancel()
			}
		}
		if !net.want {
			handler = nil
		}
		began := starts
		err := c.Request(ctx, &verifMsg{}, handler)
		over = true
		nd.Assert(net.published == 1, "a request was not published once")
		nd.Assert(starts == began+1 && ends == starts, "publishing was not announced")
		nd.Assert((err != nil) == net.fail, "a failure to publish was not returned or a good request failed")
		n := len(got)
		early := 0
		for i, d := range net.delays {
			nd.Assert(got[i] <= 1, "a reply was handled more than once")
			nd.Assert(nd.Implies(got[i] > 0, d < time.Second), "a reply was handled after the timeout")
			nd.Assert(nd.Implies(nd.And(d < time.Second, !stop), got[i] == 1), "a reply that arrived in time was not handled")
			if d < time.Second {
				early++
			}
		}
		nd.Assert(nd.Implies(early > 0, n > 0), "no reply was handled though some arrived in time")
		if stop && n > 0 {
			nd.Reach("stopped")
		}
		if net.fail {
			nd.Reach("failed")
		}
		if n > 0 {
			nd.Reach("replied")
		} else {
			nd.Reach("silent")
		}
		if r == 1 {
			nd.Reach("second")
		}
		delete(net.subs, "reply.here")
		cancel()
		nd.Quiesce()
		nd.Assert(net.open == 0, "a connection was left open")
		nd.Observe("handled", n)
	}
}
