package broadcast

import (
	"context"
	"fmt"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/client/client"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/protocol"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with config/new.go
//verif:clock .

type verifFW struct {
	inter.Framework
	cfg *config.Config
	msg *verifMsg
}

func (f *verifFW) Configuration() *config.Config      { return f.cfg }
func (f *verifFW) Logger(component string) *logrus.Entry { return logrus.NewEntry(logrus.New()) }
func (f *verifFW) NewMessage(payload []byte, agent string, collective string, msgType string, request inter.Message) (inter.Message, error) {
	nd.Assert(agent == "discovery", "the discovery request is for agent "+agent)
	f.msg = &verifMsg{collective: collective}
	return f.msg, nil
}
func (f *verifFW) NewTransportFromJSON(data []byte) (protocol.TransportMessage, error) {
	if len(data) == 0 {
		return nil, fmt.Errorf("invalid reply")
	}
	return &verifReply{sender: string(data)}, nil
}

type verifReply struct {
	protocol.TransportMessage
	sender string
}

func (r *verifReply) SenderID() string { return r.sender }

type verifMsg struct {
	inter.Message
	collective string
	filter     *protocol.Filter
	replyto    string
}

func (m *verifMsg) ReplyTarget() string { return "reply.here" }
func (m *verifMsg) SetReplyTo(r string) error {
	m.replyto = r
	return nil
}
func (m *verifMsg) SetFilter(f *protocol.Filter) { m.filter = f }

type verifRaw struct {
	inter.ConnectorMessage
	data string
}

func (r *verifRaw) Data() []byte { return []byte(r.data) }

// verifClient is the network: replies arrive some time after each other
type verifClient struct {
	connect  time.Duration
	gaps     []time.Duration
	senders  []string
	received []string
	fail     bool
	asked    bool
	sent     time.Time
	ended    time.Time
	last     time.Time
}

func (c *verifClient) Request(ctx context.Context, msg inter.Message, handler client.Handler) error {
	c.asked = true
	if c.fail {
		return fmt.Errorf("not connected")
	}
	if c.connect > 0 {
		select {
		case <-time.After(c.connect):
		case <-ctx.Done():
		}
	}
	c.sent = nd.Now()
	c.last = c.sent
	for i, gap := range c.gaps {
		t := time.NewTimer(gap)
		select {
		case <-t.C:
		case <-ctx.Done():
			t.Stop()
			c.ended = nd.Now()
			return nil
		}
		c.last = nd.Now()
		handler(ctx, &verifRaw{data: c.senders[i]})
		if c.senders[i] != "" {
			c.received = append(c.received, c.senders[i])
		}
	}
	<-ctx.Done()
	c.ended = nd.Now()
	return nil
}

//verif:harness prop=D02 reach=found,late,invalid,failed delays=0 timers=8 clock=frozen horizon=1h seconds=90
//verif:bounds discovery timeouts of 1, 2 and 4 seconds given in the request against 2 seconds configured, connecting taking 0 or 1 second, up to 3 replies a symbolic 0 to 3 seconds apart, replies that are not valid; the choria client is a stub that delivers replies until the request's context ends
func VerifBroadcastDiscover() {
	cfg := config.VerifNew()
	cfg.DiscoveryTimeout = 2
	cfg.MainCollective = "main"
	fw := &verifFW{cfg: cfg}
	n := nd.Choice("replies", 4)
	cl := &verifClient{fail: nd.Choice("fail", 2) == 1}
	if nd.Choice("slow", 2) == 1 {
		cl.connect = time.Second
	}
	for i := 0; i < n; i++ {
		cl.gaps = append(cl.gaps, time.Duration(nd.Int64(fmt.Sprintf("gap%d", i), 1, 3000))*time.Millisecond)
		cl.senders = append(cl.senders, nd.OneOf(fmt.Sprintf("sender%d", i), "", fmt.Sprintf("n%d", i)))
	}
	b := New(fw)
	f := protocol.NewFilter()
	f.AddAgentFilter("rpcutil")
	if nd.Choice("identity", 2) == 1 {
		// a regular expression has to be resolved by the network
		f.AddIdentityFilter("/n/")
	}
	opts := []DiscoverOption{Filter(f), Collective("sub"), choriaClient(cl)}
	timeout := 2 * time.Second
	if nd.Choice("ownTimeout", 2) == 1 {
		timeout = []time.Duration{time.Second, 4 * time.Second}[nd.Choice("timeout", 2)]
		opts = append(opts, Timeout(timeout))
	}
	start := nd.Now()
	nodes, err := b.Discover(context.Background(), opts...)
	nd.Observe("err", err != nil)
	nd.Assert(cl.asked, "no request was made")
	nd.Assert(fw.msg.filter == f && fw.msg.collective == "sub" && fw.msg.replyto == "reply.here", "the request does not carry what was asked for")
	if cl.fail {
		nd.Reach("failed")
		nd.Assert(err != nil, "a request that failed is an empty discovery")
		return
	}
	nd.Assert(err == nil, "discovery failed")
	nd.Assert(len(nodes) == len(cl.received), "the discovered nodes are not those that replied")
	for i := range cl.received {
		nd.Assert(nodes[i] == cl.received[i], "a node that did not reply was discovered")
	}
	if len(nodes) > 0 {
		nd.Reach("found")
	}
	got := 0
	at := cl.sent
	for i, gap := range cl.gaps {
		at = at.Add(gap)
		if !at.After(cl.sent.Add(timeout)) {
			got = i + 1
		}
	}
	want := 0
	for i := 0; i < got; i++ {
		if cl.senders[i] != "" {
			want++
		} else {
			nd.Reach("invalid")
		}
	}
	if got < n {
		nd.Reach("late")
	}
	nd.Assert(len(nodes) >= want, "replies within the timeout of the discovery were not waited for")
	nd.Assert(!cl.ended.After(start.Add(timeout+5*time.Second)), "discovery took much longer than its timeout")
}

//verif:harness prop=D02 reach=found,gap,none delays=0 timers=16 clock=frozen horizon=1h seconds=90
//verif:bounds sliding window discovery: timeouts of 1 and 4 seconds against 2 seconds configured, up to 3 replies a symbolic 1 to 3000 ms apart
func VerifBroadcastWindow() {
	cfg := config.VerifNew()
	cfg.DiscoveryTimeout = 2
	fw := &verifFW{cfg: cfg}
	n := nd.Choice("replies", 4)
	cl := &verifClient{}
	for i := 0; i < n; i++ {
		gap := nd.Int64(fmt.Sprintf("gap%d", i), 1, 3000)
		// close to the end of the window either outcome is right
		nd.Assume(nd.Or(gap <= 200, gap >= 400))
		cl.gaps = append(cl.gaps, time.Duration(gap)*time.Millisecond)
		cl.senders = append(cl.senders, fmt.Sprintf("n%d", i))
	}
	b := New(fw)
	timeout := []time.Duration{time.Second, 4 * time.Second}[nd.Choice("timeout", 2)]
	opts := []DiscoverOption{choriaClient(cl), Timeout(timeout)}
	if nd.Choice("how", 2) == 1 {
		opts = append(opts, SlidingWindow())
	} else {
		cfg.Choria.BroadcastDiscoveryDynamicTimeout = true
	}
	ctx, cancel := context.WithCancel(context.Background())
	nodes, err := b.Discover(ctx, opts...)
	nd.Observe("err", err != nil)
	nd.Assert(err == nil, "discovery failed")
	nd.Assert(len(nodes) == len(cl.received), "the discovered nodes are not those that replied")
	for i := range cl.received {
		nd.Assert(nodes[i] == cl.received[i], "a node that did not reply was discovered")
	}
	want := 0
	window := timeout
	open := true
	total := time.Duration(0)
	for _, gap := range cl.gaps {
		total += gap
		open = open && gap < window-50*time.Millisecond && total < timeout-50*time.Millisecond
		if open {
			want++
		}
		window = 300 * time.Millisecond
	}
	if want < n {
		nd.Reach("gap")
	}
	if want > 0 {
		nd.Reach("found")
	}
	if n == 0 {
		nd.Reach("none")
		nd.Assert(!cl.ended.Before(cl.sent.Add(timeout)), "the first reply was not waited for")
	}
	nd.Assert(len(nodes) >= want, "replies that follow each other closely were not waited for")
	cancel()
}

//verif:harness prop=D02 reach=direct,asked delays=0 timers=4 clock=frozen horizon=1h
//verif:bounds every combination of a class, fact, compound and up to 2 identity filters, plain ones and regular expressions
func VerifBroadcastIdentities() {
	cfg := config.VerifNew()
	cfg.DiscoveryTimeout = 2
	fw := &verifFW{cfg: cfg}
	cl := &verifClient{}
	b := New(fw)
	f := protocol.NewFilter()
	plain := true
	if nd.Choice("class", 2) == 1 {
		f.AddClassFilter("web")
		plain = false
	}
	if nd.Choice("fact", 2) == 1 {
		f.AddFactFilter("country", "==", "mt")
		plain = false
	}
	if nd.Choice("compound", 2) == 1 {
		f.AddCompoundFilter("true")
		plain = false
	}
	ids := nd.Choice("ids", 3)
	want := []string{}
	for i := 0; i < ids; i++ {
		if nd.Choice("re", 2) == 1 {
			f.AddIdentityFilter(fmt.Sprintf("/n%d/", i))
			plain = false
		} else {
			f.AddIdentityFilter(fmt.Sprintf("n%d", i))
			want = append(want, fmt.Sprintf("n%d", i))
		}
	}
	nodes, err := b.Discover(context.Background(), choriaClient(cl), Filter(f))
	nd.Observe("nodes", nodes)
	nd.Assert(err == nil, "discovery failed")
	if cl.asked {
		nd.Reach("asked")
		nd.Assert(len(nodes) == 0, "nodes that did not reply were discovered")
		nd.Assert(fw.msg.filter == f, "the request does not carry the filter")
		return
	}
	nd.Reach("direct")
	nd.Assert(plain && ids > 0, "the network was not asked though names alone do not decide who matches")
	nd.Assert(len(nodes) == len(want), "the discovered nodes are not the identities in the filter")
	for i := range want {
		nd.Assert(nodes[i] == want[i], "the discovered nodes are not the identities in the filter")
	}
}
