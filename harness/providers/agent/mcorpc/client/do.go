package client

import (
	"context"
	"errors"
	"time"

	"github.com/sirupsen/logrus"

	cclient "github.com/choria-io/go-choria/client/client"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/message"
	"github.com/choria-io/go-choria/protocol"
	addl "github.com/choria-io/go-choria/providers/agent/mcorpc/ddl/agent"
	"github.com/choria-io/go-choria/server/agents"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with config/new.go
//verif:clock . message

// verifReply is one reply that can arrive
type verifReply struct {
	protocol.Reply
	sender string
	body   string
}

func (r *verifReply) SenderID() string { return r.sender }
func (r *verifReply) Message() []byte  { return []byte(r.body) }
func (r *verifReply) Time() time.Time  { return time.Unix(1, 0) }

type verifRaw struct {
	inter.ConnectorMessage
	n int
}

func (r *verifRaw) Data() []byte { return []byte{byte(r.n)} }

type verifFW struct {
	inter.Framework
	cfg     *config.Config
	ids     int
	replies []*verifReply
}

func (f *verifFW) Configuration() *config.Config             { return f.cfg }
func (f *verifFW) Logger(string) *logrus.Entry               { return logrus.NewEntry(logrus.New()) }
func (f *verifFW) CallerID() string                          { return "up=me" }
func (f *verifFW) RequestProtocol() protocol.ProtocolVersion { return protocol.RequestV2 }
func (f *verifFW) HasCollective(c string) bool               { return c == "c1" }
func (f *verifFW) NewRequestID() (string, error)             { f.ids++; return string(rune('A' + f.ids)), nil }
func (f *verifFW) NewMessage(payload []byte, agent string, collective string, msgType string, request inter.Message) (inter.Message, error) {
	return message.NewMessage(payload, agent, collective, msgType, request, f)
}
func (f *verifFW) NewReplyFromTransportJSON(payload []byte, skip bool) (protocol.Reply, error) {
	if skip {
		nd.Assert(false, "a reply was taken without checking its security")
	}
	r := f.replies[payload[0]]
	if r == nil {
		return nil, errors.New("simulated")
	}
	return r, nil
}

// verifClient is a network where Request publishes a message and gets replies
type verifClient struct {
	do func(ctx context.Context, msg inter.Message, handler cclient.Handler) error
}

func (c *verifClient) Request(ctx context.Context, msg inter.Message, handler cclient.Handler) error {
	return c.do(ctx, msg, handler)
}

var verifHosts = []string{"n0", "n1", "n2", "n3", "n4"}

func verifRPC(cl *verifClient, service bool) (*RPC, *verifFW) {
	cfg := config.VerifNew()
	cfg.Collectives = []string{"c1"}
	cfg.MainCollective = "c1"
	cfg.Identity = "me"
	cfg.TTL = 60
	cfg.RPCLimitMethod = "first"
	fw := &verifFW{cfg: cfg}
	rpc, err := New(fw, "a1", DDL(&addl.DDL{Metadata: &agents.Metadata{Name: "a1", Timeout: 5, Service: service}}))
	nd.Assert(err == nil, "client could not be made")
	rpc.cl = cl
	return rpc, fw
}

func verifSame(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

//verif:harness prop=C01 reach=sent,refused clock=frozen samples=12
//verif:bounds requests to 1 to 4 targets one of which may be there twice, direct or broadcast, not batched or in batches of -1 to 5 with or without a pause, without limit or with one of nine limits in order or shuffled in any way, with any batch failing to be sent and callbacks that refuse
func VerifTargets() {
	n := 1 + nd.Choice("targets", 4)
	given := append([]string{}, verifHosts[:n]...)
	if n > 1 && nd.OneOf("twice", "no", "yes") == "yes" {
		given[n-1] = given[0]
	}
	passed := append([]string{}, given...)
	fail := 0
	var got [][]string
	var ids []string
	cl := &verifClient{do: func(ctx context.Context, msg inter.Message, handler cclient.Handler) error {
		got = append(got, append([]string{}, msg.DiscoveredHosts()...))
		ids = append(ids, msg.RequestID())
		nd.Assert(nd.And(msg.Agent() == "a1", msg.Collective() == "c1", string(msg.Payload()) == `{"agent":"a1","action":"act","data":{"x":1}}`), "another request was sent")
		if len(got) <= 3 && nd.OneOf("sending", "works", "fails") == "fails" {
			fail = len(got)
			return errors.New("simulated")
		}
		return nil
	}}
	rpc, _ := verifRPC(cl, false)

	opts := []RequestOption{Targets(passed)}
	size := n
	broadcast := false
	batched := false
	if nd.OneOf("batched", "no", "yes") == "yes" {
		batched = true
		size = nd.Choice("size", 7) - 1
		opts = append(opts, InBatches(size, nd.Choice("pause", 2)))
	}
	if nd.OneOf("kind", "direct", "broadcast") == "broadcast" {
		broadcast = true
		opts = append(opts, BroadcastRequest())
	}
	want := n
	random := false
	limit := nd.OneOf("limit", "none", "0", "1", "2", "9", "99999999999999999999", "50%", "100%", "200%", "x")
	if limit != "none" {
		opts = append(opts, LimitSize(limit))
		want = map[string]int{"0": 0, "1": 1, "2": 2, "9": n, "99999999999999999999": n, "50%": n / 2, "100%": n, "200%": n, "x": 0}[limit]
		if want > n {
			want = n
		}
		random = want > 0 && nd.OneOf("order", "first", "random") == "random"
		if random {
			opts = append(opts, LimitMethod("random"))
		}
	}
	refuse := false
	seen := -1
	opts = append(opts, DiscoveryEndCB(func(d int, l int) error {
		nd.Assert(d == n, "the wrong number of discovered nodes was reported")
		seen = l
		refuse = nd.OneOf("callback", "agrees", "refuses") == "refuses"
		if refuse {
			return errors.New("simulated")
		}
		return nil
	}))

	_, err := rpc.Do(context.Background(), "act", map[string]int{"x": 1}, opts...)
	nd.Assert(verifSame(given, passed), "the list of targets of the caller was changed")
	nd.Observe("err", err != nil)
	nd.Observe("batches", len(got))
	if nd.Or(want == 0, refuse, broadcast && batched && size > 0) {
		nd.Reach("refused")
		nd.Assert(err != nil && len(got) == 0, "a request that may not be sent was")
		return
	}
	nd.Assert(seen == want, "the wrong number of targets was reported")
	nd.Reach("sent")
	if size <= 0 {
		size = n
	}
	var all []string
	for i, b := range got {
		nd.Assert(len(b) > 0 && len(b) <= size, "a batch is empty or too big")
		nd.Assert(ids[i] == ids[0], "batches have different request ids")
		all = append(all, b...)
	}
	batches := (want + size - 1) / size
	if fail > 0 {
		nd.Assert(err != nil && len(got) == fail, "a failure to send a batch was not returned, or later batches were sent")
		want = len(all)
	} else {
		nd.Assert(err == nil && len(got) == batches, "not all batches were sent")
	}
	nd.Assert(len(all) == want, "the number of nodes sent to is not the number of targets")
	// each target at most as often as it was given
	for _, t := range all {
		c := 0
		for _, g := range given {
			if g == t {
				c++
			}
		}
		for _, o := range all {
			if o == t {
				c--
			}
		}
		nd.Assert(c >= 0, "a node was sent to that is not a target, or was sent to more often")
	}
	if !random {
		nd.Assert(verifSame(all, given[:len(all)]), "targets were not taken in order")
	}
}

//verif:harness prop=C02 reach=all,missing,stranger,failed,unreadable clock=frozen samples=12 paths=40000
//verif:bounds requests to 2 targets (3 in thorough) in batches of any size, where up to 3 replies arrive during any of the batches from senders of any name of up to 2 bytes, each good, failed, undecodable or insecure
//verif:bounds the handler runs for one reply at a time
func VerifReplies() {
	n := 2
	max := 3
	if nd.Thorough() {
		n = 3
	}
	type key struct{ sender, status string }
	var arrived []key
	var batchOf []int
	var handled []string
	var handledOK []bool
	batches := 0
	rep := map[string]bool{}
	var fw *verifFW
	cl := &verifClient{do: func(ctx context.Context, msg inter.Message, handler cclient.Handler) error {
		hosts := append([]string{}, msg.DiscoveredHosts()...)
		left := map[string]bool{}
		for _, h := range hosts {
			left[h] = true
		}
		batches++
		for max > 0 && nd.OneOf("next", "none", "reply") == "reply" {
			max--
			r := &verifReply{sender: nd.String("sender", 2)}
			st := nd.OneOf("status", "ok", "failed", "unreadable", "insecure")
			switch st {
			case "ok":
				r.body = `{"action":"act","statuscode":0,"statusmsg":"OK","data":{}}`
			case "failed":
				r.body = `{"action":"act","statuscode":1,"statusmsg":"no","data":{}}`
			default:
				r.body = `{"action":1}`
			}
			if st == "insecure" {
				r = nil
			}
			fw.replies = append(fw.replies, r)
			before := len(handled)
			handler(ctx, &verifRaw{n: len(fw.replies) - 1})
			if r != nil {
				arrived = append(arrived, key{r.sender, st})
				batchOf = append(batchOf, batches)
				delete(left, r.sender)
				if hostIn(hosts, r.sender) {
					rep[r.sender] = true
				}
			} else {
				arrived = append(arrived, key{"", st})
				batchOf = append(batchOf, batches)
			}
			if st == "ok" || st == "failed" {
				nd.Assert(len(handled) == before+1, "a reply was not passed to the handler once")
				nd.Assert(handled[before] == r.sender && handledOK[before] == (st == "ok"), "another reply was passed to the handler")
				nd.Assert((ctx.Err() != nil) == (len(left) == 0), "the request ended before all targets replied, or did not end when they did")
			} else {
				nd.Assert(len(handled) == before, "an unusable reply was passed to the handler")
				nd.Assert(nd.Implies(ctx.Err() != nil, len(left) == 0), "the request ended before all targets replied")
			}
			if ctx.Err() != nil {
				break
			}
		}
		return nil
	}}
	var rpc *RPC
	rpc, fw = verifRPC(cl, false)
	opts := []RequestOption{Targets(verifHosts[:n]), ReplyHandler(func(r protocol.Reply, rr *RPCReply) {
		handled = append(handled, r.SenderID())
		handledOK = append(handledOK, rr.Statuscode == 0)
		nd.Assert(rr.Sender == r.SenderID(), "the parsed reply has another sender")
	})}
	if size := nd.Choice("size", n); size > 0 {
		opts = append(opts, InBatches(size, 0))
	}
	res, err := rpc.Do(context.Background(), "act", map[string]int{"x": 1}, opts...)
	nd.Assert(err == nil, "a request that was sent failed")
	s := res.Stats()

	ok, failed := 0, 0
	for _, a := range arrived {
		switch a.status {
		case "ok":
			ok++
		default:
			failed++
		}
		if a.status != "insecure" && !hostIn(verifHosts[:n], a.sender) {
			nd.Reach("stranger")
			nd.Assert(hostIn(s.UnexpectedResponseFrom(), a.sender), "a reply from a stranger is not reported")
		}
		if a.status == "failed" {
			nd.Reach("failed")
		}
		if a.status == "unreadable" {
			nd.Reach("unreadable")
		}
	}
	nd.Assert(s.OKCount() == ok, "the number of good replies is wrong")
	nd.Assert(s.FailCount() == failed, "the number of failed replies is wrong")
	nd.Assert(s.DiscoveredCount() == n && verifSame(*s.DiscoveredNodes(), verifHosts[:n]), "the targets reported are not those of the request")
	missing := s.NoResponseFrom()
	for _, h := range verifHosts[:n] {
		nd.Assert(hostIn(missing, h) == !rep[h], "a node that replied is reported as not having done so, or the other way around")
	}
	nd.Assert(len(missing) == n-len(rep), "the list of nodes without response holds others")
	nd.Assert(s.All() == (len(rep) == n), "the request is reported complete though it is not, or the other way around")
	nd.Assert(s.ResponsesCount() >= len(rep), "fewer responses than nodes that replied")
	for _, u := range s.UnexpectedResponseFrom() {
		came := false
		for _, a := range arrived {
			if a.sender == u && a.status != "insecure" {
				came = true
			}
		}
		nd.Assert(came, "a reply that never came is reported")
	}
	nd.Assert(s.UniqueRequestID() != "" && s.Agent() == "a1" && s.Action() == "act", "the request is not identified in its result")
	if len(rep) == n {
		nd.Reach("all")
	} else {
		nd.Reach("missing")
	}
	nd.Observe("missing", len(missing))
	nd.Observe("ok", s.OKCount())
}

func hostIn(l []string, h string) bool {
	for _, x := range l {
		if x == h {
			return true
		}
	}
	return false
}

//verif:harness prop=C02 reach=replied,silent horizon=1h samples=8
//verif:bounds service requests with up to 2 replies, good, failed or unusable
func VerifServiceReplies() {
	var fw *verifFW
	calls, ok, failed, usable := 0, 0, 0, 0
	cl := &verifClient{do: func(ctx context.Context, msg inter.Message, handler cclient.Handler) error {
		calls++
		nd.Assert(msg.Type() == inter.ServiceRequestMessageType && len(msg.DiscoveredHosts()) == 0, "a request to a service was sent to nodes")
		for i := 0; i < nd.Choice("replies", 3); i++ {
			r := &verifReply{sender: nd.OneOf("sender", "n0", "n1")}
			st := nd.OneOf("status", "ok", "failed", "unreadable", "insecure")
			switch st {
			case "ok":
				r.body = `{"action":"act","statuscode":0,"statusmsg":"OK","data":{}}`
				ok++
				usable++
			case "failed":
				r.body = `{"action":"act","statuscode":1,"statusmsg":"no","data":{}}`
				failed++
				usable++
			case "insecure":
				r = nil
				failed++
			default:
				r.body = `{"action":1}`
				failed++
			}
			fw.replies = append(fw.replies, r)
			handler(ctx, &verifRaw{n: len(fw.replies) - 1})
			nd.Assert(nd.Implies(st == "ok" || st == "failed", ctx.Err() != nil), "a service request did not end with its reply")
			if ctx.Err() != nil {
				break
			}
		}
		return nil
	}}
	var rpc *RPC
	rpc, fw = verifRPC(cl, true)
	handled := 0
	res, err := rpc.Do(context.Background(), "act", map[string]int{"x": 1}, ReplyHandler(func(r protocol.Reply, rr *RPCReply) { handled++ }))
	nd.Assert(err == nil && calls == 1, "a service request was not sent once")
	s := res.Stats()
	nd.Assert(handled == usable && s.OKCount() == ok && s.FailCount() == failed, "replies were lost or counted wrong")
	if usable > 0 {
		nd.Reach("replied")
		nd.Assert(s.All(), "an answered service request is reported incomplete")
		nd.Assert(s.ResponsesCount() > 0, "an answered service request is reported unanswered")
	} else {
		nd.Reach("silent")
		nd.Assert(s.DiscoveredCount() == 0, "nodes are reported for an unanswered service request")
	}
	nd.Observe("handled", handled)
}

//verif:harness prop=C01 reach=refused horizon=1h
//verif:bounds service requests with targets, filters or to an agent that is no service, and requests with a DDL for another agent
func VerifService() {
	sent := 0
	cl := &verifClient{do: func(ctx context.Context, msg inter.Message, handler cclient.Handler) error {
		sent++
		return nil
	}}
	var rpc *RPC
	var opts []RequestOption
	switch nd.OneOf("problem", "targets", "filter", "agent") {
	case "targets":
		rpc, _ = verifRPC(cl, true)
		opts = append(opts, Targets([]string{"n1"}))
	case "filter":
		rpc, _ = verifRPC(cl, true)
		f := protocol.NewFilter()
		f.AddIdentityFilter("n1")
		opts = append(opts, Filter(f))
	case "agent":
		rpc, _ = verifRPC(cl, false)
		rpc.ddl.Metadata.Name = "a2"
		opts = append(opts, Targets([]string{"n1"}))
	}
	_, err := rpc.Do(context.Background(), "act", map[string]int{"x": 1}, opts...)
	nd.Reach("refused")
	nd.Assert(err != nil && sent == 0, "a request that may not be sent was")
	nd.Observe("err", err != nil)
}
