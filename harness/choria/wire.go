package choria

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"

	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/protocol"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with choria/base.go config/new.go

func verifSameFilter(a, b *protocol.Filter) bool {
	if len(a.Fact) != len(b.Fact) || len(a.Compound) != len(b.Compound) {
		return false
	}
	r := nd.And(verifSameStrings(a.Class, b.Class), verifSameStrings(a.Agent, b.Agent), verifSameStrings(a.Identity, b.Identity))
	for i := range a.Fact {
		r = nd.And(r, nd.StrEq(a.Fact[i].Fact, b.Fact[i].Fact), nd.StrEq(a.Fact[i].Operator, b.Fact[i].Operator), nd.StrEq(a.Fact[i].Value, b.Fact[i].Value))
	}
	for i := range a.Compound {
		if len(a.Compound[i]) != len(b.Compound[i]) {
			return false
		}
		for j := range a.Compound[i] {
			r = nd.And(r, nd.StrEq(a.Compound[i][j]["expr"], b.Compound[i][j]["expr"]))
		}
	}
	return r
}

func verifFilter() *protocol.Filter {
	f := protocol.NewFilter()
	if nd.OneOf("filter.fact", "no", "yes") == "yes" {
		f.Fact = append(f.Fact, protocol.FactFilter{Fact: "x" + nd.StringOf("fact", 2, "ab"), Operator: nd.Pick("op", "==", "=~", "<="), Value: "x" + nd.StringOf("value", 2, "ab")})
	}
	if nd.OneOf("filter.lists", "no", "yes") == "yes" {
		f.AddClassFilter("x" + nd.StringOf("class", 2, "ab"))
		f.AddIdentityFilter("x" + nd.StringOf("identity", 2, "ab"))
		f.AddIdentityFilter("second")
		f.AddAgentFilter("x" + nd.StringOf("agentf", 2, "ab"))
	}
	if nd.OneOf("filter.compound", "no", "yes") == "yes" {
		f.Compound = append(f.Compound, []map[string]string{{"expr": "x" + nd.StringOf("expr", 2, "ab")}})
	}
	return f
}

type verifFed struct {
	on      bool
	id, to  string
	targets []string
}

func verifFederate(t protocol.Federable) verifFed {
	f := verifFed{on: nd.OneOf("federated", "no", "yes") == "yes"}
	if f.on {
		f.id, f.to, f.targets = "0123456789012345678901234567890"+nd.StringOf("fed.id", 2, "ab"), "x"+nd.StringOf("fed.to", 2, "ab"), []string{"x" + nd.StringOf("fed.target", 2, "ab"), "other"}
		t.SetFederationRequestID(f.id)
		t.SetFederationReplyTo(f.to)
		t.SetFederationTargets(f.targets)
		t.RecordNetworkHop("in", "proc", "out")
		t.RecordNetworkHop("in2", "proc2", "out2")
	}
	return f
}

func (f verifFed) check(t protocol.Federable, msg string) {
	nd.Assert(t.IsFederated() == f.on, msg+" lost or gained federation")
	id, ok1 := t.FederationRequestID()
	to, ok2 := t.FederationReplyTo()
	tg, ok3 := t.FederationTargets()
	nd.Assert(ok1 == f.on && ok2 == f.on && ok3 == f.on, msg+" lost or gained federation data")
	if f.on {
		nd.Assert(nd.And(nd.StrEq(id, f.id), nd.StrEq(to, f.to), verifSameStrings(tg, f.targets)), msg+" carries other federation data")
		h := t.NetworkHops()
		nd.Assert(len(h) == 2 && h[0] == [3]string{"in", "proc", "out"} && h[1] == [3]string{"in2", "proc2", "out2"}, msg+" lost the hops it made")
	}
}

//verif:harness prop=M02 reach=v1,v2 clock=frozen
//verif:bounds requests of both protocols, broadcast, direct and service, with any payload of up to 3 bytes, agent, reply target and filter entries of up to 2 bytes, any TTL, in one of two collectives, federated or not; replies of up to 3 bytes to them
func VerifWire() {
	verifIDs = 0
	tech := verifTech()
	client, server := verifFramework("client", tech), verifFramework("server", tech)
	if tech == inter.SecurityTechnologyX509 {
		nd.Reach("v1")
	} else {
		nd.Reach("v2")
	}
	payload := []byte("{" + nd.StringOf("payload", 3, "ab\"\\"))
	agent := "x" + nd.StringOf("agent", 2, "ab")
	collective := nd.OneOf("collective", "c1", "c2")
	to := "x" + nd.StringOf("reply.to", 2, "ab")
	kind := nd.OneOf("type", inter.RequestMessageType, inter.DirectRequestMessageType, inter.ServiceRequestMessageType)

	start := nd.Now()
	msg, err := client.NewMessage(payload, agent, collective, inter.RequestMessageType, nil)
	nd.Assert(err == nil, "a good message could not be made")
	msg.SetFilter(verifFilter())
	if kind == inter.DirectRequestMessageType {
		msg.SetDiscoveredHosts([]string{"server"})
	}
	nd.Assert(msg.SetType(kind) == nil, "the type of a good message could not be set")
	ttl := nd.Int("ttl", 30, 100000)
	msg.SetTTL(ttl)
	nd.Assert(msg.SetReplyTo(to) == nil, "the reply target could not be set")
	ct, err := msg.Transport(context.Background())
	nd.Assert(err == nil, "a good request could not be sent")
	fed := verifFederate(ct)
	wire, err := ct.JSON()
	nd.Assert(err == nil, "a good request could not be encoded")

	// what the server does with it
	t, err := server.NewTransportFromJSON(wire)
	nd.Assert(err == nil, "a good transport was refused")
	sreq, err := server.NewSecureRequestFromTransport(t, false)
	nd.Assert(err == nil, "a good secure request was refused")
	req, err := server.NewRequestFromSecureRequest(sreq)
	nd.Assert(err == nil, "a good request was refused")
	protocol.CopyFederationData(t, req)
	nd.Assert(nd.StrEq(t.ReplyTo(), to), "the request asks for replies elsewhere")
	nd.Assert(t.SenderID() == "client" && req.SenderID() == "client", "the request comes from another host")
	nd.Assert(nd.And(bytes.Equal(req.Message(), payload), nd.StrEq(req.Agent(), agent), req.Collective() == collective, req.CallerID() == "up=client"), "the request received differs from the one sent")
	nd.Assert(nd.And(req.TTL() == ttl, req.RequestID() == msg.RequestID()), "the request received has another TTL or id than the one sent")
	nd.Assert(req.Time().Unix() == start.Unix(), "the request received has another time than the one sent")
	f, filtered := req.Filter()
	nd.Assert(verifSameFilter(f, msg.Filter()), "the filter received differs from the one sent")
	nd.Assert(filtered == !msg.Filter().Empty(), "the filter was lost or gained")
	fed.check(req, "the request")

	rmsg, err := server.NewMessageFromRequest(req, t.ReplyTo())
	nd.Assert(err == nil, "a good request could not be handled")
	nd.Assert(nd.And(bytes.Equal(rmsg.Payload(), payload), nd.StrEq(rmsg.Agent(), agent), nd.StrEq(rmsg.ReplyTo(), to), rmsg.Collective() == collective, rmsg.RequestID() == msg.RequestID(), rmsg.TTL() == ttl, rmsg.TimeStamp().Equal(req.Time())), "the message handled differs from the one sent")
	nd.Assert(rmsg.Type() == inter.ReplyMessageType, "the reply is not a reply")

	// the reply
	result := []byte("x" + nd.StringOf("result", 2, "ab\"{"))
	rmsg.SetPayload(result)
	rt, err := rmsg.Transport(context.Background())
	nd.Assert(err == nil, "a good reply could not be sent")
	fed.check(rt, "the reply transport")
	rwire, err := rt.JSON()
	nd.Assert(err == nil, "a good reply could not be encoded")
	got, err := client.NewReplyFromTransportJSON(rwire, false)
	nd.Assert(err == nil, "a good reply was refused")
	nd.Assert(nd.And(bytes.Equal(got.Message(), result), got.RequestID() == msg.RequestID(), got.SenderID() == "server", nd.StrEq(got.Agent(), agent)), "the reply received differs from the one sent")
	fed.check(got, "the reply")
	nd.Observe("done", len(result))
}

func verifEnc(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// verifTransport makes the text of a transport message whose structure may be unusual
func verifTransport(v2 bool, data any) []byte {
	proto := "choria:transport:1"
	reply, fed, trace, targets := "reply-to", "federation", "seen-by", "target"
	if v2 {
		proto = "io.choria.protocol.v2.transport"
		reply, trace, targets = "reply", "trace", "targets"
	}
	to := nd.StringOf("reply.to", 3, "a.:")
	doc := map[string]any{"protocol": proto, "data": data}
	switch nd.OneOf("headers", "absent", "null", "empty", "nulls", "list", "federated", "federated_empty", "short_hops") {
	case "null":
		doc["headers"] = nil
	case "empty":
		doc["headers"] = map[string]any{}
	case "nulls":
		doc["headers"] = map[string]any{reply: nil, fed: nil, trace: nil}
	case "list":
		doc["headers"] = []any{}
	case "federated":
		doc["headers"] = map[string]any{reply: to, fed: map[string]any{reply: to, targets: []any{to}}}
	case "federated_empty":
		doc["headers"] = map[string]any{reply: to, fed: map[string]any{}}
	case "short_hops":
		doc["headers"] = map[string]any{reply: to, fed: map[string]any{targets: nil}, trace: []any{[]any{to}, []any{}, nil}}
	}
	switch nd.OneOf("shape", "object", "null", "list", "string", "empty", "other") {
	case "null":
		return []byte("null")
	case "list":
		return []byte("[]")
	case "string":
		return []byte(`"` + proto + `"`)
	case "empty":
		return []byte{}
	case "other":
		return []byte(`{"protocol":"other"}`)
	}
	wire, err := json.Marshal(doc)
	nd.Assert(err == nil, "the harness made no message")
	return wire
}

//verif:harness prop=M05 reach=dropped,handled clock=frozen
//verif:bounds transports of both protocols of six overall shapes and eight header shapes, around no, null, wrongly typed, badly encoded and good secure requests holding requests with six shapes of filter
func VerifMalformedRequest() {
	verifIDs = 0
	tech := verifTech()
	v2 := tech == inter.SecurityTechnologyED25519JWT
	server := verifFramework("server", tech)
	none := []string{}
	fields := map[string]any{"agent": "x" + nd.StringOf("agent", 2, "ab"), "collective": "c" + nd.StringOf("collective", 1, "12"), "ttl": nd.Int("ttl", 30, 1<<40), "time": nd.Int("time", 1, 1<<62)}
	filter := map[string]any{"fact": []any{}, "cf_class": none, "agent": none, "identity": none, "compound": []any{}}
	switch nd.OneOf("filter", "default", "facts", "compound") {
	case "default":
		if !v2 {
			fields["filter"] = filter // version 1 requires one
		}
	case "facts":
		filter["fact"] = []any{map[string]string{"fact": "a", "operator": "==", "value": "x" + nd.StringOf("value", 2, "ab")}}
		filter["cf_class"] = []string{nd.StringOf("class", 2, "/a")}
		fields["filter"] = filter
	case "compound":
		filter["compound"] = []any{[]any{map[string]string{"expr": nd.StringOf("expr", 2, "a(")}}}
		fields["filter"] = filter
	}
	var sec map[string]any
	if v2 {
		fields["protocol"], fields["message"], fields["id"], fields["sender"], fields["caller"] = "io.choria.protocol.v2.request", "e30=", "x", "x", "up=client"
		q, _ := json.Marshal(fields)
		sec = map[string]any{"protocol": "io.choria.protocol.v2.secure_request", "request": q, "signature": q, "caller": "token of up=client"}
	} else {
		fields["requestid"], fields["senderid"], fields["callerid"] = "01234567890123456789012345678901", "x", "up=client"
		q, _ := json.Marshal(map[string]any{"protocol": "choria:request:1", "message": "e30=", "envelope": fields})
		sec = map[string]any{"protocol": "choria:secure:request:1", "message": string(q), "signature": verifEnc(q), "pubcert": "token of up=client"}
	}
	var data any
	switch nd.OneOf("data", "good", "null", "number", "encoding", "junk") {
	case "good":
		data, _ = json.Marshal(sec)
	case "number":
		data = 1
	case "encoding":
		data = "*"
	case "junk":
		data = []byte("{")
	}

	wire := verifTransport(v2, data)
	_, err := server.NewRequestMessageFromTransportJSON(wire)
	nd.Observe("message", err == nil)
	t, err := server.NewTransportFromJSON(wire)
	if err != nil {
		nd.Reach("dropped")
		return
	}
	sreq, err := server.NewSecureRequestFromTransport(t, false)
	if err != nil {
		nd.Reach("dropped")
		return
	}
	r, err := server.NewRequestFromSecureRequest(sreq)
	if err != nil {
		nd.Reach("dropped")
		return
	}
	protocol.CopyFederationData(t, r)
	f, _ := r.Filter()
	f.Empty()
	msg, err := server.NewMessageFromRequest(r, t.ReplyTo())
	if err != nil {
		nd.Reach("dropped")
		return
	}
	msg.ValidateTTL()
	msg.SetPayload([]byte("{}"))
	rt, err := msg.Transport(context.Background())
	if err == nil {
		nd.Reach("handled")
		_, err = rt.JSON()
	}
	nd.Observe("handled", err == nil)
	_ = t.SenderID()
}

//verif:harness prop=M05 reach=dropped,handled clock=frozen
//verif:bounds transports of both protocols of six overall shapes and eight header shapes, around no, null, wrongly typed, badly encoded and good secure replies of three shapes holding replies of eight shapes, validated or not
func VerifMalformedReply() {
	verifIDs = 0
	tech := verifTech()
	v2 := tech == inter.SecurityTechnologyED25519JWT
	client := verifFramework("client", tech)
	proto, sproto, field := "choria:reply:1", "choria:secure:reply:1", "message"
	if v2 {
		proto, sproto, field = "io.choria.protocol.v2.reply", "io.choria.protocol.v2.secure_reply", "reply"
	}
	fields := map[string]any{"requestid": nd.StringOf("id", 2, "ab"), "senderid": "x", "agent": nd.StringOf("agent", 2, "ab"), "time": nd.Int("time", 1, 1<<62)}
	doc := map[string]any{"protocol": proto, "message": "e30="}
	switch nd.OneOf("envelope", "good", "absent", "null", "empty", "list") {
	case "good":
		if v2 {
			doc["request"], doc["sender"], doc["agent"], doc["time"] = fields["requestid"], "x", fields["agent"], fields["time"]
		} else {
			doc["envelope"] = fields
		}
	case "null":
		doc["envelope"] = nil
	case "empty":
		doc["envelope"] = map[string]any{}
	case "list":
		doc["envelope"] = []any{}
	}
	var rep []byte
	switch nd.OneOf("reply", "good", "null", "list", "empty") {
	case "good":
		rep, _ = json.Marshal(doc)
	case "null":
		rep = []byte("null")
	case "list":
		rep = []byte("[]")
	}
	var body any = rep
	if !v2 {
		body = string(rep)
	}
	var sec []byte
	switch nd.OneOf("secure", "good", "null", "list") {
	case "good":
		sec, _ = json.Marshal(map[string]any{"protocol": sproto, field: body, "hash": verifEnc(rep)})
	case "null":
		sec = []byte("null")
	case "list":
		sec = []byte("[]")
	}
	var data any
	switch nd.OneOf("data", "good", "null", "number", "encoding") {
	case "good":
		data = sec
	case "number":
		data = 1
	case "encoding":
		data = "*"
	}
	skip := nd.OneOf("skip", "no", "yes") == "yes"

	r, err := client.NewReplyFromTransportJSON(verifTransport(v2, data), skip)
	nd.Observe("accepted", err == nil)
	if err != nil {
		nd.Reach("dropped")
		return
	}
	nd.Reach("handled")
	_, _, _, _ = r.RequestID(), r.SenderID(), r.Agent(), r.Message()
	_ = r.Time()
	r.IsFederated()
}
