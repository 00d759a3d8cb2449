package mcorpc

import (
	"context"
	"encoding/json"
	"errors"
	"time"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/opa"
	"github.com/choria-io/go-choria/protocol"
	"github.com/choria-io/go-choria/server/agents"
	"github.com/choria-io/tokens"
	"github.com/sirupsen/logrus"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:fs . internal/util providers/agent/mcorpc/audit
//verif:with config/new.go
//verif:replace github.com/choria-io/tokens.ParseClientIDTokenUnverified verifParseToken
//verif:replace github.com/choria-io/go-choria/opa.New verifOpaNew

var (
	verifClaims   *tokens.ClientIDClaims
	verifTokenErr error
	verifOpaOK    bool
	verifOpaErr   error
	verifOpaNErr  error
	verifOpaRuns  int
)

func verifParseToken(t string) (*tokens.ClientIDClaims, error) {
	if verifTokenErr != nil {
		return nil, verifTokenErr
	}
	return verifClaims, nil
}

type verifOpa struct{}

func (verifOpa) Evaluate(ctx context.Context, inputs any) (bool, error) {
	verifOpaRuns++
	if verifOpaErr != nil {
		return false, verifOpaErr
	}
	return verifOpaOK, nil
}

func verifOpaNew(name, query string, opts ...opa.Option) (verifOpa, error) {
	return verifOpa{}, verifOpaNErr
}

type verifRPCFw struct{ inter.Framework }

func (verifRPCFw) ProvisionMode() bool { return false }

type verifRPCSI struct{ agents.ServerInfoSource }

func (verifRPCSI) Facts() json.RawMessage { return json.RawMessage(`{}`) }
func (verifRPCSI) Classes() []string      { return nil }
func (verifRPCSI) KnownAgents() []string  { return nil }

// verifListAllows is the published meaning of an agent list: entries are read
// in order, anything that is not * or agent.action aborts
func verifListAllows(agent, action string, list []string) (bool, bool) {
	for _, e := range list {
		if e == "*" {
			return true, false
		}
		dots, pos := 0, 0
		for i := 0; i < len(e); i++ {
			if e[i] == '.' {
				dots++
				pos = i
			}
		}
		if dots != 1 {
			return false, true
		}
		if e[:pos] == agent && (e[pos+1:] == "*" || e[pos+1:] == action) {
			return true, false
		}
	}
	return false, false
}

//verif:harness prop=A02 reach=allow,deny
//verif:bounds agent names and actions of up to 2 characters, lists of up to 2 entries of up to 4 characters over the letters a b, dots and stars
func VerifAgentList() {
	agent := nd.StringOf("agent", 2, "ab*.")
	action := nd.StringOf("action", 2, "ab*.")
	n := nd.Choice("entries", 3)
	var list []string
	for i := 0; i < n; i++ {
		list = append(list, nd.StringOf("entry", 4, "ab*."))
	}
	ok, err := EvaluateAgentListPolicy(agent, action, list, nil)
	want, bad := verifListAllows(agent, action, list)
	nd.Observe("ok", ok)
	nd.Observe("err", err)
	if ok {
		nd.Reach("allow")
	} else {
		nd.Reach("deny")
	}
	nd.Assert(ok == want, "agent list decision differs from the first entry that matches")
	nd.Assert(bad == (err != nil), "malformed agent list entries must be an error and nothing else")
	nd.Assert(!(ok && err != nil), "a failed evaluation allowed the request")
}

//verif:harness prop=A02 reach=allow,deny,opa,list
//verif:bounds every combination of a missing, unreadable and readable token, agents that are discovery or not, agent list entries of up to 4 characters, an embedded Open Policy Agent policy that passes, does not or fails
func VerifAAAAuthorize() {
	cfg := config.VerifNew()
	cfg.RPCAuthorization = true
	cfg.RPCAuthorizationProvider = nd.OneOf("provider", "aaasvc", "AAASVC_Policy")
	tok := nd.OneOf("token", "none", "bad", "good")
	agent := nd.OneOf("agent", "discovery", "ab", "discovery2")
	action := nd.StringOf("action", 2, "ab*.")
	verifClaims = &tokens.ClientIDClaims{}
	verifTokenErr, verifOpaErr, verifOpaNErr, verifOpaRuns = nil, nil, nil, 0
	n := nd.Choice("entries", 2)
	for i := 0; i < n; i++ {
		verifClaims.AllowedAgents = append(verifClaims.AllowedAgents, nd.StringOf("entry", 5, "ab*."))
	}
	pol := nd.OneOf("opa", "none", "some")
	if pol != "none" {
		verifClaims.OPAPolicy = "package x"
	}
	verifOpaOK = nd.Bool("opa_pass")
	switch nd.OneOf("opa_error", "none", "init", "eval") {
	case "init":
		verifOpaNErr = errors.New("simulated")
	case "eval":
		verifOpaErr = errors.New("simulated")
	}
	req := &Request{Agent: agent, Action: action, Data: json.RawMessage(`{}`), CallerPublicData: "token"}
	switch tok {
	case "none":
		req.CallerPublicData = ""
	case "bad":
		verifTokenErr = errors.New("simulated")
	}
	got := AuthorizeRequest(verifRPCFw{}, req, cfg, verifRPCSI{}, logrus.NewEntry(logrus.New()))
	want := false
	switch {
	case tok != "good":
	case agent == "discovery":
		want = true
	case n > 0 && pol == "none":
		nd.Reach("list")
		want, _ = verifListAllows(agent, action, verifClaims.AllowedAgents)
	case n == 0 && pol != "none":
		nd.Reach("opa")
		want = nd.And(verifOpaOK, verifOpaErr == nil, verifOpaNErr == nil)
	}
	nd.Observe("got", got)
	if got {
		nd.Reach("allow")
	} else {
		nd.Reach("deny")
	}
	nd.Assert(got == want, "decision differs from the policy embedded in the token")
}

//verif:harness prop=A03 reach=allow,deny
//verif:bounds every combination of authorization being on or off, provider names from a list of valid, misspelled and empty names in several cases, absent configuration, request, agent name and server information, and any outcome of the provider
func VerifAuthorizeRequest() {
	nd.FSReset()
	var cfg *config.Config
	prov := nd.OneOf("provider", "", "action_policy", "Action_Policy", "rego_policy", "REGO_POLICY", "aaasvc", "aaasvc_policy", "actionpolicy", "none", "allow", "*")
	on := false
	if nd.OneOf("config", "yes", "no") == "yes" {
		cfg = config.VerifNew()
		cfg.ConfigFile = "/etc/choria/server.conf"
		on = nd.OneOf("rpcauthorization", "on", "off") == "on"
		cfg.RPCAuthorization = on
		cfg.RPCAuthorizationProvider = prov
	}
	agent := nd.OneOf("agent", "", "thing")
	var req *Request
	if nd.OneOf("request", "yes", "no") == "yes" {
		req = &Request{Agent: agent, Action: "act", CallerID: "c=a", CallerPublicData: "token", Data: json.RawMessage(nd.OneOf("data", `{}`, `x`))}
	}
	var si agents.ServerInfoSource
	if nd.OneOf("info", "yes", "no") == "yes" {
		si = verifRPCSI{}
	}
	verdict := nd.OneOf("verdict", "allow", "deny", "fail")
	verifClaims = &tokens.ClientIDClaims{AllowedAgents: []string{map[string]string{"allow": "thing.*", "deny": "thing.other", "fail": "thing"}[verdict]}}
	verifOpaOK = verdict == "allow"
	verifTokenErr, verifOpaErr, verifOpaNErr, verifOpaRuns = nil, nil, nil, 0
	if verdict == "fail" {
		verifOpaErr = errors.New("simulated")
	}
	if nd.OneOf("files", "yes", "no") == "yes" {
		nd.FSPut("/etc/choria/policies/thing.policy", map[string]string{"allow": "allow\t*\t*\t*\t*\n", "deny": "deny\t*\t*\t*\t*\n", "fail": "allow\t*\t*\tx\t*\n"}[verdict])
		nd.FSPut("/etc/choria/policies/rego/thing.rego", "package x")
	} else if prov != "aaasvc" && prov != "aaasvc_policy" {
		verdict = "fail"
	}
	got := AuthorizeRequest(verifRPCFw{}, req, cfg, si, logrus.NewEntry(logrus.New()))
	known := false
	switch prov {
	case "action_policy", "Action_Policy", "rego_policy", "REGO_POLICY", "aaasvc", "aaasvc_policy":
		known = true
	}
	want := false
	switch {
	case cfg == nil:
	case !on:
		want = true
	case req == nil || agent == "" || si == nil || !known:
	default:
		want = verdict == "allow"
	}
	nd.Observe("got", got)
	if got {
		nd.Reach("allow")
	} else {
		nd.Reach("deny")
	}
	nd.Assert(got == want, "a request was not decided by its configured authorizer, or something missing did not deny it")
}

// verifPR is a verified request as the security layer hands it over
type verifPR struct {
	protocol.Request
	caller, sender, id, collective, pub, signer string
	ttl                                         int
	t                                           time.Time
	filter                                      *protocol.Filter
}

func (r *verifPR) CallerID() string                 { return r.caller }
func (r *verifPR) SenderID() string                 { return r.sender }
func (r *verifPR) RequestID() string                { return r.id }
func (r *verifPR) Collective() string               { return r.collective }
func (r *verifPR) CallerPublicData() string         { return r.pub }
func (r *verifPR) SignerPublicData() string         { return r.signer }
func (r *verifPR) TTL() int                         { return r.ttl }
func (r *verifPR) Time() time.Time                  { return r.t }
func (r *verifPR) Filter() (*protocol.Filter, bool) { return r.filter, true }

type verifMsg struct {
	inter.Message
	payload []byte
}

func (m *verifMsg) Payload() []byte   { return m.payload }
func (m *verifMsg) RequestID() string { return "msgid" }

//verif:harness prop=A04 reach=ran,unknown,denied,invalid
//verif:bounds payloads that are invalid or a request with agent, action, caller, sender, collective, request id and data strings of up to 2 characters; any verified request identity; authorization on or off with every agent list outcome; auditing on or off; replies disabled or not
func VerifHandleMessage() {
	nd.FSReset()
	cfg := config.VerifNew()
	cfg.RPCAuthorization = nd.OneOf("rpcauthorization", "on", "off") == "on"
	cfg.RPCAuthorizationProvider = "aaasvc"
	cfg.RPCAudit = nd.OneOf("audit", "on", "off") == "on"
	cfg.Choria.RPCAuditLogfile = "/var/log/audit.log"
	cfg.Choria.RPCAuditLogFileMode = "0600"
	nd.FSDir("/var/log")
	var wrote []string
	nd.FSOnWrite = func(path, s string) {
		nd.Assert(path == "/var/log/audit.log", "something was written that is not the audit log")
		wrote = append(wrote, s)
	}

	verifTokenErr = nil
	verifClaims = &tokens.ClientIDClaims{AllowedAgents: []string{nd.OneOf("policy", "ag.do", "ag.no", "*", "xx.*")}}
	a := &Agent{meta: &agents.Metadata{Name: "ag"}, Log: logrus.NewEntry(logrus.New()), actions: map[string]Action{}, Config: cfg, Choria: verifRPCFw{}, ServerInfoSource: verifRPCSI{}}
	var ran []string
	var seen *Request
	disable := nd.OneOf("respond", "yes", "no") == "no"
	status := StatusCode(nd.Choice("action_status", 2) * 5)
	for _, n := range []string{"do", "no"} {
		err := a.RegisterAction(n, func(_ context.Context, req *Request, reply *Reply, _ *Agent, _ inter.ConnectorInfo) {
			ran = append(ran, n)
			seen = req
			reply.Statuscode = status
			reply.DisableResponse = disable
			if n == "do" {
				reply.Data = map[string]string{"x": "y"}
			} else {
				reply.Data = nil
			}
		})
		nd.Assert(err == nil, "an action could not be registered")
	}
	nd.Assert(a.RegisterAction("do", nil) != nil, "an action was registered twice")

	// what the client put in the payload
	var claimed struct {
		Agent      string          `json:"agent"`
		Action     string          `json:"action"`
		Data       json.RawMessage `json:"data,omitempty"`
		RequestID  string          `json:"requestid"`
		SenderID   string          `json:"senderid"`
		CallerID   string          `json:"callerid"`
		Collective string          `json:"collective"`
		TTL        int             `json:"ttl"`
	}
	claimed.Agent = nd.OneOf("agent", "ag", "xx", "")
	claimed.Action = nd.StringOf("action", 2, "dono")
	claimed.CallerID = nd.StringOf("fake_caller", 2, "cx")
	claimed.SenderID = nd.StringOf("fake_sender", 2, "sx")
	claimed.Collective = nd.StringOf("fake_collective", 2, "mx")
	claimed.RequestID = nd.StringOf("fake_id", 2, "ix")
	claimed.TTL = 999
	data := nd.OneOf("data", "", `{"a":"b"}`)
	if data != "" {
		claimed.Data = json.RawMessage(data)
	}
	payload, err := json.Marshal(claimed)
	nd.Assume(err == nil)
	invalid := nd.OneOf("payload", "good", "bad") == "bad"
	if invalid {
		payload = []byte("{bad")
	}

	pr := &verifPR{caller: nd.StringOf("caller", 2, "cx"), sender: nd.StringOf("sender", 2, "sx"), id: nd.StringOf("id", 2, "ix"), collective: nd.StringOf("collective", 2, "mx"), pub: "token", signer: nd.StringOf("signer", 1, "ab"), ttl: 60, t: time.Unix(1600000000, 0).UTC(), filter: protocol.NewFilter()}
	outbox := make(chan *agents.AgentReply, 5)
	msg := &verifMsg{payload: payload}
	a.HandleMessage(context.Background(), msg, pr, nil, outbox)

	known := nd.Or(nd.StrEq(claimed.Action, "do"), nd.StrEq(claimed.Action, "no"))
	pol := verifClaims.AllowedAgents[0]
	allowed := nd.Or(!cfg.RPCAuthorization, nd.And(claimed.Agent == "ag", nd.Or(pol == "*", nd.StrEq(pol, "ag."+claimed.Action))))
	should := nd.And(!invalid, known, allowed)
	nd.Observe("ran", len(ran))
	nd.Assert(should == (len(ran) == 1), "an action ran without being requested, known and authorized, or did not run although it was")
	nd.Assert(len(ran) < 2, "more than one action ran")
	if len(ran) == 1 {
		nd.Reach("ran")
		nd.Assert(nd.StrEq(ran[0], claimed.Action), "another action than the requested one ran")
		nd.Assert(nd.And(nd.StrEq(seen.CallerID, pr.caller), nd.StrEq(seen.SenderID, pr.sender), nd.StrEq(seen.Collective, pr.collective), nd.StrEq(seen.RequestID, pr.id), nd.StrEq(seen.SignerPublicData, pr.signer)), "the action saw an identity that is not the verified one")
		nd.Assert(seen.TTL == 60 && seen.Time.Equal(pr.t) && seen.CallerPublicData == "token" && seen.Filter == pr.filter, "the action saw request properties that are not the verified ones")
		if data == "" {
			data = "{}"
		}
		nd.Assert(string(seen.Data) == data, "the action saw other data than was sent")
	}

	// auditing
	logged := len(wrote) > 0
	nd.Assert(logged == (cfg.RPCAudit && len(ran) == 1), "an executed action was not audited, or one that did not run was")
	if logged {
		nd.Assert(len(wrote) == 1, "an action was audited more than once")
		var am struct {
			Caller string          `json:"caller"`
			Agent  string          `json:"agent"`
			Action string          `json:"action"`
			ID     string          `json:"request_id"`
			Data   json.RawMessage `json:"data"`
		}
		nd.Assert(json.Unmarshal([]byte(wrote[0]), &am) == nil, "the audit line is not a JSON line")
		nd.Assert(nd.And(nd.StrEq(am.Caller, pr.caller), nd.StrEq(am.ID, pr.id), nd.StrEq(am.Action, claimed.Action), nd.StrEq(am.Agent, claimed.Agent)), "the audit line names another caller, request or action")
		nd.Assert(string(am.Data) == data, "the audit line holds other data")
	}

	// the reply
	if len(ran) == 1 && disable {
		nd.Assert(len(outbox) == 0, "a reply was sent although the action disabled it")
		return
	}
	nd.Assert(len(outbox) == 1, "not exactly one reply was sent")
	out := <-outbox
	nd.Assert(out.Message == inter.Message(msg) && out.Request == protocol.Request(pr) && out.Error == nil, "the reply belongs to another request")
	var rep struct {
		Statuscode int             `json:"statuscode"`
		Statusmsg  string          `json:"statusmsg"`
		Data       json.RawMessage `json:"data"`
	}
	nd.Assert(json.Unmarshal(out.Body, &rep) == nil, "the reply is not JSON")
	nd.Observe("status", rep.Statuscode)
	switch {
	case len(ran) == 1:
		nd.Assert(rep.Statuscode == int(status), "the reply status is not the one the action set")
	case invalid:
		nd.Reach("invalid")
		nd.Assert(rep.Statuscode == 4, "an invalid payload was not answered as invalid data")
	default:
		if known {
			nd.Reach("denied")
			nd.Assert(rep.Statuscode == 1, "a denied request was not answered as aborted")
		} else {
			nd.Reach("unknown")
			nd.Assert(rep.Statuscode == 2, "an unknown action was not answered as unknown")
		}
	}
}
