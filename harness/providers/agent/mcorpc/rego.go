package mcorpc

import (
	"context"
	"encoding/json"
	"time"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/opa"
	"github.com/choria-io/go-choria/protocol"
	"github.com/choria-io/go-choria/server/agents"
	"github.com/choria-io/tokens"
	"github.com/open-policy-agent/opa/v1/ast"
	"github.com/open-policy-agent/opa/v1/rego"
	"github.com/sirupsen/logrus"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:fs . internal/util
//verif:with config/new.go
//verif:replace github.com/choria-io/tokens.ParseClientIDTokenUnverified verifRegoToken
//verif:replace github.com/choria-io/go-choria/opa.New verifRegoNew
//verif:replace github.com/open-policy-agent/opa/v1/rego.Function1 verifRegoFunction

var (
	verifRegoClaims *tokens.ClientIDClaims
	verifRegoFns    map[string]rego.Builtin1
	verifRegoIn     map[string]any
	verifRegoQuery  string
	verifRegoRuns   int
	verifRegoPass   bool
)

func verifRegoToken(t string) (*tokens.ClientIDClaims, error) {
	nd.Assert(t == "token", "the policy is not taken from the token of the caller")
	return verifRegoClaims, nil
}

type verifRego struct{}

func (verifRego) Evaluate(ctx context.Context, inputs any) (bool, error) {
	verifRegoRuns++
	verifRegoIn = inputs.(map[string]any)
	return verifRegoPass, nil
}

func verifRegoNew(name, query string, opts ...opa.Option) (verifRego, error) {
	verifRegoQuery = query
	return verifRego{}, nil
}

func verifRegoFunction(decl *rego.Function, f rego.Builtin1) func(*rego.Rego) {
	verifRegoFns[decl.Name] = f
	return func(*rego.Rego) {}
}

type verifRegoSI struct{ agents.ServerInfoSource }

func (verifRegoSI) Facts() json.RawMessage { return json.RawMessage(`{"country":"mt"}`) }
func (verifRegoSI) Classes() []string      { return []string{"alpha", "beta"} }
func (verifRegoSI) KnownAgents() []string  { return []string{"thing"} }

type verifRegoFw struct {
	inter.Framework
	prov bool
}

func (f verifRegoFw) ProvisionMode() bool { return f.prov }

func verifRegoCall(name string, arg *ast.Term) (bool, error) {
	f, ok := verifRegoFns[name]
	nd.Assert(ok, "a function policies can use does not exist")
	res, err := f(rego.BuiltinContext{}, arg)
	if err != nil {
		return false, err
	}
	b, ok := res.Value.(ast.Boolean)
	nd.Assert(ok, "a function policies can use gives something else than true or false")
	nd.Observe("answer", bool(b))
	return bool(b), nil
}

//verif:harness prop=A05 reach=some,none,match,nomatch,badfact,notstring
//verif:bounds requests with up to one fact, class, identity, agent and compound filter each with values of up to 2 characters, and every question policies can ask about them with arguments of up to 2 characters, that are not strings or facts of a list of forms
func VerifRegoFilterFunctions() {
	verifRegoFns = map[string]rego.Builtin1{}
	f := protocol.NewFilter()
	f.AddAgentFilter("thing")
	var class, id, fact, val, op string
	hasClass, hasID, hasFact, hasCompound := nd.Choice("class", 2) == 1, nd.Choice("identity", 2) == 1, nd.Choice("fact", 2) == 1, nd.Choice("compound", 2) == 1
	if hasClass {
		class = nd.StringOf("classname", 2, "ab/.")
		f.AddClassFilter("other")
		f.AddClassFilter(class)
	}
	if hasID {
		id = nd.StringOf("identityname", 2, "ab/.")
		f.AddIdentityFilter("other")
		f.AddIdentityFilter(id)
	}
	if hasFact {
		fact, val = nd.StringOf("factname", 1, "ab"), nd.StringOf("factvalue", 1, "ab")
		op = nd.OneOf("operator", "==", "!=", "=~")
		f.Fact = append(f.Fact, protocol.FactFilter{Fact: "o", Operator: "==", Value: "o"}, protocol.FactFilter{Fact: fact, Operator: op, Value: val})
	}
	if hasCompound {
		f.AddCompoundFilter("any")
	}
	_, err := EvaluateOpenPolicyAgentPolicy(&Request{Agent: "thing", Filter: f, Data: json.RawMessage(`{}`)}, "package x", &tokens.ClientIDClaims{}, "server", logrus.NewEntry(logrus.New()))
	nd.Assert(err == nil, "a valid policy could not be evaluated")

	switch nd.Choice("ask", 5) {
	case 0:
		got, err := verifRegoCall("requires_filter", ast.StringTerm(""))
		want := hasClass || hasID || hasFact || hasCompound
		if want {
			nd.Reach("some")
		} else {
			nd.Reach("none")
		}
		nd.Assert(err == nil && got == want, "policies are told that a request has a filter when it has not, or has not when it has")
	case 1:
		ask := nd.StringOf("ask_class", 2, "ab/.")
		got, err := verifRegoCall("requires_class_filter", ast.StringTerm(ask))
		verifRegoMatch(got)
		nd.Assert(err == nil && got == nd.And(hasClass, ask == class), "policies are told wrongly if a request has a class filter")
	case 2:
		ask := nd.StringOf("ask_identity", 2, "ab/.")
		got, err := verifRegoCall("requires_identity_filter", ast.StringTerm(ask))
		verifRegoMatch(got)
		nd.Assert(err == nil && got == nd.And(hasID, ask == id), "policies are told wrongly if a request has an identity filter")
	case 3:
		n, v, o := nd.OneOf("ask_name", "a", "b"), nd.OneOf("ask_value", "a", "b", ""), nd.OneOf("ask_operator", "==", "=", "!=", "=~", "<", "?")
		got, err := verifRegoCall("requires_fact_filter", ast.StringTerm(n+o+v))
		if o == "?" || v == "" {
			nd.Reach("badfact")
			nd.Assert(err != nil && !got, "something that is not a fact filter is in a request")
			return
		}
		verifRegoMatch(got)
		if o == "=" {
			o = "=="
		}
		nd.Assert(err == nil && got == nd.And(hasFact, n == fact, v == val, o == op), "policies are told wrongly if a request has a fact filter")
	case 4:
		nd.Reach("notstring")
		for _, n := range []string{"requires_class_filter", "requires_identity_filter", "requires_fact_filter"} {
			got, err := verifRegoCall(n, ast.IntNumberTerm(1))
			nd.Assert(err != nil && !got, "something that is not a string is in the filter of a request")
		}
	}
}

func verifRegoMatch(got bool) {
	if got {
		nd.Reach("match")
	} else {
		nd.Reach("nomatch")
	}
}

//verif:harness prop=A05 reach=file,token,allow,deny,baddata
//verif:bounds requests with agents, actions, callers, senders and collectives of up to 2 characters, a symbolic TTL and time and data of a list of forms, for policies in files of the agent or all agents and in tokens
func VerifRegoInputs() {
	nd.FSReset()
	cfg := config.VerifNew()
	cfg.ConfigFile = "/etc/choria/server.conf"
	cfg.RPCAuthorization = true
	verifRegoFns, verifRegoIn, verifRegoRuns = map[string]rego.Builtin1{}, nil, 0
	verifRegoPass = nd.Bool("pass")
	verifRegoClaims = &tokens.ClientIDClaims{CallerID: "up=bob", OPAPolicy: "package x", UserProperties: map[string]string{"group": "admins"}}
	data := nd.OneOf("data", `{}`, `{"a":"b"}`, `{"a":`, `[1]`, `"s"`)
	req := &Request{
		Agent: "thing", Action: nd.StringOf("action", 2, "ab"), CallerID: nd.StringOf("caller", 2, "ab"), SenderID: nd.StringOf("sender", 2, "ab"),
		Collective: nd.StringOf("collective", 2, "ab"), TTL: nd.Int("ttl", 0, 1000), Time: time.Unix(int64(nd.Int("time", 0, 1<<31)), 0), RequestID: "rid",
		Data: json.RawMessage(data), CallerPublicData: "token", Filter: protocol.NewFilter(),
	}
	site := nd.OneOf("policy", "rego_policy", "aaasvc_policy")
	cfg.RPCAuthorizationProvider = site
	prov := nd.Choice("provisioning", 2) == 1
	if site == "rego_policy" {
		nd.FSPut("/etc/choria/policies/rego/"+nd.OneOf("policy_file", "thing", "default")+".rego", "package x")
	}

	got := AuthorizeRequest(verifRegoFw{prov: prov}, req, cfg, verifRegoSI{}, logrus.NewEntry(logrus.New()))
	nd.Observe("got", got)
	if got {
		nd.Reach("allow")
	} else {
		nd.Reach("deny")
	}
	bad := data != `{}` && data != `{"a":"b"}`
	if bad {
		nd.Reach("baddata")
	}
	if bad && site == "aaasvc_policy" {
		nd.Assert(!got && verifRegoRuns == 0, "a request with data that is not valid is allowed")
		return
	}
	nd.Assert(got == verifRegoPass && verifRegoRuns == 1, "the decision is not that of the policy")

	in := verifRegoIn
	nd.Assert(in["agent"] == "thing" && in["action"] == req.Action, "the policy is given another agent or action than that of the request")
	nd.Assert(in["collective"] == req.Collective, "the policy is given another collective than that of the request")
	nd.Assert(in["ttl"] == req.TTL && in["time"].(time.Time).Equal(req.Time), "the policy is given another time or TTL than that of the request")
	var d map[string]any
	switch v := in["data"].(type) {
	case map[string]any:
		d = v
	case json.RawMessage:
		nd.Assert(json.Unmarshal(v, &d) == nil, "the policy is given data that is not that of the request")
	default:
		nd.Assert(false, "the policy is given data that is not that of the request")
	}
	switch {
	case data == `{"a":"b"}`:
		nd.Assert(len(d) == 1 && d["a"] == "b", "the policy is given data that is not that of the request")
	default:
		nd.Assert(len(d) == 0, "the policy is given data that is not that of the request")
	}

	if site == "rego_policy" {
		nd.Reach("file")
		nd.Assert(verifRegoQuery == "data.io.choria.mcorpc.authpolicy.allow", "another question is asked of the policy than if it allows the request")
		nd.Assert(in["callerid"] == req.CallerID, "the policy is given another caller than that of the request")
		nd.Assert(in["provision_mode"] == prov, "the policy is told wrongly if the server is in provisioning mode")
		facts := in["facts"].(map[string]any)
		nd.Assert(len(facts) == 1 && facts["country"] == "mt", "the policy is given other facts than those of the server")
		classes, known := in["classes"].([]string), in["agents"].([]string)
		nd.Assert(len(classes) == 2 && classes[0] == "alpha" && len(known) == 1 && known[0] == "thing", "the policy is given other classes or agents than those of the server")
		return
	}
	nd.Reach("token")
	nd.Assert(verifRegoQuery == "data.io.choria.aaasvc.allow", "another question is asked of the policy than if it allows the request")
	nd.Assert(in["sender"] == req.SenderID && in["site"] == "server", "the policy is given another sender than that of the request")
	var claims map[string]any
	switch v := in["claims"].(type) {
	case map[string]any:
		claims = v
	case *map[string]any:
		claims = *v
	default:
		nd.Assert(false, "the policy is not given the claims of the token")
	}
	props := claims["user_properties"].(map[string]any)
	nd.Assert(claims["callerid"] == "up=bob" && props["group"] == "admins", "the policy is given other claims than those of the token")
}
