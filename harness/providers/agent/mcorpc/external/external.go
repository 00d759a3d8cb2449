package external

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/providers/agent/mcorpc"
	"github.com/choria-io/go-choria/server/agents"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with config/new.go
//verif:clock .
//verif:exec .
//verif:fs . internal/util providers/agent/mcorpc/ddl/agent

type verifFW struct {
	inter.Framework
	cfg *config.Config
}

func (f *verifFW) Configuration() *config.Config { return f.cfg }

type verifConn struct {
	inter.Connector
	subs map[string]bool
}

func (c *verifConn) QueueSubscribe(ctx context.Context, name string, subject string, group string, out chan inter.ConnectorMessage) error {
	if c.subs[name] {
		return fmt.Errorf("%s is subscribed", name)
	}
	c.subs[name] = true
	return nil
}
func (c *verifConn) Unsubscribe(name string) error {
	delete(c.subs, name)
	return nil
}
func (c *verifConn) AgentBroadcastTarget(collective string, agent string) string {
	return collective + ".agent." + agent
}
func (c *verifConn) ServiceBroadcastTarget(collective string, agent string) string {
	return collective + ".service." + agent
}

// verifManager is the real manager that also counts what was changed
type verifManager struct {
	*agents.Manager
	running map[string]agents.Agent
	changes int
}

func (m *verifManager) RegisterAgent(ctx context.Context, name string, agent agents.Agent, conn inter.AgentConnector) error {
	err := m.Manager.RegisterAgent(ctx, name, agent, conn)
	if _, ok := m.Manager.Get(name); ok && err == nil {
		m.changes++
		m.running[name] = agent
	}
	return err
}
func (m *verifManager) UnregisterAgent(name string, conn inter.AgentConnector) error {
	err := m.Manager.UnregisterAgent(name, conn)
	if err == nil {
		m.changes++
		delete(m.running, name)
	}
	return err
}
func (m *verifManager) ReplaceAgent(name string, agent agents.Agent) error {
	err := m.Manager.ReplaceAgent(name, agent)
	if err == nil {
		m.changes++
		m.running[name] = agent
	}
	return err
}

func verifProvider() (*Provider, *verifManager, *verifConn) {
	nd.FSReset()
	cfg := config.VerifNew()
	cfg.ConfigFile = "/etc/server.conf"
	cfg.Collectives = []string{"c1"}
	cfg.Choria.RubyLibdir = []string{"/a", "/b"}
	conn := &verifConn{subs: map[string]bool{}}
	log := logrus.NewEntry(logrus.New())
	mgr := &verifManager{Manager: agents.New(make(chan inter.ConnectorMessage, 1), &verifFW{cfg: cfg}, nil, nil, log), running: map[string]agents.Agent{}}
	p := &Provider{}
	p.Initialize(cfg, log)
	for _, d := range cfg.Choria.RubyLibdir {
		nd.FSDir(d + "/mcollective/agent")
	}
	return p, mgr, conn
}

func verifDDL(dir string, file string, name string, version string, age time.Duration) {
	path := dir + "/mcollective/agent/" + file + ".json"
	nd.FSPut(path, fmt.Sprintf(`{"metadata":{"name":%q,"version":%q,"timeout":2,"provider":"external"},"actions":[{"action":"act","input":{},"output":{}}]}`, name, version))
	nd.FSSetTime(path, nd.Now().Add(-age))
}

// verifActivate makes commands answer whether agents activate
func verifActivate(active map[string]bool) {
	nd.Exec(func(c *nd.Cmd) nd.ExecResult {
		name := c.Path[strings.LastIndex(c.Path, "/")+1:]
		if active[name] {
			nd.FSPut(c.Args[2], `{"activate":true}`)
		} else {
			nd.FSPut(c.Args[2], `{"activate":false}`)
		}
		return nd.ExecResult{}
	})
}

//verif:harness prop=X01 reach=runs,upgraded,removed,fresh clock=frozen delays=0
//verif:bounds two agents that are absent or of either of two versions, the first also in another place or in both, in three states of the disk after each other, the first just changed or not in the last, the second activating or not
func VerifReconcile() {
	p, mgr, conn := verifProvider()
	active := map[string]bool{"one": true, "two": nd.OneOf("two", "activates", "does not") == "activates"}
	verifActivate(active)
	for _, d := range []string{"/a", "/b"} {
		for _, n := range []string{"one", "two"} {
			nd.FSPut(d+"/mcollective/agent/"+n, "binary")
		}
	}
	last := map[string]string{}
	for round := 0; round < 3; round++ {
		want := map[string]string{}
		fresh := map[string]bool{}
		for _, n := range []string{"one", "two"} {
			age := time.Minute
			states := []string{"absent", "first"}
			switch {
			case round > 0 && n == "one" && (round == 1 || nd.Thorough()):
				states = []string{"absent", "first", "second", "elsewhere", "both"}
			case round > 0:
				states = []string{"absent", "first", "second"}
			}
			if round == 2 && n == "one" {
				if nd.OneOf(n+" changed", "long ago", "just now") == "just now" {
					age = time.Second
					fresh[n] = true
				}
			}
			for _, d := range []string{"/a", "/b"} {
				nd.FSRemove(d + "/mcollective/agent/" + n + ".json")
			}
			switch nd.OneOf(n, states...) {
			case "first":
				verifDDL("/a", n, n, "1", age)
				want[n] = "1"
			case "second":
				verifDDL("/a", n, n, "2", age)
				want[n] = "2"
			case "elsewhere":
				verifDDL("/b", n, n, "3", age)
				want[n] = "3"
			case "both":
				verifDDL("/a", n, n, "1", age)
				verifDDL("/b", n, n, "3", age)
				want[n] = "1"
			}
		}
		err := p.reconcileAgents(context.Background(), mgr, conn)
		nd.Assert(err == nil, "agents could not be reconciled")
		for _, n := range []string{"one", "two"} {
			a, runs := mgr.running[n]
			w, there := want[n]
			_, known := mgr.Get(n)
			nd.Assert(runs == known && conn.subs[fmt.Sprintf("c1.agent.%s", n)] == known || len(conn.subs) == len(mgr.running), "what runs is not what is subscribed")
			switch {
			case !there || !active[n]:
				nd.Assert(!runs, "an agent runs that is not on disk, or that does not want to")
				if last[n] != "" && active[n] {
					nd.Reach("removed")
				}
			case fresh[n]:
				nd.Reach("fresh")
				nd.Assert(runs == (last[n] != ""), "an agent that is just being changed was started or stopped")
				if runs {
					nd.Assert(a.Metadata().Version == last[n], "an agent that is just being changed was loaded")
					w = last[n]
				}
			default:
				nd.Assert(runs, "an agent that is on disk does not run")
				nd.Assert(a.Metadata().Version == w, "another version of an agent runs than is on disk")
				nd.Reach("runs")
				if last[n] != "" && last[n] != w {
					nd.Reach("upgraded")
				}
			}
			last[n] = ""
			if runs {
				last[n] = w
			}
		}
		mgr.changes = 0
		err = p.reconcileAgents(context.Background(), mgr, conn)
		nd.Assert(err == nil && mgr.changes == 0, "agents were changed while nothing changed on disk")
		for _, d := range p.Agents() {
			_, there := want[d.Metadata.Name]
			nd.Assert(there, "an agent is known that is not on disk")
		}
	}
}

//verif:harness prop=X01 reach=runs,refused clock=frozen
//verif:bounds a description in a file or directory of either of four names, for an agent of either of four names or without one, whole, for another provider, without metadata, with the same action twice, with no timeout or that is not JSON, next to a good one
func VerifFaultyDDL() {
	p, mgr, conn := verifProvider()
	file := nd.OneOf("file", "agent", "good", "rpcutil", "tmp")
	name := nd.OneOf("name", "agent", "rpcutil", "scout", "choria_provision", "")
	verifActivate(map[string]bool{"good": true, "agent": true, "rpcutil": true, "scout": true, "choria_provision": true})
	for _, n := range []string{"good", "agent", "rpcutil", "scout", "choria_provision"} {
		nd.FSPut("/a/mcollective/agent/"+n, "binary")
		nd.FSPut("/b/mcollective/agent/"+n, "binary")
	}
	body := fmt.Sprintf(`{"metadata":{"name":%q,"version":"1","timeout":2,"provider":"external"},"actions":[{"action":"act"}]}`, name)
	fault := nd.OneOf("fault", "none", "provider", "metadata", "action twice", "timeout", "JSON")
	switch fault {
	case "provider":
		body = fmt.Sprintf(`{"metadata":{"name":%q,"version":"1","timeout":2,"provider":"ruby"},"actions":[{"action":"act"}]}`, name)
	case "metadata":
		body = `{"actions":[{"action":"act"}]}`
	case "action twice":
		body = fmt.Sprintf(`{"metadata":{"name":%q,"version":"1","timeout":2,"provider":"external"},"actions":[{"action":"act"},{"action":"act"}]}`, name)
	case "timeout":
		body = fmt.Sprintf(`{"metadata":{"name":%q,"version":"1","timeout":0,"provider":"external"},"actions":[{"action":"act"}]}`, name)
	case "JSON":
		body = body[:len(body)-2]
	}
	nd.FSPut("/a/mcollective/agent/"+file+".json", body)
	nd.FSSetTime("/a/mcollective/agent/"+file+".json", nd.Now().Add(-time.Minute))
	verifDDL("/b", "good", "good", "1", time.Minute)

	for i := 0; i < 2; i++ {
		err := p.reconcileAgents(context.Background(), mgr, conn)
		nd.Assert(err == nil, "agents could not be reconciled")
	}
	_, runs := mgr.running["good"]
	nd.Assert(runs, "a good agent does not run because of another")
	_, bad := mgr.running[name]
	ok := fault == "none" && name == "agent" && file != "rpcutil"
	nd.Assert(bad == ok, "an agent runs that is reserved or faulty, or a good one does not")
	nd.Assert(len(mgr.running) == 1 || ok && len(mgr.running) == 2, "an agent runs that is not on disk")
	if ok {
		nd.Reach("runs")
	} else {
		nd.Reach("refused")
	}
}

type verifInfo struct{ agents.ServerInfoSource }

func (verifInfo) Facts() json.RawMessage { return json.RawMessage(`{"f":1}`) }

//verif:harness prop=X02 reach=answered,refused,failed clock=frozen
//verif:bounds a request with any text of up to 3 bytes or a number or nothing for its input, or another input, to an agent whose command is missing, cannot be started, fails, stalls, or answers with good or bad JSON or nothing
func VerifExternalAction() {
	p, mgr, conn := verifProvider()
	path := "/a/mcollective/agent/one.json"
	nd.FSPut(path, `{"metadata":{"name":"one","version":"1","timeout":1,"provider":"external"},"actions":[{"action":"act","input":{"in":{"type":"string","validation":"shellsafe","optional":false}},"output":{"out":{"type":"string","default":"x"},"got":{"type":"string","default":"none"}}},{"action":"other","input":{},"output":{}}]}`)
	nd.FSSetTime(path, nd.Now().Add(-time.Minute))
	nd.FSPut("/a/mcollective/agent/one", "binary")
	verifActivate(map[string]bool{"one": true})
	err := p.reconcileAgents(context.Background(), mgr, conn)
	nd.Assert(err == nil && mgr.running["one"] != nil, "a good agent does not run")
	agent := mgr.running["one"].(*mcorpc.Agent)
	agent.SetServerInfo(verifInfo{})

	given := nd.OneOf("input", "text", "number", "nothing", "another")
	s, data, ok := "", map[string]any{}, false
	switch given {
	case "text":
		s = nd.StringOf("text", 3, "a;")
		data["in"] = s
		ok = true
		for i := 0; i < len(s); i++ {
			ok = nd.And(ok, s[i] != ';')
		}
	case "number":
		data["in"] = 1
	case "another":
		data["in"], data["more"] = "a", "b"
	}
	raw, err := json.Marshal(data)
	nd.Assert(err == nil, "the request could not be made")

	outcome := nd.OneOf("command", "answers", "aborts", "bad answer", "no answer", "answer gone", "fails", "not started", "stalls", "missing")
	ran := 0
	asked := &Request{}
	facts := ""
	nd.Exec(func(c *nd.Cmd) nd.ExecResult {
		ran++
		nd.Assert(c.Path == "/a/mcollective/agent/one" && len(c.Args) == 4, "another command was run")
		req, _ := nd.FSGet(c.Args[1])
		nd.Assert(json.Unmarshal([]byte(req), asked) == nil, "the request could not be read by the command")
		for _, e := range c.Env {
			if strings.HasPrefix(e, "CHORIA_EXTERNAL_FACTS=") {
				facts, _ = nd.FSGet(e[len("CHORIA_EXTERNAL_FACTS="):])
			}
		}
		switch outcome {
		case "answers":
			nd.FSPut(c.Args[2], `{"statuscode":0,"statusmsg":"fine","data":{"got":"it"}}`)
		case "aborts":
			nd.FSPut(c.Args[2], `{"statuscode":5,"statusmsg":"no","data":{"got":"it"}}`)
		case "bad answer":
			nd.FSPut(c.Args[2], `{"statuscode":0,`)
		case "answer gone":
			nd.FSRemove(c.Args[2])
		case "fails":
			nd.FSPut(c.Args[2], `{"statuscode":0,"statusmsg":"fine","data":{"got":"it"}}`)
			return nd.ExecResult{Code: 1, Out: "out\n", Err: "err\n"}
		case "not started":
			return nd.ExecResult{Fail: fmt.Errorf("simulated")}
		case "stalls":
			return nd.ExecResult{Stall: true}
		}
		return nd.ExecResult{Out: "out\n"}
	})
	if outcome == "missing" {
		nd.FSRemove("/a/mcollective/agent/one")
	}

	reply := &mcorpc.Reply{}
	req := &mcorpc.Request{Agent: "one", Action: "act", RequestID: "r1", SenderID: "s1", CallerID: "up=me", Collective: "c1", TTL: 60, Time: nd.Now(), Data: raw}
	begin := nd.Now()
	p.externalAction(context.Background(), req, reply, agent, nil)
	took := nd.Since(begin)

	nd.Assert((ran > 0) == nd.And(ok, outcome != "missing") && ran < 2, "a command was run for a request it does not declare, or not run once for a good one")
	nd.Assert(len(nd.FSPaths("/tmp/")) == 0, "requests, replies or facts were left on disk")
	nd.Observe("status", int(reply.Statuscode))
	if ran > 0 {
		nd.Assert(asked.Agent == "one" && asked.Action == "act" && asked.RequestID == "r1" && asked.SenderID == "s1" && asked.CallerID == "up=me" && asked.Collective == "c1" && asked.TTL == 60 && asked.Protocol == rpcRequestProtocol, "the command was given another request")
		in := map[string]any{}
		nd.Assert(json.Unmarshal(asked.Data, &in) == nil && len(in) == 1, "the command was given other inputs")
		text, isText := in["in"].(string)
		nd.Assert(isText && nd.StrEq(text, s), "the command was given another input")
		nd.Assert(facts == `{"f":1}`, "the command was not given the facts")
	}
	if ran == 0 {
		nd.Assert(reply.Statuscode == mcorpc.Aborted, "a request was answered as if it was run")
		nd.Reach("refused")
		return
	}
	if outcome == "answers" || outcome == "aborts" {
		nd.Reach("answered")
		want, msg := mcorpc.OK, "fine"
		if outcome == "aborts" {
			want, msg = mcorpc.UnknownError, "no"
		}
		got, isMap := reply.Data.(map[string]any)
		nd.Assert(reply.Statuscode == want && reply.Statusmsg == msg, "the answer has another status than the command gave")
		nd.Assert(isMap && len(got) == 2 && got["got"] == "it" && got["out"] == "x", "the answer has other data than the command gave, or no defaults")
		return
	}
	nd.Reach("failed")
	nd.Assert(reply.Statuscode == mcorpc.Aborted && len(reply.Statusmsg) > 0, "a command that failed answered as if it had not")
	if outcome == "stalls" {
		nd.Assert(took <= 3*time.Second, "a command that never ends is waited for for long after the timeout of its agent")
	}
}
