package executor

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"syscall"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/providers/agent/mcorpc"
	"github.com/choria-io/go-choria/server/agents"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with config/new.go
//verif:clock . providers/execution
//verif:exec . providers/execution
//verif:fs . internal/util providers/execution providers/agent/mcorpc
//verif:replace github.com/choria-io/go-choria/providers/agent/mcorpc.ParseRequestData verifParse

// verifParse has no validators, the requests of the executor do not use any
func verifParse(target any, req *mcorpc.Request, reply *mcorpc.Reply) bool {
	err := json.Unmarshal(req.Data, target)
	if err != nil {
		reply.Statuscode = mcorpc.InvalidData
		reply.Statusmsg = err.Error()
		return false
	}
	return true
}

type verifFW struct {
	inter.Framework
	cfg *config.Config
}

func (f *verifFW) Configuration() *config.Config { return f.cfg }

type verifSI struct{ agents.ServerInfoSource }

type verifSignal struct {
	pid int
	sig syscall.Signal
}

// verifSpec is a job in the spool
func verifSpec(id string, started bool, ended bool, pid string, exit string) {
	term := "0001-01-01T00:00:00Z"
	if ended {
		term = "2024-01-01T10:05:00Z"
	}
	start := "0001-01-01T00:00:00Z"
	pidFile := ""
	if started {
		start = "2024-01-01T10:00:00Z"
		pidFile = "/spool/" + id + "/pid"
		nd.FSPut(pidFile, pid)
		nd.FSPut("/spool/"+id+"/stdout", "some output")
		nd.FSPut("/spool/"+id+"/stderr", "")
		if exit != "" {
			nd.FSPut("/spool/"+id+"/exit", exit)
		}
	}
	nd.FSPut("/spool/"+id+"/spec.json", fmt.Sprintf(`{"action":"run","agent":"shell","args":["secret"],"caller":"choria=bob","created":"2024-01-01T10:00:00Z","command":"/bin/job","environment":null,"heartbeat":0,"id":%q,"identity":"n1","pid":%q,"requestid":"req1","start":%q,"stderr":%q,"stdout":%q,"terminate":%q}`,
		id, pidFile, start, "/spool/"+id+"/stderr", "/spool/"+id+"/stdout", term))
}

func verifAgent() *mcorpc.Agent {
	nd.FSReset()
	nd.FSDir("/spool")
	l := logrus.New()
	l.Out = io.Discard
	log := logrus.NewEntry(l)
	cfg := config.VerifNew()
	cfg.ConfigFile = "/etc/choria/server.conf"
	cfg.RPCAuthorization = true
	cfg.RPCAuthorizationProvider = "action_policy"
	cfg.Choria.ExecutorSpool = "/spool"
	cfg.Choria.ExecutorEnabled = true
	agent := mcorpc.New("executor", metadata, &verifFW{cfg: cfg}, log)
	agent.SetServerInfo(verifSI{})
	return agent
}

func verifRequest(action, caller string, data string) (*mcorpc.Request, *mcorpc.Reply) {
	return &mcorpc.Request{Agent: "executor", Action: action, CallerID: caller, SenderID: "c1", Collective: "c", RequestID: "r2", Data: json.RawMessage(data)}, &mcorpc.Reply{}
}

// VerifSignalJob signals a job as some caller
//
//verif:harness prop=X04 reach=sent,denied,notrunning,reused,outside,noid clock=frozen timers=4
//verif:bounds the job does not exist, was not started, runs, is gone or ended while its pid is used by something else; pid files with usable and unusable pids; the policy of the agent that made the job allows or denies the caller its action or another action; policies for the executor agent that allow all; signals -1, 0, 1, 9, 15 and 64
func VerifSignalJob() {
	agent := verifAgent()
	allowed := nd.Bool("allowed")
	policy := []string{"allow\tchoria=alice\trun\t*\t*", "allow\tchoria=alice\t*\t*\t*"}
	if !allowed {
		policy = []string{"allow\tchoria=bob\t*\t*\t*", "allow\tchoria=alice\tother\t*\t*", "deny\tchoria=alice\trun\t*\t*"}
	}
	nd.FSPut("/etc/choria/policies/shell.policy", "policy default deny\n"+policy[nd.Choice("policy", len(policy))]+"\n")
	nd.FSPut("/etc/choria/policies/executor.policy", "policy default allow\n")
	started := nd.Choice("started", 2) == 1
	ended := false
	if started {
		ended = nd.Choice("ended", 2) == 1
	}
	pid := []string{"77", "1", "0", "-3", "", "7x"}[nd.Choice("pid", 6)]
	verifSpec("j1", started, ended, pid, "")
	nd.FSPut("/outside/spec.json", "{}")

	alive := nd.Bool("alive")
	var sent []verifSignal
	nd.Signals(func(p int, s syscall.Signal) error {
		nd.Assert(p == 77, "nothing but the process of the job is signaled")
		if s != 0 {
			sent = append(sent, verifSignal{p, s})
		}
		if !alive {
			return syscall.ESRCH
		}
		return nil
	})

	id := nd.OneOf("id", "j1", "", "j2", "../outside", "./j1", "..")
	signal := []int{-1, 0, 1, 9, 15, 64}[nd.Choice("signal", 6)]
	req, reply := verifRequest("signal", "choria=alice", fmt.Sprintf(`{"id":%q,"signal":%d}`, id, signal))
	signalAction(context.Background(), req, reply, agent, nil)

	can := id == "j1" && allowed && started && !ended && pid == "77" && alive
	nd.Observe("status", int(reply.Statuscode))
	if signal > 0 {
		nd.Assert((len(sent) == 1) == can, "a signal is sent when the job runs and the caller may call the action that made it, and not otherwise")
	}
	if signal < 0 {
		nd.Assert(len(sent) == 0, "no signal is sent when none is requested")
	}
	if len(sent) > 0 {
		nd.Reach("sent")
		nd.Assert(sent[0].sig == syscall.Signal(signal) && sent[0].pid == 77, "the requested signal is sent to the process of the job")
		nd.Assert(reply.Statuscode == mcorpc.OK, "the request succeeds when the signal is sent")
	}
	if reply.Statuscode == mcorpc.OK {
		nd.Assert(can && signal >= 0, "the request succeeds only when the job could be signaled")
	}
	if id == "j1" && !allowed {
		nd.Reach("denied")
	}
	if id == "j1" && allowed && !alive {
		nd.Reach("notrunning")
	}
	if ended && alive && pid == "77" {
		nd.Reach("reused")
	}
	if id == "../outside" {
		nd.Reach("outside")
	}
	if id == "" {
		nd.Reach("noid")
	}
}

// VerifStatusJob gets the status of a job as some caller
//
//verif:harness prop=X04 reach=hidden,shown,exit,killed,running clock=frozen timers=4
//verif:bounds a job that was not started, runs, ended with exit codes 0 and 9, or was killed; callers the policy allows and denies the action that made the job
func VerifStatusJob() {
	agent := verifAgent()
	allowed := nd.Bool("allowed")
	if allowed {
		nd.FSPut("/etc/choria/policies/shell.policy", "policy default deny\nallow\tchoria=alice\trun\t*\t*\n")
	} else {
		nd.FSPut("/etc/choria/policies/shell.policy", "policy default deny\nallow\tchoria=alice\tother\t*\t*\n")
	}
	nd.FSPut("/etc/choria/policies/executor.policy", "policy default allow\n")
	state := nd.OneOf("state", "new", "running", "ended")
	exit := ""
	if state == "ended" {
		exit = nd.OneOf("exit", `{"code":0,"error":""}`, `{"code":9,"error":""}`, `{"code":-1,"error":"process killed"}`)
	}
	verifSpec("j1", state != "new", state == "ended", "77", exit)
	nd.FSPut("/outside/spec.json", "{}")
	reused := nd.Bool("reused")
	nd.Signals(func(p int, s syscall.Signal) error {
		nd.Assert(s == 0, "a status request sends no signals")
		if state == "running" || reused {
			return nil
		}
		return syscall.ESRCH
	})
	id := nd.OneOf("id", "j1", "", "j2", "../outside")
	req, reply := verifRequest("status", "choria=alice", fmt.Sprintf(`{"id":%q}`, id))
	statusAction(context.Background(), req, reply, agent, nil)
	if id != "j1" {
		nd.Assert(reply.Statuscode == mcorpc.Aborted && reply.Data == nil, "there is no status for what is not a job")
		return
	}
	nd.Assert(reply.Statuscode == mcorpc.OK, "the status of a job can be retrieved")
	s, ok := reply.Data.(*StatusResponse)
	nd.Assert(ok && s != nil, "there is a status")
	if !ok {
		return
	}
	if allowed {
		nd.Reach("shown")
		nd.Assert(s.Command == "/bin/job" && s.Args == "secret", "callers that may call the action see the command")
	} else {
		nd.Reach("hidden")
		nd.Assert(s.Command != "/bin/job" && s.Args == "", "callers that may not call the action do not see the command")
	}
	nd.Assert(s.Agent == "shell" && s.Action == "run" && s.Caller == "choria=bob" && s.RequestID == "req1", "the status says what made the job")
	nd.Assert(s.Started == (state != "new"), "the status says if the job was started")
	nd.Assert(s.Running == (state == "running"), "the status says if the job runs")
	if state == "running" {
		nd.Reach("running")
		nd.Assert(s.Pid == 77, "the status has the pid")
	}
	if state == "ended" {
		nd.Assert(s.StdoutBytes == 11 && s.StderrBytes == 0, "the status has the size of the output")
		switch exit {
		case `{"code":0,"error":""}`:
			nd.Assert(s.ExitCode == 0 && s.ExitReason == "", "the status has the exit code")
		case `{"code":9,"error":""}`:
			nd.Reach("exit")
			nd.Assert(s.ExitCode == 9 && s.ExitReason == "", "the status has the exit code")
		default:
			nd.Reach("killed")
			nd.Assert(s.ExitCode == -1 && s.ExitReason != "", "the status says that the job was killed")
		}
	}
}

// VerifListJobs lists jobs that match a query
//
//verif:harness prop=X04 reach=one,two,none,range clock=frozen timers=4
//verif:bounds two jobs that run or ended; queries with any set of caller, agent, action, request, command, identity, running, completed and a time range that match and do not match
func VerifListJobs() {
	agent := verifAgent()
	nd.FSDir("/spool/empty")
	nd.FSPut("/spool/broken/spec.json", "{")
	var ended [2]bool
	for i, id := range []string{"j1", "j2"} {
		ended[i] = nd.Choice("ended", 2) == 1
		pid := []string{"77", "78"}[i]
		verifSpec(id, true, ended[i], pid, "")
	}
	nd.Signals(func(p int, s syscall.Signal) error {
		nd.Assert(s == 0, "a list request sends no signals")
		if p == 77 && ended[0] || p == 78 && ended[1] {
			return syscall.ESRCH
		}
		return nil
	})
	want := [2]bool{true, true}
	crit := 0
	data := ""
	add := func(k, v string, match [2]bool) {
		if data != "" {
			data += ","
		}
		data += fmt.Sprintf("%q:%s", k, v)
		crit++
		want[0] = want[0] && match[0]
		want[1] = want[1] && match[1]
	}
	all, no := [2]bool{true, true}, [2]bool{}
	fields := [][2]string{{"caller", "choria=bob"}, {"agent", "shell"}, {"action", "run"}, {"requestid", "req1"}, {"command", "/bin/job"}, {"identity", "n1"}}
	f := nd.Choice("field", len(fields)+1)
	if f > 0 {
		if nd.Bool("matching") {
			add(fields[f-1][0], fmt.Sprintf("%q", fields[f-1][1]), all)
		} else {
			add(fields[f-1][0], `"x"`, no)
		}
	}
	switch nd.Choice("state", 3) {
	case 1:
		add("running", "true", [2]bool{!ended[0], !ended[1]})
	case 2:
		add("completed", "true", ended)
	}
	at := time.Date(2024, 1, 1, 10, 0, 0, 0, time.UTC).Unix()
	switch nd.Choice("range", 5) {
	case 1:
		nd.Reach("range")
		add("since", fmt.Sprint(at-10), all)
	case 2:
		add("since", fmt.Sprint(at+10), no)
	case 3:
		add("before", fmt.Sprint(at+10), all)
	case 4:
		add("before", fmt.Sprint(at-10), no)
	}
	if crit == 0 {
		return
	}
	req, reply := verifRequest("list", "choria=alice", "{"+data+"}")
	listAction(context.Background(), req, reply, agent, nil)
	nd.Assert(reply.Statuscode == mcorpc.OK, "jobs can be listed")
	r, ok := reply.Data.(*ListResponse)
	nd.Assert(ok && r != nil, "there is a list")
	if !ok {
		return
	}
	nd.Observe("n", len(r.Jobs))
	got := map[string]bool{}
	for _, j := range r.Jobs {
		nd.Assert(!got[j.ID], "a job is listed once")
		got[j.ID] = true
	}
	nd.Assert(got["j1"] == want[0] && got["j2"] == want[1], "the jobs that match the query are listed")
	nd.Assert(len(r.Jobs) == len(got) && !got[""], "only jobs are listed")
	nd.Reach([]string{"none", "one", "two"}[len(got)])
}
