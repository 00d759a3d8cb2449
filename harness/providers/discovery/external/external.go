package external

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/protocol"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with config/new.go
//verif:clock .
//verif:exec .
//verif:fs .

type verifFW struct {
	inter.Framework
	cfg *config.Config
}

func (f *verifFW) Configuration() *config.Config         { return f.cfg }
func (f *verifFW) Logger(component string) *logrus.Entry { return logrus.NewEntry(logrus.New()) }
func (f *verifFW) FederationCollectives() []string       { return []string{"fed"} }

func verifEnv(c *nd.Cmd, name string) string {
	for _, e := range c.Env {
		if v, ok := strings.CutPrefix(e, name+"="); ok {
			return v
		}
	}
	return ""
}

//verif:harness prop=D02 reach=found,failed,slow,wrong,blank delays=0 timers=6 clock=frozen horizon=1h seconds=90
//verif:bounds every combination of the command being configured, given, blank or absent, every exit code, it taking a symbolic 1 to 5000 ms against timeouts of 1, 2 and 4 seconds, failing to start, and its reply being valid with up to 2 symbolic names, an error, of another protocol, not JSON or missing; the command is a stub
func VerifExternalDiscover() {
	nd.FSReset()
	nd.FSDir("/tmp")
	cfg := config.VerifNew()
	cfg.DiscoveryTimeout = 2
	cfg.MainCollective = "main"
	f := protocol.NewFilter()
	f.AddClassFilter("apache")
	f.AddFactFilter("country", "==", "mt")
	do := map[string]string{"x": "1"}
	opts := []DiscoverOption{Filter(f), Collective("sub"), DiscoveryOptions(do)}
	timeout := 2 * time.Second
	switch nd.Choice("timeout", 3) {
	case 1:
		timeout = 4 * time.Second
		opts = append(opts, Timeout(timeout))
	case 2:
		timeout = time.Second
		opts = append(opts, Timeout(time.Millisecond))
	}
	want := ""
	switch nd.Choice("configured", 3) {
	case 1:
		cfg.Choria.ExternalDiscoveryCommand = "/bin/d --all"
		want = "/bin/d --all"
	case 2:
		cfg.Choria.ExternalDiscoveryCommand = " "
	}
	switch nd.Choice("given", 3) {
	case 1:
		do["command"] = "/bin/g"
		want = "/bin/g"
	case 2:
		do["command"] = "  "
		want = ""
	}
	took := time.Duration(nd.Int64("took", 1, 5000)) * time.Millisecond
	nd.Assume(nd.Or(took+400*time.Millisecond < timeout, took > timeout+400*time.Millisecond))
	code := nd.Int("code", 0, 255)
	start := nd.Choice("start", 2) == 0
	reply := nd.Choice("reply", 6)
	n := 0
	names := []string{}
	if reply == 0 {
		n = nd.Choice("nodes", 3)
		for i := 0; i < n; i++ {
			names = append(names, nd.OneOf(fmt.Sprintf("node%d", i), "web1", "db1"))
		}
	}
	runs := 0
	nd.Exec(func(c *nd.Cmd) nd.ExecResult {
		runs++
		if !start {
			return nd.ExecResult{Fail: fmt.Errorf("not found")}
		}
		args := append([]string{}, strings.Fields(want)...)
		nd.Assert(len(c.Args) == len(args)+3, "the command is not run with the arguments it was given")
		for i := range args {
			nd.Assert(c.Args[i] == args[i], "another command is run")
		}
		reqfile, repfile := verifEnv(c, "CHORIA_EXTERNAL_REQUEST"), verifEnv(c, "CHORIA_EXTERNAL_REPLY")
		nd.Assert(reqfile != "" && reqfile == c.Args[len(args)] && repfile != "" && repfile == c.Args[len(args)+1], "the command is not told where its request and reply are")
		raw, ok := nd.FSGet(reqfile)
		nd.Assert(ok, "the command has no request")
		req := Request{}
		err := json.Unmarshal([]byte(raw), &req)
		nd.Assert(err == nil, "the request is not valid")
		nd.Assert(req.Protocol == RequestProtocol && req.Collective == "sub" && req.Timeout == timeout.Seconds(), "the request does not say what is discovered")
		nd.Assert(len(req.Filter.Class) == 1 && req.Filter.Class[0] == "apache" && len(req.Filter.Fact) == 1 && req.Filter.Fact[0].Value == "mt", "the request does not have the filter")
		nd.Assert(req.Options["x"] == "1" && len(req.Federations) == 1, "the request does not have the options")
		switch reply {
		case 0:
			list := "[]"
			if n > 0 {
				list = `["` + strings.Join(names, `","`) + `"]`
			}
			nd.FSPut(repfile, `{"protocol":"`+ResponseProtocol+`","nodes":`+list+`}`)
		case 1:
			nd.FSPut(repfile, `{"protocol":"`+ResponseProtocol+`","nodes":["web1"],"error":"it failed"}`)
		case 2:
			nd.FSPut(repfile, `{"protocol":"other","nodes":["web1"]}`)
		case 3:
			nd.FSPut(repfile, `nodes`)
		case 4:
			nd.FSRemove(repfile)
		}
		return nd.ExecResult{Took: took, Code: code, Out: "out\n", Err: "err\n"}
	})
	began := nd.Now()
	nodes, err := New(&verifFW{cfg: cfg}).Discover(context.Background(), opts...)
	nd.Observe("nodes", nodes)
	nd.Observe("err", err != nil)
	nd.Assert(len(nd.FSPaths("/tmp/re")) == 0, "requests and replies are left behind")
	if want == "" {
		nd.Reach("blank")
		nd.Assert(runs == 0 && err != nil && len(nodes) == 0, "nodes were discovered without a command")
		return
	}
	nd.Assert(runs == 1, "the command did not run once")
	if start && took > timeout {
		nd.Reach("slow")
		nd.Assert(nd.Since(began) <= timeout+time.Second, "a command was not stopped at the discovery timeout")
	}
	switch {
	case !start || code != 0 || took > timeout:
		nd.Reach("failed")
		nd.Assert(err != nil && len(nodes) == 0, "nodes were discovered by a command that failed")
	case reply != 0:
		nd.Reach("wrong")
		nd.Assert(err != nil && len(nodes) == 0, "a reply that is not valid discovered nodes")
	default:
		nd.Reach("found")
		nd.Assert(err == nil && len(nodes) == n, "the nodes are not those the command replied with")
		for i := range names {
			nd.Assert(nodes[i] == names[i], "the nodes are not those the command replied with")
		}
	}
}
