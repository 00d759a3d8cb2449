package discovery

import (
	"context"
	"fmt"

	log "github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with config/new.go
//verif:fs . providers/discovery/flatfile

// verifFW tells which discovery method asked the network or PuppetDB
type verifFW struct {
	inter.Framework
	cfg    *config.Config
	method string
	query  string
}

func (f *verifFW) Configuration() *config.Config     { return f.cfg }
func (f *verifFW) CallerID() string                  { return "choria=me" }
func (f *verifFW) Logger(component string) *log.Entry { return log.NewEntry(log.New()) }
func (f *verifFW) NewMessage(payload []byte, agent string, collective string, msgType string, request inter.Message) (inter.Message, error) {
	f.method = "broadcast"
	nd.Assert(collective == "sub", "another collective is discovered")
	return nil, fmt.Errorf("broadcast")
}
func (f *verifFW) PQLQueryCertNames(query string) ([]string, error) {
	f.method = "puppetdb"
	f.query = query
	return []string{"pdb1"}, nil
}

//verif:harness prop=D02 reach=found,refused,network,puppetdb,invalid seconds=90
//verif:bounds every combination of a nodes file and no nodes file, the flatfile, broadcast, mc, choria and an unknown method, and agent, class, fact, combined, compound and identity filters; files of 2 nodes; standard input is not used
func VerifCLIDiscover() {
	nd.FSReset()
	nd.FSPut("/nodes.txt", "web1\ndb1\n")
	nd.FSPut("/nodes.json", `["web1","db1"]`)
	cfg := config.VerifNew()
	cfg.MainCollective = "main"
	cfg.DiscoveryTimeout = 2
	fw := &verifFW{cfg: cfg}
	o := NewStandardOptions()
	o.Collective = "sub"
	o.DiscoveryMethod = nd.OneOf("method", "flatfile", "broadcast", "mc", "choria", "other")
	file := nd.Choice("file", 3)
	switch file {
	case 1:
		o.NodesFile = "/nodes.txt"
	case 2:
		o.NodesFile = "/nodes.json"
	}
	byFile := file > 0
	identity := nd.Choice("identity", 3)
	switch identity {
	case 1:
		o.IdentityFilter = []string{"web1"}
	case 2:
		o.IdentityFilter = []string{"/db/", "db1"}
	}
	other := nd.Choice("other", 7)
	switch other {
	case 1:
		o.AgentFilter = []string{"puppet"}
	case 2:
		o.ClassFilter = []string{"apache"}
	case 3:
		o.FactFilter = []string{"country=mt"}
	case 4:
		o.CombinedFilter = []string{"apache country=mt"}
	case 5:
		o.CompoundFilter = "first"
	case 6:
		o.FactFilter = []string{"country"}
	}
	method := o.DiscoveryMethod
	nodes, _, err := o.Discover(context.Background(), fw, "rpcutil", false, false, log.NewEntry(log.New()))
	nd.Observe("nodes", nodes)
	nd.Observe("method", fw.method)
	nd.Observe("err", err != nil)
	switch {
	case other == 6:
		nd.Reach("invalid")
		nd.Assert(err != nil && len(nodes) == 0 && fw.method == "", "nodes were discovered using a filter that is not valid")
	case byFile && other != 0:
		nd.Reach("refused")
		nd.Assert(err != nil && len(nodes) == 0, "filters that a file cannot resolve were ignored")
	case byFile:
		nd.Reach("found")
		nd.Assert(err == nil && fw.method == "", "the nodes of a file were not used")
		want := []string{"web1", "db1"}
		switch identity {
		case 1:
			want = []string{"web1"}
		case 2:
			want = []string{"db1"}
		}
		nd.Assert(len(nodes) == len(want), "the discovered nodes are not those in the file that match the filter")
		for i := range want {
			nd.Assert(nodes[i] == want[i], "the discovered nodes are not those in the file that match the filter")
		}
	case other == 5 || method == "broadcast" || method == "mc":
		onlyIDs := identity == 1 && other < 2
		if onlyIDs && fw.method == "" {
			nd.Assert(err == nil && len(nodes) == 1 && nodes[0] == "web1", "the discovered nodes are not the identities in the filter")
			return
		}
		nd.Reach("network")
		nd.Assert(fw.method == "broadcast", "the network was not asked which nodes match")
		nd.Assert(err != nil && len(nodes) == 0, "a discovery that failed found nodes")
	case method == "choria":
		if identity == 1 && other < 2 && fw.method == "" {
			nd.Assert(err == nil && len(nodes) == 1 && nodes[0] == "web1", "the discovered nodes are not the identities in the filter")
			return
		}
		nd.Reach("puppetdb")
		nd.Assert(fw.method == "puppetdb" && err == nil && len(nodes) == 1, "PuppetDB was not asked which nodes match")
	default:
		nd.Assert(err != nil && len(nodes) == 0, "nodes were discovered without a method or a source")
	}
}
