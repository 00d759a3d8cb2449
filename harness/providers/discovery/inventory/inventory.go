package inventory

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/expr-lang/expr/vm"
	"github.com/sirupsen/logrus"
	"github.com/tidwall/gjson"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/filter/compound"
	"github.com/choria-io/go-choria/filter/facts"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/protocol"
	"github.com/choria-io/go-choria/providers/data/ddl"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with config/new.go filter/facts/gjnode.go
//verif:fs . internal/util
//verif:replace github.com/choria-io/go-choria/internal/util.ValidateSchemaFromFS verifSchema
//verif:replace github.com/choria-io/go-choria/filter/compound.CompileExprQuery verifCompile
//verif:replace github.com/choria-io/go-choria/filter/compound.MatchExprProgram verifMatch

// verifSchema is the JSON schema validation of the file, here any valid JSON passes
func verifSchema(schemaPath string, data any) ([]string, error) {
	return nil, nil
}

var (
	verifProgs  map[*vm.Program]string
	verifResult func(query string, facts string) (bool, error)
	_           = compound.EmptyEnv
)

func verifCompile(query string, df ddl.FuncMap) (*vm.Program, error) {
	if query == "invalid" {
		return nil, fmt.Errorf("invalid query")
	}
	p := &vm.Program{}
	verifProgs[p] = query
	return p, nil
}

func verifMatch(prog *vm.Program, facts json.RawMessage, classes []string, knownAgents []string, df ddl.FuncMap, log compound.Logger) (bool, error) {
	return verifResult(verifProgs[prog], string(facts))
}

type verifFW struct {
	inter.Framework
	cfg *config.Config
}

func (f *verifFW) Configuration() *config.Config         { return f.cfg }
func (f *verifFW) Logger(component string) *logrus.Entry { return logrus.NewEntry(logrus.New()) }

// verifNode is what one node of the inventory has, each a symbolic choice
type verifNode struct {
	name                          string
	collective, class, agent      bool
	fact                          string
	outcome                       [2]int // of both compound expressions: false, true, error
}

func (n *verifNode) list(has bool, v string) string {
	if has {
		return `["other","` + v + `"]`
	}
	return `["other"]`
}

func verifSetup(count int) []*verifNode {
	nd.FSReset()
	verifProgs = map[*vm.Program]string{}
	nodes := []*verifNode{}
	parts := []string{}
	for i := 0; i < count; i++ {
		n := &verifNode{name: []string{"web1", "db1"}[i]}
		n.collective = nd.Choice(fmt.Sprintf("collective%d", i), 2) == 1
		n.class = nd.Choice(fmt.Sprintf("class%d", i), 2) == 1
		n.agent = nd.Choice(fmt.Sprintf("agent%d", i), 2) == 1
		n.fact = nd.StringOf(fmt.Sprintf("fact%d", i), 2, "mtx")
		n.outcome = [2]int{nd.Int(fmt.Sprintf("first%d", i), 0, 2), nd.Int(fmt.Sprintf("second%d", i), 0, 2)}
		nodes = append(nodes, n)
		parts = append(parts, `{"name":"`+n.name+`","collectives":`+n.list(n.collective, "sub")+`,"classes":`+n.list(n.class, "apache")+`,"agents":`+n.list(n.agent, "rpcutil")+`,"facts":{"node":"`+n.name+`"}}`)
	}
	find := func(facts string) *verifNode {
		for _, n := range nodes {
			if strings.Contains(facts, n.name) {
				return n
			}
		}
		nd.Assert(false, "a node was matched using facts that are not its own")
		return nil
	}
	facts.VerifNodeFacts = func(j []byte, path string) gjson.Result {
		if path != "country" {
			return gjson.Result{}
		}
		return gjson.Result{Type: gjson.String, Str: find(string(j)).fact, Raw: `"x"`}
	}
	verifResult = func(query string, facts string) (bool, error) {
		n := find(facts)
		o := n.outcome[0]
		if query == "second" {
			o = n.outcome[1]
		}
		if o == 2 {
			return false, fmt.Errorf("query failed")
		}
		return o == 1, nil
	}
	nd.FSPut("/inventory.json", `{"$schema":"`+DataSchema+`","groups":[`+
		`{"name":"webs","filter":{"identities":["/web/"],"classes":["apache"]}},`+
		`{"name":"mt","filter":{"facts":["country=mt"],"agents":["rpcutil"]}},`+
		`{"name":"all"}`+
		`],"nodes":[`+strings.Join(parts, ",")+`]}`)
	return nodes
}

func verifCount(list []string, s string) int {
	c := 0
	for _, l := range list {
		if l == s {
			c++
		}
	}
	return c
}

//verif:harness prop=D02 reach=found,excluded,invalid seconds=90
//verif:bounds an inventory of 1 node (thorough 2), each in or out of the collective, with or without a class and an agent, with a symbolic fact of up to 2 characters; every combination of identity, class, agent, fact and up to 2 compound filters with every outcome of the expressions; the schema validation and the expression language are stubs
func VerifInventoryFilters() {
	count := 1
	if nd.Thorough() {
		count = 2
	}
	nodes := verifSetup(count)
	f := protocol.NewFilter()
	id := nd.Choice("id", 4)
	switch id {
	case 1:
		f.AddIdentityFilter("web1")
	case 2:
		f.AddIdentityFilter("/db/")
	case 3:
		f.AddIdentityFilter("web1")
		f.AddIdentityFilter("/db/")
	}
	class := nd.Choice("classFilter", 2) == 1
	if class {
		f.AddClassFilter("apache")
	}
	agent := nd.Choice("agentFilter", 2) == 1
	if agent {
		f.AddAgentFilter("rpcutil")
	}
	fact := nd.Choice("factFilter", 2) == 1
	if fact {
		f.AddFactFilter("country", "==", "mt")
	}
	comp := nd.Choice("compounds", 4)
	switch comp {
	case 1:
		f.AddCompoundFilter("first")
	case 2:
		f.AddCompoundFilter("first")
		f.AddCompoundFilter("second")
	case 3:
		f.AddCompoundFilter("first")
		f.AddCompoundFilter("invalid")
	}
	collective := nd.OneOf("collective", "", "sub")
	got, err := New(&verifFW{cfg: config.VerifNew()}).Discover(context.Background(), File("/inventory.json"), Collective(collective), Filter(f))
	nd.Observe("got", got)
	nd.Observe("err", err != nil)
	if comp == 3 {
		nd.Reach("invalid")
		nd.Assert(err != nil && len(got) == 0, "a compound filter that is not valid was ignored")
		return
	}
	nd.Assert(err == nil, "discovery failed")
	for _, n := range nodes {
		want := collective == "" || n.collective
		switch id {
		case 1:
			want = want && n.name == "web1"
		case 2:
			want = want && n.name == "db1"
		}
		want = want && (!class || n.class) && (!agent || n.agent)
		want = nd.And(want, nd.Or(!fact, nd.StrEq(n.fact, "mt")))
		want = nd.And(want, nd.Or(comp < 1, n.outcome[0] == 1), nd.Or(comp < 2, n.outcome[1] == 1))
		c := verifCount(got, n.name)
		if want {
			nd.Reach("found")
			nd.Assert(c == 1, "a node that matches all filters was not discovered once")
		} else {
			nd.Reach("excluded")
			nd.Assert(c == 0, "a node that does not match all filters was discovered")
		}
	}
	nd.Assert(len(got) <= len(nodes), "more nodes than the inventory has were discovered")
}

//verif:harness prop=D02 reach=found,combined,unknown seconds=90
//verif:bounds an inventory of 2 nodes in the same shapes and up to 3 groups or names as identity filters together with each other kind of filter
func VerifInventoryGroups() {
	nodes := verifSetup(2)
	f := protocol.NewFilter()
	ids := []string{}
	for i := 0; i < 2; i++ {
		id := nd.OneOf(fmt.Sprintf("id%d", i), "", "group:webs", "group:mt", "group:all", "group:unknown", "web1")
		if id != "" {
			f.AddIdentityFilter(id)
			ids = append(ids, id)
		}
	}
	names, groups, unknown := 0, 0, false
	for _, id := range ids {
		if id == "group:unknown" {
			unknown = true
		}
		if id == "web1" {
			names++
		} else {
			groups++
		}
	}
	nd.Assume(groups > 0)
	other := nd.Choice("other", 5)
	switch other {
	case 1:
		f.AddAgentFilter("rpcutil")
	case 2:
		f.AddClassFilter("apache")
	case 3:
		f.AddFactFilter("country", "==", "mt")
	case 4:
		f.AddCompoundFilter("first")
	}
	got, err := New(&verifFW{cfg: config.VerifNew()}).Discover(context.Background(), File("/inventory.json"), Collective(""), Filter(f))
	nd.Observe("got", got)
	nd.Observe("err", err != nil)
	if names > 0 || other > 1 {
		nd.Reach("combined")
		nd.Assert(err != nil && len(got) == 0, "filters that cannot be combined with groups were ignored")
		return
	}
	if unknown {
		nd.Reach("unknown")
		nd.Assert(err != nil && len(got) == 0, "a group that does not exist was ignored")
		return
	}
	nd.Assert(err == nil, "discovery failed")
	for _, n := range nodes {
		want := false
		for _, id := range ids {
			switch id {
			case "group:webs":
				want = nd.Or(want, n.name == "web1" && n.class)
			case "group:mt":
				want = nd.Or(want, nd.And(n.agent, nd.StrEq(n.fact, "mt")))
			case "group:all":
				want = true
			}
		}
		c := verifCount(got, n.name)
		if want {
			nd.Reach("found")
			nd.Assert(c == 1, "a node in one of the groups was not discovered once")
		} else {
			nd.Assert(c == 0, "a node in none of the groups was discovered")
		}
	}
	nd.Assert(len(got) <= len(nodes), "more nodes than the inventory has were discovered")
}
