package discovery

import (
	"encoding/json"
	"errors"

	"github.com/sirupsen/logrus"
	"github.com/tidwall/gjson"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/filter/compound"
	"github.com/choria-io/go-choria/filter/facts"
	"github.com/choria-io/go-choria/protocol"
	"github.com/choria-io/go-choria/providers/data/ddl"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with filter/facts/gj.go filter/compound/stub.go config/new.go

type verifReq struct {
	protocol.Request
	f *protocol.Filter
}

func (r *verifReq) Filter() (*protocol.Filter, bool) { return r.f, true }
func (r *verifReq) RequestID() string                { return "id" }

type verifNode struct {
	id      string
	agents  []string
	classes []string
	dfErr   error
}

func (n *verifNode) Classes() []string                 { return n.classes }
func (n *verifNode) Facts() json.RawMessage            { return json.RawMessage(`{}`) }
func (n *verifNode) Identity() string                  { return n.id }
func (n *verifNode) KnownAgents() []string             { return n.agents }
func (n *verifNode) DataFuncMap() (ddl.FuncMap, error) { return nil, n.dfErr }

func verifHas(l []string, s string) bool {
	r := false
	for _, e := range l {
		r = nd.Or(r, nd.StrEq(e, s))
	}
	return r
}

func verifContains(l []string, sub string) bool {
	r := false
	for _, e := range l {
		for i := 0; i < 3; i++ {
			r = nd.Or(r, nd.And(nd.ByteAt(e, i) == sub[0], nd.Or(len(sub) == 1, nd.ByteAt(e, i+1) == sub[len(sub)-1])))
		}
	}
	return r
}

// verifNeedle makes a filter entry and says if one of the values satisfies it
func verifNeedle(name string, values []string, lower bool) (string, bool) {
	switch nd.OneOf(name, "lit", "re", "other") {
	case "lit":
		s := nd.StringOf(name+"_lit", 2, "aAb")
		l := s
		if lower {
			l = string([]byte{})
			for i := 0; i < len(s); i++ {
				if s[i] == 'A' {
					l += "a"
				} else {
					l += s[i : i+1]
				}
			}
		}
		return s, verifHas(values, l)
	case "re":
		if lower {
			return "/ab/", nd.Or(verifContains(values, "ab"), verifContains(values, "Ab"))
		}
		return "/ab/", verifContains(values, "ab")
	}
	// not a regular expression at all
	return "/(", verifHas(values, "/(")
}

//verif:harness prop=F01 reach=match,nomatch
//verif:bounds filters with up to one (thorough two) identity, agent and class entries, literal, regular expression or malformed; up to two fact filters over two facts; a compound filter of either outcome; nodes with an identity, an agent and a class of up to 2 characters and a second fixed agent
func VerifShouldProcess() {
	max := 2
	node := &verifNode{id: nd.StringOf("node_id", 2, "ab"), agents: []string{"discovery", nd.StringOf("node_agent", 2, "ab")}, classes: []string{nd.StringOf("node_class", 2, "aAb")}}
	f := protocol.NewFilter()
	want := true
	used := 0
	if n := nd.Choice("identities", max); n > 0 {
		any := false
		for i := 0; i < n; i++ {
			s, ok := verifNeedle("identity", []string{node.id}, false)
			f.AddIdentityFilter(s)
			any = nd.Or(any, ok)
		}
		want = nd.And(want, any)
		used++
	}
	if n := nd.Choice("agents", max); n > 0 {
		for i := 0; i < n; i++ {
			s, ok := verifNeedle("agent", node.agents, false)
			if s == "" {
				continue
			}
			f.AddAgentFilter(s)
			want = nd.And(want, ok)
		}
		used++
	}
	if n := nd.Choice("classes", max); n > 0 {
		for i := 0; i < n; i++ {
			s, ok := verifNeedle("class", node.classes, true)
			f.AddClassFilter(s)
			want = nd.And(want, ok)
		}
		used++
	}
	fx, fy := nd.Bool("fact_x"), nd.Bool("fact_y")
	val := map[string]bool{"x": fx, "y": fy}
	facts.VerifFacts = func(path string) gjson.Result {
		if val[path] {
			return gjson.Result{Type: gjson.String, Str: "yes", Raw: `"yes"`}
		}
		return gjson.Result{Type: gjson.String, Str: "no", Raw: `"no"`}
	}
	switch nd.OneOf("facts", "none", "x", "x y", "y x", "bad") {
	case "x":
		f.AddFactFilter("x", "==", "yes")
		want = nd.And(want, fx)
	case "x y":
		f.AddFactFilter("x", "==", "yes")
		f.AddFactFilter("y", "==", "yes")
		want = nd.And(want, fx, fy)
	case "y x":
		f.AddFactFilter("y", "!=", "no")
		f.AddFactFilter("x", "==", "yes")
		want = nd.And(want, fx, fy)
	case "bad":
		f.Fact = append(f.Fact, protocol.FactFilter{Fact: "x", Operator: "~", Value: "yes"})
		want = false
	}
	cm := nd.Bool("compound_matches")
	compound.VerifCompound = func(q [][]map[string]string) bool {
		nd.Assert(len(q) == 1 && len(q[0]) == 1 && q[0][0]["expr"] == "q", "another compound filter was evaluated")
		return cm
	}
	if nd.OneOf("compound", "no", "yes") == "yes" {
		f.AddCompoundFilter("q")
		want = nd.And(want, cm)
		if nd.OneOf("datafuncs", "ok", "fail") == "fail" {
			node.dfErr = errors.New("simulated")
		}
	}
	if nd.OneOf("nil_lists", "no", "yes") == "yes" && used == 0 && len(f.Fact)+len(f.Compound) == 0 {
		f = &protocol.Filter{}
	}

	mgr := New(config.VerifNew(), node, logrus.NewEntry(logrus.New()))
	got := mgr.ShouldProcess(&verifReq{f: f})
	nd.Observe("got", got)
	if got {
		nd.Reach("match")
	} else {
		nd.Reach("nomatch")
	}
	nd.Assert(got == want, "the node's decision differs from every filter kind matching")
}

//verif:harness prop=F01 reach=match,nomatch
//verif:bounds two identity, two agent or two class filter entries of up to 2 characters, literal, regular expression or malformed
func VerifFilterLists() {
	node := &verifNode{id: nd.StringOf("node_id", 2, "ab"), agents: []string{nd.StringOf("node_agent", 2, "ab"), nd.StringOf("node_agent", 2, "ab")}, classes: []string{nd.StringOf("node_class", 2, "aAb"), nd.StringOf("node_class", 2, "aAb")}}
	f := protocol.NewFilter()
	kind := nd.OneOf("kind", "identity", "agent", "class")
	var values []string
	switch kind {
	case "identity":
		values = []string{node.id}
	case "agent":
		values = node.agents
	default:
		values = node.classes
	}
	s1, ok1 := verifNeedle("one", values, kind == "class")
	s2, ok2 := verifNeedle("two", values, kind == "class")
	want := nd.And(ok1, ok2)
	switch kind {
	case "identity":
		f.Identity = []string{s1, s2}
		want = nd.Or(ok1, ok2)
	case "agent":
		f.Agent = []string{s1, s2}
	default:
		f.Class = []string{s1, s2}
	}
	mgr := New(config.VerifNew(), node, logrus.NewEntry(logrus.New()))
	got := mgr.ShouldProcess(&verifReq{f: f})
	nd.Observe("got", got)
	if got {
		nd.Reach("match")
	} else {
		nd.Reach("nomatch")
	}
	nd.Assert(got == want, "a list of filters of one kind was not combined as published")
}
