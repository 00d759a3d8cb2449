package mcorpc

import (
	"errors"

	"github.com/choria-io/go-choria/server/agents"
	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/config"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:fs . internal/util
//verif:with config/new.go
//verif:replace github.com/choria-io/go-choria/filter/facts.MatchFile verifFactsMatch
//verif:replace github.com/choria-io/go-choria/filter/classes.MatchFile verifClassesMatch

var (
	verifFactHit  bool
	verifClassHit bool
)

func verifFactsMatch(q [][3]string, file string, log *logrus.Entry) bool {
	nd.Assert(len(q) == 1 && q[0] == [3]string{"x", "==", "y"}, "the facts of the policy line were not the ones looked up")
	nd.Assert(file == "/etc/facts.json", "facts of another file were used")
	return verifFactHit
}
func verifClassesMatch(q []string, file string, log *logrus.Entry) bool {
	nd.Assert(len(q) == 1 && q[0] == "web", "the classes of the policy line were not the ones looked up")
	nd.Assert(file == "/etc/classes.txt", "classes of another file were used")
	return verifClassHit
}

// a policy line and what it should match
type verifLine struct {
	text   string
	match  bool
	allow  bool
	isErr  bool
	isDef  bool
	active bool
}

func verifPolicyLine(caller, action string, grp bool) verifLine {
	kind := nd.OneOf("kind", "none", "rule", "default", "junk")
	switch kind {
	case "none":
		return verifLine{text: "# nothing"}
	case "junk":
		return verifLine{text: nd.OneOf("junk", "", "allow", "allow *\t*\t*\t*", "permit\t*\t*\t*\t*", " allow\t*\t*\t*\t*", "policy\tdefault")}
	case "default":
		v := nd.OneOf("default", "allow", "deny", "yes")
		return verifLine{text: "policy default " + v, isDef: true, allow: v == "allow", active: true}
	}
	l := verifLine{active: true}
	verb := nd.OneOf("verb", "allow", "deny")
	l.allow = verb == "allow"
	var cm, am, fm, km bool
	cs := nd.OneOf("callers", "*", "ca", "ca cb", "grp", "/^c[ab]$/", "/c", "/(/ ca")
	switch cs {
	case "*":
		cm = true
	case "ca":
		cm = nd.StrEq(caller, "ca")
	case "ca cb":
		cm = nd.Or(nd.StrEq(caller, "ca"), nd.StrEq(caller, "cb"))
	case "grp":
		cm = nd.Or(nd.StrEq(caller, "grp"), nd.And(grp, nd.Or(nd.StrEq(caller, "ga"), nd.StrEq(caller, "gb"))))
	case "/^c[ab]$/":
		cm = nd.Or(nd.StrEq(caller, "ca"), nd.StrEq(caller, "cb"), nd.StrEq(caller, "/^c[ab]$/"))
	case "/c":
		cm = nd.StrEq(caller, "/c")
	case "/(/ ca":
		cm = nd.StrEq(caller, "/(/")
	}
	as := nd.OneOf("actions", "*", "s", "s t")
	switch as {
	case "*":
		am = true
	case "s":
		am = nd.StrEq(action, "s")
	case "s t":
		am = nd.Or(nd.StrEq(action, "s"), nd.StrEq(action, "t"))
	}
	both := nd.OneOf("constraints", "*\t*", "x=y\t*", "*\tweb", "x=y\tweb", "x=y and z=y\t*", "*\t!web", "*\ta=b", "broken\t*", "*")
	switch both {
	case "*\t*":
		fm, km = true, true
	case "x=y\t*":
		fm, km = verifFactHit, true
	case "*\tweb":
		fm, km = true, verifClassHit
	case "x=y\tweb":
		fm, km = verifFactHit, verifClassHit
	case "*\ta=b", "broken\t*", "*":
		// facts or classes that make no sense abort the decision when reached
		l.isErr = nd.And(cm, am)
	default:
		// compound statements are skipped
		l.active = false
	}
	l.match = nd.And(cm, am, fm, km)
	l.text = verb + "\t" + cs + "\t" + as + "\t" + both
	return l
}

func verifPolicyCfg() *config.Config {
	nd.FSReset()
	cfg := config.VerifNew()
	cfg.ConfigFile = "/etc/choria/server.conf"
	cfg.ClassesFile = "/etc/classes.txt"
	cfg.FactSourceFile = "/etc/facts.json"
	cfg.RPCAuthorization = true
	cfg.RPCAuthorizationProvider = "action_policy"
	return cfg
}

func verifExpect(lines []verifLine, want bool) bool {
	done := false
	for _, l := range lines {
		if !l.active {
			continue
		}
		if l.isDef {
			want = nd.Ite(done, want, l.allow)
			continue
		}
		want = nd.Ite(done, want, nd.Ite(l.isErr, false, nd.Ite(l.match, l.allow, want)))
		done = nd.Or(done, l.isErr, l.match)
	}
	return want
}

func verifDecide(cfg *config.Config, caller, action string) bool {
	log := logrus.NewEntry(logrus.New())
	req := &Request{Agent: "thing", Action: action, CallerID: caller}
	got := AuthorizeRequest(nil, req, cfg, verifSI{}, log)
	nd.Observe("got", got)
	if got {
		nd.Reach("allow")
	} else {
		nd.Reach("deny")
	}
	return got
}

//verif:harness prop=A01 reach=allow,deny
//verif:bounds policies of one line drawn from rules of every form, defaults, comments and junk; caller strings of up to 9 and action strings of up to 2 characters; any fact and class outcome; with and without groups
func VerifActionPolicyLine() {
	cfg := verifPolicyCfg()
	caller := nd.StringOf("caller", 9, "cabgCr/()^[]$*.=-_ ,x1")
	action := nd.StringOf("action", 2, "stST*. _")
	nd.Assume(caller != "")
	verifFactHit = nd.Bool("facts_match")
	verifClassHit = nd.Bool("classes_match")

	grp := nd.OneOf("groups", "no", "yes") == "yes"
	if grp {
		nd.FSPut("/etc/choria/policies/groups", "# groups\ngrp ga gb\n")
	}
	unconf := nd.OneOf("unconfigured", "", "y", "n", "junk")
	if unconf != "" {
		cfg.SetOption("plugin.actionpolicy.allow_unconfigured", unconf)
	}
	l := verifPolicyLine(caller, action, grp)
	nd.FSPut("/etc/choria/policies/thing.policy", l.text+"\n")
	want := verifExpect([]verifLine{l}, unconf == "y")
	got := verifDecide(cfg, caller, action)
	nd.Assert(got == want, "decision differs from the matching policy line or the default")
}

//verif:harness prop=A01 reach=allow,deny
//verif:bounds policies of up to 2 (thorough 3) simple lines of rules and defaults in any order; caller strings of up to 3 characters; any fact and class outcome
func VerifActionPolicyOrder() {
	cfg := verifPolicyCfg()
	caller := nd.StringOf("caller", 3, "cabCA*. ")
	nd.Assume(caller != "")
	verifFactHit = nd.Bool("facts_match")
	verifClassHit = nd.Bool("classes_match")
	unconf := nd.OneOf("unconfigured", "n", "y")
	cfg.SetOption("plugin.actionpolicy.allow_unconfigured", unconf)
	n := 2
	if nd.Thorough() {
		n = 3
	}
	var lines []verifLine
	file := ""
	for i := 0; i < n; i++ {
		l := verifLine{active: true}
		switch nd.OneOf("kind", "none", "rule", "default") {
		case "none":
			l.active = false
			l.text = "  "
		case "default":
			v := nd.OneOf("default", "allow", "deny")
			l.isDef, l.allow, l.text = true, v == "allow", "policy default "+v
		default:
			verb := nd.OneOf("verb", "allow", "deny")
			c := nd.OneOf("callers", "ca", "ca cb", "*")
			f := nd.OneOf("constraints", "*\t*", "x=y\tweb")
			l.allow = verb == "allow"
			l.text = verb + "\t" + c + "\t*\t" + f
			l.match = nd.And(nd.Or(c == "*", nd.StrEq(caller, "ca"), nd.And(c == "ca cb", nd.StrEq(caller, "cb"))), nd.Or(f == "*\t*", nd.And(verifFactHit, verifClassHit)))
		}
		lines = append(lines, l)
		file += l.text + "\n"
	}
	nd.FSPut("/etc/choria/policies/thing.policy", file)
	want := verifExpect(lines, unconf == "y")
	got := verifDecide(cfg, caller, "act")
	nd.Assert(got == want, "decision differs from the first matching policy line, falling back to the last default")
}

//verif:harness prop=A01 reach=allow,deny
//verif:bounds every combination of agent policy file, default policy file, default enablement and read failure; agent policy and default policy deciding differently
func VerifActionPolicyFile() {
	cfg := verifPolicyCfg()
	verdicts := map[string]bool{"allow": true, "deny": false}
	agent := nd.OneOf("agent_policy", "none", "allow", "deny")
	dflt := nd.OneOf("default_policy", "none", "allow", "deny")
	other := nd.OneOf("other_policy", "none", "allow")
	name := nd.OneOf("default_name", "", "site")
	enabled := nd.OneOf("enable_default", "", "y", "n", "junk")
	fault := nd.OneOf("read_fault", "no", "open", "read")
	if agent != "none" {
		nd.FSPut("/etc/choria/policies/thing.policy", "policy default "+agent+"\n")
	}
	if other != "none" {
		nd.FSPut("/etc/choria/policies/other.policy", "policy default allow\n")
	}
	dn := "default"
	if name != "" {
		dn = name
		cfg.SetOption("plugin.actionpolicy.default_name", name)
	}
	if dflt != "none" {
		nd.FSPut("/etc/choria/policies/"+dn+".policy", "policy default "+dflt+"\n")
	}
	if enabled != "" {
		cfg.SetOption("plugin.actionpolicy.enable_default", enabled)
	}
	nd.FSFaults(func(op, path string) error {
		if op == fault {
			return errors.New("simulated")
		}
		return nil
	})
	want := false
	switch {
	case fault != "no":
	case agent != "none":
		want = verdicts[agent]
	case enabled == "y" && dflt != "none":
		want = verdicts[dflt]
	}
	got := verifDecide(cfg, "ca", "act")
	nd.Assert(got == want, "decision differs from the policy file that applies, or no policy file did not deny")
}

// verifSI is a server info source with nothing in it
type verifSI struct{ agents.ServerInfoSource }

//verif:harness prop=A01 reach=allow,deny
//verif:bounds group files of up to 3 (thorough 4) lines drawn from groups of one to three members, a redefinition, comments, and malformed lines; policies allowing one or two groups; caller strings of up to 3 characters
func VerifActionPolicyGroups() {
	cfg := verifPolicyCfg()
	caller := nd.StringOf("caller", 3, "cabdgh=C. #")
	nd.Assume(caller != "")
	members := map[string][]string{}
	file := ""
	n := 3
	if nd.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		switch nd.OneOf("line", "none", "g1", "g3", "h", "again", "comment", "badname", "alone") {
		case "g1":
			file += "g c=a\n"
			members["g"] = []string{"c=a"}
		case "g3":
			file += "g c=a c=b c=d\n"
			members["g"] = []string{"c=a", "c=b", "c=d"}
		case "h":
			file += "h c=b\n"
			members["h"] = []string{"c=b"}
		case "again":
			file += "g c=d\n"
			members["g"] = []string{"c=d"}
		case "comment":
			file += "# g c=c\n\n"
		case "badname":
			file += "g! c=c\n"
		case "alone":
			file += "h\n"
		}
	}
	nd.FSPut("/etc/choria/policies/groups", file)
	pol := nd.OneOf("policy", "g", "h", "g h", "h c=c", "x")
	nd.FSPut("/etc/choria/policies/thing.policy", "policy default deny\nallow\t"+pol+"\t*\t*\t*\n")
	var names []string
	switch pol {
	case "g h":
		names = []string{"g", "h"}
	case "h c=c":
		names = []string{"h", "c=c"}
	default:
		names = []string{pol}
	}
	want := false
	for _, x := range names {
		want = nd.Or(want, nd.StrEq(caller, x))
		for _, m := range members[x] {
			want = nd.Or(want, nd.StrEq(caller, m))
		}
	}
	got := verifDecide(cfg, caller, "act")
	nd.Assert(got == want, "a group policy allowed a caller who is not in the group, or denied one who is")
}
