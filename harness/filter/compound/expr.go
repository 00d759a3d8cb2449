package compound

import (
	"encoding/json"
	"errors"

	"github.com/choria-io/go-choria/providers/data/ddl"
	"github.com/expr-lang/expr"
	"github.com/expr-lang/expr/vm"
	"github.com/tidwall/gjson"

	"github.com/choria-io/go-choria/filter/facts"
	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with filter/facts/gj.go
//verif:replace github.com/expr-lang/expr.Compile verifCompile
//verif:replace github.com/expr-lang/expr.Run verifRun
//verif:replace github.com/tidwall/gjson.GetBytes verifGetFact
//verif:replace github.com/google/go-cmp/cmp.Equal verifEqual

var (
	verifProgs   []*vm.Program
	verifNames   []string
	verifCompErr map[string]bool
	verifResults func(query string, env map[string]any) (any, error)
)

func verifCompile(q string, ops ...expr.Option) (*vm.Program, error) {
	if verifCompErr[q] {
		return nil, errors.New("simulated")
	}
	p := &vm.Program{}
	verifProgs = append(verifProgs, p)
	verifNames = append(verifNames, q)
	return p, nil
}

func verifRun(p *vm.Program, env any) (any, error) {
	for i := range verifProgs {
		if verifProgs[i] == p {
			return verifResults(verifNames[i], env.(map[string]any))
		}
	}
	return nil, errors.New("unknown program")
}

func verifGetFact(j []byte, path string) gjson.Result { return facts.VerifFacts(path) }

type verifLog struct{}

func (verifLog) Warnf(format string, args ...any)  {}
func (verifLog) Debugf(format string, args ...any) {}
func (verifLog) Errorf(format string, args ...any) {}

//verif:harness prop=F04 reach=match,nomatch
//verif:bounds up to 3 (thorough 4) compound filters, each true, false, not a boolean, failing to run, failing to compile or malformed
func VerifCompoundAll() {
	max := 4
	if nd.Thorough() {
		max = 5
	}
	verifProgs, verifNames, verifCompErr = nil, nil, map[string]bool{}
	n := nd.Choice("filters", max)
	var qs [][]map[string]string
	val := map[string]bool{}
	kinds := map[string]string{}
	want := n > 0
	for i := 0; i < n; i++ {
		name := string(rune('a' + i))
		k := nd.OneOf("kind", "bool", "other", "fail", "compile", "nokey", "empty", "many")
		kinds[name] = k
		q := []map[string]string{{"expr": name}}
		switch k {
		case "bool":
			val[name] = nd.Bool("result")
			want = nd.And(want, val[name])
		case "compile":
			verifCompErr[name] = true
			want = false
		case "nokey":
			q = []map[string]string{{"fact": name}}
			want = false
		case "empty":
			q = []map[string]string{}
			want = false
		case "many":
			q = []map[string]string{{"expr": name}, {"expr": name}}
			val[name] = true
			want = false
		default:
			want = false
		}
		qs = append(qs, q)
	}
	verifResults = func(q string, env map[string]any) (any, error) {
		switch kinds[q] {
		case "other":
			return "true", nil
		case "fail":
			return true, errors.New("simulated")
		}
		return val[q], nil
	}
	got := MatchExprString(qs, json.RawMessage(`{}`), nil, nil, nil, verifLog{})
	nd.Observe("got", got)
	if got {
		nd.Reach("match")
	} else {
		nd.Reach("nomatch")
	}
	nd.Assert(got == want, "compound filters matched although not every one of them did, or the other way around")
}

//verif:harness prop=F04 reach=match,nomatch
//verif:bounds the with function inside compound filters for a fact, class, agent or regular expression needle; classes and agents of up to 2 characters and any fact value
func VerifCompoundWith() {
	verifProgs, verifNames, verifCompErr = nil, nil, nil
	fx := nd.Bool("fact_x")
	facts.VerifFacts = func(path string) gjson.Result {
		if path == "x" && fx {
			return gjson.Result{Type: gjson.String, Str: "yes", Raw: `"yes"`}
		}
		return gjson.Result{}
	}
	cls := nd.StringOf("class", 2, "ab")
	agt := nd.StringOf("agent", 2, "ab")
	query := nd.OneOf("query", "x=yes", "x!=no", "y=yes", "ab", "/b$/")
	verifResults = func(q string, env map[string]any) (any, error) {
		return env["with"].(func(string) bool)(query), nil
	}
	got := MatchExprString([][]map[string]string{{{"expr": "q"}}}, json.RawMessage(`{}`), []string{cls}, []string{agt}, nil, verifLog{})
	want := false
	switch query {
	case "x=yes", "x!=no":
		want = fx
	case "ab":
		want = nd.Or(nd.StrEq(cls, "ab"), nd.StrEq(agt, "ab"))
	case "/b$/":
		want = nd.Or(nd.StrEq(cls, "b"), nd.StrEq(agt, "b"), nd.ByteAt(cls, 1) == 'b', nd.ByteAt(agt, 1) == 'b')
	}
	nd.Observe("got", got)
	if got {
		nd.Reach("match")
	} else {
		nd.Reach("nomatch")
	}
	nd.Assert(got == want, "the with function disagrees with fact, class and agent matching")
}

// verifEqual is cmp.Equal for the values facts can have
func verifEqual(a, b any, _ ...any) bool {
	return a == b
}

//verif:harness prop=F04 reach=in,notin,fact,newer,older,badversion,vars,data,builtin
//verif:bounds the include function for lists of up to 2 strings, numbers and booleans with symbolic values; the fact function for a fact of any type or none; the semver function for a list of versions and constraints, valid or not; the classes and agents variables with values of up to 2 characters; data functions with new names and with those of other functions
func VerifCompoundFunctions() {
	verifProgs, verifNames, verifCompErr = nil, nil, nil
	num := nd.Choice("number", 2)
	str := nd.StringOf("string", 2, "ab")
	kind := nd.Choice("fact", 4)
	facts.VerifFacts = func(path string) gjson.Result {
		if path != "x" {
			return gjson.Result{}
		}
		switch kind {
		case 0:
			return gjson.Result{Type: gjson.String, Str: str, Raw: `"s"`}
		case 1:
			return gjson.Result{Type: gjson.Number, Num: float64(num), Raw: "0"}
		case 2:
			return gjson.Result{Type: gjson.True, Raw: "true"}
		}
		return gjson.Result{}
	}
	dataRuns := 0
	df := ddl.FuncMap{"host": ddl.FuncMapEntry{Name: "host", F: func(string) string { dataRuns++; return str }}}
	for _, n := range []string{"with", "fact", "include", "semver", "classes", "agents", "facts"} {
		df[n] = ddl.FuncMapEntry{Name: n, F: func(string) string { dataRuns++; return "data" }}
	}
	ask := nd.OneOf("ask", "include", "fact", "semver", "vars", "data")

	verifResults = func(q string, env map[string]any) (any, error) {
		switch ask {
		case "include":
			include := env["include"].(func([]any, any) bool)
			var hay []any
			want := false
			needle := nd.OneOf("needle", "int", "string", "bool")
			for i := 0; i < nd.Choice("items", 3); i++ {
				switch nd.OneOf("item", "int", "string", "bool") {
				case "int":
					v := nd.Choice("item", 3)
					hay = append(hay, float64(v))
					want = nd.Or(want, nd.And(needle == "int", v == num))
				case "string":
					v := nd.StringOf("item", 2, "ab")
					hay = append(hay, v)
					want = nd.Or(want, nd.And(needle == "string", nd.StrEq(v, str)))
				default:
					hay = append(hay, true)
					want = nd.Or(want, needle == "bool")
				}
			}
			got := false
			switch needle {
			case "int":
				got = include(hay, num)
			case "string":
				got = include(hay, str)
			default:
				got = include(hay, true)
			}
			if got {
				nd.Reach("in")
			} else {
				nd.Reach("notin")
			}
			nd.Observe("got", got)
			nd.Assert(got == want, "the include function does not say if the list includes the item")
		case "fact":
			nd.Reach("fact")
			fact := env["fact"].(func(string) any)
			nd.Assert(fact("y") == nil, "a fact that does not exist has a value")
			got := fact("x")
			switch kind {
			case 0:
				nd.Assert(got == str, "the fact function does not give the value of the fact")
			case 1:
				nd.Assert(got == float64(num), "the fact function does not give the value of the fact")
			case 2:
				nd.Assert(got == true, "the fact function does not give the value of the fact")
			default:
				nd.Assert(got == nil, "a fact that does not exist has a value")
			}
		case "semver":
			sv := env["semver"].(func(string, string) (bool, error))
			v, c := nd.Choice("version", 4), nd.Choice("constraint", 4)
			// versions 0.9.0, 1.2.3 and 2.0.0, and one that is not valid
			got, err := sv([]string{"0.9.0", "1.2.3", "2.0.0", "x"}[v], []string{">= 1.0.0", "< 2.0.0", "^1.0.0", "bogus"}[c])
			if v == 3 || c == 3 {
				nd.Reach("badversion")
				nd.Assert(!got && err != nil, "a version or constraint that is not valid matches")
				return false, err
			}
			want := [][]bool{{false, true, false}, {true, true, true}, {true, false, false}}[v][c]
			if got {
				nd.Reach("newer")
			} else {
				nd.Reach("older")
			}
			nd.Assert(err == nil && got == want, "a version matches a constraint it should not, or the other way around")
		case "vars":
			nd.Reach("vars")
			c, a := env["classes"].([]string), env["agents"].([]string)
			nd.Assert(len(c) == 1 && c[0] == str && len(a) == 1 && a[0] == "agt", "expressions see other classes or agents than those of the server")
		case "data":
			nd.Reach("data")
			h, ok := env["host"].(func(string) string)
			nd.Assert(ok && h("x") == str && dataRuns == 1, "a data function cannot be used in an expression")
			for _, n := range []string{"with", "fact", "include", "semver", "classes", "agents", "facts"} {
				_, replaced := env[n].(func(string) string)
				nd.Assert(!replaced, "a data function takes the place of a function or variable of expressions")
			}
			nd.Reach("builtin")
		}
		return true, nil
	}
	MatchExprString([][]map[string]string{{{"expr": "q"}}}, json.RawMessage(`{}`), []string{str}, []string{"agt"}, df, verifLog{})
}
