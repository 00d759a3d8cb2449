package opa

import (
	"context"
	"encoding/json"
	"errors"

	"github.com/open-policy-agent/opa/v1/rego"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:fs .
//verif:replace github.com/open-policy-agent/opa/v1/rego.Module verifModule
//verif:replace github.com/open-policy-agent/opa/v1/rego.Query verifQuery
//verif:method PrepareForEval verifPrepare
//verif:method Eval verifEval

var (
	verifModules  []string
	verifQueries  []string
	verifPrepErr  error
	verifEvalErr  error
	verifResult   rego.ResultSet
	verifEvals    int
	errVerifPolic = errors.New("simulated")
)

func verifModule(name, code string) func(*rego.Rego) {
	verifModules = append(verifModules, code)
	return func(*rego.Rego) {}
}

func verifQuery(q string) func(*rego.Rego) {
	verifQueries = append(verifQueries, q)
	return func(*rego.Rego) {}
}

func verifPrepare(r *rego.Rego, ctx context.Context, opts ...rego.PrepareOption) (rego.PreparedEvalQuery, error) {
	return rego.PreparedEvalQuery{}, verifPrepErr
}

func verifEval(q any, ctx context.Context, opts ...rego.EvalOption) (rego.ResultSet, error) {
	verifEvals++
	return verifResult, verifEvalErr
}

//verif:harness prop=A05 reach=allow,deny,none,many,other,invalid,failed,file,nofile,nopolicy
//verif:bounds policies given as code, in a file that can be read or not, or not given, that are valid or not, whose evaluation fails or has none to two results of true, false or another value
func VerifEvaluate() {
	nd.FSReset()
	verifModules, verifQueries, verifPrepErr, verifEvalErr, verifResult, verifEvals = nil, nil, nil, nil, nil, 0
	opts := []Option{}
	want := ""
	switch nd.Choice("policy", 4) {
	case 0:
		opts = append(opts, Policy([]byte("package code")))
		want = "package code"
	case 1:
		nd.FSPut("/etc/x.rego", "package file")
		opts = append(opts, File("/etc/x.rego"))
		want = "package file"
		nd.Reach("file")
	case 2:
		opts = append(opts, File("/etc/x.rego"))
		nd.Reach("nofile")
	case 3:
		nd.Reach("nopolicy")
	}
	if nd.Choice("valid", 2) == 0 {
		verifPrepErr = errVerifPolic
	}
	e, err := New("mod", "data.allow", opts...)
	if want == "" || verifPrepErr != nil {
		nd.Reach("invalid")
		nd.Assert(err != nil && e == nil, "a policy that is not there or not valid can be evaluated")
		return
	}
	nd.Assert(err == nil, "a valid policy cannot be evaluated")
	nd.Assert(len(verifModules) == 1 && verifModules[0] == want && len(verifQueries) == 1 && verifQueries[0] == "data.allow", "another policy than the one given is evaluated")

	n := nd.Choice("results", 3)
	val := false
	other := false
	for i := 0; i < n; i++ {
		var v any
		switch nd.Choice("value", 5) {
		case 0:
			b := nd.Bool("value")
			val = b
			v = b
		case 1:
			v, other = "true", true
		case 2:
			v, other = json.Number("1"), true
		case 3:
			v, other = nil, true
		case 4:
			v, other = map[string]any{"allow": true}, true
		}
		verifResult = append(verifResult, rego.Result{Expressions: []*rego.ExpressionValue{{Value: v}}})
	}
	if nd.Choice("fails", 2) == 1 {
		verifEvalErr = errVerifPolic
	}

	pass, err := e.Evaluate(context.Background(), map[string]any{"a": "b"})
	nd.Observe("pass", pass)
	nd.Assert(verifEvals == 1, "the policy was not evaluated")
	switch {
	case verifEvalErr != nil:
		nd.Reach("failed")
		nd.Assert(!pass && err != nil, "a policy that could not be evaluated allows")
	case n == 0:
		nd.Reach("none")
		nd.Assert(!pass && err != nil, "a policy that has no result allows")
	case n == 2:
		nd.Reach("many")
		nd.Assert(!pass && err != nil, "a policy that has several results allows")
	case other:
		nd.Reach("other")
		nd.Assert(!pass && err != nil, "a policy whose result is not true allows")
	default:
		if pass {
			nd.Reach("allow")
		} else {
			nd.Reach("deny")
		}
		nd.Assert(err == nil && pass == val, "the decision is not the result of the policy")
	}
}
