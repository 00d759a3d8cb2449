package agent

import (
	"github.com/choria-io/go-choria/providers/agent/mcorpc/ddl/common"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

func verifAction() (*Action, map[string]*common.InputItem) {
	items := map[string]*common.InputItem{}
	for _, n := range []string{"one", "two"} {
		if nd.OneOf(n, "declared", "not") == "not" {
			continue
		}
		i := &common.InputItem{Type: nd.OneOf(n+" type", "string", "boolean"), Optional: nd.Bool(n + " optional"), Validation: "shellsafe", MaxLength: nd.Choice(n+" max", 2) * 2}
		if nd.OneOf(n+" default", "no", "yes") == "yes" {
			i.Default = map[string]any{"string": "d", "boolean": true}[i.Type]
		}
		items[n] = i
	}
	return &Action{Name: "act", Input: items}, items
}

//verif:harness prop=D01 reach=good,bad
//verif:bounds actions with up to two inputs of two types, optional or not, with any length limit, and requests holding either, one not declared and the flag other clients add, with any text of up to 3 bytes
func VerifRequestData() {
	act, items := verifAction()
	data := map[string]any{}
	ok := true
	for _, n := range []string{"one", "two", "three"} {
		i, declared := items[n]
		switch nd.OneOf(n+" given", "no", "text", "boolean") {
		case "no":
			if declared {
				ok = nd.And(ok, i.Optional)
			}
			continue
		case "text":
			s := nd.StringOf(n+" value", 3, "a;")
			data[n] = s
			safe := true
			for k := 0; k < len(s); k++ {
				safe = nd.And(safe, s[k] != ';')
			}
			ok = nd.And(ok, declared && i.Type == "string" && nd.And(safe, nd.Or(i.MaxLength == 0, len(s) <= i.MaxLength)))
		case "boolean":
			data[n] = nd.Bool(n + " truth")
			ok = nd.And(ok, declared && i.Type == "boolean")
		}
	}
	if nd.OneOf("flag", "absent", "present") == "present" {
		data["process_results"] = true
	}
	_, err := act.ValidateRequestData(data)
	nd.Assert((err == nil) == ok, "a request was accepted that the action does not allow, or an allowed one refused")
	nd.Observe("ok", err == nil)
	if err == nil {
		nd.Reach("good")
	} else {
		nd.Reach("bad")
	}
}

//verif:harness prop=D01 reach=good,bad
//verif:bounds the same actions with requests made from the texts of a command line of up to 2 bytes each, with and without default values
func VerifRequestTexts() {
	act, items := verifAction()
	args := map[string]string{}
	ok := true
	for _, n := range []string{"one", "two", "three"} {
		i, declared := items[n]
		if nd.OneOf(n+" given", "no", "yes") == "no" {
			if declared {
				ok = nd.And(ok, nd.Or(i.Optional, i.Default != nil))
			}
			continue
		}
		s := nd.StringOf(n+" value", 2, "1t;")
		args[n] = s
		if !declared {
			ok = false
			continue
		}
		safe := true
		for k := 0; k < len(s); k++ {
			safe = nd.And(safe, s[k] != ';')
		}
		if i.Type == "boolean" {
			ok = nd.And(ok, nd.Or(nd.StrEq(s, "1"), nd.StrEq(s, "t")))
		} else {
			ok = nd.And(ok, safe)
		}
	}
	got, _, err := act.ValidateAndConvertToDDLTypes(args)
	nd.Assert((err == nil) == ok, "a request was made that the action does not allow, or an allowed one was not")
	nd.Observe("ok", err == nil)
	if err != nil {
		nd.Reach("bad")
		return
	}
	nd.Reach("good")
	for n, i := range items {
		v, has := got[n]
		s, given := args[n]
		switch {
		case given && i.Type == "boolean":
			nd.Assert(has && v == true, "a request has another value than given")
		case given:
			t, isText := v.(string)
			nd.Assert(has && isText && nd.StrEq(t, s), "a request has another value than given")
		case i.Default != nil:
			nd.Assert(has && v == i.Default, "a request has no default value")
		default:
			nd.Assert(!has, "a request has a value nobody gave")
		}
	}
	nd.Assert(len(got) <= len(items), "a request has inputs nobody declared")
}

//verif:harness prop=D01 reach=default,kept
//verif:bounds results of an action with three outputs, each with or without default and given or not
func VerifOutputDefaults() {
	act := &Action{Name: "act", Output: map[string]*common.OutputItem{}}
	result := map[string]any{}
	want := map[string]any{}
	for _, n := range []string{"one", "two", "three"} {
		o := &common.OutputItem{Type: "string"}
		def := nd.OneOf(n+" default", "no", "yes") == "yes"
		if def {
			o.Default = "default " + n
		}
		act.Output[n] = o
		switch nd.OneOf(n+" given", "no", "yes", "empty") {
		case "yes":
			result[n] = "given"
			want[n] = "given"
			nd.Reach("kept")
		case "empty":
			result[n] = ""
			want[n] = ""
		default:
			if def {
				want[n] = o.Default
				nd.Reach("default")
			}
		}
	}
	act.SetOutputDefaults(result)
	nd.Assert(len(result) == len(want), "a result has more or fewer values than were given or have defaults")
	for n, v := range want {
		nd.Assert(result[n] == v, "a result has another value than was given or its default")
	}
}
