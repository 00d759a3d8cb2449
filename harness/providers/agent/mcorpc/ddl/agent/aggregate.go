package agent

import (
	"encoding/json"
	"fmt"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:harness prop=R01 reach=counted,broken,unsummarised preempt=1
//verif:bounds two replies with a value of 3 letters and one without, aggregated at the same time, for actions with a summary that is right or has any of 5 errors
func VerifAction() {
	args, fn := `["out"]`, "summary"
	spec := nd.OneOf("spec", "right", "no args", "empty args", "other args", "null", "unknown function", "not a list")
	switch spec {
	case "no args":
		args = ``
	case "empty args":
		args = `[]`
	case "other args":
		args = `[1]`
	case "null":
		args = `null`
	case "not a list":
		args = `{}`
	case "unknown function":
		fn = "other"
	}
	item := ActionAggregateItem{Function: fn, Arguments: json.RawMessage(args)}
	nd.Assert((item.OutputName() == "out") == (spec == "right" || spec == "unknown function"), "a summary is of another output")
	a := &Action{Name: "a", Aggregation: []ActionAggregateItem{item}}
	l1, l2 := string([]byte{nd.Uint8("one", 'x', 'z')}), string([]byte{nd.Uint8("two", 'x', 'z')})
	done := make(chan struct{})
	for _, r := range []map[string]any{{"out": l1}, {"out": l2, "other": 1}} {
		go func() {
			nd.Assert(a.AggregateResult(r) == nil, "a reply is refused as its summary fails")
			done <- struct{}{}
		}()
	}
	<-done
	<-done
	nd.Assert(a.AggregateResult(map[string]any{"other": 1}) == nil, "a reply is refused as its summary fails")
	res, err := a.AggregateSummaryStrings()
	nd.Assert(err == nil, "summaries fail")
	_, err = a.AggregateSummaryFormattedStrings()
	nd.Assert(err == nil, "summaries fail")
	_, err = a.AggregateSummaryJSON()
	nd.Assert(err == nil, "summaries fail")
	if spec != "right" {
		nd.Assert(len(res) == 0, "a summary that is not valid has a result")
		nd.Reach("broken")
		return
	}
	want := 1
	if l1 == l2 {
		want = 2
	}
	nd.Assert(len(res) == 1 && res["out"][l1] == fmt.Sprint(want) && res["out"][l2] == fmt.Sprint(want) && len(res["out"]) == 3-want, "values of replies are not counted")
	nd.Reach("counted")
	none, err := (&Action{Name: "b"}).AggregateSummaryStrings()
	nd.Assert(err == nil && len(none) == 0, "an action without summaries has one")
	nd.Reach("unsummarised")
}
