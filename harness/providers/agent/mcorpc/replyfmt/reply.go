package replyfmt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/tidwall/gjson"

	"github.com/choria-io/go-choria/providers/agent/mcorpc"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/client"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/ddl/agent"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/ddl/common"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:replace github.com/fatih/color.RedString verifColor
//verif:replace github.com/fatih/color.YellowString verifColor
//verif:replace github.com/fatih/color.HiWhiteString verifColor
//verif:replace github.com/tidwall/gjson.GetBytes verifGet

func verifColor(format string, a ...any) string { return "\x1b[1m" + fmt.Sprintf(format, a...) + "\x1b[0m" }

func verifGet(j []byte, path string) gjson.Result { return gjson.Get(string(j), path) }

//verif:harness prop=R02 reach=shown,hidden,failed,defaults,verbose clock=frozen
//verif:bounds replies with any status code of 0 to 5 and 3 kinds of data, to actions with any of 5 display modes, shown in any of 5 modes, verbose or not, with colors or without
func VerifReply() {
	code := mcorpc.StatusCode(nd.Uint8("code", 0, 5))
	ddl := nd.OneOf("ddl", "", "ok", "failed", "always", "other")
	mode := DisplayMode(nd.Uint8("mode", 0, 4))
	verbose := nd.OneOf("verbose", "no", "yes") == "yes"
	act := &agent.Action{Name: "a", Display: ddl, Output: map[string]*common.OutputItem{
		"one": {DisplayAs: "First"},
		"two": {DisplayAs: "Second", Default: "second default"},
	}}
	data := nd.OneOf("data", `{}`, `{"one":"value of one","a.b":"dotted"}`, `{"two":"value of two","x*":[1,"y"]}`)
	opts := []Option{Display(mode)}
	colors := nd.OneOf("colors", "no", "yes") == "yes"
	if !colors {
		opts = append(opts, ConsoleNoColor())
	}
	if verbose {
		opts = append(opts, Verbose())
	}
	out := &bytes.Buffer{}
	err := FormatReply(out, ConsoleFormat, act, "n1.example.net", &client.RPCReply{Statuscode: code, Statusmsg: "the message", Data: json.RawMessage(data)}, opts...)
	nd.Assert(err == nil, "a reply cannot be shown")
	text := out.String()
	ok := code == mcorpc.OK
	byDDL := nd.Or(nd.And(!ok, ddl == "failed" || ddl == ""), nd.And(ok, ddl == "ok"), ddl == "always")
	want := nd.Or(nd.And(mode == DisplayDDL, byDDL), nd.And(mode == DisplayOK, ok), nd.And(mode == DisplayFailed, !ok), mode == DisplayAll)
	nd.Assert((text != "") == want, "a reply is shown that should not be or the other way around")
	if text == "" {
		nd.Reach("hidden")
		return
	}
	nd.Reach("shown")
	nd.Observe("text", text)
	nd.Assert(strings.HasPrefix(text, "n1.example.net "), "the sender of a reply is not shown")
	nd.Assert(strings.Contains(text, "\x1b") == (colors && !ok), "colors are used that are disabled")
	if colors {
		text = strings.ReplaceAll(strings.ReplaceAll(text, "\x1b[1m", ""), "\x1b[0m", "")
	}
	status := map[mcorpc.StatusCode]string{0: "\n", 1: "Request Aborted\n", 2: "Unknown Action\n", 3: "Missing Request Data\n", 4: "Invalid Request Data\n", 5: "Unknown Request Status\n"}
	nd.Assert(strings.Contains(text, " "+status[code]), "the status of a reply is not shown")
	if verbose {
		nd.Reach("verbose")
		var shown, want map[string]any
		_, body, _ := strings.Cut(text, "\n\n")
		nd.Assert(json.Unmarshal([]byte(body), &shown) == nil && json.Unmarshal([]byte(data), &want) == nil, "the data of a reply is not shown as it is")
		nd.Assert(len(shown) == len(want), "other data is shown than is in the reply")
		for k, v := range want {
			if v, ok := v.(string); ok {
				got, ok := shown[k].(string)
				nd.Assert(ok && got == v, "other data is shown than is in the reply")
			}
		}
		return
	}
	if !ok {
		nd.Assert(strings.Contains(text, "    the message\n"), "the message of a failure is not shown")
		nd.Reach("failed")
		return
	}
	switch data[2:] {
	case "":
		nd.Assert(!strings.Contains(text, "First"), "an output is shown that is not in the reply")
	case `one":"value of one","a.b":"dotted"}`:
		nd.Assert(strings.Contains(text, "First: value of one\n"), "a value is not shown")
		nd.Assert(strings.Contains(text, "a.b: dotted\n"), "a value with a dot in its name is not shown")
	}
	if strings.Contains(data, "two") {
		nd.Assert(strings.Contains(text, "Second: value of two\n"), "a value is not shown")
		nd.Assert(strings.Contains(text, "x*: ["), "a value with a special character in its name is not shown")
		nd.Assert(!strings.Contains(text, "second default"), "a default is shown for an output that has a value")
	} else {
		nd.Assert(strings.Contains(text, "Second: second default\n"), "the default of an output is not shown")
		nd.Reach("defaults")
	}
}

//verif:harness prop=R02 reach=summary,none clock=frozen
//verif:bounds summaries of two outputs of which any received up to 2 values of 3 letters, where one is described
func VerifAggregates() {
	sum := func(n string) agent.ActionAggregateItem {
		return agent.ActionAggregateItem{Function: "summary", Arguments: json.RawMessage(`["` + n + `"]`)}
	}
	act := &agent.Action{Name: "a", Output: map[string]*common.OutputItem{"one": {DisplayAs: "First"}}, Aggregation: []agent.ActionAggregateItem{sum("one"), sum("two")}}
	vals := map[string][]string{}
	for i := 0; i < nd.Choice("values", 3); i++ {
		n := nd.OneOf("output", "one", "two")
		v := string([]byte{nd.Uint8("letter", 'x', 'z')})
		vals[n] = append(vals[n], v)
		act.AggregateResult(map[string]any{n: v})
	}
	out := &bytes.Buffer{}
	nd.Assert(FormatAggregates(out, ConsoleFormat, act, ConsoleNoColor()) == nil, "summaries are not shown")
	text := out.String()
	first, second, ok := strings.Cut(text, "Summary of two:\n\n")
	nd.Assert(ok && strings.HasPrefix(first, "Summary of First:\n\n"), "a summary is not shown or with another name")
	for n, t := range map[string]string{"one": first, "two": second} {
		v := vals[n]
		if len(v) == 0 {
			nd.Assert(strings.Contains(t, "   No summary received\n"), "a summary without values shows some")
			nd.Reach("none")
			continue
		}
		nd.Reach("summary")
		nd.Assert(!strings.Contains(t, "No summary received"), "a summary with values shows none")
		want := "   " + v[0] + ": 1\n"
		if len(v) == 2 && v[0] == v[1] {
			want = "   " + v[0] + ": 2\n"
		}
		nd.Assert(strings.Contains(t, want), "a summary does not show a value")
	}
}
