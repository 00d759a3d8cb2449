package facts

import (
	"strings"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

func verifBlank(s string) bool { return strings.TrimSpace(s) == "" }

//verif:harness prop=F03 reach=parsed,regex seconds=120
//verif:bounds facts and values of up to 3 (thorough 4) characters over letters, digits, dots, blanks and slashes around every operator, with optional blanks
func VerifFactParse() {
	n := 3
	if nd.Thorough() {
		n = 4
	}
	left := nd.StringOf("fact", n, "a1. /")
	right := nd.StringOf("value", n, "b2. /")
	nd.Assume(!verifBlank(left) && !verifBlank(right))
	op := nd.OneOf("op", "=", "==", "!=", "<", "<=", "=<", ">", ">=", "=>", "=~", "!=")
	in := left + op + right
	got, err := ParseFactFilterString(in)
	nd.Assert(err == nil, "a well formed fact filter was rejected")
	v := strings.TrimSpace(right)
	want := op
	switch op {
	case "=":
		want = "=="
	case "=<":
		want = "<="
	case "=>":
		want = ">="
	}
	if want == "==" && len(v) > 1 && v[0] == '/' && v[len(v)-1] == '/' {
		nd.Reach("regex")
		want = "=~"
	}
	nd.Reach("parsed")
	nd.Observe("fact", got[0])
	nd.Observe("op", got[1])
	nd.Observe("value", got[2])
	nd.Assert(got[0] == strings.TrimSpace(left), "the fact is not what stands left of the operator")
	nd.Assert(got[2] == v, "the value is not what stands right of the operator")
	nd.Assert(got[1] == want, "the operator is not the one in the filter")
}

//verif:harness prop=F03 reach=ok,err seconds=120
//verif:bounds every string of up to 5 (thorough 6) characters over a letter, a blank, a slash and the operator characters
func VerifFactParseAny() {
	n := 5
	if nd.Thorough() {
		n = 6
	}
	in := nd.StringOf("filter", n, "a /<>=!~")
	got, err := ParseFactFilterString(in)
	nd.Observe("err", err)
	hasOp := nd.Or(strings.Contains(in, "="), strings.Contains(in, "<"), strings.Contains(in, ">"))
	if err != nil {
		nd.Reach("err")
		return
	}
	nd.Reach("ok")
	nd.Observe("fact", got[0])
	nd.Observe("op", got[1])
	nd.Observe("value", got[2])
	nd.Assert(hasOp, "a filter without an operator was accepted")
	nd.Assert(nd.StrIn(got[1], []string{"==", "!=", "<", "<=", ">", ">=", "=~"}), "a filter was given an operator matching does not know")
	nd.Assert(!verifBlank(got[0]) && !verifBlank(got[2]), "a filter with an empty side was accepted")
	nd.Assert(strings.HasPrefix(strings.TrimSpace(in), got[0]) && strings.HasSuffix(strings.TrimSpace(in), got[2]), "the sides are not those of the filter")
	nd.Assert(!strings.Contains(got[2], "=") && !strings.Contains(got[2], "<") && !strings.Contains(got[2], ">"), "the value holds an operator, the right most one was not used")
}
