package facts

import (
	"encoding/json"
	"strconv"
	"strings"

	"github.com/tidwall/gjson"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with filter/facts/gj.go

var verifFact gjson.Result

func init() { VerifFacts = func(path string) gjson.Result { return verifFact } }

type verifLog struct{}

func (verifLog) Warnf(format string, args ...any)  {}
func (verifLog) Debugf(format string, args ...any) {}
func (verifLog) Errorf(format string, args ...any) {}

func verifHas(op string, val string) (bool, error) {
	return HasFactJSON("f", op, val, json.RawMessage(`{}`), verifLog{})
}

// verifLower is the reference for ASCII
func verifLower(s string) string { return strings.ToLower(s) }

//verif:harness prop=F02 reach=true,false
//verif:bounds string facts and filter values: every ASCII string of up to 4 bytes each, all comparison operators
func VerifFactStringOps() {
	n := 3
	if nd.Thorough() {
		n = 5
	}
	f := nd.StringOf("fact", n, "aAbB01.-/")
	v := nd.StringOf("value", n, "aAbB01.-/")
	verifFact = gjson.Result{Type: gjson.String, Str: f, Raw: `"x"`}
	lf, lv := verifLower(f), verifLower(v)
	op := nd.OneOf("op", "==", "!=", "<", "<=", ">", ">=")
	got, err := verifHas(op, v)
	nd.Observe("got", got)
	nd.Assert(err == nil, "comparing a string fact failed")
	want := false
	switch op {
	case "==":
		want = nd.StrEq(lf, lv)
	case "!=":
		want = !nd.StrEq(lf, lv)
	case "<":
		want = lf < lv
	case "<=":
		want = lf <= lv
	case ">":
		want = lf > lv
	case ">=":
		want = lf >= lv
	}
	if got {
		nd.Reach("true")
	} else {
		nd.Reach("false")
	}
	nd.Assert(got == want, "string comparison "+op+" is wrong")
}

func verifWant(op string, lt, eq bool) bool {
	switch op {
	case "==":
		return eq
	case "!=":
		return !eq
	case "<":
		return lt
	case "<=":
		return nd.Or(lt, eq)
	case ">":
		return nd.And(!lt, !eq)
	case ">=":
		return !lt
	}
	return false
}

//verif:harness prop=F02 reach=true,false
//verif:bounds integer facts from a list of 8 values around sign and digit boundaries, filter values being every integer literal -9..99 (thorough -99..999), all comparison operators
func VerifFactIntOps() {
	fs := []int{-10, -9, -1, 0, 1, 9, 10, 42}
	f := fs[nd.Choice("fact", len(fs))]
	l := 2
	if nd.Thorough() {
		l = 3
	}
	vs := nd.StringOf("value", l, "-0123456789")
	v, err := strconv.Atoi(vs)
	nd.Assume(err == nil)
	// canonical literals only, equality on the text is documented behaviour
	nd.Assume(nd.Or(len(vs) == 1, nd.And(nd.ByteAt(vs, 0) != '0', nd.Or(nd.ByteAt(vs, 0) != '-', nd.ByteAt(vs, 1) != '0'))))
	verifFact = gjson.Result{Type: gjson.Number, Num: float64(f), Raw: strconv.Itoa(f)}
	op := nd.OneOf("op", "==", "!=", "<", "<=", ">", ">=")
	got, err := verifHas(op, vs)
	nd.Observe("got", got)
	nd.Assert(err == nil, "comparing an integer fact failed")
	if got {
		nd.Reach("true")
	} else {
		nd.Reach("false")
	}
	nd.Assert(got == verifWant(op, f < v, f == v), "integer comparison "+op+" is wrong")
}

//verif:harness prop=F02 reach=true,false
//verif:bounds every float64 fact in -100..100 against 6 decimal filter values, all comparison operators
func VerifFactFloatOps() {
	f := nd.Float("fact", -100, 100)
	vs := nd.OneOf("value", "0.0", "1.5", "-1.5", "42.25", "0.1", "10.0")
	v, _ := strconv.ParseFloat(vs, 64)
	verifFact = gjson.Result{Type: gjson.Number, Num: f, Raw: "1"}
	op := nd.OneOf("op", "==", "!=", "<", "<=", ">", ">=")
	got, err := verifHas(op, vs)
	nd.Observe("got", got)
	nd.Assert(err == nil, "comparing a decimal fact failed")
	if got {
		nd.Reach("true")
	} else {
		nd.Reach("false")
	}
	nd.Assert(got == verifWant(op, f < v, f == v), "decimal comparison "+op+" is wrong")
}

//verif:harness prop=F02 reach=true,false
//verif:bounds decimal facts from a list of 10 values around integers against every integer literal -9..99 (thorough -99..999), all comparison operators
func VerifFactMixedOps() {
	fs := []float64{-10.5, -1.25, -0.5, 0.25, 0.5, 0.75, 1.5, 1.75, 9.5, 42.25}
	f := fs[nd.Choice("fact", len(fs))]
	l := 2
	if nd.Thorough() {
		l = 3
	}
	vs := nd.StringOf("value", l, "-0123456789")
	v, err := strconv.Atoi(vs)
	nd.Assume(err == nil)
	verifFact = gjson.Result{Type: gjson.Number, Num: f, Raw: strconv.FormatFloat(f, 'f', -1, 64)}
	op := nd.OneOf("op", "==", "!=", "<", "<=", ">", ">=")
	got, err := verifHas(op, vs)
	nd.Observe("got", got)
	nd.Assert(err == nil, "comparing a decimal fact with an integer failed")
	if got {
		nd.Reach("true")
	} else {
		nd.Reach("false")
	}
	// no fact in the list is an integer
	below := 0
	if f < 0 {
		below = 1
	}
	lt := v > int(f)-below
	nd.Assert(got == verifWant(op, lt, false), "comparison "+op+" of a decimal fact with an integer is wrong")
}

//verif:harness prop=F02 reach=true,false
//verif:bounds boolean facts, every filter value of up to 5 letters or digits that reads as a boolean, operators == and !=; ordering operators must fail closed
func VerifFactBoolOps() {
	f := nd.Bool("fact")
	verifFact = gjson.Result{Type: gjson.False, Raw: "false"}
	if f {
		verifFact = gjson.Result{Type: gjson.True, Raw: "true"}
	}
	vs := nd.OneOf("value", "true", "false", "1", "0", "t", "f", "True", "False", "TRUE", "FALSE")
	v := vs == "true" || vs == "1" || vs == "t" || vs == "True" || vs == "TRUE"
	op := nd.OneOf("op", "==", "!=", "<", "<=", ">", ">=")
	got, err := verifHas(op, vs)
	nd.Observe("got", got)
	if got {
		nd.Reach("true")
	} else {
		nd.Reach("false")
	}
	switch op {
	case "==":
		nd.Assert(err == nil && got == (f == v), "boolean equality is wrong")
	case "!=":
		nd.Assert(err == nil, "boolean inequality failed")
		nd.AssertKnown("F02-bool-ne", !f, got == (f != v), "boolean inequality is wrong")
	default:
		nd.Assert(!got, "ordering a boolean matched")
	}
}

//verif:harness prop=F02 reach=end
//verif:bounds facts of every JSON type, every operator string of up to 3 characters that is not a known operator; absent facts under all operators
func VerifFactFailClosed() {
	ts := []gjson.Type{gjson.Null, gjson.False, gjson.Number, gjson.String, gjson.True, gjson.JSON}
	t := ts[nd.Choice("type", len(ts))]
	verifFact = gjson.Result{Type: t, Raw: "x", Str: "1", Num: 1}
	if nd.Bool("absent") {
		verifFact = gjson.Result{}
		op := nd.OneOf("op", "==", "!=", "<", "<=", ">", ">=", "=~")
		got, err := verifHas(op, "1")
		nd.Assert(!got && err == nil, "an absent fact matched")
		nd.Reach("end")
		return
	}
	op := nd.StringOf("op", 3, "=<>!~x")
	nd.Assume(!nd.StrIn(op, []string{"==", "!=", "<", "<=", ">", ">=", "=~"}))
	got, err := verifHas(op, "1")
	nd.Assert(!got && err != nil, "an unknown operator matched")
	nd.Reach("end")
}
