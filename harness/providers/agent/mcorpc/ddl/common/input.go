package common

import (
	"strings"

	nd "github.com/choria-io/go-choria/internal/verifnd"
	"github.com/choria-io/go-choria/validator/shellsafe"
)

func verifKind(t string) string {
	switch t {
	case "integer", "int", "INTEGER":
		return "integer"
	case "hash", "Hash":
		return "hash"
	case "array", "Array":
		return "array"
	}
	return t
}

// verifText says whether a text is one the validation allows
func verifText(validation string, s string) bool {
	switch validation {
	case "":
		return true
	case "shellsafe":
		ok, err := shellsafe.Validate(s)
		return ok && err == nil
	case "ipv4address", "ipaddress":
		return nd.Or(nd.StrEq(s, "1.1.1.1"), nd.StrEq(s, "10.1.1.1"), nd.StrEq(s, "1.10.1.1"), nd.StrEq(s, "1.1.10.1"), nd.StrEq(s, "1.1.1.10"))
	case "^a+$":
		ok := len(s) > 0
		for i := 0; i < len(s); i++ {
			ok = nd.And(ok, s[i] == 'a')
		}
		return ok
	case "^1*;?$":
		ok := true
		for i := 0; i < len(s); i++ {
			ok = nd.And(ok, nd.Or(s[i] == '1', nd.And(s[i] == ';', i == len(s)-1)))
		}
		return ok
	}
	return true // validators this version does not know are ignored with a warning
}

//verif:harness prop=D01 reach=good,bad
//verif:bounds inputs of every type, written in either case, and an unknown one, given text of up to 4 bytes, a boolean, whole and fractional numbers of three kinds, a hash, an array or nothing; any length limit of up to 4, five validations and one, two or no list items
func VerifInputValue() {
	in := &InputItem{
		Type:       nd.OneOf("type", "string", "integer", "int", "number", "float", "boolean", "list", "hash", "Hash", "array", "Array", "", "other"),
		Validation: nd.OneOf("validation", "", "shellsafe", "^a+$", "^1*;?$", "bogus"),
		MaxLength:  nd.Int("max", 0, 4),
		Enum:       [][]string{nil, {"a"}, {"a", "1;"}}[nd.Choice("list", 3)],
	}
	var val any
	kind := nd.OneOf("value", "string", "boolean", "whole", "fraction", "int", "int64", "hash", "array", "nothing")
	s := ""
	switch kind {
	case "string":
		s = nd.StringOf("text", 4, "a1;$")
		val = s
	case "boolean":
		val = nd.Bool("truth")
	case "whole":
		val = float64(12)
	case "fraction":
		val = 1.5
	case "int":
		val = 7
	case "int64":
		val = int64(-7)
	case "hash":
		val = map[string]any{"a": "b"}
	case "array":
		val = []any{"a"}
	}
	if kind != "string" || in.Type != "string" {
		in.Validation, in.MaxLength = "", 0
	}
	if in.Type != "list" {
		in.Enum = nil
	}

	_, err := in.ValidateValue(val)

	ok := false
	switch verifKind(in.Type) {
	case "string":
		ok = kind == "string" && nd.And(nd.Or(in.MaxLength == 0, len(s) <= in.MaxLength), verifText(in.Validation, s))
	case "integer":
		ok = kind == "whole" || kind == "int" || kind == "int64"
	case "number":
		ok = kind == "whole" || kind == "fraction" || kind == "int" || kind == "int64"
	case "float":
		ok = kind == "whole" || kind == "fraction"
	case "boolean":
		ok = kind == "boolean"
	case "list":
		for _, e := range in.Enum {
			ok = nd.Or(ok, nd.And(kind == "string", nd.StrEq(s, e)))
		}
	case "hash":
		ok = kind == "hash"
	case "array":
		ok = kind == "array"
	}
	nd.Assert((err == nil) == ok, "a value was accepted that the description of the input does not allow, or an allowed one refused")
	nd.Observe("ok", err == nil)
	if err == nil {
		nd.Reach("good")
	} else {
		nd.Reach("bad")
	}
}

//verif:harness prop=D01 reach=good,bad
//verif:bounds addresses of up to 8 of the bytes 1, 0 and ., given as IPv4 or either kind of address
func VerifInputAddress() {
	in := &InputItem{Type: "string", Validation: nd.OneOf("validation", "ipv4address", "ipaddress", "ipv6address"), MaxLength: 20 * nd.Choice("limited", 2)}
	s := nd.StringOf("text", 8, "10.")
	_, err := in.ValidateValue(s)
	nd.Observe("ok", err == nil)
	if in.Validation == "ipv6address" {
		nd.Assert(err != nil, "something without : was taken for an IPv6 address")
		nd.Reach("bad")
		return
	}
	// four groups of one to three digits without a leading zero
	ok, dots, digits, zero := true, 0, 0, false
	for i := 0; i < len(s); i++ {
		if s[i] == '.' {
			ok = nd.And(ok, digits > 0)
			dots, digits = dots+1, 0
			continue
		}
		ok = nd.And(ok, nd.Or(digits == 0, !zero), digits < 3)
		if digits == 0 {
			zero = s[i] == '0'
		}
		digits++
	}
	ok = nd.And(ok, dots == 3, digits > 0)
	nd.Assert((err == nil) == ok, "something that is not an IPv4 address was taken for one, or one was not")
	if err == nil {
		nd.Reach("good")
	} else {
		nd.Reach("bad")
	}
}

//verif:harness prop=D01 reach=good,bad
//verif:bounds any text of up to 4 of the bytes 1, 2, -, + and a turned into the type of its input
func VerifInputText() {
	in := &InputItem{Type: nd.OneOf("type", "integer", "Integer", "string", "list", "boolean", "other"), Enum: []string{"a", "-a"}, MaxLength: 3}
	s := nd.StringOf("text", 4, "12-+a")
	val, _, err := in.ValidateStringValue(s)
	nd.Observe("ok", err == nil)
	ok := false
	switch strings.ToLower(in.Type) {
	case "integer":
		digits := s
		neg := len(s) > 0 && s[0] == '-'
		if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
			digits = s[1:]
		}
		ok = len(digits) > 0
		n := int64(0)
		for i := 0; i < len(digits); i++ {
			ok = nd.And(ok, digits[i] >= '0', digits[i] <= '9')
			n = n*10 + int64(digits[i]-'0')
		}
		if neg {
			n = -n
		}
		if err == nil {
			i, isInt := val.(int64)
			nd.Assert(isInt && i == n, "a number was turned into another one")
		}
	case "string":
		ok = len(s) <= 3
		if err == nil {
			nd.Assert(nd.StrEq(val.(string), s), "a text was turned into another one")
		}
	case "list":
		ok = nd.Or(nd.StrEq(s, "a"), nd.StrEq(s, "-a"))
	case "boolean":
		ok = nd.StrEq(s, "1")
		if err == nil {
			nd.Assert(val == true, "yes was turned into no")
		}
	}
	nd.Assert((err == nil) == ok, "a text was accepted that does not spell an allowed value, or one that does was refused")
	if err == nil {
		nd.Reach("good")
	} else {
		nd.Reach("bad")
	}
}
