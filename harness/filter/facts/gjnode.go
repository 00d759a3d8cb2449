package facts

import "github.com/tidwall/gjson"

//verif:replace github.com/tidwall/gjson.GetBytes verifGetBytes

// VerifNodeFacts looks up a fact in the facts of one of the simulated nodes
var VerifNodeFacts func(facts []byte, path string) gjson.Result

func verifGetBytes(j []byte, path string) gjson.Result { return VerifNodeFacts(j, path) }
