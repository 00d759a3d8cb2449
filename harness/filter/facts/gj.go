package facts

import "github.com/tidwall/gjson"

//verif:replace github.com/tidwall/gjson.GetBytes verifGetBytes

// VerifFacts looks up the facts of the simulated node
var VerifFacts func(path string) gjson.Result

func verifGetBytes(j []byte, path string) gjson.Result { return VerifFacts(path) }
