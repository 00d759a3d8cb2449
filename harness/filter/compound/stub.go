package compound

import (
	"encoding/json"

	"github.com/choria-io/go-choria/providers/data/ddl"
)

//verif:override MatchExprString

// VerifCompound decides compound queries
var VerifCompound func(queries [][]map[string]string) bool

func MatchExprString(queries [][]map[string]string, facts json.RawMessage, classes []string, knownAgents []string, df ddl.FuncMap, log Logger) bool {
	return VerifCompound(queries)
}
