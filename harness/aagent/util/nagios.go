package util

import (
	"strings"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:harness prop=W07 reach=some,none seconds=60 samples=12
//verif:bounds performance data of a label and any value of up to 3 of the characters 0-9 - * . a s % ; = ' space and |, and of the same after valid data
func VerifPerfData() {
	v := nd.StringOf("value", 3, "09-*.as%;=' |")
	if nd.Bool("after") {
		v = "b=2c x=" + v
	} else {
		v = "x=" + v
	}
	out := "ok | " + v
	perf := ParsePerfData(out)
	nd.Observe("n", len(perf))
	if len(perf) == 0 {
		nd.Reach("none")
	} else {
		nd.Reach("some")
	}
	if !strings.Contains(v, "|") && strings.HasPrefix(v, "b=2c ") {
		nd.Assert(len(perf) >= 1 && perf[0].Label == "b" && perf[0].Value == 2 && perf[0].Unit == "c", "valid performance data is lost because of what follows")
	}
}
