package backoff

import (
	"math"
	"time"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:clock .
//verif:call jitter verifJitter

func verifJitter(ms int) int { return jitter(ms) }

//verif:harness prop=Q02 reach=ok
//verif:bounds any policy table of the package, any try number of the int range
func VerifBackoffDuration() {
	p := []Policy{FiveSecStartGrace, FiveSec, TwentySec, Default}[nd.Choice("policy", 4)]
	n := nd.Int("try", 0, math.MaxInt)
	d := p.Duration(n)
	last := p.Millis[len(p.Millis)-1]
	nd.Assert(d >= 0, "negative backoff")
	nd.Assert(d <= time.Duration(last)*3/2*time.Millisecond, "backoff above the ceiling")
	if n < len(p.Millis) {
		nd.Assert(d >= time.Duration(p.Millis[n]/2)*time.Millisecond, "backoff below half of the step")
		nd.Assert(d <= time.Duration(p.Millis[n])*3/2*time.Millisecond, "backoff above 1.5 times the step")
	}
	nd.Reach("ok")
}
