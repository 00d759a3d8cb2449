package shellsafe

import (
	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:harness prop=V01 reach=accept,reject
//verif:bounds every byte string of up to 8 (thorough 12) bytes
func VerifShellSafe() {
	n := 8
	if nd.Thorough() {
		n = 12
	}
	s := nd.String("input", n)
	ok, err := Validate(s)
	bad := false
	for i := 0; i < n; i++ {
		c, d := nd.ByteAt(s, i), nd.ByteAt(s, i+1)
		if nd.ByteIn(c, "`$;|><") {
			bad = true
		}
		if c == '&' && d == '&' {
			bad = true
		}
	}
	nd.Observe("ok", ok)
	nd.Observe("err", err)
	if ok {
		nd.Reach("accept")
	} else {
		nd.Reach("reject")
	}
	nd.Assert(!(ok && bad), "a string with shell meta characters was accepted")
	nd.Assert(ok || bad, "a safe string was rejected")
	nd.Assert(ok == (err == nil), "verdict and error disagree")
}
