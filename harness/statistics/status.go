package statistics

import (
	"time"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:clock .

//verif:harness prop=S05 reach=ok,token,cert,message,age,connection,quiet,startup clock=frozen
//verif:bounds a status with a token, certificate and file time that are not set or up to 100 seconds in the past or future to the second, a last message that never came or came at one of 6 times around the limits, an up time up to 100 seconds, any connected server or none, and limits of 0 to 60 seconds
func VerifChecks() {
	now := nd.Now()
	s := &InstanceStatus{}
	limit := time.Duration(nd.Int("limit", 0, 60)) * time.Second
	off := time.Duration(nd.Int("offset", -100, 100)) * time.Second
	set := nd.OneOf("set", "no", "yes") == "yes"

	switch nd.OneOf("check", "token", "cert", "message", "age", "connection") {
	case "token":
		if set {
			s.TokenExpires = now.Add(off)
		}
		bad := s.CheckTokenValidity(limit) != nil
		nd.Assert(bad == nd.And(set, off < limit), "a token that expires too soon is not reported or one that does not is")
		if bad {
			nd.Reach("token")
		}
	case "cert":
		if set {
			s.CertificateExpires = now.Add(off)
		}
		bad := s.CheckCertValidity(limit) != nil
		nd.Assert(bad == nd.And(set, off < limit), "a certificate that expires too soon is not reported or one that does not is")
		if bad {
			nd.Reach("cert")
		}
	case "message":
		s.Uptime = int64(nd.Int("uptime", 0, 100))
		if set {
			off = []time.Duration{-100, -61, -31, -2, 0, 50}[nd.Choice("message.offset", 6)] * time.Second
			s.LastMessage = now.Add(off).Unix()
		}
		bad := s.CheckLastMessage(limit) != nil
		up := time.Duration(s.Uptime) * time.Second
		if set {
			// a boundary of up to a second is lost in the format of the file
			nd.Assert(nd.Implies(off < -limit-time.Second, bad) && nd.Implies(off > -limit+time.Second, !bad), "a server that did not get messages for too long is not reported or one that did is")
			if bad {
				nd.Reach("message")
			}
		} else {
			nd.Assert(nd.Implies(up > limit, bad), "a server that never got a message is not reported")
			nd.Assert(nd.Implies(up < limit, !bad), "a server that just started is reported for not having had messages")
			if bad {
				nd.Reach("quiet")
			} else {
				nd.Reach("startup")
			}
		}
	case "age":
		s.ModTime = now.Add(off)
		bad := s.CheckFileAge(limit) != nil
		nd.Assert(bad == (off < -limit), "a status that is too old is not reported or one that is not is")
		if bad {
			nd.Reach("age")
		}
	case "connection":
		s.ConnectedServer = nd.StringOf("server", 2, "ab")
		bad := s.CheckConnection() != nil
		nd.Assert(bad == nd.StrEq(s.ConnectedServer, ""), "a server without a connection is not reported or one with is")
		if bad {
			nd.Reach("connection")
		} else {
			nd.Reach("ok")
		}
	}
}
