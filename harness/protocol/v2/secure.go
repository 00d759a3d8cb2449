package v2

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"

	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/protocol"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:replace github.com/choria-io/go-choria/protocol.SchemaValidate verifSchema

// verifSchemas says what the schema validator finds for documents of each kind: ok, errors or failure
var verifSchemas map[protocol.ProtocolVersion]string

func verifSchema(v protocol.ProtocolVersion, data []byte) (bool, []string, error) {
	switch verifSchemas[v] {
	case "errors":
		return false, []string{"simulated"}, nil
	case "failed":
		return false, nil, protocol.ErrSchemaValidationFailed
	}
	return true, nil, nil
}

// verifProvider is a security provider that records what it is asked
type verifProvider struct {
	inter.SecurityProvider

	tech      inter.SecurityTechnology
	sigOK     bool
	callerErr bool

	verified []verifCall
	allowed  []verifCall
}

type verifCall struct {
	dat, sig []byte
	name     string
	public   [][]byte
}

func (p *verifProvider) BackingTechnology() inter.SecurityTechnology { return p.tech }
func (p *verifProvider) VerifySignatureBytes(dat []byte, sig []byte, public ...[]byte) (bool, string) {
	p.verified = append(p.verified, verifCall{dat: dat, sig: sig, public: public})
	return p.sigOK, "signer"
}
func (p *verifProvider) ShouldAllowCaller(name string, callers ...[]byte) (bool, error) {
	p.allowed = append(p.allowed, verifCall{name: name, public: callers})
	if p.callerErr {
		return false, errors.New("simulated")
	}
	return false, nil
}
func (p *verifProvider) SignBytes(b []byte) ([]byte, error) {
	p.verified = append(p.verified, verifCall{dat: b})
	if !p.sigOK {
		return nil, errors.New("simulated")
	}
	return []byte("signed"), nil
}
func (p *verifProvider) TokenBytes() ([]byte, error)      { return []byte("mytoken"), nil }
func (p *verifProvider) ChecksumBytes(data []byte) []byte { return data }
func (p *verifProvider) ShouldSignReplies() bool          { return p.sigOK }
func (p *verifProvider) IsRemoteSigning() bool            { return true }
func (p *verifProvider) RemoteSignRequest(ctx context.Context, b []byte) ([]byte, error) {
	p.verified = append(p.verified, verifCall{dat: b})
	if !p.sigOK {
		return nil, errors.New("simulated")
	}
	s := &SecureRequest{Protocol: protocol.SecureRequestV2, MessageBody: b, Signature: []byte("remote")}
	if !p.callerErr {
		s.SignerJWT = "delegate"
	}
	return json.Marshal(s)
}

func verifTech() inter.SecurityTechnology {
	return inter.SecurityTechnology(nd.OneOf("technology", "\x02", "\x01", "\x00")[0])
}

// verifRequest makes any request document
func verifRequest() *Request {
	r := &Request{Protocol: protocol.RequestV2, MessageBody: []byte(nd.String("req.body", 2))}
	r.ReqEnvelope = ReqEnvelope{
		RequestID:  nd.StringOf("req.id", 2, "ab"),
		SenderID:   nd.StringOf("req.sender", 2, "ab"),
		CallerID:   nd.StringOf("req.caller", 2, "ab="),
		Collective: nd.StringOf("req.collective", 2, "ab"),
		Agent:      nd.StringOf("req.agent", 2, "ab"),
		TTL:        nd.Int("req.ttl", 0, 1000),
		Time:       nd.Int64("req.time", 0, 1<<62),
	}
	return r
}

func verifSameBytes(a, b []byte) bool { return bytes.Equal(a, b) }

//verif:harness prop=S02 reach=accepted,rejected,skipped
//verif:bounds secure requests of protocol 2 holding any request (fields of up to 2 bytes) or junk, of this or another version, with any outcome of schema, signature and caller checks, with and without a delegated signer, from transports that say so or lie, under three security technologies
func VerifReceiveSecureRequest() {
	p := &verifProvider{tech: verifTech(), sigOK: nd.Bool("sig.ok"), callerErr: nd.Bool("caller.refused")}
	verifSchemas = map[protocol.ProtocolVersion]string{
		protocol.SecureRequestV2: nd.OneOf("schema.secure", "ok", "errors", "failed"),
		protocol.RequestV2:       nd.OneOf("schema.request", "ok", "errors", "failed"),
	}
	req := verifRequest()
	body, err := json.Marshal(req)
	if err != nil {
		panic(err)
	}
	content := nd.OneOf("content", "request", "junk", "null")
	switch content {
	case "junk":
		body = []byte("junk")
	case "null":
		body = []byte("null")
	}
	sent := &SecureRequest{
		Protocol:    protocol.ProtocolVersion(nd.OneOf("version", string(protocol.SecureRequestV2), string(protocol.SecureRequestV1), string(protocol.RequestV2), "other")),
		MessageBody: body,
		Signature:   []byte(nd.String("signature", 2)),
		CallerJWT:   nd.StringOf("caller.jwt", 2, "cd"),
	}
	if nd.OneOf("signer", "none", "delegate") == "delegate" {
		sent.SignerJWT = nd.Pick("signer.jwt", "del", "dfl")
	}
	doc, err := json.Marshal(sent)
	if err != nil {
		panic(err)
	}
	junk := nd.OneOf("document", "good", "junk") == "junk"
	if junk {
		doc = []byte("{junk")
	}
	skip := nd.OneOf("skip", "no", "yes") == "yes"

	got, err := NewSecureRequestFromTransport(&TransportMessage{Protocol: protocol.TransportV2, Data: doc, Headers: &TransportHeaders{}}, p, skip)

	parsed := p.tech == inter.SecurityTechnologyED25519JWT && verifSchemas[protocol.SecureRequestV2] == "ok" && !junk
	if skip {
		nd.Assert((err == nil) == parsed, "a secure request that is not validated was refused or accepted wrongly")
		nd.Reach("skipped")
		return
	}
	readable := sent.Protocol == protocol.SecureRequestV2 && verifSchemas[protocol.RequestV2] == "ok" && content != "junk"
	if content == "null" {
		// no schema accepts this
		nd.Assume(verifSchemas[protocol.RequestV2] != "ok")
	}
	want := nd.And(parsed, readable, p.sigOK, !p.callerErr)
	nd.Observe("accepted", err == nil)
	nd.Assert((err == nil) == want, "a secure request was accepted without passing every check, or refused although it passed")
	if err != nil {
		nd.Reach("rejected")
		nd.Assert(got == nil, "a refused secure request was handed out")
		return
	}
	nd.Reach("accepted")
	nd.Assert(len(p.verified) > 0 && len(p.allowed) > 0, "a secure request was accepted without asking for its signature and caller")
	for _, c := range p.verified {
		nd.Assert(verifSameBytes(c.dat, body) && verifSameBytes(c.sig, sent.Signature), "other bytes than the request were checked against the signature")
	}
	for _, c := range append(append([]verifCall{}, p.verified...), p.allowed...) {
		n := 1
		if sent.SignerJWT != "" {
			n = 2
		}
		nd.Assert(len(c.public) == n, "the wrong number of tokens was checked")
		nd.Assert(verifSameBytes(c.public[0], []byte(sent.CallerJWT)), "another token than the one of the caller was checked")
		if n == 2 {
			nd.Assert(verifSameBytes(c.public[1], []byte(sent.SignerJWT)), "another token than the one of the signer was checked")
		}
	}
	for _, c := range p.allowed {
		nd.Assert(nd.StrEq(c.name, req.ReqEnvelope.CallerID), "another caller than the one in the signed request was checked")
	}
	nd.Assert(verifSameBytes(got.Message(), body), "the accepted request is not the signed one")
	nd.Assert(nd.StrEq(got.CallerPublicData(), sent.CallerJWT), "the accepted request carries another token")

	r, err := NewRequestFromSecureRequest(got)
	nd.Assert(err == nil, "an accepted request cannot be read")
	nd.Assert(nd.And(nd.StrEq(r.CallerID(), req.ReqEnvelope.CallerID), nd.StrEq(r.Agent(), req.ReqEnvelope.Agent), nd.StrEq(r.Collective(), req.ReqEnvelope.Collective),
		nd.StrEq(r.RequestID(), req.ReqEnvelope.RequestID), nd.StrEq(r.SenderID(), req.ReqEnvelope.SenderID), r.TTL() == req.ReqEnvelope.TTL, r.Time().UnixNano() == req.ReqEnvelope.Time), "the request read differs from the signed one")
	nd.Assert(verifSameBytes(r.Message(), req.MessageBody), "the payload read differs from the signed one")
	nd.Assert(nd.And(nd.StrEq(r.CallerPublicData(), sent.CallerJWT), nd.StrEq(r.SignerPublicData(), sent.SignerJWT)), "the request is attributed to other tokens")
}

//verif:harness prop=S02 reach=signed,failed,unsigned
//verif:bounds requests of protocol 2 with any field of up to 2 bytes, to ordinary agents and the remote signer agent, signed locally or remotely, with a signer that works, fails or returns no delegate token, under three security technologies
func VerifSendSecureRequest() {
	p := &verifProvider{tech: verifTech(), sigOK: nd.Bool("sign.ok"), callerErr: nd.Bool("no.delegate")}
	verifSchemas = map[protocol.ProtocolVersion]string{
		protocol.SecureRequestV2: "ok",
		protocol.RequestV2:       nd.OneOf("schema.request", "ok", "errors", "failed"),
	}
	req := verifRequest()
	if nd.OneOf("agent", "any", "signer") == "signer" {
		req.ReqEnvelope.Agent = "aaa_signer"
	}
	body, err := json.Marshal(req)
	if err != nil {
		panic(err)
	}
	remote := nd.OneOf("how", "local", "remote") == "remote"
	var got protocol.SecureRequest
	if remote {
		got, err = NewRemoteSignedSecureRequest(context.Background(), req, p)
	} else {
		got, err = NewSecureRequest(req, p)
	}
	unsigned := req.ReqEnvelope.Agent == "aaa_signer"
	want := nd.And(p.tech == inter.SecurityTechnologyED25519JWT, verifSchemas[protocol.RequestV2] == "ok", nd.Or(unsigned, p.sigOK), nd.Or(!remote, unsigned, !p.callerErr))
	nd.Observe("ok", err == nil)
	nd.Assert((err == nil) == want, "a request went out although it could not be signed, or was refused although it could")
	if err != nil {
		nd.Reach("failed")
		return
	}
	s := got.(*SecureRequest)
	nd.Assert(verifSameBytes(s.MessageBody, body), "the signed request is not the one made")
	nd.Assert(s.Protocol == protocol.SecureRequestV2, "the secure request has another version")
	nd.Assert(s.CallerJWT == "mytoken", "the secure request does not carry the token of the caller")
	if unsigned {
		nd.Reach("unsigned")
		nd.Assert(len(p.verified) == 0, "a request to the signer was signed")
		return
	}
	nd.Reach("signed")
	for _, c := range p.verified {
		nd.Assert(verifSameBytes(c.dat, body), "other bytes than the request were signed")
	}
	if remote {
		nd.Assert(string(s.Signature) == "remote" && s.SignerJWT == "delegate", "the signature of the remote signer was lost")
	} else {
		nd.Assert(string(s.Signature) == "signed" && s.SignerJWT == "", "the signature was lost")
	}
}

//verif:harness prop=S02 reach=accepted,rejected
//verif:bounds secure replies of protocol 2 with a body of up to 3 bytes and a hash of up to 3 bytes or damaged, validated or not, under three security technologies
func VerifReceiveSecureReply() {
	p := &verifProvider{tech: verifTech()}
	body := []byte(nd.StringOf("body", 3, "ab"))
	hash := []byte(nd.StringOf("hash", 3, "ab"))
	s := &SecureReply{Protocol: protocol.SecureReplyV2, MessageBody: body, Hash: verifB64(hash)}
	if nd.OneOf("encoding", "good", "bad") == "bad" {
		s.Hash = "*"
	}
	doc, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	skip := nd.OneOf("skip", "no", "yes") == "yes"
	got, err := NewSecureReplyFromTransport(&TransportMessage{Protocol: protocol.TransportV2, Data: doc, Headers: &TransportHeaders{}}, p, skip)
	want := nd.And(p.tech == inter.SecurityTechnologyED25519JWT, nd.Or(skip, nd.And(s.Hash != "*", verifSameBytes(body, hash))))
	nd.Observe("ok", err == nil)
	nd.Assert((err == nil) == want, "a reply was accepted although its body does not have the stated hash, or refused although it has")
	if err == nil {
		nd.Reach("accepted")
		nd.Assert(verifSameBytes(got.Message(), body), "the accepted reply is another one")
	} else {
		nd.Reach("rejected")
	}
}

func verifB64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }
