package v1

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"

	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/protocol"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:replace github.com/choria-io/go-choria/protocol.SchemaValidate verifSchema

// verifSchemas says what the schema validator finds for documents of each kind: ok, errors or failure
var verifSchemas map[protocol.ProtocolVersion]string

func verifSchema(v protocol.ProtocolVersion, data []byte) (bool, []string, error) {
	switch verifSchemas[v] {
	case "errors":
		return false, []string{"simulated"}, nil
	case "failed":
		return false, nil, protocol.ErrSchemaValidationFailed
	}
	return true, nil, nil
}

// verifProvider is a security provider that records what it is asked
type verifProvider struct {
	inter.SecurityProvider

	tech      inter.SecurityTechnology
	sigOK     bool
	callerErr bool
	nameErr   bool
	certErr   bool

	verified []verifCall
	allowed  []verifCall
	names    []string
}

type verifCall struct {
	dat, sig []byte
	name     string
	public   [][]byte
}

func (p *verifProvider) BackingTechnology() inter.SecurityTechnology { return p.tech }
func (p *verifProvider) CallerIdentity(caller string) (string, error) {
	p.names = append(p.names, caller)
	if p.nameErr {
		return "", errors.New("simulated")
	}
	return "id:" + caller, nil
}
func (p *verifProvider) VerifySignatureBytes(dat []byte, sig []byte, public ...[]byte) (bool, string) {
	p.verified = append(p.verified, verifCall{dat: dat, sig: sig, public: public})
	return p.sigOK, "signer"
}
func (p *verifProvider) ShouldAllowCaller(name string, callers ...[]byte) (bool, error) {
	p.allowed = append(p.allowed, verifCall{name: name, public: callers})
	if p.callerErr {
		return false, errors.New("simulated")
	}
	return false, nil
}
func (p *verifProvider) SignBytes(b []byte) ([]byte, error) {
	p.verified = append(p.verified, verifCall{dat: b})
	if !p.sigOK {
		return nil, errors.New("simulated")
	}
	return []byte("signed"), nil
}
func (p *verifProvider) PublicCertBytes() ([]byte, error) {
	if p.certErr {
		return nil, errors.New("simulated")
	}
	return []byte("mycert"), nil
}
func (p *verifProvider) ChecksumBytes(data []byte) []byte { return data }
func (p *verifProvider) IsRemoteSigning() bool            { return true }
func (p *verifProvider) RemoteSignRequest(ctx context.Context, b []byte) ([]byte, error) {
	p.verified = append(p.verified, verifCall{dat: b})
	if !p.sigOK {
		return nil, errors.New("simulated")
	}
	return json.Marshal(&SecureRequest{Protocol: protocol.SecureRequestV1, MessageBody: string(b), Signature: "remote", PublicCertificate: "remotecert"})
}

func verifTech() inter.SecurityTechnology {
	return inter.SecurityTechnology(nd.OneOf("technology", "\x01", "\x02", "\x00")[0])
}

// verifRequest makes any request document
func verifRequest() *Request {
	return &Request{
		Protocol:    protocol.RequestV1,
		MessageBody: nd.StringOf("req.body", 2, "ab"),
		Envelope: &RequestEnvelope{
			RequestID:  nd.StringOf("req.id", 2, "ab"),
			SenderID:   nd.StringOf("req.sender", 2, "ab"),
			CallerID:   nd.StringOf("req.caller", 2, "ab="),
			Collective: nd.StringOf("req.collective", 2, "ab"),
			Agent:      nd.StringOf("req.agent", 2, "ab"),
			TTL:        nd.Int("req.ttl", 0, 1000),
			Time:       nd.Int64("req.time", 0, 1<<40),
		},
	}
}

func verifSameBytes(a, b []byte) bool { return bytes.Equal(a, b) }

func verifB64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

//verif:harness prop=S02 reach=accepted,rejected,skipped
//verif:bounds secure requests of protocol 1 holding any request (fields of up to 2 bytes) or junk, of this or another version, with any outcome of schema, caller name, caller and signature checks, any signature of up to 2 bytes or badly encoded, under three security technologies
func VerifReceiveSecureRequest() {
	p := &verifProvider{tech: verifTech(), sigOK: nd.Bool("sig.ok"), callerErr: nd.Bool("caller.refused"), nameErr: nd.Bool("caller.unnamed")}
	verifSchemas = map[protocol.ProtocolVersion]string{
		protocol.SecureRequestV1: nd.OneOf("schema.secure", "ok", "errors", "failed"),
		protocol.RequestV1:       nd.OneOf("schema.request", "ok", "errors", "failed"),
	}
	req := verifRequest()
	body, err := json.Marshal(req)
	if err != nil {
		panic(err)
	}
	content := nd.OneOf("content", "request", "junk")
	if content == "junk" {
		body = []byte("junk")
	}
	sig := []byte(nd.StringOf("signature", 2, "ab"))
	sent := &SecureRequest{
		Protocol:          protocol.ProtocolVersion(nd.OneOf("version", string(protocol.SecureRequestV1), string(protocol.SecureRequestV2), string(protocol.RequestV1), "other")),
		MessageBody:       string(body),
		Signature:         verifB64(sig),
		PublicCertificate: nd.StringOf("cert", 2, "cd"),
	}
	badsig := nd.OneOf("encoding", "good", "bad") == "bad"
	if badsig {
		sent.Signature = "*"
	}
	doc, err := json.Marshal(sent)
	if err != nil {
		panic(err)
	}
	junk := nd.OneOf("document", "good", "junk") == "junk"
	if junk {
		doc = []byte("{junk")
	}
	skip := nd.OneOf("skip", "no", "yes") == "yes"

	got, err := NewSecureRequestFromTransport(&TransportMessage{Protocol: protocol.TransportV1, Data: doc, Headers: &TransportHeaders{}}, p, skip)

	parsed := p.tech == inter.SecurityTechnologyX509 && verifSchemas[protocol.SecureRequestV1] == "ok" && !junk
	if skip {
		nd.Assert((err == nil) == parsed, "a secure request that is not validated was refused or accepted wrongly")
		nd.Reach("skipped")
		return
	}
	readable := sent.Protocol == protocol.SecureRequestV1 && verifSchemas[protocol.RequestV1] == "ok" && content != "junk"
	want := nd.And(parsed, readable, !badsig, p.sigOK, !p.callerErr, !p.nameErr)
	nd.Observe("accepted", err == nil)
	nd.Assert((err == nil) == want, "a secure request was accepted without passing every check, or refused although it passed")
	if err != nil {
		nd.Reach("rejected")
		return
	}
	nd.Reach("accepted")
	nd.Assert(len(p.verified) > 0 && len(p.allowed) > 0, "a secure request was accepted without asking for its signature and caller")
	for _, c := range p.verified {
		nd.Assert(verifSameBytes(c.dat, body) && verifSameBytes(c.sig, sig), "other bytes than the request were checked against the signature")
	}
	for _, c := range append(append([]verifCall{}, p.verified...), p.allowed...) {
		nd.Assert(len(c.public) == 1, "the wrong number of certificates was checked")
		nd.Assert(verifSameBytes(c.public[0], []byte(sent.PublicCertificate)), "another certificate than the one sent was checked")
	}
	for _, c := range p.allowed {
		nd.Assert(nd.StrEq(c.name, "id:"+req.Envelope.CallerID), "another caller than the one in the signed request was checked")
	}
	nd.Assert(verifSameBytes(got.Message(), body), "the accepted request is not the signed one")
	nd.Assert(nd.StrEq(got.CallerPublicData(), sent.PublicCertificate), "the accepted request carries another certificate")

	r, err := NewRequestFromSecureRequest(got)
	nd.Assert(err == nil, "an accepted request cannot be read")
	nd.Assert(nd.And(nd.StrEq(r.CallerID(), req.Envelope.CallerID), nd.StrEq(r.Agent(), req.Envelope.Agent), nd.StrEq(r.Collective(), req.Envelope.Collective),
		nd.StrEq(r.RequestID(), req.Envelope.RequestID), nd.StrEq(r.SenderID(), req.Envelope.SenderID), r.TTL() == req.Envelope.TTL, r.Time().Unix() == req.Envelope.Time), "the request read differs from the signed one")
	nd.Assert(nd.StrEq(string(r.Message()), req.MessageBody), "the payload read differs from the signed one")
}

//verif:harness prop=S02 reach=signed,failed,unsigned,registration
//verif:bounds requests of protocol 1 with any field of up to 2 bytes, to ordinary, registration and remote signer agents, signed locally or remotely, with a signer and certificate that work or fail, under three security technologies
func VerifSendSecureRequest() {
	p := &verifProvider{tech: verifTech(), sigOK: nd.Bool("sign.ok"), certErr: nd.Bool("cert.missing")}
	verifSchemas = map[protocol.ProtocolVersion]string{
		protocol.SecureRequestV1: "ok",
		protocol.RequestV1:       nd.OneOf("schema.request", "ok", "errors", "failed"),
	}
	req := verifRequest()
	agent := nd.OneOf("agent", "any", "aaa_signer", "registration")
	if agent != "any" {
		req.Envelope.Agent = agent
	}
	body, err := json.Marshal(req)
	if err != nil {
		panic(err)
	}
	remote := nd.OneOf("how", "local", "remote") == "remote"
	var got protocol.SecureRequest
	if remote {
		got, err = NewRemoteSignedSecureRequest(context.Background(), req, p)
	} else {
		got, err = NewSecureRequest(req, p)
	}
	unsigned := agent == "aaa_signer"
	lenient := agent == "registration" && !remote
	want := nd.And(p.tech == inter.SecurityTechnologyX509, verifSchemas[protocol.RequestV1] == "ok", nd.Or(unsigned, lenient, nd.And(p.sigOK, nd.Or(remote, !p.certErr))))
	nd.Observe("ok", err == nil)
	nd.Assert((err == nil) == want, "a request went out although it could not be signed, or was refused although it could")
	if err != nil {
		nd.Reach("failed")
		return
	}
	s := got.(*SecureRequest)
	nd.Assert(verifSameBytes([]byte(s.MessageBody), body), "the signed request is not the one made")
	nd.Assert(s.Protocol == protocol.SecureRequestV1, "the secure request has another version")
	for _, c := range p.verified {
		nd.Assert(verifSameBytes(c.dat, body), "other bytes than the request were signed")
	}
	switch {
	case unsigned:
		nd.Reach("unsigned")
		nd.Assert(len(p.verified) == 0, "a request to the signer was signed")
	case remote:
		nd.Reach("signed")
		nd.Assert(s.Signature == "remote" && s.PublicCertificate == "remotecert", "the signature of the remote signer was lost")
	case p.sigOK:
		nd.Reach("signed")
		nd.Assert(s.Signature == verifB64([]byte("signed")), "the signature was lost")
		nd.Assert((s.PublicCertificate == "mycert") == !p.certErr, "the certificate was lost")
	default:
		nd.Reach("registration")
		nd.Assert(s.Signature != verifB64([]byte("signed")), "an unsigned request looks signed")
	}
}

//verif:harness prop=S02 reach=accepted,rejected
//verif:bounds secure replies of protocol 1 with a body of up to 3 bytes and a hash of up to 3 bytes or damaged, validated or not, under three security technologies
func VerifReceiveSecureReply() {
	p := &verifProvider{tech: verifTech()}
	body := nd.StringOf("body", 3, "ab")
	hash := []byte(nd.StringOf("hash", 3, "ab"))
	s := &SecureReply{Protocol: protocol.SecureReplyV1, MessageBody: body, Hash: verifB64(hash)}
	if nd.OneOf("encoding", "good", "bad") == "bad" {
		s.Hash = "*"
	}
	doc, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	skip := nd.OneOf("skip", "no", "yes") == "yes"
	got, err := NewSecureReplyFromTransport(&TransportMessage{Protocol: protocol.TransportV1, Data: doc, Headers: &TransportHeaders{}}, p, skip)
	want := nd.And(p.tech == inter.SecurityTechnologyX509, nd.Or(skip, nd.And(s.Hash != "*", verifSameBytes([]byte(body), hash))))
	nd.Observe("ok", err == nil)
	nd.Assert((err == nil) == want, "a reply was accepted although its body does not have the stated hash, or refused although it has")
	if err == nil {
		nd.Reach("accepted")
		nd.Assert(verifSameBytes(got.Message(), []byte(body)), "the accepted reply is another one")
	} else {
		nd.Reach("rejected")
	}
}
