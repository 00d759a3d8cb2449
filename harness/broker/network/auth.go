package network

import (
	"bytes"
	"crypto/ed25519"
	"crypto/md5"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"encoding/hex"
	"errors"
	"fmt"
	"net"
	"strings"

	"github.com/choria-io/tokens"
	"github.com/golang-jwt/jwt/v5"
	"github.com/nats-io/nats-server/v2/server"
	"github.com/sirupsen/logrus"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:fs . internal/util
//verif:replace github.com/choria-io/tokens.TokenPurpose verifTokenPurpose
//verif:replace github.com/choria-io/tokens.TokenSigningAlgorithm verifTokenAlg
//verif:replace github.com/choria-io/tokens.ParseTokenUnverified verifParseUnverified
//verif:replace github.com/choria-io/tokens.ParseClientIDToken verifParseClient
//verif:replace github.com/choria-io/tokens.ParseClientIDTokenWithKeyfile verifParseClientFile
//verif:replace github.com/choria-io/tokens.ParseServerToken verifParseServer
//verif:replace github.com/choria-io/tokens.ParseServerTokenWithKeyfile verifParseServerFile
//verif:replace github.com/choria-io/tokens.ParseProvisioningToken verifParseProv
//verif:replace github.com/choria-io/tokens.ParseProvisioningTokenWithKeyfile verifParseProvFile
//verif:replace crypto/ed25519.Verify verifEdVerify

// keys and signers of the simulated world
const (
	verifKeyGood  = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa" // trusted signer or issuer
	verifKeyOther = "bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb" // another trusted signer
	verifKeyEvil  = "cccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc" // nobody trusts this one
	verifKeyUser  = "dddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddd" // public key of the connecting user
	verifFileGood = "/etc/signer.pem"
)

// verifToken is the token presented on the connection
type verifToken struct {
	purpose  tokens.Purpose
	signer   string // hex key or file that made the signature
	alg      string
	ou       any
	parsable bool
	expired  bool
	client   *tokens.ClientIDClaims
	server   *tokens.ServerClaims
}

var (
	verifTok      *verifToken
	verifSigValid bool // the nonce was signed by the key in the token
	verifReplayed bool // the signature is over something else than the nonce of this connection
	verifNonce    []byte
)

func verifTokenPurpose(t string) tokens.Purpose {
	if !verifTok.parsable {
		return tokens.UnknownPurpose
	}
	return verifTok.purpose
}
func verifTokenAlg(t string) (string, error) {
	if !verifTok.parsable {
		return "", errors.New("simulated")
	}
	return verifTok.alg, nil
}
func verifParseUnverified(t string) (jwt.MapClaims, error) {
	if !verifTok.parsable {
		return jwt.MapClaims{}, errors.New("simulated")
	}
	m := jwt.MapClaims{}
	if verifTok.ou != nil {
		m["ou"] = verifTok.ou
	}
	return m, nil
}
func verifSigned(pk any) error {
	k, ok := pk.(ed25519.PublicKey)
	if !verifTok.parsable || !ok || hex.EncodeToString(k) != verifTok.signer {
		return errors.New("simulated invalid signature")
	}
	if verifTok.expired {
		return jwt.ErrTokenExpired
	}
	return nil
}
func verifSignedFile(f string) error {
	if !verifTok.parsable || f != verifTok.signer {
		return errors.New("simulated invalid signature")
	}
	if verifTok.expired {
		return jwt.ErrTokenExpired
	}
	return nil
}
func verifClientOf(verify bool) (*tokens.ClientIDClaims, error) {
	if verifTok.purpose != tokens.ClientIDPurpose {
		if verify {
			return nil, tokens.ErrNotAClientToken
		}
	}
	c := *verifTok.client
	return &c, nil
}
func verifParseClient(t string, pk any, verify bool) (*tokens.ClientIDClaims, error) {
	if err := verifSigned(pk); err != nil {
		return nil, err
	}
	return verifClientOf(verify)
}
func verifParseClientFile(t string, f string, verify bool) (*tokens.ClientIDClaims, error) {
	if err := verifSignedFile(f); err != nil {
		return nil, err
	}
	return verifClientOf(verify)
}
func verifServerOf() (*tokens.ServerClaims, error) {
	if verifTok.purpose != tokens.ServerPurpose {
		return nil, tokens.ErrNotAServerToken
	}
	c := *verifTok.server
	return &c, nil
}
func verifParseServer(t string, pk any) (*tokens.ServerClaims, error) {
	if err := verifSigned(pk); err != nil {
		return nil, err
	}
	return verifServerOf()
}
func verifParseServerFile(t string, f string) (*tokens.ServerClaims, error) {
	if err := verifSignedFile(f); err != nil {
		return nil, err
	}
	return verifServerOf()
}
func verifProvOf() (*tokens.ProvisioningClaims, error) {
	if verifTok.purpose != tokens.ProvisioningPurpose {
		return nil, errors.New("not a provisioning token")
	}
	return &tokens.ProvisioningClaims{}, nil
}
func verifParseProv(t string, pk any) (*tokens.ProvisioningClaims, error) {
	if err := verifSigned(pk); err != nil {
		return nil, err
	}
	return verifProvOf()
}
func verifParseProvFile(t string, f string) (*tokens.ProvisioningClaims, error) {
	if err := verifSignedFile(f); err != nil {
		return nil, err
	}
	return verifProvOf()
}
func verifEdVerify(pk ed25519.PublicKey, msg, sig []byte) bool {
	return verifSigValid && hex.EncodeToString(pk) == verifKeyUser && (verifReplayed != bytes.Equal(msg, verifNonce)) && string(sig) == "sig"
}

// verifConn is a connection to the broker
type verifConn struct {
	opts  server.ClientOpts
	tls   *tls.ConnectionState
	addr  net.Addr
	nonce []byte
	kind  int
	regs  []*server.User
}

type verifAddr string

func (a verifAddr) Network() string { return "tcp" }
func (a verifAddr) String() string  { return string(a) }

func (c *verifConn) GetOpts() *server.ClientOpts                 { o := c.opts; return &o }
func (c *verifConn) GetTLSConnectionState() *tls.ConnectionState { return c.tls }
func (c *verifConn) RegisterUser(u *server.User)                 { c.regs = append(c.regs, u) }
func (c *verifConn) RemoteAddress() net.Addr                     { return c.addr }
func (c *verifConn) GetNonce() []byte                            { return c.nonce }
func (c *verifConn) Kind() int                                   { return c.kind }
func (c *verifConn) GetID() uint64                               { return 1 }

// verifCovers tells if every subject matched by pattern p is matched by pattern q
func verifCovers(q, p string) bool {
	qs, ps := strings.Split(q, "."), strings.Split(p, ".")
	for i, t := range qs {
		if t == ">" {
			return i < len(ps)
		}
		if i >= len(ps) || ps[i] == ">" {
			return false
		}
		if t != "*" && t != ps[i] {
			return false
		}
	}
	return len(qs) == len(ps)
}

func verifCoversAll(qs, ps []string) bool {
	for _, p := range ps {
		ok := false
		for _, q := range qs {
			ok = ok || verifCovers(q, p)
		}
		if !ok {
			return false
		}
	}
	return true
}

// verifPerm is the meaning of a subject permission: nothing set allows all
type verifPerm struct {
	allow, deny []string
}

func verifSame(got *server.SubjectPermission, want *verifPerm) bool {
	if want == nil {
		return got == nil || (len(got.Allow) == 0 && len(got.Deny) == 0) || (verifCoversAll(got.Allow, []string{">"}) && len(got.Deny) == 0)
	}
	ga, gd := []string{">"}, []string(nil)
	if got != nil {
		if len(got.Allow) > 0 {
			ga = got.Allow
		}
		gd = got.Deny
	}
	if verifCoversAll(gd, []string{">"}) || verifCoversAll(want.deny, []string{">"}) {
		return verifCoversAll(gd, []string{">"}) && verifCoversAll(want.deny, []string{">"})
	}
	wa := want.allow
	if len(wa) == 0 {
		wa = []string{">"}
	}
	return verifCoversAll(ga, wa) && verifCoversAll(wa, ga) && verifCoversAll(gd, want.deny) && verifCoversAll(want.deny, gd)
}

type verifPerms struct {
	pub, sub *verifPerm
}

func verifClientPerms(c *tokens.ClientIDClaims) *verifPerms {
	p := c.Permissions
	if p == nil {
		p = &tokens.ClientPermissions{}
	}
	if p.OrgAdmin {
		return &verifPerms{}
	}
	sub := []string{fmt.Sprintf("*.reply.%x.>", md5.Sum([]byte(c.CallerID))), fmt.Sprintf("*.reply.%x.>", sha256.Sum256([]byte(c.CallerID)))}
	pub := []string{"$SYS.REQ.USER.INFO"}
	sub = append(sub, c.AdditionalSubscribeSubjects...)
	pub = append(pub, c.AdditionalPublishSubjects...)
	if p.FleetManagement || p.SignedFleetManagement {
		pub = append(pub, "*.broadcast.agent.>", "*.broadcast.service.>", "*.node.>", "choria.federation.*.federation")
	}
	if p.EventsViewer {
		sub = append(sub, "choria.lifecycle.event.>", "choria.machine.watcher.>", "choria.machine.transition")
	}
	if p.ElectionUser {
		pub = append(pub, "$JS.API.STREAM.INFO.KV_CHORIA_LEADER_ELECTION", "$KV.CHORIA_LEADER_ELECTION.>")
	}
	if p.StreamsAdmin {
		sub = append(sub, "$JS.EVENT.>")
		pub = append(pub, "$JS.>")
	}
	if p.StreamsUser {
		sub = append(sub, c.OrganizationUnit+".republish.>")
		pub = append(pub, "$JS.API.INFO", "$JS.API.STREAM.NAMES", "$JS.API.STREAM.LIST", "$JS.API.STREAM.INFO.*", "$JS.API.STREAM.MSG.GET.*", "$JS.API.STREAM.MSG.DELETE.*",
			"$JS.API.DIRECT.GET.*", "$JS.API.DIRECT.GET.*.>", "$JS.API.CONSUMER.CREATE.*", "$JS.API.CONSUMER.CREATE.*.>", "$JS.API.CONSUMER.DURABLE.CREATE.*.*", "$JS.API.CONSUMER.DELETE.*.*",
			"$JS.API.CONSUMER.NAMES.*", "$JS.API.CONSUMER.LIST.*", "$JS.API.CONSUMER.INFO.*.*", "$JS.API.CONSUMER.MSG.NEXT.*.*", "$JS.ACK.>", "$JS.FC.>", "$KV.>", "$O.>")
	}
	if p.Governor && (p.StreamsUser || p.StreamsAdmin) {
		pub = append(pub, "*.governor.*", "choria.lifecycle.event.governor.>")
	}
	return &verifPerms{pub: &verifPerm{allow: pub}, sub: &verifPerm{allow: sub}}
}

var verifDenyAll = &verifPerms{pub: &verifPerm{deny: []string{">"}}, sub: &verifPerm{deny: []string{">"}}}

func verifServerPerms(deny bool, c *tokens.ServerClaims) *verifPerms {
	if deny {
		return verifDenyAll
	}
	if c == nil {
		return &verifPerms{
			pub: &verifPerm{allow: []string{">"}, deny: []string{"*.broadcast.agent.>", "*.broadcast.service.>", "*.node.>", "choria.federation.*.federation"}},
			sub: &verifPerm{deny: []string{"*.reply.>", "choria.federation.>", "choria.lifecycle.>"}},
		}
	}
	if len(c.Collectives) == 0 {
		return verifDenyAll
	}
	p := c.Permissions
	if p == nil {
		p = &tokens.ServerPermissions{}
	}
	pub := []string{"choria.lifecycle.>", "choria.machine.transition", "choria.machine.watcher.>"}
	pub = append(pub, c.AdditionalPublishSubjects...)
	var sub []string
	for _, x := range c.Collectives {
		pub = append(pub, x+".reply.>", x+".broadcast.agent.registration", "choria.federation."+x+".collective")
		sub = append(sub, x+".broadcast.agent.>", x+".node."+c.ChoriaIdentity,
			fmt.Sprintf("%s.reply.%x.>", x, md5.Sum([]byte(c.ChoriaIdentity))), fmt.Sprintf("%s.reply.%x.>", x, sha256.Sum256([]byte(c.ChoriaIdentity))))
		if p.ServiceHost {
			sub = append(sub, x+".broadcast.service.>")
		}
		if p.Submission {
			pub = append(pub, x+".submission.in.>")
		}
		if p.Governor && p.Streams {
			pub = append(pub, x+".governor.*")
		}
	}
	if p.Streams {
		pre := "$JS.API"
		if c.OrganizationUnit != "choria" {
			pre = "choria.streams"
		}
		sub = append(sub, c.OrganizationUnit+".republish.>")
		for _, s := range []string{"STREAM.INFO.*", "STREAM.MSG.GET.*", "STREAM.MSG.DELETE.*", "DIRECT.GET.*", "DIRECT.GET.*.>", "CONSUMER.CREATE.*", "CONSUMER.CREATE.*.>", "CONSUMER.DURABLE.CREATE.*.*", "CONSUMER.INFO.*.*", "CONSUMER.MSG.NEXT.*.*"} {
			pub = append(pub, pre+"."+s)
		}
		pub = append(pub, "$JS.ACK.>", "$JS.FC.>")
	}
	return &verifPerms{pub: &verifPerm{allow: pub}, sub: &verifPerm{allow: sub}}
}

func verifPubSubPerms() *verifPerms {
	d := []string{"*.broadcast.>", "*.node.>", "*.reply.>", "choria.federation.>", "choria.lifecycle.>", "choria.machine.>"}
	return &verifPerms{pub: &verifPerm{allow: []string{">"}, deny: d}, sub: &verifPerm{allow: []string{">"}, deny: d}}
}

func verifProvServerPerms() *verifPerms {
	return &verifPerms{
		sub: &verifPerm{allow: []string{"provisioning.node.>", "provisioning.broadcast.agent.discovery", "provisioning.broadcast.agent.rpcutil", "provisioning.broadcast.agent.choria_util", "provisioning.broadcast.agent.choria_provision"}},
		pub: &verifPerm{allow: []string{"choria.lifecycle.>", "provisioning.reply.>", "provisioning.registration.>"}},
	}
}

func verifCheckPerms(u *server.User, want *verifPerms, msg string) {
	nd.Assert(u.Permissions != nil || want.pub == nil && want.sub == nil, msg)
	if u.Permissions == nil {
		return
	}
	nd.Assert(verifSame(u.Permissions.Publish, want.pub), msg+" (publish)")
	nd.Assert(verifSame(u.Permissions.Subscribe, want.sub), msg+" (subscribe)")
	nd.Assert(u.Permissions.Response == nil, msg+" (response)")
}

func verifNewAuth() *ChoriaAuth {
	log := logrus.New()
	return &ChoriaAuth{
		choriaAccount: &server.Account{Name: "choria"},
		issuerTokens:  map[string]string{},
		tokenCache:    map[string]ed25519.PublicKey{},
		log:           logrus.NewEntry(log),
	}
}

func verifNewConn() *verifConn {
	verifTok = &verifToken{}
	verifNonce = []byte("nonce")
	verifSigValid, verifReplayed = true, false
	return &verifConn{opts: server.ClientOpts{Name: "name", JWT: "jwt", Nkey: "nkey"}, addr: verifAddr("192.0.2.1:4222"), nonce: verifNonce, kind: server.CLIENT}
}

// verifTLS picks the state of the TLS connection
func verifTLS(c *verifConn, opts ...string) (any, verified bool) {
	switch nd.OneOf("tls", opts...) {
	case "unverified":
		c.tls = &tls.ConnectionState{}
		return true, false
	case "verified":
		crt := &x509.Certificate{}
		c.tls = &tls.ConnectionState{VerifiedChains: [][]*x509.Certificate{{crt}}, PeerCertificates: []*x509.Certificate{crt}}
		return true, true
	}
	return false, false
}

// verifTrust picks who the broker trusts to sign tokens and tells what is needed to be trusted
func verifTrust(a *ChoriaAuth, opts ...string) (mode string) {
	mode = nd.OneOf("trust", opts...)
	switch mode {
	case "issuer":
		a.issuerTokens["org"] = verifKeyGood
		a.issuerTokens["two"] = verifKeyOther
	case "key":
		a.clientJwtSigners = []string{verifKeyGood}
		a.serverJwtSigners = []string{verifKeyGood}
	case "file":
		a.clientJwtSigners = []string{verifFileGood}
		a.serverJwtSigners = []string{verifFileGood}
	case "both":
		a.clientJwtSigners = []string{verifFileGood, verifKeyOther}
		a.serverJwtSigners = []string{verifKeyOther, verifFileGood}
	}
	return mode
}

// verifSign picks who signed the token and its organization, true means the broker should trust it
func verifSign(mode string) bool {
	verifTok.alg = "EdDSA"
	verifTok.signer = nd.OneOf("signer", verifKeyGood, verifKeyOther, verifKeyEvil, verifFileGood)
	if verifTok.signer == verifFileGood {
		verifTok.alg = "RS256"
	}
	switch nd.OneOf("org", "org", "two", "unknown", "none", "number") {
	case "org":
		verifTok.ou = "org"
	case "two":
		verifTok.ou = "two"
	case "unknown":
		verifTok.ou = "unknown"
	case "number":
		verifTok.ou = 1
	}
	verifTok.expired = nd.OneOf("expired", "no", "yes") == "yes"
	verifTok.parsable = true
	if verifTok.expired {
		return false
	}
	switch mode {
	case "issuer":
		return (verifTok.ou == "org" && verifTok.signer == verifKeyGood) || (verifTok.ou == "two" && verifTok.signer == verifKeyOther)
	case "key":
		return verifTok.signer == verifKeyGood
	case "file":
		return verifTok.signer == verifFileGood
	case "both":
		return verifTok.signer == verifFileGood || verifTok.signer == verifKeyOther
	}
	return false
}

// verifProof picks the proof of possession of the key in the token
func verifProof(c *verifConn, pk *string) bool {
	switch nd.OneOf("proof", "good", "nosig", "notb64", "wrongsig", "invalid", "nokey", "shortkey", "otherkey", "nononce", "replayed") {
	case "good":
		c.opts.Sig, *pk = "c2ln", verifKeyUser
		return true
	case "nosig":
		c.opts.Sig, *pk = "", verifKeyUser
	case "notb64":
		c.opts.Sig, *pk = "!!", verifKeyUser
	case "wrongsig":
		c.opts.Sig, *pk = "c2lo", verifKeyUser
	case "invalid":
		c.opts.Sig, *pk = "c2ln", verifKeyUser
		verifSigValid = false
	case "nokey":
		c.opts.Sig = "c2ln"
	case "shortkey":
		c.opts.Sig, *pk = "c2ln", "dddd"
	case "otherkey":
		c.opts.Sig, *pk = "c2ln", verifKeyEvil
	case "nononce":
		c.opts.Sig, *pk = "c2ln", verifKeyUser
		c.nonce = nil
		verifReplayed = true
	case "replayed":
		c.opts.Sig, *pk = "c2ln", verifKeyUser
		verifReplayed = true
	}
	return false
}

//verif:harness prop=B01 reach=client,server,unlimited,pubsub,default,deny
//verif:bounds ordinary users on pipes, plain, unverified and verified TLS; absent, unparsable, client, server and other purpose tokens of any signer, organization and expiry under no, key, file, mixed and issuer trust; any nonce proof; client and leafnode connections; with and without client allow lists, denied servers and issuer mode TLS access
func VerifCheckDefault() {
	nd.FSReset()
	c := verifNewConn()
	a := verifNewAuth()
	a.systemUser, a.systemPass, a.systemAccount = "system", "pw", &server.Account{Name: "system"}
	a.provPass = "pw"
	c.opts.Username = nd.OneOf("user", "", "bob")
	c.opts.Password = "pw"
	pipe := nd.OneOf("pipe", "no", "yes") == "yes"
	if pipe {
		c.addr = verifAddr("pipe")
	}
	hasTLS, verified := verifTLS(c, "none", "unverified", "verified")
	a.isTLS = nd.OneOf("broker_tls", "yes", "no") == "yes"
	a.denyServers = nd.OneOf("deny_servers", "no", "yes") == "yes"
	if nd.OneOf("allow_list", "no", "yes") == "yes" {
		a.clientAllowList = []string{"192.0.2.1"}
	}
	a.allowIssuerBasedTLSAccess = nd.OneOf("issuer_tls", "no", "yes") == "yes"
	mode := "none"
	if nd.OneOf("trust_issuer", "no", "yes") == "yes" {
		mode = "issuer"
		a.issuerTokens["org"] = verifKeyGood
	}

	kind := nd.OneOf("token", "none", "junk", "client", "server", "prov")
	trusted := true
	switch kind {
	case "none":
	case "junk":
		c.opts.Token = "token"
	default:
		c.opts.Token = "token"
		verifTok.parsable = true
		verifTok.alg = "EdDSA"
		verifTok.ou = "org"
		trusted = nd.OneOf("trusted", "yes", "no") == "yes"
		verifTok.signer = verifKeyGood
		if !trusted {
			verifTok.signer = verifKeyEvil
		}
		if mode == "none" {
			a.clientJwtSigners = []string{verifKeyGood}
			a.serverJwtSigners = []string{verifKeyGood}
		}
	}
	if nd.OneOf("kind", "client", "leafnode") == "leafnode" {
		c.kind = server.LEAF
	}
	verifTok.client = &tokens.ClientIDClaims{CallerID: "up=bob"}
	verifTok.server = &tokens.ServerClaims{ChoriaIdentity: "n1", Collectives: []string{"c1"}}
	proof := false
	switch nd.OneOf("proof", "good", "bad") {
	case "good":
		proof = true
		c.opts.Sig = "c2ln"
	case "bad":
		c.opts.Sig = "c2lo"
	}
	verifTok.client.PublicKey = verifKeyUser
	verifTok.server.PublicKey = verifKeyUser
	switch kind {
	case "client":
		verifTok.purpose = tokens.ClientIDPurpose
	case "server":
		verifTok.purpose = tokens.ServerPurpose
	case "prov":
		verifTok.purpose = tokens.ProvisioningPurpose
	}

	ok := a.Check(c)

	var want *verifPerms
	name := c.opts.Username
	useToken := kind != "none" && hasTLS
	switch {
	case !pipe && a.isTLS && !hasTLS:
	case useToken && kind == "client":
		if trusted && proof && c.kind == server.CLIENT {
			nd.Reach("client")
			want = verifClientPerms(verifTok.client)
			name = "up=bob"
		}
	case useToken && kind == "server":
		if trusted && proof && c.kind == server.CLIENT {
			nd.Reach("server")
			want = verifServerPerms(a.denyServers, verifTok.server)
			name = "n1"
		}
	case useToken:
	case !verified && !pipe:
	case len(a.clientAllowList) > 0:
		nd.Reach("default")
		want = verifServerPerms(a.denyServers, nil)
	case pipe:
		nd.Reach("unlimited")
		want = &verifPerms{}
	case a.allowIssuerBasedTLSAccess:
		nd.Reach("pubsub")
		want = verifPubSubPerms()
	case mode == "issuer":
	default:
		want = &verifPerms{}
	}
	nd.Observe("ok", ok)
	nd.Assert(ok == (want != nil), "a connection was admitted without what it needs, or denied although it has it")
	if want == nil {
		nd.Reach("deny")
		nd.Assert(len(c.regs) == 0, "a denied connection got a user registered")
		return
	}
	nd.Assert(len(c.regs) == 1, "an admitted connection was not registered once")
	u := c.regs[0]
	nd.Assert(u.Account == a.choriaAccount, "an ordinary connection was put in another account")
	nd.Assert(u.Username == name, "the connection is known under another name than the proven one")
	verifCheckPerms(u, want, "an admitted connection got other permissions than its class has")
}

//verif:harness prop=B01 reach=client,server,deny
//verif:bounds client and server tokens signed by any of four signers, for any organization, expired or not, under no, key, file, mixed and issuer trust; with any of ten proofs of the nonce; absent caller or identity
func VerifTokenTrust() {
	nd.FSReset()
	c := verifNewConn()
	a := verifNewAuth()
	a.isTLS = true
	verifTLS(c, "unverified", "verified")
	c.opts.Token = "token"
	mode := verifTrust(a, "none", "issuer", "key", "file", "both")
	trusted := verifSign(mode)
	name := nd.OneOf("name", "bob", "")
	verifTok.client = &tokens.ClientIDClaims{CallerID: name}
	verifTok.server = &tokens.ServerClaims{ChoriaIdentity: name, Collectives: []string{"c1"}}
	pk := ""
	proof := verifProof(c, &pk)
	verifTok.client.PublicKey, verifTok.server.PublicKey = pk, pk
	kind := nd.OneOf("purpose", "client", "server")
	if kind == "client" {
		verifTok.purpose = tokens.ClientIDPurpose
	} else {
		verifTok.purpose = tokens.ServerPurpose
	}
	ok := a.Check(c)
	want := trusted && proof && name != ""
	nd.Observe("ok", ok)
	nd.Assert(ok == want, "a token nobody trusted vouches for, or whose holder did not prove it, was accepted, or a good one refused")
	nd.Assert(len(c.regs) == 1 == want, "the registration does not follow the decision")
	if !want {
		nd.Reach("deny")
		return
	}
	nd.Reach(kind)
	nd.Assert(c.regs[0].Username == name && c.regs[0].Account == a.choriaAccount, "the connection is known under another name or account")
	if kind == "client" {
		verifCheckPerms(c.regs[0], verifClientPerms(verifTok.client), "client permissions are not those of its token")
	} else {
		verifCheckPerms(c.regs[0], verifServerPerms(false, verifTok.server), "server permissions are not those of its token")
	}
}

//verif:harness prop=B02 reach=end,admin
//verif:bounds every combination of the token permissions, with and without a permissions claim, two caller ids, two organizations, up to one additional publish and subscribe subject
func VerifClientPermissions() {
	c := verifNewConn()
	a := verifNewAuth()
	cl := &tokens.ClientIDClaims{CallerID: nd.OneOf("caller", "up=bob", "x"), OrganizationUnit: nd.OneOf("org", "choria", "acme")}
	if nd.OneOf("additional", "no", "yes") == "yes" {
		cl.AdditionalPublishSubjects = []string{"app.pub.>"}
		cl.AdditionalSubscribeSubjects = []string{"app.sub"}
	}
	if nd.OneOf("claim", "yes", "no") == "yes" {
		cl.Permissions = &tokens.ClientPermissions{
			StreamsAdmin: nd.Bool("streams_admin"), StreamsUser: nd.Bool("streams_user"), EventsViewer: nd.Bool("events"), ElectionUser: nd.Bool("election"),
			SystemUser: nd.Bool("system"), Governor: nd.Bool("governor"), OrgAdmin: nd.Bool("org_admin"), FleetManagement: nd.Bool("fleet"), SignedFleetManagement: nd.Bool("signed_fleet"),
			ExtendedServiceLifetime: nd.Bool("service"), AuthenticationDelegator: nd.Bool("delegator"), ServerProvisioner: nd.Bool("provisioner"),
		}
	}
	verifTok.parsable, verifTok.purpose, verifTok.signer, verifTok.alg, verifTok.client = true, tokens.ClientIDPurpose, verifKeyGood, "EdDSA", cl
	cl.PublicKey = verifKeyUser
	c.opts.Token, c.opts.Sig = "token", "c2ln"
	c.tls = &tls.ConnectionState{}
	a.isTLS = true
	a.clientJwtSigners = []string{verifKeyGood}
	ok := a.Check(c)
	nd.Observe("ok", ok)
	nd.Assert(ok && len(c.regs) == 1, "a good client was denied")
	if cl.Permissions != nil && cl.Permissions.OrgAdmin {
		nd.Reach("admin")
	}
	verifCheckPerms(c.regs[0], verifClientPerms(cl), "client permissions are not the ones its token grants")
	nd.Reach("end")
}

//verif:harness prop=B03 reach=end,denied
//verif:bounds every combination of the server token permissions, with and without a permissions claim, up to two collectives, two identities, two organizations, up to one additional subject, servers denied or not
func VerifServerPermissions() {
	c := verifNewConn()
	a := verifNewAuth()
	cl := &tokens.ServerClaims{ChoriaIdentity: nd.OneOf("identity", "n1", "n2.example.net"), OrganizationUnit: nd.OneOf("org", "choria", "acme")}
	switch nd.OneOf("collectives", "0", "1", "2") {
	case "1":
		cl.Collectives = []string{"c1"}
	case "2":
		cl.Collectives = []string{"c1", "c2"}
	}
	if nd.OneOf("additional", "no", "yes") == "yes" {
		cl.AdditionalPublishSubjects = []string{"app.pub"}
	}
	if nd.OneOf("claim", "yes", "no") == "yes" {
		cl.Permissions = &tokens.ServerPermissions{Submission: nd.Bool("submission"), Streams: nd.Bool("streams"), Governor: nd.Bool("governor"), ServiceHost: nd.Bool("service_host")}
	}
	a.denyServers = nd.OneOf("deny_servers", "no", "yes") == "yes"
	verifTok.parsable, verifTok.purpose, verifTok.signer, verifTok.alg, verifTok.server = true, tokens.ServerPurpose, verifKeyGood, "EdDSA", cl
	cl.PublicKey = verifKeyUser
	c.opts.Token, c.opts.Sig = "token", "c2ln"
	c.tls = &tls.ConnectionState{}
	a.isTLS = true
	a.serverJwtSigners = []string{verifKeyGood}
	ok := a.Check(c)
	nd.Observe("ok", ok)
	nd.Assert(ok && len(c.regs) == 1, "a good server was denied")
	want := verifServerPerms(a.denyServers, cl)
	if want == verifDenyAll {
		nd.Reach("denied")
	}
	verifCheckPerms(c.regs[0], want, "server permissions are not the ones its token grants")
	nd.Reach("end")
}

//verif:harness prop=B04 reach=allow,deny
//verif:bounds the system user with any configured and presented password up to 2 characters on pipes, plain, unverified and verified TLS; with absent, untrusted and trusted tokens of any purpose and permissions, any nonce proof and connection kind
func VerifSystemUser() {
	nd.FSReset()
	c := verifNewConn()
	a := verifNewAuth()
	a.systemUser = "system"
	a.systemPass = nd.StringOf("system_pass", 2, "ab")
	if nd.OneOf("system_account", "yes", "no") == "yes" {
		a.systemAccount = &server.Account{Name: "system"}
	}
	c.opts.Username = "system"
	c.opts.Password = nd.StringOf("pass", 2, "ab")
	pipe := nd.OneOf("pipe", "no", "yes") == "yes"
	if pipe {
		c.addr = verifAddr("pipe")
	}
	hasTLS, verified := verifTLS(c, "none", "unverified", "verified")
	a.isTLS = nd.OneOf("broker_tls", "yes", "no") == "yes"
	a.clientJwtSigners = []string{verifKeyGood}
	tok := nd.OneOf("token", "none", "client", "server")
	cl := &tokens.ClientIDClaims{CallerID: "up=bob"}
	verifTok.client = cl
	verifTok.server = &tokens.ServerClaims{ChoriaIdentity: "n1", StandardClaims: tokens.StandardClaims{PublicKey: verifKeyUser}}
	granted, proof := false, false
	if tok != "none" {
		c.opts.Token = "token"
		verifTok.parsable, verifTok.alg = true, "EdDSA"
		verifTok.signer = nd.OneOf("signer", verifKeyGood, verifKeyEvil)
		verifTok.purpose = tokens.ServerPurpose
		if tok == "client" {
			verifTok.purpose = tokens.ClientIDPurpose
		}
		if nd.OneOf("claim", "yes", "no") == "yes" {
			cl.Permissions = &tokens.ClientPermissions{SystemUser: nd.Bool("system"), OrgAdmin: nd.Bool("org_admin"), ServerProvisioner: true, StreamsAdmin: true, FleetManagement: true, AuthenticationDelegator: true}
			granted = nd.Or(cl.Permissions.SystemUser, cl.Permissions.OrgAdmin)
		}
		proof = verifProof(c, &cl.PublicKey)
	}
	if nd.OneOf("kind", "client", "leafnode") == "leafnode" {
		c.kind = server.LEAF
	}
	ok := a.Check(c)
	want := nd.And(a.systemPass != "", a.systemAccount != nil, nd.StrEq(c.opts.Password, a.systemPass))
	switch {
	case !pipe && a.isTLS && !hasTLS:
		want = false
	case verified || pipe:
	case !hasTLS:
		want = false
	default:
		want = nd.And(want, tok == "client", verifTok.signer == verifKeyGood, granted, proof, c.kind == server.CLIENT)
	}
	nd.Observe("ok", ok)
	nd.Assert(ok == want, "system account access was granted without the credentials it needs, or refused with them")
	nd.Assert(len(c.regs) == 1 == ok, "the registration does not follow the decision")
	if ok {
		nd.Reach("allow")
		nd.Assert(c.regs[0].Account == a.systemAccount, "the system user was put in another account")
	} else {
		nd.Reach("deny")
	}
}

//verif:harness prop=B04 reach=allow,deny
//verif:bounds the provisioner user with any configured and presented password up to 2 characters, on pipes, plain, unverified and verified TLS, in TLS mode and in issuer mode with absent or any signed token and permissions, tokens being optional or not
func VerifProvisionerUser() {
	nd.FSReset()
	c := verifNewConn()
	a := verifNewAuth()
	a.provPass = nd.StringOf("prov_pass", 2, "ab")
	if nd.OneOf("prov_account", "yes", "no") == "yes" {
		a.provisioningAccount = &server.Account{Name: "provisioning"}
	}
	if nd.OneOf("system_user", "no", "yes") == "yes" {
		a.systemUser, a.systemPass, a.systemAccount = "system", "ab", &server.Account{Name: "system"}
	}
	c.opts.Username = "provisioner"
	c.opts.Password = nd.StringOf("pass", 2, "ab")
	pipe := nd.OneOf("pipe", "no", "yes") == "yes"
	if pipe {
		c.addr = verifAddr("pipe")
	}
	hasTLS, verified := verifTLS(c, "none", "unverified", "verified")
	a.isTLS = nd.OneOf("broker_tls", "yes", "no") == "yes"
	mode := verifTrust(a, "issuer", "key")
	a.provWithoutToken = nd.OneOf("without_token", "no", "yes") == "yes"
	tok := "none"
	if mode == "issuer" {
		tok = nd.OneOf("token", "none", "client", "server")
	}
	trusted, granted := false, false
	verifTok.client = &tokens.ClientIDClaims{CallerID: "up=prov", StandardClaims: tokens.StandardClaims{PublicKey: verifKeyUser}}
	verifTok.server = &tokens.ServerClaims{ChoriaIdentity: "n1", StandardClaims: tokens.StandardClaims{PublicKey: verifKeyUser}}
	if tok != "none" {
		c.opts.Token, c.opts.Sig = "token", "c2ln"
		trusted = verifSign(mode)
		verifTok.purpose = tokens.ServerPurpose
		if tok == "client" {
			verifTok.purpose = tokens.ClientIDPurpose
		}
		if nd.OneOf("claim", "yes", "no") == "yes" {
			verifTok.client.Permissions = &tokens.ClientPermissions{ServerProvisioner: nd.Bool("provisioner"), OrgAdmin: true, SystemUser: true, FleetManagement: true}
			granted = verifTok.client.Permissions.ServerProvisioner
		}
	}
	ok := a.Check(c)
	want := nd.And(a.provPass != "", a.provisioningAccount != nil, nd.StrEq(a.provPass, c.opts.Password))
	switch {
	case !pipe && a.isTLS && !hasTLS:
		want = false
	case mode == "issuer":
		want = nd.And(want, nd.Or(tok == "none" && a.provWithoutToken, nd.And(tok == "client", trusted, granted)))
	default:
		want = nd.And(want, verified, a.isTLS)
	}
	nd.Observe("ok", ok)
	nd.Assert(ok == want, "provisioner access was granted without the credentials it needs, or refused with them")
	nd.Assert(len(c.regs) == 1 == ok, "the registration does not follow the decision")
	if ok {
		nd.Reach("allow")
		nd.Assert(c.regs[0].Account == a.provisioningAccount, "the provisioner was put in another account")
	} else {
		nd.Reach("deny")
	}
}

//verif:harness prop=B04 reach=allow,deny
//verif:bounds unprovisioned servers with absent, junk or any signed token of any purpose over unverified TLS; issuer and signer file mode; signer file present or not; provisioning enabled or not
func VerifUnprovisionedServer() {
	nd.FSReset()
	c := verifNewConn()
	a := verifNewAuth()
	a.isTLS = true
	verifTLS(c, "unverified")
	if nd.OneOf("prov_pass", "yes", "no") == "yes" {
		a.provPass = "pw"
	}
	if nd.OneOf("prov_account", "yes", "no") == "yes" {
		a.provisioningAccount = &server.Account{Name: "provisioning"}
	}
	mode := nd.OneOf("issuer", "yes", "no")
	if mode == "yes" {
		a.issuerTokens["org"] = verifKeyGood
		a.issuerTokens["two"] = verifKeyOther
	}
	if nd.OneOf("signer_file", "yes", "no") == "yes" {
		a.provisioningTokenSigner = verifFileGood
	}
	exist := nd.OneOf("file_exists", "yes", "no") == "yes"
	if exist {
		nd.FSPut(verifFileGood, "key")
	}
	trusted := false
	tok := nd.OneOf("token", "none", "junk", "prov", "client", "server")
	verifTok.client = &tokens.ClientIDClaims{CallerID: "up=bob", StandardClaims: tokens.StandardClaims{PublicKey: verifKeyEvil}}
	verifTok.server = &tokens.ServerClaims{ChoriaIdentity: "n1", StandardClaims: tokens.StandardClaims{PublicKey: verifKeyEvil}}
	c.opts.Sig = "c2ln"
	switch tok {
	case "none":
	case "junk":
		c.opts.Token = "token"
	default:
		c.opts.Token = "token"
		trusted = verifSign("issuer")
		switch tok {
		case "prov":
			verifTok.purpose = tokens.ProvisioningPurpose
		case "client":
			verifTok.purpose = tokens.ClientIDPurpose
		case "server":
			verifTok.purpose = tokens.ServerPurpose
		}
	}
	ok := a.Check(c)
	want := false
	switch {
	case a.provisioningAccount == nil || tok != "prov":
	case verifTok.alg == "EdDSA" && mode == "yes":
		want = a.provPass != "" && trusted
	default:
		want = a.provisioningTokenSigner != "" && exist && verifTok.signer == verifFileGood && !verifTok.expired
	}
	nd.Observe("ok", ok)
	nd.Assert(ok == want, "an unverified connection entered provisioning without a trusted provisioning token, or was refused with one")
	nd.Assert(len(c.regs) == 1 == ok, "the registration does not follow the decision")
	if ok {
		nd.Reach("allow")
		nd.Assert(c.regs[0].Account == a.provisioningAccount, "an unprovisioned server was put in another account")
		verifCheckPerms(c.regs[0], verifProvServerPerms(), "an unprovisioned server got other permissions than provisioning needs")
	} else {
		nd.Reach("deny")
	}
}
