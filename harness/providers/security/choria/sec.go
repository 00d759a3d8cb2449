package choria

import (
	"crypto/ed25519"
	"encoding/hex"
	"errors"

	"github.com/choria-io/tokens"
	"github.com/golang-jwt/jwt/v5"
	"github.com/sirupsen/logrus"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:replace github.com/choria-io/tokens.TokenPurpose verifTokenPurpose
//verif:replace github.com/choria-io/tokens.ParseTokenUnverified verifParseUnverified
//verif:replace github.com/choria-io/tokens.ParseClientIDToken verifParseClient
//verif:replace github.com/choria-io/tokens.ParseClientIDTokenUnverified verifParseClientUnverified
//verif:replace github.com/choria-io/tokens.ParseServerToken verifParseServer
//verif:replace github.com/choria-io/go-choria/internal/util.Ed25519Verify verifEdVerify

const (
	verifKeyGood  = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"
	verifKeyOther = "bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb"
	verifKeyEvil  = "cccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc"
	verifKeyUser  = "dddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddd"
	verifKeyDeleg = "eeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee"
)

// verifToken is a token somebody holds
type verifToken struct {
	purpose tokens.Purpose
	signer  string
	ou      string // none and number have a special meaning
	expired bool
	client  *tokens.ClientIDClaims
	server  *tokens.ServerClaims
}

var (
	verifWorld  map[string]*verifToken // every token that can be parsed
	verifSigKey string                 // the key that made the signature at hand
	verifSigFor string                 // what it was made over
)

const verifSigBytes = "signature"

func verifTokenPurpose(t string) tokens.Purpose {
	if x, ok := verifWorld[t]; ok {
		return x.purpose
	}
	return tokens.UnknownPurpose
}

func verifParseUnverified(t string) (jwt.MapClaims, error) {
	x, ok := verifWorld[t]
	if !ok {
		return nil, errors.New("simulated")
	}
	m := jwt.MapClaims{}
	switch x.ou {
	case "none":
	case "number":
		m["ou"] = 1
	default:
		m["ou"] = x.ou
	}
	return m, nil
}

func verifSigned(t string, pk any) (*verifToken, error) {
	x, ok := verifWorld[t]
	if !ok {
		return nil, errors.New("simulated malformed token")
	}
	k, ok := pk.(ed25519.PublicKey)
	if !ok || hex.EncodeToString(k) != x.signer {
		return nil, errors.New("simulated invalid signature")
	}
	if x.expired {
		return nil, jwt.ErrTokenExpired
	}
	return x, nil
}

func verifParseClient(t string, pk any, verify bool) (*tokens.ClientIDClaims, error) {
	x, err := verifSigned(t, pk)
	if err != nil {
		return nil, err
	}
	if verify && x.purpose != tokens.ClientIDPurpose {
		return nil, tokens.ErrNotAClientToken
	}
	c := *x.client
	return &c, nil
}

func verifParseClientUnverified(t string) (*tokens.ClientIDClaims, error) {
	x, ok := verifWorld[t]
	if !ok {
		return nil, errors.New("simulated malformed token")
	}
	if x.purpose != tokens.ClientIDPurpose {
		return nil, tokens.ErrNotAClientToken
	}
	c := *x.client
	return &c, nil
}

func verifParseServer(t string, pk any) (*tokens.ServerClaims, error) {
	x, err := verifSigned(t, pk)
	if err != nil {
		return nil, err
	}
	if x.purpose != tokens.ServerPurpose {
		return nil, tokens.ErrNotAServerToken
	}
	c := *x.server
	return &c, nil
}

func verifEdVerify(pk ed25519.PublicKey, msg []byte, sig []byte) (bool, error) {
	if len(pk) != 32 {
		return false, errors.New("invalid public key size")
	}
	return nd.And(verifSigKey == hex.EncodeToString(pk), string(msg) == verifSigFor, string(sig) == verifSigBytes), nil
}

func verifHex(s string) ed25519.PublicKey {
	b, _ := hex.DecodeString(s)
	return b
}

// verifAnyToken makes any token, perms tells which permissions it has
func verifAnyToken(name string, pk string) *verifToken {
	t := &verifToken{
		signer:  nd.OneOf(name+".signer", verifKeyGood, verifKeyOther, verifKeyEvil),
		expired: nd.Bool(name + ".expired"),
	}
	c := &tokens.ClientIDClaims{CallerID: nd.Pick(name+".caller", "up=bob", "up=jill", "")}
	c.PublicKey = pk
	if nd.OneOf(name+".permissions", "set", "none") == "set" {
		c.Permissions = &tokens.ClientPermissions{
			FleetManagement:         nd.Bool(name + ".fleet"),
			SignedFleetManagement:   nd.Bool(name + ".signed"),
			AuthenticationDelegator: nd.Bool(name + ".delegator"),
			OrgAdmin:                nd.Bool(name + ".admin"),
			ServerProvisioner:       nd.Bool(name + ".provisioner"),
		}
	}
	t.client = c
	t.server = &tokens.ServerClaims{ChoriaIdentity: "n1"}
	t.server.PublicKey = pk
	return t
}

func verifMay(c *tokens.ClientIDClaims) (fleet, signed, delegator bool) {
	if c.Permissions == nil {
		return false, false, false
	}
	return c.Permissions.FleetManagement, c.Permissions.SignedFleetManagement, c.Permissions.AuthenticationDelegator
}

func verifNewSec(mode string) *ChoriaSecurity {
	s, err := New(WithLog(logrus.NewEntry(logrus.New())))
	if err != nil {
		panic(err)
	}
	switch mode {
	case "issuers":
		s.conf.Issuers = map[string]ed25519.PublicKey{"org": verifHex(verifKeyGood), "two": verifHex(verifKeyOther)}
	case "one":
		s.conf.TrustedTokenSigners = []ed25519.PublicKey{verifHex(verifKeyGood)}
	case "two":
		s.conf.TrustedTokenSigners = []ed25519.PublicKey{verifHex(verifKeyOther), verifHex(verifKeyGood)}
	}
	return s
}

// verifTrusted tells if the token is one the configuration trusts
func verifTrusted(mode string, t *verifToken) bool {
	ok := false
	switch mode {
	case "issuers":
		ok = (t.ou == "org" && t.signer == verifKeyGood) || (t.ou == "two" && t.signer == verifKeyOther)
	case "one":
		ok = t.signer == verifKeyGood
	case "two":
		ok = t.signer == verifKeyGood || t.signer == verifKeyOther
	}
	return nd.And(ok, !t.expired)
}

func verifOu(name, mode string, t *verifToken) {
	t.ou = "org"
	if mode == "issuers" {
		t.ou = nd.OneOf(name+".org", "org", "two", "unknown", "none", "number")
	}
}

//verif:harness prop=S01 reach=client,server,rejected
//verif:bounds one token of any purpose, signer, organization, expiry and permission set, with its own, no, a foreign or a damaged key, under issuers, one, two and no trusted signers; the signature made by any of five keys over the data or over other data, whole or damaged; data of up to 3 bytes
func VerifSignatureByCaller() {
	mode := nd.OneOf("trust", "issuers", "one", "two", "none")
	s := verifNewSec(mode)
	pk := nd.OneOf("key", verifKeyUser, "", verifKeyUser[:62], "zz"+verifKeyUser[:62])
	t := verifAnyToken("token", pk)
	t.purpose = tokens.Purpose(nd.OneOf("purpose", string(tokens.ClientIDPurpose), string(tokens.ServerPurpose), string(tokens.ProvisioningPurpose), string(tokens.UnknownPurpose)))
	verifOu("token", mode, t)
	tok := nd.OneOf("presented", "token", "junk", "")
	verifWorld = map[string]*verifToken{"token": t}

	dat := nd.StringOf("data", 3, "ab")
	verifSigKey = nd.Pick("sig.key", verifKeyUser, verifKeyGood, verifKeyOther, verifKeyEvil, verifKeyDeleg)
	verifSigFor = nd.StringOf("sig.data", 3, "ab")
	sig := nd.Pick("sig", verifSigBytes, "other", "")

	ok, name := s.VerifySignatureBytes([]byte(dat), []byte(sig), []byte(tok))

	fleet, signed, _ := verifMay(t.client)
	mayClient := nd.And(t.purpose == tokens.ClientIDPurpose, fleet, !signed)
	proven := nd.And(verifSigKey == verifKeyUser, verifSigFor == dat, sig == verifSigBytes, pk == verifKeyUser)
	want := nd.And(tok == "token", verifTrusted(mode, t), nd.Or(mayClient, t.purpose == tokens.ServerPurpose), proven)
	nd.Observe("ok", ok)
	nd.Assert(ok == want, "a signature was accepted without trusted proof, or refused although proven")
	if ok {
		if t.purpose == tokens.ServerPurpose {
			nd.Reach("server")
			nd.Assert(name == "n1", "the signature is attributed to another server")
		} else {
			nd.Reach("client")
			nd.Assert(name == t.client.CallerID, "the signature is attributed to another caller")
		}
	} else {
		nd.Reach("rejected")
	}
}

//verif:harness prop=S01 reach=accepted,rejected seconds=120
//verif:bounds a caller and a delegate token, each of any signer, organization, expiry and permission set and of client or other purpose, under issuers, one, two and no trusted signers; the signature made by the caller, the delegate or another key over the data or other data; tokens swapped, missing or damaged
func VerifSignatureByDelegate() {
	mode := nd.OneOf("trust", "issuers", "one", "two", "none")
	s := verifNewSec(mode)
	caller := verifAnyToken("caller", verifKeyUser)
	pk := nd.OneOf("key", verifKeyDeleg, "")
	deleg := verifAnyToken("delegate", pk)
	for _, x := range []*verifToken{caller, deleg} {
		x.purpose = tokens.ClientIDPurpose
		x.ou = "org"
	}
	switch nd.OneOf("purpose", "clients", "caller_server", "delegate_server", "delegate_other") {
	case "caller_server":
		caller.purpose = tokens.ServerPurpose
	case "delegate_server":
		deleg.purpose = tokens.ServerPurpose
	case "delegate_other":
		deleg.purpose = tokens.ProvisioningPurpose
	}
	if mode == "issuers" {
		deleg.ou = nd.OneOf("delegate.org", "org", "two", "unknown", "none")
		caller.ou = nd.OneOf("caller.org", "org", "two")
	}
	verifWorld = map[string]*verifToken{"caller": caller, "delegate": deleg}
	ct := nd.OneOf("caller.presented", "caller", "junk", "")
	dt := nd.OneOf("delegate.presented", "delegate", "junk", "")

	dat := "data"
	verifSigKey = nd.Pick("sig.key", verifKeyUser, verifKeyDeleg, verifKeyGood, verifKeyEvil)
	verifSigFor = nd.Pick("sig.data", "data", "datb")
	sig := nd.Pick("sig", verifSigBytes, "other")

	ok, name := s.VerifySignatureBytes([]byte(dat), []byte(sig), []byte(ct), []byte(dt))

	cf, cs, _ := verifMay(caller.client)
	_, _, dd := verifMay(deleg.client)
	proven := nd.And(verifSigKey == verifKeyDeleg, verifSigFor == dat, sig == verifSigBytes, pk == verifKeyDeleg)
	clients := caller.purpose == tokens.ClientIDPurpose && deleg.purpose == tokens.ClientIDPurpose
	want := nd.And(ct == "caller" && dt == "delegate" && clients, verifTrusted(mode, deleg), caller.signer == deleg.signer, !caller.expired, dd, nd.Or(cf, cs), proven)
	nd.Observe("ok", ok)
	nd.Assert(ok == want, "a delegated signature was accepted without trusted proof, or refused although proven")
	if ok {
		nd.Reach("accepted")
		nd.Assert(name == deleg.client.CallerID, "the delegated signature is attributed to another signer")
	} else {
		nd.Reach("rejected")
	}
}

//verif:harness prop=S01 reach=rejected
//verif:bounds signatures presented with no token or three tokens, all valid
func VerifSignatureTokenCount() {
	mode := nd.OneOf("trust", "issuers", "one", "two", "none")
	s := verifNewSec(mode)
	t := verifAnyToken("token", verifKeyUser)
	t.purpose = tokens.Purpose(nd.OneOf("purpose", string(tokens.ClientIDPurpose), string(tokens.ServerPurpose)))
	t.ou = "org"
	verifWorld = map[string]*verifToken{"token": t}
	verifSigKey, verifSigFor = verifKeyUser, "data"
	var pub [][]byte
	if nd.OneOf("count", "none", "three") == "three" {
		pub = [][]byte{[]byte("token"), []byte("token"), []byte("token")}
	}
	ok, name := s.VerifySignatureBytes([]byte("data"), []byte(verifSigBytes), pub...)
	nd.Reach("rejected")
	nd.Assert(!ok && name == "", "a signature was accepted with the wrong number of tokens")
}

//verif:harness prop=S03 reach=allowed,rejected
//verif:bounds any caller name of up to 4 bytes against a client, server or unparsable token of any permission set with any caller name of up to 4 bytes
func VerifCallerOwnToken() {
	s := verifNewSec("one")
	t := verifAnyToken("token", verifKeyUser)
	t.client.CallerID = nd.StringOf("token.name", 4, "a=B ")
	t.purpose = tokens.Purpose(nd.OneOf("purpose", string(tokens.ClientIDPurpose), string(tokens.ServerPurpose)))
	t.ou = "org"
	verifWorld = map[string]*verifToken{"token": t}
	tok := nd.OneOf("presented", "token", "junk", "")
	name := nd.StringOf("name", 4, "a=B ")

	priv, err := s.ShouldAllowCaller(name, []byte(tok))

	fleet, signed, _ := verifMay(t.client)
	want := nd.And(tok == "token", t.purpose == tokens.ClientIDPurpose, nd.Or(fleet, signed), nd.StrEq(name, t.client.CallerID))
	nd.Observe("allowed", err == nil)
	nd.Assert((err == nil) == want, "a caller was allowed under a name its token does not hold, or refused under its own")
	nd.Assert(!priv, "an ordinary caller was treated as privileged")
	if err == nil {
		nd.Reach("allowed")
	} else {
		nd.Reach("rejected")
	}
}

//verif:harness prop=S03 reach=allowed,rejected
//verif:bounds any of three caller names vouched for by a caller and a delegate token of any purpose and permission set, missing or damaged; and calls with no or three tokens
func VerifCallerDelegated() {
	s := verifNewSec("one")
	caller, deleg := verifAnyToken("caller", verifKeyUser), verifAnyToken("delegate", verifKeyDeleg)
	for _, x := range []struct {
		n string
		t *verifToken
	}{{"caller", caller}, {"delegate", deleg}} {
		x.t.ou = "org"
		x.t.purpose = tokens.Purpose(nd.OneOf(x.n+".purpose", string(tokens.ClientIDPurpose), string(tokens.ServerPurpose)))
	}
	verifWorld = map[string]*verifToken{"caller": caller, "delegate": deleg}
	ct := nd.OneOf("caller.presented", "caller", "junk", "")
	dt := nd.OneOf("delegate.presented", "delegate", "junk", "")
	name := nd.Pick("name", "up=bob", "up=jill", "up=joe")
	pub := [][]byte{[]byte(ct), []byte(dt)}
	count := nd.OneOf("count", "two", "none", "three")
	switch count {
	case "none":
		pub = nil
	case "three":
		pub = append(pub, []byte("delegate"))
	}

	priv, err := s.ShouldAllowCaller(name, pub...)

	cf, cs, _ := verifMay(caller.client)
	_, _, dd := verifMay(deleg.client)
	clients := caller.purpose == tokens.ClientIDPurpose && deleg.purpose == tokens.ClientIDPurpose
	want := nd.And(count == "two" && ct == "caller" && dt == "delegate" && clients, nd.Or(cf, cs), dd)
	nd.Observe("allowed", err == nil)
	nd.Assert((err == nil) == want, "a delegated caller was allowed without a delegator and fleet access, or refused with both")
	nd.Assert(priv == (err == nil), "only delegators are privileged")
	if err == nil {
		nd.Reach("allowed")
	} else {
		nd.Reach("rejected")
	}
}
