package filesec

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/pem"
	"errors"
	"io"
	"math/big"
	"strings"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/tlssetup"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:fs . internal/util
//verif:replace encoding/pem.Decode verifPEM
//verif:replace crypto/x509.ParseCertificate verifParse
//verif:replace crypto/x509.NewCertPool verifPool
//verif:replace crypto/rsa.VerifyPKCS1v15 verifPKCS
//verif:replace crypto/tls.LoadX509KeyPair verifPair
//verif:method AppendCertsFromPEM verifAppend
//verif:method AddCert verifAdd
//verif:method Verify verifVerify

// verifCert is what is known of a certificate
type verifCert struct {
	cert   *x509.Certificate
	issuer string // the CA that made it
	valid  bool   // it is valid and for clients
}

var (
	verifCerts map[string]*verifCert
	verifPools map[*x509.CertPool]string
)

func verifPEM(data []byte) (*pem.Block, []byte) {
	s := string(data)
	if !strings.HasPrefix(s, "PEM:") {
		return nil, data
	}
	return &pem.Block{Type: "CERTIFICATE", Bytes: data[4:]}, nil
}
func verifParse(der []byte) (*x509.Certificate, error) {
	c := verifCerts[string(der)]
	if c == nil {
		return nil, errors.New("malformed certificate")
	}
	return c.cert, nil
}
func verifPool() *x509.CertPool {
	p := x509.NewCertPool()
	verifPools[p] = ""
	return p
}
func verifAppend(p *x509.CertPool, data []byte) bool {
	if !strings.HasPrefix(string(data), "PEM:") {
		return false
	}
	verifPools[p] += "," + string(data[4:])
	return true
}
func verifAdd(p *x509.CertPool, c *x509.Certificate) {
	for n, k := range verifCerts {
		if k.cert == c {
			verifPools[p] += "," + n
		}
	}
}

// verifVerify is the verification of a certificate by the standard library
func verifVerify(c *x509.Certificate, opts x509.VerifyOptions) ([][]*x509.Certificate, error) {
	for _, k := range verifCerts {
		if k.cert != c {
			continue
		}
		if opts.Roots == nil || !strings.Contains(verifPools[opts.Roots]+",", ","+k.issuer+",") {
			return nil, x509.UnknownAuthorityError{Cert: c}
		}
		client := len(opts.KeyUsages) == 1 && opts.KeyUsages[0] == x509.ExtKeyUsageClientAuth
		if client && !k.valid {
			return nil, x509.CertificateInvalidError{Cert: c, Reason: x509.IncompatibleUsage}
		}
		if opts.DNSName != "" {
			ok := false
			for _, n := range c.DNSNames {
				ok = nd.Or(ok, nd.StrEq(n, opts.DNSName))
			}
			if !ok {
				return nil, errors.New("the name is not in the certificate")
			}
		}
		return [][]*x509.Certificate{{c}}, nil
	}
	return nil, errors.New("not parsed")
}

// verifPKCS accepts "sig:modulus:hash"
func verifPKCS(pub *rsa.PublicKey, h crypto.Hash, hashed []byte, sig []byte) error {
	if h != crypto.SHA256 || pub.E != verifSigner || string(sig) != "sig:"+string(hashed) {
		return rsa.ErrVerification
	}
	return nil
}

var verifSigner int

func verifPair(pub, pri string) (tls.Certificate, error) {
	return tls.Certificate{Certificate: [][]byte{[]byte("own")}}, nil
}

func verifProv(conf *Config) *FileSecurity {
	nd.FSReset()
	verifCerts = map[string]*verifCert{}
	verifPools = map[*x509.CertPool]string{}
	l := logrus.New()
	l.Out = io.Discard
	conf.CA = "/ssl/ca.pem"
	conf.Certificate = "/ssl/cert.pem"
	conf.Key = "/ssl/key.pem"
	if conf.Identity == "" {
		conf.Identity = "me"
	}
	nd.FSPut("/ssl/ca.pem", "PEM:ca")
	nd.FSPut("/ssl/cert.pem", "PEM:own")
	nd.FSPut("/ssl/key.pem", "PEM:ownkey")
	verifCerts["own"] = &verifCert{cert: verifMake("me", nil, nil), issuer: "ca", valid: true}
	p, err := New(WithConfig(conf), WithLog(logrus.NewEntry(l)))
	if err != nil {
		panic(err)
	}
	return p
}

func verifMake(cn string, dns []string, email []string) *x509.Certificate {
	c := &x509.Certificate{Subject: pkix.Name{CommonName: cn}, DNSNames: dns, EmailAddresses: email, PublicKey: &rsa.PublicKey{N: big.NewInt(1), E: 3}}
	if len(dns)+len(email) > 0 {
		c.Extensions = []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 17}}}
	}
	return c
}

// VerifFileCaller decides if a certificate may be used as a caller
//
//verif:harness prop=S04 reach=allowed,privileged,email,wrongname,notlisted,otherca,junk,badca,nocert
//verif:bounds caller names, common names and alternative names of up to 2 characters, email addresses that match or not, certificates of this and another CA, expired ones, ones that cannot be parsed, none and two; CA files that are good, unusable, broken and missing; lists of privileged and allowed callers that are empty, simple, anchored, between slashes and broken
func VerifFileCaller() {
	lists := [][]string{{}, {"^a"}, {"/b$/", "("}, {"."}}
	conf := &Config{PrivilegedUsers: lists[nd.Choice("privileged", 3)], AllowList: lists[nd.Choice("allowed", 4)]}
	p := verifProv(conf)
	in := func(s string, l []string) bool {
		r := false
		for _, e := range l {
			switch e {
			case "^a":
				r = nd.Or(r, nd.And(len(s) > 0, nd.ByteAt(s, 0) == 'a'))
			case "/b$/":
				r = nd.Or(r, nd.And(len(s) > 0, nd.ByteAt(s, len(s)-1) == 'b'))
			case ".":
				r = nd.Or(r, len(s) > 0)
			}
		}
		return r
	}
	caOK := true
	switch nd.OneOf("ca", "good", "other", "broken", "missing") {
	case "other":
		nd.FSPut("/ssl/ca.pem", "PEM:ca2")
		caOK = false
	case "broken":
		nd.FSPut("/ssl/ca.pem", "junk")
		caOK = false
		nd.Reach("badca")
	case "missing":
		nd.FSRemove("/ssl/ca.pem")
		caOK = false
	}
	name := nd.StringOf("name", 2, "ab")
	cn := nd.StringOf("cn", 2, "ab")
	var dns, email []string
	names := []string{cn}
	match := nd.StrEq(cn, name)
	switch nd.OneOf("san", "none", "dns", "email", "otheremail") {
	case "dns":
		n := nd.StringOf("dns", 2, "ab")
		dns = []string{"c", n}
		names = append(names, "c", n)
		match = nd.Or(match, nd.StrEq(n, name))
	case "email":
		nd.Reach("email")
		email = []string{"x@y", "a@b"}
		name = "email:a@b"
		match = true
	case "otheremail":
		email = []string{"x@y", "a@bc"}
		name = "email:a@b"
		match = false
	}
	c := &verifCert{cert: verifMake(cn, dns, email), issuer: "ca", valid: true}
	data := [][]byte{[]byte("PEM:peer")}
	certOK := true
	switch nd.OneOf("cert", "good", "otherca", "invalid", "junk", "unparsable", "empty", "none", "two") {
	case "otherca":
		nd.Reach("otherca")
		c.issuer, certOK = "ca3", false
	case "invalid":
		c.valid, certOK = false, false
	case "junk":
		nd.Reach("junk")
		data[0], certOK = []byte("junk"), false
	case "unparsable":
		data[0], certOK = []byte("PEM:unknown"), false
	case "empty":
		nd.Reach("nocert")
		data[0], certOK = nil, false
	case "none":
		data, certOK = nil, false
	case "two":
		data, certOK = append(data, []byte("PEM:own")), false
	}
	verifCerts["peer"] = c
	priv := false
	for _, n := range names {
		priv = nd.Or(priv, in(n, conf.PrivilegedUsers))
	}
	wantPriv := nd.And(caOK, certOK, priv)
	want := nd.Or(wantPriv, nd.And(caOK, certOK, match, nd.Or(in(name, conf.AllowList), false)))
	got, err := p.ShouldAllowCaller(name, data...)
	nd.Observe("allowed", err == nil)
	nd.Observe("privileged", got)
	nd.Assert((err == nil) == want, "a caller is allowed when its certificate is of the CA and privileged or has the name, which is on the list, and not otherwise")
	nd.Assert(err != nil || got == wantPriv, "a caller is privileged when its certificate has a privileged name")
	if err == nil {
		nd.Reach("allowed")
		if got {
			nd.Reach("privileged")
		}
		return
	}
	if caOK && certOK {
		if match {
			nd.Reach("notlisted")
		} else {
			nd.Reach("wrongname")
		}
	}
}

// VerifFileSignature verifies signatures
//
//verif:harness prop=S04 reach=verified,refused,kind,own
//verif:bounds certificates with RSA, ECDSA and Ed25519 keys, the one of this node and ones that cannot be used; signatures made by the key of the certificate or another over the data or other data
func VerifFileSignature() {
	p := verifProv(&Config{})
	c := &verifCert{cert: verifMake("bob", nil, nil), issuer: "ca", valid: true}
	verifCerts["peer"] = c
	verifCerts["own"].cert.PublicKey = &rsa.PublicKey{N: big.NewInt(1), E: 7}
	kind := nd.OneOf("key", "rsa", "ecdsa", "ed25519")
	switch kind {
	case "rsa":
		c.cert.PublicKey = &rsa.PublicKey{N: big.NewInt(1), E: 5}
	case "ecdsa":
		c.cert.PublicKey = &ecdsa.PublicKey{}
	case "ed25519":
		c.cert.PublicKey = ed25519.PublicKey("x")
	}
	verifSigner = []int{3, 5, 7}[nd.Choice("signer", 3)]
	public := [][]byte{[]byte("PEM:peer")}
	want := kind == "rsa" && verifSigner == 5
	signer := "bob"
	switch nd.OneOf("public", "cert", "own", "junk", "unparsable", "two", "none") {
	case "own":
		public[0] = nil
		want, signer = verifSigner == 7, "me"
	case "junk":
		public[0], want = []byte("junk"), false
	case "unparsable":
		public[0], want = []byte("PEM:zz"), false
	case "two":
		public, want = append(public, []byte("PEM:peer")), false
	case "none":
		public, want = nil, false
	}
	signed := nd.OneOf("signed", "data", "dat", "")
	sig := append([]byte("sig:"), p.ChecksumBytes([]byte(signed))...)
	want = want && signed == "data"
	ok, who := p.VerifySignatureBytes([]byte("data"), sig, public...)
	nd.Observe("ok", ok)
	nd.Assert(ok == want, "a signature is accepted when it was made over the data by the key of the certificate, and not otherwise")
	if kind != "rsa" {
		nd.Reach("kind")
	}
	if ok {
		nd.Reach("verified")
		nd.Assert(who == signer, "the signer is the one named in the certificate")
		if signer == "me" {
			nd.Reach("own")
		}
	} else {
		nd.Reach("refused")
		nd.Assert(who == "", "there is no signer when the signature is not accepted")
	}
}

// VerifFileTLS makes TLS configurations
//
//verif:harness prop=S04 reach=verifies,disabled,legacy,accepted,denied
//verif:bounds with and without verification and legacy support; peers with certificates of this and another CA with and without alternative names, server names that are the same, differ in case or are others
func VerifFileTLS() {
	disable := nd.Choice("disable", 2) == 1
	legacy := nd.Choice("legacy", 2) == 1
	p := verifProv(&Config{DisableTLSVerify: disable, BackwardCompatVerification: legacy, TLSConfig: tlssetup.TLSConfig(nil)})
	tc, err := p.TLSConfig()
	nd.Assert(err == nil && tc != nil, "there is a configuration")
	nd.Assert(tc.InsecureSkipVerify == disable && tc.VerifyConnection == nil, "peers are verified unless that is disabled")
	nd.Assert(tc.RootCAs != nil && verifPools[tc.RootCAs] == ",ca" && tc.ClientCAs != nil && verifPools[tc.ClientCAs] == ",ca", "peers are verified using the CA")
	nd.Assert(len(tc.Certificates) == 1 && tc.Certificates[0].Leaf == verifCerts["own"].cert, "the certificate of the node is used")
	nd.Assert(tc.MinVersion >= tls.VersionTLS12, "old protocols are not used")
	ct, err := p.ClientTLSConfig()
	nd.Assert(err == nil && ct != nil && ct.RootCAs != nil && verifPools[ct.RootCAs] == ",ca", "clients use the CA")
	if !legacy {
		nd.Assert(ct.InsecureSkipVerify == disable, "clients verify peers unless that is disabled")
		if disable {
			nd.Reach("disabled")
		} else {
			nd.Reach("verifies")
		}
		return
	}
	nd.Reach("legacy")
	nd.Assert(ct.VerifyConnection != nil, "legacy certificates are verified")
	if ct.VerifyConnection == nil {
		return
	}
	cn := nd.OneOf("cn", "n1", "N1", "n2")
	var dns []string
	san := nd.OneOf("san", "none", "n1", "n2")
	if san != "none" {
		dns = []string{san}
	}
	issuer := nd.OneOf("issuer", "ca", "ca2", "mid")
	verifCerts["peer"] = &verifCert{cert: verifMake(cn, dns, nil), issuer: issuer, valid: true}
	verr := ct.VerifyConnection(tls.ConnectionState{ServerName: "n1", PeerCertificates: []*x509.Certificate{verifCerts["peer"].cert, verifMake("mid", nil, nil)}})
	want := issuer == "ca" && (san == "n1" || san == "none" && cn != "n2")
	nd.Observe("ok", verr == nil)
	nd.Assert((verr == nil) == want, "a peer is accepted when its certificate is of the CA and has the name of the server, in the common name only when it has no alternative names")
	if verr == nil {
		nd.Reach("accepted")
	} else {
		nd.Reach("denied")
	}
}
