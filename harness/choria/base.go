package choria

import (
	"bytes"
	"errors"
	"fmt"
	"sync"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with config/new.go
//verif:clock . message protocol/v1 protocol/v2
//verif:override Framework.CallerID
//verif:override Framework.NewRequestID

func (fw *Framework) CallerID() string { return "up=" + fw.Config.Identity }

var verifIDs int

func (fw *Framework) NewRequestID() (string, error) {
	verifIDs++
	return fmt.Sprintf("id%030d", verifIDs), nil
}

// verifProvider is a security provider whose signature is a statement of the signed bytes
type verifProvider struct {
	inter.SecurityProvider

	tech inter.SecurityTechnology
}

func (p *verifProvider) BackingTechnology() inter.SecurityTechnology  { return p.tech }
func (p *verifProvider) CallerIdentity(caller string) (string, error) { return caller, nil }
func (p *verifProvider) SignBytes(b []byte) ([]byte, error)           { return b, nil }
func (p *verifProvider) VerifySignatureBytes(dat []byte, sig []byte, public ...[]byte) (bool, string) {
	return bytes.Equal(dat, sig), ""
}
func (p *verifProvider) ShouldAllowCaller(name string, callers ...[]byte) (bool, error) {
	if string(callers[0]) != "token of "+name {
		return false, errors.New("simulated")
	}
	return false, nil
}
func (p *verifProvider) TokenBytes() ([]byte, error)      { return []byte("token of up=client"), nil }
func (p *verifProvider) PublicCertBytes() ([]byte, error) { return []byte("token of up=client"), nil }
func (p *verifProvider) ChecksumBytes(data []byte) []byte { return data }
func (p *verifProvider) ShouldSignReplies() bool          { return true }
func (p *verifProvider) IsRemoteSigning() bool            { return false }

func verifFramework(identity string, tech inter.SecurityTechnology) *Framework {
	cfg := config.VerifNew()
	cfg.Identity = identity
	cfg.Collectives = []string{"c1", "c2"}
	cfg.TTL = 60
	cfg.MainCollective = "c1"
	return &Framework{Config: cfg, security: &verifProvider{tech: tech}, mu: &sync.Mutex{}, log: logrus.New()}
}

func verifTech() inter.SecurityTechnology {
	return inter.SecurityTechnology(nd.OneOf("protocol", "\x02", "\x01")[0])
}

func verifSameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = nd.And(r, nd.StrEq(a[i], b[i]))
	}
	return r
}

// VerifNewFramework is a framework for harnesses of other packages
func VerifNewFramework(identity string, tech inter.SecurityTechnology) *Framework {
	return verifFramework(identity, tech)
}

// VerifTech is the security technology the framework was made with
func (fw *Framework) VerifTech() inter.SecurityTechnology { return fw.security.BackingTechnology() }
