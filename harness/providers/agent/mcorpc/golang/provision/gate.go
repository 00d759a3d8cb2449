package provision

import (
	"context"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/rsa"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/choria-io/go-updater"
	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/build"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/lifecycle"
	"github.com/choria-io/go-choria/providers/agent/mcorpc"
	"github.com/choria-io/go-choria/server"
	"github.com/choria-io/go-choria/server/agents"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with config/new.go
//verif:clock .
//verif:fs . internal/util
//verif:method MustRegisterAction verifRegister
//verif:replace github.com/choria-io/go-choria/providers/agent/mcorpc.ParseRequestData verifParse
//verif:replace github.com/choria-io/go-choria/config.NewConfig verifNewConfig
//verif:replace github.com/choria-io/go-choria/choria.ECDHKeyPair verifECDH
//verif:replace github.com/choria-io/go-choria/choria.ECDHSharedSecret verifSecret
//verif:replace github.com/choria-io/go-choria/choria.Ed25519KeyPair verifEd
//verif:replace github.com/choria-io/go-choria/choria.Ed25519Sign verifEdSign
//verif:replace crypto/x509.IsEncryptedPEMBlock verifIsEncrypted
//verif:replace crypto/x509.DecryptPEMBlock verifDecrypt
//verif:replace crypto/x509.CreateCertificateRequest verifCSR
//verif:replace crypto/x509.MarshalPKCS1PrivateKey verifMarshalKey
//verif:replace crypto/x509.MarshalPKCS1PublicKey verifMarshalPub
//verif:replace crypto/rsa.GenerateKey verifRSA
//verif:replace encoding/asn1.Marshal verifASN1
//verif:replace encoding/pem.Decode verifPEM
//verif:replace path/filepath.EvalSymlinks verifEval

var (
	verifActions map[string]mcorpc.Action
	verifKeys    int
	verifUpdates int
	verifUpdErr  error
	verifEvents  []lifecycle.Type
	verifStops   []string
)

func verifRegister(a *mcorpc.Agent, name string, f mcorpc.Action) { verifActions[name] = f }

// verifParse has no validators, the requests of the agent do not use any
func verifParse(target any, req *mcorpc.Request, reply *mcorpc.Reply) bool {
	err := json.Unmarshal(req.Data, target)
	if err != nil {
		reply.Statuscode = mcorpc.InvalidData
		reply.Statusmsg = err.Error()
		return false
	}
	return true
}

// verifNewConfig parses configurations, those with a line without = are invalid
func verifNewConfig(path string) (*config.Config, error) {
	d, ok := nd.FSGet(path)
	if !ok {
		return nil, errors.New("no such file")
	}
	cfg := config.VerifNew()
	for _, l := range strings.Split(d, "\n") {
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		k, v, ok := strings.Cut(l, "=")
		if !ok || k == "broken" {
			return nil, errors.New("invalid configuration")
		}
		if k == "plugin.choria.server.provision" {
			cfg.Choria.Provision = v == "1" || v == "true"
		}
	}
	return cfg, nil
}

func verifECDH() ([]byte, []byte, error) {
	verifKeys++
	return []byte("ecdh-private"), []byte("ecdh-public"), nil
}
func verifSecret(private []byte, public []byte) ([]byte, error) {
	if string(private) != "ecdh-private" {
		return nil, errors.New("unknown key")
	}
	return []byte("shared:" + string(public)), nil
}
func verifEd() (ed25519.PublicKey, ed25519.PrivateKey, error) {
	verifKeys++
	k := []byte("0123456789abcdef0123456789abcdefpublicpublicpublicpublicpublicpu")
	return ed25519.PublicKey(k[32:]), ed25519.PrivateKey(k), nil
}
func verifEdSign(k ed25519.PrivateKey, msg []byte) ([]byte, error) {
	return []byte("sig:" + string(k[:4]) + ":" + string(msg)), nil
}

// verifPEM decodes "ENC:secret:key"
func verifPEM(data []byte) (*pem.Block, []byte) {
	if !strings.HasPrefix(string(data), "ENC:") && !strings.HasPrefix(string(data), "PLAIN:") {
		return nil, data
	}
	return &pem.Block{Type: "RSA PRIVATE KEY", Bytes: data}, nil
}
func verifIsEncrypted(b *pem.Block) bool { return strings.HasPrefix(string(b.Bytes), "ENC:") }
func verifDecrypt(b *pem.Block, password []byte) ([]byte, error) {
	s := strings.TrimPrefix(string(b.Bytes), "ENC:"+string(password)+":")
	if s == string(b.Bytes) {
		return nil, x509.IncorrectPasswordError
	}
	return []byte(s), nil
}
func verifCSR(r io.Reader, t *x509.CertificateRequest, priv any) ([]byte, error) {
	return []byte("csr"), nil
}
func verifMarshalKey(k *rsa.PrivateKey) []byte { return []byte("key") }
func verifMarshalPub(k *rsa.PublicKey) []byte  { return []byte("pub") }
func verifRSA(r io.Reader, bits int) (*rsa.PrivateKey, error) {
	verifKeys++
	return &rsa.PrivateKey{}, nil
}
func verifASN1(v any) ([]byte, error)         { return []byte("asn1"), nil }
func verifEval(path string) (string, error)   { return path, nil }
func verifUpdater(o ...updater.Option) error { verifUpdates++; return verifUpdErr }

var _ *ecdsa.PrivateKey

type verifFW struct {
	inter.Framework
	cfg  *config.Config
	prov bool
}

func (f *verifFW) Configuration() *config.Config { return f.cfg }
func (f *verifFW) ProvisionMode() bool           { return f.prov }
func (f *verifFW) SupportsProvisioning() bool    { return true }
func (f *verifFW) Certname() string              { return "n1.example.net" }

type verifSI struct{ agents.ServerInfoSource }

func (verifSI) NewEvent(t lifecycle.Type, opts ...lifecycle.Option) error {
	verifEvents = append(verifEvents, t)
	return nil
}

type verifMgr struct {
	server.AgentManager
	fw  *verifFW
	log *logrus.Entry
}

func (m *verifMgr) Choria() inter.Framework { return m.fw }
func (m *verifMgr) Logger() *logrus.Entry   { return m.log }

func verifServer(prov bool, token string) *mcorpc.Agent {
	nd.FSReset()
	l := logrus.New()
	l.Out = io.Discard
	cfg := config.VerifNew()
	cfg.ConfigFile = "/etc/choria/server.conf"
	cfg.Choria.ProvisionAllowUpdate = true
	verifActions = map[string]mcorpc.Action{}
	verifKeys, verifUpdates, verifEvents, verifStops, verifUpdErr = 0, 0, nil, nil, nil
	mu.Lock()
	build.ProvisionToken = token
	build.ProvisionJWTFile = "/etc/choria/provisioning.jwt"
	updaterf = verifUpdater
	ecdhPublic, ecdhPrivate = nil, nil
	mu.Unlock()
	lockMu.Lock()
	lockedUntil = time.Time{}
	lockedBy = ""
	lockMu.Unlock()
	SetRestartAction(func(s time.Duration, si agents.ServerInfoSource, log *logrus.Entry) {
		mu.Lock()
		verifStops = append(verifStops, "restart")
		mu.Unlock()
	})
	SetShutdownAction(func(s time.Duration, si agents.ServerInfoSource, log *logrus.Entry) {
		mu.Lock()
		verifStops = append(verifStops, "shutdown")
		mu.Unlock()
	})
	nd.FSPut("/etc/choria/provisioning.jwt", "the.jwt")
	fw := &verifFW{cfg: cfg, prov: prov}
	a, err := New(&verifMgr{fw: fw, log: logrus.NewEntry(l)})
	if err != nil {
		panic(err)
	}
	agent := a.(*mcorpc.Agent)
	agent.SetServerInfo(verifSI{})
	return agent
}

func verifCall(agent *mcorpc.Agent, action, sender, caller, data string) *mcorpc.Reply {
	reply := &mcorpc.Reply{}
	req := &mcorpc.Request{Agent: "choria_provision", Action: action, CallerID: caller, SenderID: sender, RequestID: "r1", Data: json.RawMessage(data)}
	verifActions[action](context.Background(), req, reply, agent, nil)
	return reply
}

// verifDisk is all files
func verifDisk() string {
	all := ""
	paths := nd.FSPaths("/")
	sort.Strings(paths)
	for _, p := range paths {
		d, _ := nd.FSGet(p)
		all += p + "=" + d + "\x00"
	}
	return all
}

// VerifProvisionGate calls an action that may be allowed or not
//
//verif:harness prop=T01 reach=done,mode,token,locked,restart,shutdown,config clock=frozen timers=4 delays=0
//verif:bounds every action; servers in and out of provisioning mode, with and without a token; requests with no, the right and almost the right token; a lock held by the caller, by another or that expired; updates that are allowed or not; restarts of servers whose configuration is good, broken or enables provisioning
func VerifProvisionGate() {
	prov := nd.Choice("prov", 2) == 1
	tok := nd.OneOf("token", "", "secret")
	agent := verifServer(prov, tok)
	action := nd.OneOf("action", "configure", "gen25519", "gencsr", "jwt", "release_update", "reprovision", "restart", "shutdown")
	given := nd.OneOf("given", "", "secret", "secre", "secret2", "Secret")
	conf := "loglevel=debug\nplugin.choria.server.provision=0\n"
	confOK := true
	if action == "restart" {
		switch nd.Choice("conf", 3) {
		case 1:
			conf, confOK = "broken\n", false
		case 2:
			conf, confOK = "plugin.choria.server.provision=1\n", false
		}
	}
	nd.FSPut("/etc/choria/server.conf", conf)
	update := true
	if action == "release_update" {
		update = nd.Choice("update", 2) == 1
		agent.Config.Choria.ProvisionAllowUpdate = update
	}
	lock := nd.OneOf("lock", "none", "own", "other", "sender", "expired")
	locked := false
	switch lock {
	case "own":
		ok, _ := lockFor("p1", "choria=prov")
		nd.Assert(ok, "a lock that nobody holds can be had")
	case "other":
		lockFor("p1", "choria=evil")
		locked = true
	case "sender":
		lockFor("p2", "choria=prov")
		locked = true
	case "expired":
		lockFor("p2", "choria=evil")
		lockMu.Lock()
		lockedUntil = nd.Now().Add(-time.Second)
		lockMu.Unlock()
	}
	tokenOK := tok == "" || given == tok
	want := false
	switch action {
	case "configure", "gen25519", "gencsr", "jwt":
		want = prov && tokenOK && !locked
	case "release_update":
		want = prov && tokenOK && !locked && update
	case "reprovision":
		want = !prov && tokenOK
	case "restart":
		want = (prov || tok != "") && tokenOK && confOK
	case "shutdown":
		want = (prov || tok != "") && tokenOK
	}
	before := verifDisk()
	reply := verifCall(agent, action, "p1", "choria=prov", fmt.Sprintf(`{"token":%q,"config":"{\"a\":\"b\"}","splay":%d,"version":"1.2.3","nonce":"n"}`, given, []int{0, 5, -5}[nd.Choice("splay", 3)]))
	nd.Quiesce()
	for i := 0; i < 50 && want && len(verifStops) == 0 && !nd.Symbolic() && (action == "restart" || action == "shutdown" || action == "reprovision" || action == "release_update"); i++ {
		time.Sleep(10 * time.Millisecond)
	}
	mu.Lock()
	stops := strings.Join(verifStops, ",")
	mu.Unlock()
	nd.Observe("status", int(reply.Statuscode))
	nd.Assert((reply.Statuscode == mcorpc.OK) == want, "an action is allowed when the server is in the right mode, the token is right and no other provisioner is busy, and not otherwise")
	if !want {
		nd.Assert(reply.Data == nil, "nothing is returned when an action is not allowed")
		nd.Assert(verifDisk() == before, "nothing is written when an action is not allowed")
		nd.Assert(stops == "" && verifUpdates == 0 && len(verifEvents) == 0, "the server is not changed when an action is not allowed")
		nd.Assert(verifKeys == 0, "no keys are made when an action is not allowed")
		if !tokenOK {
			nd.Reach("token")
		} else if locked {
			nd.Reach("locked")
		} else if !confOK {
			nd.Reach("config")
		} else {
			nd.Reach("mode")
		}
		return
	}
	nd.Reach("done")
	nd.Assert(reply.Data != nil, "an action that is allowed returns data")
	after := verifDisk()
	switch action {
	case "configure", "gen25519", "gencsr":
		nd.Assert(after != before && stops == "" && verifUpdates == 0, "the server is configured")
	case "jwt":
		j, ok := reply.Data.(JWTReply)
		nd.Assert(ok && j.JWT == "the.jwt" && j.ECDHPublic == hex.EncodeToString([]byte("ecdh-public")), "the provisioning token and a new public key are returned")
		nd.Assert(after == before, "the disk is not changed")
	case "release_update":
		nd.Assert(verifUpdates == 1 && stops == "restart" && after == before, "the server is updated and restarted once")
	case "reprovision":
		c, _ := nd.FSGet("/etc/choria/server.conf")
		nd.Assert(strings.Contains(c, "\nplugin.choria.server.provision=1\n"), "the configuration enables provisioning")
		nd.Assert(stops == "restart", "the server is restarted once")
	case "restart":
		nd.Reach("restart")
		nd.Assert(stops == "restart" && after == before, "the server is restarted once")
	case "shutdown":
		nd.Reach("shutdown")
		nd.Assert(stops == "shutdown" && after == before, "the server is shut down once")
	}
}

// VerifProvisionLock has provisioners take turns
//
//verif:harness prop=T01 reach=held,extended,expired,refused clock=frozen delays=0
//verif:bounds 3 (thorough: 4) attempts by 3 provisioners that differ in sender or caller, any time up to 5 minutes apart
func VerifProvisionLock() {
	verifServer(true, "")
	who := [][2]string{{"p1", "choria=a"}, {"p2", "choria=a"}, {"p1", "choria=b"}}
	now := nd.Now()
	holder := -1
	var until time.Time
	n := 3
	if nd.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		w := nd.Choice("who", 3)
		d := time.Duration(nd.Int64("wait", 0, int64(5*time.Minute)))
		now = now.Add(d)
		// time passes for the lock
		free := true
		if holder != -1 {
			lockMu.Lock()
			lockedUntil = lockedUntil.Add(-d)
			lockMu.Unlock()
			left := until.Sub(now)
			if !nd.Symbolic() && left > -2*time.Second && left < 2*time.Second {
				return // real clocks move on
			}
			free = left <= 0
		}
		got, _ := lockFor(who[w][0], who[w][1])
		if holder != -1 && free {
			nd.Reach("expired")
		}
		nd.Assert(got == (free || holder == w), "the lock is had by one provisioner until it was not used for the time of the lock")
		if got {
			if holder == w && !free {
				nd.Reach("extended")
			}
			holder, until = w, now.Add(LockWindow)
			nd.Reach("held")
		} else {
			nd.Reach("refused")
		}
	}
}

// VerifProvisionConfigure configures a server
//
//verif:harness prop=T02 reach=done,keyed,broken,fault,badkey,badext clock=frozen delays=0
//verif:bounds configurations with 1 and 2 settings that are good, broken or not JSON, TLS data that is complete, lacks parts or has a key encrypted for this or another server or not at all, policies of both kinds with right and wrong names that replace others, server tokens; one write that fails
func VerifProvisionConfigure() {
	agent := verifServer(true, "")
	nd.FSPut("/etc/choria/server.conf", "old=1\n")
	nd.FSPut("/etc/choria/policies/old.policy", "old")
	nd.FSPut("/etc/choria/policies/rego/old.rego", "old")
	nd.FSPut("/etc/choria/ssl/csr.pem", "csr")
	r := verifCall(agent, "jwt", "p1", "choria=prov", `{}`)
	nd.Assert(r.Statuscode == mcorpc.OK, "keys are exchanged")

	req := map[string]any{}
	conf := nd.OneOf("config", `{"a":"b"}`, `{"a":"b","plugin.x":"1 = 2"}`, `{"broken":"1"}`, `{"a":`, "")
	req["config"] = conf
	confOK := conf == `{"a":"b"}` || conf == `{"a":"b","plugin.x":"1 = 2"}`
	key := nd.OneOf("key", "none", "good", "other", "plain", "nopub", "junk")
	hasTLS := key != "none" || nd.Choice("cert", 2) == 1
	if hasTLS {
		req["certificate"], req["ca"], req["ssldir"] = "CERT", "CA", "/etc/choria/ssl"
	}
	pub := hex.EncodeToString([]byte("theirs"))
	switch key {
	case "good":
		req["key"], req["ecdh_public"] = "ENC:shared:theirs:KEY", pub
	case "other":
		req["key"], req["ecdh_public"] = "ENC:shared:others:KEY", pub
	case "plain":
		req["key"], req["ecdh_public"] = "PLAIN:KEY", pub
	case "nopub":
		req["key"] = "ENC:shared:theirs:KEY"
	case "junk":
		req["key"], req["ecdh_public"] = "KEY", pub
	}
	keyOK := key == "none" || key == "good"
	jwt := nd.Choice("jwt", 2) == 1
	if jwt {
		req["server_jwt"] = "server.token"
	}
	pol := nd.OneOf("policies", "none", "action", "opa", "both", "badaction", "badopa")
	polOK := true
	switch pol {
	case "action":
		req["action_policies"] = map[string]string{"x.policy": "policy x", "y.policy": ""}
	case "opa":
		req["opa_policies"] = map[string]string{"x.rego": "rego x"}
	case "both":
		req["action_policies"] = map[string]string{"x.policy": "policy x"}
		req["opa_policies"] = map[string]string{"x.rego": "rego x"}
	case "badaction":
		req["action_policies"], polOK = map[string]string{"x.rego": "policy x"}, false
	case "badopa":
		req["opa_policies"], polOK = map[string]string{"x.policy": "rego x"}, false
	}
	faults := 0
	if confOK && keyOK && polOK {
		nth := nd.Choice("fault", 4)
		n := 0
		nd.FSFaults(func(op, path string) error {
			if op != "write" && op != "rename" {
				return nil
			}
			n++
			if n == nth {
				faults++
				return errors.New("simulated")
			}
			return nil
		})
	}
	j, _ := json.Marshal(req)
	reply := verifCall(agent, "configure", "p1", "choria=prov", string(j))
	nd.FSFaults(nil)
	nd.Observe("status", int(reply.Statuscode))
	got, _ := nd.FSGet("/etc/choria/server.conf")
	ok := reply.Statuscode == mcorpc.OK
	nd.Assert(!ok || len(verifEvents) == 1 && verifEvents[0] == lifecycle.Provisioned, "that the server was provisioned is announced")
	nd.Assert(ok || len(verifEvents) == 0, "that the server was provisioned is announced only when it was")
	if !confOK || !keyOK {
		nd.Assert(!ok && got == "old=1\n", "a faulty configuration or key is not accepted and leaves the configuration as it was")
		_, has := nd.FSGet("/etc/choria/ssl/private.pem")
		nd.Assert(!has || keyOK, "a key that was not encrypted for this server is not stored")
		if !keyOK {
			nd.Reach("badkey")
		} else {
			nd.Reach("broken")
		}
		return
	}
	lines := map[string]bool{}
	n := 0
	for _, l := range strings.Split(got, "\n") {
		if l != "" && !strings.HasPrefix(l, "#") {
			lines[l] = true
			n++
		}
	}
	whole := lines["a=b"] && (n == 1 && conf == `{"a":"b"}` || n == 2 && lines["plugin.x=1 = 2"])
	nd.Assert(whole || got == "old=1\n", "the configuration is the previous or the new one, complete")
	for _, p := range nd.FSPaths("/etc/choria/") {
		nd.Assert(!strings.HasPrefix(p, "/etc/choria/provision") || p == "/etc/choria/provisioning.jwt", "no temporary files are left")
	}
	if !polOK {
		nd.Reach("badext")
		nd.Assert(!ok, "policies that will not be used are not accepted")
		old, _ := nd.FSGet("/etc/choria/policies/old.policy")
		nd.Assert(old == "old", "policies that will not be used leave those that are")
		return
	}
	if faults > 0 {
		nd.Reach("fault")
		nd.Assert(!ok, "what could not be written is not reported as configured")
		return
	}
	nd.Assert(ok && whole, "the configuration is written")
	nd.Reach("done")
	if hasTLS {
		c, _ := nd.FSGet("/etc/choria/ssl/certificate.pem")
		ca, _ := nd.FSGet("/etc/choria/ssl/ca.pem")
		nd.Assert(c == "CERT" && ca == "CA", "the certificates are written")
	}
	priv, has := nd.FSGet("/etc/choria/ssl/private.pem")
	_, csr := nd.FSGet("/etc/choria/ssl/csr.pem")
	if key == "good" {
		nd.Reach("keyed")
		b, _ := pem.Decode([]byte(priv))
		nd.Assert(has && b != nil && string(b.Bytes) == "KEY", "the private key is decrypted and written")
		nd.Assert(!csr, "the request for a certificate of another key is removed")
	} else {
		nd.Assert(!has && csr, "no key is written when none was given")
	}
	tok, has := nd.FSGet("/etc/choria/server.jwt")
	nd.Assert(has == jwt && (!jwt || tok == "server.token"), "the token of the server is written")
	x, _ := nd.FSGet("/etc/choria/policies/x.policy")
	_, oldp := nd.FSGet("/etc/choria/policies/old.policy")
	rx, _ := nd.FSGet("/etc/choria/policies/rego/x.rego")
	_, oldr := nd.FSGet("/etc/choria/policies/rego/old.rego")
	if pol == "action" || pol == "both" {
		nd.Assert(x == "policy x" && !oldp, "the action policies are those given")
	} else {
		nd.Assert(oldp, "action policies stay when none are given")
	}
	if pol == "opa" || pol == "both" {
		nd.Assert(rx == "rego x" && !oldr, "the Open Policy Agent policies are those given")
	} else if pol == "none" {
		nd.Assert(oldr, "Open Policy Agent policies stay when none are given")
	}
}

// VerifProvisionSeed makes new keys
//
//verif:harness prop=T02 reach=done,stale,fault clock=frozen delays=0
//verif:bounds with and without a previous seed and token, one file operation that fails
func VerifProvisionSeed() {
	agent := verifServer(true, "")
	nd.FSPut("/etc/choria/server.conf", "old=1\n")
	stale := nd.Choice("stale", 2) == 1
	if stale {
		nd.Reach("stale")
		nd.FSPut("/etc/choria/server.seed", "oldseed")
		nd.FSPut("/etc/choria/server.jwt", "oldtoken")
	}
	fault := nd.OneOf("fault", "none", "remove", "write")
	nd.FSFaults(func(op, path string) error {
		if op == fault || fault == "write" && op == "open" && strings.HasSuffix(path, ".seed") {
			return errors.New("simulated")
		}
		return nil
	})
	reply := verifCall(agent, "gen25519", "p1", "choria=prov", `{"nonce":"abc"}`)
	nd.FSFaults(nil)
	seed, _ := nd.FSGet("/etc/choria/server.seed")
	_, tok := nd.FSGet("/etc/choria/server.jwt")
	want := hex.EncodeToString([]byte("0123456789abcdef0123456789abcdef"))
	nd.Assert(!(tok && seed == want), "a token is never left with a seed it was not made for")
	if fault != "none" && (fault == "write" || stale) {
		nd.Reach("fault")
		nd.Assert(reply.Statuscode != mcorpc.OK && reply.Data == nil, "keys that were not stored are not returned")
		return
	}
	nd.Reach("done")
	nd.Assert(reply.Statuscode == mcorpc.OK && seed == want && !tok, "the seed is stored")
	r, ok := reply.Data.(*ED25519Reply)
	nd.Assert(ok && r.PublicKey == hex.EncodeToString([]byte("publicpublicpublicpublicpublicpu")), "the public key of the stored seed is returned")
	if ok {
		nd.Assert(r.Signature == hex.EncodeToString([]byte("sig:0123:abc")) && r.Directory == "/etc/choria", "the nonce is signed with the key")
	}
}
