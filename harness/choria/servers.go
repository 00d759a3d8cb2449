package choria

import (
	"errors"
	"net"
	"os"
	"strings"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/srvcache"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with config/new.go
//verif:clock . srvcache
//verif:override Framework.FacterDomain

var verifDomainFails bool

func (fw *Framework) FacterDomain() (string, error) {
	if verifDomainFails {
		return "", errors.New("simulated")
	}
	return "facts.net", nil
}

// verifDNS is a framework with a resolver that knows any subset of names
func verifDNS(names ...string) (fw *Framework, dns map[string]bool, enabled bool, broken bool) {
	cfg := config.VerifNew()
	cfg.Choria.UseSRVRecords = nd.OneOf("srv", "enabled", "disabled") == "enabled"
	cfg.Choria.SRVDomain = nd.OneOf("domain", "", "conf.net")
	cfg.Choria.MiddlewareHosts = nil
	verifDomainFails = false
	domain := "conf.net"
	if cfg.Choria.SRVDomain == "" {
		domain = "facts.net"
		verifDomainFails = nd.OneOf("facter", "works", "fails") == "fails"
	}
	dns = map[string]bool{}
	for _, n := range names {
		if cfg.Choria.UseSRVRecords && !verifDomainFails {
			dns[n] = nd.OneOf(n, "unknown", "known") == "known"
		}
	}
	res := func(service string, proto string, name string) (string, []*net.SRV, error) {
		n, ok := strings.CutSuffix(name, "."+domain)
		if !ok {
			nd.Assert(false, "a lookup is done in another domain")
		}
		nd.Assert(cfg.Choria.UseSRVRecords, "a lookup is done while these are disabled")
		if !dns[n] {
			return "", nil, errors.New("no such host")
		}
		return "", []*net.SRV{{Target: n + "-1.", Port: 1}, {Target: n + "-2.", Port: 2}}, nil
	}
	l := logrus.New()
	fw = &Framework{Config: cfg, log: l, srvcache: srvcache.New("n1", 5*time.Second, res, logrus.NewEntry(l))}
	return fw, dns, cfg.Choria.UseSRVRecords, verifDomainFails && cfg.Choria.UseSRVRecords
}

func verifSrv(scheme string, name string) []string {
	return []string{scheme + "://" + name + "-1:1", scheme + "://" + name + "-2:2"}
}

func verifSame(a, b []string) bool { return strings.Join(a, ",") == strings.Join(b, ",") }

//verif:harness prop=K01 reach=configured,srv,default,federated,none,invalid
//verif:bounds every combination of configured brokers (none, two, one invalid), configured federation brokers, federation collectives in the configuration or environment, SRV lookups enabled or not with a configured, found or failing domain, and which of the 4 names resolve
func VerifBrokers() {
	local, local2 := "_mcollective-server._tcp", "_x-puppet-mcollective._tcp"
	fed, fed2 := "_mcollective-federation_server._tcp", "_x-puppet-mcollective_federation._tcp"
	fw, dns, enabled, broken := verifDNS(local, local2, fed, fed2)
	choose := func(n string) []string {
		switch nd.OneOf(n, "none", "two", "invalid") {
		case "two":
			return []string{n + "1:4222", "tls://" + n + "2:4223"}
		case "invalid":
			return []string{n + "1:4222", n + "2"}
		}
		return nil
	}
	fw.Config.Choria.MiddlewareHosts = choose("local")
	fw.Config.Choria.FederationMiddlewareHosts = choose("federated")
	collectives := nd.OneOf("collectives", "none", "config", "env")
	os.Setenv("CHORIA_FED_COLLECTIVE", "")
	switch collectives {
	case "config":
		fw.Config.Choria.FederationCollectives = []string{"c1", " c2 "}
	case "env":
		os.Setenv("CHORIA_FED_COLLECTIVE", "c1, c2")
		fw.Config.Choria.FederationCollectives = nil
	default:
		fw.Config.Choria.FederationCollectives = nil
	}
	if collectives != "none" {
		nd.Assert(fw.IsFederated() && verifSame(fw.FederationCollectives(), []string{"c1", "c2"}), "the federated collectives are other ones")
	} else {
		nd.Assert(!fw.IsFederated(), "a network that is not federated is")
	}

	s, err := fw.MiddlewareServers()
	nd.Observe("brokers", strings.Join(s.Strings(), ","))

	hosts, name, names := fw.Config.Choria.MiddlewareHosts, "local", []string{local, local2}
	if collectives != "none" {
		hosts, name, names = fw.Config.Choria.FederationMiddlewareHosts, "federated", []string{fed, fed2}
	}
	var want []string
	switch {
	case len(hosts) == 2 && hosts[1] == name+"2":
		nd.Assert(err != nil && s.Count() == 0, "invalid brokers are used")
		nd.Reach("invalid")
		return
	case len(hosts) == 2:
		want = []string{"nats://" + name + "1:4222", "tls://" + name + "2:4223"}
		nd.Reach("configured")
	case dns[names[0]]:
		want = verifSrv("nats", names[0])
		nd.Reach("srv")
	case dns[names[1]]:
		want = verifSrv("nats", names[1])
	case collectives != "none":
		nd.Assert((err != nil) == (!enabled || broken), "federated brokers that are not known are not an error, or ones that cannot be found are")
		nd.Assert(s.Count() == 0, "other brokers are used in a federated network")
		nd.Reach("none")
		return
	default:
		want = []string{"nats://puppet:4222"}
		nd.Reach("default")
	}
	nd.Assert(err == nil, "brokers are not found")
	nd.Assert(verifSame(s.Strings(), want), "other brokers are used than were configured or are in DNS")
	if collectives != "none" {
		nd.Reach("federated")
	}
}

//verif:harness prop=K01 reach=configured,db,puppet,default,error
//verif:bounds a PuppetDB host that is configured or not, any port of 1 to 65535, SRV lookups enabled or not with a configured, found or failing domain, and which of the 2 names resolve
func VerifPuppetDB() {
	db, puppet := "_x-puppet-db._tcp", "_x-puppet._tcp"
	fw, dns, _, broken := verifDNS(db, puppet)
	port := nd.OneOf("port", "1", "8081", "65535")
	fw.Config.Choria.PuppetDBPort = map[string]int{"1": 1, "8081": 8081, "65535": 65535}[port]
	fw.Config.Choria.PuppetDBHost = nd.OneOf("host", "", "db.net")
	s, err := fw.PuppetDBServers()
	if err == nil {
		nd.Observe("puppetdb", strings.Join(s.Strings(), ","))
	}
	want := []string{"https://puppet:" + port}
	switch {
	case fw.Config.Choria.PuppetDBHost != "":
		want = []string{"https://db.net:" + port}
		nd.Reach("configured")
	case broken:
		nd.Assert(err != nil, "a PuppetDB is used while its domain is not known")
		nd.Reach("error")
		return
	case dns[db]:
		want = verifSrv("https", db)
		nd.Reach("db")
	case dns[puppet]:
		want = []string{"https://" + puppet + "-1:" + port, "https://" + puppet + "-2:" + port}
		nd.Reach("puppet")
	default:
		nd.Reach("default")
	}
	nd.Assert(err == nil && verifSame(s.Strings(), want), "another PuppetDB is used than was configured or is in DNS")
}

//verif:harness prop=K01 reach=peers,configured,none,invalid,found,default
//verif:bounds broker peers that are configured or not or not valid, two names to try with a default, SRV lookups enabled or not with a configured, found or failing domain, and which of the 3 names resolve
func VerifPeers() {
	fw, dns, _, _ := verifDNS("_mcollective-broker._tcp", "_a._tcp", "_b._tcp")
	def := srvcache.NewServer("default", 7, "x")
	got, err := fw.TrySrvLookup([]string{"_a._tcp", "_b._tcp"}, def)
	nd.Assert(err == nil, "a lookup with a default fails")
	switch {
	case dns["_a._tcp"]:
		nd.Assert(got.HostPort() == "_a._tcp-1:1", "another server is used than is in DNS")
		nd.Reach("found")
	case dns["_b._tcp"]:
		nd.Assert(got.HostPort() == "_b._tcp-1:1", "another server is used than is in DNS")
	default:
		nd.Assert(got == def, "another server is used than the default")
		nd.Reach("default")
	}

	peers := nd.OneOf("peers", "none", "two", "invalid")
	switch peers {
	case "none":
		fw.Config.Choria.NetworkPeers = nil
	case "two":
		fw.Config.Choria.NetworkPeers = []string{"nats://p1:5222", "p2:5223"}
	default:
		fw.Config.Choria.NetworkPeers = []string{"p1"}
	}
	s, err := fw.NetworkBrokerPeers()
	nd.Observe("peers", strings.Join(s.Strings(), ","))
	switch {
	case dns["_mcollective-broker._tcp"]:
		nd.Assert(err == nil && verifSame(s.Strings(), verifSrv("nats", "_mcollective-broker._tcp")), "other peers are used than are in DNS")
		nd.Reach("peers")
	case peers == "two":
		nd.Assert(err == nil && verifSame(s.Strings(), []string{"nats://p1:5222", "nats://p2:5223"}), "other peers are used than are configured")
		nd.Reach("configured")
	case peers == "none":
		nd.Assert(err == nil && s.Count() == 0, "peers are used that are not configured")
		nd.Reach("none")
	default:
		nd.Assert(err != nil && s.Count() == 0, "invalid peers are used")
		nd.Reach("invalid")
	}
}
