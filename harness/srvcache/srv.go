package srvcache

import (
	"errors"
	"fmt"
	"net"
	"time"

	"github.com/sirupsen/logrus"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:clock .

//verif:harness prop=K01 reach=parsed,refused,ipv6,url clock=frozen
//verif:bounds lists of one or two hosts made of any scheme, host and port of the 4, 7 and 7 given, with or without space around these, and any default scheme or none, and host names of 3 arbitrary letters
func VerifHosts() {
	def := nd.OneOf("default", "nats", "https", "")
	// a fixed host before or after the arbitrary one shows the order is kept
	pos := nd.Choice("position", 3)
	scheme := nd.OneOf("scheme", "", "nats://", "tls://", "ws://")
	host := nd.OneOf("host", "name", "10.1.2.3", "[::1]", "[fe80::1]", "::1", "", "n1.example.net")
	if host == "name" {
		b := []byte("n??x")
		for i := 1; i < 3; i++ {
			c := nd.Uint8(fmt.Sprintf("letter%d", i), '-', 'z')
			nd.Assume(nd.Or(nd.And(c >= 'a', c <= 'z'), nd.And(c >= '0', c <= '9'), c == '-', c == '.'))
			b[i] = c
		}
		host = string(b)
	}
	port := nd.OneOf("port", ":4222", ":1", ":65535", ":65536", ":-1", ":x", "")
	space := nd.OneOf("space", "", " ")
	hosts := []string{space + scheme + host + port + space}
	fixed := "fixed.example.net:4223"
	switch pos {
	case 1:
		hosts = []string{fixed, hosts[0]}
	case 2:
		hosts = append(hosts, fixed)
	}
	s, err := StringHostsToServers(hosts, def)
	nd.Observe("count", s.Count())

	valid := host != "::1" && (port == ":4222" || port == ":1" || port == ":65535") && (scheme != "" || def != "") && (pos == 0 || def != "")
	if !valid {
		nd.Assert(err != nil, "an invalid host is accepted")
		nd.Assert(s.Count() == 0, "servers are used of a list that has an invalid host")
		nd.Reach("refused")
		return
	}
	if host == "" {
		// what a host without a name means is not specified
		return
	}
	nd.Assert(err == nil, "a valid host is refused")
	nd.Assert(s.Count() == len(hosts), "hosts are lost or added")
	want := host
	if host[0] == '[' {
		want = host[1 : len(host)-1]
		nd.Reach("ipv6")
	}
	wsch := def
	if scheme != "" {
		wsch = scheme[:len(scheme)-3]
	}
	wport := map[string]uint16{":4222": 4222, ":1": 1, ":65535": 65535}[port]
	got := s.Servers()[0]
	if pos == 1 {
		nd.Assert(got.String() == def+"://"+fixed, "the order or value of hosts changes")
		got = s.Servers()[1]
	}
	if pos == 2 {
		nd.Assert(s.Servers()[1].String() == def+"://"+fixed, "the order or value of hosts changes")
	}
	nd.Assert(nd.StrEq(got.Host(), want), "another host is used than is configured")
	nd.Assert(got.Port() == wport, "another port is used than is configured")
	nd.Assert(got.Scheme() == wsch, "another scheme is used than is configured")
	nd.Assert(nd.StrEq(got.HostPort(), host+port), "the address of a host is not usable")
	nd.Assert(nd.StrEq(got.String(), wsch+"://"+host+port), "the url of a host is not usable")
	nd.Reach("parsed")
	if host[0] != 'n' || len(host) > 4 {
		u, err := got.URL()
		nd.Assert(err == nil && u.Host == host+port && u.Scheme == wsch && u.Hostname() == want, "the parsed url of a host is another one")
		nd.Reach("url")
	}
	again, err := StringHostsToServers([]string{got.String()}, "")
	nd.Assert(err == nil && again.Count() == 1, "a server cannot be parsed from its own url")
	nd.Assert(nd.StrEq(again.Servers()[0].String(), got.String()), "a server parsed from its own url is another one")
}

//verif:harness prop=K01 reach=hit,refreshed,failed,recovered clock=frozen horizon=10m
//verif:bounds 4 lookups of one of two names with 0, 2, 4 or 6 seconds between them and answers kept for 5 seconds, where any of the first 4 queries to the resolver fails and users change the servers they got
func VerifCache() {
	type answer struct {
		at time.Time
		n  int
	}
	fault := nd.Int("fault", 0, 4)
	queries, failed := 0, false
	last := map[string]answer{}
	failing := map[string]bool{}
	res := func(service string, proto string, name string) (string, []*net.SRV, error) {
		queries++
		if queries == fault {
			failed = true
			return "", nil, errors.New("simulated")
		}
		last[name] = answer{nd.Now(), queries}
		return "cname", []*net.SRV{{Target: name + ".", Port: uint16(queries)}, {Target: "b.", Port: 9}}, nil
	}
	c := New("n1", 5*time.Second, res, logrus.NewEntry(logrus.New()))
	for i := 0; i < 4; i++ {
		if i > 0 {
			time.Sleep(time.Duration(nd.Choice("gap", 4)) * 2 * time.Second)
		}
		name := nd.OneOf("name", "one", "two")
		prev, known := last[name]
		q := queries
		failed = false
		s, err := c.LookupSrvServers("", "", name, "nats")
		if failed {
			nd.Assert(err != nil && s.Count() == 0, "a failed lookup is answered")
			nd.Assert(nd.Or(!known, nd.Since(prev.at) >= 5*time.Second), "the resolver is asked for what is known")
			failing[name] = true
			nd.Reach("failed")
			continue
		}
		nd.Assert(err == nil, "a lookup fails that the resolver answered")
		if queries == q {
			nd.Assert(known && nd.Since(prev.at) <= 5*time.Second, "an answer is used for longer than it may be kept")
			nd.Reach("hit")
		} else {
			nd.Assert(queries == q+1, "the resolver is asked more than once")
			nd.Assert(nd.Or(!known, nd.Since(prev.at) >= 5*time.Second), "the resolver is asked for what is known")
			if known {
				nd.Reach("refreshed")
			}
			if failing[name] {
				nd.Reach("recovered")
			}
		}
		srvs := s.Servers()
		nd.Observe("port", int(srvs[0].Port()))
		nd.Assert(len(srvs) == 2 && srvs[0].Host() == name && int(srvs[0].Port()) == last[name].n && srvs[1].Host() == "b" && srvs[1].Port() == 9, "a lookup gives other servers than were resolved, or in another order")
		nd.Assert(srvs[0].Scheme() == "nats", "a server has another scheme")
		srvs[0].SetPort(1000)
		srvs[0].SetHost("other")
		srvs[1].SetScheme("x")
	}
}
