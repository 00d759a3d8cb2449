package server

import (
	"context"
	"encoding/json"
	"errors"
	"sync"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/build"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with config/new.go
//verif:clock . internal/util lifecycle
//verif:hours . internal/util lifecycle

type verifLFW struct {
	inter.Framework
	cfg  *config.Config
	prov bool
}

func (f *verifLFW) Configuration() *config.Config { return f.cfg }
func (f *verifLFW) Logger(string) *logrus.Entry   { return logrus.NewEntry(logrus.New()) }
func (f *verifLFW) ProvisionMode() bool           { return f.prov }
func (f *verifLFW) BuildInfo() *build.Info        { return &build.Info{} }

type verifEv struct {
	Protocol  string `json:"protocol"`
	ID        string `json:"id"`
	Identity  string `json:"identity"`
	Component string `json:"component"`
	Timestamp int64  `json:"timestamp"`
	Version   string `json:"version"`
}

type verifLConn struct {
	inter.Connector
	tries, fault int
	targets      []string
	events       []verifEv
	at           []time.Time
}

func (c *verifLConn) PublishRaw(target string, data []byte) error {
	c.tries++
	if c.tries == c.fault {
		return errors.New("simulated")
	}
	e := verifEv{}
	if json.Unmarshal(data, &e) != nil {
		nd.Assert(false, "an event is not valid")
	}
	c.targets = append(c.targets, target)
	c.events = append(c.events, e)
	c.at = append(c.at, nd.Now())
	return nil
}

//verif:harness prop=L02 reach=alive,missed,stopped,provisioning,component clock=frozen delays=0 horizon=10h maxconc=0 timers=64
//verif:bounds a server that starts, runs for 2 hours and stops, in or out of provisioning mode and with or without a component of its own, where any one of the first 6 events cannot be published or it stops while waiting for its first alive event
func VerifEvents() {
	nd.Hours()
	fw := &verifLFW{cfg: config.VerifNew()}
	fw.cfg.Identity = "n1"
	fw.cfg.Choria.LegacyLifeCycleFormat = true
	fw.prov = nd.OneOf("provisioning", "no", "yes") == "yes"
	conn := &verifLConn{fault: nd.Int("fault", 0, 6)}
	srv, err := NewInstance(fw)
	nd.Assert(err == nil, "a server could not be made")
	srv.connector = conn
	comp := "server"
	if fw.prov {
		comp = "provision_mode_server"
		nd.Reach("provisioning")
	}
	if nd.OneOf("component", "", "own") == "own" {
		srv.SetComponent("own")
		comp = "own"
		nd.Reach("component")
	}
	start := nd.Now()
	srv.publishStartupEvent()
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	go srv.publishAliveEvents(ctx, wg)
	early := nd.OneOf("stop", "early", "late") == "early"
	if early {
		nd.Sleep(20 * time.Second)
	} else {
		nd.Sleep(2*time.Hour + time.Second)
	}
	cancel()
	wg.Wait()
	n := conn.tries
	srv.publishShutdownEvent()
	nd.Assert(conn.tries == n+1, "a stop is not announced")
	nd.Sleep(time.Hour)
	nd.Assert(conn.tries == n+1, "a server that stopped is announced as alive")
	nd.Reach("stopped")

	seen := map[string]bool{}
	alive, last := 0, time.Time{}
	for i, e := range conn.events {
		nd.Assert(e.Identity == "n1" && e.Component == comp, "an event is of another server or component")
		nd.Assert(e.ID != "" && !seen[e.ID], "two events have the same id")
		seen[e.ID] = true
		nd.Assert(e.Timestamp == conn.at[i].Unix(), "an event does not tell when it happened")
		kind := ""
		switch {
		case e.Protocol == "io.choria.lifecycle.v1.startup":
			kind = "startup"
			nd.Assert(i == 0, "a start is announced again")
		case e.Protocol == "io.choria.lifecycle.v1.alive":
			kind = "alive"
			alive++
			if last.IsZero() {
				nd.Assert(nd.Implies(conn.fault == 0, nd.Since(start)-nd.Since(conn.at[i]) <= 30*time.Minute), "a server is announced too late")
			} else {
				gap := nd.Since(last) - nd.Since(conn.at[i])
				nd.Assert(gap == 30*time.Minute || (conn.fault > 0 && gap == time.Hour), "a server is not announced every 30 minutes")
			}
			last = conn.at[i]
		case e.Protocol == "io.choria.lifecycle.v1.shutdown":
			kind = "shutdown"
			nd.Assert(i == len(conn.events)-1, "a stop is announced too early")
		}
		nd.Assert(conn.targets[i] == "choria.lifecycle.event."+kind+"."+comp, "an event is published elsewhere")
		nd.Assert(e.Version == build.Version || kind == "shutdown", "an event has another version")
	}
	if conn.fault == 0 {
		nd.Assert(conn.events[0].Protocol == "io.choria.lifecycle.v1.startup", "a start is not announced")
		if !early {
			nd.Assert(alive >= 4, "a server is not announced every 30 minutes")
			nd.Reach("alive")
		}
	} else if conn.tries >= conn.fault {
		nd.Assert(len(conn.events) == conn.tries-1, "events are lost")
		nd.Reach("missed")
	}
}
