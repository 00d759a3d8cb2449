package server

import (
	"context"
	"errors"
	"sync"
	"time"

	"crypto/x509"

	"github.com/prometheus/client_golang/prometheus"
	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/statistics"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with config/new.go
//verif:clock . statistics
//verif:fs . statistics
//verif:override Instance.getPromCtrValue

func (srv *Instance) getPromCtrValue(ctr *prometheus.CounterVec) float64 { return 7 }

type verifFW struct {
	inter.Framework
	cfg    *config.Config
	exp    time.Time
	tokErr error
}

func (f *verifFW) Configuration() *config.Config             { return f.cfg }
func (f *verifFW) Logger(string) *logrus.Entry               { return logrus.NewEntry(logrus.New()) }
func (f *verifFW) ProvisionMode() bool                       { return false }
func (f *verifFW) PublicCert() (*x509.Certificate, error)    { return nil, errors.New("simulated") }
func (f *verifFW) SignerToken() (string, time.Time, error)   { return "", f.exp, f.tokErr }

type verifConn struct {
	inter.Connector
	server string
}

func (c *verifConn) ConnectedServer() string { return c.server }

//verif:harness prop=S05 reach=written,disabled,failed,recovered,expired clock=frozen delays=0 horizon=10m maxconc=0 timers=32
//verif:bounds writing the status every -1 to 2 seconds or not at all for three rounds in which the connection changes and any one of the first 8 file operations fails, with a token that is or is not valid
func VerifFile() {
	nd.FSReset()
	nd.FSDir("/status")
	fw := &verifFW{cfg: config.VerifNew()}
	fw.cfg.Identity = "n1"
	fw.cfg.Choria.StatusFilePath = nd.OneOf("path", "/status/s.json", "")
	fw.cfg.Choria.StatusUpdateSeconds = nd.Choice("interval", 4) - 1
	fw.exp = nd.Now().Add(-time.Hour)
	if nd.OneOf("token", "valid", "expired") == "expired" {
		fw.tokErr = errors.New("expired")
	} else {
		fw.exp = nd.Now().Add(time.Hour)
	}
	conn := &verifConn{server: "one"}
	srv, err := NewInstance(fw)
	nd.Assert(err == nil, "a server could not be made")
	srv.connector = conn
	fault, ops, failed, mine := nd.Int("fault", 0, 8), 0, false, false
	nd.FSFaults(func(op string, path string) error {
		if mine {
			return nil
		}
		ops++
		if ops == fault {
			failed = true
			return errors.New("simulated")
		}
		return nil
	})
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	go srv.WriteServerStatus(ctx, wg)
	time.Sleep(500 * time.Millisecond)
	enabled := fw.cfg.Choria.StatusFilePath != "" && fw.cfg.Choria.StatusUpdateSeconds > 0
	for i := 0; i < 3; i++ {
		if !enabled {
			nd.Assert(len(nd.FSPaths("/status/")) == 0, "a status is written when that is disabled")
			nd.Reach("disabled")
		} else {
			mine = true
			s, err := statistics.LoadInstanceStatus(fw.cfg.Choria.StatusFilePath)
			mine = false
			if !failed {
				nd.Assert(err == nil, "a status that was written cannot be read")
				nd.Assert(s.Identity == "n1" && s.ConnectedServer == conn.server && s.Stats != nil && s.Stats.Total == 7 && !s.Provisioning, "the status tells something else than what the server does")
				nd.Assert((s.CheckTokenValidity(time.Minute) != nil) == (fw.tokErr != nil), "an expired token is not seen in the status")
				nd.Reach("written")
				if fw.tokErr != nil {
					nd.Reach("expired")
				}
				if fault > 0 && ops >= fault {
					nd.Reach("recovered")
				}
			} else {
				nd.Reach("failed")
			}
		}
		conn.server = []string{"", "two", "one"}[i]
		failed = false
		if enabled {
			time.Sleep(time.Duration(fw.cfg.Choria.StatusUpdateSeconds) * time.Second)
		}
	}
	cancel()
	wg.Wait()
}
