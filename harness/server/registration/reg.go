package registration

import (
	"context"
	"errors"
	"sync"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/server/data"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with config/new.go
//verif:clock . internal/util

type verifMsg struct {
	inter.Message
	payload           []byte
	agent, collective string
	replyTo, target   string
}

func (m *verifMsg) SetReplyTo(t string) error { m.replyTo = t; return nil }
func (m *verifMsg) SetCustomTarget(t string)  { m.target = t }

type verifFW struct {
	cfg    *config.Config
	refuse bool
}

func (f *verifFW) Configuration() *config.Config { return f.cfg }
func (f *verifFW) NewMessage(payload []byte, agent string, collective string, msgType string, request inter.Message) (inter.Message, error) {
	if f.refuse || msgType != "request" || request != nil {
		return nil, errors.New("simulated")
	}
	return &verifMsg{payload: payload, agent: agent, collective: collective}, nil
}

type verifConn struct {
	up, fail bool
	sent     []*verifMsg
}

func (c *verifConn) IsConnected() bool { return c.up }
func (c *verifConn) Publish(m inter.Message) error {
	if !c.up {
		nd.Assert(false, "data is published without a connection")
	}
	if c.fail {
		return errors.New("simulated")
	}
	c.sent = append(c.sent, m.(*verifMsg))
	return nil
}

// verifSource is a provider that says what it is asked to
type verifSource struct {
	interval int
	started  int
	run      func(ctx context.Context, out chan *data.RegistrationItem)
}

func (s *verifSource) StartRegistration(ctx context.Context, wg *sync.WaitGroup, interval int, out chan *data.RegistrationItem) {
	defer wg.Done()
	s.started++
	s.interval = interval
	s.run(ctx, out)
}

//verif:harness prop=L03 reach=published,held,outage,bigger clock=frozen delays=0 horizon=10m maxconc=0 timers=64
//verif:bounds a provider that produces 3 items of 10, 14 or 30 bytes with 0 or 2 seconds between them, while the connection is up, down or failing at each, with a registration interval of 1 or 3 seconds and a size trigger of 0 to 21 bytes
func VerifSizes() {
	cfg := config.VerifNew()
	cfg.MainCollective, cfg.RegistrationCollective = "c1", "reg"
	cfg.RegisterInterval = []int{1, 3}[nd.Choice("interval", 2)]
	cfg.Choria.RegistrationSizeInterval = 30
	cfg.Choria.RegistrationSizeTrigger = nd.Int("trigger", 0, 21)
	conn := &verifConn{}
	l := logrus.New()
	mgr := New(&verifFW{cfg: cfg}, nil, conn, logrus.NewEntry(l))
	last, lastSize, done := time.Time{}, 0, false
	src := &verifSource{run: func(ctx context.Context, out chan *data.RegistrationItem) {
		for i := 0; i < 3; i++ {
			size := 14
			if i > 0 {
				time.Sleep([]time.Duration{0, 2 * time.Second}[nd.Choice("gap", 2)])
				size = []int{10, 14, 30}[nd.Choice("size", 3)]
			}
			switch nd.OneOf("network", "up", "down", "failing") {
			case "up":
				conn.up, conn.fail = true, false
			case "down":
				conn.up, conn.fail = false, false
				nd.Reach("outage")
			case "failing":
				conn.up, conn.fail = true, true
			}
			b := make([]byte, size)
			b[0] = byte('a' + i)
			n := len(conn.sent)
			now := nd.Now()
			out <- &data.RegistrationItem{Data: b, Destination: "dest", TargetAgent: "ag"}
			time.Sleep(0)
			diff := size - lastSize
			if diff < 0 {
				diff = -diff
			}
			due := nd.Or(cfg.Choria.RegistrationSizeTrigger == 0, last.IsZero(), int64(now.Sub(last)) >= int64(time.Duration(cfg.RegisterInterval)*time.Second), diff >= cfg.Choria.RegistrationSizeTrigger)
			if !conn.up || conn.fail {
				nd.Assert(len(conn.sent) == n, "data is published without a working connection")
				continue
			}
			nd.Assert(nd.Implies(due, len(conn.sent) == n+1), "registration data that is due is not published")
			nd.Assert(nd.Implies(!due, len(conn.sent) == n), "registration data is published before it is due")
			nd.Assert(len(conn.sent) <= n+1, "registration data is published twice")
			if len(conn.sent) == n {
				nd.Reach("held")
				continue
			}
			nd.Reach("published")
			if !last.IsZero() && size > lastSize {
				nd.Reach("bigger")
			}
			m := conn.sent[n]
			nd.Assert(string(m.payload) == string(b) && m.agent == "ag" && m.collective == "reg" && m.target == "dest", "other data is published than the provider gave, or elsewhere")
			last, lastSize = now, size
		}
		done = true
		<-ctx.Done()
	}}
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	nd.Assert(mgr.RegisterProvider(ctx, wg, src) == nil, "a provider is refused")
	time.Sleep(7 * time.Second)
	nd.Assert(done, "a provider is not served")
	nd.Assert(nd.Implies(cfg.Choria.RegistrationSizeTrigger == 0, src.interval == cfg.RegisterInterval), "a provider is asked for data at another interval")
	nd.Assert(nd.Implies(cfg.Choria.RegistrationSizeTrigger > 0, src.interval == cfg.Choria.RegistrationSizeInterval), "a provider is asked for data at another interval when sizes are watched")
	cancel()
	wg.Wait()
}

//verif:harness prop=L03 reach=both,disabled,splayed clock=frozen delays=0 horizon=10m maxconc=0 timers=64
//verif:bounds two providers that each produce 2 items at the same or other times up to 1 second apart, with a registration interval of 0 to 3 seconds, size trigger of 0 or 5 bytes and size interval 0 to 30, with and without splay, items with and without an agent, and nil or empty items between them
func VerifProviders() {
	cfg := config.VerifNew()
	cfg.MainCollective = "c1"
	cfg.RegistrationCollective = nd.OneOf("collective", "", "reg")
	want := cfg.RegistrationCollective
	if want == "" {
		want = "c1"
	}
	cfg.RegisterInterval = nd.Int("interval", 0, 3)
	cfg.Choria.RegistrationSizeTrigger = nd.Choice("trigger", 2) * 5
	cfg.Choria.RegistrationSizeInterval = nd.Int("size.interval", 0, 30)
	cfg.RegistrationSplay = nd.OneOf("splay", "no", "yes") == "yes"
	conn := &verifConn{up: true}
	wg := &sync.WaitGroup{}
	ctx, cancel := context.WithCancel(context.Background())
	mgr := New(&verifFW{cfg: cfg}, nil, conn, logrus.NewEntry(logrus.New()))
	wg.Add(1)
	nd.Assert(mgr.Start(ctx, wg) == nil, "registration without plugins fails")
	offset := time.Duration(nd.Int("offset", 0, 1)) * time.Second
	odd := nd.OneOf("odd", "none", "nil", "empty")
	mk := func(name byte, delay time.Duration) *verifSource {
		return &verifSource{run: func(ctx context.Context, out chan *data.RegistrationItem) {
			time.Sleep(delay)
			for i := 0; i < 2; i++ {
				switch odd {
				case "nil":
					out <- nil
				case "empty":
					out <- &data.RegistrationItem{}
				}
				// both items of a provider are published whatever the trigger is as their sizes differ much
				b := make([]byte, 10+20*i)
				b[0], b[1] = name, byte('0'+i)
				it := &data.RegistrationItem{Data: b}
				if name == 'B' {
					it.TargetAgent = "b"
				}
				out <- it
				time.Sleep(4 * time.Second)
			}
			<-ctx.Done()
		}}
	}
	a, b := mk('A', 0), mk('B', offset)
	nd.Assert(mgr.RegisterProvider(ctx, wg, a) == nil && mgr.RegisterProvider(ctx, wg, b) == nil, "a provider is refused")
	time.Sleep(9 * time.Second)
	interval := cfg.RegisterInterval
	if cfg.Choria.RegistrationSizeTrigger > 0 {
		interval = cfg.Choria.RegistrationSizeInterval
	}
	if interval <= 0 {
		nd.Assert(len(conn.sent) == 0, "data is published while registration is disabled")
		nd.Reach("disabled")
	} else {
		seen := map[string]int{}
		for _, m := range conn.sent {
			seen[string(m.payload[:2])]++
			nd.Assert(m.collective == want, "registration data is published in another collective")
			agent := "registration"
			if m.payload[0] == 'B' {
				agent = "b"
			}
			nd.Assert(m.agent == agent && m.target == "", "registration data is published to another agent")
			nd.Assert(m.replyTo == "dev.null", "registration asks for replies")
		}
		nd.Assert(seen["A0"] == 1 && seen["A1"] == 1, "data of the first provider is lost or published again")
		nd.Assert(seen["B0"] == 1 && seen["B1"] == 1, "data of the second provider is lost or published again")
		nd.Assert(len(conn.sent) == 4, "other data is published than providers gave")
		nd.Reach("both")
		if cfg.RegistrationSplay {
			nd.Reach("splayed")
		}
	}
	cancel()
	wg.Wait()
}
