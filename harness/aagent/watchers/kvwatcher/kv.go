package kvwatcher

import (
	"context"
	"errors"
	"sync"
	"time"

	"github.com/choria-io/go-choria/aagent/model"
	"github.com/nats-io/jsm.go"
	"github.com/nats-io/nats.go"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with aagent/watchers/watcher/template.go
//verif:clock .
//verif:replace github.com/choria-io/go-choria/aagent/util.ParseMapStructure verifProperties
//verif:replace github.com/choria-io/go-choria/providers/kv.NewKV verifNewKV
//verif:replace github.com/google/go-cmp/cmp.Equal verifEqual
//verif:method Subscribe verifSubscribe
//verif:method Unsubscribe verifUnsubscribe

func verifProperties(props map[string]any, target any) error {
	*(target.(*properties)) = props["p"].(properties)
	return nil
}

// verifEqual compares texts and objects with one text, anything else is not made by the tests
func verifEqual(a any, b any, _ ...any) bool {
	as, aok := a.(string)
	bs, bok := b.(string)
	if aok || bok {
		return aok && bok && nd.StrEq(as, bs)
	}
	am, aok := a.(map[string]any)
	bm, bok := b.(map[string]any)
	if aok || bok {
		return aok && bok && len(am) == len(bm) && verifEqual(am["k"], bm["k"])
	}
	return a == nil && b == nil
}

type verifValue struct {
	nats.KeyValueEntry
	val []byte
	rev uint64
}

func (v *verifValue) Value() []byte    { return v.val }
func (v *verifValue) Revision() uint64 { return v.rev }

type verifStore struct {
	nats.KeyValue
	val     []byte // nil when it is not there
	rev     uint64
	fail    bool
	missing bool // the store itself
	asked   int
	handler nats.MsgHandler
	subject string
}

var verifKV *verifStore

func (s *verifStore) Get(key string) (nats.KeyValueEntry, error) {
	nd.Assert(key == "x.key", "another key was fetched")
	s.asked++
	if s.fail {
		return nil, errors.New("simulated")
	}
	if s.val == nil {
		return nil, nats.ErrKeyNotFound
	}
	return &verifValue{val: s.val, rev: s.rev}, nil
}

func verifNewKV(nc *nats.Conn, bucket string, create bool, _ ...any) (nats.KeyValue, error) {
	nd.Assert(bucket == "B" && !create, "another bucket is used")
	if verifKV.missing {
		return nil, errors.New("simulated")
	}
	return verifKV, nil
}

func verifSubscribe(nc *nats.Conn, subject string, h nats.MsgHandler) (*nats.Subscription, error) {
	verifKV.subject, verifKV.handler = subject, h
	return &nats.Subscription{}, nil
}

func verifUnsubscribe(s *nats.Subscription) error {
	verifKV.handler = nil
	return nil
}

type verifMachine struct {
	model.Machine
	mu    sync.Mutex
	state string
	data  map[string]any
	fail  bool
	made  []string
}

func (m *verifMachine) Name() string                               { return "m" }
func (m *verifMachine) Identity() string                           { return "i" }
func (m *verifMachine) InstanceID() string                         { return "1" }
func (m *verifMachine) Version() string                            { return "1" }
func (m *verifMachine) TimeStampSeconds() int64                    { return 1 }
func (m *verifMachine) JetStreamConnection() (*jsm.Manager, error) { return &jsm.Manager{}, nil }
func (m *verifMachine) Debugf(string, string, ...any)              {}
func (m *verifMachine) Infof(string, string, ...any)               {}
func (m *verifMachine) Warnf(string, string, ...any)               {}
func (m *verifMachine) Errorf(string, string, ...any)              {}
func (m *verifMachine) NotifyWatcherState(string, any)             {}
func (m *verifMachine) State() string                              { return m.state }
func (m *verifMachine) DataGet(k string) (any, bool)               { v, ok := m.data[k]; return v, ok }
func (m *verifMachine) DataDelete(k string) error {
	if m.fail {
		return errors.New("simulated")
	}
	delete(m.data, k)
	return nil
}
func (m *verifMachine) DataPut(k string, v any) error {
	if m.fail {
		return errors.New("simulated")
	}
	m.data[k] = v
	return nil
}
func (m *verifMachine) Transition(t string, _ ...any) error {
	m.made = append(m.made, t)
	return nil
}

// verifParsed is what data a value becomes, those made by the tests with { are objects with a k
func verifParsed(val []byte) any {
	switch {
	case len(val) == 10:
		return map[string]any{"k": string(val[7:8])}
	default:
		return string(val)
	}
}

func verifNext(name string) []byte {
	switch nd.Choice(name, 4) {
	case 0:
		return nil
	case 1:
		return []byte{nd.Uint8(name+" text", 'a', 'z')}
	case 2:
		return []byte([]string{`{"k": "a"}`, `{"k": "b"}`}[nd.Choice(name+" value", 2)])
	default:
		return []byte("{bad}")
	}
}

//verif:harness prop=W11 reach=put,deleted,failed,matched,got,unchanged,inactive,republished deadlock=violation clock=frozen delays=0 samples=8 timers=24 seconds=90
//verif:bounds up to three polls and one republished value or change of state between them, each finding no value, any one letter, an object with any one letter or invalid JSON, of the same or a later revision; with all settings for transitions, any one letter or no data stored before; failures to find the store, to get the value and to store the data; templates, hiera and queries are not covered
func VerifKV() {
	verifKV = &verifStore{rev: 5}
	m := &verifMachine{state: "on", data: map[string]any{}}
	p := properties{Bucket: "B", Key: "x.key", BucketPrefix: nd.Choice("prefix", 2) == 1}
	mode := nd.Choice("mode", 3)
	p.TransitionOnMatch, p.TransitionOnSuccessfulGet = mode == 1, mode == 2
	p.RepublishTrigger = "repub.>"
	dk := "x.key"
	if p.BucketPrefix {
		dk = "B_x.key"
	}
	if nd.Choice("stored", 2) == 1 {
		m.data[dk] = string([]byte{nd.Uint8("stored text", 'a', 'z')})
	}
	m.data["other"] = "x"

	wi, err := New(m, "w", []string{"on"}, nil, "fail", "success", "2s", 0, map[string]any{"p": p})
	nd.Assert(err == nil, "a watcher could not be made")
	w := wi.(*Watcher)
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}

	lastrev := uint64(0)
	step := func(name string, republished bool, run func()) {
		was, had := m.data[dk]
		m.made = nil
		asked := verifKV.asked
		run()
		is, has := m.data[dk]
		made := ""
		if len(m.made) > 0 {
			made = m.made[0]
		}
		nd.Assert(len(m.made) < 2 && m.data["other"] == "x", "one value does several transitions or changes other data")
		nd.Observe(name, made)
		kept := func() {
			nd.Assert(has == had && verifEqual(is, was), "data was changed by a value that could not be used")
		}
		switch {
		case m.state != "on":
			nd.Reach("inactive")
			kept()
			nd.Assert(made == "" && verifKV.asked == asked, "a watcher that is not active fetches its key")
			return
		case !republished && (verifKV.missing || verifKV.fail):
			nd.Reach("failed")
			kept()
			nd.Assert(made == "fail", "a failure was not reported")
			return
		case verifKV.val == nil && !had:
			nd.Assert(!has && made == "", "a key that was never there does a transition")
			return
		case verifKV.val == nil && m.fail:
			nd.Reach("failed")
			kept()
			nd.Assert(made == "fail", "a failure was not reported")
			return
		case verifKV.val == nil:
			nd.Reach("deleted")
			nd.Assert(!has && made == "success", "a deleted key was not handled")
			return
		}
		now := verifParsed(verifKV.val)
		switch {
		case !had || !verifEqual(was, now):
			if m.fail {
				nd.Reach("failed")
				kept()
				nd.Assert(made == "fail", "a failure was not reported")
				return
			}
			nd.Reach("put")
			nd.Assert(has && verifEqual(is, now) && made == "success", "a changed value was not stored and reported")
		case p.TransitionOnSuccessfulGet:
			nd.Reach("got")
			kept()
			nd.Assert(made == "success", "a value that was fetched does no transition")
		case p.TransitionOnMatch && lastrev > 0 && verifKV.rev > lastrev:
			nd.Reach("matched")
			kept()
			nd.Assert(made == "success", "the same value was put again and does no transition")
		default:
			nd.Reach("unchanged")
			kept()
			nd.Assert(made == "", "a value that did not change does a transition")
		}
		lastrev = verifKV.rev
	}

	event := nd.Choice("event", 4)
	verifKV.val = verifNext("first")
	verifKV.missing = event == 0 && nd.Choice("missing", 2) == 1
	step("1", false, func() {
		wg.Add(1)
		go w.Run(ctx, wg)
		time.Sleep(500 * time.Millisecond)
	})
	verifKV.missing = false

	switch event {
	case 1: // published again, at 1s
		verifKV.val = verifNext("second")
		verifKV.rev++
		subject := []string{"repub.$KV.B.x.key", "repub.$KV.B.ax.key", "repub.$KV.B.x.other"}[nd.Choice("subject", 3)]
		msg := &nats.Msg{Subject: subject, Data: verifKV.val, Header: nats.Header{}}
		msg.Header.Set("Nats-Stream", "KV_B")
		msg.Header.Set("Nats-Subject", subject[6:])
		msg.Header.Set("Nats-Sequence", "6")
		msg.Header.Set("Nats-Last-Sequence", "5")
		msg.Header.Set("Nats-Time-Stamp", "2026-01-02T03:04:05Z")
		if verifKV.val == nil {
			msg.Header.Set("KV-Operation", "DEL")
		}
		time.Sleep(500 * time.Millisecond)
		nd.Assert(verifKV.handler != nil && verifKV.subject == "repub.>", "republished values are not received")
		if subject == "repub.$KV.B.x.key" {
			nd.Reach("republished")
			step("2", true, func() { verifKV.handler(msg) })
		} else {
			was, had := m.data[dk]
			m.made = nil
			verifKV.handler(msg)
			is, has := m.data[dk]
			nd.Assert(has == had && verifEqual(is, was), "the value of another key was stored")
			nd.Assert(len(m.made) == 0 || m.made[0] == "fail", "the value of another key does a transition")
		}
	case 2: // leaves the state and comes back after a poll
		m.state = "off"
		w.NotifyStateChance()
		step("2", false, func() { time.Sleep(2 * time.Second) })
		m.state = "on"
	case 3: // fails once
		verifKV.fail = nd.Choice("get fails", 2) == 1
		m.fail = !verifKV.fail
		if m.fail {
			verifKV.val = verifNext("second")
			verifKV.rev++
		}
		step("2", false, func() { time.Sleep(2 * time.Second) })
		verifKV.fail, m.fail = false, false
	}

	if nd.Choice("again", 2) == 1 {
		verifKV.rev++
	} else {
		verifKV.val = verifNext("last")
		verifKV.rev++
	}
	step("3", false, func() { time.Sleep(2 * time.Second) })
	cancel()
	wg.Wait()
	nd.Quiesce()
	nd.Assert(verifKV.handler == nil, "republished values are received after the machine stopped")
}
