package submission

import (
	"context"
	"encoding/json"
	"errors"
	"io"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/nats-io/nats.go"
	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/inter"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with backoff/fixed.go
//verif:clock . internal/util
//verif:fs .

func verifLog() *logrus.Entry {
	l := logrus.New()
	l.Out = io.Discard
	return logrus.NewEntry(l)
}

// verifStored are the complete messages that can be found in the spool, by priority directory
func verifStored() (msgs []Message, broken int) {
	for _, p := range nd.FSPaths("/spool/P") {
		if !strings.HasSuffix(p, ".msg") {
			continue
		}
		d, _ := nd.FSGet(p)
		var m Message
		if len(d) == 0 || json.Unmarshal([]byte(d), &m) != nil {
			broken++
			continue
		}
		if p[len("/spool/P")] != byte('0'+m.Priority) {
			broken++
		}
		msgs = append(msgs, m)
	}
	return msgs, broken
}

type verifCrash struct{}

// verifOps makes the n'th operation on the file system fail, or the process crash there
func verifOps(n int, crash bool) {
	ops := 0
	dead := false
	nd.FSFaults(func(op string, path string) error {
		if dead {
			return errors.New("crashed")
		}
		ops++
		if ops == n {
			if crash {
				dead = true
				panic(verifCrash{})
			}
			return errors.New("simulated")
		}
		return nil
	})
}

// verifTry runs f and tells if it crashed
func verifTry(f func() error) (err error, crashed bool) {
	defer func() {
		nd.FSFaults(nil)
		if r := recover(); r != nil {
			if _, ok := r.(verifCrash); !ok {
				panic(r)
			}
			crashed = true
		}
	}()
	return f(), false
}

func verifSameMsg(a, b *Message) bool {
	if len(a.Headers) != len(b.Headers) {
		return false
	}
	for k, v := range a.Headers {
		if b.Headers[k] != v {
			return false
		}
	}
	return nd.And(a.ID == b.ID, nd.StrEq(a.Subject, b.Subject), nd.StrEq(string(a.Payload), string(b.Payload)), a.Reliable == b.Reliable, a.Priority == b.Priority, a.Created.Equal(b.Created), a.TTL == b.TTL, a.MaxTries == b.MaxTries, nd.StrEq(a.Sender, b.Sender), nd.StrEq(a.Identity, b.Identity), a.Sign == b.Sign)
}

//verif:harness prop=Q01 reach=stored,refused,failed,crashed,full clock=frozen
//verif:bounds submitting a message with any subject, payload and sender of up to 2 bytes, priority 0 to 6, TTL of four values, with none or one allowed or reserved header, signed or reliable or not, to a spool for 2 that already holds 0 to 3 messages of the priority, where any one of the first 12 file operations fails or the process crashes there
func VerifSubmit() {
	nd.FSReset()
	spool, err := NewDirectorySpool("/spool", 2, "id", verifLog())
	nd.Assert(err == nil, "a spool could not be made")
	full := false
	m := spool.NewMessage()
	m.Subject = nd.StringOf("subject", 2, "ab.")
	m.Payload = []byte(nd.String("payload", 2))
	m.Sender = nd.StringOf("sender", 2, "ab")
	m.Priority = uint(nd.Choice("priority", 7))
	m.Reliable = nd.Bool("reliable")
	m.Sign = nd.Bool("sign")
	m.TTL = []float64{0, 1, 3600, maxTTL.Seconds() + 1}[nd.Choice("ttl", 4)]
	hdr := nd.OneOf("header", "", "x", "Nats-x", "CHORIA-x")
	if hdr != "" {
		m.Headers = map[string]string{hdr: "v"}
	}
	have := 0
	if m.Priority < 5 {
		have = nd.Choice("have", 4)
		for i := 0; i < have; i++ {
			nd.FSPut("/spool/P"+string(rune('0'+m.Priority))+"/1-"+string(rune('a'+i))+".msg", `{"id":"old","priority":`+string(rune('0'+m.Priority))+`}`)
		}
		full = have > 2
	}
	at := nd.Int("at", 0, 12)
	crash := nd.OneOf("problem", "failure", "crash") == "crash"
	verifOps(at, crash)
	err, crashed := verifTry(func() error { return spool.Submit(m) })

	valid := nd.And(len(m.Subject) > 0, len(m.Payload) > 0, len(m.Sender) > 0, m.Priority < 5, nd.Or(m.TTL == 1, m.TTL == 3600), hdr != "Nats-x", hdr != "CHORIA-x")
	stored, broken := verifStored()
	nd.Assert(broken == 0, "an incomplete message is in the spool")
	fresh := len(stored) - have
	nd.Assert(fresh == 0 || fresh == 1, "messages were lost from the spool or stored more than once")
	if fresh == 1 {
		found := false
		for i := range stored {
			if stored[i].ID == m.ID {
				found = true
				nd.Assert(verifSameMsg(&stored[i], m), "another message than the submitted one was stored")
			}
		}
		nd.Assert(found, "another message than the submitted one was stored")
		nd.Assert(valid, "an invalid message was stored")
	}
	switch {
	case crashed:
		nd.Reach("crashed")
	case err == nil:
		nd.Reach("stored")
		nd.Assert(fresh == 1, "a message was accepted but is not stored")
	default:
		if !valid {
			nd.Reach("refused")
		} else if full {
			nd.Reach("full")
		} else {
			nd.Reach("failed")
		}
		nd.Assert(fresh == 0, "a message that was refused is stored")
	}
	if !crashed && at == 0 {
		nd.Assert((err == nil) == nd.And(valid, !full), "a good message was refused or one that does not fit was accepted")
		for _, p := range nd.FSPaths("/spool/") {
			nd.Assert(strings.HasPrefix(p, "/spool/P"), "a temporary file was left behind")
		}
	}
	nd.Observe("err", err != nil)
	nd.Observe("fresh", fresh)
}

//verif:harness prop=Q01 reach=kept,discarded,crashed clock=frozen
//verif:bounds a stored reliable message that could not be sent, with any remaining number of tries, where any one of the first 8 file operations of recording that fails or the process crashes there
func VerifRetry() {
	nd.FSReset()
	spool, err := NewDirectorySpool("/spool", 10, "id", verifLog())
	nd.Assert(err == nil, "a spool could not be made")
	m := spool.NewMessage()
	m.Subject, m.Payload, m.Sender, m.Reliable, m.Priority = "a", []byte(nd.String("payload", 2)), "s", true, 2
	nd.Assume(len(m.Payload) > 0)
	m.MaxTries = uint(1 + nd.Choice("max", 3))
	nd.Assert(spool.Submit(m) == nil, "a good message was refused")
	path := nd.FSPaths("/spool/P2/")[0]
	got, err := spool.readMessage(path)
	nd.Assert(err == nil, "a stored message could not be read")
	spool.skipList[2] = map[string]struct{}{}

	at := nd.Int("at", 0, 8)
	crash := nd.OneOf("problem", "failure", "crash") == "crash"
	verifOps(at, crash)
	err, crashed := verifTry(func() error { return spool.IncrementTries(got) })
	stored, broken := verifStored()
	nd.Assert(broken == 0, "a message that could not be sent is incomplete in the spool")
	if crashed {
		nd.Reach("crashed")
		if m.MaxTries > 1 {
			nd.Assert(len(stored) == 1, "a message that could not be sent was lost in a crash")
		}
	} else if at == 0 {
		nd.Assert(err == nil, "a failed try could not be recorded")
		nd.Assert(len(stored) == 1 == (m.MaxTries > 1), "a message that may be tried again was removed, or one that may not was kept")
	}
	if len(stored) == 1 {
		nd.Reach("kept")
		nd.Assert(verifSameMsg(&stored[0], m), "a message changed while in the spool")
		nd.Assert(stored[0].Tries <= 1, "more tries were recorded than made")
		if at == 0 {
			nd.Assert(stored[0].Tries == 1, "a try was not recorded")
		}
	} else {
		nd.Reach("discarded")
	}
	nd.Observe("stored", len(stored))
}

// verifConn is a broker that acknowledges or fails
type verifConn struct {
	inter.RawNATSConnector
	sent  []string // ids in order
	acked map[string]bool
	begun time.Time
	last  map[string]time.Time
}

func (c *verifConn) note(msg *nats.Msg) string {
	id := msg.Header.Get(HdrNatsMsgId)
	c.sent = append(c.sent, id)
	c.last[id] = nd.Now()
	nd.Assert(strings.HasPrefix(msg.Subject, "c1.submission.in.s"), "a message was published elsewhere")
	nd.Assert(string(msg.Data) == "payload "+msg.Subject[len(msg.Subject)-1:], "a message was published with another payload")
	nd.Assert(msg.Header.Get(HdrChoriaSender) == "sender" && msg.Header.Get("X-Custom") == "custom" && msg.Header.Get(HdrChoriaIdentity) == "id", "a message was published with other headers")
	return id
}

func (c *verifConn) PublishRawMsg(msg *nats.Msg) error {
	c.note(msg)
	nd.Assert(msg.Header.Get(HdrChoriaReliable) == "", "a reliable message was published without waiting for its acknowledgement")
	if nd.OneOf("publish", "works", "fails") == "fails" {
		return errors.New("simulated")
	}
	return nil
}

func (c *verifConn) RequestRawMsgWithContext(ctx context.Context, msg *nats.Msg) (*nats.Msg, error) {
	id := c.note(msg)
	nd.Assert(msg.Header.Get(HdrChoriaReliable) == "1", "an unreliable message was published as a reliable one")
	nd.Assert(!c.acked[id], "a message was published again after it was acknowledged")
	switch nd.OneOf("ack", "yes", "error", "garbage", "nobody") {
	case "yes":
		c.acked[id] = true
		return &nats.Msg{Data: []byte(`{"stream":"S","seq":1}`)}, nil
	case "error":
		return &nats.Msg{Data: []byte(`{"error":{"code":500,"description":"simulated"},"stream":"","seq":0}`)}, nil
	case "garbage":
		return &nats.Msg{Data: []byte(`[`)}, nil
	}
	return nil, errors.New("simulated")
}

//verif:harness prop=Q03 reach=published,retried,discarded,expired,stuck clock=frozen delays=0 timers=80 samples=2 deadlock=violation maxsteps=40000000
//verif:bounds two or three messages of one priority, reliable or not, good, expired or with few tries left, polled for three and a half seconds by a broker connection where any publish works or fails, acknowledgements are good, errors, garbage or missing, and removing any of the first files fails once or forever
func VerifRun() {
	nd.FSReset()
	spool, err := New("c1", "id", Directory, verifLog(), WithSpoolDirectory("/spool"), WithMaxSpoolEntries(10))
	nd.Assert(err == nil, "a spool could not be made")
	start := nd.Now()
	n := 2
	if nd.Thorough() {
		n = 3
	}
	var all []*Message
	for i := 0; i < n; i++ {
		m := spool.NewMessage()
		m.Subject = "s" + string(rune('0'+i))
		m.Payload = []byte("payload " + string(rune('0'+i)))
		m.Sender = "sender"
		m.Priority = 1
		m.Headers = map[string]string{"X-Custom": "custom"}
		m.Reliable = nd.OneOf("reliable", "yes", "no") == "yes"
		kind := nd.OneOf("kind", "good", "expired", "tries")
		if kind == "tries" {
			m.MaxTries = 1
		}
		if kind == "expired" {
			m.TTL = 1
			m.Created = start.Add(-time.Hour)
		}
		j, err := json.Marshal(m)
		nd.Assert(err == nil, "a message could not be encoded")
		nd.FSPut("/spool/P1/"+string(rune('1'+i))+"-x.msg", string(j))
		all = append(all, m)
	}
	removes := 0
	failing := nd.Int("remove.fails", 0, 3)
	forever := nd.OneOf("removing", "once", "forever") == "forever"
	nd.FSFaults(func(op string, path string) error {
		if op == "remove" && strings.HasSuffix(path, ".msg") {
			removes++
			if removes == failing || forever && removes >= failing && failing > 0 {
				nd.Reach("stuck")
				return errors.New("simulated")
			}
		}
		return nil
	})

	conn := &verifConn{acked: map[string]bool{}, last: map[string]time.Time{}, begun: start}
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	go spool.Run(ctx, wg, conn)
	time.Sleep(3500 * time.Millisecond)
	cancel()
	wg.Wait()

	stored, broken := verifStored()
	nd.Assert(broken == 0, "an incomplete message is in the spool")
	in := map[string]int{}
	for i := range stored {
		in[stored[i].ID] = int(stored[i].Tries) + 1
	}
	failed := false // a reliable one before was not delivered
	var order []string
	for _, m := range all {
		tries := 0
		for _, id := range conn.sent {
			if id == m.ID {
				tries++
			}
		}
		expired := m.Created.Before(start)
		switch {
		case expired:
			nd.Reach("expired")
			nd.Assert(tries == 0, "an expired message was published")
			nd.Assert(in[m.ID] == 0 || failing > 0, "an expired message was kept")
		case !m.Reliable:
			nd.Assert(tries == 1, "an unreliable message was not published once")
			nd.Assert(in[m.ID] == 0 || failing > 0, "a published message was kept")
		default:
			nd.Assert(tries <= int(m.MaxTries), "a message was tried more often than it may be")
			if conn.acked[m.ID] {
				nd.Reach("published")
				nd.Assert(in[m.ID] == 0 || failing > 0, "an acknowledged message was kept")
			} else if m.MaxTries == 1 && tries == 1 {
				nd.Reach("discarded")
				nd.Assert(in[m.ID] == 0 || failing > 0, "a message without tries left was kept")
			} else {
				nd.Assert(in[m.ID] > 0, "a message that was not acknowledged was lost")
				nd.Assert(in[m.ID] == tries+1, "the number of tries of a message is not recorded")
			}
			if tries > 1 {
				nd.Reach("retried")
			}
			nd.Assert(failed || tries > 0, "a reliable message was not tried")
			if !conn.acked[m.ID] || tries > 1 {
				failed = true
			}
		}
		if tries > 0 && !failed {
			order = append(order, m.ID)
		}
	}
	// while everything works messages are published in order
	if !failed {
		nd.Assert(len(order) == len(conn.sent), "messages were published more often than submitted")
		for i := range order {
			nd.Assert(order[i] == conn.sent[i], "messages were published in another order than they were submitted")
		}
	}
	nd.Observe("stored", len(stored))
	nd.Observe("sent", len(conn.sent))
	_ = sort.Strings
}
