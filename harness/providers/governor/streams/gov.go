package governor

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/choria-io/go-choria/backoff"
	"github.com/nats-io/jsm.go"
	"github.com/nats-io/nats.go"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:clock . backoff
//verif:method RequestWithContext verifRequest
//verif:method DeleteStreamMessage verifDelete
//verif:replace github.com/nats-io/jsm.go.New verifJSM

// verifStream is the stream of a governor as the server would keep it
type verifStream struct {
	mu     sync.Mutex
	limit  int
	seq    uint64
	slots  map[uint64]string
	faults int
	took   time.Duration
	asked  int
}

var verifS *verifStream

var errVerifLost = errors.New("nats: no responders available for request")

func newVerifStream(limit int) *verifStream {
	verifS = &verifStream{limit: limit, slots: map[uint64]string{}}
	return verifS
}

func verifJSM(nc *nats.Conn, _ ...jsm.Option) (*jsm.Manager, error) {
	return &jsm.Manager{}, nil
}

func verifRequest(nc *nats.Conn, ctx context.Context, subj string, data []byte) (*nats.Msg, error) {
	s := verifS
	nd.Assert(subj == "c.governor.g", "a slot is asked for on another subject than that of the governor")
	nd.Assert(ctx.Err() == nil, "a slot is asked for after the time to wait for it ended")
	s.mu.Lock()
	s.asked++
	fault := 0
	if s.faults > 0 {
		fault = nd.Choice("publish", 5)
	}
	if fault != 0 {
		s.faults--
	}
	s.mu.Unlock()

	if s.took > 0 {
		time.Sleep(s.took)
	}

	s.mu.Lock()
	defer s.mu.Unlock()
	switch fault {
	case 1: // never got there
		return nil, errVerifLost
	case 3: // some other failure of the stream
		nd.Reach("refused")
		return &nats.Msg{Data: []byte(`{"type":"io.nats.jetstream.api.v1.pub_ack_response","error":{"code":503,"err_code":10008,"description":"jetstream is offline"}}`)}, nil
	case 4: // something that is not a reply to it
		nd.Reach("invalid")
		return &nats.Msg{Data: []byte(`{"stream"`)}, nil
	}
	if len(s.slots) >= s.limit {
		nd.Reach("full")
		return &nats.Msg{Data: []byte(`{"error":{"code":503,"err_code":10077,"description":"maximum messages exceeded"},"stream":"GOVERNOR_g","seq":0}`)}, nil
	}
	s.seq++
	s.slots[s.seq] = string(data)
	if fault == 2 { // the reply is lost
		nd.Reach("lost")
		return nil, context.DeadlineExceeded
	}
	return &nats.Msg{Data: []byte(fmt.Sprintf(`{"stream":"GOVERNOR_g","seq":%d}`, s.seq))}, nil
}

func verifDelete(m *jsm.Manager, stream string, seq uint64, noErase bool) error {
	s := verifS
	nd.Assert(stream == "GOVERNOR_g", "a slot is removed from another governor")
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.faults > 0 {
		switch nd.Choice("delete", 3) {
		case 1:
			s.faults--
			nd.Reach("stuck")
			return errVerifLost
		case 2:
			s.faults--
			delete(s.slots, seq)
			return errVerifLost
		}
	}
	if _, ok := s.slots[seq]; !ok {
		return errors.New("no message found (10037)")
	}
	delete(s.slots, seq)
	return nil
}

func (s *verifStream) holds(name string) (res int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, n := range s.slots {
		if n == name {
			res++
		}
	}
	return res
}

func (s *verifStream) used() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.slots)
}

//verif:harness prop=G01 reach=full,entered,gaveup,none,refused,invalid,lost,stuck,retried,kept deadlock=violation preempt=0 delays=2 seconds=60 t.delays=3 t.seconds=400 horizon=1h timers=400 clock=frozen
//verif:bounds three workers that each start at one of two times, work for one of two times and wait for a slot for up to 3 seconds, of a governor with a limit of one or two, that share a connection, with one request (two in thorough) that fails before or after the server acted on it or gets another reply, that leave once or twice or do not leave
func VerifGovern() {
	limit := nd.Choice("limit", 2) + 1
	s := newVerifStream(limit)
	s.faults = 1
	if nd.Thorough() {
		s.faults = 2
	}
	faults := s.faults
	stay := nd.Bool("stay")
	working, lost, ended := 0, 0, 0
	var mu sync.Mutex

	for i := 0; i < 3; i++ {
		name := fmt.Sprintf("worker%d", i)
		opts := []Option{WithSubject("c.governor.g"), WithInterval(500 * time.Millisecond)}
		if stay && i == 0 {
			opts = append(opts, WithoutLeavingOnCompletion())
		}
		g := New("g", &nats.Conn{}, opts...)
		nd.Assert(g != nil, "no governor could be made")
		starts, works := time.Duration(0), 700*time.Millisecond
		if i > 0 && nd.Bool("later") {
			starts = 900 * time.Millisecond
		}
		if i == 1 && nd.Bool("long") {
			works = 6 * time.Second
		}

		go func() {
			time.Sleep(starts)
			ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
			defer cancel()
			began := nd.Now()
			fin, seq, err := g.Start(ctx, name)
			if err != nil {
				nd.Assert(fin == nil && seq == 0, "a worker got a slot and an error")
				nd.Assert(nd.Since(began) < 4*time.Second, "a worker gave up long after the time it waits for a slot")
				mu.Lock()
				if nd.Since(began) >= 3*time.Second {
					nd.Reach("gaveup")
				} else {
					nd.Reach("none")
					nd.Assert(s.faults < faults, "no request failed but a worker gave up before the time it waits for a slot ended")
				}
				lost += s.holds(name)
				ended++
				mu.Unlock()
				return
			}
			nd.Reach("entered")
			mu.Lock()
			working++
			nd.Assert(working <= limit, "more workers than the limit of the governor work at once")
			nd.Assert(s.holds(name) == 1 && s.slots[seq] == name, "a worker works without having its slot")
			mu.Unlock()
			time.Sleep(works)
			nd.Assert(s.holds(name) == 1, "a worker lost its slot while it worked")
			mu.Lock()
			working--
			mu.Unlock()

			err = fin()
			if stay && name == "worker0" {
				nd.Reach("kept")
				nd.Assert(err == nil && s.holds(name) == 1, "a worker left its slot but is set to keep it")
				mu.Lock()
				lost++
				ended++
				mu.Unlock()
				return
			}
			if err == nil {
				nd.Assert(s.holds(name) == 0, "a worker left without an error but its slot is in use")
				err = fin()
				nd.Assert(err == nil, "leaving a slot once more fails")
			} else if s.holds(name) == 1 && s.faults == 0 {
				nd.Reach("retried")
				err = fin()
				nd.Assert(err == nil && s.holds(name) == 0, "a slot that could not be left the first time cannot be left later")
			} else {
				nd.Assert(s.faults < faults, "no request failed but a worker could not leave its slot")
			}
			mu.Lock()
			lost += s.holds(name)
			ended++
			mu.Unlock()
		}()
	}

	time.Sleep(11 * time.Second)
	nd.Assert(ended == 3, "a worker waits for ever")
	nd.Assert(s.used() == lost, "a slot is in use after its worker left it, or a worker left that of another one")
}

//verif:harness prop=G01 reach=timeout,failed,reused,once deadlock=violation preempt=0 delays=2 seconds=30 horizon=1h timers=400 clock=frozen
//verif:bounds one governor that is used again after it got a slot, could not get one in time or failed, and while it is used, with a fixed interval or symbolic backoff between its tries
func VerifGovernReuse() {
	s := newVerifStream(1)
	opts := []Option{WithSubject("c.governor.g"), WithInterval(250 * time.Millisecond)}
	uses := 3
	if nd.Bool("backoff") {
		opts = append(opts, WithBackoff(backoff.Policy{Millis: []int{500, 800}}))
		uses = 2
	}
	g := New("g", &nats.Conn{}, opts...)
	done := false
	go func() {
		for i := 0; i < uses; i++ {
			switch nd.Choice("use", 3) {
			case 0: // somebody else has the slot
				s.slots[1000] = "other"
				ctx, cancel := context.WithTimeout(context.Background(), 600*time.Millisecond)
				_, _, err := g.Start(ctx, "me")
				cancel()
				nd.Assert(err != nil, "a slot was got but all are in use")
				nd.Reach("timeout")
				delete(s.slots, 1000)
			case 1:
				s.limit = 0
				s.faults = 1
				ctx, cancel := context.WithTimeout(context.Background(), 600*time.Millisecond)
				_, _, err := g.Start(ctx, "me")
				cancel()
				nd.Assert(err != nil, "a slot was got but there are none")
				nd.Reach("failed")
				s.limit, s.faults = 1, 0
			case 2:
				ctx, cancel := context.WithTimeout(context.Background(), 600*time.Millisecond)
				fin, _, err := g.Start(ctx, "me")
				nd.Assert(err == nil && s.holds("me") == 1, "a free slot could not be got with a governor that was used before")
				if i > 0 {
					nd.Reach("reused")
				}
				_, _, err = g.Start(ctx, "me")
				nd.Assert(err != nil && s.holds("me") == 1, "a governor got two slots at once")
				nd.Reach("once")
				cancel()
				err = fin()
				nd.Assert(err == nil && s.used() == 0, "a slot could not be left")
			}
		}
		done = true
	}()
	time.Sleep(5 * time.Second)
	nd.Assert(done, "a governor that was used before waits for ever")
}
