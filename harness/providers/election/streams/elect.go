package election

import (
	"context"
	"errors"
	"sync"
	"time"

	"github.com/nats-io/nats.go"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:clock . internal/util backoff
//verif:replace math/rand/v2.N verifSplay

// verifSplay makes members start together or apart
func verifSplay[T int | int64 | time.Duration | uint64](n T) T {
	switch nd.Choice("splay", 3) {
	case 0:
		return 0
	case 1:
		return n / 2
	default:
		return n - 1
	}
}

// verifBucket is a bucket with one key that expires, as a server would keep it
type verifBucket struct {
	nats.KeyValue

	mu      sync.Mutex
	ttl     time.Duration
	seq     uint64
	owner   string
	at      time.Time
	ops     map[string]int
	last    map[string]time.Time
	faults  int // how many more requests can fail
	noState int // how many more Status calls fail
	took    time.Duration
}

var errVerifLost = nats.ErrNoResponders

func newVerifBucket(ttl time.Duration) *verifBucket {
	return &verifBucket{ttl: ttl, ops: map[string]int{}, last: map[string]time.Time{}}
}

// verifStatus is the status of a bucket
type verifStatus struct {
	nats.KeyValueStatus
	ttl time.Duration
}

func (s *verifStatus) TTL() time.Duration { return s.ttl }

func (b *verifBucket) Status() (nats.KeyValueStatus, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.noState > 0 {
		b.noState--
		return nil, errVerifLost
	}
	return &verifStatus{ttl: b.ttl}, nil
}

// begin is a request that reaches the server, or not, and what the client gets of its reply
func (b *verifBucket) begin(key string, name string) (applies bool, err error) {
	nd.Assert(key == "key", "another key than that of the election was used")
	b.mu.Lock()
	b.ops[name]++
	b.last[name] = nd.Now()
	fault := 0
	if b.faults > 0 {
		fault = nd.Choice("request", 4)
	}
	if fault != 0 {
		b.faults--
	}
	b.mu.Unlock()

	if b.took > 0 {
		time.Sleep(b.took)
	}

	switch fault {
	case 1:
		return false, errVerifLost
	case 2:
		return true, nats.ErrTimeout
	case 3:
		return false, nats.ErrTimeout
	default:
		return true, nil
	}
}

func (b *verifBucket) held() bool {
	return b.owner != "" && nd.Since(b.at) < b.ttl
}

func (b *verifBucket) Create(key string, value []byte) (uint64, error) {
	applies, err := b.begin(key, string(value))
	b.mu.Lock()
	defer b.mu.Unlock()
	if applies {
		if b.held() {
			return 0, nats.ErrKeyExists
		}
		b.seq++
		b.owner, b.at = string(value), nd.Now()
	}
	return b.seq, err
}

func (b *verifBucket) Update(key string, value []byte, last uint64) (uint64, error) {
	applies, err := b.begin(key, string(value))
	b.mu.Lock()
	defer b.mu.Unlock()
	if applies {
		have := uint64(0)
		if b.held() {
			have = b.seq
		}
		if have != last {
			return 0, errors.New("nats: wrong last sequence")
		}
		b.seq++
		b.owner, b.at = string(value), nd.Now()
	}
	return b.seq, err
}

// verifCandidate is one member of the election and what it was told
type verifCandidate struct {
	name    string
	e       *election
	leads   bool
	won     int
	lost    int
	stopped bool
	ended   bool
	err     error
}

type verifElection struct {
	mu sync.Mutex
	b  *verifBucket
	c  []*verifCandidate
}

func newVerifElection(ttl time.Duration, names ...string) *verifElection {
	v := &verifElection{b: newVerifBucket(ttl)}
	for _, n := range names {
		c := &verifCandidate{name: n}
		e, err := NewElection(n, "key", v.b,
			OnWon(func() { v.onWon(c) }),
			OnLost(func() { v.onLost(c) }),
			OnCampaign(func(s State) {
				nd.Assert(s == LeaderState || s == CandidateState, "a campaign was made in another state than leader or candidate")
			}))
		nd.Assert(err == nil, "no election could be made")
		c.e = e
		v.c = append(v.c, c)
	}
	return v
}

func (v *verifElection) onWon(c *verifCandidate) {
	v.mu.Lock()
	defer v.mu.Unlock()
	nd.Reach("won")
	nd.Assert(!c.leads, "a leader was told that it won once more")
	for _, o := range v.c {
		nd.Assert(o == c || !o.leads, "a member won while another one leads")
	}
	nd.Assert(v.b.owner == c.name, "a member won that does not hold the key")
	c.leads = true
	c.won++
}

func (v *verifElection) onLost(c *verifCandidate) {
	v.mu.Lock()
	defer v.mu.Unlock()
	nd.Reach("lost")
	c.leads = false
	c.lost++
}

func (v *verifElection) start(ctx context.Context, c *verifCandidate) {
	go func() {
		v.mu.Lock()
		c.ended = false
		v.mu.Unlock()
		err := c.e.Start(ctx)
		v.mu.Lock()
		c.ended, c.err, c.leads = true, err, false
		v.mu.Unlock()
	}()
}

// leaders is who says it is the leader now
func (v *verifElection) leaders() []string {
	res := []string{}
	for _, c := range v.c {
		if c.e.IsLeader() {
			res = append(res, c.name)
		}
	}
	return res
}

// verifBackoff campaigns more slowly after each failure
type verifBackoff struct{}

func (verifBackoff) Duration(n int) time.Duration {
	if n > 2 {
		n = 2
	}
	return time.Duration(n+2) * time.Second
}

//verif:harness prop=E01 reach=won,lost,elected,moved,stayed deadlock=violation preempt=0 delays=2 seconds=60 t.delays=3 t.seconds=400 horizon=1h timers=600 clock=frozen
//verif:bounds two members of an election with a 5 second TTL that start at once, in the middle or at the end of the start splay, up to 2 requests (3 in thorough) that fail before or after the server acted on them, or that all take half a second, campaigning on the default interval or with a backoff of 2 to 4 seconds, for 25 seconds (50 in thorough)
func VerifElect() {
	v := newVerifElection(5*time.Second, "a", "b")
	switch nd.Choice("mode", 3) {
	case 1:
		v.b.took = 500 * time.Millisecond
	case 2:
		for _, c := range v.c {
			WithBackoff(verifBackoff{})(c.e.opts)
		}
	}
	v.b.faults = 2
	total := 25
	if nd.Thorough() {
		v.b.faults = 3
		total = 50
	}
	faults := v.b.faults
	ctx, cancel := context.WithCancel(context.Background())
	for _, c := range v.c {
		v.start(ctx, c)
	}

	first := ""
	moved := false
	for s := 0; s < total; s++ {
		time.Sleep(time.Second)
		before := nd.Now()
		l := v.leaders()
		if nd.Since(before) == 0 {
			nd.Assert(len(l) < 2, "two members lead at once")
		}
		if len(l) == 1 {
			nd.Reach("elected")
			if first != "" && first != l[0] {
				nd.Reach("moved")
				moved = true
			}
			first = l[0]
		}
	}
	if v.b.faults == faults {
		nd.Reach("stayed")
		nd.Assert(first != "" && !moved, "no fault, and none or different members were elected")
		nd.Assert(v.c[0].won+v.c[1].won == 1, "no fault, and not just one member was told that it won")
	}
	for _, c := range v.c {
		nd.Assert(!c.ended, "a member gave up on the election")
	}
	cancel()
	time.Sleep(2 * time.Second)
	nd.Assert(v.c[0].ended && v.c[1].ended, "the election goes on after the context ended")
	nd.Assert(len(v.leaders()) == 0, "a member leads after the context ended")
}

// verifStop stops an election, which may have to wait for a request
func verifStop(c *verifCandidate) {
	done := false
	go func() {
		c.e.Stop()
		done = true
	}()
	for i := 0; i < 20 && !done; i++ {
		time.Sleep(100 * time.Millisecond)
	}
	nd.Assert(done, "stopping an election blocks for ever")
}

//verif:harness prop=E01 reach=never,early,leading,busy,again,taken deadlock=violation preempt=0 delays=3 seconds=60 t.delays=4 t.seconds=400 horizon=1h timers=600 clock=frozen
//verif:bounds two members of an election with a 5 second TTL, of which one is stopped at any multiple of 250 milliseconds up to 10 seconds, once or twice, also while a request of half a second is made or fails, and maybe started again
func VerifElectStop() {
	v := newVerifElection(5*time.Second, "a", "b")
	if nd.Bool("slow") {
		v.b.took = 500 * time.Millisecond
	}
	ctx, cancel := context.WithCancel(context.Background())
	a, b := v.c[0], v.c[1]
	finished := false

	go func() {
		if nd.Bool("never-started") {
			verifStop(a)
			nd.Reach("never")
			v.start(ctx, a)
		} else {
			v.start(ctx, a)
		}
		when := time.Duration(nd.Choice("when", 40))*250*time.Millisecond + 100*time.Millisecond
		time.Sleep(when)
		if v.b.took > 0 && v.b.ops["a"] > 0 && nd.Since(v.b.last["a"]) < v.b.took {
			nd.Reach("busy")
		}
		if v.b.ops["a"] == 0 {
			nd.Reach("early")
		}
		if a.e.IsLeader() {
			nd.Reach("leading")
		}
		verifStop(a)
		nd.Assert(!a.e.IsLeader(), "a member leads after it was stopped")
		won, ops := a.won, v.b.ops["a"]
		v.mu.Lock()
		a.leads = false
		v.mu.Unlock()
		if nd.Bool("twice") {
			verifStop(a)
		}
		time.Sleep(time.Second)
		nd.Assert(a.ended, "the election goes on after it was stopped")
		nd.Assert(a.err == nil, "stopping an election is an error")
		verifStop(a)

		v.start(ctx, b)
		time.Sleep(16 * time.Second)
		nd.Assert(a.won == won, "a member won after it was stopped")
		nd.Assert(v.b.ops["a"] == ops, "a member campaigned after it was stopped")
		nd.Assert(!a.e.IsLeader(), "a member leads after it was stopped")
		nd.Reach("taken")
		nd.Assert(b.e.IsLeader() && b.won == 1, "no other member was elected after the leader was stopped")

		if nd.Bool("again") {
			verifStop(b)
			time.Sleep(time.Second)
			v.mu.Lock()
			a.ended = false
			v.mu.Unlock()
			v.start(ctx, a)
			time.Sleep(16 * time.Second)
			nd.Reach("again")
			nd.Assert(a.e.IsLeader() && a.won == won+1, "a member that was stopped and started again is not elected")
		}
		finished = true
		cancel()
	}()

	time.Sleep(50 * time.Second)
	nd.Assert(finished, "using an election blocks for ever")
}

//verif:harness prop=E01 reach=failed,running,elected,invalid deadlock=violation preempt=0 delays=2 seconds=60 horizon=1h timers=600 clock=frozen
//verif:bounds an election for which the status of the bucket cannot be got until its start is given up, or whose TTL is 0 to 2 seconds or an hour and more, that is then started again, and twice
func VerifElectStart() {
	v := newVerifElection(5*time.Second, "a")
	a := v.c[0]
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
	defer cancel()
	finished := false

	go func() {
		known := true
		switch nd.Choice("ttl", 5) {
		case 0:
			v.b.noState = 1000
			known = false
		case 1:
			v.b.ttl = 0
		case 2:
			v.b.ttl = 999 * time.Millisecond
		case 3:
			v.b.ttl = 3 * time.Second
		default:
			v.b.ttl = time.Hour + time.Second
		}
		err := a.e.Start(ctx)
		nd.Assert(err != nil, "an election starts that could not know its bucket or is not valid")
		nd.Assert(v.b.ops["a"] == 0, "an election that did not start campaigned")
		nd.Assert(!a.e.IsLeader(), "an election that did not start leads")
		if known {
			nd.Reach("invalid")
			finished = true
			return
		}
		nd.Reach("failed")
		if nd.Bool("stop") {
			verifStop(a)
		}

		v.b.noState = 0
		v.b.ttl = 5 * time.Second
		again, stop := context.WithCancel(context.Background())
		v.start(again, a)
		time.Sleep(2 * time.Second)
		nd.Assert(!a.ended, "an election that did not start cannot be started again")
		err = a.e.Start(again)
		nd.Assert(err != nil, "an election that runs can be started once more")
		nd.Reach("running")
		time.Sleep(10 * time.Second)
		nd.Assert(a.e.IsLeader(), "the only member of an election is not elected")
		nd.Reach("elected")
		stop()
		time.Sleep(time.Second)
		nd.Assert(a.ended, "the election goes on after its context ended")
		finished = true
	}()

	time.Sleep(30 * time.Second)
	nd.Assert(finished, "using an election blocks for ever")
}
