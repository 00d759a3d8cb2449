From 56fa736a3cb79641dd31cd0eb1ff426c59b21b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 01/94] fix: decimal fact values equal to the filter value no
 longer match the > operator

---
 filter/facts/matchers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/facts/matchers.go b/filter/facts/matchers.go
index 42f5bf4..3debf41 100644
--- a/filter/facts/matchers.go
+++ b/filter/facts/matchers.go
@@ -169,7 +169,7 @@ func gtMatch(fact gjson.Result, value string) (bool, error) {
 				return false, err
 			}
 
-			return fact.Float() >= f, nil
+			return fact.Float() > f, nil
 		}
 
 		v, err := strconv.Atoi(value)
-- 
2.43.0


From 97b4ffe263ae458ffc3ec5dae1515cc428354116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:30 +0000
Subject: [PATCH 02/94] fix: several compound filters no longer match when one
 of them does not

---
 filter/compound/compound.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/compound/compound.go b/filter/compound/compound.go
index 628b1cf..d90b488 100644
--- a/filter/compound/compound.go
+++ b/filter/compound/compound.go
@@ -101,7 +101,7 @@ func MatchExprString(queries [][]map[string]string, facts json.RawMessage, class
 		if res {
 			matched++
 		} else {
-			matched--
+			failed++
 		}
 	}
 
-- 
2.43.0


From 0c7bc54ce8b2535870e7bc4da9e107eb0244c7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:15 +0000
Subject: [PATCH 03/94] fix: refuse callers whose token has no permissions
 instead of panicking

---
 providers/security/choria/choria_security.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/providers/security/choria/choria_security.go b/providers/security/choria/choria_security.go
index fc150ac..3d79c62 100644
--- a/providers/security/choria/choria_security.go
+++ b/providers/security/choria/choria_security.go
@@ -642,9 +642,6 @@ func (s *ChoriaSecurity) shouldAllowCallerUnsigned(name string, caller []byte) (
 
 	// technically already done in sig verify but cant harm
 	if token.Permissions == nil || !(token.Permissions.SignedFleetManagement || token.Permissions.FleetManagement) {
-		if token.Permissions.SignedFleetManagement {
-			return false, fmt.Errorf("requires signed fleet management access")
-		}
 		return false, fmt.Errorf("does not have fleet management access")
 	}
 
-- 
2.43.0


From 2fd13eebca18394b5f457490d4d6ee1f53bacffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:37 +0000
Subject: [PATCH 04/94] fix: null transport headers, secure replies and reply
 envelopes from the network no longer crash the receiver

---
 protocol/v1/constructors.go | 27 ++++++++++++++++++---------
 protocol/v2/secure_reply.go |  2 +-
 protocol/v2/transport.go    | 13 +++++++++----
 3 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/protocol/v1/constructors.go b/protocol/v1/constructors.go
index 09ef8e2..0ebe0fe 100644
--- a/protocol/v1/constructors.go
+++ b/protocol/v1/constructors.go
@@ -69,22 +69,26 @@ func NewReplyFromSecureReply(sr protocol.SecureReply) (rep protocol.Reply, err e
 		return nil, fmt.Errorf("cannot create a version 1 SecureReply from a %s SecureReply", sr.Version())
 	}
 
-	rep = &Reply{
+	reply := &Reply{
 		Protocol: protocol.ReplyV1,
 		Envelope: &ReplyEnvelope{},
 	}
 
-	err = rep.IsValidJSON(sr.Message())
+	err = reply.IsValidJSON(sr.Message())
 	if err != nil {
 		return nil, fmt.Errorf("the JSON body from the SecureReply is not a valid Reply message: %s", err)
 	}
 
-	err = json.Unmarshal(sr.Message(), rep)
+	err = json.Unmarshal(sr.Message(), reply)
 	if err != nil {
 		return nil, fmt.Errorf("could not parse JSON data from Secure Reply: %s", err)
 	}
 
-	return rep, nil
+	if reply.Envelope == nil {
+		return nil, fmt.Errorf("the Reply in the Secure Reply has no envelope")
+	}
+
+	return reply, nil
 }
 
 // NewRequestFromSecureRequest creates a choria::request:1 based on the data contained in a SecureRequest
@@ -151,7 +155,7 @@ func NewSecureReplyFromTransport(message protocol.TransportMessage, security int
 		return nil, fmt.Errorf("the JSON body from the TransportMessage is not a valid SecureReply message: %s", err)
 	}
 
-	err = json.Unmarshal(data, &secure)
+	err = json.Unmarshal(data, secure)
 	if err != nil {
 		return nil, err
 	}
@@ -285,19 +289,24 @@ func NewTransportMessage(certname string) (message protocol.TransportMessage, er
 
 // NewTransportFromJSON creates a new TransportMessage from JSON
 func NewTransportFromJSON(data []byte) (message protocol.TransportMessage, err error) {
-	message = &TransportMessage{
+	transport := &TransportMessage{
 		Headers: &TransportHeaders{},
 	}
 
-	err = message.IsValidJSON(data)
+	err = transport.IsValidJSON(data)
 	if err != nil {
 		return nil, err
 	}
 
-	err = json.Unmarshal(data, &message)
+	err = json.Unmarshal(data, transport)
 	if err != nil {
 		return nil, err
 	}
 
-	return message, nil
+	// a null in the received JSON removes the headers set above
+	if transport.Headers == nil {
+		transport.Headers = &TransportHeaders{}
+	}
+
+	return transport, nil
 }
diff --git a/protocol/v2/secure_reply.go b/protocol/v2/secure_reply.go
index 8fbd553..d931ac1 100644
--- a/protocol/v2/secure_reply.go
+++ b/protocol/v2/secure_reply.go
@@ -72,7 +72,7 @@ func NewSecureReplyFromTransport(message protocol.TransportMessage, security int
 		return nil, fmt.Errorf("the JSON body from the TransportMessage is not a valid SecureReply message: %s", err)
 	}
 
-	err = json.Unmarshal(data, &secure)
+	err = json.Unmarshal(data, secure)
 	if err != nil {
 		return nil, err
 	}
diff --git a/protocol/v2/transport.go b/protocol/v2/transport.go
index 31a5db9..4e63633 100644
--- a/protocol/v2/transport.go
+++ b/protocol/v2/transport.go
@@ -58,21 +58,26 @@ func NewTransportMessage(sender string) (message protocol.TransportMessage, err
 
 // NewTransportFromJSON creates a new TransportMessage from JSON
 func NewTransportFromJSON(data []byte) (message protocol.TransportMessage, err error) {
-	message = &TransportMessage{
+	transport := &TransportMessage{
 		Headers: &TransportHeaders{},
 	}
 
-	err = message.IsValidJSON(data)
+	err = transport.IsValidJSON(data)
 	if err != nil {
 		return nil, err
 	}
 
-	err = json.Unmarshal(data, &message)
+	err = json.Unmarshal(data, transport)
 	if err != nil {
 		return nil, err
 	}
 
-	return message, nil
+	// a null in the received JSON removes the headers set above
+	if transport.Headers == nil {
+		transport.Headers = &TransportHeaders{}
+	}
+
+	return transport, nil
 }
 
 func (m *TransportMessage) SetFederationRequestID(id string) {
-- 
2.43.0


From 78f0a29257e8fd7610eed33eccbe1e7cd602f0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:40 +0000
Subject: [PATCH 05/94] fix: grouping a part of a slice no longer overwrites
 the rest of it

---
 internal/util/util.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 6597d84..35afb9e 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -242,7 +242,8 @@ func SliceGroups(input []string, size int, fn func(group []string)) {
 			p = append(p, "")
 		}
 
-		input = append(input, p...)
+		// never pad in the spare capacity of the slice, the caller might use it
+		input = append(input[:len(input):len(input)], p...)
 	}
 
 	// how many chunks we're making
@@ -269,7 +270,8 @@ func SliceVerticalGroups(input []string, size int, fn func(group []string)) {
 			p = append(p, "")
 		}
 
-		input = append(input, p...)
+		// never pad in the spare capacity of the slice, the caller might use it
+		input = append(input[:len(input):len(input)], p...)
 	}
 
 	// how many chunks we're making
-- 
2.43.0


From 04eabf43157aecc0373e915fa96b482f9b44fa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:49 +0000
Subject: [PATCH 06/94] fix: failures to publish a group of a federated direct
 request are not lost when a later group succeeds

---
 choria/connection.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/choria/connection.go b/choria/connection.go
index 110244c..a596d3c 100644
--- a/choria/connection.go
+++ b/choria/connection.go
@@ -375,6 +375,11 @@ func (conn *Connection) publishFederatedDirect(msg inter.Message, transport prot
 	var err error
 
 	util.SliceGroups(msg.DiscoveredHosts(), 200, func(nodes []string) {
+		// a failure to publish an earlier group
+		if err != nil {
+			return
+		}
+
 		targets := []string{}
 		var j []byte
 
-- 
2.43.0


From 03dd812aaee8827bfa210e1a127c5b301c3406b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:39 +0000
Subject: [PATCH 07/94] fix: an agent that replies after its timeout no longer
 blocks forever

---
 server/agents/agents.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/agents/agents.go b/server/agents/agents.go
index 10d2553..a344530 100644
--- a/server/agents/agents.go
+++ b/server/agents/agents.go
@@ -364,7 +364,8 @@ func (a *Manager) Dispatch(ctx context.Context, wg *sync.WaitGroup, replies chan
 		return
 	}
 
-	result := make(chan *AgentReply)
+	// has space for the reply of an agent that finishes after nothing waits for it anymore
+	result := make(chan *AgentReply, 1)
 
 	td := time.Duration(agent.Metadata().Timeout) * time.Second
 	a.log.Debugf("Handling message %s with timeout %s", msg.RequestID(), td)
-- 
2.43.0


From 0ac69882117fe195efdc2398c6bf5f9be41ca7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:29 +0000
Subject: [PATCH 08/94] fix: failures to subscribe or unsubscribe an agent
 leave no stale subscriptions behind

---
 server/agents/agents.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/agents/agents.go b/server/agents/agents.go
index a344530..1309d6f 100644
--- a/server/agents/agents.go
+++ b/server/agents/agents.go
@@ -7,6 +7,7 @@ package agents
 import (
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"sort"
 	"sync"
@@ -287,16 +288,17 @@ func (a *Manager) unSubscribeAgent(name string, conn inter.AgentConnector) error
 		return nil
 	}
 
+	var errs []error
 	for _, sub := range subs {
 		err := conn.Unsubscribe(sub)
 		if err != nil {
-			return err
+			errs = append(errs, err)
 		}
 	}
 
 	delete(a.subs, name)
 
-	return nil
+	return errors.Join(errs...)
 }
 
 // Subscribes an agent to all its targets on the connector.  Should any subscription fail
@@ -334,6 +336,7 @@ func (a *Manager) subscribeAgent(ctx context.Context, name string, agent Agent,
 			for _, sub := range a.subs[name] {
 				conn.Unsubscribe(sub)
 			}
+			delete(a.subs, name)
 
 			return fmt.Errorf("subscription failed: %s", err)
 		}
-- 
2.43.0


From 92d178b9660da874abd0a04dee2482aceacbc5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:33 +0000
Subject: [PATCH 09/94] fix: a limit larger than the list of targets does not
 add nameless targets

---
 providers/agent/mcorpc/client/options.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/providers/agent/mcorpc/client/options.go b/providers/agent/mcorpc/client/options.go
index ad9fb5a..75c7e6a 100644
--- a/providers/agent/mcorpc/client/options.go
+++ b/providers/agent/mcorpc/client/options.go
@@ -402,8 +402,13 @@ func (o *RequestOptions) limitTargets(targets []string) (limited []string, err e
 		return limited, fmt.Errorf("no targets left after applying target limits of '%s'", o.LimitSize)
 	}
 
-	limited = make([]string, count)
-	copy(limited, o.shuffleLimitedTargets(targets))
+	limited = make([]string, len(targets))
+	copy(limited, targets)
+	limited = o.shuffleLimitedTargets(limited)
 
-	return limited, err
+	if count < len(limited) {
+		limited = limited[:count]
+	}
+
+	return limited, nil
 }
-- 
2.43.0


From 5757fefcfa8a7f4d1dbf52c2ea82b70a0d064046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:36 +0000
Subject: [PATCH 10/94] fix: a request with a negative batch size is not
 batched instead of never sent

---
 providers/agent/mcorpc/client/options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/client/options.go b/providers/agent/mcorpc/client/options.go
index 75c7e6a..0e10ec4 100644
--- a/providers/agent/mcorpc/client/options.go
+++ b/providers/agent/mcorpc/client/options.go
@@ -95,7 +95,7 @@ func (o *RequestOptions) ConfigureMessage(msg inter.Message) (err error) {
 			return fmt.Errorf("batched mode requires %s mode", inter.DirectRequestMessageType)
 		}
 
-		if o.BatchSize == 0 {
+		if o.BatchSize <= 0 {
 			o.BatchSize = len(o.Targets)
 		}
 
-- 
2.43.0


From f3d6b20607c640d63cd73b63b873483bade8266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:19 +0000
Subject: [PATCH 11/94] fix: requests made with an earlier used client wait for
 their own receivers and do not block forever

---
 client/client/client.go | 44 ++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/client/client/client.go b/client/client/client.go
index 363d6f8..fa54a73 100644
--- a/client/client/client.go
+++ b/client/client/client.go
@@ -27,19 +27,18 @@ import (
 
 // Client is a basic low level high performance Choria client
 type Client struct {
-	ctx           context.Context
-	cancel        func()
-	fw            inter.Framework
-	cfg           *config.Config
-	wg            *sync.WaitGroup
-	receiverReady chan struct{}
-	replies       chan inter.ConnectorMessage
-	timeout       time.Duration
-	conn          Connector
-	receivers     int
-	log           *logrus.Entry
-	name          string
-	mu            sync.Mutex
+	ctx       context.Context
+	cancel    func()
+	fw        inter.Framework
+	cfg       *config.Config
+	wg        *sync.WaitGroup
+	replies   chan inter.ConnectorMessage
+	timeout   time.Duration
+	conn      Connector
+	receivers int
+	log       *logrus.Entry
+	name      string
+	mu        sync.Mutex
 
 	startPublishCB func()
 	endPublishCB   func()
@@ -81,8 +80,6 @@ func New(fw inter.Framework, opts ...Option) (*Client, error) {
 		c.name = c.fw.CallerID()
 	}
 
-	c.receiverReady = make(chan struct{}, c.receivers)
-
 	return c, nil
 }
 
@@ -101,19 +98,22 @@ func (c *Client) Request(ctx context.Context, msg inter.Message, handler Handler
 	c.ctx, c.cancel = context.WithCancel(ctx)
 	defer c.cancel()
 
+	// every request has its own, else it sees receivers of earlier requests as its own being ready
+	receiverReady := make(chan struct{}, c.receivers)
+
 	if handler != nil {
 		c.log.Debugf("Starting %d receivers on %s", c.receivers, msg.ReplyTo())
 
 		for i := 0; i < c.receivers; i++ {
 			c.wg.Add(1)
-			go c.receiver(i, msg.ReplyTo(), handler)
+			go c.receiver(i, msg.ReplyTo(), handler, receiverReady)
 		}
 	} else {
-		c.receiverReady <- struct{}{}
+		receiverReady <- struct{}{}
 	}
 
 	c.log.Debugf("Publishing message with reply to %s", msg.ReplyTo())
-	err = c.publish(msg)
+	err = c.publish(msg, receiverReady)
 	if err != nil {
 		return err
 	}
@@ -123,7 +123,7 @@ func (c *Client) Request(ctx context.Context, msg inter.Message, handler Handler
 	return err
 }
 
-func (c *Client) publish(msg inter.Message) error {
+func (c *Client) publish(msg inter.Message, receiverReady chan struct{}) error {
 	c.mu.Lock()
 	conn := c.conn
 	c.mu.Unlock()
@@ -138,7 +138,7 @@ func (c *Client) publish(msg inter.Message) error {
 	}
 
 	select {
-	case <-c.receiverReady:
+	case <-receiverReady:
 	case <-c.ctx.Done():
 		return nil
 	}
@@ -160,7 +160,7 @@ func (c *Client) publish(msg inter.Message) error {
 	return nil
 }
 
-func (c *Client) receiver(i int, target string, cb Handler) {
+func (c *Client) receiver(i int, target string, cb Handler, receiverReady chan struct{}) {
 	defer c.wg.Done()
 
 	c.mu.Lock()
@@ -187,7 +187,7 @@ func (c *Client) receiver(i int, target string, cb Handler) {
 
 	conn.QueueSubscribe(c.ctx, "replies", target, grp, c.replies)
 
-	c.receiverReady <- struct{}{}
+	receiverReady <- struct{}{}
 }
 
 func (c *Client) msgHandler(cb Handler) {
-- 
2.43.0


From 6f5ed32f2756f31733d57a677aaec33d4dbd6c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:08 +0000
Subject: [PATCH 12/94] fix: messages that cannot be removed from the spool are
 not published again on every poll

---
 submission/disk_spool.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/submission/disk_spool.go b/submission/disk_spool.go
index 36ece62..b887fb3 100644
--- a/submission/disk_spool.go
+++ b/submission/disk_spool.go
@@ -170,9 +170,9 @@ func (d *DirectorySpool) processDir(priority uint, dir string, handler func([]*M
 	found := make(map[string]struct{})
 
 	for _, entry := range entries {
-		found[entry.Name()] = struct{}{}
-
 		msgPath := filepath.Join(dir, entry.Name())
+		found[msgPath] = struct{}{}
+
 		if _, skip := skipList[msgPath]; skip {
 			os.Remove(msgPath) // maybe it works this time
 			continue
-- 
2.43.0


From ee293864c97938e9a767973c7f43dc8881fe392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:43 +0000
Subject: [PATCH 13/94] fix: a crash while recording a delivery attempt does
 not destroy a spooled message

---
 submission/disk_spool.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/submission/disk_spool.go b/submission/disk_spool.go
index b887fb3..2260fe9 100644
--- a/submission/disk_spool.go
+++ b/submission/disk_spool.go
@@ -109,7 +109,7 @@ func (d *DirectorySpool) IncrementTries(m *Message) error {
 		return err
 	}
 
-	err = os.WriteFile(m.sm.(string), jm, 0600)
+	err = d.replaceFile(m.sm.(string), jm)
 	if err != nil {
 		d.log.Errorf("Could not increment tries in message %s, discarding: %s", m.sm, err)
 		d.slMu.Lock()
@@ -122,6 +122,23 @@ func (d *DirectorySpool) IncrementTries(m *Message) error {
 	return nil
 }
 
+// replaceFile replaces path using a temporary file so that a crash or a failed write cannot damage what is stored in it
+func (d *DirectorySpool) replaceFile(path string, data []byte) error {
+	f, err := os.CreateTemp(d.directory, "")
+	if err != nil {
+		return err
+	}
+	f.Close()
+	defer os.Remove(f.Name())
+
+	err = os.WriteFile(f.Name(), data, 0600)
+	if err != nil {
+		return err
+	}
+
+	return os.Rename(f.Name(), path)
+}
+
 func (d *DirectorySpool) removeCompletedWithSkip(path string, skipList map[string]struct{}) {
 	if path == "" {
 		return
-- 
2.43.0


From 2176c41f4acaa0de961c7c881c7a2bc0f5370f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:42 +0000
Subject: [PATCH 14/94] fix: a timer watcher does not run several timers, or
 one after it was stopped, when states change quickly

---
 aagent/watchers/timerwatcher/timer.go | 69 +++++++++++++++------------
 1 file changed, 38 insertions(+), 31 deletions(-)

diff --git a/aagent/watchers/timerwatcher/timer.go b/aagent/watchers/timerwatcher/timer.go
index 6cdf71e..8abfcb7 100644
--- a/aagent/watchers/timerwatcher/timer.go
+++ b/aagent/watchers/timerwatcher/timer.go
@@ -46,6 +46,7 @@ type Watcher struct {
 	state   State
 
 	terminate   chan struct{}
+	timerCtx    context.Context
 	cancelTimer func()
 	mu          *sync.Mutex
 }
@@ -93,67 +94,73 @@ func (w *Watcher) forceTimerStop() {
 	}
 }
 
-func (w *Watcher) timeStart() {
+func (w *Watcher) timeStart(ctx context.Context) {
+	ctx, cancel := context.WithCancel(ctx)
+
+	// the timer is recorded before it starts so that stopping or resetting it always finds it
 	w.mu.Lock()
-	cancel := w.cancelTimer
+	previous := w.cancelTimer
+	w.timerCtx = ctx
+	w.cancelTimer = cancel
+	w.state = Running
 	w.mu.Unlock()
 
-	if cancel != nil {
+	if previous != nil {
 		w.Infof("Timer was running, resetting to %v", w.properties.Timer)
-		cancel()
+		previous()
 	}
 
 	go func() {
-		timer := time.NewTimer(w.properties.Timer)
-		ctx, cancel := context.WithCancel(context.Background())
+		defer cancel()
 
-		w.mu.Lock()
-		w.state = Running
-		w.cancelTimer = cancel
-		w.mu.Unlock()
+		timer := time.NewTimer(w.properties.Timer)
+		defer timer.Stop()
 
 		w.NotifyWatcherState(w.CurrentState())
 
 		select {
 		case <-timer.C:
-			w.mu.Lock()
-			w.state = Stopped
-			if w.cancelTimer != nil {
-				w.cancelTimer()
+			if !w.timeStopped(ctx) {
+				return
 			}
-			w.cancelTimer = nil
-			w.mu.Unlock()
 
 			w.NotifyWatcherState(w.CurrentState())
 			w.FailureTransition()
 
 		case <-ctx.Done():
-			w.mu.Lock()
-			w.cancelTimer = nil
-			timer.Stop()
-			w.state = Stopped
-			w.mu.Unlock()
-
+			w.timeStopped(ctx)
 			w.NotifyWatcherState(w.CurrentState())
 
 		case <-w.terminate:
-			w.mu.Lock()
-			w.cancelTimer = nil
-			w.state = Stopped
-			w.mu.Unlock()
-			return
+			w.timeStopped(ctx)
 		}
 	}()
 }
 
-func (w *Watcher) watch() {
+// timeStopped records that the timer using ctx stopped, false when it was stopped early or replaced by another
+func (w *Watcher) timeStopped(ctx context.Context) bool {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+
+	if w.timerCtx != ctx {
+		return false
+	}
+
+	w.timerCtx = nil
+	w.cancelTimer = nil
+	w.state = Stopped
+
+	return ctx.Err() == nil
+}
+
+func (w *Watcher) watch(ctx context.Context) {
 	if !w.ShouldWatch() {
 		w.forceTimerStop()
 		return
 	}
 
 	w.Infof("Starting timer")
-	w.timeStart()
+	w.timeStart(ctx)
 }
 
 func (w *Watcher) Run(ctx context.Context, wg *sync.WaitGroup) {
@@ -162,12 +169,12 @@ func (w *Watcher) Run(ctx context.Context, wg *sync.WaitGroup) {
 	w.Infof("Timer watcher starting with %v timer", w.properties.Timer)
 
 	// handle initial state
-	w.watch()
+	w.watch(ctx)
 
 	for {
 		select {
 		case <-w.StateChangeC():
-			w.watch()
+			w.watch(ctx)
 		case <-w.terminate:
 			w.Infof("Handling terminate notification")
 			return
-- 
2.43.0


From 55da590d9b8673211671b374f84b8bd1dcbdb026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:45 +0000
Subject: [PATCH 15/94] fix: schedules without a duration last the default
 duration instead of ending at once

---
 aagent/watchers/schedulewatcher/schedule.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aagent/watchers/schedulewatcher/schedule.go b/aagent/watchers/schedulewatcher/schedule.go
index 4424ba7..a9300bb 100644
--- a/aagent/watchers/schedulewatcher/schedule.go
+++ b/aagent/watchers/schedulewatcher/schedule.go
@@ -239,6 +239,12 @@ func (w *Watcher) setProperties(props map[string]any) error {
 		return err
 	}
 
+	// sets defaults that the items use
+	err = w.validate()
+	if err != nil {
+		return err
+	}
+
 	for _, spec := range w.properties.Schedules {
 		item, err := newSchedItem(spec, w)
 		if err != nil {
@@ -252,7 +258,7 @@ func (w *Watcher) setProperties(props map[string]any) error {
 		return fmt.Errorf("start splay %v is bigger than half the duration %v", w.properties.StartSplay, w.properties.Duration)
 	}
 
-	return w.validate()
+	return nil
 }
 
 func (w *Watcher) CurrentState() any {
-- 
2.43.0


From 2a9929617ce5cf4acfd08efe9e2a21266d2dc4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:41 +0000
Subject: [PATCH 16/94] fix: removing a machine does not deadlock with one that
 transitions at the same time

---
 aagent/aagent.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/aagent/aagent.go b/aagent/aagent.go
index 12874ed..868f947 100644
--- a/aagent/aagent.go
+++ b/aagent/aagent.go
@@ -339,7 +339,7 @@ func (a *AAgent) watchSource(ctx context.Context, wg *sync.WaitGroup) {
 
 	// deletes machines not on disk anymore
 	cleanf := func() {
-		targets := []string{}
+		targets := []*managedMachine{}
 
 		a.Lock()
 		for _, m := range a.machines {
@@ -350,16 +350,18 @@ func (a *AAgent) watchSource(ctx context.Context, wg *sync.WaitGroup) {
 
 			if !util.FileExist(m.path) {
 				a.logger.Infof("Machine %s does not exist anymore in %s, terminating", m.machine.Name(), m.path)
-				targets = append(targets, m.path)
-				m.machine.Delete()
+				targets = append(targets, m)
 			}
 		}
 		a.Unlock()
 
-		for _, p := range targets {
-			err := a.deleteByPath(p)
+		for _, m := range targets {
+			// not while holding our lock, machines call back into it while they hold their own
+			m.machine.Delete()
+
+			err := a.deleteByPath(m.path)
 			if err != nil {
-				a.logger.Errorf("Could not terminate machine previously in %s: %s", p, err)
+				a.logger.Errorf("Could not terminate machine previously in %s: %s", m.path, err)
 			}
 		}
 	}
-- 
2.43.0


From ef6b1de1379f15a102f880db75d793483ce81293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:49 +0000
Subject: [PATCH 17/94] fix: transitions of machines that are loaded but not
 started do not crash the server

---
 aagent/machine/machine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aagent/machine/machine.go b/aagent/machine/machine.go
index e7ddd86..1b71249 100644
--- a/aagent/machine/machine.go
+++ b/aagent/machine/machine.go
@@ -733,6 +733,10 @@ func (m *Machine) Transition(t string, args ...any) error {
 		return nil
 	}
 
+	if m.ctx == nil {
+		return fmt.Errorf("machine is not started")
+	}
+
 	if m.Can(t) {
 		err := m.backoffTransition(t)
 		if err != nil {
-- 
2.43.0


From b73ac5b690609e77792d4b599ef2cfcb8a878379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:10 +0000
Subject: [PATCH 18/94] fix: a machine that waits for its start splay is not
 started again while it waits

---
 aagent/machine/machine.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/aagent/machine/machine.go b/aagent/machine/machine.go
index 1b71249..e055cb5 100644
--- a/aagent/machine/machine.go
+++ b/aagent/machine/machine.go
@@ -67,6 +67,7 @@ type Machine struct {
 	signerKey        string
 	choriaStatusFreq int
 	startTime        time.Time
+	starting         bool
 
 	embedded     bool
 	data         map[string]any
@@ -621,10 +622,24 @@ func (m *Machine) Setup() error {
 
 // Start runs the machine in the background
 func (m *Machine) Start(ctx context.Context, wg *sync.WaitGroup) (started chan struct{}) {
-	m.ctx, m.cancel = context.WithCancel(ctx)
+	ctx, cancel := context.WithCancel(ctx)
+
+	m.Lock()
+	m.ctx, m.cancel = ctx, cancel
+	m.starting = true
+	m.Unlock()
 
 	started = make(chan struct{}, 1)
 
+	finish := func(startTime time.Time) {
+		m.Lock()
+		m.starting = false
+		m.startTime = startTime
+		m.Unlock()
+
+		started <- struct{}{}
+	}
+
 	runf := func() {
 		if m.SplayStart > 0 {
 			sleep := time.Duration(rand.N(m.SplayStart)) * time.Second
@@ -634,24 +649,23 @@ func (m *Machine) Start(ctx context.Context, wg *sync.WaitGroup) (started chan s
 
 			select {
 			case <-t.C:
-			case <-m.ctx.Done():
-				m.startTime = time.Time{}
+			case <-ctx.Done():
 				m.Infof(m.MachineName, "Exiting on context interrupt")
-				started <- struct{}{}
+				finish(time.Time{})
 				return
 			}
 		}
 
 		m.Infof(m.MachineName, "Starting Choria Machine %s version %s from %s in state %s", m.MachineName, m.MachineVersion, m.directory, m.InitialState)
 
-		err := m.manager.Run(m.ctx, wg)
+		err := m.manager.Run(ctx, wg)
 		if err != nil {
 			m.Errorf(m.MachineName, "Could not start manager: %s", err)
-		} else {
-			m.startTime = time.Now().UTC()
+			finish(time.Time{})
+			return
 		}
 
-		started <- struct{}{}
+		finish(time.Now().UTC())
 	}
 
 	go runf()
@@ -659,12 +673,12 @@ func (m *Machine) Start(ctx context.Context, wg *sync.WaitGroup) (started chan s
 	return started
 }
 
-// IsStarted determines if the machine is currently running
+// IsStarted determines if the machine is currently running or waiting to start
 func (m *Machine) IsStarted() bool {
 	m.Lock()
 	defer m.Unlock()
 
-	return !m.startTime.IsZero()
+	return m.starting || !m.startTime.IsZero()
 }
 
 // Delete deletes a running machine by canceling its context and giving its manager
-- 
2.43.0


From 1f375e6e854a9a69515ee9ba196070f4570d8535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:09 +0000
Subject: [PATCH 19/94] fix: deleting machine data again after a failure to
 save does not report success while the data is still stored

---
 aagent/machine/machine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aagent/machine/machine.go b/aagent/machine/machine.go
index e055cb5..cc92bd8 100644
--- a/aagent/machine/machine.go
+++ b/aagent/machine/machine.go
@@ -846,7 +846,7 @@ func (m *Machine) DataDelete(key string) error {
 	m.dataMu.Lock()
 	defer m.dataMu.Unlock()
 
-	_, ok := m.data[key]
+	val, ok := m.data[key]
 	if !ok {
 		return nil
 	}
@@ -855,6 +855,8 @@ func (m *Machine) DataDelete(key string) error {
 
 	err := m.saveData()
 	if err != nil {
+		// it is still stored, deleting it again should try to save again
+		m.data[key] = val
 		m.Errorf("machine", "Could not save data to %s: %s", dataFileName, err)
 		return err
 	}
-- 
2.43.0


From fba0f9c70d9219e1e6b91ce6f043d971c2dbbeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:59 +0000
Subject: [PATCH 20/94] fix: stopping the autonomous agent host does not
 release the wait group more often than it was acquired

---
 aagent/aagent.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aagent/aagent.go b/aagent/aagent.go
index 868f947..8b748bc 100644
--- a/aagent/aagent.go
+++ b/aagent/aagent.go
@@ -94,6 +94,10 @@ func (a *AAgent) startHTTPListeners(ctx context.Context, wg *sync.WaitGroup) {
 		Handler:     mux,
 		Addr:        fmt.Sprintf(":%d", httpPort),
 	}
+
+	stop := context.AfterFunc(ctx, func() { srv.Close() })
+	defer stop()
+
 	err = srv.ListenAndServe()
 	if errors.Is(err, http.ErrServerClosed) {
 		return
@@ -104,7 +108,7 @@ func (a *AAgent) startHTTPListeners(ctx context.Context, wg *sync.WaitGroup) {
 
 // ManageMachines start observing the source directories starting and stopping machines based on changes on disk
 func (a *AAgent) ManageMachines(ctx context.Context, wg *sync.WaitGroup) error {
-	wg.Add(1)
+	wg.Add(2)
 	go a.watchSource(ctx, wg)
 	go a.startHTTPListeners(ctx, wg)
 
-- 
2.43.0


From 414c26e614a2d7a7dfa22567169aecb5b40faaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:19 +0000
Subject: [PATCH 21/94] fix: a machine manifest that changes while it is loaded
 is noticed and loaded again

---
 aagent/aagent.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aagent/aagent.go b/aagent/aagent.go
index 8b748bc..08367b5 100644
--- a/aagent/aagent.go
+++ b/aagent/aagent.go
@@ -168,12 +168,13 @@ func (a *AAgent) machineStateLookup(name string) (string, error) {
 }
 
 func (a *AAgent) loadMachine(ctx context.Context, path string) (err error) {
-	aa, err := machine.FromDir(path, watchers.New(ctx))
+	// before loading, if it changes while it is being loaded it will not match and be loaded again
+	sum, err := util.Sha256HashFile(filepath.Join(path, "machine.yaml"))
 	if err != nil {
 		return err
 	}
 
-	sum, err := aa.Hash()
+	aa, err := machine.FromDir(path, watchers.New(ctx))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 7a10cc9eebb090f864d047a5227bbf4996668b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:33 +0000
Subject: [PATCH 22/94] fix: check output with performance data that is not a
 number does not crash the server

---
 aagent/util/nagios.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aagent/util/nagios.go b/aagent/util/nagios.go
index 8574480..51f8a9f 100644
--- a/aagent/util/nagios.go
+++ b/aagent/util/nagios.go
@@ -46,6 +46,10 @@ func ParsePerfData(pd string) (perf []PerfData) {
 
 		label := strings.Replace(mparts[0], " ", "_", -1)
 		valParts := valParse.FindStringSubmatch(mparts[1])
+		if len(valParts) < 2 {
+			continue
+		}
+
 		rawValue := valParts[1]
 		value, err := strconv.ParseFloat(rawValue, 64)
 		if err != nil {
-- 
2.43.0


From 4abf76e38f28ff89e3f5b2ccc3e9ce106ad7af04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:33 +0000
Subject: [PATCH 23/94] fix: a nagios plugin setting that results in no command
 does not crash the server

---
 aagent/watchers/nagioswatcher/nagios.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aagent/watchers/nagioswatcher/nagios.go b/aagent/watchers/nagioswatcher/nagios.go
index 8845805..a5b8863 100644
--- a/aagent/watchers/nagioswatcher/nagios.go
+++ b/aagent/watchers/nagioswatcher/nagios.go
@@ -409,6 +409,10 @@ func (w *Watcher) watchUsingPlugin(ctx context.Context) (state State, output str
 		return UNKNOWN, "", err
 	}
 
+	if len(splitcmd) == 0 {
+		return UNKNOWN, "", fmt.Errorf("no plugin command to run")
+	}
+
 	w.previousPlugin = plugin
 
 	cmd := exec.CommandContext(timeoutCtx, splitcmd[0], splitcmd[1:]...)
-- 
2.43.0


From 5313d093639bf253c9e9dff846f52c02fa741912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:33 +0000
Subject: [PATCH 24/94] fix: forcing checks in quick succession does not block
 the machine

---
 aagent/watchers/nagioswatcher/nagios.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aagent/watchers/nagioswatcher/nagios.go b/aagent/watchers/nagioswatcher/nagios.go
index a5b8863..831ec02 100644
--- a/aagent/watchers/nagioswatcher/nagios.go
+++ b/aagent/watchers/nagioswatcher/nagios.go
@@ -239,7 +239,13 @@ func (w *Watcher) NotifyStateChance() {
 	case "FORCE_CHECK":
 		w.Infof("Forcing a check of %s", w.machineName)
 		w.force = true
-		w.StateChangeC() <- struct{}{}
+
+		// one that is already pending performs the check, waiting for it would block the machine that check transitions
+		select {
+		case w.StateChangeC() <- struct{}{}:
+		default:
+		}
+
 		return
 	}
 
-- 
2.43.0


From 3d8fb86695cd67814455e42ee89bb8b8b14cc6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:00 +0000
Subject: [PATCH 25/94] fix: nagios plugins that exit with codes 4 or 5 are in
 the unknown state and not ignored

---
 aagent/watchers/nagioswatcher/nagios.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aagent/watchers/nagioswatcher/nagios.go b/aagent/watchers/nagioswatcher/nagios.go
index 831ec02..30d90c7 100644
--- a/aagent/watchers/nagioswatcher/nagios.go
+++ b/aagent/watchers/nagioswatcher/nagios.go
@@ -447,8 +447,9 @@ func (w *Watcher) watchUsingPlugin(ctx context.Context) (state State, output str
 
 	w.Debugf("Output from %s: %s", w.properties.Plugin, output)
 
+	// other exit codes would be our internal states
 	s, ok := intStates[pstate.ExitCode()]
-	if ok {
+	if ok && s <= UNKNOWN {
 		return s, output, nil
 	}
 
-- 
2.43.0


From 5c2cc436fbd0bfd6dad35845fbf71b9d806f2aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:11 +0000
Subject: [PATCH 26/94] fix: a disowned command that cannot be started fails
 the exec watcher

---
 aagent/watchers/execwatcher/exec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aagent/watchers/execwatcher/exec.go b/aagent/watchers/execwatcher/exec.go
index 355cd76..ccdd7b9 100644
--- a/aagent/watchers/execwatcher/exec.go
+++ b/aagent/watchers/execwatcher/exec.go
@@ -333,7 +333,7 @@ func (w *Watcher) watch(ctx context.Context) (state State, err error) {
 		w.Debugf("Running command disowned from parent")
 		err = cmd.Start()
 		if err != nil {
-			return 0, err
+			return Error, err
 		}
 
 		errc := make(chan error)
-- 
2.43.0


From 10f56d737d2a0ca535db87afae028e39d925c48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:41 +0000
Subject: [PATCH 27/94] fix: stopping an election does not deadlock, and one
 that could not start can be started again

---
 providers/election/streams/election.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/providers/election/streams/election.go b/providers/election/streams/election.go
index 31688c7..faa72b9 100644
--- a/providers/election/streams/election.go
+++ b/providers/election/streams/election.go
@@ -278,11 +278,17 @@ func (e *election) campaign(wg *sync.WaitGroup) error {
 
 func (e *election) stop() {
 	e.mu.Lock()
+	defer e.mu.Unlock()
+
+	e.standDown()
 	e.started = false
+}
+
+// standDown stops the campaign and gives up leadership, must be called with the lock held
+func (e *election) standDown() {
 	e.cancel()
 	e.state = CandidateState
 	e.lastSeq = math.MaxUint64
-	e.mu.Unlock()
 }
 
 func (e *election) Start(ctx context.Context) error {
@@ -294,6 +300,7 @@ func (e *election) Start(ctx context.Context) error {
 
 	err := e.configure(ctx)
 	if err != nil {
+		e.mu.Unlock()
 		return err
 	}
 
@@ -323,11 +330,7 @@ func (e *election) Stop() {
 		return
 	}
 
-	if e.cancel != nil {
-		e.cancel()
-	}
-
-	e.stop()
+	e.standDown()
 }
 
 func (e *election) IsLeader() bool {
-- 
2.43.0


From 6840ee1da1b919106ce5310d1b71a16a21c6fb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:41 +0000
Subject: [PATCH 28/94] fix: a stopped election does not take the leadership or
 announce a win

---
 providers/election/streams/election.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/providers/election/streams/election.go b/providers/election/streams/election.go
index faa72b9..91920d6 100644
--- a/providers/election/streams/election.go
+++ b/providers/election/streams/election.go
@@ -6,7 +6,6 @@ package election
 
 import (
 	"context"
-	"errors"
 	"fmt"
 	iu "github.com/choria-io/go-choria/internal/util"
 	"math"
@@ -189,7 +188,13 @@ func (e *election) maintainLeadership() error {
 	if e.notifyNext {
 		e.notifyNext = false
 		if e.opts.wonCb != nil {
-			iu.InterruptibleSleep(e.ctx, 200*time.Millisecond)
+			err = iu.InterruptibleSleep(e.ctx, 200*time.Millisecond)
+			if err != nil {
+				// stopped before anyone was told about the win
+				e.notifyNext = true
+				return err
+			}
+
 			e.opts.wonCb()
 		}
 	}
@@ -201,6 +206,11 @@ func (e *election) try() error {
 	e.mu.Lock()
 	defer e.mu.Unlock()
 
+	// a stopped election must not take or extend the leadership
+	if e.ctx.Err() != nil {
+		return e.ctx.Err()
+	}
+
 	if e.opts.campaignCb != nil {
 		e.opts.campaignCb(e.state)
 	}
@@ -227,8 +237,9 @@ func (e *election) campaign(wg *sync.WaitGroup) error {
 	// spread out startups a bit
 	splay := time.Duration(rand.N(5000)) * time.Millisecond
 	err := iu.InterruptibleSleep(e.ctx, splay)
-	if errors.Is(err, context.Canceled) {
-		return err
+	if err != nil {
+		e.stop()
+		return nil
 	}
 
 	var ticker *time.Ticker
-- 
2.43.0


From 58ab54e453470c375da752436ead1e7f9a9f48b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:41 +0000
Subject: [PATCH 29/94] fix: a governor that did not get a slot can be started
 again and a slot that could not be left can be left later

---
 providers/governor/streams/governor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/providers/governor/streams/governor.go b/providers/governor/streams/governor.go
index 8f69241..adec17c 100644
--- a/providers/governor/streams/governor.go
+++ b/providers/governor/streams/governor.go
@@ -261,9 +261,9 @@ func (g *jsGMgr) Start(ctx context.Context, name string) (Finisher, uint64, erro
 		return nil, 0, fmt.Errorf("already running")
 	}
 
-	g.running = true
 	seq := uint64(0)
 	tries := 0
+	left := false
 
 	try := func() error {
 		ctx, cancel := context.WithTimeout(ctx, time.Second)
@@ -289,6 +289,7 @@ func (g *jsGMgr) Start(ctx context.Context, name string) (Finisher, uint64, erro
 		}
 
 		seq = res.Sequence
+		g.running = true
 
 		g.Infof("Got a slot on %s with sequence %d", g.name, seq)
 
@@ -302,7 +303,7 @@ func (g *jsGMgr) Start(ctx context.Context, name string) (Finisher, uint64, erro
 
 		g.mu.Lock()
 		defer g.mu.Unlock()
-		if !g.running {
+		if left {
 			return nil
 		}
 
@@ -310,6 +311,7 @@ func (g *jsGMgr) Start(ctx context.Context, name string) (Finisher, uint64, erro
 
 		if g.noLeave {
 			g.Infof("Not evicting self from %s based on configuration directive", g.name)
+			left = true
 			return nil
 		}
 
@@ -320,6 +322,8 @@ func (g *jsGMgr) Start(ctx context.Context, name string) (Finisher, uint64, erro
 			return fmt.Errorf("could not remove seq %d: %s", seq, err)
 		}
 
+		left = true
+
 		return nil
 	}
 
-- 
2.43.0


From 5c340164756f9c84b9c57782dec1f3369f8115ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:00 +0000
Subject: [PATCH 30/94] fix: inputs without a maximum length are still
 validated against their validator

---
 providers/agent/mcorpc/ddl/common/input_item.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/providers/agent/mcorpc/ddl/common/input_item.go b/providers/agent/mcorpc/ddl/common/input_item.go
index 3653882..0eb2274 100644
--- a/providers/agent/mcorpc/ddl/common/input_item.go
+++ b/providers/agent/mcorpc/ddl/common/input_item.go
@@ -95,12 +95,9 @@ func (i *InputItem) ValidateValue(val any) (warnings []string, err error) {
 			return warnings, fmt.Errorf("is not a string")
 		}
 
-		if i.MaxLength == 0 {
-			return warnings, nil
-		}
-
+		// a maximum length of 0 means there is no maximum, the content is validated regardless
 		sval := val.(string)
-		if len(sval) > i.MaxLength {
+		if i.MaxLength > 0 && len(sval) > i.MaxLength {
 			return warnings, fmt.Errorf("is longer than %d characters", i.MaxLength)
 		}
 
-- 
2.43.0


From c5c01d4a49f8b95241f8ee5315518cd021024909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:49 +0000
Subject: [PATCH 31/94] fix: removing several external agents at once does not
 crash the server and agents that did not activate can be removed

---
 providers/agent/mcorpc/external/provider.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/providers/agent/mcorpc/external/provider.go b/providers/agent/mcorpc/external/provider.go
index 57016e9..eea865b 100644
--- a/providers/agent/mcorpc/external/provider.go
+++ b/providers/agent/mcorpc/external/provider.go
@@ -94,9 +94,9 @@ func (p *Provider) upgradeExistingAgents(foundAgents []*agent.DDL, mgr server.Ag
 }
 
 func (p *Provider) removeOrphanAgents(foundAgents []*agent.DDL, mgr server.AgentManager, connector inter.AgentConnector) error {
-	var remove []int
+	var keep []*agent.DDL
 
-	for i, known := range p.agents {
+	for _, known := range p.agents {
 		found := findInAgentList(foundAgents, func(a *agent.DDL) bool {
 			return a.Metadata.Name == known.Metadata.Name
 		})
@@ -105,19 +105,19 @@ func (p *Provider) removeOrphanAgents(foundAgents []*agent.DDL, mgr server.Agent
 			p.log.Infof("Removing agent %s after the DDL %s was removed", known.Metadata.Name, known.SourceLocation)
 			err := mgr.UnregisterAgent(known.Metadata.Name, connector)
 			if err != nil {
+				// it only fails for agents that are not running, like those that did not activate
 				p.log.Errorf("Could not unregister agent %v: %v", known.Metadata.Name, err)
-				continue
 			}
 
 			delete(p.paths, known.Metadata.Name)
-			remove = append(remove, i)
+			continue
 		}
-	}
 
-	for _, i := range remove {
-		p.agents = append(p.agents[:i], p.agents[i+1:]...)
+		keep = append(keep, known)
 	}
 
+	p.agents = keep
+
 	return nil
 }
 
-- 
2.43.0


From ae30d49f6cb906ed5ba673da4368877382d34f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:52 +0000
Subject: [PATCH 32/94] fix: external agents cannot take a reserved name using
 a DDL file of another name

---
 providers/agent/mcorpc/external/provider.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/providers/agent/mcorpc/external/provider.go b/providers/agent/mcorpc/external/provider.go
index eea865b..917dcb0 100644
--- a/providers/agent/mcorpc/external/provider.go
+++ b/providers/agent/mcorpc/external/provider.go
@@ -316,8 +316,9 @@ func (p *Provider) eachAgent(cb func(ddl *agent.DDL)) {
 				return nil
 			}
 
-			if !shouldLoadAgent(name) {
-				p.log.Warnf("External agents are not allowed to supply an agent called '%s', skipping", name)
+			// the agent runs by the name in its DDL, which can be another than that of the file
+			if !shouldLoadAgent(name) || !shouldLoadAgent(ddl.Metadata.Name) {
+				p.log.Warnf("External agents are not allowed to supply an agent called '%s' from %s, skipping", ddl.Metadata.Name, ddlPath)
 				return retErr
 			}
 
-- 
2.43.0


From 67f2b0ddffb258658d00bcb812781f47588cd7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:55 +0000
Subject: [PATCH 33/94] fix: an external agent found in several places is not
 replaced on every reconciliation

---
 providers/agent/mcorpc/external/provider.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/providers/agent/mcorpc/external/provider.go b/providers/agent/mcorpc/external/provider.go
index 917dcb0..23d0e93 100644
--- a/providers/agent/mcorpc/external/provider.go
+++ b/providers/agent/mcorpc/external/provider.go
@@ -57,23 +57,24 @@ func (p *Provider) RegisterAgents(ctx context.Context, mgr server.AgentManager,
 
 func (p *Provider) upgradeExistingAgents(foundAgents []*agent.DDL, mgr server.AgentManager) error {
 	for i, currentDDL := range p.agents {
+		// when several places have the agent the first one found is used, else they would keep replacing each other
 		candidateDDL := findInAgentList(foundAgents, func(a *agent.DDL) bool {
-			if a.Metadata.Name != currentDDL.Metadata.Name {
-				return false
-			}
-
-			// we check the ddl location so that moving a agent to a different place, even when versions match will also reload it
-			if a.Metadata.Version == currentDDL.Metadata.Version && a.SourceLocation == currentDDL.SourceLocation {
-				return false
-			}
-
-			return p.shouldProcessModifiedDDL(a.SourceLocation)
+			return a.Metadata.Name == currentDDL.Metadata.Name
 		})
 
 		if candidateDDL == nil {
 			continue
 		}
 
+		// we check the ddl location so that moving a agent to a different place, even when versions match will also reload it
+		if candidateDDL.Metadata.Version == currentDDL.Metadata.Version && candidateDDL.SourceLocation == currentDDL.SourceLocation {
+			continue
+		}
+
+		if !p.shouldProcessModifiedDDL(candidateDDL.SourceLocation) {
+			continue
+		}
+
 		newAgent, err := p.newExternalAgent(candidateDDL, mgr)
 		if err != nil {
 			p.log.Errorf("Could not create upgraded external agent %v: %v", candidateDDL.Metadata.Name, err)
-- 
2.43.0


From c36a52a7349d6bfac36696ebe86cdca500af4898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:20 +0000
Subject: [PATCH 34/94] fix: an agent DDL without metadata is an error and does
 not crash what loads it

---
 providers/agent/mcorpc/ddl/agent/agent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/providers/agent/mcorpc/ddl/agent/agent.go b/providers/agent/mcorpc/ddl/agent/agent.go
index 54c2cd3..773d81e 100644
--- a/providers/agent/mcorpc/ddl/agent/agent.go
+++ b/providers/agent/mcorpc/ddl/agent/agent.go
@@ -38,6 +38,10 @@ func NewFromBytes(dat []byte) (*DDL, error) {
 		return nil, fmt.Errorf("could not parse DDL JSON data: %s", err)
 	}
 
+	if ddl.Metadata == nil {
+		return nil, fmt.Errorf("could not parse DDL JSON data: no metadata found")
+	}
+
 	ddl.normalize()
 
 	return ddl, nil
-- 
2.43.0


From 3e177067413cd494ab459fa3b4d67acf5824e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:13 +0000
Subject: [PATCH 35/94] fix: an external agent with a faulty DDL is not
 registered and does not crash the server

---
 providers/agent/mcorpc/external/agent.go    | 3 +--
 providers/agent/mcorpc/external/provider.go | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/providers/agent/mcorpc/external/agent.go b/providers/agent/mcorpc/external/agent.go
index 009601e..ed3bb4c 100644
--- a/providers/agent/mcorpc/external/agent.go
+++ b/providers/agent/mcorpc/external/agent.go
@@ -77,11 +77,10 @@ func (p *Provider) newExternalAgent(ddl *agentddl.DDL, mgr server.AgentManager)
 	p.log.Debugf("Registering proxy actions for External agent %s: %s", ddl.Metadata.Name, strings.Join(ddl.ActionNames(), ", "))
 
 	for _, action := range ddl.Actions {
+		err = agent.RegisterAction(action.Name, p.externalAction)
 		if err != nil {
 			return nil, err
 		}
-
-		agent.MustRegisterAction(action.Name, p.externalAction)
 	}
 
 	return agent, nil
diff --git a/providers/agent/mcorpc/external/provider.go b/providers/agent/mcorpc/external/provider.go
index 23d0e93..078f373 100644
--- a/providers/agent/mcorpc/external/provider.go
+++ b/providers/agent/mcorpc/external/provider.go
@@ -132,7 +132,7 @@ func (p *Provider) registerNewAgents(ctx context.Context, foundAgents []*agent.D
 			p.log.Debugf("Registering new agent %v version %v from %s", candidateDDL.Metadata.Name, candidateDDL.Metadata.Version, candidateDDL.SourceLocation)
 			agent, err := p.newExternalAgent(candidateDDL, mgr)
 			if err != nil {
-				p.log.Errorf("Could not register external agent %s: %s", agent.Name(), err)
+				p.log.Errorf("Could not register external agent %s: %s", candidateDDL.Metadata.Name, err)
 				continue
 			}
 
-- 
2.43.0


From 8d77504156b97d8b23c5b3b2c26d2ed074886837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:02 +0000
Subject: [PATCH 36/94] fix: the executor agent signals jobs for callers
 authorized to the job's action and denies all others

---
 providers/agent/mcorpc/golang/executor/signal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/golang/executor/signal.go b/providers/agent/mcorpc/golang/executor/signal.go
index 57305e8..cfadb0d 100644
--- a/providers/agent/mcorpc/golang/executor/signal.go
+++ b/providers/agent/mcorpc/golang/executor/signal.go
@@ -52,7 +52,7 @@ func signalAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Reply,
 		return
 	}
 
-	if proxyAuthorize(p, req, agent) {
+	if !proxyAuthorize(p, req, agent) {
 		agent.Log.Warnf("Denying %s access to process created by %s#%s based on authorization policy for request %s", req.CallerID, p.Agent, p.Action, req.RequestID)
 		abort(reply, "You are not authorized to call this %s#%s", p.Agent, p.Action)
 		return
-- 
2.43.0


From fce9a37ff0bacc30fe91ba02180746949d84270d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:02 +0000
Subject: [PATCH 37/94] fix: the executor agent does not handle status and
 signal requests that it aborted

---
 providers/agent/mcorpc/golang/executor/signal.go | 2 ++
 providers/agent/mcorpc/golang/executor/status.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/providers/agent/mcorpc/golang/executor/signal.go b/providers/agent/mcorpc/golang/executor/signal.go
index cfadb0d..c9318ab 100644
--- a/providers/agent/mcorpc/golang/executor/signal.go
+++ b/providers/agent/mcorpc/golang/executor/signal.go
@@ -38,10 +38,12 @@ func signalAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Reply,
 
 	if args.JobID == "" {
 		abort(reply, "ID is required")
+		return
 	}
 
 	if args.Signal < 0 {
 		abort(reply, "Signal is required")
+		return
 	}
 
 	resp := &SignalResponse{}
diff --git a/providers/agent/mcorpc/golang/executor/status.go b/providers/agent/mcorpc/golang/executor/status.go
index 4d8c6fe..e63fab5 100644
--- a/providers/agent/mcorpc/golang/executor/status.go
+++ b/providers/agent/mcorpc/golang/executor/status.go
@@ -51,6 +51,7 @@ func statusAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Reply,
 
 	if args.JobID == "" {
 		abort(reply, "ID is required")
+		return
 	}
 
 	p, err := execution.Load(spool, args.JobID)
-- 
2.43.0


From 140876c339ba4f8d1fcb1f374a0a2f1c9b1beba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:02 +0000
Subject: [PATCH 38/94] fix: jobs in the execution spool are listed, with or
 without a time range

---
 providers/agent/mcorpc/golang/executor/list.go | 16 ++++++++++++----
 providers/execution/exec.go                    | 10 ++++++++--
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/providers/agent/mcorpc/golang/executor/list.go b/providers/agent/mcorpc/golang/executor/list.go
index 4024496..90ce42b 100644
--- a/providers/agent/mcorpc/golang/executor/list.go
+++ b/providers/agent/mcorpc/golang/executor/list.go
@@ -54,18 +54,26 @@ func listAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Reply, a
 
 	resp := &ListResponse{}
 
-	matched, err := execution.List(spool, &execution.ListQuery{
+	query := &execution.ListQuery{
 		Action:    args.Action,
 		Agent:     args.Agent,
-		Before:    time.Unix(args.Before, 0),
 		Caller:    args.Caller,
 		Command:   args.Command,
 		Completed: args.Completed,
 		Identity:  args.Identity,
 		RequestID: args.RequestID,
 		Running:   args.Running,
-		Since:     time.Unix(args.Since, 0),
-	})
+	}
+
+	if args.Before > 0 {
+		query.Before = time.Unix(args.Before, 0)
+	}
+
+	if args.Since > 0 {
+		query.Since = time.Unix(args.Since, 0)
+	}
+
+	matched, err := execution.List(spool, query)
 	if err != nil {
 		abort(reply, "Could not list jobs: %v", err)
 		return
diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index 3725df1..114707e 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -78,6 +78,8 @@ type watchedLine struct {
 	line   []byte
 }
 
+const specFile = "spec.json"
+
 var (
 	ErrSpoolNotConfigured     = errors.New("spool not configured")
 	ErrSpoolNotFound          = errors.New("spool not found")
@@ -144,7 +146,11 @@ func List(spool string, q *ListQuery) ([]*Process, error) {
 			return nil
 		}
 
-		proc, err := Load(spool, d.Name())
+		if d.Name() != specFile {
+			return nil
+		}
+
+		proc, err := Load(spool, filepath.Base(filepath.Dir(path)))
 		if err != nil {
 			return nil
 		}
@@ -704,7 +710,7 @@ func stdErrPath(spool string, id string) string {
 }
 
 func specPath(spool string, id string) string {
-	return filepath.Join(spool, id, "spec.json")
+	return filepath.Join(spool, id, specFile)
 }
 
 func exitPath(spool string, id string) string {
-- 
2.43.0


From ce21f04a6b573efb27a29414b4f12286461233a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:02 +0000
Subject: [PATCH 39/94] fix: job ids cannot refer to specifications outside of
 the execution spool

---
 providers/execution/exec.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index 114707e..efcb993 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -183,7 +183,7 @@ func Load(spool string, id string) (*Process, error) {
 		return nil, ErrSpoolNotFound
 	}
 
-	if !iu.FileExist(jobSpec) {
+	if !validID(id) || !iu.FileExist(jobSpec) {
 		return nil, ErrSpecificationNotFound
 	}
 
@@ -238,6 +238,10 @@ func (p *Process) CreateSpool(spool string) (json.RawMessage, error) {
 		return nil, ErrSpoolNotConfigured
 	}
 
+	if !validID(p.ID) {
+		return nil, fmt.Errorf("%w: invalid id", ErrInvalidProcess)
+	}
+
 	has, err := hasJob(spool, p.ID)
 	if err != nil {
 		return nil, fmt.Errorf("%w: %w", ErrInvalidProcess, err)
@@ -693,6 +697,11 @@ func saveJobSpec(spool string, proc *Process) (json.RawMessage, error) {
 	return j, os.Rename(tf.Name(), specPath(spool, proc.ID))
 }
 
+// validID determines if id names a directory inside the spool
+func validID(id string) bool {
+	return id != "" && id != "." && id != ".." && id == filepath.Base(id)
+}
+
 func hasJob(spool string, id string) (bool, error) {
 	return iu.FileExist(specPath(spool, id)), nil
 }
-- 
2.43.0


From ce7088f50eec559d4bfa5c744b9cd64ce7c84293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:02 +0000
Subject: [PATCH 40/94] fix: output of supervised jobs is published unchanged
 and long lines do not block the job

---
 providers/execution/exec.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index efcb993..c1b0527 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -549,9 +549,19 @@ func (p *Process) ParseExitCode() (int, error) {
 func watchOutputReader(wg *sync.WaitGroup, r io.Reader, origin string, out chan watchedLine, log *logrus.Entry) {
 	defer wg.Done()
 
-	scanner := bufio.NewScanner(r)
-	for scanner.Scan() {
-		out <- watchedLine{origin: origin, line: scanner.Bytes()}
+	reader := bufio.NewReaderSize(r, bufio.MaxScanTokenSize)
+	for {
+		// lines that do not fit the buffer are handled in pieces
+		line, err := reader.ReadSlice('\n')
+		if len(line) > 0 {
+			out <- watchedLine{origin: origin, line: bytes.Clone(line)}
+		}
+		if errors.Is(err, bufio.ErrBufferFull) {
+			continue
+		}
+		if err != nil {
+			return
+		}
 	}
 }
 
@@ -659,7 +669,6 @@ func watchOutput(wg *sync.WaitGroup, stdout io.Reader, stderr io.Reader, submit
 			prev = line.origin
 
 			buff.Write(line.line)
-			buff.Write([]byte("\n"))
 
 		case <-ticker.C:
 			publish(prev, buff)
-- 
2.43.0


From 03beae5804e415f14d185c336a75450dfd139d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:02 +0000
Subject: [PATCH 41/94] fix: all output of a supervised job is saved and
 published before its exit is

---
 providers/execution/exec.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index c1b0527..3930c0d 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -78,7 +78,13 @@ type watchedLine struct {
 	line   []byte
 }
 
-const specFile = "spec.json"
+const (
+	specFile = "spec.json"
+
+	// how long to wait for output after a process exits or is killed, only needed
+	// when its children keep the output open
+	outputWait = 5 * time.Second
+)
 
 var (
 	ErrSpoolNotConfigured     = errors.New("spool not configured")
@@ -321,7 +327,12 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 		stdoutReader, stdout = io.Pipe()
 		stderrReader, stderr = io.Pipe()
 
-		closers = append(closers, stdout, stderr, stdoutFile, stderrFile, stdoutReader, stderrReader)
+		closers = append(closers, stdout, stderr)
+		defer func() {
+			for _, closer := range []io.Closer{stdoutFile, stderrFile, stdoutReader, stderrReader} {
+				closer.Close()
+			}
+		}()
 
 		wg.Add(1)
 		go watchOutput(wg, io.TeeReader(stdoutReader, stdoutFile), io.TeeReader(stderrReader, stderrFile), submit, prefix, p, log)
@@ -344,6 +355,7 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 	cmd.Env = env
 	cmd.Stdout = stdout
 	cmd.Stderr = stderr
+	cmd.WaitDelay = outputWait
 
 	err = cmd.Start()
 	if err != nil {
@@ -374,7 +386,12 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 	if cmd.Process == nil {
 		waitErr = ErrStartFailed
 	} else {
-		state, waitErr = cmd.Process.Wait()
+		// also waits for all output to be handled
+		waitErr = cmd.Wait()
+		state = cmd.ProcessState
+		if state != nil {
+			waitErr = nil
+		}
 	}
 
 	// always save then handle the error from waiting
-- 
2.43.0


From 31934d083faac6806312bde434b299214ba9705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:02 +0000
Subject: [PATCH 42/94] fix: a supervised job that could not be started leaves
 no process, goroutines or open files behind

---
 providers/execution/exec.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index 3930c0d..2e9cc2f 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -311,6 +311,14 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 	var closers []io.Closer
 	var stdout, stderr io.WriteCloser
 
+	finish := func() {
+		cancel()
+		for _, closer := range closers {
+			closer.Close()
+		}
+		wg.Wait()
+	}
+
 	if publishOutput {
 		var stdoutReader, stderrReader *io.PipeReader
 		var stdoutFile, stderrFile *os.File
@@ -321,6 +329,7 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 		}
 		stderrFile, err = os.Create(p.StderrFile)
 		if err != nil {
+			stdoutFile.Close()
 			return fmt.Errorf("%w: %s", ErrStartFailed, err)
 		}
 
@@ -343,6 +352,7 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 		}
 		stderr, err = os.Create(p.StderrFile)
 		if err != nil {
+			stdout.Close()
 			return fmt.Errorf("%w: %s", ErrStartFailed, err)
 		}
 
@@ -359,12 +369,16 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 
 	err = cmd.Start()
 	if err != nil {
+		finish()
 		return fmt.Errorf("%w: %w", ErrStartFailed, err)
 	}
 
 	// this could fail and the command could be running already...
 	err = os.WriteFile(p.PidFile, []byte(strconv.Itoa(cmd.Process.Pid)), 0700)
 	if err != nil {
+		cancel()
+		cmd.Wait()
+		finish()
 		return fmt.Errorf("%w: %s", ErrWritingPidFailed, err)
 	}
 
@@ -401,12 +415,7 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 		log.Errorf("Could not save job after execution: %v", err)
 	}
 
-	cancel()
-	for _, closer := range closers {
-		closer.Close()
-	}
-
-	wg.Wait()
+	finish()
 
 	msg = newSubmissionMessage(submit, fmt.Sprintf("%s.exit", prefix))
 	errMsg := ""
-- 
2.43.0


From 5fec5f434109e514dbb7ff5c0d02cb1c2487a0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:02 +0000
Subject: [PATCH 43/94] fix: a supervised job is not blocked when its output
 cannot be saved

---
 providers/execution/exec.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index 2e9cc2f..66e2e4c 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -582,11 +582,13 @@ func watchOutputReader(wg *sync.WaitGroup, r io.Reader, origin string, out chan
 		if len(line) > 0 {
 			out <- watchedLine{origin: origin, line: bytes.Clone(line)}
 		}
-		if errors.Is(err, bufio.ErrBufferFull) {
-			continue
-		}
-		if err != nil {
+		switch {
+		case err == nil, errors.Is(err, bufio.ErrBufferFull):
+		case errors.Is(err, io.EOF), errors.Is(err, io.ErrClosedPipe):
 			return
+		default:
+			// the job would be blocked if its output is not read anymore
+			log.Errorf("Could not save %s: %v", origin, err)
 		}
 	}
 }
-- 
2.43.0


From 1a5155b91cd11a1a25bfd82d019da10c8e1d6c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:02 +0000
Subject: [PATCH 44/94] fix: job output that could not be published is not
 published as output of the other stream

---
 providers/execution/exec.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index 66e2e4c..8c57681 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -651,8 +651,12 @@ func watchOutput(wg *sync.WaitGroup, stdout io.Reader, stderr io.Reader, submit
 		close(lines)
 	}()
 
-	publish := func(prev string, buff *bytes.Buffer) {
-		if buff.Len() == 0 {
+	// when publishing fails the output is kept and tried again, always as output of its own stream
+	buffs := map[string]*bytes.Buffer{"stdout": {}, "stderr": {}}
+
+	publish := func(prev string) {
+		buff := buffs[prev]
+		if buff == nil || buff.Len() == 0 {
 			return
 		}
 
@@ -674,32 +678,30 @@ func watchOutput(wg *sync.WaitGroup, stdout io.Reader, stderr io.Reader, submit
 	}
 
 	ticker := time.NewTicker(time.Second)
-	buff := bytes.NewBuffer([]byte{})
 	prev := ""
 
 	for {
 		select {
 		case line, ok := <-lines:
 			if !ok {
-				publish(prev, buff)
+				publish("stdout")
+				publish("stderr")
 				return
 			}
 
-			if prev == "" {
-				prev = line.origin
-			}
 			if line.origin != prev {
-				publish(prev, buff)
+				publish(prev)
 			}
-			if buff.Len() > 1024 {
-				publish(prev, buff)
+			if buffs[line.origin].Len() > 1024 {
+				publish(line.origin)
 			}
 			prev = line.origin
 
-			buff.Write(line.line)
+			buffs[prev].Write(line.line)
 
 		case <-ticker.C:
-			publish(prev, buff)
+			publish("stdout")
+			publish("stderr")
 		}
 	}
 }
-- 
2.43.0


From 72121961dcf80c3e0eeef0d3ee3c9003fc3dcbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:02 +0000
Subject: [PATCH 45/94] fix: the exit of a job is always valid JSON and -1 when
 it is not known

---
 providers/execution/exec.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index 8c57681..2726f1f 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -556,7 +556,7 @@ func (p *Process) ParseExitCode() (int, error) {
 
 	exitBytes, err := os.ReadFile(exitPath(filepath.Dir(filepath.Dir(p.PidFile)), p.ID))
 	if err != nil {
-		return 0, fmt.Errorf("%w: %w", ErrInvalidProcess, err)
+		return -1, fmt.Errorf("%w: %w", ErrInvalidProcess, err)
 	}
 
 	var exit ExitCode
@@ -766,7 +766,9 @@ func exitPath(spool string, id string) string {
 }
 
 func exitJson(exitCode int, err string) json.RawMessage {
-	return []byte(fmt.Sprintf(`{"code":%d,"error":%q}`, exitCode, err))
+	j, _ := json.Marshal(ExitCode{Code: exitCode, Error: err})
+
+	return j
 }
 
 func newSubmissionMessage(submit Submitter, subject string) *submission.Message {
-- 
2.43.0


From 9afc4059177593a2765668a8a01488195c8aa4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:03 +0000
Subject: [PATCH 46/94] fix: a job that ended is not running and is not
 signaled when its pid was reused

---
 providers/execution/exec.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index 2726f1f..42934ea 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -408,15 +408,17 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 		}
 	}
 
+	ended := time.Now().UTC()
+
+	finish()
+
 	// always save then handle the error from waiting
-	p.TerminateTime = time.Now().UTC()
+	p.TerminateTime = ended
 	_, saveErr := saveJobSpec(spool, p)
 	if saveErr != nil {
-		log.Errorf("Could not save job after execution: %v", err)
+		log.Errorf("Could not save job after execution: %v", saveErr)
 	}
 
-	finish()
-
 	msg = newSubmissionMessage(submit, fmt.Sprintf("%s.exit", prefix))
 	errMsg := ""
 	if waitErr != nil {
@@ -469,6 +471,10 @@ func (p *Process) HasStarted() (bool, error) {
 
 // IsRunning checks if the process is running
 func (p *Process) IsRunning() bool {
+	if !p.TerminateTime.IsZero() {
+		return false
+	}
+
 	if runtime.GOOS != "windows" {
 		err := p.Signal(syscall.Signal(0))
 
@@ -486,6 +492,11 @@ func (p *Process) IsRunning() bool {
 
 // Signal sends a signal to the process
 func (p *Process) Signal(sig syscall.Signal) error {
+	// the pid of a job that ended might be in use by another process
+	if !p.TerminateTime.IsZero() {
+		return os.ErrProcessDone
+	}
+
 	pid, err := p.ParsePid()
 	if err != nil {
 		return err
@@ -537,7 +548,7 @@ func (p *Process) ParsePid() (int, error) {
 		return -1, fmt.Errorf("%w: %w", ErrInvalidPid, err)
 	}
 
-	if pid == 1 {
+	if pid <= 1 {
 		return -1, fmt.Errorf("%w: impossible pid", ErrInvalidPid)
 	}
 
-- 
2.43.0


From 2f136d314d1fbdbd9341b31d198835433ef020bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:17 +0000
Subject: [PATCH 47/94] fix: a new server seed is not written when the token of
 the previous one cannot be removed

---
 providers/agent/mcorpc/golang/provision/ed25519_action.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/providers/agent/mcorpc/golang/provision/ed25519_action.go b/providers/agent/mcorpc/golang/provision/ed25519_action.go
index 3c86689..f14759b 100644
--- a/providers/agent/mcorpc/golang/provision/ed25519_action.go
+++ b/providers/agent/mcorpc/golang/provision/ed25519_action.go
@@ -76,6 +76,7 @@ func ed25519Action(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Reply
 		err = os.Remove(jwtFile)
 		if err != nil {
 			abort(fmt.Sprintf("Could not remove existing jwt file: %v: %v", jwtFile, err), reply)
+			return
 		}
 	}
 
-- 
2.43.0


From 2743edb26371c0deeaa43c73a24cf146742b6f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:17 +0000
Subject: [PATCH 48/94] fix: a restart request with a negative splay does not
 crash the server

---
 providers/agent/mcorpc/golang/provision/restart_action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/golang/provision/restart_action.go b/providers/agent/mcorpc/golang/provision/restart_action.go
index f9f2b2d..5536d29 100644
--- a/providers/agent/mcorpc/golang/provision/restart_action.go
+++ b/providers/agent/mcorpc/golang/provision/restart_action.go
@@ -56,7 +56,7 @@ func restartAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Reply
 		return
 	}
 
-	if args.Splay == 0 {
+	if args.Splay <= 0 {
 		args.Splay = 10
 	}
 
-- 
2.43.0


From c2ead48f62015063539d71168221d218cf217941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:46 +0000
Subject: [PATCH 49/94] fix: certificates are not verified by a CA that cannot
 be used and what is not a certificate is not verified

---
 providers/security/filesec/file_security.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/providers/security/filesec/file_security.go b/providers/security/filesec/file_security.go
index 4f49d8b..3e0d3d9 100644
--- a/providers/security/filesec/file_security.go
+++ b/providers/security/filesec/file_security.go
@@ -353,14 +353,14 @@ func (s *FileSecurity) VerifyCertificate(certpem []byte, name string) error {
 
 	roots := x509.NewCertPool()
 	if !roots.AppendCertsFromPEM(capem) {
-		s.log.Warnf("Could not use CA '%s' as PEM data: %s", ca, err)
-		return err
+		s.log.Warnf("Could not use CA '%s' as PEM data", ca)
+		return fmt.Errorf("could not use CA %s as PEM data", ca)
 	}
 
 	block, _ := pem.Decode(certpem)
 	if block == nil {
-		s.log.Warnf("Could not decode certificate '%s' PEM data: %s", name, err)
-		return err
+		s.log.Warnf("Could not decode certificate '%s' PEM data", name)
+		return fmt.Errorf("could not decode certificate PEM data")
 	}
 
 	cert, err := x509.ParseCertificate(block.Bytes)
@@ -371,8 +371,8 @@ func (s *FileSecurity) VerifyCertificate(certpem []byte, name string) error {
 
 	intermediates := x509.NewCertPool()
 	if !intermediates.AppendCertsFromPEM(certpem) {
-		s.log.Warnf("Could not add intermediates: %s", err)
-		return err
+		s.log.Warnf("Could not add intermediates")
+		return fmt.Errorf("could not add intermediates")
 	}
 
 	opts := x509.VerifyOptions{
-- 
2.43.0


From 701e8a0876000015953af355a7388568bf1041bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:47 +0000
Subject: [PATCH 50/94] fix: certificates with keys other than RSA are denied
 and do not crash the server

---
 providers/security/filesec/file_security.go     | 6 +++++-
 providers/security/pkcs11sec/pkcs11_security.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/providers/security/filesec/file_security.go b/providers/security/filesec/file_security.go
index 3e0d3d9..3e7a380 100644
--- a/providers/security/filesec/file_security.go
+++ b/providers/security/filesec/file_security.go
@@ -293,7 +293,11 @@ func (s *FileSecurity) VerifySignatureBytes(dat []byte, sig []byte, public ...[]
 		return false, ""
 	}
 
-	rsaPublicKey := cert.PublicKey.(*rsa.PublicKey)
+	rsaPublicKey, ok := cert.PublicKey.(*rsa.PublicKey)
+	if !ok {
+		s.log.Errorf("Signature verification failed: unhandled public key type %T", cert.PublicKey)
+		return false, ""
+	}
 	hashed := s.ChecksumBytes(dat)
 
 	err = rsa.VerifyPKCS1v15(rsaPublicKey, crypto.SHA256, hashed[:], sig)
diff --git a/providers/security/pkcs11sec/pkcs11_security.go b/providers/security/pkcs11sec/pkcs11_security.go
index dd3ac4f..9918b65 100644
--- a/providers/security/pkcs11sec/pkcs11_security.go
+++ b/providers/security/pkcs11sec/pkcs11_security.go
@@ -376,7 +376,11 @@ func (p *Pkcs11Security) VerifySignatureBytes(dat []byte, sig []byte, public ...
 		cert = p.cert.Leaf
 	}
 
-	rsaPublicKey := cert.PublicKey.(*rsa.PublicKey)
+	rsaPublicKey, ok := cert.PublicKey.(*rsa.PublicKey)
+	if !ok {
+		p.log.Errorf("Signature verification failed: unhandled public key type %T", cert.PublicKey)
+		return false, ""
+	}
 	hashed := p.ChecksumBytes(dat)
 
 	err = rsa.VerifyPKCS1v15(rsaPublicKey, crypto.SHA256, hashed[:], sig)
-- 
2.43.0


From ee67b0f3bab0341ea2f043cbc08aa0f623e55642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:42 +0000
Subject: [PATCH 51/94] fix: only equality fact filters with a regex value
 become regex matches

---
 filter/facts/facts.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filter/facts/facts.go b/filter/facts/facts.go
index f011e28..9f4130c 100644
--- a/filter/facts/facts.go
+++ b/filter/facts/facts.go
@@ -214,8 +214,9 @@ func ParseFactFilterString(f string) ([3]string, error) {
 		op = ">="
 	}
 
-	// finally check for old style regex fact matches
-	if rightOp[0] == '/' && rightOp[len(rightOp)-1] == '/' {
+	// finally check for old style regex fact matches like fact=/regex/, other operators
+	// would match the opposite or something unrelated if they became a regex match
+	if op == "==" && len(rightOp) > 1 && rightOp[0] == '/' && rightOp[len(rightOp)-1] == '/' {
 		op = "=~"
 	}
 
-- 
2.43.0


From 39a6fb52f996d1a69f4361b10b53674a5d406721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:45 +0000
Subject: [PATCH 52/94] fix: decimal facts are compared as decimals with
 integer filter values

---
 filter/facts/matchers.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/filter/facts/matchers.go b/filter/facts/matchers.go
index 3debf41..4db1bc5 100644
--- a/filter/facts/matchers.go
+++ b/filter/facts/matchers.go
@@ -19,7 +19,7 @@ func eqMatch(fact gjson.Result, value string) (bool, error) {
 		return strings.EqualFold(fact.String(), value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if compareDecimals(fact, value) {
 			v, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -82,7 +82,7 @@ func leMatch(fact gjson.Result, value string) (bool, error) {
 		return strings.ToLower(fact.String()) <= strings.ToLower(value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if compareDecimals(fact, value) {
 			v, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -109,7 +109,7 @@ func geMatch(fact gjson.Result, value string) (bool, error) {
 		return strings.ToLower(fact.String()) >= strings.ToLower(value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if compareDecimals(fact, value) {
 			v, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -136,7 +136,7 @@ func ltMatch(fact gjson.Result, value string) (bool, error) {
 		return strings.ToLower(fact.String()) < strings.ToLower(value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if compareDecimals(fact, value) {
 			v, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -163,7 +163,7 @@ func gtMatch(fact gjson.Result, value string) (bool, error) {
 		return strings.ToLower(fact.String()) > strings.ToLower(value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if compareDecimals(fact, value) {
 			f, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -190,7 +190,7 @@ func neMatch(fact gjson.Result, value string) (bool, error) {
 		return !strings.EqualFold(fact.String(), value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if compareDecimals(fact, value) {
 			f, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -218,6 +218,22 @@ func neMatch(fact gjson.Result, value string) (bool, error) {
 	}
 }
 
+// compareDecimals determines if the comparison has to be done on decimals, comparing only
+// the integer part of a fact like 1.9 would make it equal to 1 and not bigger than 1
+func compareDecimals(fact gjson.Result, value string) bool {
+	if strings.Contains(value, ".") {
+		return true
+	}
+
+	if fact.Float() == float64(fact.Int()) {
+		return false
+	}
+
+	_, err := strconv.Atoi(value)
+
+	return err == nil
+}
+
 func regexMatch(value string, pattern string) (bool, error) {
 	pattern = strings.TrimLeft(pattern, "/")
 	pattern = strings.TrimRight(pattern, "/")
-- 
2.43.0


From c859c4e8bc742cc9c707b583e2c4d60716d5b862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:17 +0000
Subject: [PATCH 53/94] fix: broadcast discovery waits for replies for the
 requested timeout

---
 providers/discovery/broadcast/broadcast.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/providers/discovery/broadcast/broadcast.go b/providers/discovery/broadcast/broadcast.go
index 5d7c3a7..e6e0756 100644
--- a/providers/discovery/broadcast/broadcast.go
+++ b/providers/discovery/broadcast/broadcast.go
@@ -98,8 +98,8 @@ func (b *Broadcast) Discover(ctx context.Context, opts ...DiscoverOption) (n []s
 	b.log.Debugf("Performing broadcast discovery")
 
 	// wrapping it ensures the initial connection does not run forever and inherits the parent ^C handling etc
-	// the +2 gives some additional time to the whole request for network connect time etc
-	rctx, cancel := context.WithTimeout(ctx, dopts.timeout+2)
+	// the +2 seconds gives some additional time to the whole request for network connect time etc
+	rctx, cancel := context.WithTimeout(ctx, dopts.timeout+2*time.Second)
 	defer cancel()
 
 	err = dopts.cl.Request(rctx, dopts.msg, b.handler(ctx, cancel, dopts))
@@ -143,7 +143,7 @@ func (b *Broadcast) handler(ctx context.Context, cancel func(), dopts *dOpts) cl
 	dynamicTimeout := 300 * time.Millisecond
 	if dopts.dynamicTimeout {
 		b.log.Debugf("Configuring dynamic discovery timeout")
-		timer = time.NewTimer(b.timeout)
+		timer = time.NewTimer(dopts.timeout)
 		go func() {
 			select {
 			case <-timer.C:
-- 
2.43.0


From 19a4a24f552cc59dcc4a133c02d1c713660816e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:17 +0000
Subject: [PATCH 54/94] fix: nodes matching several identity filters are
 discovered once from flat files

---
 providers/discovery/flatfile/flatfile.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/providers/discovery/flatfile/flatfile.go b/providers/discovery/flatfile/flatfile.go
index ab3b8b2..4191f2d 100644
--- a/providers/discovery/flatfile/flatfile.go
+++ b/providers/discovery/flatfile/flatfile.go
@@ -120,8 +120,10 @@ func (f *FlatFile) Discover(_ context.Context, opts ...DiscoverOption) (n []stri
 
 	if dopts.filter != nil && len(dopts.filter.Identity) > 0 {
 		matched := []string{}
-		for _, idf := range dopts.filter.Identity {
-			matched = append(matched, identity.FilterNodes(nodes, idf)...)
+		for _, node := range nodes {
+			if identity.Match(dopts.filter.Identity, node) {
+				matched = append(matched, node)
+			}
 		}
 		return matched, nil
 	}
-- 
2.43.0


From 29301e8a81f8e80a3fbca00132c2781dbeb9bc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:17 +0000
Subject: [PATCH 55/94] fix: inventory discovery applies all compound filters

---
 providers/discovery/inventory/inventory.go | 32 ++++++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/providers/discovery/inventory/inventory.go b/providers/discovery/inventory/inventory.go
index dc9bb93..1d02c86 100644
--- a/providers/discovery/inventory/inventory.go
+++ b/providers/discovery/inventory/inventory.go
@@ -149,17 +149,20 @@ func (i *Inventory) isValidGroupLookup(f *protocol.Filter) (grouped bool, err er
 func (i *Inventory) selectMatchingNodes(ctx context.Context, d *DataFile, collective string, f *protocol.Filter) ([]string, error) {
 	var (
 		matched []string
-		query   string
-		prog    *vm.Program
-		err     error
+		progs   []*vm.Program
 	)
 
-	if len(f.CompoundFilters()) > 0 {
-		query = f.CompoundFilters()[0][0]["expr"]
-		prog, err = compound.CompileExprQuery(query, nil)
+	for _, cf := range f.CompoundFilters() {
+		if len(cf) != 1 {
+			return nil, fmt.Errorf("invalid compound filter")
+		}
+
+		prog, err := compound.CompileExprQuery(cf[0]["expr"], nil)
 		if err != nil {
 			return nil, err
 		}
+
+		progs = append(progs, prog)
 	}
 
 	for _, node := range d.Nodes {
@@ -210,9 +213,8 @@ func (i *Inventory) selectMatchingNodes(ctx context.Context, d *DataFile, collec
 			}
 		}
 
-		if len(f.CompoundFilters()) > 0 {
-			b, _ := compound.MatchExprProgram(prog, node.Facts, node.Classes, node.Agents, nil, i.log)
-			if b {
+		if len(progs) > 0 {
+			if i.matchPrograms(progs, node) {
 				passed++
 			} else {
 				continue
@@ -227,6 +229,18 @@ func (i *Inventory) selectMatchingNodes(ctx context.Context, d *DataFile, collec
 	return matched, nil
 }
 
+// matchPrograms determines if all the compiled compound filters match the node
+func (i *Inventory) matchPrograms(progs []*vm.Program, node Node) bool {
+	for _, prog := range progs {
+		matched, err := compound.MatchExprProgram(prog, node.Facts, node.Classes, node.Agents, nil, i.log)
+		if err != nil || !matched {
+			return false
+		}
+	}
+
+	return true
+}
+
 // ReadInventory reads and validates an inventory file
 func ReadInventory(path string, noValidate bool) (*DataFile, error) {
 	var err error
-- 
2.43.0


From 4994a458265b5ade5db47e805eb696aec9c7916e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:17 +0000
Subject: [PATCH 56/94] fix: a blank external discovery command is an error and
 does not crash the client

---
 providers/discovery/external/external.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/providers/discovery/external/external.go b/providers/discovery/external/external.go
index db44d40..67aebeb 100644
--- a/providers/discovery/external/external.go
+++ b/providers/discovery/external/external.go
@@ -140,6 +140,9 @@ func (e *External) Discover(ctx context.Context, opts ...DiscoverOption) (n []st
 	if err != nil {
 		return nil, err
 	}
+	if len(parts) == 0 {
+		return nil, fmt.Errorf("no command specified for external discovery")
+	}
 	args = append(args, parts[0])
 	if len(parts) > 1 {
 		args = append(args, parts[1:]...)
-- 
2.43.0


From 82f7030c51d08f816cb6f63f6ce0202f365e6c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:17 +0000
Subject: [PATCH 57/94] fix: filters are not ignored when discovering nodes
 from a file

---
 client/discovery/cli_helper.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/client/discovery/cli_helper.go b/client/discovery/cli_helper.go
index a33456c..78b74cc 100644
--- a/client/discovery/cli_helper.go
+++ b/client/discovery/cli_helper.go
@@ -193,7 +193,14 @@ func (o *StandardOptions) Discover(ctx context.Context, fw inter.Framework, agen
 	case "external":
 		nodes, err = external.New(fw).Discover(ctx, external.Filter(filter), external.Timeout(to), external.Collective(o.Collective), external.DiscoveryOptions(o.DiscoveryOptions))
 	case "flatfile", "file":
-		nodes, err = flatfile.New(fw).Discover(ctx, flatfile.Reader(sourceFile), flatfile.Format(fformat), flatfile.DiscoveryOptions(o.DiscoveryOptions))
+		// files do not know what agents nodes have so the agent being used is not part of this filter, all
+		// others the user gave are so that those that cannot be resolved using a file are not silently ignored
+		ff, ferr := o.NewFilter("")
+		if ferr != nil {
+			return nil, 0, ferr
+		}
+
+		nodes, err = flatfile.New(fw).Discover(ctx, flatfile.Filter(ff), flatfile.Reader(sourceFile), flatfile.Format(fformat), flatfile.DiscoveryOptions(o.DiscoveryOptions))
 	case "inventory":
 		nodes, err = inventory.New(fw).Discover(ctx, inventory.Filter(filter), inventory.Collective(o.Collective), inventory.DiscoveryOptions(o.DiscoveryOptions))
 	default:
-- 
2.43.0


From ca4585889bb4da050a4b0594d9841ccb4e68d207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:17 +0000
Subject: [PATCH 58/94] fix: requests with compound filters use broadcast
 discovery and a nil filter does not crash the client

---
 providers/agent/mcorpc/client/client.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/providers/agent/mcorpc/client/client.go b/providers/agent/mcorpc/client/client.go
index 0bdf08d..b4ae7e2 100644
--- a/providers/agent/mcorpc/client/client.go
+++ b/providers/agent/mcorpc/client/client.go
@@ -308,9 +308,6 @@ func (r *RPC) doServiceRequest(ctx context.Context, msg inter.Message, cl Choria
 }
 
 func (r *RPC) discover(ctx context.Context) error {
-	if len(r.opts.Filter.Compound) > 0 {
-		r.dm = "choria"
-	}
 	if r.opts.DiscoveryStartCB != nil {
 		r.opts.DiscoveryStartCB()
 	}
@@ -322,6 +319,11 @@ func (r *RPC) discover(ctx context.Context) error {
 		r.opts.Filter = protocol.NewFilter()
 	}
 
+	// only broadcast discovery can resolve compound filters
+	if len(r.opts.Filter.Compound) > 0 {
+		r.dm = "broadcast"
+	}
+
 	r.opts.Filter.AddAgentFilter(r.agent)
 
 	var n []string
-- 
2.43.0


From 106c6bae7e1ade2e9958543a6c4380630fe5b2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:48 +0000
Subject: [PATCH 59/94] fix: a signing key of the wrong size does not crash the
 server when managing machines

---
 aagent/watchers/machineswatcher/machines.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aagent/watchers/machineswatcher/machines.go b/aagent/watchers/machineswatcher/machines.go
index c66e2c6..1d24574 100644
--- a/aagent/watchers/machineswatcher/machines.go
+++ b/aagent/watchers/machineswatcher/machines.go
@@ -7,7 +7,6 @@ package machines
 import (
 	"bytes"
 	"context"
-	"crypto/ed25519"
 	"encoding/base64"
 	"encoding/hex"
 	"encoding/json"
@@ -447,7 +446,8 @@ func (w *Watcher) loadAndValidateData() ([]byte, error) {
 			return nil, fmt.Errorf("invalid data_item")
 		}
 
-		if !ed25519.Verify(pk, payload, sig) {
+		verified, _ := iu.Ed25519Verify(pk, payload, sig)
+		if !verified {
 			w.Errorf("Signature in data_item %s did not verify using configured public key '%s', removing data", w.properties.DataItem, w.properties.PublicKey)
 			w.machine.DataDelete(w.properties.DataItem)
 			return nil, fmt.Errorf("invalid data_item")
-- 
2.43.0


From 698778fc773a998904ea5425325d607d3114ee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:48 +0000
Subject: [PATCH 60/94] fix: managed machines and plugins cannot be placed
 outside of their directory and empty ones do not crash the server

---
 aagent/watchers/machineswatcher/machines.go | 9 +++++++++
 aagent/watchers/pluginswatcher/plugins.go   | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/aagent/watchers/machineswatcher/machines.go b/aagent/watchers/machineswatcher/machines.go
index 1d24574..c05a486 100644
--- a/aagent/watchers/machineswatcher/machines.go
+++ b/aagent/watchers/machineswatcher/machines.go
@@ -470,6 +470,10 @@ func (w *Watcher) desiredState() ([]*ManagedMachine, error) {
 	}
 
 	for _, m := range desired {
+		if m == nil {
+			return nil, fmt.Errorf("invalid machines specification: empty machine found")
+		}
+
 		m.Interval = w.properties.MachineManageInterval.String()
 		m.Target = filepath.Dir(w.machine.Directory())
 
@@ -477,6 +481,11 @@ func (w *Watcher) desiredState() ([]*ManagedMachine, error) {
 			return nil, fmt.Errorf("name is required")
 		}
 
+		// names become directories that are written and removed
+		if m.Name != filepath.Base(m.Name) || m.Name == "." || m.Name == ".." {
+			return nil, fmt.Errorf("invalid name %q", m.Name)
+		}
+
 		if m.Source == "" {
 			return nil, fmt.Errorf("source is required for %s", m.Name)
 		}
diff --git a/aagent/watchers/pluginswatcher/plugins.go b/aagent/watchers/pluginswatcher/plugins.go
index 78a6b4a..cb0ae02 100644
--- a/aagent/watchers/pluginswatcher/plugins.go
+++ b/aagent/watchers/pluginswatcher/plugins.go
@@ -474,6 +474,10 @@ func (w *Watcher) desiredState() ([]*ManagedPlugin, error) {
 	}
 
 	for _, m := range desired {
+		if m == nil {
+			return nil, fmt.Errorf("invalid plugins specification: empty plugin found")
+		}
+
 		m.NamePrefix = w.properties.ManagerMachinePrefix
 		m.Interval = w.properties.PluginManageInterval.String()
 		m.Target = w.targetDirForManagedPlugins()
@@ -482,6 +486,11 @@ func (w *Watcher) desiredState() ([]*ManagedPlugin, error) {
 			return nil, fmt.Errorf("name is required")
 		}
 
+		// names become directories that are written and removed
+		if m.Name != filepath.Base(m.Name) || m.Name == "." || m.Name == ".." {
+			return nil, fmt.Errorf("invalid name %q", m.Name)
+		}
+
 		if m.Source == "" {
 			return nil, fmt.Errorf("source is required for %s", m.Name)
 		}
-- 
2.43.0


From c85728e1d5bfdf2c5f13f1f6d0c1c996513671a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:48 +0000
Subject: [PATCH 61/94] fix: unknown plugins are purged when these are not
 deployed in the machines directory

---
 aagent/watchers/pluginswatcher/plugins.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aagent/watchers/pluginswatcher/plugins.go b/aagent/watchers/pluginswatcher/plugins.go
index cb0ae02..f81a8fc 100644
--- a/aagent/watchers/pluginswatcher/plugins.go
+++ b/aagent/watchers/pluginswatcher/plugins.go
@@ -385,7 +385,7 @@ func (w *Watcher) purgeUnknownPlugins(ctx context.Context, desired []*ManagedPlu
 }
 
 func (w *Watcher) currentPlugins() ([]string, error) {
-	dirs, err := os.ReadDir(w.targetDirForManagedPlugins())
+	dirs, err := os.ReadDir(filepath.Dir(w.machine.Directory()))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 533da71960f1d8b1baa218bfb636eb56026f538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:48 +0000
Subject: [PATCH 62/94] fix: deploying archives does not leave files open

---
 aagent/watchers/archivewatcher/archive.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aagent/watchers/archivewatcher/archive.go b/aagent/watchers/archivewatcher/archive.go
index fd5245d..0fbceca 100644
--- a/aagent/watchers/archivewatcher/archive.go
+++ b/aagent/watchers/archivewatcher/archive.go
@@ -287,6 +287,7 @@ func (w *Watcher) extractAndVerifyToTemp(path string) (string, error) {
 	if err != nil {
 		return td, err
 	}
+	defer f.Close()
 
 	err = w.untar(f, td)
 	if err != nil {
-- 
2.43.0


From 4cb726f6ccbaf829c970bf24f9d032177b977cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:17 +0000
Subject: [PATCH 63/94] fix: a plugin is not left behind when the server stops
 while purging it

---
 aagent/watchers/pluginswatcher/plugins.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aagent/watchers/pluginswatcher/plugins.go b/aagent/watchers/pluginswatcher/plugins.go
index f81a8fc..e5deb51 100644
--- a/aagent/watchers/pluginswatcher/plugins.go
+++ b/aagent/watchers/pluginswatcher/plugins.go
@@ -365,10 +365,7 @@ func (w *Watcher) purgeUnknownPlugins(ctx context.Context, desired []*ManagedPlu
 			}
 
 			w.Debugf("Sleeping for 2 seconds to allow manager to exit")
-			err = iu.InterruptibleSleep(ctx, 2*time.Second)
-			if err != nil {
-				return false, err
-			}
+			iu.InterruptibleSleep(ctx, 2*time.Second)
 
 			target = w.targetDirForManagedPlugin(m)
 			err = os.RemoveAll(target)
-- 
2.43.0


From e2dd9bbc2c7f479693cb899a59adf7085e71d26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:44 +0000
Subject: [PATCH 64/94] fix: a key-value watcher without an interval does not
 crash the server

---
 aagent/watchers/kvwatcher/kv.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aagent/watchers/kvwatcher/kv.go b/aagent/watchers/kvwatcher/kv.go
index df78ee7..0695eae 100644
--- a/aagent/watchers/kvwatcher/kv.go
+++ b/aagent/watchers/kvwatcher/kv.go
@@ -97,6 +97,9 @@ func New(machine model.Machine, name string, states []string, required []model.F
 	if err != nil {
 		return nil, err
 	}
+	if tw.interval <= 0 {
+		return nil, fmt.Errorf("interval is required")
+	}
 
 	tw.Watcher, err = watcher.NewWatcher(name, wtype, ai, states, required, machine, failEvent, successEvent)
 	if err != nil {
-- 
2.43.0


From 059b5220ed9aaf18ba36dfd72b5199f51229df7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:44 +0000
Subject: [PATCH 65/94] fix: republished values of keys that end like the
 watched key are ignored

---
 aagent/watchers/kvwatcher/kv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aagent/watchers/kvwatcher/kv.go b/aagent/watchers/kvwatcher/kv.go
index 0695eae..a62e97e 100644
--- a/aagent/watchers/kvwatcher/kv.go
+++ b/aagent/watchers/kvwatcher/kv.go
@@ -246,7 +246,7 @@ func (w *Watcher) repubHandler(msg *nats.Msg) (State, error) {
 		return Error, fmt.Errorf("could not parse template for key: %v", err)
 	}
 
-	if !strings.HasSuffix(msg.Subject, parsedKey) {
+	if !strings.HasSuffix(msg.Subject, "."+parsedKey) {
 		return Error, fmt.Errorf("received republish message on %s that does not match expected key %s", msg.Subject, parsedKey)
 	}
 
-- 
2.43.0


From 77a9428c3bed01af6833e006316af1f7c9ce4d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:44 +0000
Subject: [PATCH 66/94] fix: key-value values that are not valid JSON are
 stored as they are and not as empty

---
 aagent/watchers/kvwatcher/kv.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aagent/watchers/kvwatcher/kv.go b/aagent/watchers/kvwatcher/kv.go
index a62e97e..c525dfd 100644
--- a/aagent/watchers/kvwatcher/kv.go
+++ b/aagent/watchers/kvwatcher/kv.go
@@ -327,6 +327,7 @@ func (w *Watcher) parseValue(val []byte) (any, error) {
 		err := json.Unmarshal(v, &parsedMapValue)
 		if err != nil {
 			w.Warnf("unmarshal failed: %s", err)
+			return string(val), nil
 		}
 		parsedValue = parsedMapValue
 
@@ -356,6 +357,7 @@ func (w *Watcher) parseValue(val []byte) (any, error) {
 		err := json.Unmarshal(v, &parsedValue)
 		if err != nil {
 			w.Warnf("unmarshal failed: %s", err)
+			return string(val), nil
 		}
 	}
 
-- 
2.43.0


From 0c74b596fc4dc5c7e3eb21050e14dafb35dc3807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:44 +0000
Subject: [PATCH 67/94] fix: metric output with null labels or metrics does not
 crash the server

---
 aagent/watchers/metricwatcher/metric.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aagent/watchers/metricwatcher/metric.go b/aagent/watchers/metricwatcher/metric.go
index 8a38b1b..47c4411 100644
--- a/aagent/watchers/metricwatcher/metric.go
+++ b/aagent/watchers/metricwatcher/metric.go
@@ -255,6 +255,14 @@ func (w *Watcher) parseJSONCheck(output []byte) (*Metric, error) {
 		return metric, err
 	}
 
+	// null in the output would remove these
+	if metric.Labels == nil {
+		metric.Labels = map[string]string{"format": "choria"}
+	}
+	if metric.Metrics == nil {
+		metric.Metrics = map[string]float64{}
+	}
+
 	for k, v := range w.properties.Labels {
 		metric.Labels[k] = v
 	}
-- 
2.43.0


From 2ea96eabe6a5dbf45f9d44ef0bea96edf1fddbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:44 +0000
Subject: [PATCH 68/94] fix: a blank metric command does not crash the server

---
 aagent/watchers/metricwatcher/metric.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aagent/watchers/metricwatcher/metric.go b/aagent/watchers/metricwatcher/metric.go
index 47c4411..bf7b16c 100644
--- a/aagent/watchers/metricwatcher/metric.go
+++ b/aagent/watchers/metricwatcher/metric.go
@@ -206,6 +206,10 @@ func (w *Watcher) watch(ctx context.Context) (state []byte, err error) {
 		w.Errorf("Metric watcher %s failed: %s", command, err)
 		return nil, err
 	}
+	if len(splitcmd) == 0 {
+		w.Errorf("Metric watcher %s failed: no command given", command)
+		return nil, fmt.Errorf("invalid command %q", command)
+	}
 
 	cmd := exec.CommandContext(timeoutCtx, splitcmd[0], splitcmd[1:]...)
 	cmd.Env = append(cmd.Env, fmt.Sprintf("MACHINE_WATCHER_NAME=%s", w.name))
-- 
2.43.0


From 81506eb06640f88e311ee15007aa3aea96b39100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:21 +0000
Subject: [PATCH 69/94] fix: metrics are not changed while these are published
 or saved

---
 aagent/watchers/metricwatcher/metric.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/aagent/watchers/metricwatcher/metric.go b/aagent/watchers/metricwatcher/metric.go
index bf7b16c..2d721e1 100644
--- a/aagent/watchers/metricwatcher/metric.go
+++ b/aagent/watchers/metricwatcher/metric.go
@@ -9,6 +9,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"maps"
 	"math/rand/v2"
 	"net"
 	"os"
@@ -320,8 +321,16 @@ func (w *Watcher) handleCheck(ctx context.Context, output []byte, err error) err
 		metric.Labels[k] = v
 	}
 
+	// what is kept is read by others at any time, nothing may change it later
+	result := *metric
+	result.Metrics = maps.Clone(metric.Metrics)
+	result.Labels = maps.Clone(metric.Labels)
+	w.mu.Lock()
+	result.Metrics["choria_runtime_seconds"] = w.previousRunTime.Seconds()
+	w.mu.Unlock()
+
 	if !w.properties.SkipPrometheus {
-		err = updatePromState(w.machine.TextFileDirectory(), w, w.machine.Name(), w.name, metric)
+		err = updatePromState(w.machine.TextFileDirectory(), w, w.machine.Name(), w.name, &result)
 		if err != nil {
 			w.Errorf("Could not update prometheus: %s", err)
 		}
@@ -338,7 +347,7 @@ func (w *Watcher) handleCheck(ctx context.Context, output []byte, err error) err
 	}
 
 	w.mu.Lock()
-	w.previousResult = metric
+	w.previousResult = &result
 	w.mu.Unlock()
 
 	w.NotifyWatcherState(w.CurrentState())
@@ -474,6 +483,7 @@ func (w *Watcher) CurrentState() any {
 		}
 	} else {
 		res = *w.previousResult
+		res.Metrics = maps.Clone(res.Metrics)
 	}
 
 	res.Metrics["choria_runtime_seconds"] = w.previousRunTime.Seconds()
-- 
2.43.0


From 0a0f06750ae3378983213534708c530675a5d084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:21 +0000
Subject: [PATCH 70/94] fix: metrics are not saved while another watcher
 changes these

---
 aagent/watchers/metricwatcher/metric.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aagent/watchers/metricwatcher/metric.go b/aagent/watchers/metricwatcher/metric.go
index 2d721e1..93e4aaf 100644
--- a/aagent/watchers/metricwatcher/metric.go
+++ b/aagent/watchers/metricwatcher/metric.go
@@ -104,7 +104,9 @@ func New(machine model.Machine, name string, states []string, required []model.F
 	}
 
 	if !mw.properties.SkipPrometheus {
+		mu.Lock()
 		savePromState(machine.TextFileDirectory(), mw)
+		mu.Unlock()
 	}
 
 	return mw, nil
-- 
2.43.0


From eec7de3a671c0935c6ef333403ce46146aa216bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:21 +0000
Subject: [PATCH 71/94] fix: a switch watcher does not block forever when
 pressed while its machine changes state

---
 aagent/watchers/httpswitchwatcher/httpswitch.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/aagent/watchers/httpswitchwatcher/httpswitch.go b/aagent/watchers/httpswitchwatcher/httpswitch.go
index 96328a9..933b24b 100644
--- a/aagent/watchers/httpswitchwatcher/httpswitch.go
+++ b/aagent/watchers/httpswitchwatcher/httpswitch.go
@@ -127,7 +127,7 @@ func (w *Watcher) Run(ctx context.Context, wg *sync.WaitGroup) {
 	defer wg.Done()
 
 	if w.ShouldWatch() {
-		w.Watcher.StateChangeC() <- struct{}{}
+		w.NotifyStateChance()
 	}
 
 	for {
@@ -145,12 +145,17 @@ func (w *Watcher) Run(ctx context.Context, wg *sync.WaitGroup) {
 		case <-w.Watcher.StateChangeC():
 			mstate := w.machine.State()
 
+			// handled here since nothing else reads button presses, which would block when there is one already
+			var err error
 			switch {
 			case w.shouldBeOn(mstate):
-				w.buttonPress <- OnNoTransition
+				err = w.handleStateChange(OnNoTransition)
 
 			case w.shouldBeOff(mstate):
-				w.buttonPress <- OffNoTransition
+				err = w.handleStateChange(OffNoTransition)
+			}
+			if err != nil {
+				w.Errorf("Could not handle state change: %v", err)
 			}
 
 		case <-ctx.Done():
-- 
2.43.0


From 028bddf1e1524eee1cdeb0f54299a47f4f330720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:00 +0000
Subject: [PATCH 72/94] fix: gossip is not stopped for good when its machine
 quickly leaves and enters an active state

---
 aagent/watchers/gossipwatcher/gossip.go | 43 +++++++++----------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/aagent/watchers/gossipwatcher/gossip.go b/aagent/watchers/gossipwatcher/gossip.go
index aa22aef..ae85492 100644
--- a/aagent/watchers/gossipwatcher/gossip.go
+++ b/aagent/watchers/gossipwatcher/gossip.go
@@ -123,6 +123,7 @@ func (w *Watcher) getConn() (*nats.Conn, error) {
 func (w *Watcher) stopGossip() {
 	w.mu.Lock()
 	cancel := w.gossipCancel
+	w.gossipCancel = nil
 	w.state = Stopped
 	w.mu.Unlock()
 
@@ -133,37 +134,22 @@ func (w *Watcher) stopGossip() {
 }
 
 func (w *Watcher) startGossip() {
+	// recorded before it starts so that stopping and starting always finds the one that is active
 	w.mu.Lock()
-	cancel := w.gossipCancel
-	ctx := w.runCtx
-	w.mu.Unlock()
-
-	if cancel != nil {
+	if w.gossipCancel != nil {
+		w.mu.Unlock()
 		return
 	}
+	gCtx, cancel := context.WithCancel(w.runCtx)
+	w.gossipCancel = cancel
+	w.state = Running
+	w.mu.Unlock()
 
 	go func() {
-		tick := time.NewTicker(w.interval)
-		gCtx, cancel := context.WithCancel(ctx)
-
-		var err error
-
-		w.mu.Lock()
-		w.state = Running
-		w.gossipCancel = cancel
-		w.mu.Unlock()
+		defer cancel()
 
-		if err != nil {
-			w.Errorf("Could not get a NATS connection to publish Gossip")
-		}
-
-		stop := func() {
-			w.mu.Lock()
-			w.gossipCancel = nil
-			w.state = Stopped
-			tick.Stop()
-			w.mu.Unlock()
-		}
+		tick := time.NewTicker(w.interval)
+		defer tick.Stop()
 
 		publish := func() {
 			if !w.ShouldWatch() {
@@ -213,10 +199,8 @@ func (w *Watcher) startGossip() {
 			case <-tick.C:
 				publish()
 			case <-gCtx.Done():
-				stop()
 				return
 			case <-w.terminate:
-				stop()
 				return
 			}
 		}
@@ -254,6 +238,7 @@ func (w *Watcher) Run(ctx context.Context, wg *sync.WaitGroup) {
 			return
 		case <-ctx.Done():
 			w.Infof("Stopping on context interrupt")
+			w.stopGossip()
 			return
 		}
 	}
@@ -335,6 +320,10 @@ func (w *Watcher) validate() error {
 		return fmt.Errorf("invalid registration subject")
 	}
 
+	if w.interval < 0 {
+		return fmt.Errorf("invalid interval %v", w.interval)
+	}
+
 	if w.interval == 0 {
 		w.interval = 15 * time.Second
 	}
-- 
2.43.0


From 24c30177c9414abbc4fc67ad173684fc3c656d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:02 +0000
Subject: [PATCH 73/94] fix: the life time of gossip is set using the header
 that is used for that

---
 aagent/watchers/gossipwatcher/gossip.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aagent/watchers/gossipwatcher/gossip.go b/aagent/watchers/gossipwatcher/gossip.go
index ae85492..4a69b0e 100644
--- a/aagent/watchers/gossipwatcher/gossip.go
+++ b/aagent/watchers/gossipwatcher/gossip.go
@@ -180,7 +180,7 @@ func (w *Watcher) startGossip() {
 			msg := nats.NewMsg(subject)
 			msg.Data = []byte(payload)
 			if w.properties.TTLSeconds > 0 {
-				msg.Header.Add("Nats-TTLSeconds", fmt.Sprintf("%ds", w.properties.TTLSeconds))
+				msg.Header.Add("Nats-TTL", fmt.Sprintf("%ds", w.properties.TTLSeconds))
 			}
 
 			nc.PublishMsg(msg)
-- 
2.43.0


From bb3aa70ee67670ac09c03288e3c01204101a76f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:01 +0000
Subject: [PATCH 74/94] fix: modes of managed files are octal and can have
 setuid, setgid and sticky bits

---
 aagent/watchers/filewatcher/file.go | 50 +++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/aagent/watchers/filewatcher/file.go b/aagent/watchers/filewatcher/file.go
index 98dd84f..8bc7a26 100644
--- a/aagent/watchers/filewatcher/file.go
+++ b/aagent/watchers/filewatcher/file.go
@@ -230,11 +230,6 @@ func (w *Watcher) createFile(content []byte, mode os.FileMode) (state State, err
 	defer tf.Close()
 	defer os.Remove(tf.Name())
 
-	err = tf.Chmod(mode)
-	if err != nil {
-		return Error, fmt.Errorf("could not change file permissions: %w", err)
-	}
-
 	_, err = tf.Write(content)
 	if err != nil {
 		return Error, fmt.Errorf("could not write temporary file: %w", err)
@@ -277,6 +272,12 @@ func (w *Watcher) createFile(content []byte, mode os.FileMode) (state State, err
 		}
 	}
 
+	// after changing ownership since that removes the setuid and setgid bits
+	err = tf.Chmod(mode)
+	if err != nil {
+		return Error, fmt.Errorf("could not change file permissions: %w", err)
+	}
+
 	err = tf.Close()
 	if err != nil {
 		return Error, fmt.Errorf("could not close temporary file: %w", err)
@@ -295,6 +296,27 @@ func (w *Watcher) createFile(content []byte, mode os.FileMode) (state State, err
 	return Changed, nil
 }
 
+// parseMode parses an octal mode, with or without leading 0, into a FileMode that is equal to that of a file with that mode
+func parseMode(mode string) (os.FileMode, error) {
+	m, err := strconv.ParseUint(mode, 8, 12)
+	if err != nil {
+		return 0, fmt.Errorf("invalid mode, must be a string like 0700")
+	}
+
+	fmode := os.FileMode(m).Perm()
+	if m&04000 != 0 {
+		fmode |= os.ModeSetuid
+	}
+	if m&02000 != 0 {
+		fmode |= os.ModeSetgid
+	}
+	if m&01000 != 0 {
+		fmode |= os.ModeSticky
+	}
+
+	return fmode, nil
+}
+
 func (w *Watcher) watchFileContent() (state State, err error) {
 	mode, err := w.ProcessTemplate(w.properties.Mode)
 	if err != nil {
@@ -304,9 +326,9 @@ func (w *Watcher) watchFileContent() (state State, err error) {
 		return Error, fmt.Errorf("mode template result is empty")
 	}
 
-	wantMode, err := strconv.ParseUint(mode, 0, 32)
+	wantMode, err := parseMode(mode)
 	if err != nil {
-		return Error, fmt.Errorf("invalid mode, must be a string like 0700")
+		return Error, err
 	}
 
 	content, err := w.ProcessTemplateBytes(w.properties.Contents)
@@ -316,15 +338,15 @@ func (w *Watcher) watchFileContent() (state State, err error) {
 
 	stat, err := os.Stat(w.properties.Path)
 	if err != nil {
-		return w.createFile(content, os.FileMode(wantMode))
+		return w.createFile(content, wantMode)
 	}
 
 	if stat.ModTime().After(w.mtime) {
-		return w.createFile(content, os.FileMode(wantMode))
+		return w.createFile(content, wantMode)
 	}
 
-	if stat.Mode() != os.FileMode(wantMode) {
-		return w.createFile(content, os.FileMode(wantMode))
+	if stat.Mode() != wantMode {
+		return w.createFile(content, wantMode)
 	}
 
 	cHash, err := iu.Sha256HashBytes(content)
@@ -338,7 +360,7 @@ func (w *Watcher) watchFileContent() (state State, err error) {
 	}
 
 	if cHash != fHash {
-		return w.createFile(content, os.FileMode(wantMode))
+		return w.createFile(content, wantMode)
 	}
 
 	return Unchanged, nil
@@ -372,9 +394,9 @@ func (w *Watcher) validate() error {
 			return fmt.Errorf("mode is required when managing content")
 		}
 
-		_, err := strconv.ParseUint(w.properties.Mode, 10, 32)
+		_, err := parseMode(w.properties.Mode)
 		if err != nil {
-			return fmt.Errorf("invalid mode, must be a string like 0700")
+			return err
 		}
 	}
 
-- 
2.43.0


From e76e51f12732e71013f5a50c97a9a4fccbd0c5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:18 +0000
Subject: [PATCH 75/94] fix: turning a switch off is not answered with the
 switch being on

---
 aagent/watchers/httpswitchwatcher/httpswitch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aagent/watchers/httpswitchwatcher/httpswitch.go b/aagent/watchers/httpswitchwatcher/httpswitch.go
index 933b24b..21a7832 100644
--- a/aagent/watchers/httpswitchwatcher/httpswitch.go
+++ b/aagent/watchers/httpswitchwatcher/httpswitch.go
@@ -105,7 +105,7 @@ func (w *Watcher) TurnOff() (bool, error) {
 
 	w.buttonPress <- Off
 
-	return true, nil
+	return false, nil
 }
 
 func (w *Watcher) registerWithHTTP() {
-- 
2.43.0


From de9b4f36cba8c591eed75c77e77c6a279f0ae1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:18 +0000
Subject: [PATCH 76/94] fix: requests for a switch that does not exist get only
 an error

---
 aagent/http/http.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aagent/http/http.go b/aagent/http/http.go
index 9548671..856b125 100644
--- a/aagent/http/http.go
+++ b/aagent/http/http.go
@@ -203,6 +203,7 @@ func (s *HTTPServer) switchGetHandler(w http.ResponseWriter, r *http.Request) {
 	if err != nil {
 		w.WriteHeader(http.StatusBadRequest)
 		w.Write([]byte(err.Error()))
+		return
 	}
 
 	j, err := json.Marshal(resp)
-- 
2.43.0


From 291a070bbd57242145613c0e908404b952a1fd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:18 +0000
Subject: [PATCH 77/94] fix: a machine that stops does not remove watchers of
 its replacement from HTTP

---
 aagent/http/http.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aagent/http/http.go b/aagent/http/http.go
index 856b125..f33f9d9 100644
--- a/aagent/http/http.go
+++ b/aagent/http/http.go
@@ -358,8 +358,9 @@ func (s *HTTPServer) RemoveSwitchWatcher(machine string, watcher model.HttpSwitc
 	s.Lock()
 	defer s.Unlock()
 
-	_, ok := s.switches[machine]
-	if ok {
+	// a machine that is replaced can stop after its replacement added a watcher of the same name
+	current, ok := s.switches[machine][watcher.Name()]
+	if ok && current == watcher {
 		s.logger.Infof("Removing switch watcher %s#%s from HTTP", machine, watcher.Name())
 		delete(s.switches[machine], watcher.Name())
 	}
@@ -382,8 +383,9 @@ func (s *HTTPServer) RemoveMetricWatcher(machine string, watcher model.MetricWat
 	s.Lock()
 	defer s.Unlock()
 
-	_, ok := s.metrics[machine]
-	if ok {
+	// a machine that is replaced can stop after its replacement added a watcher of the same name
+	current, ok := s.metrics[machine][watcher.Name()]
+	if ok && current == watcher {
 		s.logger.Infof("Removing metric watcher %s#%s from HTTP", machine, watcher.Name())
 		delete(s.metrics[machine], watcher.Name())
 	}
-- 
2.43.0


From 05b109d5ad4a3c20535a85d68b5532e6c69f9539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:38 +0000
Subject: [PATCH 78/94] fix: switches and metrics of machines in the server are
 reachable over HTTP when that is enabled

---
 aagent/aagent.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/aagent/aagent.go b/aagent/aagent.go
index 08367b5..bc75dd5 100644
--- a/aagent/aagent.go
+++ b/aagent/aagent.go
@@ -70,19 +70,13 @@ func New(dir string, fw model.ChoriaProvider) (aa *AAgent, err error) {
 func (a *AAgent) startHTTPListeners(ctx context.Context, wg *sync.WaitGroup) {
 	defer wg.Done()
 
-	httpPort := a.fw.MachineHTTPPort()
-
-	if httpPort == 0 {
+	if a.httpManager == nil {
 		return
 	}
 
-	a.logger.Infof("Starting Autonomous Agent HTTP listeners on port %d", httpPort)
+	httpPort := a.fw.MachineHTTPPort()
 
-	var err error
-	a.httpManager, err = aahttp.NewHTTPServer(a.logger.WithField("port", httpPort))
-	if err != nil {
-		a.logger.Errorf("Could not start Autonomous Agent HTTP listeners: %s", err)
-	}
+	a.logger.Infof("Starting Autonomous Agent HTTP listeners on port %d", httpPort)
 
 	mux := http.NewServeMux()
 	mux.Handle(HTTPSwitchHandlerPattern, aahttp.LoggingMiddleware(a.logger, http.HandlerFunc(a.httpManager.SwitchHandler)))
@@ -98,7 +92,7 @@ func (a *AAgent) startHTTPListeners(ctx context.Context, wg *sync.WaitGroup) {
 	stop := context.AfterFunc(ctx, func() { srv.Close() })
 	defer stop()
 
-	err = srv.ListenAndServe()
+	err := srv.ListenAndServe()
 	if errors.Is(err, http.ErrServerClosed) {
 		return
 	}
@@ -108,6 +102,17 @@ func (a *AAgent) startHTTPListeners(ctx context.Context, wg *sync.WaitGroup) {
 
 // ManageMachines start observing the source directories starting and stopping machines based on changes on disk
 func (a *AAgent) ManageMachines(ctx context.Context, wg *sync.WaitGroup) error {
+	httpPort := a.fw.MachineHTTPPort()
+	if httpPort > 0 {
+		mgr, err := aahttp.NewHTTPServer(a.logger.WithField("port", httpPort))
+		if err != nil {
+			a.logger.Errorf("Could not start Autonomous Agent HTTP listeners: %s", err)
+		} else {
+			// before any machine is started since these register with it
+			a.httpManager = mgr
+		}
+	}
+
 	wg.Add(2)
 	go a.watchSource(ctx, wg)
 	go a.startHTTPListeners(ctx, wg)
@@ -144,6 +149,9 @@ func (a *AAgent) configureMachine(aa *machine.Machine) {
 	aa.SetConnection(a.fw.Connector())
 	aa.SetChoriaStatusFile(a.fw.ServerStatusFile())
 	aa.SetSignerKey(a.fw.MachineSignerKey())
+	if a.httpManager != nil {
+		aa.SetHttpManager(a.httpManager)
+	}
 	aa.SetExternalMachineNotifier(a.notifyMachinesAfterTransition)
 	aa.SetExternalMachineStateQuery(a.machineStateLookup)
 }
-- 
2.43.0


From 46415bb49229238969bf772ee2533efa3bd643c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:26 +0000
Subject: [PATCH 79/94] fix: metrics do not disappear from Prometheus when
 there are more than five metric watchers

---
 aagent/watchers/metricwatcher/metric.go     | 3 ++-
 aagent/watchers/metricwatcher/prometheus.go | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/aagent/watchers/metricwatcher/metric.go b/aagent/watchers/metricwatcher/metric.go
index 93e4aaf..ceeb476 100644
--- a/aagent/watchers/metricwatcher/metric.go
+++ b/aagent/watchers/metricwatcher/metric.go
@@ -37,7 +37,7 @@ type Metric struct {
 	Time    int64              `json:"time"`
 	name    string
 	machine string
-	seen    int
+	expires time.Time
 }
 
 func (m *Metric) GetLabels() map[string]string   { return m.Labels }
@@ -332,6 +332,7 @@ func (w *Watcher) handleCheck(ctx context.Context, output []byte, err error) err
 	w.mu.Unlock()
 
 	if !w.properties.SkipPrometheus {
+		result.expires = time.Now().Add(6 * w.properties.Interval)
 		err = updatePromState(w.machine.TextFileDirectory(), w, w.machine.Name(), w.name, &result)
 		if err != nil {
 			w.Errorf("Could not update prometheus: %s", err)
diff --git a/aagent/watchers/metricwatcher/prometheus.go b/aagent/watchers/metricwatcher/prometheus.go
index 38bfc55..2b77485 100644
--- a/aagent/watchers/metricwatcher/prometheus.go
+++ b/aagent/watchers/metricwatcher/prometheus.go
@@ -10,6 +10,7 @@ import (
 	"path/filepath"
 	"strings"
 	"sync"
+	"time"
 
 	"github.com/choria-io/go-choria/internal/util"
 )
@@ -80,12 +81,12 @@ func savePromState(td string, log logger) error {
 	// ie. machine1 with a metric name kasa and machine2 with a metric name kasa will both
 	// be the same prom metric but with different labels
 	pmetrics := map[string]*promMetric{}
+	now := time.Now()
 	for _, ms := range metrics {
-		ms.seen++
-
 		// if metrics arent being updated we need to eventually stop logging them, this can happen
-		// when someone renames a watcher in a machine - it should call delete but sometimes its missed
-		if ms.seen > 5 {
+		// when someone renames a watcher in a machine - it should call delete but sometimes its missed,
+		// other watchers save these as well so how often they are saved says nothing
+		if now.After(ms.expires) {
 			continue
 		}
 
-- 
2.43.0


From a39d83a267e1b75ef04978f5988225756d97e860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:29 +0000
Subject: [PATCH 80/94] fix: partial Prometheus metrics are not published and
 no temporary files are left behind

---
 aagent/watchers/metricwatcher/prometheus.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/aagent/watchers/metricwatcher/prometheus.go b/aagent/watchers/metricwatcher/prometheus.go
index 2b77485..71b6a5f 100644
--- a/aagent/watchers/metricwatcher/prometheus.go
+++ b/aagent/watchers/metricwatcher/prometheus.go
@@ -5,6 +5,7 @@
 package metricwatcher
 
 import (
+	"bytes"
 	"fmt"
 	"os"
 	"path/filepath"
@@ -113,6 +114,7 @@ func savePromState(td string, log logger) error {
 	if err != nil {
 		return fmt.Errorf("failed to create prometheus metric in %q: %s", td, err)
 	}
+	defer os.Remove(tfile.Name())
 	defer tfile.Close()
 
 	for name, pm := range pmetrics {
@@ -120,10 +122,16 @@ func savePromState(td string, log logger) error {
 			continue
 		}
 
-		fmt.Fprintf(tfile, "# HELP %s Choria Metric\n", name)
-		fmt.Fprintf(tfile, "# TYPE %s gauge\n", name)
+		buf := bytes.NewBuffer([]byte{})
+		fmt.Fprintf(buf, "# HELP %s Choria Metric\n", name)
+		fmt.Fprintf(buf, "# TYPE %s gauge\n", name)
 		for _, v := range pm.values {
-			fmt.Fprintf(tfile, "%s{%s} %f\n", name, v.labels, v.value)
+			fmt.Fprintf(buf, "%s{%s} %f\n", name, v.labels, v.value)
+		}
+
+		_, err = tfile.Write(buf.Bytes())
+		if err != nil {
+			return fmt.Errorf("failed to write prometheus metrics in %q: %s", td, err)
 		}
 	}
 
-- 
2.43.0


From f9e9065265ac167c18db9d537d3b6ce95800473b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:54 +0000
Subject: [PATCH 81/94] fix: brokers can be configured using IPv6 addresses

---
 srvcache/server.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/srvcache/server.go b/srvcache/server.go
index adfaff4..c4ba3d4 100644
--- a/srvcache/server.go
+++ b/srvcache/server.go
@@ -6,7 +6,9 @@ package srvcache
 
 import (
 	"fmt"
+	"net"
 	"net/url"
+	"strconv"
 )
 
 // BasicServer is a representation of a network server host and port, implements Server
@@ -36,7 +38,7 @@ func (s *BasicServer) SetScheme(scheme string) { s.scheme = scheme }
 
 // HostPort is a string in hostname:port format
 func (s *BasicServer) HostPort() string {
-	return fmt.Sprintf("%s:%d", s.host, s.port)
+	return net.JoinHostPort(s.host, strconv.Itoa(int(s.port)))
 }
 
 // URL creates a correct url from the server if scheme is known
@@ -45,7 +47,7 @@ func (s *BasicServer) URL() (u *url.URL, err error) {
 		return u, fmt.Errorf("server %s:%d has no scheme, cannot make a URL", s.host, s.port)
 	}
 
-	ustring := fmt.Sprintf("%s://%s:%d", s.scheme, s.host, s.port)
+	ustring := fmt.Sprintf("%s://%s", s.scheme, s.HostPort())
 
 	u, err = url.Parse(ustring)
 	if err != nil {
@@ -58,8 +60,8 @@ func (s *BasicServer) URL() (u *url.URL, err error) {
 // String is a string representation of the server in url format
 func (s *BasicServer) String() string {
 	if s.scheme == "" {
-		return fmt.Sprintf("%s:%d", s.host, s.port)
+		return s.HostPort()
 	}
 
-	return fmt.Sprintf("%s://%s:%d", s.scheme, s.host, s.port)
+	return fmt.Sprintf("%s://%s", s.scheme, s.HostPort())
 }
-- 
2.43.0


From 98065627deae90f78f7e7e4fa8b9fe97a0aeb690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:54 +0000
Subject: [PATCH 82/94] fix: cached SRV records expire even when they are
 looked up often

---
 srvcache/cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srvcache/cache.go b/srvcache/cache.go
index 8f14973..2e6cf76 100644
--- a/srvcache/cache.go
+++ b/srvcache/cache.go
@@ -49,9 +49,9 @@ func (c *Cache) LookupSRV(service string, proto string, name string) (cname stri
 		if err != nil {
 			return "", nil, err
 		}
-	}
 
-	c.store(q, cname, addrs)
+		c.store(q, cname, addrs)
+	}
 
 	srvctr.WithLabelValues(c.identity).Inc()
 
-- 
2.43.0


From 4c9bae788ba3a6ad32f58e6e86ff91df98f04623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:54 +0000
Subject: [PATCH 83/94] fix: data of all registration providers is published

---
 server/registration/registration.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/registration/registration.go b/server/registration/registration.go
index 697dfb5..d3999f4 100644
--- a/server/registration/registration.go
+++ b/server/registration/registration.go
@@ -125,6 +125,11 @@ func (reg *Manager) RegisterProvider(ctx context.Context, wg *sync.WaitGroup, pr
 func (reg *Manager) registrationWorker(ctx context.Context, wg *sync.WaitGroup, registrator RegistrationDataProvider) {
 	defer wg.Done()
 
+	// every provider has its own data and its own history of what was last published
+	worker := *reg
+	worker.datac = make(chan *data.RegistrationItem, 1)
+	reg = &worker
+
 	if reg.cfg.RegistrationSplay {
 		sleepTime := time.Duration(rand.N(reg.cfg.RegisterInterval)) * time.Second
 		reg.log.Infof("Sleeping %s seconds before first poll due to RegistrationSplay", sleepTime)
@@ -184,7 +189,7 @@ func (reg *Manager) publish(rmsg *data.RegistrationItem) {
 	reg.log.Debugf("Last published size is: %d, current message size is: %d", reg.lastPublishedSize, len(rmsg.Data))
 	currentTime := time.Now().Unix()
 	reg.log.Debugf("Time since last publish: %d", (currentTime - reg.lastPublishedTime))
-	if (currentTime - reg.lastPublishedTime) >= int64(reg.cfg.RegisterInterval) {
+	if reg.cfg.Choria.RegistrationSizeTrigger <= 0 || (currentTime-reg.lastPublishedTime) >= int64(reg.cfg.RegisterInterval) {
 		reg.log.Debugf("Passed the RegisterInterval since we last published. Setting last published size as %d and last published time as %d", len(rmsg.Data), currentTime)
 		reg.lastPublishedSize = len(rmsg.Data)
 		reg.lastPublishedTime = currentTime
-- 
2.43.0


From 175dcb3357b1e0c791691f16134e5ba681156782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:54 +0000
Subject: [PATCH 84/94] fix: registration data that could not be published is
 tried again the next time it is checked

---
 server/registration/registration.go | 33 +++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/server/registration/registration.go b/server/registration/registration.go
index d3999f4..fe9af6d 100644
--- a/server/registration/registration.go
+++ b/server/registration/registration.go
@@ -191,9 +191,10 @@ func (reg *Manager) publish(rmsg *data.RegistrationItem) {
 	reg.log.Debugf("Time since last publish: %d", (currentTime - reg.lastPublishedTime))
 	if reg.cfg.Choria.RegistrationSizeTrigger <= 0 || (currentTime-reg.lastPublishedTime) >= int64(reg.cfg.RegisterInterval) {
 		reg.log.Debugf("Passed the RegisterInterval since we last published. Setting last published size as %d and last published time as %d", len(rmsg.Data), currentTime)
-		reg.lastPublishedSize = len(rmsg.Data)
-		reg.lastPublishedTime = currentTime
-		reg.publishMsg(msg, rmsg.Destination)
+		if reg.publishMsg(msg, rmsg.Destination) {
+			reg.lastPublishedSize = len(rmsg.Data)
+			reg.lastPublishedTime = currentTime
+		}
 		return
 	}
 
@@ -202,22 +203,28 @@ func (reg *Manager) publish(rmsg *data.RegistrationItem) {
 		if publishSizeDifference >= float64(reg.cfg.Choria.RegistrationSizeTrigger) {
 			reg.log.Debugf("Published size difference is: %f", publishSizeDifference)
 			reg.log.Debugf("Breached threshold for registration message size. Publishing and Setting lastPublishedSize as %d and lastPublishedTime as %d", len(rmsg.Data), currentTime)
-			reg.lastPublishedSize = len(rmsg.Data)
-			reg.lastPublishedTime = currentTime
-			reg.publishMsg(msg, rmsg.Destination)
+			if reg.publishMsg(msg, rmsg.Destination) {
+				reg.lastPublishedSize = len(rmsg.Data)
+				reg.lastPublishedTime = currentTime
+			}
 			return
 		}
 	}
 }
 
-// publishMsg will publish to message to the appropriate stream
-func (reg *Manager) publishMsg(msg inter.Message, destination string) {
+// publishMsg will publish to message to the appropriate stream, false when it was not published
+func (reg *Manager) publishMsg(msg inter.Message, destination string) bool {
 	msg.SetReplyTo("dev.null")
 	msg.SetCustomTarget(destination)
-	if reg.connector.IsConnected() {
-		err := reg.connector.Publish(msg)
-		if err != nil {
-			reg.log.Warnf("Could not publish registration Message: %s", err)
-		}
+	if !reg.connector.IsConnected() {
+		return false
+	}
+
+	err := reg.connector.Publish(msg)
+	if err != nil {
+		reg.log.Warnf("Could not publish registration Message: %s", err)
+		return false
 	}
+
+	return true
 }
-- 
2.43.0


From e72f92e5d124ac0b4e0580ed17fb837b8088c1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:54 +0000
Subject: [PATCH 85/94] fix: a registration interval of zero does not crash the
 server

---
 server/registration/registration.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/server/registration/registration.go b/server/registration/registration.go
index fe9af6d..cd73d52 100644
--- a/server/registration/registration.go
+++ b/server/registration/registration.go
@@ -130,7 +130,17 @@ func (reg *Manager) registrationWorker(ctx context.Context, wg *sync.WaitGroup,
 	worker.datac = make(chan *data.RegistrationItem, 1)
 	reg = &worker
 
-	if reg.cfg.RegistrationSplay {
+	interval := reg.cfg.RegisterInterval
+	if reg.cfg.Choria.RegistrationSizeTrigger > 0 {
+		interval = reg.cfg.Choria.RegistrationSizeInterval
+	}
+
+	if interval <= 0 {
+		reg.log.Warnf("Registration is disabled, its interval is set to %d", interval)
+		return
+	}
+
+	if reg.cfg.RegistrationSplay && reg.cfg.RegisterInterval > 0 {
 		sleepTime := time.Duration(rand.N(reg.cfg.RegisterInterval)) * time.Second
 		reg.log.Infof("Sleeping %s seconds before first poll due to RegistrationSplay", sleepTime)
 		err := util.InterruptibleSleep(ctx, sleepTime)
@@ -143,11 +153,10 @@ func (reg *Manager) registrationWorker(ctx context.Context, wg *sync.WaitGroup,
 	wg.Add(1)
 	if reg.cfg.Choria.RegistrationSizeTrigger > 0 {
 		reg.log.Debugf("RegistrationSizeTrigger defined at: %d", reg.cfg.Choria.RegistrationSizeTrigger)
-		go registrator.StartRegistration(ctx, wg, reg.cfg.Choria.RegistrationSizeInterval, reg.datac)
 	} else {
 		reg.log.Debugf("RegistrationSizeTrigger is not defined, using RegisterInterval")
-		go registrator.StartRegistration(ctx, wg, reg.cfg.RegisterInterval, reg.datac)
 	}
+	go registrator.StartRegistration(ctx, wg, interval, reg.datac)
 
 	for {
 		select {
-- 
2.43.0


From a9eecafb2eb4e61ef5076ac28e9996df552c485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:54 +0000
Subject: [PATCH 86/94] fix: a registration data file that cannot be accessed
 does not crash the server

---
 providers/registration/file_content.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/providers/registration/file_content.go b/providers/registration/file_content.go
index 721cf24..23d4443 100644
--- a/providers/registration/file_content.go
+++ b/providers/registration/file_content.go
@@ -100,6 +100,9 @@ func (fc *FileContent) publish(output chan *data.RegistrationItem) error {
 	if os.IsNotExist(err) {
 		return fmt.Errorf("could not find data file %s", fc.dataFile)
 	}
+	if err != nil {
+		return fmt.Errorf("could not access data file %s: %s", fc.dataFile, err)
+	}
 
 	if fstat.Size() == 0 {
 		return fmt.Errorf("data file %s is empty", fc.dataFile)
-- 
2.43.0


From dbb4acb3a481294e5992aa46a66cdffe34c0504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:54 +0000
Subject: [PATCH 87/94] fix: writing the server status can be disabled by
 setting its interval to zero

---
 server/infosource.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/infosource.go b/server/infosource.go
index 58eff15..3dacf2f 100644
--- a/server/infosource.go
+++ b/server/infosource.go
@@ -237,7 +237,7 @@ func (srv *Instance) WriteServerStatus(ctx context.Context, wg *sync.WaitGroup)
 	freq := srv.cfg.Choria.StatusUpdateSeconds
 
 	writer := func() error {
-		if target == "" || freq == 0 {
+		if target == "" || freq <= 0 {
 			srv.log.Debug("Server status writing has been disabled")
 			return nil
 		}
@@ -262,6 +262,10 @@ func (srv *Instance) WriteServerStatus(ctx context.Context, wg *sync.WaitGroup)
 		srv.log.Errorf("Initial server status write to %s failed: %s", target, err)
 	}
 
+	if freq <= 0 {
+		return
+	}
+
 	timer := time.NewTicker(time.Duration(freq) * time.Second)
 
 	for {
-- 
2.43.0


From 782422ba0ca36ac9cb8542cead9e7df4b860c571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:54 +0000
Subject: [PATCH 88/94] fix: the status of a server with an expired token shows
 when it expired

---
 choria/framework.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/choria/framework.go b/choria/framework.go
index 4988d2d..b287352 100644
--- a/choria/framework.go
+++ b/choria/framework.go
@@ -831,24 +831,24 @@ func (fw *Framework) SignerToken() (token string, expiry time.Time, err error) {
 		if err != nil {
 			return "", exp, err
 		}
+		exp = claims.ExpireTime()
 		err = util.IsValidJwt(claims)
 		if err != nil {
 			fw.log.Warnf("Authentication token %s is not valid: %v", tf, err)
 			return "", exp, err
 		}
-		exp = claims.ExpireTime()
 
 	case tokens.ServerPurpose:
 		claims, err := tokens.ParseServerTokenUnverified(string(tb))
 		if err != nil {
 			return "", exp, err
 		}
+		exp = claims.ExpireTime()
 		err = util.IsValidJwt(claims)
 		if err != nil {
 			fw.log.Warnf("Authentication token %s is not valid: %v", tf, err)
 			return "", exp, err
 		}
-		exp = claims.ExpireTime()
 
 	case tokens.ProvisioningPurpose:
 		// nothing to verify here
-- 
2.43.0


From d9d34d7cbab7dbde6cf84400ee62c17658677d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:54 +0000
Subject: [PATCH 89/94] fix: every alive event has its own id and the time it
 was published

---
 server/lifecycle.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/server/lifecycle.go b/server/lifecycle.go
index fb4f183..8cf957c 100644
--- a/server/lifecycle.go
+++ b/server/lifecycle.go
@@ -80,20 +80,21 @@ func (srv *Instance) publishAliveEvents(ctx context.Context, wg *sync.WaitGroup)
 	defer wg.Done()
 
 	delay := time.Duration(rand.N(30)) * time.Minute
-	event, err := lifecycle.New(lifecycle.Alive, lifecycle.Identity(srv.cfg.Identity), lifecycle.Version(srv.fw.BuildInfo().Version()), lifecycle.Component(srv.eventComponent()))
-	if err != nil {
-		srv.log.Errorf("Could not create new alive event: %s", err)
-		return
-	}
 
 	srv.log.Debugf("Sleeping %v until first alive event", delay)
-	err = iu.InterruptibleSleep(ctx, delay)
+	err := iu.InterruptibleSleep(ctx, delay)
 	if err != nil {
 		return
 	}
 
 	f := func() {
 		srv.log.Debug("Publishing alive event")
+		event, err := lifecycle.New(lifecycle.Alive, lifecycle.Identity(srv.cfg.Identity), lifecycle.Version(srv.fw.BuildInfo().Version()), lifecycle.Component(srv.eventComponent()))
+		if err != nil {
+			srv.log.Errorf("Could not create new alive event: %s", err)
+			return
+		}
+
 		err = srv.PublishEvent(event)
 		if err != nil {
 			srv.log.Errorf("Could not publish startup event: %s", err)
-- 
2.43.0


From c224b477e41b1ad82c9c058cfac9a49719a95e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:54 +0000
Subject: [PATCH 90/94] fix: nodes are removed from the tally they were counted
 in when leadership changed since

---
 lifecycle/tally/tally.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lifecycle/tally/tally.go b/lifecycle/tally/tally.go
index 5901bed..9afd774 100644
--- a/lifecycle/tally/tally.go
+++ b/lifecycle/tally/tally.go
@@ -68,6 +68,7 @@ type observation struct {
 	ts        time.Time
 	component string
 	version   string
+	active    string // the label the node is counted under
 }
 
 // New creates a new Recorder
@@ -132,9 +133,10 @@ func (r *Recorder) processAlive(e lifecycle.Event) error {
 			version:   alive.Version,
 			component: alive.Component(),
 			ts:        time.Now(),
+			active:    r.activeLabel(),
 		}
 
-		r.versionsTally.WithLabelValues(alive.Component(), alive.Version, r.activeLabel()).Inc()
+		r.versionsTally.WithLabelValues(alive.Component(), alive.Version, cobs.hosts[hname].active).Inc()
 
 		return nil
 	}
@@ -142,9 +144,10 @@ func (r *Recorder) processAlive(e lifecycle.Event) error {
 	cobs.hosts[hname].ts = time.Now()
 
 	if obs.version != alive.Version {
-		r.versionsTally.WithLabelValues(alive.Component(), obs.version, r.activeLabel()).Dec()
+		r.versionsTally.WithLabelValues(alive.Component(), obs.version, obs.active).Dec()
 		obs.version = alive.Version
-		r.versionsTally.WithLabelValues(alive.Component(), obs.version, r.activeLabel()).Inc()
+		obs.active = r.activeLabel()
+		r.versionsTally.WithLabelValues(alive.Component(), obs.version, obs.active).Inc()
 	}
 
 	return nil
@@ -168,16 +171,17 @@ func (r *Recorder) processStartup(e lifecycle.Event) error {
 
 	obs, ok := cobs.hosts[hname]
 	if ok {
-		r.versionsTally.WithLabelValues(startup.Component(), obs.version, r.activeLabel()).Dec()
+		r.versionsTally.WithLabelValues(startup.Component(), obs.version, obs.active).Dec()
 	}
 
 	cobs.hosts[hname] = &observation{
 		ts:        time.Now(),
 		version:   startup.Version,
 		component: startup.Component(),
+		active:    r.activeLabel(),
 	}
 
-	r.versionsTally.WithLabelValues(startup.Component(), startup.Version, r.activeLabel()).Inc()
+	r.versionsTally.WithLabelValues(startup.Component(), startup.Version, cobs.hosts[hname].active).Inc()
 
 	return nil
 }
@@ -200,7 +204,7 @@ func (r *Recorder) processShutdown(e lifecycle.Event) error {
 	}
 
 	delete(cobs.hosts, hname)
-	r.versionsTally.WithLabelValues(shutdown.Component(), obs.version, r.activeLabel()).Dec()
+	r.versionsTally.WithLabelValues(shutdown.Component(), obs.version, obs.active).Dec()
 
 	return nil
 }
@@ -260,7 +264,7 @@ func (r *Recorder) maintenance() {
 
 		for host, obs := range r.observed[component].hosts {
 			if obs.ts.Before(oldest) {
-				r.versionsTally.WithLabelValues(obs.component, obs.version, r.activeLabel()).Dec()
+				r.versionsTally.WithLabelValues(obs.component, obs.version, obs.active).Dec()
 				older[host] = obs
 			}
 		}
-- 
2.43.0


From 57e984dc05fef83607ebef13b33d3aa751e24316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:54 +0000
Subject: [PATCH 91/94] fix: charts of no values and values that are not
 numbers do not crash the client

---
 providers/agent/mcorpc/aggregate/average.go | 3 ++-
 providers/agent/mcorpc/aggregate/chart.go   | 8 +++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/providers/agent/mcorpc/aggregate/average.go b/providers/agent/mcorpc/aggregate/average.go
index 27b6c78..2bbd847 100644
--- a/providers/agent/mcorpc/aggregate/average.go
+++ b/providers/agent/mcorpc/aggregate/average.go
@@ -7,6 +7,7 @@ package aggregate
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"strconv"
 	"sync"
 )
@@ -107,7 +108,7 @@ func (a *AverageAggregator) processString(v any) bool {
 	}
 
 	f, err := strconv.ParseFloat(s, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
 		return false
 	}
 
diff --git a/providers/agent/mcorpc/aggregate/chart.go b/providers/agent/mcorpc/aggregate/chart.go
index 6039e96..1137b67 100644
--- a/providers/agent/mcorpc/aggregate/chart.go
+++ b/providers/agent/mcorpc/aggregate/chart.go
@@ -7,6 +7,8 @@ package aggregate
 import (
 	"encoding/json"
 	"fmt"
+	"math"
+	"slices"
 	"strconv"
 	"sync"
 
@@ -101,7 +103,7 @@ func (s *ChartAggregator) processString(v any) bool {
 	}
 
 	f, err := strconv.ParseFloat(str, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
 		return false
 	}
 
@@ -144,5 +146,9 @@ func (s *ChartAggregator) processInt64(v any) bool {
 }
 
 func (s *ChartAggregator) chart() string {
+	if len(s.items) == 0 || math.IsInf(slices.Max(s.items)-slices.Min(s.items), 0) {
+		return ""
+	}
+
 	return asciigraph.Plot(s.items, asciigraph.Height(15), asciigraph.Width(60), asciigraph.Offset(5))
 }
-- 
2.43.0


From dc1d8840e2c5e5462ff2d54a9ba1fb6ebd118a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:54 +0000
Subject: [PATCH 92/94] fix: an aggregate without arguments does not crash the
 client

---
 providers/agent/mcorpc/ddl/agent/aggregators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/ddl/agent/aggregators.go b/providers/agent/mcorpc/ddl/agent/aggregators.go
index e8b419d..899578a 100644
--- a/providers/agent/mcorpc/ddl/agent/aggregators.go
+++ b/providers/agent/mcorpc/ddl/agent/aggregators.go
@@ -53,7 +53,7 @@ func newActionAggregators(a *Action) *actionAggregators {
 		var args []any
 
 		err := json.Unmarshal(spec.Arguments, &args)
-		if err != nil {
+		if err != nil || len(args) == 0 {
 			continue
 		}
 
-- 
2.43.0


From 60a5b6beefbd0bfd926f1fc1860b6f842f8dd190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:11 +0000
Subject: [PATCH 93/94] fix: the status of a reply is shown without color when
 color is disabled

---
 providers/agent/mcorpc/replyfmt/console.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/providers/agent/mcorpc/replyfmt/console.go b/providers/agent/mcorpc/replyfmt/console.go
index 33bd255..09915a6 100644
--- a/providers/agent/mcorpc/replyfmt/console.go
+++ b/providers/agent/mcorpc/replyfmt/console.go
@@ -173,9 +173,9 @@ func (c *ConsoleFormatter) writeHeader(sender string, reply *client.RPCReply) {
 	ss := statusStings[reply.Statuscode]
 	smsg := "%-40s %s\n\n"
 	if c.disableColor {
-		fmt.Fprintf(c.out, smsg, sender, ss.color)
-	} else {
 		fmt.Fprintf(c.out, smsg, sender, ss.plain)
+	} else {
+		fmt.Fprintf(c.out, smsg, sender, ss.color)
 	}
 }
 
-- 
2.43.0


From 3b95ea7e1f5b78526b8608895c7279f042420717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:11 +0000
Subject: [PATCH 94/94] fix: replies show the defaults of outputs and values of
 outputs with special characters in their names

---
 providers/agent/mcorpc/replyfmt/console.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/replyfmt/console.go b/providers/agent/mcorpc/replyfmt/console.go
index 09915a6..3997e8e 100644
--- a/providers/agent/mcorpc/replyfmt/console.go
+++ b/providers/agent/mcorpc/replyfmt/console.go
@@ -183,12 +183,20 @@ func (c *ConsoleFormatter) ddlAssistedPrinter(reply *client.RPCReply) {
 	max := 0
 	keys := []string{}
 
+	values := gjson.ParseBytes(reply.Data).Map()
 	parsed, ok := gjson.ParseBytes(reply.Data).Value().(map[string]any)
 	if ok {
 		c.actionInterface.SetOutputDefaults(parsed)
 	}
 
 	for key := range parsed {
+		if _, ok := values[key]; !ok {
+			j, err := json.Marshal(parsed[key])
+			if err == nil {
+				values[key] = gjson.ParseBytes(j)
+			}
+		}
+
 		output, ok := c.actionInterface.GetOutput(key)
 		if ok {
 			if len(output.DisplayAs) > max {
@@ -209,7 +217,7 @@ func (c *ConsoleFormatter) ddlAssistedPrinter(reply *client.RPCReply) {
 	sort.Strings(keys)
 
 	for _, key := range keys {
-		val := gjson.GetBytes(reply.Data, key)
+		val := values[key]
 		keyStr := key
 		valStr := val.String()
 
-- 
2.43.0

