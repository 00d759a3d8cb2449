package choria

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"

	"github.com/choria-io/go-choria/inter"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with choria/base.go config/new.go
//verif:override Connection.PublishRaw
//verif:override Connection.Flush
//verif:override Connection.ConnectedServer

type verifSent struct {
	target string
	data   []byte
}

var (
	verifPublished []verifSent
	verifPubFail   int // which publish fails
	verifPubTries  int
)

func (conn *Connection) ConnectedServer() string { return "nats://broker:4222" }
func (conn *Connection) Flush()                  {}
func (conn *Connection) PublishRaw(target string, data []byte) error {
	verifPubTries++
	if verifPubTries == verifPubFail {
		return errors.New("simulated")
	}
	verifPublished = append(verifPublished, verifSent{target, bytes.Clone(data)})
	return nil
}

//verif:harness prop=N01 reach=direct,federated,failed,custom clock=frozen
//verif:bounds broadcast, direct, service and custom target requests to 0, 1, 3, 199, 200, 201 or 450 hosts that are a part of a longer list, with any agent and first host name of up to 2 bytes, in one of two collectives, with none, one or two federations, both protocols, with none or any of the first eight publishes failing
func VerifPublish() {
	verifIDs, verifPublished, verifPubTries = 0, nil, 0
	os.Unsetenv("CHORIA_FED_COLLECTIVE")
	fw := verifFramework("client", verifTech())
	switch nd.OneOf("federations", "none", "one", "two") {
	case "one":
		fw.Config.Choria.FederationCollectives = []string{"f1"}
	case "two":
		fw.Config.Choria.FederationCollectives = []string{"f1", " f2"}
	}
	feds := fw.FederationCollectives()
	conn := &Connection{name: "verif", log: fw.Logger("verif"), fw: fw, config: fw.Config, ctx: context.Background()}

	agent := "x" + nd.StringOf("agent", 2, "ab")
	collective := nd.OneOf("collective", "c1", "c2")
	msg, err := fw.NewMessage([]byte("{}"), agent, collective, inter.RequestMessageType, nil)
	nd.Assert(err == nil, "a good message could not be made")
	notified := 0
	msg.OnPublish(func() { notified++ })

	kind := nd.OneOf("type", inter.RequestMessageType, inter.DirectRequestMessageType, inter.ServiceRequestMessageType)
	n := 0
	if kind == inter.DirectRequestMessageType {
		n = []int{1, 3, 199, 200, 201, 450}[nd.Choice("hosts", 6)]
	}
	more := []int{0, 1, 300}[nd.Choice("more", 3)]
	all := []string{}
	for i := 0; i < n+more; i++ {
		all = append(all, fmt.Sprintf("h%d", i))
	}
	if n > 0 {
		all[0] = "x" + nd.StringOf("host", 2, "ab")
	}
	before := append([]string{}, all...)
	if n > 0 {
		msg.SetDiscoveredHosts(all[:n])
	}
	nd.Assert(msg.SetType(kind) == nil, "the type could not be set")
	msg.SetReplyTo("reply")
	custom := ""
	if nd.OneOf("target", "usual", "custom") == "custom" {
		custom = "x" + nd.StringOf("custom", 2, "ab")
		msg.SetCustomTarget(custom)
	}
	verifPubFail = nd.Choice("fail", 9)

	err = conn.Publish(msg)
	failed := verifPubFail > 0 && verifPubTries >= verifPubFail
	nd.Assert((err != nil) == failed, "a failed publish was reported as success or a good one as failure")
	nd.Assert(verifSameStrings(all, before), "publishing changed the list of hosts of the caller")
	nd.Observe("published", len(verifPublished))
	if failed {
		nd.Reach("failed")
		return
	}

	if custom != "" {
		nd.Reach("custom")
		nd.Assert(len(verifPublished) == 1, "a request with a custom target was not sent exactly once")
		nd.Assert(nd.StrEq(verifPublished[0].target, custom), "a request with a custom target was sent elsewhere")
		return
	}

	want := []string{}
	switch kind {
	case inter.DirectRequestMessageType:
		nd.Reach("direct")
		for _, h := range before[:n] {
			want = append(want, collective+".node."+h)
		}
	case inter.ServiceRequestMessageType:
		want = append(want, collective+".broadcast.service."+agent)
	default:
		want = append(want, collective+".broadcast.agent."+agent)
	}

	if len(feds) == 0 {
		got := []string{}
		for _, p := range verifPublished {
			got = append(got, p.target)
			t, err := fw.NewTransportFromJSON(p.data)
			nd.Assert(err == nil && !t.IsFederated(), "a request was damaged or federated on the way")
		}
		nd.Assert(verifSameStrings(got, want), "a request was not sent to exactly its targets")
		return
	}

	nd.Reach("federated")
	for _, f := range []string{"f1", "f2"}[:len(feds)] {
		got := []string{}
		for _, p := range verifPublished {
			nd.Assert(p.target == "choria.federation.f1.federation" || p.target == "choria.federation.f2.federation", "a federated request was sent elsewhere")
			if p.target != "choria.federation."+f+".federation" {
				continue
			}
			t, err := fw.NewTransportFromJSON(p.data)
			nd.Assert(err == nil, "a federated request was damaged")
			id, _ := t.FederationRequestID()
			nd.Assert(id == msg.RequestID(), "a federated request carries another request id")
			nd.Assert(t.ReplyTo() == "reply", "a federated request carries another reply target")
			targets, _ := t.FederationTargets()
			nd.Assert(len(targets) <= 200, "a federated request names more than 200 targets")
			got = append(got, targets...)
		}
		nd.Assert(verifSameStrings(got, want), "a federation was not asked to send to exactly the targets of the request")
	}
}
