package notifier

import (
	"github.com/choria-io/go-choria/aagent/machine"
)

//verif:override Notifier.NotifyPostTransition

// publishes what identifies the transition, cloud events are made using reflection
func (n *Notifier) NotifyPostTransition(t *machine.TransitionNotification) error {
	return n.fw.PublishRaw("choria.machine.transition", []byte(t.Machine+" "+t.Transition))
}
