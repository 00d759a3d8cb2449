package machine

import (
	"errors"

	"github.com/choria-io/go-choria/aagent/watchers"
)

//verif:fs . internal/util
//verif:clock . backoff
//verif:replace github.com/goccy/go-yaml.Unmarshal verifYAML

// decoding YAML uses reflection, this makes the machine a manifest that is "name version" describes
func verifYAML(b []byte, v any) error {
	m, ok := v.(*Machine)
	if !ok {
		return errors.New("not a machine")
	}
	s := string(b)
	i := 0
	for i < len(s) && s[i] != ' ' {
		i++
	}
	if i == len(s) {
		return errors.New("not valid")
	}
	m.MachineName = s[:i]
	m.MachineVersion = s[i+1:]
	m.InitialState = "A"
	m.Transitions = []*Transition{{Name: "go", From: []string{"A"}, Destination: "B"}, {Name: "follow", From: []string{"A"}, Destination: "C", Subscriptions: []MachineSubscription{{MachineName: "one", Event: "go"}}}}
	m.WatcherDefs = []*watchers.WatcherDef{{Name: "w", Type: "verif"}}
	return nil
}
