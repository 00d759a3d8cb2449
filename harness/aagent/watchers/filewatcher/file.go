package filewatcher

import (
	"context"
	"errors"
	"os"
	"os/user"
	"sync"
	"time"

	"github.com/choria-io/go-choria/aagent/model"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with aagent/watchers/watcher/template.go internal/util/sha.go
//verif:clock .
//verif:fs .
//verif:replace github.com/choria-io/go-choria/aagent/util.ParseMapStructure verifProperties
//verif:replace os/user.Lookup verifUser
//verif:replace os/user.LookupGroup verifGroup

func verifProperties(props map[string]any, target any) error {
	*(target.(*Properties)) = props["p"].(Properties)
	return nil
}

func verifUser(n string) (*user.User, error) {
	if n != "owner" {
		return nil, errors.New("simulated")
	}
	return &user.User{Uid: "11"}, nil
}

func verifGroup(n string) (*user.Group, error) {
	if n != "group" {
		return nil, errors.New("simulated")
	}
	return &user.Group{Gid: "12"}, nil
}

type verifMachine struct {
	model.Machine
	state string
	made  string
}

func (m *verifMachine) Name() string                   { return "m" }
func (m *verifMachine) Identity() string               { return "i" }
func (m *verifMachine) InstanceID() string             { return "1" }
func (m *verifMachine) Version() string                { return "1" }
func (m *verifMachine) Directory() string              { return "/m" }
func (m *verifMachine) TimeStampSeconds() int64        { return 1 }
func (m *verifMachine) Debugf(string, string, ...any)  {}
func (m *verifMachine) Infof(string, string, ...any)   {}
func (m *verifMachine) Warnf(string, string, ...any)   {}
func (m *verifMachine) Errorf(string, string, ...any)  {}
func (m *verifMachine) NotifyWatcherState(string, any) {}
func (m *verifMachine) State() string                  { return m.state }
func (m *verifMachine) Transition(t string, _ ...any) error {
	m.made += t
	return nil
}

// what happens to the file before a check
func verifEvent(name string, at time.Time) string {
	e := []string{"", "written", "old", "mode", "removed", "directory", "off"}[nd.Choice(name, 7)]
	switch e {
	case "written":
		nd.FSRemove("/m/f")
		nd.FSPut("/m/f", string([]byte{nd.Uint8(name+" content", 'a', 'z')}))
		nd.FSSetTime("/m/f", at)
		nd.FSChmod("/m/f", 0644)
	case "old": // changed without a later time
		i, err := nd.FSStat("/m/f")
		if err == nil && !i.IsDir() {
			nd.FSPut("/m/f", string([]byte{nd.Uint8(name+" content", 'a', 'z')}))
			nd.FSSetTime("/m/f", i.ModTime())
		}
	case "mode":
		nd.FSChmod("/m/f", os.FileMode(nd.Choice(name+" mode", 2)*0600))
	case "removed":
		nd.FSRemove("/m/f")
	case "directory":
		nd.FSRemove("/m/f")
		nd.FSDir("/m/f")
		nd.FSSetTime("/m/f", at)
	}
	return e
}

func verifMade(m *verifMachine) string {
	made := m.made
	m.made = ""
	nd.Assert(made == "" || made == "fail" || made == "success", "one check makes several transitions")
	return made
}

func verifStart(p Properties, m *verifMachine) func() {
	wi, err := New(m, "w", []string{"on"}, nil, "fail", "success", "2s", 0, map[string]any{"p": p})
	nd.Assert(err == nil, "a watcher could not be made")
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	go wi.(*Watcher).Run(ctx, wg)
	time.Sleep(time.Second)
	return func() { cancel(); wg.Wait() }
}

//verif:harness prop=W15 reach=changed,same,missing,inactive,unreadable,first deadlock=violation clock=frozen delays=0 samples=8 timers=24 seconds=90
//verif:bounds a file that is there or not at the start, of which the initial state is gathered or not, is checked four times and before each of the last three written, changed without a later time, removed, replaced by a directory or left as it is, or the machine is in another state; the file cannot be accessed at any one check
func VerifWatched() {
	nd.FSReset()
	nd.FSDir("/m")
	m := &verifMachine{state: "on"}
	initial := nd.Choice("initial", 2)
	p := Properties{Path: []string{"f", "/m/f"}[initial], Initial: initial == 1}
	seen := time.Time{}
	if nd.Choice("there", 2) == 1 {
		nd.FSPut("/m/f", "x")
		if p.Initial {
			seen = nd.Now()
		}
	}
	unreadable := nd.Int("unreadable", 0, 4)
	stop := verifStart(p, m)
	for check := 1; check < 5; check++ {
		m.state = "on"
		if check > 1 && verifEvent([]string{"", "", "a", "b", "c"}[check], nd.Now()) == "off" {
			m.state = "off"
		}
		if check == unreadable {
			nd.FSFaults(func(op, path string) error { return os.ErrPermission })
		}
		time.Sleep(2 * time.Second)
		nd.FSFaults(nil)
		made := verifMade(m)
		nd.Observe("made", made)
		i, err := nd.FSStat("/m/f")
		switch {
		case m.state == "off":
			nd.Reach("inactive")
			nd.Assert(made == "", "a file is checked while not active")
		case check == unreadable:
			nd.Reach("unreadable")
			nd.Assert(made == "fail", "a file that cannot be accessed is not reported")
			seen = time.Time{}
		case err != nil:
			nd.Reach("missing")
			nd.Assert(made == "fail", "a file that is missing is not reported")
			seen = time.Time{}
		case i.ModTime().After(seen):
			nd.Reach("changed")
			nd.Assert(made == "success", "a file that changed is not reported")
			if seen.IsZero() {
				nd.Reach("first")
			}
			seen = i.ModTime()
		default:
			nd.Reach("same")
			nd.Assert(made == "", "a file that did not change is reported")
		}
	}
	stop()
}

//verif:harness prop=W15 reach=managed,same,failed,inactive,owner deadlock=violation clock=frozen delays=0 samples=8 timers=24 seconds=90
//verif:bounds a file with any one letter as content and one of three modes, with an owner that is known or not, is checked three times and before each written with any letter, changed without a later time, changed in mode, removed, replaced by a directory or left as it is, or the machine is in another state; any one file operation may fail
func VerifManaged() {
	nd.FSReset()
	nd.FSDir("/m")
	m := &verifMachine{state: "on"}
	content := string([]byte{nd.Uint8("content", 'a', 'z')})
	mi := nd.Choice("mode", 3)
	owner := "owner"
	if nd.Choice("owner unknown", 2) == 1 {
		owner = "other"
	}
	p := Properties{Path: "/m/f", Contents: content, Owner: owner, Group: "group", Mode: []string{"0600", "644", "7755"}[mi]}
	mode := []os.FileMode{0600, 0644, 0755 | os.ModeSetuid | os.ModeSetgid | os.ModeSticky}[mi]
	if nd.Choice("there", 2) == 1 {
		nd.FSPut("/m/f", string([]byte{nd.Uint8("before", 'a', 'z')}))
		nd.FSPut("/m/other", "x")
	}
	fault, ops := nd.Int("fault", 0, 10), 0
	stop := verifStart(p, m)
	kept, removing := false, false
	for check := 0; check < 3; check++ {
		m.state = "on"
		touched := true
		if check > 0 {
			switch verifEvent([]string{"", "a", "b"}[check], nd.Now()) {
			case "off":
				m.state = "off"
			case "":
				touched = false
			}
		}
		was, had := nd.FSGet("/m/f")
		wasMode, _, _ := nd.FSMode("/m/f")
		failed := false
		nd.FSFaults(func(op, path string) error {
			ops++
			if ops == fault {
				failed, removing = true, op == "remove"
				return os.ErrPermission
			}
			return nil
		})
		time.Sleep(2 * time.Second)
		nd.FSFaults(nil)
		made := verifMade(m)
		nd.Observe("made", made)
		is, has := nd.FSGet("/m/f")
		isMode, uid, gid := nd.FSMode("/m/f")
		same := nd.And(has == had, nd.StrEq(is, was), isMode == wasMode)
		for _, f := range nd.FSPaths("/m/") {
			nd.Assert(f == "/m/f" || f == "/m/other" || removing, "a temporary file is left behind")
		}
		if m.state == "off" {
			nd.Reach("inactive")
			nd.Assert(nd.And(made == "", same), "a file is managed while not active")
			continue
		}
		right := nd.And(has, nd.StrEq(is, content), isMode == mode)
		switch made {
		case "fail":
			nd.Reach("failed")
			nd.Assert(same, "a file changed that could not be managed")
			nd.Assert(nd.Or(failed, owner == "other", isMode.IsDir()), "a file that can be managed is reported as failed")
			kept = false
		case "success":
			nd.Reach("managed")
			nd.Assert(right, "a managed file is not as configured")
			nd.Assert(uid == 11 && gid == 12, "a managed file has another owner")
			nd.Assert(!kept || touched || failed, "a file that was as configured is reported as changed")
			kept = !failed
		default:
			nd.Reach("same")
			nd.Assert(nd.And(right, same), "a file that is not as configured is not managed")
		}
		if owner == "other" {
			nd.Reach("owner")
		}
	}
	stop()
}

//verif:harness prop=W15 reach=valid,invalid samples=8 seconds=60
//verif:bounds files with and without path, content, owner, group and with valid and invalid modes and intervals
func VerifValidate() {
	m := &verifMachine{state: "on"}
	p := Properties{
		Path:     []string{"f", ""}[nd.Choice("path", 2)],
		Contents: []string{"x", ""}[nd.Choice("contents", 2)],
		Owner:    []string{"owner", ""}[nd.Choice("owner", 2)],
		Group:    []string{"group", ""}[nd.Choice("group", 2)],
		Mode:     []string{"0700", "7777", "", "x", "0800", "10000", "-700"}[nd.Choice("mode", 7)],
	}
	interval := []string{"", "1s", "-2s", "100ms", "x"}[nd.Choice("interval", 5)]
	_, err := New(m, "w", []string{"on"}, nil, "fail", "success", interval, 0, map[string]any{"p": p})
	valid := p.Path != "" && (p.Contents == "" || p.Owner != "" && p.Group != "" && (p.Mode == "0700" || p.Mode == "7777")) && (interval == "" || interval == "1s")
	nd.Observe("ok", err == nil)
	nd.Assert((err == nil) == valid, "a watcher is not validated")
	if valid {
		nd.Reach("valid")
	} else {
		nd.Reach("invalid")
	}
}
