package machines

import (
	"context"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"strings"
	"sync"
	"time"

	"github.com/choria-io/go-choria/aagent/model"
	iu "github.com/choria-io/go-choria/internal/util"
	"github.com/mitchellh/mapstructure"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with internal/util/sha.go internal/util/verify.go
//verif:clock . internal/util
//verif:fs . internal/util
//verif:replace github.com/choria-io/go-choria/aagent/util.ParseMapStructure verifProperties
//verif:replace github.com/mitchellh/mapstructure.NewDecoder verifDecoder
//verif:method Decode verifDecode
//verif:override Watcher.isNodeMatch Watcher.renderMachine

func verifProperties(props map[string]any, target any) error {
	*(target.(*Properties)) = props["p"].(Properties)
	return nil
}

var verifResult any

func verifDecoder(cfg *mapstructure.DecoderConfig) (*mapstructure.Decoder, error) {
	verifResult = cfg.Result
	return &mapstructure.Decoder{}, nil
}

func verifDecode(d any, dat any) error {
	s, ok := dat.(Specification)
	if !ok {
		return errors.New("not a specification")
	}
	**(verifResult.(**Specification)) = s
	return nil
}

// verifMatches are the outcomes of expressions, which are executed using reflection
var verifMatches map[string]bool

func (w *Watcher) isNodeMatch(m *ManagedMachine) (bool, error) { return verifMatches[m.Matcher], nil }

// without templates, which are executed using reflection
func (w *Watcher) renderMachine(m *ManagedMachine) ([]byte, error) {
	return []byte(strings.Join([]string{m.Name, m.Source, m.Username, m.Password, m.ContentChecksumsChecksum, m.ArchiveChecksum, m.Governor, m.Interval, m.Target}, "\n")), nil
}

type verifMachine struct {
	model.Machine
	data    map[string]any
	made    []string
	deleted []string
}

func (m *verifMachine) Name() string                       { return "m" }
func (m *verifMachine) Identity() string                   { return "i" }
func (m *verifMachine) InstanceID() string                 { return "1" }
func (m *verifMachine) Version() string                    { return "1" }
func (m *verifMachine) SignerKey() string                  { return "" }
func (m *verifMachine) Directory() string                  { return "/etc/machines/manager" }
func (m *verifMachine) Facts() json.RawMessage             { return nil }
func (m *verifMachine) TimeStampSeconds() int64            { return 1 }
func (m *verifMachine) Debugf(string, string, ...any)      {}
func (m *verifMachine) Infof(string, string, ...any)       {}
func (m *verifMachine) Warnf(string, string, ...any)       {}
func (m *verifMachine) Errorf(string, string, ...any)      {}
func (m *verifMachine) NotifyWatcherState(_ string, s any) {}
func (m *verifMachine) State() string                      { return "on" }
func (m *verifMachine) DataGet(k string) (any, bool)       { v, ok := m.data[k]; return v, ok }
func (m *verifMachine) DataDelete(k string) error          { delete(m.data, k); return nil }
func (m *verifMachine) Transition(t string, _ ...any) error {
	m.made = append(m.made, t)
	return nil
}

//verif:harness prop=W10 reach=deployed,updated,kept,purged,refused,unmanaged deadlock=violation clock=frozen delays=0 samples=8 seconds=90
//verif:bounds a specification of up to two entries, signed or not, with any first byte of the signature, of the right, a shorter and a longer length, without one and for other data; no, the right, another, a short and a malformed key; names that are plain, empty, dots and paths, an empty entry and missing fields; entries that match the node or not; no, the right and any other one byte content of the manager and a manager that is not wanted, with and without purging, interrupted while purging or not; mapstructure, ed25519, SHA256, templates and the expression language are models
func VerifManage() {
	nd.FSReset()
	nd.FSDir("/etc/machines/manager")
	keys := []string{"", strings.Repeat("01", 32), strings.Repeat("02", 32), "0101", "xx"}
	key := nd.Choice("key", len(keys))
	p := Properties{DataItem: "spec", PublicKey: keys[key], PurgeUnknown: nd.Choice("purge", 2) == 1}

	kinds := []string{"", "a", "b", "..", ".", "b/c", "../b", "null"}
	kind := kinds[nd.Choice("second", len(kinds))]
	missing := nd.Choice("missing", 4)
	item := func(name string) *ManagedMachine {
		return &ManagedMachine{Name: name, Source: "s" + name, Username: "u", Password: "p", Governor: "g", ContentChecksumsChecksum: "c" + name, ArchiveChecksum: "d" + name, Matcher: "m" + name}
	}
	first, second := item("a"), item(kind)
	last := second
	if kind == "null" || kind == "a" {
		last = first
	}
	switch missing {
	case 1:
		last.Source = ""
	case 2:
		last.ContentChecksumsChecksum = ""
	case 3:
		last.ArchiveChecksum = ""
	}
	items := []*ManagedMachine{first, second}
	if kind == "null" {
		items[1] = nil
	}
	if kind == "a" {
		items = items[:1]
	}
	payload, err := json.Marshal(items)
	nd.Assert(err == nil, "invalid test")
	encoded := base64.StdEncoding.EncodeToString(payload)
	iu.VerifSigned = payload
	m := &verifMachine{data: map[string]any{}}
	sigb := nd.Uint8("signature", 0, 255)
	sig := hex.EncodeToString([]byte{sigb}) + strings.Repeat("00", 63)
	form := nd.Choice("form", 6)
	sigok := sigb == iu.VerifSignature
	switch form {
	case 1:
		sig, sigok = "", false
	case 2:
		sig, sigok = sig+"x", false
	case 3:
		sig, sigok = sig[:126], false
	case 4: // another specification than the signed one
		iu.VerifSigned, sigok = []byte("other"), false
	}
	if form != 5 {
		m.data["spec"] = Specification{Machines: []byte(encoded), Signature: sig}
	}
	ma, mb := nd.Bool("matches a"), nd.Bool("matches b")
	verifMatches = map[string]bool{"ma": ma, "mb": mb}

	target := "/etc/machines"
	render := func(name string) string {
		return strings.Join([]string{name, "s" + name, "u", "p", "c" + name, "d" + name, "g", "2m0s", target}, "\n")
	}
	have := nd.Choice("have", 2)
	iu.VerifSums = map[string]byte{render("a"): 0xa0, render("b"): 0xb0}
	was := map[string]string{"/etc/machines/manager/machine.yaml": "x", "/etc/machines/other/machine.yaml": "x", "/etc/machines/mmx/machine.yaml": "x", "/etc/machines/mm_file": "x", target + "/other/f": "x"}
	current := nd.Choice("current", 2) == 1 // the manager of a is as it should be
	if have == 1 {
		was["/etc/machines/mm_a/machine.yaml"] = string([]byte{nd.Uint8("content", 1, 100)})
		if current {
			was["/etc/machines/mm_a/machine.yaml"] = render("a")
		}
		was[target+"/a/f"] = "x"
		was["/etc/machines/mm_b_c/machine.yaml"] = "x"
		was[target+"/b_c/f"] = "x"
	}
	for k, v := range was {
		nd.FSPut(k, v)
	}
	interrupt := p.PurgeUnknown && nd.Choice("interrupt", 2) == 1

	wi, err := New(m, "w", []string{"on"}, nil, "fail", "success", "", 0, map[string]any{"p": p})
	nd.Assert(err == nil, "a watcher could not be made")
	w := wi.(*Watcher)
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	go w.Run(ctx, wg)
	if interrupt {
		time.Sleep(time.Second)
	} else {
		time.Sleep(10 * time.Second)
	}
	cancel()
	wg.Wait()

	made := strings.Join(m.made, ",")
	nd.Observe("made", made)
	is := map[string]string{}
	for _, f := range nd.FSPaths("/") {
		if c, ok := nd.FSGet(f); ok {
			is[f] = c
		}
	}
	_, kept := m.data["spec"]

	valid := missing == 0 && (kind == "a" || kind == "b")
	valid = nd.And(valid, form != 5, key == 0 || nd.And(key == 1, sigok))
	if !valid {
		nd.Reach("refused")
		nd.Assert(made == "fail", "a specification that is not valid was not reported")
		for f := range was {
			nd.Assert(nd.StrEq(is[f], was[f]), "what is deployed was changed by a specification that is not valid")
		}
		nd.Assert(len(is) == len(was), "a specification that is not valid was deployed")
		if form != 5 && (key == 1 || key == 2) && !nd.And(key == 1, sigok) {
			nd.Assert(!kept, "a specification that is not signed correctly was kept")
		}
		return
	}

	nd.Assert(kept, "a valid specification was removed")
	changed := false
	for _, n := range []string{"a", "b", "b_c"} {
		f := "/etc/machines/mm_" + n + "/machine.yaml"
		d := target + "/" + n + "/f"
		wanted := n == "a" && ma || n == "b" && kind == "b" && mb
		_, there := was[f]
		got, isthere := is[f]
		_, dthere := is[d]
		switch {
		case wanted:
			nd.Reach("deployed")
			nd.Assert(isthere && got == render(n), "a manager was not deployed as specified")
			if there {
				same := nd.StrEq(was[f], render(n))
				if same {
					nd.Reach("kept")
				} else {
					nd.Reach("updated")
					changed = true
				}
				nd.Assert(dthere, "what is managed was removed")
			} else {
				changed = true
			}
		case there && p.PurgeUnknown:
			nd.Reach("purged")
			changed = true
			nd.Assert(!isthere && !dthere, "what should not be deployed was not removed")
		case there:
			nd.Reach("unmanaged")
			nd.Assert(isthere && dthere && nd.StrEq(got, was[f]), "something was removed without purging")
		default:
			nd.Assert(!isthere, "something was deployed that should not be")
		}
	}
	for f := range was {
		if !strings.Contains(f, "mm_a") && !strings.Contains(f, "b_c") && !strings.HasSuffix(f, "/a/f") {
			nd.Assert(is[f] == was[f], "something that is not managed was changed")
		}
	}
	for f := range is {
		_, there := was[f]
		nd.Assert(there || f == "/etc/machines/mm_a/machine.yaml" || f == "/etc/machines/mm_b/machine.yaml", "a file was placed elsewhere")
	}
	if changed {
		nd.Assert(made == "success", "a change was not reported")
	} else {
		nd.Assert(made == "", "a change was reported when there was none")
	}
}
