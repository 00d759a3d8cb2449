package registration

import (
	"context"
	"encoding/json"
	"errors"
	"sync"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/server/data"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with config/new.go
//verif:clock . internal/util
//verif:fs .

//verif:harness prop=L03 reach=published,updated,failed,missing clock=frozen delays=0 horizon=10m maxconc=0 timers=32
//verif:bounds three rounds of file content registration at an interval of 4 seconds, where before each the file is kept, changed, emptied or removed with a modification time that is the same, older or newer, and any one of the first 9 file operations fails
func VerifFile() {
	nd.FSReset()
	c := config.VerifNew()
	c.Choria.FileContentRegistrationData = "/data/inventory.json"
	c.Choria.FileContentRegistrationTarget = nd.OneOf("target", "", "cmdb")
	interval := 4
	reg, err := NewFileContent(c, nil, logrus.NewEntry(logrus.New()))
	nd.Assert(err == nil, "file registration is refused")

	fault, ops, failed, mine := nd.Int("fault", 0, 9), 0, false, false
	nd.FSFaults(func(op string, path string) error {
		if mine {
			return nil
		}
		ops++
		if ops == fault {
			failed = true
			return errors.New("simulated")
		}
		return nil
	})

	out := make(chan *data.RegistrationItem, 1)
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	go reg.StartRegistration(ctx, wg, interval, out)

	// time of the file as it was when it was last published
	content, mtime, seen := "", int64(0), int64(0)
	for i := 0; i < 3; i++ {
		mine = true
		switch nd.OneOf("file", "kept", "changed", "emptied", "removed") {
		case "changed":
			content = nd.OneOf("content", "one", "other")
			mtime = int64(1600000000 + nd.Int("mtime", 0, 3))
			nd.FSPut("/data/inventory.json", content)
			nd.FSSetTime("/data/inventory.json", time.Unix(mtime, 0))
		case "emptied":
			content = ""
			nd.FSPut("/data/inventory.json", "")
		case "removed":
			content = ""
			nd.FSRemove("/data/inventory.json")
		}
		failed, mine = false, false
		if i == 0 {
			time.Sleep(4500 * time.Millisecond)
		} else {
			time.Sleep(time.Duration(interval) * time.Second)
		}
		time.Sleep(0)
		var got *data.RegistrationItem
		select {
		case got = <-out:
		default:
		}
		if content == "" {
			nd.Assert(got == nil, "a file that is empty or not there is published")
			nd.Reach("missing")
			continue
		}
		if failed {
			nd.Assert(got == nil, "a file that could not be read is published")
			nd.Reach("failed")
			continue
		}
		nd.Assert(got != nil, "the registration data is not published")
		var msg FileContentMessage
		nd.Assert(json.Unmarshal(got.Data, &msg) == nil, "what is published is not JSON")
		nd.Assert(string(msg.Content) == content, "other data is published than is in the file")
		nd.Assert(msg.File == "/data/inventory.json" && msg.Protocol == "choria:registration:filecontent:1", "the data is labelled as something else")
		nd.Assert(nd.And(msg.Mtime == mtime, msg.Updated == (seen != 0 && mtime > seen)), "the data is published with another time or wrongly as changed or not changed")
		nd.Assert(got.Destination == c.Choria.FileContentRegistrationTarget && (got.TargetAgent == "registration") == (got.Destination == ""), "the data is published elsewhere")
		if msg.Updated {
			nd.Reach("updated")
		}
		if seen == 0 || mtime > seen {
			seen = mtime
		}
		nd.Reach("published")
	}
	cancel()
	wg.Wait()
}
