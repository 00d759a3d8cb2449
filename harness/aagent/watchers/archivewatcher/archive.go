package archive

import (
	"archive/tar"
	"compress/gzip"
	"context"
	"errors"
	"io"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/choria-io/go-choria/aagent/model"
	iu "github.com/choria-io/go-choria/internal/util"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with aagent/watchers/watcher/template.go internal/util/sha.go
//verif:clock .
//verif:fs . internal/util aagent/watchers/watcher
//verif:replace github.com/choria-io/go-choria/aagent/util.ParseMapStructure verifProperties
//verif:replace net/http.NewRequestWithContext verifRequest
//verif:replace compress/gzip.NewReader verifGunzip
//verif:replace archive/tar.NewReader verifTar
//verif:replace io.Copy verifCopy
//verif:method Do verifDo
//verif:method Next verifNext

func verifProperties(props map[string]any, target any) error {
	*(target.(*Properties)) = props["p"].(Properties)
	return nil
}

// verifGood is the archive that is expected
const verifGood = "a"

type verifEntry struct {
	name    string
	typ     byte
	content string
}

// verifServer is the web server and the archives it has
var verifServer struct {
	archives [2][]verifEntry // the expected one and all others
	body     string
	fail     bool // the request fails
	broken   bool // the transfer fails half way
	asked    int
	url      string
	user     string
	opened   []verifEntry
	pos      int
}

type verifBody struct{ closed bool }

func (b *verifBody) Read([]byte) (int, error) { return 0, io.EOF }
func (b *verifBody) Close() error {
	b.closed = true
	return nil
}

func verifRequest(ctx context.Context, method string, url string, body io.Reader) (*http.Request, error) {
	verifServer.url = url
	return &http.Request{Method: method, Header: http.Header{}}, nil
}

func verifDo(c any, req *http.Request) (*http.Response, error) {
	verifServer.asked++
	verifServer.user, _, _ = req.BasicAuth()
	if verifServer.fail {
		return nil, errors.New("simulated")
	}
	return &http.Response{StatusCode: 200, Body: &verifBody{}}, nil
}

func verifGunzip(r io.Reader) (*gzip.Reader, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	if len(b) != 1 || b[0] > 'm' {
		return nil, errors.New("not an archive")
	}
	entries := verifServer.archives[1]
	if b[0] == verifGood[0] {
		entries = verifServer.archives[0]
	}
	verifServer.opened = entries
	verifServer.pos = 0
	return &gzip.Reader{}, nil
}

func verifTar(r io.Reader) *tar.Reader { return &tar.Reader{} }

func verifNext(r *tar.Reader) (*tar.Header, error) {
	if verifServer.pos == len(verifServer.opened) {
		return nil, io.EOF
	}
	e := verifServer.opened[verifServer.pos]
	verifServer.pos++
	mode := int64(0600)
	if e.typ == tar.TypeDir {
		mode = 0700
	}
	return &tar.Header{Name: e.name, Typeflag: e.typ, Mode: mode, Size: int64(len(e.content))}, nil
}

func verifCopy(dst io.Writer, src io.Reader) (int64, error) {
	if _, ok := src.(*tar.Reader); ok {
		n, err := io.WriteString(dst, verifServer.opened[verifServer.pos-1].content)
		return int64(n), err
	}
	b := verifServer.body
	if verifServer.broken {
		b = b[:len(b)-1]
	}
	n, err := io.WriteString(dst, b)
	if err == nil && verifServer.broken {
		err = errors.New("simulated")
	}
	return int64(n), err
}

type verifMachine struct {
	model.Machine
	state    string
	made     []string
	notified []string
}

func (m *verifMachine) Name() string                  { return "m" }
func (m *verifMachine) Identity() string              { return "i" }
func (m *verifMachine) InstanceID() string            { return "1" }
func (m *verifMachine) Version() string               { return "1" }
func (m *verifMachine) Directory() string             { return "/m" }
func (m *verifMachine) TimeStampSeconds() int64       { return 1 }
func (m *verifMachine) Debugf(string, string, ...any) {}
func (m *verifMachine) Infof(string, string, ...any)  {}
func (m *verifMachine) Warnf(string, string, ...any)  {}
func (m *verifMachine) Errorf(string, string, ...any) {}
func (m *verifMachine) NotifyWatcherState(_ string, s any) {
	m.notified = append(m.notified, s.(*StateNotification).PreviousOutcome)
}
func (m *verifMachine) State() string { return m.state }
func (m *verifMachine) Transition(t string, _ ...any) error {
	m.made = append(m.made, t)
	return nil
}

//verif:harness prop=W09 reach=deployed,kept,refused,error,skipped,repaired deadlock=violation clock=frozen delays=0 samples=8 seconds=90
//verif:bounds an archive that is the expected one or another one, complete or cut off or not served at all, of which the file, the checksums file and one further entry are as expected or changed, missing, outside of the archive or no regular file; nothing, the same, a damaged or an older deployment being there; with and without verification of the contents, with any one file operation failing, the deployment being inspected at every file operation; HTTP, gzip, tar and SHA256 are models
func VerifArchive() {
	nd.FSReset()
	nd.FSDir("/t")
	nd.FSDir("/m")
	iu.VerifSums = map[string]byte{}
	sums := iu.VerifSum("f") + "  file\n"
	osums := iu.VerifSum("o") + "  file\n"
	iu.VerifSums[sums], iu.VerifSums[osums] = 0xa0, 0xb0

	p := Properties{Source: "https://example.net/a.tgz", Creates: "app", TargetDirectory: "/t", ArchiveChecksum: iu.VerifSum(verifGood)}
	verify := nd.Choice("verify", 2) == 1
	if verify {
		p.ContentChecksums = "SUMS"
		p.ContentChecksumsChecksum = iu.VerifSum(sums)
	}
	if nd.Choice("user", 2) == 1 {
		p.Username, p.Password = "u", "p"
	}

	file, list := string([]byte{nd.Uint8("file", 'a', 'z')}), sums
	if nd.Choice("list", 2) == 1 {
		list = osums
	}
	expected := nd.And(nd.StrEq(file, "f"), list == sums)
	entries := []verifEntry{{"app", tar.TypeDir, ""}, {"app/file", tar.TypeReg, file}, {"app/SUMS", tar.TypeReg, list}}
	extra := nd.Choice("extra", 6)
	switch extra {
	case 1:
		entries = append(entries, verifEntry{"../evil", tar.TypeReg, "x"})
	case 2:
		entries = append(entries, verifEntry{"app/../../../evil", tar.TypeReg, "x"})
	case 3:
		entries = append(entries, verifEntry{"app/link", tar.TypeSymlink, ""})
	case 4:
		entries = append(entries, verifEntry{"/evil", tar.TypeReg, "x"})
	case 5:
		entries = entries[:1]
	}
	verifServer.archives = [2][]verifEntry{entries, {{"app", tar.TypeDir, ""}, {"app/file", tar.TypeReg, "f"}, {"app/SUMS", tar.TypeReg, sums}}}
	verifServer.asked, verifServer.opened = 0, nil
	verifServer.body = string([]byte{nd.Uint8("archive", 'a', 'z')})
	served := nd.Choice("served", 3)
	verifServer.fail, verifServer.broken = served == 1, served == 2
	right := nd.And(served == 0, nd.StrEq(verifServer.body, verifGood))

	have := nd.Choice("have", 4)
	before := map[string]string{}
	switch have {
	case 1:
		before["/t/app/file"], before["/t/app/SUMS"] = "f", sums
	case 2:
		before["/t/app/file"], before["/t/app/SUMS"] = "x", sums
	case 3:
		before["/t/app/file"], before["/t/app/SUMS"] = "o", osums
	}
	for k, v := range before {
		nd.FSPut(k, v)
	}
	wasThere := have > 0
	wasGood := have == 1 || (wasThere && !verify)

	m := &verifMachine{state: "on"}
	off := nd.Choice("off", 2) == 1
	if off {
		m.state = "off"
	}
	at := 0
	if !off {
		at = nd.Int("fault", 0, 40)
	}
	n := 0
	faulted := false
	inspecting := false
	inspect := func() {
		replaced := false
		for _, f := range nd.FSPaths("/t/app") {
			c, ok := nd.FSGet(f)
			if ok {
				replaced = nd.Or(replaced, !nd.StrEq(c, before[f]))
			}
		}
		if replaced {
			nd.Assert(right, "something other than the expected archive was deployed")
			nd.Assert(extra == 0 || extra == 4, "an archive that is not valid was deployed")
			nd.Assert(nd.Or(!verify, expected), "an archive with other contents than expected was deployed")
			f, _ := nd.FSGet("/t/app/file")
			s, _ := nd.FSGet("/t/app/SUMS")
			nd.Assert(nd.And(nd.StrEq(f, file), s == list), "an archive was deployed in part")
		}
		for _, f := range nd.FSPaths("/") {
			if strings.HasSuffix(f, "evil") {
				nd.Assert(strings.HasPrefix(f, "/t/tmp/"), "a file of the archive was placed outside of it")
			}
		}
	}
	nd.FSFaults(func(op, path string) error {
		if inspecting {
			return nil
		}
		n++
		inspecting = true
		inspect()
		inspecting = false
		if n == at && op != "remove" {
			faulted = true
			return errors.New("simulated")
		}
		return nil
	})

	wi, err := New(m, "w", []string{"on"}, nil, "fail", "success", "", 0, map[string]any{"p": p})
	nd.Assert(err == nil, "a watcher could not be made")
	w := wi.(*Watcher)
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	go w.Run(ctx, wg)
	time.Sleep(100 * time.Millisecond)
	cancel()
	wg.Wait()
	nd.FSFaults(nil)
	inspect()

	made := strings.Join(m.made, ",")
	nd.Observe("made", made)
	there := len(nd.FSPaths("/t/app/")) > 0
	if off {
		nd.Reach("skipped")
		nd.Assert(verifServer.asked == 0 && made == "" && there == wasThere, "a watcher that is not active manages its archive")
		return
	}
	if faulted {
		nd.Reach("error")
		nd.Assert(made == "fail" || made == "success", "a run has no outcome")
		if made == "success" && extra != 5 {
			nd.Assert(there, "a failed deployment is reported as done")
		}
		return
	}
	nd.Assert(len(nd.FSPaths("/t/tmp/")) == 0, "temporary files are left behind")
	if verifServer.asked > 0 {
		nd.Assert(verifServer.url == p.Source && verifServer.user == p.Username, "another archive was downloaded")
	}
	if wasGood {
		nd.Reach("kept")
		nd.Assert(verifServer.asked == 0 && made == "success" && there, "a valid deployment was replaced")
		return
	}
	if nd.And(right, extra == 0 || extra == 4, nd.Or(!verify, expected)) {
		nd.Reach("deployed")
		if wasThere {
			nd.Reach("repaired")
		}
		f, _ := nd.FSGet("/t/app/file")
		nd.Assert(nd.And(made == "success", nd.StrEq(f, file)), "a valid archive was not deployed")
		return
	}
	if extra == 5 && right && !verify {
		// an empty directory is what the archive has
		nd.Assert(made == "success", "a valid archive was not deployed")
		return
	}
	nd.Reach("refused")
	nd.Assert(made == "fail", "a deployment that failed was not reported")
	for k, v := range before {
		c, _ := nd.FSGet(k)
		nd.Assert(c == v, "a deployment was changed by an archive that is not valid")
	}
}
