package flatfile

import (
	"context"
	"fmt"
	"strings"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/protocol"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with config/new.go
//verif:fs . internal/util

type verifFW struct {
	inter.Framework
	cfg *config.Config
}

func (f *verifFW) Configuration() *config.Config         { return f.cfg }
func (f *verifFW) Logger(component string) *logrus.Entry { return logrus.NewEntry(logrus.New()) }

//verif:harness prop=D02 reach=found,none,invalid,unsupported,unreadable seconds=90
//verif:bounds files of up to 3 nodes out of 2 valid and 2 invalid names in text, JSON and RPC reply formats, up to 2 identity filters, plain and regular expressions, each other kind of filter, files that cannot be read; the YAML and GJSON libraries are not used
func VerifFlatFile() {
	nd.FSReset()
	n := nd.Choice("nodes", 4)
	names := []string{}
	valid := true
	for i := 0; i < n; i++ {
		name := nd.OneOf(fmt.Sprintf("node%d", i), "web1", "db-1.example", "foo bar", "-x")
		if name == "foo bar" || name == "-x" {
			valid = false
		}
		names = append(names, name)
	}
	format := []SourceFormat{TextFormat, JSONFormat, ChoriaResponsesFormat}[nd.Choice("format", 3)]
	content := ""
	switch format {
	case TextFormat:
		for _, name := range names {
			content += name + "\n"
		}
	case JSONFormat:
		content = "[]"
		if n > 0 {
			content = `["` + strings.Join(names, `","`) + `"]`
		}
	case ChoriaResponsesFormat:
		parts := []string{}
		for _, name := range names {
			parts = append(parts, `{"sender":"`+name+`"}`)
		}
		content = `{"agent":"a","action":"b","replies":[` + strings.Join(parts, ",") + `]}`
	}
	nd.FSPut("/nodes", content)
	broken := nd.Choice("broken", 2) == 1
	if broken {
		nd.FSFaults(func(op, path string) error {
			if op == "read" || op == "open" {
				return fmt.Errorf("I/O error")
			}
			return nil
		})
	}
	opts := []DiscoverOption{File("/nodes"), Format(format)}
	f := protocol.NewFilter()
	ids := nd.Choice("ids", 3)
	for i := 0; i < ids; i++ {
		f.AddIdentityFilter(nd.OneOf(fmt.Sprintf("id%d", i), "web1", "/b/", "other"))
	}
	other := nd.Choice("other", 5)
	switch other {
	case 1:
		f.AddAgentFilter("rpcutil")
	case 2:
		f.AddClassFilter("web")
	case 3:
		f.AddFactFilter("country", "==", "mt")
	case 4:
		f.AddCompoundFilter("true")
	}
	if nd.Choice("filtered", 2) == 1 {
		opts = append(opts, Filter(f))
	} else {
		nd.Assume(ids == 0 && other == 0)
	}
	nodes, err := New(&verifFW{cfg: config.VerifNew()}).Discover(context.Background(), opts...)
	nd.Observe("nodes", nodes)
	nd.Observe("err", err != nil)
	switch {
	case other > 0:
		nd.Reach("unsupported")
		nd.Assert(err != nil && len(nodes) == 0, "filters that a file cannot resolve were ignored")
		return
	case broken:
		nd.Reach("unreadable")
		nd.Assert(err != nil && len(nodes) == 0, "a file that cannot be read is a discovery")
		return
	case !valid:
		nd.Reach("invalid")
		nd.Assert(err != nil && len(nodes) == 0, "names that cannot be nodes were discovered")
		return
	}
	nd.Assert(err == nil, "discovery from a valid file failed")
	match := func(node string) bool {
		if len(f.Identity) == 0 {
			return true
		}
		for _, id := range f.Identity {
			if id == node || (id == "/b/" && strings.Contains(node, "b")) {
				return true
			}
		}
		return false
	}
	count := func(list []string, s string) int {
		c := 0
		for _, l := range list {
			if l == s {
				c++
			}
		}
		return c
	}
	for _, name := range names {
		switch {
		case !match(name):
			nd.Assert(count(nodes, name) == 0, "a node the filter excludes was discovered")
		default:
			c := count(nodes, name)
			nd.Assert(c > 0, "a node in the file was not discovered")
			nd.Assert(c <= count(names, name), "a node was discovered more often than the file has it")
		}
	}
	for _, node := range nodes {
		nd.Assert(count(names, node) > 0, "a node that is not in the file was discovered")
	}
	if len(nodes) > 0 {
		nd.Reach("found")
	} else {
		nd.Reach("none")
	}
}

// verifValid is the definition of a node name: labels of letters, digits and inner dashes, split by dots
func verifValid(s string) bool {
	ok := len(s) > 0
	for i := 0; i < len(s); i++ {
		alnum := nd.ByteIn(nd.ByteAt(s, i), "aZ0")
		edge := i == 0 || i == len(s)-1
		c := alnum
		if !edge {
			prev := nd.ByteIn(nd.ByteAt(s, i-1), "aZ0")
			next := nd.ByteIn(nd.ByteAt(s, i+1), "aZ0")
			dot := nd.And(nd.ByteAt(s, i) == '.', prev, next)
			dash := nd.ByteAt(s, i) == '-'
			if i == 1 || len(s) < 3 {
				dash = nd.And(dash, prev)
			}
			// a dash may neither start nor end a label
			dash = nd.And(dash, nd.ByteAt(s, i-1) != '.', nd.ByteAt(s, i+1) != '.')
			c = nd.Or(alnum, dot, dash)
		}
		ok = nd.And(ok, c)
	}
	return ok
}

//verif:harness prop=D02 reach=found,invalid seconds=90
//verif:bounds text files of one line of up to 6 (thorough 7) characters over letters, a digit, dots, dashes, underscores and blanks, with and without a line end
func VerifFlatFileText() {
	nd.FSReset()
	n := 6
	if nd.Thorough() {
		n = 7
	}
	line := nd.StringOf("line", n, "aZ0.-_ ")
	nd.Assume(len(line) > 0)
	content := line
	if nd.Choice("newline", 2) == 1 {
		content += "\n"
	}
	nd.FSPut("/nodes", content)
	nodes, err := New(&verifFW{cfg: config.VerifNew()}).Discover(context.Background(), File("/nodes"), Format(TextFormat))
	nd.Observe("err", err != nil)
	name := strings.TrimSpace(line)
	if err != nil {
		nd.Reach("invalid")
		nd.Assert(!verifValid(name), "a valid node name was rejected")
		nd.Assert(len(nodes) == 0, "an invalid file has nodes")
		return
	}
	nd.Reach("found")
	nd.Assert(len(nodes) == 1, "the line is not one node")
	nd.Assert(nodes[0] == name, "the node is not the one in the file")
	nd.Assert(verifValid(name), "a name that cannot be a node was discovered")
}
