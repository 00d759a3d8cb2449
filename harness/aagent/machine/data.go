package machine

import (
	"errors"
	"strings"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:with aagent/machine/machine.go
//verif:fs . internal/util

type verifCrash struct{}

// verifOps makes the n'th operation on the file system fail, or the process crash there
func verifOps(n int, crash bool) {
	ops := 0
	dead := false
	nd.FSFaults(func(op string, path string) error {
		if dead {
			return errors.New("crashed")
		}
		ops++
		if ops == n {
			if crash {
				dead = true
				panic(verifCrash{})
			}
			return errors.New("simulated")
		}
		return nil
	})
}

func verifTry(f func() error) (err error, crashed bool) {
	defer func() {
		nd.FSFaults(nil)
		if r := recover(); r != nil {
			if _, ok := r.(verifCrash); !ok {
				panic(r)
			}
			crashed = true
		}
	}()
	return f(), false
}

func verifSameData(a, b map[string]any) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for k, v := range a {
		w, has := b[k]
		if !has {
			return false
		}
		ok = nd.And(ok, nd.StrEq(v.(string), w.(string)))
	}
	return ok
}

func verifCopy(a map[string]any) map[string]any {
	r := map[string]any{}
	for k, v := range a {
		r[k] = v
	}
	return r
}

func verifDataMachine() *Machine {
	m := verifMachine("m", []*Transition{{Name: "t", From: []string{"A"}, Destination: "B"}})
	nd.Assert(initializeMachine(m, "/machines/m", "/machines/m/machine.yaml", &verifManager{}) == nil, "a valid machine could not be made")
	return m
}

//verif:harness prop=W06 reach=stored,failed,crashed,deleted,restarted clock=frozen samples=12
//verif:bounds 3 operations (4 in thorough) that store or delete one of two keys with any printable value of up to 2 bytes, where any one of the first 7 file operations of each fails or the process crashes there, followed by a restart
func VerifData() {
	nd.FSReset()
	nd.FSDir("/machines/m")
	m := verifDataMachine()
	n := 3
	if nd.Thorough() {
		n = 4
	}
	mem := map[string]any{}
	crashes := 0
	disk := map[string]any{}
	for i := 0; i < n; i++ {
		key := nd.OneOf("key", "a", "b")
		after := verifCopy(mem)
		del := nd.OneOf("op", "put", "delete") == "delete"
		_, had := mem[key]
		val := ""
		if del {
			delete(after, key)
		} else {
			val = nd.StringOf("value", 2, "ab\"\\ ")
			after[key] = val
		}
		at := nd.Int("at", 0, 7)
		verifOps(at, nd.Bool("crash"))
		err, crashed := verifTry(func() error {
			if del {
				return m.DataDelete(key)
			}
			return m.DataPut(key, val)
		})
		switch {
		case crashed:
			nd.Reach("crashed")
		case err != nil:
			nd.Reach("failed")
			if !del {
				mem = after
			}
			nd.Assert(at > 0, "data could not be stored")
		case del:
			nd.Reach("deleted")
			mem = after
		default:
			nd.Reach("stored")
			mem = after
		}
		if !crashed {
			got, ok := m.DataGet(key)
			nd.Assert(err != nil || ok == !del, "stored data is not there or deleted data is")
			if ok && !del {
				nd.Assert(nd.StrEq(got.(string), val), "other data than was stored was read")
			}
			d := m.Data()
			nd.Assert(verifSameData(d, mem), "a machine has other data than was stored")
			d["c"] = "x"
			_, ok = m.DataGet("c")
			nd.Assert(!ok, "changing a copy of the data changed the data")
		}
		stored := verifDataMachine().Data()
		if err == nil && !crashed {
			_, there := stored[key]
			nd.Assert(there == !del, "data that was stored is not there after a restart, or data that was deleted is")
			nd.Assert(nd.Or(verifSameData(stored, mem), !had && del && verifSameData(stored, disk)), "data that was stored is not there after a restart")
		} else {
			nd.Assert(nd.Or(verifSameData(stored, disk), verifSameData(stored, after)), "data was lost because storing more failed")
		}
		disk = stored
		if crashed {
			nd.Reach("restarted")
			crashes++
			m = verifDataMachine()
			mem = verifCopy(stored)
		} else {
			for _, p := range nd.FSPaths("/machines/m/") {
				nd.Assert(nd.Or(at > 0, crashes > 0, strings.HasSuffix(p, "/machine_data.json")), "a temporary file was left behind")
			}
		}
	}
	nd.Observe("data", len(mem))
}
