package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Native runs cases against the compiled code
type Native struct {
	bin string
	dir string
	err error
}

type nativeCase struct {
	Inputs   []ReplayInput `json:"inputs"`
	Thorough bool          `json:"thorough"`
	Frozen   bool          `json:"frozen"`
}

type nativeResult struct {
	Outcome string      `json:"outcome"`
	Msg     string      `json:"msg"`
	Obs     []ReplayObs `json:"obs"`
	out     string
}

// buildNative compiles the harnesses with the real code
func buildNative(hs []*Harness, ov map[string][]byte) *Native {
	n := &Native{}
	n.dir, n.err = os.MkdirTemp("", "gosym")
	if n.err != nil {
		return n
	}
	var sb bytes.Buffer
	sb.WriteString("package main\n\nimport (\n\t\"os\"\n\t\"" + ndPath + "\"\n")
	alias := map[string]string{}
	for _, h := range hs {
		if _, ok := alias[h.File.Rel]; !ok {
			alias[h.File.Rel] = fmt.Sprintf("p%d", len(alias))
			fmt.Fprintf(&sb, "\t%s \"%s/%s\"\n", alias[h.File.Rel], modPath, h.File.Rel)
		}
	}
	sb.WriteString(")\n\nfunc main() {\n\tswitch os.Args[1] {\n")
	done := map[string]bool{}
	for _, h := range hs {
		k := h.File.Rel + ":" + h.Name
		if done[k] {
			continue
		}
		done[k] = true
		fmt.Fprintf(&sb, "\tcase %q:\n\t\tverifnd.Run(os.Args[2], os.Args[3], %s.%s)\n", k, alias[h.File.Rel], h.Name)
	}
	sb.WriteString("\t}\n\tos.Exit(8)\n}\n")
	o2 := map[string][]byte{}
	for k, v := range ov {
		o2[k] = v
	}
	o2[filepath.Join(repoDir, "internal/verifreplay/main.go")] = sb.Bytes()
	src := filepath.Join(n.dir, "ov")
	os.MkdirAll(src, 0755)
	oj, err := writeOverlay(src, o2)
	if err != nil {
		n.err = err
		return n
	}
	n.bin = filepath.Join(n.dir, "replay")
	cmd := exec.Command("go", "build", "-overlay", oj, "-o", n.bin, "./internal/verifreplay")
	cmd.Dir = repoDir
	out, err := cmd.CombinedOutput()
	if err != nil {
		n.err = fmt.Errorf("native build: %v: %s", err, out)
	}
	return n
}

func (n *Native) close() {
	if n != nil && n.dir != "" && os.Getenv("GOSYM_KEEP") == "" {
		os.RemoveAll(n.dir)
	}
}

// run executes one case in a scratch directory
func (n *Native) run(h *Harness, cfg HarnessCfg, in []ReplayInput, timeout time.Duration, env ...string) nativeResult {
	if n.err != nil {
		return nativeResult{Outcome: "error", Msg: n.err.Error()}
	}
	d, err := os.MkdirTemp(n.dir, "case")
	if err != nil {
		return nativeResult{Outcome: "error", Msg: err.Error()}
	}
	defer os.RemoveAll(d)
	cf, of := filepath.Join(d, "case.json"), filepath.Join(d, "out.json")
	j, _ := json.Marshal(nativeCase{in, cfg.Thorough, cfg.FrozenClock})
	os.WriteFile(cf, j, 0644)
	work := filepath.Join(d, "work")
	os.Mkdir(work, 0755)
	cmd := exec.Command(n.bin, h.File.Rel+":"+h.Name, cf, of)
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "HOME="+work, "TMPDIR="+work)
	cmd.Env = append(cmd.Env, env...)
	var ob bytes.Buffer
	cmd.Stdout = &ob
	cmd.Stderr = &ob
	if err := cmd.Start(); err != nil {
		return nativeResult{Outcome: "error", Msg: err.Error()}
	}
	ch := make(chan error, 1)
	go func() { ch <- cmd.Wait() }()
	var werr error
	select {
	case werr = <-ch:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-ch
		return nativeResult{Outcome: "hang", out: ob.String()}
	}
	var r nativeResult
	rj, err := os.ReadFile(of)
	if err != nil {
		txt := ob.String()
		if strings.Contains(txt, "panic:") || strings.Contains(txt, "fatal error:") {
			if strings.Contains(txt, "all goroutines are asleep") {
				return nativeResult{Outcome: "hang", out: txt}
			}
			return nativeResult{Outcome: "panic", Msg: firstLine(txt), out: txt}
		}
		return nativeResult{Outcome: "error", Msg: fmt.Sprint(werr, " ", firstLine(txt)), out: txt}
	}
	json.Unmarshal(rj, &r)
	r.out = ob.String()
	return r
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "panic:") || strings.Contains(l, "fatal error:") {
			return l
		}
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// confirm replays a violation against the compiled code
func (n *Native) confirm(h *Harness, cfg HarnessCfg, v *Violation) bool {
	tries := 1
	if v.SchedDep {
		tries = 150
	}
	to := 45 * time.Second
	if v.Kind == "deadlock" {
		to = 5 * time.Second
		if tries > 8 {
			tries = 8
		}
	}
	var mu sync.Mutex
	found := false
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	begin := time.Now()
	for i := 0; i < tries && time.Since(begin) < 150*time.Second; i++ {
		mu.Lock()
		f := found
		mu.Unlock()
		if f {
			break
		}
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			var env []string
			if v.SchedDep {
				env = append(env, fmt.Sprintf("GOMAXPROCS=%d", 1+i%4))
			}
			r := n.run(h, cfg, v.Inputs, to, env...)
			ok := false
			switch v.Kind {
			case "assert":
				ok = r.Outcome == "assert" || r.Outcome == "panic"
			case "panic":
				ok = r.Outcome == "panic"
			case "deadlock":
				ok = r.Outcome == "hang"
			}
			mu.Lock()
			defer mu.Unlock()
			v.Replayed = r.Outcome + " " + r.Msg
			if ok {
				found = true
			}
		}(i)
	}
	wg.Wait()
	return found
}

// validate compares sampled paths with native executions
func (n *Native) validate(h *Harness, cfg HarnessCfg, ss []pathSample) (ok int, bad []string) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := range ss {
		wg.Add(1)
		sem <- true
		go func(s *pathSample) {
			defer wg.Done()
			defer func() { <-sem }()
			r := n.run(h, cfg, s.inputs, 20*time.Second)
			mu.Lock()
			defer mu.Unlock()
			if r.Outcome != "ok" {
				bad = append(bad, fmt.Sprintf("%s: native %s %s for %s", h.Name, r.Outcome, r.Msg, showInputs(s.inputs)))
				return
			}
			if len(r.Obs) != len(s.obs) {
				bad = append(bad, fmt.Sprintf("%s: %d observations, native %d for %s", h.Name, len(s.obs), len(r.Obs), showInputs(s.inputs)))
				return
			}
			for k := range r.Obs {
				if r.Obs[k].Label != s.obs[k].Label || (r.Obs[k].Val != s.obs[k].Val && s.obs[k].Val != "*") {
					bad = append(bad, fmt.Sprintf("%s: %s=%q, native %s=%q for %s", h.Name, s.obs[k].Label, s.obs[k].Val, r.Obs[k].Label, r.Obs[k].Val, showInputs(s.inputs)))
					return
				}
			}
			ok++
		}(&ss[i])
	}
	wg.Wait()
	return ok, bad
}

func showInputs(in []ReplayInput) string {
	var r []string
	for _, i := range in {
		switch i.Kind {
		case "bool":
			r = append(r, fmt.Sprintf("%s=%v", i.Name, i.Bool))
		case "string", "pick":
			r = append(r, fmt.Sprintf("%s=%q", i.Name, i.Str))
		default:
			r = append(r, fmt.Sprintf("%s=%d", i.Name, i.Int))
		}
	}
	return strings.Join(r, " ")
}
