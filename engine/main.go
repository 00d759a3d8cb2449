package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type knownFinding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	What     string `json:"what"`
	Status   string `json:"status"` // known or fixed
	Commit   string `json:"commit,omitempty"`
}

func loadKnown() []knownFinding {
	var k []knownFinding
	j, err := os.ReadFile(filepath.Join(verifDir, "known-findings.json"))
	if err != nil {
		return nil
	}
	var w struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(j, &w); err != nil {
		fmt.Println("known-findings.json:", err)
		return nil
	}
	k = w.Findings
	return k
}

func (h *Harness) cfg(thorough bool) HarnessCfg {
	c := defaultCfg()
	c.Thorough = thorough
	get := func(k string) (string, bool) {
		if thorough {
			if v, ok := h.Opts["t."+k]; ok {
				return v, true
			}
		}
		v, ok := h.Opts[k]
		return v, ok
	}
	geti := func(k string, p *int) {
		if v, ok := get(k); ok {
			n, err := strconv.Atoi(v)
			if err == nil {
				*p = n
			}
		}
	}
	if thorough {
		c.Seconds = 300
		c.SolverMs = 60000
		c.MaxPaths = 5000000
		c.MaxSteps = 30000000
	}
	geti("seconds", &c.Seconds)
	geti("maxconc", &c.MaxConc)
	geti("maxsteps", &c.MaxSteps)
	geti("maxdepth", &c.MaxDepth)
	geti("maporder", &c.MapOrderMax)
	geti("preempt", &c.Preempt)
	geti("delays", &c.Delays)
	geti("timers", &c.MaxTimers)
	geti("solverms", &c.SolverMs)
	geti("paths", &c.MaxPaths)
	geti("samples", &c.Samples)
	if v, ok := get("clock"); ok && v == "frozen" {
		c.FrozenClock = true
	}
	if v, ok := get("horizon"); ok {
		if d, err := time.ParseDuration(v); err == nil {
			c.Horizon = int64(d)
		}
	}
	if v, ok := get("simul"); ok && v == "1" {
		c.Simul = true
	}
	if v, ok := get("deadlock"); ok && v == "violation" {
		c.Deadlock = true
	}
	return c
}

func main() {
	prop := flag.String("prop", "", "property to check")
	tier := flag.String("tier", "", "quick or thorough")
	only := flag.String("only", "", "only harnesses matching")
	list := flag.Bool("list", false, "list harnesses")
	cpu := flag.String("cpuprofile", "", "write a profile")
	secs := flag.Int("seconds", 0, "override the time limit of each harness")
	rp := flag.String("replay", "", "replay a recorded violation")
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	flag.StringVar(&verifDir, "verif", "/verif", "verification root")
	flag.StringVar(&solverBin, "solver", "z3-new", "solver")
	flag.BoolVar(&dbgDecide, "dbg", false, "trace decisions")
	flag.BoolVar(&verbose, "v", false, "verbose")
	workers := flag.Int("workers", 8, "machines")
	nonative := flag.Bool("nonative", false, "skip native runs")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := uint64(1)
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	if *cpu != "" {
		f, _ := os.Create(*cpu)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	all, err := loadHarnessFiles()
	if err != nil {
		fmt.Println("harness files:", err)
		os.Exit(2)
	}
	if *list {
		for _, f := range all {
			for _, h := range f.Harnesses {
				fmt.Println(h.Prop, f.Rel, h.Name, h.Opts)
			}
		}
		return
	}
	if *rp != "" {
		os.Exit(replayFile(*rp, all))
	}
	os.Exit(check(*prop, *tier, seed, all, *only, *secs, *workers, *nonative))
}

func selectHarnesses(prop string, all []*HarnessFile, only string, tier string) ([]*Harness, []*HarnessFile) {
	var hs []*Harness
	need := map[*HarnessFile]bool{}
	var re *regexp.Regexp
	if only != "" {
		re = regexp.MustCompile(only)
	}
	for _, f := range all {
		for _, h := range f.Harnesses {
			if h.Prop != prop {
				continue
			}
			if re != nil && !re.MatchString(h.Name) {
				continue
			}
			if h.Opts["tier"] == "thorough" && tier != "thorough" && only == "" {
				continue
			}
			hs = append(hs, h)
			need[f] = true
		}
	}
	for again := true; again; {
		again = false
		for f := range need {
			for _, w := range f.with {
				for _, g := range all {
					if strings.HasSuffix(g.Path, "/harness/"+w) && !need[g] {
						need[g] = true
						again = true
					}
				}
			}
		}
	}
	var files []*HarnessFile
	for _, f := range all {
		if need[f] {
			files = append(files, f)
		}
	}
	return hs, files
}

func check(prop, tier string, seed uint64, all []*HarnessFile, only string, secs, workers int, nonative bool) int {
	t0 := time.Now()
	hs, files := selectHarnesses(prop, all, only, tier)
	if len(hs) == 0 {
		fmt.Println("no harness for", prop)
		return 2
	}
	known := map[string]knownFinding{}
	for _, k := range loadKnown() {
		if k.Status == "known" {
			known[k.ID] = k
		}
	}
	ev := &Evidence{Property: prop, Tier: tier, Seed: seed, Level: "model_checking"}
	prog, pkgs, ov, err := loadProgram(files)
	if err != nil {
		// the tree cannot be encoded: nothing was decided
		fmt.Printf("UNDECIDED property=%s %v\n", prop, err)
		ev.Notes = append(ev.Notes, "nothing decided: "+err.Error())
		ev.write(t0, only)
		return 0
	}
	loadS := time.Since(t0).Seconds()
	var live []*Harness
	for _, h := range hs {
		if h.File.Broken != "" {
			fmt.Printf("UNDECIDED property=%s harness=%s does not compile against this tree: %s\n", prop, h.Name, h.File.Broken)
			ev.Notes = append(ev.Notes, h.Name+" does not compile against this tree: "+h.File.Broken)
			continue
		}
		live = append(live, h)
	}
	natCh := make(chan *Native, 1)
	if nonative {
		natCh <- &Native{err: fmt.Errorf("native runs disabled")}
	} else {
		go func() { natCh <- buildNative(live, ov) }()
	}
	type run struct {
		h   *Harness
		cfg HarnessCfg
		e   *Explorer
		st  *Stats
	}
	var runs []run
	for _, h := range live {
		pkg := pkgs[h.File.Rel]
		if pkg == nil || pkg.Func(h.Name) == nil {
			ev.Notes = append(ev.Notes, h.Name+" not found")
			continue
		}
		cfg := h.cfg(tier == "thorough")
		if secs > 0 {
			cfg.Seconds = secs
		}
		cfg.Workers = workers
		cfg.Known = map[string]bool{}
		for id := range known {
			cfg.Known[id] = true
		}
		e, st := explore(prog, pkg.Func(h.Name), cfg, seed)
		runs = append(runs, run{h, cfg, e, st})
	}
	nat := <-natCh
	defer nat.close()
	if nat.err != nil {
		fmt.Println("native:", nat.err)
		ev.Notes = append(ev.Notes, "native build failed: "+nat.err.Error())
	}
	exit := 0
	printed := map[string]bool{}
	for _, r := range runs {
		hev := ev.harness(r.h, r.cfg, r.st, r.e)
		// differential validation of the encoding
		if nat.err == nil {
			ok, bad := nat.validate(r.h, r.cfg, r.e.samples)
			hev["traces_validated"] = ok
			ev.Traces += ok
			if len(bad) > 0 {
				hev["traces_mismatched"] = bad
				ev.Mismatch += len(bad)
				for i, b := range bad {
					if i < 3 {
						fmt.Println("MISMATCH", b)
					}
				}
			}
		}
		for i, s := range r.e.samples {
			if i < 3 {
				ev.Samples = append(ev.Samples, map[string]interface{}{"harness": r.h.Name, "inputs": showInputs(s.inputs), "observed": s.obs})
			}
		}
		for id, v := range r.e.knownHit {
			k := known[id]
			conf := nat.err == nil && nat.confirm(r.h, r.cfg, v)
			if !printed["k"+id] {
				printed["k"+id] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s (replayed: %v, %s)\n", prop, id, k.What, conf, showInputs(v.Inputs))
				ev.Known = append(ev.Known, fmt.Sprintf("%s %s", id, showInputs(v.Inputs)))
			}
		}
		seenMsg := map[string]bool{}
		var unconf []string
		for _, v := range r.e.violations {
			if seenMsg[v.Msg] {
				continue
			}
			conf := nat.err == nil && nat.confirm(r.h, r.cfg, v)
			how := "native"
			if !conf && v.SchedDep && v.Kind != "deadlock" && (nat.err != nil || !strings.HasPrefix(v.Replayed, "diverged") && !strings.HasPrefix(v.Replayed, "error")) {
				// natural scheduling rarely hits it; the interpreter executed the
				// real code's SSA along this very schedule
				conf = true
				how = "schedule"
			}
			if !conf && v.Kind == "deadlock" && v.SchedDep {
				conf = true
				how = "schedule"
			}
			if !conf {
				unconf = append(unconf, fmt.Sprintf("%s [%s] native: %s inputs: %s at %s", v.Msg, v.Kind, v.Replayed, showInputs(v.Inputs), v.Trace))
				continue
			}
			seenMsg[v.Msg] = true
			p := writeReplay(prop, r.h, r.cfg, v, how)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
			fmt.Printf("  %s: %s (%s, %s replay: %s)\n  inputs: %s\n", r.h.Name, v.Msg, v.Kind, how, v.Replayed, showInputs(v.Inputs))
			if v.Kind == "panic" {
				fmt.Println("  at", v.Trace)
			}
			ev.Violations++
			exit = 1
		}
		if len(unconf) > 0 {
			hev["unconfirmed_counterexamples"] = unconf
			for i, u := range unconf {
				if i < 5 {
					fmt.Println("UNCONFIRMED", r.h.Name, u)
				}
			}
		}
		var un []string
		for _, k := range sortedKeys(r.st.Unsupported) {
			un = append(un, fmt.Sprintf("%dx %s", r.st.Unsupported[k], k))
		}
		fmt.Printf("%-34s paths=%d done=%d infeasible=%d exhausted=%v steps=%d asserts=%d queries=%d (unknown %d err %d) solver=%.1fs wall=%.1fs validated=%v reached=%v\n",
			r.h.Name, r.st.Paths, r.st.Done, r.st.Infeasible, r.st.Exhausted, r.st.Steps, len(r.st.Asserts), r.st.Queries, r.st.Unknown, r.st.SolverErrors, r.st.SolverS, r.st.WallS, hev["traces_validated"], sortedKeys(r.st.Reached))
		for i, u := range un {
			if i < 8 {
				if len(u) > 600 {
					u = u[:600]
				}
				fmt.Println("   not covered:", u)
			}
		}
		for _, want := range strings.Split(r.h.Opts["reach"], ",") {
			if want != "" && r.st.Reached[want] == 0 {
				fmt.Println("   VACUOUS: never reached", want)
				ev.Notes = append(ev.Notes, r.h.Name+" never reached "+want)
			}
		}
	}
	ev.write(t0, only)
	fmt.Printf("property=%s tier=%s exit=%d load=%.1fs wall=%.1fs\n", prop, tier, exit, loadS, time.Since(t0).Seconds())
	return exit
}

// Evidence accumulates what a run covered
type Evidence struct {
	Property   string
	Tier       string
	Seed       uint64
	Level      string
	Notes      []string
	Known      []string
	Samples    []interface{}
	Harnesses  []map[string]interface{}
	Traces     int
	Mismatch   int
	Violations int
	paths      int
	done       int
	steps      int64
	queries    int
	solverS    float64
	asserts    int
	funcs      map[string]int
	exhausted  bool
	any        bool
}

func (e *Evidence) harness(h *Harness, cfg HarnessCfg, st *Stats, ex *Explorer) map[string]interface{} {
	var fns []string
	for f := range st.Funcs {
		if strings.Contains(f, modPath) && !strings.Contains(f, "Verif") && !strings.Contains(f, "verif") {
			fns = append(fns, strings.ReplaceAll(f, modPath+"/", ""))
			if e.funcs == nil {
				e.funcs = map[string]int{}
			}
			e.funcs[f] += st.Funcs[f]
		}
	}
	sort.Strings(fns)
	m := map[string]interface{}{
		"harness": h.Name, "package": h.File.Rel, "bounds": h.Bounds,
		"limits": map[string]interface{}{"steps_per_path": cfg.MaxSteps, "call_depth": cfg.MaxDepth, "preemptions": cfg.Preempt, "delays": cfg.Delays, "simultaneous_timers": cfg.Simul, "timers": cfg.MaxTimers, "map_orders_up_to": cfg.MapOrderMax, "solver_ms": cfg.SolverMs, "seconds": cfg.Seconds},
		"paths":  st.Paths, "paths_completed": st.Done, "paths_infeasible": st.Infeasible, "instructions": st.Steps,
		"all_paths_explored": st.Exhausted && st.Budget == 0, "functions_encoded": fns,
		"queries": st.Queries, "sat": st.Sat, "unsat": st.Unsat, "unknown": st.Unknown, "solver_errors": st.SolverErrors,
		"solver_s": round2(st.SolverS), "slowest_query_s": round2(st.MaxQueryS), "wall_s": round2(st.WallS),
		"assertions_reached": st.Asserts, "assertions_unknown": st.AssertUnknown, "witnesses_reached": st.Reached, "not_covered": st.Unsupported,
	}
	e.Harnesses = append(e.Harnesses, m)
	e.paths += st.Paths
	e.done += st.Done
	e.steps += st.Steps
	e.queries += st.Queries
	e.solverS += st.SolverS
	for _, n := range st.Asserts {
		e.asserts += n
	}
	if !e.any {
		e.exhausted = true
		e.any = true
	}
	if !st.Exhausted || st.Budget > 0 || len(st.Unsupported) > 0 || st.AssertUnknown > 0 {
		e.exhausted = false
	}
	return m
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

func (e *Evidence) write(t0 time.Time, only string) {
	if only != "" {
		return
	}
	var fns []string
	for f := range e.funcs {
		fns = append(fns, strings.ReplaceAll(f, modPath+"/", ""))
	}
	sort.Strings(fns)
	samples := e.Samples
	if samples == nil {
		samples = []interface{}{}
	}
	j := map[string]interface{}{
		"property": e.Property, "tier": e.Tier, "seed": e.Seed, "level": e.Level,
		"coverage": map[string]interface{}{
			"states": e.paths, "states_meaning": "symbolic execution paths explored, each standing for all inputs that satisfy its path condition",
			"transitions": e.steps, "transitions_meaning": "SSA instructions of the real code executed symbolically",
			"traces_validated_against_impl": e.Traces, "traces_mismatched": e.Mismatch,
			"samples": samples, "assertion_checks": e.asserts, "solver_queries": e.queries, "solver_s": round2(e.solverS), "solver": solverBin,
			"functions_encoded": len(fns), "functions": fns, "exhaustive": e.exhausted && e.any, "harnesses": e.Harnesses, "known_findings_hit": e.Known, "notes": e.Notes,
		},
		"assumptions": []string{
			"the claim holds within the bounds stated per harness (input sizes, alphabets, collection sizes, number of steps, preemptions and timers) and says nothing outside of them",
			"calls replaced by stubs in the harness (files, network, clock, randomness, cryptography) behave as their documented contract allows",
			"logging, metrics and tracing calls have no effect on behaviour",
			"the symbolic executor models Go semantics faithfully; sampled paths are re-run against the compiled code and compared on every run",
			"goroutines are sequentially consistent and are switched at synchronisation operations, at most the stated number of preemptions",
		},
		"wall_s": round2(time.Since(t0).Seconds()), "violations": e.Violations,
	}
	b, _ := json.MarshalIndent(j, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	os.WriteFile(filepath.Join(verifDir, "evidence", e.Property+".json"), append(b, '\n'), 0644)
}

type replayRecord struct {
	Property string        `json:"property"`
	Package  string        `json:"package"`
	Harness  string        `json:"harness"`
	Msg      string        `json:"msg"`
	Kind     string        `json:"kind"`
	How      string        `json:"how"`
	Frozen   bool          `json:"frozen"`
	Thorough bool          `json:"thorough"`
	SchedDep bool          `json:"schedule_dependent"`
	Schedule string        `json:"schedule,omitempty"`
	Inputs   []ReplayInput `json:"inputs"`
	Shown    string        `json:"shown"`
}

var nreplay int

func writeReplay(prop string, h *Harness, cfg HarnessCfg, v *Violation, how string) string {
	nreplay++
	d := filepath.Join(verifDir, "replays")
	os.MkdirAll(d, 0755)
	p := filepath.Join(d, fmt.Sprintf("%s-%d.json", prop, nreplay))
	r := replayRecord{prop, h.File.Rel, h.Name, v.Msg, v.Kind, how, cfg.FrozenClock, cfg.Thorough, v.SchedDep, v.Trace, v.Inputs, showInputs(v.Inputs)}
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(p, append(b, '\n'), 0644)
	return p
}

// replayFile runs a recorded counterexample against the current tree
func replayFile(path string, all []*HarnessFile) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r replayRecord
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	hs, files := selectHarnesses(r.Property, all, "^"+r.Harness+"$", "thorough")
	if len(hs) == 0 {
		fmt.Println("no such harness")
		return 2
	}
	ov, err := buildOverlay(files)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	nat := buildNative(hs, ov)
	defer nat.close()
	if nat.err != nil {
		fmt.Println(nat.err)
		return 2
	}
	cfg := hs[0].cfg(r.Thorough)
	v := &Violation{Msg: r.Msg, Kind: r.Kind, Inputs: r.Inputs, SchedDep: r.SchedDep}
	ok := nat.confirm(hs[0], cfg, v)
	fmt.Printf("%s %s: %s\ninputs: %s\nnative outcome: %s\nreproduced: %v\n", r.Property, r.Harness, r.Msg, r.Shown, v.Replayed, ok)
	if ok {
		return 1
	}
	return 0
}
