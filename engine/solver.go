package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Result of a query
type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Solver drives one SMT solver process over SMT-LIB2 text
type Solver struct {
	bin       string
	args      []string
	cmd       *exec.Cmd
	in        *bufio.Writer
	inPipe    io.WriteCloser
	out       *bufio.Reader
	gen       int
	defs      int
	depth     int
	timeoutMs int
	names     map[string]bool

	Queries  int
	Time     time.Duration
	Unknowns int
	Errors   int
	Restarts int
	MaxQuery time.Duration
	NSat     int
	NUnsat   int

	asserted []*Term
	levels   []int
}

var solverGen int

func NewSolver(bin string, timeoutMs int, gen int) *Solver {
	s := &Solver{bin: bin, timeoutMs: timeoutMs, gen: gen}
	s.start()
	return s
}

func (s *Solver) start() {
	s.gen += 1000
	s.defs = 0
	s.names = map[string]bool{}
	if strings.Contains(s.bin, "cvc5") {
		s.cmd = exec.Command(s.bin, "--incremental", "--produce-models", "--lang=smt2", "--tlimit-per="+strconv.Itoa(s.timeoutMs))
	} else {
		s.cmd = exec.Command(s.bin, "-in", "-smt2")
	}
	var err error
	s.inPipe, err = s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	var w io.Writer = s.inPipe
	if f := os.Getenv("GOSYM_SMTLOG"); f != "" {
		lf, _ := os.OpenFile(f, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
		w = io.MultiWriter(s.inPipe, lf)
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.send("(set-option :global-declarations true)\n")
	if !strings.Contains(s.bin, "cvc5") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeoutMs)
		s.send("(set-option :model.completion true)\n")
	} else {
		s.send("(set-logic ALL)\n")
	}
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(t string) { s.in.WriteString(t) }

func (s *Solver) ref(t *Term) string {
	if t.op == OpConst {
		return constSMT(t.val, t.w)
	}
	if t.op == OpVar {
		if t.emitted != s.gen {
			fmt.Fprintf(s.in, "(declare-const |%s| %s)\n", t.name, sortName(t.w))
			t.emitted = s.gen
			s.defs++
		}
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(t.id)
}

func (s *Solver) define(t *Term) {
	if t.op == OpConst || t.emitted == s.gen {
		return
	}
	// iterative post order
	type fr struct {
		t *Term
		d bool
	}
	st := []fr{{t, false}}
	for len(st) > 0 {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		if f.t.op == OpConst || f.t.emitted == s.gen {
			continue
		}
		if f.t.op == OpVar {
			s.ref(f.t)
			continue
		}
		if !f.d {
			st = append(st, fr{f.t, true})
			for _, x := range []*Term{f.t.a, f.t.b, f.t.c} {
				if x != nil && x.op != OpConst && x.emitted != s.gen {
					st = append(st, fr{x, false})
				}
			}
			continue
		}
		body := f.t.render(s.ref)
		fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", f.t.id, sortName(f.t.w), body)
		f.t.emitted = s.gen
		s.defs++
	}
}

// Reset drops all assertions, restarting the process when it has grown
func (s *Solver) Reset() {
	if s.defs > 60000 {
		s.restart()
	} else if s.depth > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", s.depth)
	}
	s.depth = 0
	s.asserted = s.asserted[:0]
	s.levels = s.levels[:0]
	s.Push()
}

func (s *Solver) restart() {
	s.Close()
	s.Restarts++
	s.start()
}

func (s *Solver) Push() {
	s.send("(push 1)\n")
	s.depth++
	s.levels = append(s.levels, len(s.asserted))
}

func (s *Solver) Pop() {
	s.send("(pop 1)\n")
	s.depth--
	n := s.levels[len(s.levels)-1]
	s.levels = s.levels[:len(s.levels)-1]
	s.asserted = s.asserted[:n]
}

func (s *Solver) Assert(t *Term) {
	s.define(t)
	s.asserted = append(s.asserted, t)
	fmt.Fprintf(s.in, "(assert %s)\n", s.ref(t))
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check runs check-sat
func (s *Solver) Check() Result {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxQuery {
			s.MaxQuery = d
		}
	}()
	s.Queries++
	s.send("(check-sat)\n")
	s.in.Flush()
	timer := time.AfterFunc(time.Duration(s.timeoutMs)*time.Millisecond*3+5*time.Second, func() {
		s.cmd.Process.Kill()
	})
	defer timer.Stop()
	sawErr := false
	for {
		l, err := s.readLine()
		if err != nil {
			// solver died, rebuild the assertion stack
			s.Unknowns++
			s.recover()
			return Unknown
		}
		switch l {
		case "sat":
			if sawErr {
				s.Unknowns++
				return Unknown
			}
			s.NSat++
			return Sat
		case "unsat":
			if sawErr {
				s.Unknowns++
				return Unknown
			}
			s.NUnsat++
			return Unsat
		case "unknown", "timeout":
			s.Unknowns++
			return Unknown
		case "":
		default:
			if strings.HasPrefix(l, "(error") {
				s.Errors++
				sawErr = true
				if verbose {
					fmt.Println("SOLVER", l)
				}
			}
		}
	}
}

func (s *Solver) recover() {
	as := append([]*Term{}, s.asserted...)
	lv := append([]int{}, s.levels...)
	d := s.depth
	s.Close()
	s.Restarts++
	s.start()
	s.asserted = nil
	s.levels = nil
	s.depth = 0
	j := 0
	for i := 0; i < d; i++ {
		for j < lv[i] {
			s.Assert(as[j])
			j++
		}
		s.Push()
	}
	for j < len(as) {
		s.Assert(as[j])
		j++
	}
}

// Values reads the model for the given variables
func (s *Solver) Values(vars []*Term) (Model, error) {
	m := Model{}
	const batch = 200
	for i := 0; i < len(vars); i += batch {
		e := i + batch
		if e > len(vars) {
			e = len(vars)
		}
		var names []string
		for _, v := range vars[i:e] {
			if v.emitted == s.gen {
				names = append(names, "|"+v.name+"|")
			}
		}
		if len(names) == 0 {
			continue
		}
		s.send("(get-value (" + strings.Join(names, " ") + "))\n")
		s.in.Flush()
		txt, err := s.readSexp()
		if err != nil {
			return nil, err
		}
		if strings.HasPrefix(txt, "(error") {
			return nil, fmt.Errorf("%s", txt)
		}
		parseValues(txt, m)
	}
	return m, nil
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	inBar := false
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if !started && (b == '\n' || b == ' ' || b == '\r') {
			continue
		}
		started = true
		sb.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if !inBar {
			if b == '(' {
				depth++
			}
			if b == ')' {
				depth--
				if depth == 0 {
					return sb.String(), nil
				}
			}
		}
	}
}

func parseValues(txt string, m Model) {
	i := 0
	for i < len(txt) {
		j := strings.IndexByte(txt[i:], '|')
		if j < 0 {
			// z3 may print simple names unquoted
			break
		}
		i += j + 1
		k := strings.IndexByte(txt[i:], '|')
		name := txt[i : i+k]
		i += k + 1
		for txt[i] == ' ' || txt[i] == '\n' {
			i++
		}
		st := i
		for txt[i] != ')' {
			i++
		}
		m[name] = parseConst(strings.TrimSpace(txt[st:i]))
	}
}

func parseConst(v string) uint64 {
	switch {
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "#x"):
		r, _ := strconv.ParseUint(v[2:], 16, 64)
		return r
	case strings.HasPrefix(v, "#b"):
		r, _ := strconv.ParseUint(v[2:], 2, 64)
		return r
	case strings.HasPrefix(v, "(_ bv"):
		f := strings.Fields(v[5:])
		r, _ := strconv.ParseUint(f[0], 10, 64)
		return r
	}
	return 0
}
