package execution

import (
	"context"
	"encoding/json"
	"errors"
	"io"
	"strings"
	"syscall"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/submission"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:clock .
//verif:exec .
//verif:fs . internal/util

type verifSent struct {
	subject string
	payload string
}

// verifSubmitter keeps what was submitted, output submissions can fail
type verifSubmitter struct {
	sent   []verifSent
	failed int
	fail   func(subject string) bool
}

func (s *verifSubmitter) NewMessage() *submission.Message { return &submission.Message{} }
func (s *verifSubmitter) Submit(m *submission.Message) error {
	if s.fail != nil && s.fail(m.Subject) {
		s.failed++
		return errors.New("simulated")
	}
	s.sent = append(s.sent, verifSent{m.Subject, string(m.Payload)})
	return nil
}

func (s *verifSubmitter) of(suffix string) (all string, n int) {
	for _, m := range s.sent {
		if strings.HasSuffix(m.subject, suffix) {
			all += m.payload
			n++
		}
	}
	return all, n
}

func verifLog() *logrus.Entry {
	l := logrus.New()
	l.Out = io.Discard
	return logrus.NewEntry(l)
}

func verifSame(a, b string) bool {
	return strings.TrimSuffix(a, "\n") == strings.TrimSuffix(b, "\n")
}

func verifJob(id string) *Process {
	p, err := New("choria=bob", "shell", "run", "req1", "n1.example.net", id, "/bin/job", []string{"x"}, nil)
	if err != nil {
		panic(err)
	}
	return p
}

// VerifJobOutput runs a job whose output is published
//
//verif:harness prop=X03 reach=out,err,both,exit0,exit3,slow delays=0 timers=20 clock=frozen
//verif:bounds up to 3 pieces of output, whole and unfinished lines on either stream, made at once or 1.5 seconds apart, exit codes 0 to 255, output files that cannot be written to after the first write; one goroutine order per timing
func VerifJobOutput() {
	nd.FSReset()
	nd.FSDir("/spool")
	pieces := []string{"one\n", "tw", "o\n\nthree\n"}
	var want [2]string
	var steps []nd.ExecStep
	n := nd.Choice("pieces", 4)
	for i := 0; i < n; i++ {
		st := nd.ExecStep{Err: nd.Bool("stderr"), Data: pieces[nd.Choice("piece", len(pieces))]}
		if nd.Bool("pause") {
			nd.Reach("slow")
			st.After = 1500 * time.Millisecond
		}
		if st.Err {
			nd.Reach("err")
			want[1] += st.Data
		} else {
			nd.Reach("out")
			want[0] += st.Data
		}
		steps = append(steps, st)
	}
	code := []int{0, 3, 255}[nd.Choice("code", 3)]
	nd.Exec(func(c *nd.Cmd) nd.ExecResult {
		return nd.ExecResult{Steps: steps, Took: time.Second, Code: code}
	})

	p := verifJob("j1")
	_, err := p.CreateSpool("/spool")
	nd.Assert(err == nil, "the spool is created")
	sub := &verifSubmitter{}
	err = p.StartSupervised(context.Background(), "/spool", sub, 0, true, verifLog())
	nd.Assert(err == nil, "the job was started")

	out, _ := sub.of(".out.stdout")
	serr, _ := sub.of(".out.stderr")
	nd.Observe("out", out)
	nd.Observe("err", serr)
	nd.Assert(verifSame(out, want[0]), "what the job wrote to stdout is published completely, in order, as stdout")
	nd.Assert(verifSame(serr, want[1]), "what the job wrote to stderr is published completely, in order, as stderr")
	if out != "" && serr != "" {
		nd.Reach("both")
	}

	exit, exits := sub.of(".exit")
	var ec ExitCode
	nd.Assert(exits == 1 && json.Unmarshal([]byte(exit), &ec) == nil, "how the job ended is published once")
	nd.Assert(ec.Code == code && ec.Error == "", "the exit code of the job is published")
	nd.Assert(strings.HasSuffix(sub.sent[len(sub.sent)-1].subject, ".exit"), "the exit is published after all output")
	if code == 0 {
		nd.Reach("exit0")
	} else if code == 3 {
		nd.Reach("exit3")
	}

	lp, err := Load("/spool", "j1")
	nd.Assert(err == nil, "the job can be loaded")
	if err != nil {
		return
	}
	rc, err := lp.ParseExitCode()
	nd.Assert(err == nil && rc == code, "the exit code is stored")
	so, _ := lp.Stdout()
	se, _ := lp.Stderr()
	nd.Assert(string(so) == want[0] && string(se) == want[1], "the output is stored")
	nd.Assert(!lp.TerminateTime.IsZero() && !lp.IsRunning(), "the job is known to have ended")
}

// VerifJobOutputOrder is a job with two lines of output in other orders of what runs
//
//verif:harness prop=X03 reach=two,one delays=2 t.delays=3 timers=20 clock=frozen
//verif:bounds two lines on the same or both streams at once; the orders of goroutines that differ in 2 (thorough: 3) places from the default
func VerifJobOutputOrder() {
	nd.FSReset()
	nd.FSDir("/spool")
	steps := []nd.ExecStep{{Data: "one\n"}, {Data: "two\n", Err: nd.Bool("stderr")}}
	want := [2]string{"one\n", "two\n"}
	if steps[1].Err {
		nd.Reach("two")
	} else {
		nd.Reach("one")
		want = [2]string{"one\ntwo\n", ""}
	}
	nd.Exec(func(c *nd.Cmd) nd.ExecResult { return nd.ExecResult{Steps: steps} })
	p := verifJob("j1")
	_, err := p.CreateSpool("/spool")
	sub := &verifSubmitter{}
	err = p.StartSupervised(context.Background(), "/spool", sub, 0, true, verifLog())
	nd.Assert(err == nil, "the job was started")
	out, _ := sub.of(".out.stdout")
	serr, _ := sub.of(".out.stderr")
	nd.Assert(verifSame(out, want[0]) && verifSame(serr, want[1]), "all output is published, as output of its stream")
	nd.Assert(len(sub.sent) > 0 && strings.HasSuffix(sub.sent[len(sub.sent)-1].subject, ".exit"), "the exit is published after all output")
	so, _ := p.Stdout()
	se, _ := p.Stderr()
	nd.Assert(string(so) == want[0] && string(se) == want[1], "the output is stored")
}

// VerifJobOutputFaults has failures to publish and to save output
//
//verif:harness prop=X03 reach=lost,kept,disk delays=0 timers=20 clock=frozen
//verif:bounds 3 lines on either stream, 1.5 seconds apart or at once; one output submission that fails; the files for output cannot be written to after some write
func VerifJobOutputFaults() {
	nd.FSReset()
	nd.FSDir("/spool")
	var want [2]string
	var steps []nd.ExecStep
	for i := 0; i < 3; i++ {
		st := nd.ExecStep{Err: nd.Bool("stderr"), Data: []string{"one\n", "two\n", "three\n"}[i]}
		if nd.Bool("pause") {
			st.After = 1500 * time.Millisecond
		}
		if st.Err {
			want[1] += st.Data
		} else {
			want[0] += st.Data
		}
		steps = append(steps, st)
	}
	failing := nd.Choice("failing", 4)
	nth := 0
	last := false
	sub := &verifSubmitter{fail: func(subject string) bool {
		if !strings.Contains(subject, ".out.") {
			return false
		}
		nth++
		last = nth == failing
		return nth == failing
	}}
	if nd.Bool("disk") {
		nd.Reach("disk")
		nd.FSFaults(func(op, path string) error {
			if op == "write" && (strings.HasSuffix(path, "/stdout") || strings.HasSuffix(path, "/stderr")) {
				sub.failed++
				return syscall.ENOSPC
			}
			return nil
		})
	}
	nd.Exec(func(c *nd.Cmd) nd.ExecResult { return nd.ExecResult{Steps: steps, Took: time.Second} })
	p := verifJob("j1")
	_, err := p.CreateSpool("/spool")
	err = p.StartSupervised(context.Background(), "/spool", sub, 0, true, verifLog())
	nd.Assert(err == nil, "the job was started")
	out, _ := sub.of(".out.stdout")
	serr, _ := sub.of(".out.stderr")
	nd.Assert(strings.HasPrefix(want[0], out) && strings.HasPrefix(want[1], serr), "output is published in order, as output of its stream, when a submission failed")
	if out == want[0] && serr == want[1] {
		if sub.failed > 0 {
			nd.Reach("kept")
		}
	} else {
		nd.Reach("lost")
		nd.Assert(last || sub.failed > 0, "no output is lost without a failure")
	}
	_, exits := sub.of(".exit")
	nd.Assert(exits == 1, "how the job ended is published")
}

// VerifJobStopped stops jobs and jobs that cannot be started
//
//verif:harness prop=X03 reach=killed,nostart,again,done preempt=0 delays=1 timers=20 clock=frozen
//verif:bounds a job that runs until it is stopped after 2.5 seconds or ends after 1.5 with heartbeats every second, with and without published output, a command that cannot be started and a pid file that cannot be written; the orders of goroutines that differ in one place from the default
func VerifJobStopped() {
	nd.FSReset()
	nd.FSDir("/spool")
	mode := nd.OneOf("mode", "killed", "done", "nostart", "nopid")
	publish := nd.Choice("publish", 2) == 1
	nd.Exec(func(c *nd.Cmd) nd.ExecResult {
		switch mode {
		case "nostart":
			return nd.ExecResult{Fail: syscall.ENOENT}
		case "done":
			return nd.ExecResult{Took: 1500 * time.Millisecond, Steps: []nd.ExecStep{{Data: "said\n"}}}
		}
		return nd.ExecResult{Stall: true, Steps: []nd.ExecStep{{Data: "said\n"}}}
	})
	nd.Signals(func(pid int, s syscall.Signal) error { return nil })
	if mode == "nopid" {
		nd.FSFaults(func(op, path string) error {
			if strings.HasSuffix(path, "/pid") {
				return syscall.ENOSPC
			}
			return nil
		})
	}
	p := verifJob("j1")
	_, err := p.CreateSpool("/spool")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if mode == "killed" {
		go func() {
			time.Sleep(2500 * time.Millisecond)
			cancel()
		}()
	}
	sub := &verifSubmitter{}
	err = p.StartSupervised(ctx, "/spool", sub, time.Second, publish, verifLog())
	exit, exits := sub.of(".exit")
	switch mode {
	case "nostart", "nopid":
		nd.Reach("nostart")
		nd.Assert(err != nil && exits == 0, "a job that was not started has not ended")
		return
	}
	nd.Assert(err == nil && exits == 1, "the job was started and ended")
	var ec ExitCode
	nd.Assert(json.Unmarshal([]byte(exit), &ec) == nil, "how the job ended can be parsed")
	lp, err := Load("/spool", "j1")
	nd.Assert(err == nil && !lp.TerminateTime.IsZero() && !lp.IsRunning(), "the job is known to have ended")
	if err != nil {
		return
	}
	rc, err := lp.ParseExitCode()
	beats, nbeats := sub.of(".hb")
	if mode == "killed" {
		nd.Reach("killed")
		nd.Assert(ec.Code == -1 && ec.Error != "", "that the job was killed is published")
		nd.Assert(rc == -1 && errors.Is(err, ErrProcessFailed), "that the job was killed is stored")
		nd.Assert(nbeats == 2 && beats == "truetrue", "heartbeats are published while the job runs")
	} else {
		nd.Reach("done")
		nd.Assert(ec.Code == 0 && ec.Error == "" && rc == 0 && err == nil, "that the job succeeded is published and stored")
		nd.Assert(nbeats == 1 && beats == "true", "heartbeats are published while the job runs")
	}
	so, _ := lp.Stdout()
	nd.Assert(string(so) == "said\n", "the output is stored")
	out, _ := sub.of(".out.stdout")
	nd.Assert(out == "said\n" || out == "" && !publish, "the output is published")
	err = lp.StartSupervised(ctx, "/spool", sub, time.Second, publish, verifLog())
	nd.Assert(errors.Is(err, ErrAlreadyStarted), "a job is started once")
	_, err = verifJob("j1").CreateSpool("/spool")
	nd.Assert(errors.Is(err, ErrDuplicateJob), "a job is not replaced by another with its id")
	nd.Reach("again")
}
