package http

import (
	"context"
	"encoding/json"
	"io"
	"net/http"
	"strings"

	"github.com/choria-io/go-choria/aagent/model"
	"github.com/choria-io/go-choria/aagent/watchers/httpswitchwatcher"
	"github.com/sirupsen/logrus"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

type verifSwitch struct {
	model.HttpSwitchWatcher
	name    string
	on      bool
	refuse  bool
	pressed int
}

func (s *verifSwitch) Name() string { return s.name }
func (s *verifSwitch) CurrentState() any {
	o := "off"
	if s.on {
		o = "on"
	}
	return &httpswitchwatcher.StateNotification{IsOn: s.on, PreviousOutcome: o}
}
func (s *verifSwitch) turn(on bool) (bool, error) {
	if s.refuse {
		return false, io.ErrClosedPipe
	}
	s.pressed++
	s.on = on
	return on, nil
}
func (s *verifSwitch) TurnOn() (bool, error)  { return s.turn(true) }
func (s *verifSwitch) TurnOff() (bool, error) { return s.turn(false) }

type verifWriter struct {
	header http.Header
	code   int
	body   string
}

func (w *verifWriter) Header() http.Header { return w.header }
func (w *verifWriter) WriteHeader(c int)   { w.code = c }
func (w *verifWriter) Write(b []byte) (int, error) {
	w.body += string(b)
	return len(b), nil
}

func verifAsk(h http.HandlerFunc, method, machine, watcher, body string) *verifWriter {
	r := (&http.Request{Method: method, Body: io.NopCloser(strings.NewReader(body)), Header: http.Header{}}).WithContext(context.Background())
	r.SetPathValue("machine", machine)
	r.SetPathValue("watcher", watcher)
	w := &verifWriter{header: http.Header{}, code: 200}
	h(w, r)
	return w
}

func verifServer() *HTTPServer {
	l := logrus.New()
	l.SetOutput(io.Discard)
	s, err := NewHTTPServer(logrus.NewEntry(l))
	nd.Assert(err == nil, "a server could not be made")
	return s
}

//verif:harness prop=W14 reach=get,post,unknown,refused,method samples=8 seconds=60
//verif:bounds requests with any of three methods, for known, unknown and missing machines and switches, to turn them on or off or with an invalid body, to switches that are on or off and accept or refuse to be pressed, in the two formats
func VerifHTTP() {
	s := verifServer()
	sws := map[string]*verifSwitch{}
	for _, m := range []string{"a", "b"} {
		for _, w := range []string{"x", "y"} {
			sw := &verifSwitch{name: w, on: nd.Bool(m + w + " on"), refuse: nd.Bool(m + w + " refuses")}
			sws[m+w] = sw
			s.AddSwitchWatcher(m, sw)
		}
	}
	was := map[string]bool{}
	for k, sw := range sws {
		was[k] = sw.on
	}
	m := []string{"a", "b", "c", ""}[nd.Choice("machine", 4)]
	w := []string{"x", "y", "z", ""}[nd.Choice("watcher", 4)]
	method := []string{"GET", "POST", "PUT"}[nd.Choice("method", 3)]
	ha := nd.Choice("home assistant", 2) == 1
	handler, handle := s.SwitchHandler, []string{`{"on":false}`, `{"on":true}`, `{"on":`}
	if ha {
		handler, handle = s.HASwitchHandler, []string{"OFF", "ON\n", "off"}
	}
	bi := nd.Choice("body", 3)
	got := verifAsk(handler, method, m, w, handle[bi])
	nd.Observe("code", got.code)
	if got.code == 200 {
		nd.Observe("body", got.body)
	}

	for k, sw := range sws {
		if k != m+w || method != "POST" {
			nd.Assert(sw.pressed == 0 && sw.on == was[k], "a switch was pressed that was not asked for")
		}
	}
	answer := func(on bool) {
		nd.Assert(got.code == 200, "a valid request is refused")
		if ha {
			nd.Assert((got.body == "ON") == on && (got.body == "OFF") == !on, "the wrong state is reported")
			return
		}
		res := struct {
			IsOn  bool `json:"is_on"`
			IsOff bool `json:"is_off"`
		}{}
		nd.Assert(json.Unmarshal([]byte(got.body), &res) == nil, "the reply is not valid JSON")
		nd.Assert(res.IsOn == on && (method == "POST" || res.IsOff == !on), "the wrong state is reported")
	}
	sw, ok := sws[m+w]
	switch {
	case method == "PUT":
		nd.Reach("method")
		nd.Assert(got.code == 404 && got.body == "", "another method is handled")
	case m == "" || w == "" || !ok:
		nd.Reach("unknown")
		nd.Assert(got.code >= 400 && got.body != "" && !strings.Contains(got.body, "null"), "a request for an unknown switch does not just fail")
	case method == "GET":
		nd.Reach("get")
		answer(was[m+w])
	case bi == 2 && !ha:
		nd.Assert(got.code >= 400 && sw.pressed == 0, "an invalid request presses a switch")
	case sw.refuse:
		nd.Reach("refused")
		nd.Assert(got.code >= 400 && got.body != "" && sw.pressed == 0, "a press that is refused does not fail")
	default:
		nd.Reach("post")
		nd.Assert(sw.pressed == 1 && sw.on == (bi == 1), "a switch was not pressed as asked for")
		answer(bi == 1)
	}
}

type verifMetric struct {
	model.MetricWatcher
	name string
	m    *verifValues
}

type verifValues struct {
	labels  map[string]string
	metrics map[string]float64
	time    int64
}

func (v *verifValues) GetLabels() map[string]string   { return v.labels }
func (v *verifValues) GetMetrics() map[string]float64 { return v.metrics }
func (v *verifValues) GetTime() int64                 { return v.time }
func (m *verifMetric) Name() string                   { return m.name }
func (m *verifMetric) LastMetric() model.HttpMetric   { return m.m }

//verif:harness prop=W14 reach=known,unknown,replaced samples=8 seconds=60
//verif:bounds one machine that is replaced by another that has the same switches and metrics or not, which are added before or after those of the first are removed, any of which is then asked for
func VerifReplaced() {
	s := verifServer()
	old, one := &verifSwitch{name: "w", on: true}, &verifSwitch{name: "w"}
	oldm, onem := &verifMetric{name: "w", m: &verifValues{time: 1}}, &verifMetric{name: "w", m: &verifValues{time: int64(nd.Int("time", 2, 9)), metrics: map[string]float64{"v": 2}, labels: map[string]string{"l": "v"}}}
	s.AddSwitchWatcher("m", old)
	s.AddMetricWatcher("m", oldm)
	has := nd.Choice("has it", 2) == 1
	early := nd.Choice("early", 2) == 1
	add := func() {
		if has {
			nd.Reach("replaced")
			s.AddSwitchWatcher("m", one)
			s.AddMetricWatcher("m", onem)
		}
	}
	if early {
		add()
	}
	s.RemoveSwitchWatcher("m", old)
	s.RemoveMetricWatcher("m", oldm)
	s.RemoveMetricWatcher("other", oldm)
	s.RemoveSwitchWatcher("other", old)
	if !early {
		add()
	}
	got := verifAsk(s.HASwitchHandler, "GET", "m", "w", "")
	met := verifAsk(s.MetricHandler, "GET", "m", "w", "")
	nd.Observe("metric", met.code)
	if !has {
		nd.Reach("unknown")
		nd.Assert(got.code >= 400 && met.code >= 400, "a switch or metric is reachable after its machine stopped")
		return
	}
	nd.Reach("known")
	nd.Assert(got.code == 200 && got.body == "OFF", "the switch of a machine is not reachable")
	nd.Assert(met.code == 200, "the metric of a machine is not reachable")
	res := MetricGetResponse{}
	nd.Assert(json.Unmarshal([]byte(met.body), &res) == nil, "the reply is not valid JSON")
	nd.Assert(res.Time == onem.m.time && len(res.Metrics) == 1 && res.Metrics["v"] == 2 && res.Labels["l"] == "v", "another metric is reported")
	for _, q := range []string{"POST", "DELETE"} {
		nd.Assert(verifAsk(s.MetricHandler, q, "m", "w", "").code == 404, "another method is handled")
	}
	nd.Assert(verifAsk(s.MetricHandler, "GET", "m", "", "").code == 400 && verifAsk(s.MetricHandler, "GET", "", "w", "").code == 400 && verifAsk(s.MetricHandler, "GET", "x", "w", "").code == 400, "an unknown metric is reported")
}
