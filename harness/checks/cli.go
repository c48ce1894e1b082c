package checks

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"
	"k8s.io/cli-runtime/pkg/genericclioptions"
	"k8s.io/client-go/rest"

	"sigs.k8s.io/instrumentation-tools/cmd/cli"
	"sigs.k8s.io/instrumentation-tools/cmd/metrics"

	"verif/harness/h"
)

// ---- scrape targets on the loopback network

var quietLog = log.New(io.Discard, "", 0)

type fault int

const (
	noFault fault = iota
	badStatus
	refused
	cutBody
	malformed
	closedEarly
	nFaults
)

func (f fault) String() string {
	return [...]string{"healthy", "bad status", "refuses connections", "body cut short", "malformed exposition", "connection closed without an answer"}[f]
}

// tseries is a series a target exposes.
type tseries struct {
	labels map[string]string // incl. __name__, without the target's own labels
	vals   [2]float64        // per scrape
	age    time.Duration     // explicit timestamp, this long ago; <0: none
	future bool
}

type target struct {
	mu     sync.Mutex
	path   string
	url    string
	query  string // must be in what's asked for
	series []tseries
	fault  fault
	from   int // the fault is there from this scrape on (0, 1)
	status int
	gzip   bool
	redir  bool
	pieces bool // the answer comes in pieces
	hits   int
	last   time.Time // when the last answer was done
	urls   []string  // the URLs asked for
	base   time.Time
}

// render writes the exposition of scrape n.
func (t *target) render(r *rand.Rand, n int) string {
	var sb strings.Builder
	sb.WriteString("# HELP m text\n")
	for _, s := range t.series {
		sb.WriteString(s.labels[labels.MetricName])
		var ks []string
		for k := range s.labels {
			if k != labels.MetricName {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		if len(ks) > 0 {
			sb.WriteString("{")
			for i, k := range ks {
				if i > 0 {
					sb.WriteString(",")
				}
				fmt.Fprintf(&sb, "%s=\"%s\"", k, escLV(s.labels[k]))
			}
			sb.WriteString("}")
		}
		sb.WriteString(" " + strconv.FormatFloat(s.vals[n], 'g', -1, 64))
		if s.age >= 0 {
			ts := t.base.Add(-s.age)
			if s.future {
				ts = t.base.Add(s.age)
			}
			fmt.Fprintf(&sb, " %d", ts.UnixMilli())
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

func (t *target) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.redir && !strings.HasSuffix(req.URL.Path, "/moved") {
		to := strings.TrimSuffix(t.path, "/") + "/moved"
		if req.URL.RawQuery != "" {
			to += "?" + req.URL.RawQuery
		}
		http.Redirect(w, req, to, http.StatusFound)
		return
	}
	if t.query != "" && t.query != req.URL.RawQuery {
		http.NotFound(w, req)
		return
	}
	n := t.hits
	t.hits++
	defer func() { t.last = time.Now() }()
	t.urls = append(t.urls, req.Method+" "+req.URL.String())
	if n > 1 {
		n = 1
	}
	text := t.render(nil, n)
	f := t.fault
	if n < t.from {
		f = noFault
	}
	switch f {
	case badStatus:
		w.WriteHeader(t.status)
		if t.status != 204 && t.status != 304 {
			w.Write([]byte(text))
		}
		return
	case cutBody:
		w.Header().Set("Content-Length", strconv.Itoa(len(text)+10))
		w.Write([]byte(text))
		return
	case closedEarly:
		if hj, ok := w.(http.Hijacker); ok {
			if c, _, err := hj.Hijack(); err == nil {
				c.Close()
			}
		}
		return
	case malformed:
		text += "not{a metric\n"
	}
	if t.gzip && strings.Contains(req.Header.Get("Accept-Encoding"), "gzip") {
		w.Header().Set("Content-Encoding", "gzip")
		z := gzip.NewWriter(w)
		z.Write([]byte(text))
		z.Close()
		return
	}
	if fl, ok := w.(http.Flusher); ok && t.pieces {
		for k, b := 1+len(text)/5, []byte(text); len(b) > 0; {
			if k > len(b) {
				k = len(b)
			}
			w.Write(b[:k])
			fl.Flush()
			time.Sleep(200 * time.Microsecond)
			b = b[k:]
		}
		return
	}
	w.Write([]byte(text))
}

// targetServer serves the targets of one case at a time.
type targetServer struct {
	srv *httptest.Server
	mu  sync.Mutex
	by  map[string]*target
}

func targetKey(path string) string {
	return strings.TrimSuffix(strings.ReplaceAll(path, "%20", " "), "/")
}

func newTargetServer() *targetServer {
	ts := &targetServer{by: map[string]*target{}}
	ts.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		ts.mu.Lock()
		t := ts.by[targetKey(strings.TrimSuffix(req.URL.Path, "/moved"))]
		ts.mu.Unlock()
		if t == nil {
			http.NotFound(w, req)
			return
		}
		t.ServeHTTP(w, req)
	}))
	ts.srv.Config.ErrorLog = quietLog
	return ts
}

func closedPort() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().String()
}

var cliNames = []string{"up", "http_requests_total", "a:b", "_x", "go_gc_seconds", "m1", "m"}
var cliLabels = []string{"l", "code", "le", "instance", "_a", "job", "x9", "Zone"}

func genTargetSeries(r *rand.Rand, ages bool) []tseries {
	var out []tseries
	seen := map[string]bool{}
	for n := r.Intn(6); n >= 0; n-- {
		s := tseries{labels: map[string]string{labels.MetricName: pick(r, cliNames)}, age: -1}
		for k := r.Intn(4); k > 0; k-- {
			s.labels[pick(r, cliLabels)] = pick(r, expVals)
		}
		key := map[string]string{}
		for k, v := range s.labels {
			if k != labels.InstanceName && v != "" {
				key[k] = v
			}
		}
		id := labels.FromMap(key).String()
		if seen[id] {
			continue
		}
		seen[id] = true
		for k := range s.vals {
			switch r.Intn(8) {
			case 0:
				s.vals[k] = math.NaN()
			case 1:
				s.vals[k] = math.Inf(1 - 2*r.Intn(2))
			case 2:
				s.vals[k] = math.Ldexp(r.Float64()-0.5, r.Intn(600)-300)
			default:
				s.vals[k] = float64(r.Intn(100000)) / 8
			}
		}
		if ages && r.Intn(4) == 0 {
			switch r.Intn(3) {
			case 0: // recent
				s.age = time.Duration(30+r.Intn(60)) * time.Second
			case 1: // too old to be current
				s.age = time.Duration(400+r.Intn(6000)) * time.Second
			case 2: // not yet
				s.age, s.future = time.Duration(300+r.Intn(6000))*time.Second, true
			}
		}
		out = append(out, s)
	}
	return out
}

// manySeries makes as many series, with as much text, as real targets expose.
func manySeries(r *rand.Rand) (out []tseries) {
	n, pad, nn := 50+r.Intn(1500), r.Intn(3)*r.Intn(400), 1+r.Intn(60)
	if r.Intn(4) == 0 {
		n, pad = 3000, 1500 // some megabytes
	}
	for i := 0; i < n; i++ {
		s := tseries{labels: map[string]string{labels.MetricName: fmt.Sprintf("many_%d_total", r.Intn(40)), "number": strconv.Itoa(i)}, age: -1}
		for k := r.Intn(4); k > 0; k-- {
			s.labels[fmt.Sprintf("many_%d", r.Intn(nn))] = strings.Repeat("x", pad/4) + pick(r, expVals)
		}
		if i == 7 {
			for k := 0; k < 50; k++ {
				s.labels[fmt.Sprintf("wide_%d", k)] = pick(r, expVals)
			}
		}
		s.vals[0], s.vals[1] = float64(i), float64(i)/4
		out = append(out, s)
	}
	return out
}

func (s tseries) set(instance string) labels.Labels {
	m := map[string]string{}
	for k, v := range s.labels {
		if v != "" {
			m[k] = v
		}
	}
	m[labels.InstanceName] = instance
	return labels.FromMap(m)
}

// genTargets makes the targets of a case; order is the list to scrape.
func genTargets(r *rand.Rand, ts *targetServer, id string, faults bool) (all []*target, order []*target, faulty *target, faultAt int) {
	faultAt = -1
	n := 1 + r.Intn(4)
	ts.mu.Lock()
	ts.by = map[string]*target{}
	now := time.Now()
	for k := 0; k < n; k++ {
		t := &target{path: fmt.Sprintf("/%s/%d/metrics", id, k) + pick(r, []string{"", "", "", "", "/", "/a%20b"}), base: now, gzip: r.Intn(4) == 0, redir: r.Intn(8) == 0}
		t.url = ts.srv.URL + t.path
		if r.Intn(3) == 0 {
			t.query = pick(r, []string{"x=1", "x=7", "x=%20b%41", "match[]=up&match[]=%7Bl%3D%22a%22%7D", "%C3%A9=1", "a=1;b=2", "q=a+b", "x", "="})
			t.url += "?" + t.query + pick(r, []string{"", "", "#frag"})
		}
		t.series = genTargetSeries(r, true)
		t.pieces = r.Intn(6) == 0
		if r.Intn(80) == 0 {
			t.series = append(t.series, manySeries(r)...)
		}
		ts.by[targetKey(t.path)] = t
		all = append(all, t)
	}
	ts.mu.Unlock()
	order = append(order, all...)
	if r.Intn(6) == 0 { // listed twice
		t := all[r.Intn(n)]
		for k := range t.series {
			t.series[k].vals[1] = t.series[k].vals[0]
		}
		order = append(order, t)
	}
	r.Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
	if faults && r.Intn(2) == 0 {
		t := all[r.Intn(n)]
		listed := 0
		for _, o := range order {
			if o == t {
				listed++
			}
		}
		if listed == 1 {
			faulty = t
			t.fault = fault(1 + r.Intn(int(nFaults)-1))
			t.from = r.Intn(2)
			t.status = []int{500, 503, 404, 401, 403, 204, 201, 206, 400, 429}[r.Intn(10)]
			if t.fault == refused {
				t.url = "http://" + closedPort() + "/metrics"
				t.from = 0
			}
			faultAt = t.from
		}
	}
	return
}

// runCLI runs the metrics command in this process.
func runCLI(c *h.Ctx, host string, flags cli.PromQFlags) (out string, err error, ok bool) {
	var buf bytes.Buffer
	cmd := metrics.MetricsCommand{
		PromQCommand: cli.PromQCommand{RestConfig: &rest.Config{Host: host}, Streams: genericclioptions.IOStreams{In: &bytes.Buffer{}, Out: &buf, ErrOut: &buf}},
		Period:       20 * time.Second, // also the time limit of the query
		Window:       time.Minute,
	}
	ok = c.Call("Run", func() { err = cmd.Run(flags) })
	return buf.String(), err, ok
}

type jsonSample struct {
	Metric map[string]string `json:"metric"`
	Value  [2]any            `json:"value"`
}

func c25(c *h.Ctx) {
	c.Rule("one to four HTTP targets on loopback (one possibly listed twice; plain, compressed or redirected answers; none given: the cluster's /metrics) exposing random series, with values that change between scrapes, explicit timestamps (recent, old, in the future) and instance labels of their own; in half of the cases one target fails in one of several ways, at the first or the second scrape. The tool's query command is run; its JSON must contain exactly the current series of all targets, each under its target's address, or it must fail without output. Non-trivial: several targets, or one that fails")
	c.Assume("the query looks back five minutes, as the pinned Prometheus engine does by default")
	ts := newTargetServer()
	defer ts.srv.Close()
	c.Cases("targets", c.N(2200, 40000), func(i int, r *rand.Rand) {
		id := fmt.Sprintf("s%d", i)
		all, order, faulty, faultAt := genTargets(r, ts, id, true)
		host := "http://127.0.0.1:1"
		flags := cli.PromQFlags{Output: "json"}
		defaultHost := len(order) == 1 && strings.HasSuffix(all[0].path, "/metrics") && r.Intn(2) == 0 && all[0].fault == noFault
		if defaultHost {
			host = ts.srv.URL + "/" + id + "/0"
			all[0].url = host + "/metrics"
			all[0].query = ""
		} else {
			for _, t := range order {
				flags.HostNames = append(flags.HostNames, t.url)
			}
		}
		var want []tseries
		var inst []string
		only := ""
		switch r.Intn(4) {
		case 0:
			only = all[r.Intn(len(all))].url
			flags.PromQuery = fmt.Sprintf("{instance=%s}", strconv.Quote(only))
		}
		seen := map[*target]bool{}
		for _, t := range order {
			if seen[t] || only != "" && t.url != only {
				continue
			}
			seen[t] = true
			for _, s := range t.series {
				if s.age >= 0 && (s.future || s.age > 290*time.Second) {
					continue
				}
				want = append(want, s)
				inst = append(inst, t.url)
			}
		}
		var ds []string
		for _, t := range order {
			ds = append(ds, fmt.Sprintf("%s (%d series, %v from scrape %d)", t.url, len(t.series), t.fault, t.from))
		}
		desc := fmt.Sprintf("targets %s query %q default host %v", strings.Join(ds, ", "), flags.PromQuery, defaultHost)
		c.Desc("%s", desc)
		before := time.Now()
		out, err, ok := runCLI(c, host, flags)
		after := time.Now()
		if !ok {
			return
		}
		c.Eval(desc, len(order) > 1 || faulty != nil)
		c.Count("targets_scraped", len(order))
		if faulty != nil {
			c.Count("faults_injected", 1)
			if err == nil {
				c.Violation("fault-ignored", "%s\n%s: %v at scrape %d, but the command succeeded: %s", desc, faulty.url, faulty.fault, faultAt, out)
				return
			}
			if out != "" {
				c.Violation("output-despite-fault", "%s\n%s: %v at scrape %d, the command failed with %v but printed: %s", desc, faulty.url, faulty.fault, faultAt, err, out)
			}
			return
		}
		if err != nil {
			c.Violation("failed", "%s\nall targets are healthy, but the command failed: %v", desc, err)
			return
		}
		for _, t := range order {
			t.mu.Lock()
			for _, u := range t.urls {
				p, _, _ := strings.Cut(strings.TrimPrefix(t.url, ts.srv.URL), "#")
				if !(u == "GET "+p || t.redir && strings.Contains(u, "/moved")) {
					c.Violation("wrong-request", "%s\ntarget %s was asked for %q", desc, t.url, u)
				}
			}
			t.mu.Unlock()
		}
		var got []jsonSample
		if e := json.Unmarshal([]byte(out), &got); e != nil {
			c.Violation("not-json", "%s\noutput isn't JSON: %v: %s", desc, e, out)
			return
		}
		gm := map[string]jsonSample{}
		for _, g := range got {
			k := labels.FromMap(g.Metric).String()
			if _, dup := gm[k]; dup {
				c.Violation("duplicate-series", "%s\n%s is reported twice: %s", desc, k, out)
				return
			}
			gm[k] = g
		}
		for k, s := range want {
			ls := s.set(inst[k]).String()
			g, ok := gm[ls]
			if !ok {
				c.Violation("series-missing", "%s\n%s is missing: %s", desc, ls, out)
				return
			}
			delete(gm, ls)
			v := s.vals[1]
			sv, _ := g.Value[1].(string)
			if sv != strconv.FormatFloat(v, 'f', -1, 64) {
				c.Violation("wrong-value", "%s\n%s has value %q, the second scrape exposed %v", desc, ls, sv, v)
				return
			}
			at, _ := g.Value[0].(float64)
			if at < float64(before.UnixMilli())/1000-0.002 || at > float64(after.UnixMilli())/1000+0.002 {
				c.Violation("wrong-time", "%s\n%s is reported for time %v, the command ran from %v to %v", desc, ls, at, before.UnixMilli(), after.UnixMilli())
				return
			}
			c.Count("samples_compared", 1)
		}
		for k := range gm {
			c.Violation("invented-series", "%s\n%s isn't exposed by any target (or isn't current): %s", desc, k, out)
			return
		}
		if c.WantSample() && len(order) > 1 {
			c.Sample("%s -> %d series", desc, len(want))
		}
	})
}

func c27(c *h.Ctx) {
	c.Rule("the tool's list command over one to four HTTP targets with random series; the lines must be exactly the metrics exposed, one for each metric and set of label names (without the target's own label), by ascending name; a target that fails makes the command fail without output. Non-trivial: a metric is exposed with several label sets or by several targets")
	ts := newTargetServer()
	defer ts.srv.Close()
	c.Cases("list", c.N(3000, 40000), func(i int, r *rand.Rand) {
		id := fmt.Sprintf("l%d", i)
		_, order, faulty, faultAt := genTargets(r, ts, id, true)
		flags := cli.PromQFlags{List: true, Output: "json"}
		want := map[string]bool{}
		total := 0
		for _, t := range order {
			flags.HostNames = append(flags.HostNames, t.url)
			for _, s := range t.series {
				var ks []string
				for k, v := range s.labels {
					if k != labels.MetricName && k != labels.InstanceName && v != "" {
						ks = append(ks, k)
					}
				}
				sort.Strings(ks)
				want[s.labels[labels.MetricName]+"|"+strings.Join(ks, ",")] = true
				total++
			}
		}
		desc := fmt.Sprintf("list of %v, want %v", flags.HostNames, keysOf(want))
		c.Desc("%s", desc)
		out, err, ok := runCLI(c, "http://127.0.0.1:1", flags)
		if !ok {
			return
		}
		c.Eval(desc, total > len(want))
		if faulty != nil && faultAt == 0 {
			if err == nil || out != "" {
				c.Violation("fault-ignored", "%s\n%s: %v, but the command returned %v and printed %q", desc, faulty.url, faulty.fault, err, out)
			}
			return
		}
		if err != nil {
			c.Violation("failed", "%s\nthe command failed: %v", desc, err)
			return
		}
		last := ""
		n := 0
		for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
			name, rest, ok1 := strings.Cut(strings.TrimPrefix(l, "--"), " { ")
			if !ok1 || !strings.HasPrefix(l, "--") || !strings.HasSuffix(rest, " }") {
				c.Violation("wrong-line", "%s\nline %q", desc, l)
				return
			}
			rest = strings.TrimSuffix(rest, " }")
			var ks []string
			if rest != "" {
				ks = strings.Split(rest, ", ")
			}
			key := name + "|" + strings.Join(ks, ",")
			if !want[key] {
				c.Violation("wrong-line", "%s\nline %q is for no exposed metric, or repeated", desc, l)
				return
			}
			delete(want, key)
			n++
			if name < last {
				c.Violation("unsorted", "%s\n%q comes after %q", desc, name, last)
				return
			}
			last = name
		}
		if len(want) > 0 {
			c.Violation("missing-line", "%s\nnot listed: %v\noutput: %s", desc, keysOf(want), out)
			return
		}
		c.Count("lines_compared", n)
		if c.WantSample() && n > 2 {
			c.Sample("%s", out)
		}
	})
}

func init() {
	h.Register(h.Check{ID: "C25", Fn: c25})
	h.Register(h.Check{ID: "C27", Fn: c27})
}
