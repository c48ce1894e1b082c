package checks

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"
	"github.com/prometheus/prometheus/promql/parser"
	"gopkg.in/yaml.v2"

	"sigs.k8s.io/instrumentation-tools/promq/prom"

	"verif/harness/h"
)

// runProgram runs the real program without a terminal.
func runProgram(c *h.Ctx, dir string, env []string, args []string) (stdout, stderr string, status int, hung bool) {
	cmd := exec.Command(promqBin, args...)
	var o, e bytes.Buffer
	cmd.Dir, cmd.Env, cmd.Stdout, cmd.Stderr = dir, env, &o, &e
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
	if err := cmd.Start(); err != nil {
		c.Inconclusive("can't run the program: %v", err)
		return "", "", -1, false
	}
	done := make(chan struct{})
	go func() { cmd.Wait(); close(done) }()
	for t0 := time.Now(); ; {
		select {
		case <-done:
			return o.String(), e.String(), cmd.ProcessState.ExitCode(), false
		case <-time.After(time.Second):
			if time.Since(t0) > 60*time.Second {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				return o.String(), e.String(), -1, true
			}
		}
	}
}

// tree lists the files below dir with their contents.
func tree(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			out[rel] = string(b)
		}
		return nil
	})
	return out
}

func diffTree(a, b map[string]string) string {
	for k, v := range b {
		if w, ok := a[k]; !ok {
			return "new file " + k
		} else if v != w {
			return "changed file " + k
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			return "removed file " + k
		}
	}
	return ""
}

type kubeSetup struct {
	server   string
	token    string
	ca       []byte // PEM
	insecure bool
}

// kubeconfigText is a configuration with decoys around the current context.
func kubeconfigText(r *rand.Rand, k kubeSetup, decoy string) string {
	cl := fmt.Sprintf("{server: %q", k.server)
	if len(k.ca) > 0 {
		cl += ", certificate-authority-data: " + base64.StdEncoding.EncodeToString(k.ca)
	}
	if k.insecure {
		cl += ", insecure-skip-tls-verify: true"
	}
	cl += "}"
	us := "{}"
	if k.token != "" {
		us = fmt.Sprintf("{token: %q}", k.token)
	}
	type e struct{ cl, ct, us string }
	es := []e{
		{"- name: here\n  cluster: " + cl + "\n", "- name: now\n  context: {cluster: here, user: me}\n", "- name: me\n  user: " + us + "\n"},
		{fmt.Sprintf("- name: other\n  cluster: {server: %q}\n", decoy), "- name: then\n  context: {cluster: other, user: you}\n", "- name: you\n  user: {token: wrong}\n"},
	}
	if r.Intn(2) == 0 {
		es[0], es[1] = es[1], es[0]
	}
	return "apiVersion: v1\nkind: Config\nclusters:\n" + es[0].cl + es[1].cl + "contexts:\n" + es[0].ct + es[1].ct + "current-context: now\nusers:\n" + es[0].us + es[1].us
}

// oneshotQuery makes a query whose result doesn't depend on the order of
// series, nor on when exactly samples without a time of their own were read.
func oneshotQuery(r *rand.Rand, urls []string, have []tseries, depth int) string {
	sel := func() string {
		var ms []string
		if len(have) > 0 && r.Intn(3) > 0 { // something that's there
			s := have[r.Intn(len(have))]
			for _, l := range cliLabels {
				if v := s.labels[l]; v != "" && l != labels.InstanceName && r.Intn(2) == 0 {
					ms = append(ms, l+"="+strconv.Quote(v))
				}
			}
			if len(ms) == 0 {
				return s.labels[labels.MetricName]
			}
			return s.labels[labels.MetricName] + "{" + strings.Join(ms, ",") + "}"
		}
		for j := r.Intn(3); j > 0; j-- {
			l := pick(r, cliLabels)
			op := []string{"=", "!=", "=~", "!~"}[r.Intn(4)]
			v := pick(r, expVals)
			if l == labels.InstanceName {
				v = pick(r, urls)
			}
			if op == "=~" || op == "!~" {
				if r.Intn(2) == 0 {
					v = pick(r, []string{".+", ".*", "", "a.*", "http.*"})
				} else {
					v = regexp.QuoteMeta(v) + pick(r, []string{"", "|b"})
				}
			}
			if r.Intn(4) == 0 {
				v = ""
			}
			ms = append(ms, l+op+strconv.Quote(v))
		}
		n := pick(r, cliNames)
		if r.Intn(4) == 0 {
			n = ""
			ms = append(ms, fmt.Sprintf("__name__=~%q", pick(r, []string{"up|m1", "m.*", ".+", "a:b|_x"})))
		}
		if len(ms) == 0 {
			return n
		}
		return n + "{" + strings.Join(ms, ",") + "}"
	}
	off := func() string {
		return pick(r, []string{"", "", "", "", " offset 20s", " offset 40s", " offset 1m"})
	}
	rng := func() string { return pick(r, []string{"30s", "1m", "2m", "5m"}) }
	if depth <= 0 {
		return sel() + off()
	}
	switch r.Intn(14) {
	case 12:
		f := pick(r, []string{"max_over_time", "min_over_time", "count_over_time", "last_over_time", "changes", "absent_over_time"})
		return fmt.Sprintf("%s((%s)[%s:%s]%s)", f, oneshotQuery(r, urls, have, depth-1), pick(r, []string{"1m", "2m", "5m", "10m", "1h"}), pick(r, []string{"", "", "10s", "30s", "1m", "7s"}), off())
	case 13:
		q := oneshotQuery(r, urls, have, depth-1)
		switch r.Intn(9) {
		case 0:
			return fmt.Sprintf("label_replace(%s, %q, %q, %q, %q)", q, pick(r, []string{"l", "new", "job", "__name__"}), pick(r, []string{"x", "$1", "$1-$2", "${0}%d", ""}), pick(r, cliLabels), pick(r, []string{"(.*)", "(.)(.*)", "a", ".+", ""}))
		case 1:
			return fmt.Sprintf("label_join(%s, %q, %q, %q, %q)", q, pick(r, []string{"l", "new", "job"}), pick(r, []string{"-", ",", "", "%s"}), pick(r, cliLabels), pick(r, cliLabels))
		case 2:
			return fmt.Sprintf("count_values(%q, %s)", pick(r, []string{"v", "l", "instance"}), q)
		case 3:
			return fmt.Sprintf("quantile by (l) (%s, %s)", pick(r, []string{"0.5", "0", "1", "0.9", "2"}), q)
		case 4:
			return fmt.Sprintf("%s(%s, %d)", pick(r, []string{"clamp_max", "clamp_min", "round"}), q, r.Intn(20)-5)
		case 5:
			return fmt.Sprintf("-(%s)", q)
		case 6:
			return fmt.Sprintf("vector(scalar(%s))", q)
		case 7:
			return fmt.Sprintf("absent(%s)", sel())
		default:
			return fmt.Sprintf("%d %s (%s)", r.Intn(9), pick(r, []string{"-", "^", "< bool", "%", "=="}), q)
		}
	case 0, 1, 2:
		return sel() + off()
	case 3, 4:
		return fmt.Sprintf("%s(%s[%s]%s)", pick(r, []string{"count_over_time", "last_over_time", "max_over_time", "min_over_time", "changes", "resets", "present_over_time", "absent_over_time"}), sel(), rng(), off())
	case 5:
		return fmt.Sprintf("%s by (%s) (%s)", pick(r, []string{"max", "min", "count", "group"}), pick(r, []string{"l", "code", "instance", "job, le", ""}), oneshotQuery(r, urls, have, depth-1))
	case 6:
		return fmt.Sprintf("%s without (%s) (%s)", pick(r, []string{"max", "min", "count"}), pick(r, []string{"l", "code", "instance"}), oneshotQuery(r, urls, have, depth-1))
	case 7:
		return fmt.Sprintf("(%s) %s (%s)", oneshotQuery(r, urls, have, depth-1), pick(r, []string{"and", "or", "unless", "+", "> bool", "- on(instance)", "* ignoring(l)", "- on()", "== on(job)"}), oneshotQuery(r, urls, have, depth-1))
	case 8:
		return fmt.Sprintf("%s(%s)", pick(r, []string{"abs", "ceil", "absent", "sgn", "scalar", "sort_desc"}), oneshotQuery(r, urls, have, depth-1))
	case 9:
		return fmt.Sprintf("(%s) %s %d", oneshotQuery(r, urls, have, depth-1), pick(r, []string{"*", "/", ">", "== bool", "%", "^"}), r.Intn(100)-20)
	case 10:
		return pick(r, []string{"1 + 2", "-0.5 / 0", "\"text\"", "'a \"b'", "vector(7)", "NaN", "'50%d'", "0x1F", "1e300 * 1e300", "\"\"", "time() * 0"})
	default:
		return sel() + "[" + rng() + "]"
	}
}

var malformedQueries = []string{"m{", "sum(", "m[", "m[5m", "1 +", "foo bar", "m{l=}", "rate(m)", "m{l=~\"(\"}", "sum by (l m)", "\"open", "m offset", "m{}[5m]{}", "()", "topk(m)", "1 + \"a\""}

var tsJSON = regexp.MustCompile(`\[\s*([0-9.]+),\s*"`)
var tsYAML = regexp.MustCompile(`(?m)\bt: ([0-9]+)$`)
var tsProm = regexp.MustCompile(`@\[([0-9]+)\]`)

// readBack turns the output into the canonical form of a result, and lists the times it mentions.
func readBack(out, format string, typ parser.ValueType) (string, []int64, error) {
	var ts []int64
	res := &promql.Result{}
	switch format {
	case "prometheus":
		for _, m := range tsProm.FindAllStringSubmatch(out, -1) {
			n, _ := strconv.ParseInt(m[1], 10, 64)
			ts = append(ts, n)
		}
		ls := strings.Split(out, "\n")
		sort.Strings(ls)
		return strings.Join(ls, "\n"), ts, nil
	case "json":
		for _, m := range tsJSON.FindAllStringSubmatch(out, -1) {
			f, _ := strconv.ParseFloat(m[1], 64)
			ts = append(ts, int64(math.Round(f*1000)))
		}
		pt := func(v [2]any) (promql.Point, error) {
			f, ok1 := v[0].(float64)
			s, ok2 := v[1].(string)
			x, err := strconv.ParseFloat(s, 64)
			if !ok1 || !ok2 || err != nil {
				return promql.Point{}, fmt.Errorf("%v isn't a [time, value] pair", v)
			}
			return promql.Point{T: int64(math.Round(f * 1000)), V: x}, nil
		}
		switch typ {
		case parser.ValueTypeVector:
			var v []jsonSample
			if err := json.Unmarshal([]byte(out), &v); err != nil {
				return "", ts, err
			}
			vec := promql.Vector{}
			for _, s := range v {
				p, err := pt(s.Value)
				if err != nil {
					return "", ts, err
				}
				vec = append(vec, promql.Sample{Metric: labels.FromMap(s.Metric), Point: p})
			}
			res.Value = vec
		case parser.ValueTypeMatrix:
			var v []struct {
				Metric map[string]string
				Values [][2]any
			}
			if err := json.Unmarshal([]byte(out), &v); err != nil {
				return "", ts, err
			}
			mat := promql.Matrix{}
			for _, s := range v {
				se := promql.Series{Metric: labels.FromMap(s.Metric)}
				for _, x := range s.Values {
					p, err := pt(x)
					if err != nil {
						return "", ts, err
					}
					se.Points = append(se.Points, p)
				}
				mat = append(mat, se)
			}
			res.Value = mat
		default:
			var v [2]any
			if err := json.Unmarshal([]byte(out), &v); err != nil {
				return "", ts, err
			}
			if typ == parser.ValueTypeString {
				f, ok1 := v[0].(float64)
				s, ok2 := v[1].(string)
				if !ok1 || !ok2 {
					return "", ts, fmt.Errorf("%v isn't a [time, text] pair", v)
				}
				res.Value = promql.String{T: int64(math.Round(f * 1000)), V: s}
				break
			}
			p, err := pt(v)
			if err != nil {
				return "", ts, err
			}
			res.Value = promql.Scalar{T: p.T, V: p.V}
		}
	case "yaml":
		for _, m := range tsYAML.FindAllStringSubmatch(out, -1) {
			n, _ := strconv.ParseInt(m[1], 10, 64)
			ts = append(ts, n)
		}
		switch typ {
		case parser.ValueTypeVector:
			var v []struct {
				Point  yPoint
				Metric map[string]string
			}
			if err := yaml.UnmarshalStrict([]byte(out), &v); err != nil {
				return "", ts, err
			}
			vec := promql.Vector{}
			for _, s := range v {
				vec = append(vec, promql.Sample{Metric: labels.FromMap(s.Metric), Point: promql.Point{T: s.Point.T, V: s.Point.V}})
			}
			res.Value = vec
		case parser.ValueTypeMatrix:
			var v []struct {
				Metric map[string]string
				Points []yPoint
			}
			if err := yaml.UnmarshalStrict([]byte(out), &v); err != nil {
				return "", ts, err
			}
			mat := promql.Matrix{}
			for _, s := range v {
				se := promql.Series{Metric: labels.FromMap(s.Metric)}
				for _, p := range s.Points {
					se.Points = append(se.Points, promql.Point{T: p.T, V: p.V})
				}
				mat = append(mat, se)
			}
			res.Value = mat
		case parser.ValueTypeString:
			var p struct {
				T int64
				V string
			}
			if err := yaml.UnmarshalStrict([]byte(out), &p); err != nil {
				return "", ts, err
			}
			res.Value = promql.String{T: p.T, V: p.V}
		default:
			var p yPoint
			if err := yaml.UnmarshalStrict([]byte(out), &p); err != nil {
				return "", ts, err
			}
			res.Value = promql.Scalar{T: p.T, V: p.V}
		}
	}
	s, _ := canonPlusZero(res)
	return s, ts, nil
}

// canonPlusZero: reading -0 from YAML gives the integer 0.
func canonPlusZero(res *promql.Result) (string, int) {
	switch v := res.Value.(type) {
	case promql.Vector:
		for i := range v {
			v[i].V += 0
		}
	case promql.Matrix:
		for i := range v {
			for k := range v[i].Points {
				v[i].Points[k].V += 0
			}
		}
	case promql.Scalar:
		v.V += 0
		res.Value = v
	}
	return canon(res)
}

// slowEval: could the evaluation have taken the second that it may take?
func slowEval(order []*target, end int64) bool {
	last := int64(0)
	for _, t := range order {
		t.mu.Lock()
		last = max(last, t.last.UnixMilli())
		t.mu.Unlock()
	}
	return end-last > 900
}

// refOneshot is the query's result at t if what has no time of its own was read at s.
func refOneshot(order []*target, query string, s, t int64) *promql.Result {
	ref := newRef()
	seen := map[*target]bool{}
	for _, tg := range order {
		if seen[tg] {
			continue
		}
		seen[tg] = true
		for _, x := range tg.series {
			ps := prom.ParsedSeries{Labels: x.set(tg.url), Value: x.vals[1], Timestamp: s}
			if x.age >= 0 {
				at := tg.base.Add(-x.age)
				if x.future {
					at = tg.base.Add(x.age)
				}
				ps.Timestamp = at.UnixMilli()
			}
			ref.load([]prom.ParsedSeries{ps})
		}
	}
	q, err := promql.NewEngine(refEngineOpts()).NewInstantQuery(refQueryable{ref}, query, ms2t(t))
	if err != nil {
		return &promql.Result{Err: err}
	}
	defer q.Close()
	return q.Exec(context.Background())
}

func c30(c *h.Ctx) {
	c.Rule("the real program, as users run it: random queries (valid of all types, malformed, failing when evaluated), output formats, spellings of the flags, kubeconfigs (with decoys, credentials, private and wrong certificates, broken, missing), one to four loopback targets, healthy or failing; its standard output must be exactly the query's result over what the targets exposed, as PromQL's engine gives it over a reference storage, and nothing after any failure; exit status 0 means success; errors are on standard error; no file is changed. Non-trivial: a result with samples, or a failure")
	if promqBin == "" {
		c.Inconclusive("no program to run")
		return
	}
	ts := newTargetServer()
	defer ts.srv.Close()
	// an API server that wants credentials, with a certificate of its own authority
	var apiMu sync.Mutex
	var apiToken, apiPrefix string
	var apiTarget *target
	var apiRefused int
	apiH := http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		apiMu.Lock()
		tok, t, prefix := apiToken, apiTarget, apiPrefix
		apiMu.Unlock()
		if tok != "" && req.Header.Get("Authorization") != "Bearer "+tok {
			apiMu.Lock()
			apiRefused++
			apiMu.Unlock()
			http.Error(w, "who are you", http.StatusUnauthorized)
			return
		}
		if t == nil || req.URL.Path != prefix+"/metrics" {
			http.NotFound(w, req)
			return
		}
		t.ServeHTTP(w, req)
	})
	api := httptest.NewServer(apiH)
	defer api.Close()
	apiTLS := httptest.NewUnstartedServer(apiH)
	apiTLS.Config.ErrorLog = quietLog
	apiTLS.StartTLS()
	defer apiTLS.Close()
	caPEM := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: apiTLS.Certificate().Raw})

	c.Cases("invocations", c.N(4000, 60000), func(i int, r *rand.Rand) {
		dir, err := os.MkdirTemp(c.Bin, "one")
		if err != nil {
			c.Inconclusive("%v", err)
			return
		}
		defer os.RemoveAll(dir)
		id := fmt.Sprintf("o%d", i)
		all, order, faulty, _ := genTargets(r, ts, id, r.Intn(3) == 0)
		// a target listed twice gives two samples at one time: not pinned down
		listed := map[*target]bool{}
		once := order[:0]
		for _, t := range order {
			if !listed[t] {
				once = append(once, t)
			}
			listed[t] = true
		}
		order = once
		// some series with several samples
		for _, t := range all {
			for k := range t.series {
				s := t.series[k]
				if s.age < 0 || s.future {
					continue
				}
				s.age = time.Duration(20+10*r.Intn(25))*time.Second + 5500*time.Millisecond
				t.series[k].age = s.age
				for n := r.Intn(4); n > 0; n-- {
					s.age += time.Duration(10+10*r.Intn(6)) * time.Second
					s.vals[1] += float64(r.Intn(3) - 1)
					s.vals[0] = s.vals[1]
					t.series = append(t.series, s)
				}
			}
		}
		var why []string // the reasons to fail
		var args []string
		flag := func(short, long, val string) {
			switch r.Intn(4) {
			case 0:
				args = append(args, "-"+short, val)
			case 1:
				args = append(args, "-"+short+val)
				if val == "" {
					args[len(args)-1] = "--" + long + "="
				}
			case 2:
				args = append(args, "--"+long, val)
			default:
				args = append(args, "--"+long+"="+val)
			}
		}
		logEnv, _, logMode := logSetup(r, dir)
		env := promqEnv(dir, logEnv...)
		kc := kubeSetup{server: "http://127.0.0.1:1"}
		viaAPI := faulty == nil && r.Intn(4) == 0
		note := ""
		if viaAPI {
			t := all[0]
			order, all = []*target{t}, []*target{t}
			t.redir = false
			tls := r.Intn(2) == 0
			if tls && r.Intn(2) == 0 { // client-go sends credentials over TLS only
				kc.token = fmt.Sprintf("tok%d", r.Intn(1e6))
			}
			prefix := pick(r, []string{"", "", "", "/k8s/clusters/c-1"})
			slash := prefix + pick(r, []string{"", "", "/"})
			apiMu.Lock()
			apiToken, apiTarget, apiPrefix = kc.token, t, prefix
			apiMu.Unlock()
			kc.server = api.URL + slash
			note = "via the API server"
			if tls {
				kc.server = apiTLS.URL + slash
				note = "via the API server (TLS)"
				switch r.Intn(4) {
				case 0, 1:
					kc.ca = caPEM
				case 2:
					kc.insecure = true
					note += ", not verified"
				case 3:
					why = append(why, "the API server's certificate is from an unknown authority")
				}
			}
			t.url, t.query = strings.TrimRight(kc.server, "/")+"/metrics", ""
			if kc.token != "" && r.Intn(6) == 0 {
				kc.token += "x"
				why = append(why, "wrong credentials")
			}
		}
		kcText := kubeconfigText(r, kc, "http://"+closedPort())
		if !viaAPI {
			switch r.Intn(12) {
			case 0:
				kcText = "" // an empty configuration is one
			case 1:
				kcText = "{{{"
				why = append(why, "broken kubeconfig")
			}
		}
		os.WriteFile(filepath.Join(dir, "kubeconfig"), []byte(kcText), 0o600)
		var urls []string
		var have []tseries
		for _, t := range order {
			urls = append(urls, t.url)
			have = append(have, t.series...)
		}
		if faulty != nil {
			why = append(why, fmt.Sprintf("target %s: %v", faulty.url, faulty.fault))
		}
		query := "{__name__=~\"..*\"}" // the documented default: everything
		list := r.Intn(8) == 0
		giveQuery := r.Intn(8) > 0
		if giveQuery {
			query = oneshotQuery(r, urls, have, 2)
			if r.Intn(8) == 0 {
				query = pick(r, malformedQueries)
			}
		}
		format := []string{"json", "json", "yaml", "prometheus"}[r.Intn(4)]
		var parts []func()
		if giveQuery {
			parts = append(parts, func() { flag("q", "query", query) })
		}
		if format != "json" || r.Intn(2) == 0 {
			parts = append(parts, func() { flag("o", "output", format) })
		}
		if !list && r.Intn(16) == 0 {
			bad := pick(r, []string{"xml", "JSON", "yml", "text", "csv"})
			format = ""
			why = append(why, "unknown format "+bad)
			// given twice, the last one would count
			parts = parts[:0]
			if giveQuery {
				parts = append(parts, func() { flag("q", "query", query) })
			}
			parts = append(parts, func() { flag("o", "output", bad) })
		}
		if list {
			parts = append(parts, func() { args = append(args, pick(r, []string{"-l", "--list", "--list=true"})) })
		}
		if r.Intn(24) == 0 {
			parts = append(parts, func() { args = append(args, pick(r, []string{"--nope", "-z", "--query-file=x", "--list=maybe"})) })
			why = append(why, "bad flag")
		}
		r.Shuffle(len(parts), func(a, b int) { parts[a], parts[b] = parts[b], parts[a] })
		split := r.Intn(len(parts) + 1)
		for _, p := range parts[:split] {
			p()
		}
		if !viaAPI {
			for _, u := range urls {
				flag("t", "targets", u)
			}
		}
		for _, p := range parts[split:] {
			p()
		}
		// a bad flag value may swallow the next argument; it's an error either way
		expr, perr := parser.ParseExpr(query)
		if !list && perr != nil {
			why = append(why, "malformed query")
		}
		var ds []string
		for _, t := range order {
			ds = append(ds, fmt.Sprintf("%s: %q", t.url, t.render(nil, 1)))
		}
		desc := fmt.Sprintf("promq %q %s, %s (targets %s)", args, note, logMode, strings.Join(ds, ", "))
		c.Desc("%s", desc)
		files := tree(dir)
		before := time.Now().UnixMilli()
		stdout, stderr, status, hung := runProgram(c, dir, env, args)
		after := time.Now().UnixMilli() + 1
		c.Count("invocations", 1)
		if status < 0 && !hung {
			return
		}
		outcome := fmt.Sprintf("status %d, output %q, errors %q", status, stdout, stderr)
		if hung {
			c.Violation("hang", "%s\ndidn't end within 60 s: %s", desc, outcome)
			return
		}
		if strings.HasPrefix(logMode, "logs ") {
			logMode = "logs"
			for _, f := range []string{"debug.log", "error.log"} { // C32 looks at these
				delete(files, "logs/"+f)
			}
		}
		now := tree(dir)
		if logMode == "logs" {
			delete(now, "logs/debug.log")
			delete(now, "logs/error.log")
		}
		if d := diffTree(files, now); d != "" {
			c.Violation("files", "%s\n%s", desc, d)
			return
		}
		if strings.Contains(stderr, "panic:") || strings.Contains(stderr, "goroutine ") {
			c.Violation("crash", "%s\n%s", desc, outcome)
			return
		}
		if strings.Contains(stderr, "query timed out") && slowEval(order, after) {
			c.Count("timed_out", 1) // the machine was busy
			return
		}
		failedOK := func(reason string) bool {
			if status == 0 || stdout != "" || !strings.Contains(stderr, "Error: ") {
				c.Violation("failure-hidden", "%s\nmust fail (%s): %s", desc, reason, outcome)
				return false
			}
			c.Count("failures_reported", 1)
			return true
		}
		if list && faulty != nil && faulty.from == 1 {
			// listing reads the targets once
			why = nil
			for _, a := range args {
				if strings.HasPrefix(a, "--nope") || a == "-z" || a == "--query-file=x" || a == "--list=maybe" {
					why = append(why, "bad flag")
				}
			}
			if kcText == "{{{" {
				why = append(why, "broken kubeconfig")
			}
		}
		if len(why) > 0 {
			c.Eval(desc, true)
			failedOK(strings.Join(why, ", "))
			return
		}
		if list {
			if status != 0 || stderr != "" {
				c.Violation("list-failed", "%s\n%s", desc, outcome)
				return
			}
			n, wrong := judgeList(order, stdout)
			if wrong != "" {
				c.Violation("wrong-list", "%s\n%s: %s", desc, wrong, outcome)
				return
			}
			c.Eval(desc, n > 0)
			c.Count("lines_compared", n)
			return
		}
		// the reference
		eval := func(s, t int64) *promql.Result { return refOneshot(order, query, s, t) }
		if status != 0 {
			// the query itself may fail
			if eval(before, before).Err != nil || eval(after, after).Err != nil {
				c.Eval(desc, true)
				c.Count("evaluation_errors", 1)
				failedOK("the query fails")
				return
			}
			c.Violation("failed", "%s\nnothing is wrong, but: %s", desc, outcome)
			return
		}
		if stderr != "" {
			c.Violation("noise", "%s\nsucceeded, but: %s", desc, outcome)
			return
		}
		if !strings.HasSuffix(stdout, "\n") {
			c.Violation("no-newline", "%s\n%s", desc, outcome)
			return
		}
		typ := expr.Type()
		text := strings.TrimSuffix(stdout, "\n")
		got, times, err := readBack(text, format, typ)
		if err != nil {
			c.Violation("unreadable", "%s\nthe output isn't the %s of a %s: %v: %s", desc, format, typ, err, outcome)
			return
		}
		var inRange []int64
		for _, t := range times {
			if t >= before && t <= after {
				inRange = append(inRange, t)
			}
		}
		scraped := before
		var at []int64
		if typ == parser.ValueTypeMatrix {
			for _, t := range inRange {
				if t != inRange[0] {
					c.Violation("times-differ", "%s\nsamples without a time of their own have different times: %s", desc, outcome)
					return
				}
			}
			if len(inRange) > 0 {
				scraped = inRange[0]
			}
		} else if len(times) > 0 && (typ != parser.ValueTypeString || format != "prometheus") {
			if len(inRange) != len(times) {
				c.Violation("wrong-time", "%s\nthe result isn't for the time of the run [%d, %d]: %s", desc, before, after, outcome)
				return
			}
			at = []int64{times[0]}
		}
		if at == nil {
			for k := int64(0); k <= 40; k++ {
				at = append(at, scraped+(after-scraped)*k/40)
			}
		}
		want := ""
		match := false
		n := 0
		// the steps of a subquery may see the samples or not, depending on when exactly they were read
		try := [][2]int64{}
		for _, t := range at {
			try = append(try, [2]int64{scraped, t})
			if t > scraped && typ != parser.ValueTypeMatrix && strings.Contains(query, ":") {
				try = append(try, [2]int64{t, t})
			}
		}
		for _, st := range try {
			res := eval(st[0], st[1])
			if res.Err != nil {
				want = "the error " + res.Err.Error()
				continue
			}
			if format == "prometheus" {
				ls := strings.Split(wantProm(res.Value), "\n")
				sort.Strings(ls)
				want = strings.Join(ls, "\n")
				n = len(text)
			} else {
				want, n = canonPlusZero(res)
			}
			if want == got {
				match = true
				break
			}
		}
		c.Eval(desc, n > 0)
		if !match {
			c.Violation("wrong-result", "%s\nresult:    %s\nreference: %s\n%s", desc, got, want, outcome)
			return
		}
		c.Count("results_compared", 1)
		if n > 0 {
			c.Count("nonempty_results_"+format, 1)
		}
		if viaAPI {
			c.Count("via_api_server", 1)
		}
		if c.WantSample() && n > 0 && len(args) < 8 {
			c.Sample("promq %q -> %s", args, trimTo(stdout, 200))
		}
	})
	// as many series as a busy API server exposes
	c.Cases("large", c.N(16, 200), func(i int, r *rand.Rand) {
		dir, err := os.MkdirTemp(c.Bin, "one")
		if err != nil {
			c.Inconclusive("%v", err)
			return
		}
		defer os.RemoveAll(dir)
		os.WriteFile(filepath.Join(dir, "kubeconfig"), nil, 0o600)
		_, order, _, _ := genTargets(r, ts, fmt.Sprintf("l%d", i), false)
		order = order[:1]
		n := 1500 + r.Intn(8000)
		if r.Intn(2) == 0 {
			n = 20000 + r.Intn(15000)
		}
		t := order[0]
		t.mu.Lock()
		t.pieces, t.redir = false, false
		t.series = nil
		for k := 0; k < n; k++ {
			t.series = append(t.series, tseries{
				labels: map[string]string{"__name__": fmt.Sprintf("m_%d", k/50), "job": fmt.Sprint(k % 3), "k": fmt.Sprint(k)},
				vals:   [2]float64{float64(r.Intn(1000)), float64(r.Intn(1000))}, age: -1})
		}
		t.mu.Unlock()
		query := pick(r, []string{"", "{__name__=~\"..*\"}", "{job!=\"1\"}", "count by (job) ({__name__=~\"m_.*\"})", "sum({__name__!=\"m_0\"})", "max by (__name__) ({k=~\".*7\"})", "{__name__=~\"m_[0-4]..?\"} > 500"})
		format := pick(r, []string{"json", "yaml", "prometheus"})
		args := []string{"-o", format, "-t", t.url}
		if query != "" {
			args = append(args, "-q", query)
		} else {
			query = "{__name__=~\"..*\"}"
		}
		desc := fmt.Sprintf("promq %q (a target with %d series)", args, n)
		c.Desc("%s", desc)
		before := time.Now().UnixMilli()
		stdout, stderr, status, hung := runProgram(c, dir, promqEnv(dir), args)
		after := time.Now().UnixMilli() + 1
		if status < 0 && !hung {
			return
		}
		if strings.Contains(stderr, "query timed out") && slowEval(order, after) {
			c.Count("timed_out", 1)
			return
		}
		if hung || status != 0 || stderr != "" {
			c.Violation("large-failed", "%s\nhung %v, status %d, errors %q", desc, hung, status, trimTo(stderr, 400))
			return
		}
		expr, err := parser.ParseExpr(query)
		if err != nil {
			c.Inconclusive("%v", err)
			return
		}
		got, times, err := readBack(strings.TrimSuffix(stdout, "\n"), format, expr.Type())
		if err != nil || len(times) == 0 {
			c.Violation("unreadable", "%s\nthe output isn't a result in %s: %v: %s", desc, format, err, trimTo(stdout, 400))
			return
		}
		res := refOneshot(order, query, before, times[0])
		if res.Err != nil {
			c.Inconclusive("reference: %v", res.Err)
			return
		}
		var want string
		if format == "prometheus" {
			ls := strings.Split(wantProm(res.Value), "\n")
			sort.Strings(ls)
			want = strings.Join(ls, "\n")
		} else {
			want, _ = canonPlusZero(res)
		}
		c.Eval(desc, true)
		c.Count("series_in_large_targets", n)
		if want != got {
			k := 0
			for k < len(want) && k < len(got) && want[k] == got[k] {
				k++
			}
			k = max(0, k-200)
			c.Violation("wrong-large", "%s\n%d samples in %d bytes, expected %d bytes; at byte %d: %s\nexpected: %s", desc, len(times), len(got), len(want), k, trimTo(got[min(k, len(got)):], 500), trimTo(want[min(k, len(want)):], 500))
		}
	})
	c.Cases("no-terminal", c.N(8, 40), func(i int, r *rand.Rand) {
		dir, err := os.MkdirTemp(c.Bin, "one")
		if err != nil {
			c.Inconclusive("%v", err)
			return
		}
		defer os.RemoveAll(dir)
		_, order, _, _ := genTargets(r, ts, fmt.Sprintf("n%d", i), false)
		os.WriteFile(filepath.Join(dir, "kubeconfig"), nil, 0o600)
		args := []string{"-c"}
		for _, t := range order {
			args = append(args, "-t", t.url)
		}
		desc := fmt.Sprintf("promq %q without a terminal", args)
		c.Desc("%s", desc)
		stdout, stderr, status, hung := runProgram(c, dir, promqEnv(dir), args)
		if strings.Contains(stderr, "panic:") || strings.Contains(stderr, "goroutine ") {
			c.Violation("crash", "%s\nstatus %d, errors %q", desc, status, stderr)
		} else if hung || status == 0 || stdout != "" || !strings.Contains(stderr, "Error: ") {
			c.Violation("no-terminal", "%s\nmust fail: status %d, output %q, errors %q", desc, status, stdout, stderr)
		}
		c.Eval(desc, true)
	})
}

func trimTo(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// judgeList compares the listing with what the targets expose.
func judgeList(order []*target, out string) (int, string) {
	want := map[string]bool{}
	for _, t := range order {
		for _, s := range t.series {
			var ks []string
			for k, v := range s.labels {
				if k != labels.MetricName && k != labels.InstanceName && v != "" {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			want[s.labels[labels.MetricName]+"|"+strings.Join(ks, ",")] = true
		}
	}
	n := 0
	last := ""
	if out == "" && len(want) == 0 {
		return 0, ""
	}
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		name, rest, ok := strings.Cut(strings.TrimPrefix(l, "--"), " { ")
		if !ok || !strings.HasPrefix(l, "--") || !strings.HasSuffix(rest, " }") {
			return n, fmt.Sprintf("line %q", l)
		}
		rest = strings.TrimSuffix(rest, " }")
		var ks []string
		if rest != "" {
			ks = strings.Split(rest, ", ")
		}
		key := name + "|" + strings.Join(ks, ",")
		if !want[key] {
			return n, fmt.Sprintf("line %q is for no exposed metric, or repeated", l)
		}
		delete(want, key)
		if name < last {
			return n, fmt.Sprintf("%q comes after %q", name, last)
		}
		last = name
		n++
	}
	if len(want) > 0 {
		return n, fmt.Sprintf("not listed: %v", keysOf(want))
	}
	return n, ""
}

func init() { h.Register(h.Check{ID: "C30", Fn: c30}) }
