package checks

import (
	"fmt"
	"io"
	"log"
	"math"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"

	"k8s.io/cli-runtime/pkg/genericclioptions"
	"k8s.io/client-go/rest"

	"sigs.k8s.io/instrumentation-tools/cmd/cli"
	"sigs.k8s.io/instrumentation-tools/cmd/metrics"

	"verif/harness/h"
)

var promqBin = os.Getenv("VERIF_PROMQ")

// promqEnv is the environment for the real program: no configuration but ours.
func promqEnv(dir string, extra ...string) []string {
	env := []string{"HOME=" + dir, "PATH=/usr/bin:/bin", "LANG=C.UTF-8", "TERM=xterm-256color", "TMPDIR=" + dir, "KUBECONFIG=" + filepath.Join(dir, "kubeconfig")}
	for _, k := range []string{"GORACE"} {
		if v := os.Getenv(k); v != "" {
			env = append(env, k+"="+v)
		}
	}
	return append(env, extra...)
}

func writeKubeconfig(dir, server string) error {
	s := fmt.Sprintf("apiVersion: v1\nkind: Config\nclusters:\n- name: c\n  cluster: {server: %q}\ncontexts:\n- name: x\n  context: {cluster: c, user: u}\ncurrent-context: x\nusers:\n- name: u\n  user: {}\n", server)
	return os.WriteFile(filepath.Join(dir, "kubeconfig"), []byte(s), 0o644)
}

// RunInteractive is the interactive mode with another period and window than
// the program has: arguments period, window, query, targets.
func RunInteractive(args []string) {
	period, err1 := time.ParseDuration(args[0])
	window, err2 := time.ParseDuration(args[1])
	if err1 != nil || err2 != nil {
		os.Exit(3)
	}
	cmd := metrics.MetricsCommand{
		PromQCommand: cli.PromQCommand{RestConfig: &rest.Config{Host: "http://127.0.0.1:1"}, Streams: genericclioptions.IOStreams{In: os.Stdin, Out: os.Stdout, ErrOut: os.Stderr}},
		Period:       period,
		Window:       window,
	}
	if err := cmd.Run(cli.PromQFlags{Continuous: true, PromQuery: args[2], HostNames: args[3:]}); err != nil {
		os.Exit(1)
	}
}

// braille counts the graph's dots' cells by colour.
func (t *xterm) braille() map[int]int {
	t.mu.Lock()
	defer t.mu.Unlock()
	out := map[int]int{}
	for _, row := range t.cells {
		for _, c := range row {
			if c.r > 0x2800 && c.r <= 0x28ff {
				out[c.fg]++
			}
		}
	}
	return out
}

// legend reads the key: the titles and their colours (one row each, in a wide terminal).
func (t *xterm) legend() (titles []string, colours []int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for _, row := range t.cells {
		if row[0].r != '•' {
			continue
		}
		var sb strings.Builder
		// the key is at most a fifth of the screen wide
		for x := 2; x < len(row)/5; x++ {
			if row[x].r != 0 && row[x].fg == row[0].fg || row[x].r == ' ' {
				sb.WriteRune(row[x].r)
			} else if row[x].r != 0 {
				break
			}
		}
		titles = append(titles, strings.TrimRight(sb.String(), " "))
		colours = append(colours, row[0].fg)
	}
	return
}

// axes reads the labels of the graph's axes: those of values, and those of
// times (which are written downwards).
func (t *xterm) axes() (values, times []string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for y, row := range t.cells {
		for x, cell := range row {
			switch cell.r {
			case '┨':
				lbl := ""
				for k := x - 1; k >= 0 && row[k].fg == -1 && row[k].r > ' '; k-- {
					lbl = string(row[k].r) + lbl
				}
				values = append(values, lbl)
			case '┯':
				lbl := ""
				for k := y + 1; k <= y+5 && k < len(t.cells) && x < len(t.cells[k]) && (t.cells[k][x].r == ':' || t.cells[k][x].r >= '0' && t.cells[k][x].r <= '9'); k++ {
					lbl += string(t.cells[k][x].r)
				}
				times = append(times, lbl)
			}
		}
	}
	return
}

// axesWrong judges the axes of a graph of constant series, drawn some seconds
// ago at most, that shows a minute.
func axesWrong(t *xterm, lo, hi float64) string {
	values, times := t.axes()
	min, max := math.Inf(1), math.Inf(-1)
	for _, v := range values {
		f, err := strconv.ParseFloat(v, 64)
		if err != nil {
			return fmt.Sprintf("a value labelled %q (%q)", v, values)
		}
		min, max = math.Min(min, f), math.Max(max, f)
	}
	if min != lo || max != hi {
		return fmt.Sprintf("the axis of values is labelled %q, but the values are %g to %g", values, lo, hi)
	}
	now := time.Now()
	for _, x := range times {
		m, err := time.Parse("04:05", x)
		if err != nil {
			return fmt.Sprintf("a time labelled %q (%q)", x, times)
		}
		ago := ((now.Minute()-m.Minute())*60 + now.Second() - m.Second() + 3600) % 3600
		if ago > 75 && ago < 3598 {
			return fmt.Sprintf("a time labelled %q at %s (%q)", x, now.Format("04:05"), times)
		}
	}
	return ""
}

func c31(c *h.Ctx) {
	c.Rule("the real program, built with the race detector, on a pseudo terminal with a terminal emulator behind it, against loopback targets: queries given on the command line or typed, changed, malformed ones, unknown commands, completions asked for, the terminal resized, targets that fail for a while, then the end; recorded: the prompt, messages, the legend (exactly the query's series, each in the colour its dots have), dots, what the layout does after a resize, that it asks the targets again and again and no longer after the end, exit status, that the terminal is given back, and races. Non-trivial: at least two queries, or a resize")
	c.Assume("a wait of 60 s counts as never")
	if promqBin == "" {
		c.Inconclusive("no program to run")
		return
	}
	ts := newTargetServer()
	defer ts.srv.Close()
	const par = 6
	c.Cases("starts", c.N(80, 1600), func(i int, r *rand.Rand) {
		quickStart(c, r, ts, fmt.Sprintf("q%d", i))
	})
	c.Cases("windows", c.N(8, 80), func(i int, r *rand.Rand) {
		all := []struct{ window, period time.Duration }{
			{20 * time.Second, 200 * time.Millisecond}, {59 * time.Second, time.Second},
			{time.Minute, 500 * time.Millisecond}, {59*time.Minute + 59*time.Second, time.Second},
			{time.Hour, time.Second}, {23*time.Hour + 59*time.Minute, 2 * time.Second},
			{24 * time.Hour, 2 * time.Second}, {239 * time.Hour, 4 * time.Second},
			{240 * time.Hour, 4 * time.Second}, {700 * time.Hour, 8 * time.Second},
		}
		var wg sync.WaitGroup
		for k, j := range r.Perm(len(all))[:4] {
			k, w := k, all[j]
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				windowSession(c, rr, ts, fmt.Sprintf("w%dx%d", i, k), w.window, w.period)
			}()
		}
		fin := make(chan struct{})
		go func() { wg.Wait(); close(fin) }()
		for started := time.Now(); ; {
			select {
			case <-fin:
				return
			case <-time.After(time.Second):
				c.Desc("window sessions running for %v", time.Since(started).Round(time.Second))
			}
		}
	})
	c.Cases("steady", c.N(8, 40), func(i int, r *rand.Rand) {
		fin := make(chan struct{})
		go func() { defer close(fin); steadySession(c, r, ts, fmt.Sprintf("y%d", i)) }()
		for started := time.Now(); ; {
			select {
			case <-fin:
				return
			case <-time.After(time.Second):
				c.Desc("steady session running for %v", time.Since(started).Round(time.Second))
			}
		}
	})
	c.Cases("failing", c.N(8, 40), func(i int, r *rand.Rand) {
		fin := make(chan struct{})
		go func() { defer close(fin); failingSession(c, r, i) }()
		for started := time.Now(); ; {
			select {
			case <-fin:
				return
			case <-time.After(time.Second):
				c.Desc("session with a failing target running for %v", time.Since(started).Round(time.Second))
			}
		}
	})
	c.Cases("sessions", c.N(24, 320), func(i int, r *rand.Rand) {
		var wg sync.WaitGroup
		started := time.Now()
		type out struct{ sig, det, desc string }
		res := make([]out, par)
		for k := 0; k < par; k++ {
			k := k
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				sig, det, desc := interactive(c, rr, ts, fmt.Sprintf("i%dx%d", i, k))
				res[k] = out{sig, det, desc}
			}()
		}
		// not blocked in Wait: to the harness that would look like a deadlock
		fin := make(chan struct{})
		go func() { wg.Wait(); close(fin) }()
		for over := false; !over; {
			select {
			case <-fin:
				over = true
			case <-time.After(time.Second):
				c.Desc("sessions running for %v", time.Since(started).Round(time.Second))
			}
		}
		for _, o := range res {
			if o.sig == "harness" {
				c.Inconclusive("%s", o.det)
				continue
			}
			if o.sig != "" {
				c.Violation(o.sig, "%s\nsession: %s", o.det, o.desc)
			}
			c.Eval(o.desc, strings.Count(o.desc, "query") > 1 || strings.Contains(o.desc, "resize"))
			c.Count("sessions", 1)
			if c.WantSample() {
				c.Sample("%s", o.desc)
			}
		}
	})
}

// steadySession: values that have left the window keep their place on the axis
// of values for as long as the query is in force.
func steadySession(c *h.Ctx, r *rand.Rand, ts *targetServer, id string) {
	dir, err := os.MkdirTemp(c.Bin, "promq")
	if err != nil {
		c.Inconclusive("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	window := time.Duration(4+r.Intn(5)) * time.Second
	was, is := float64(100+r.Intn(900)), float64(1+r.Intn(50))
	if r.Intn(2) == 0 {
		was = -was
	}
	lo, hi := math.Min(was, is), math.Max(was, is)
	tg := &target{path: "/" + id + "/metrics", base: time.Now()}
	tg.url = ts.srv.URL + tg.path
	tg.series = []tseries{
		{labels: map[string]string{labels.MetricName: "m"}, vals: [2]float64{was, was}, age: 60 * time.Second},
		{labels: map[string]string{labels.MetricName: "m"}, vals: [2]float64{is, is}, age: -1},
	}
	ts.mu.Lock()
	ts.by[tg.path] = tg
	ts.mu.Unlock()
	period := 250 * time.Millisecond
	desc := fmt.Sprintf("interactive session with window %v of a metric that was %g a minute ago and is %g since", window, was, is)
	p, err := startPTY(100+r.Intn(100), 36+r.Intn(12), promqEnv(dir), dir, os.Args[0], "interactive", period.String(), window.String(), "sum(m)", tg.url)
	if err != nil {
		c.Inconclusive("no pseudo terminal: %v", err)
		return
	}
	defer p.kill()
	limits := func() (min, max float64, n int) {
		values, _ := p.t.axes()
		min, max = math.Inf(1), math.Inf(-1)
		for _, v := range values {
			if f, err := strconv.ParseFloat(v, 64); err == nil {
				min, max = math.Min(min, f), math.Max(max, f)
				n++
			}
		}
		return
	}
	both := func() bool { a, b, _ := limits(); return a == lo && b == hi }
	if !waitFor(func() bool { return both() || p.exited() }) || p.exited() {
		// a busy machine may have been late
		c.Count("steady_sessions_too_late", 1)
		return
	}
	gone := time.Now().Add(window + 3*time.Second)
	bad, checked, since := "", 0, time.Now()
	waitFor(func() bool {
		a, b, n := limits()
		if n == 0 { // between clearing and drawing
			return p.exited()
		}
		if a != lo || b != hi {
			if bad == "" { // may be half drawn
				since = time.Now()
			}
			bad = fmt.Sprintf("the axis goes from %g to %g, which were %g and %g", a, b, lo, hi)
			return time.Since(since) > 3*time.Second || p.exited()
		}
		bad = ""
		checked++
		return time.Now().After(gone) || p.exited()
	})
	if bad != "" || p.exited() {
		c.Violation("axis-shrinks", "%s\n%s (exited: %v)\n%s", desc, bad, p.exited(), p.t.text())
		return
	}
	c.Count("steady_axes_checked", checked)
	// with another query it starts afresh
	for try := 0; ; try++ {
		p.send(fmt.Sprintf("sum(m) + %d\r", try*0))
		until := time.Now().Add(15 * time.Second)
		fresh := func() bool { a, b, _ := limits(); return a == is && b == is }
		if !waitFor(func() bool { return fresh() || p.exited() || time.Now().After(until) }) || p.exited() || !fresh() && try == 3 {
			a, b, _ := limits()
			c.Violation("axis-kept", "%s\nafter another query the axis goes from %g to %g (exited: %v)\n%s", desc, a, b, p.exited(), p.t.text())
			return
		}
		if fresh() {
			break
		}
	}
	p.send(":quit\r")
	if !waitFor(p.exited) {
		c.Violation("no-exit", "%s\n:quit doesn't end it\n%s", desc, p.t.text())
		return
	}
	c.Eval(desc, true)
	c.Count("steady_sessions", 1)
}

// quickStart runs a session with hardly any time between scrapes: the first
// ones come while the session is still being set up.
func quickStart(c *h.Ctx, r *rand.Rand, ts *targetServer, id string) {
	dir, err := os.MkdirTemp(c.Bin, "promq")
	if err != nil {
		c.Inconclusive("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	tg := &target{path: "/" + id + "/metrics", base: time.Now()}
	tg.url = ts.srv.URL + tg.path
	tg.series = []tseries{{labels: map[string]string{labels.MetricName: "alpha_total", "zone": "z"}, vals: [2]float64{1, 1}, age: -1}}
	ts.mu.Lock()
	ts.by[tg.path] = tg
	ts.mu.Unlock()
	period := time.Duration(1+r.Intn(20000)) * time.Microsecond
	window := []time.Duration{500 * time.Millisecond, time.Second, time.Minute}[r.Intn(3)]
	query := []string{"", "alpha_total"}[r.Intn(2)]
	desc := fmt.Sprintf("interactive session with period %v, window %v, query %q", period, window, query)
	c.Desc("%s", desc)
	p, err := startPTY(150+r.Intn(50), 30+r.Intn(20), promqEnv(dir), dir, os.Args[0], "interactive", period.String(), window.String(), query, tg.url)
	if err != nil {
		c.Inconclusive("no pseudo terminal: %v", err)
		return
	}
	defer p.kill()
	hits := func() int {
		tg.mu.Lock()
		defer tg.mu.Unlock()
		return tg.hits
	}
	wait := func(cond func() bool) bool {
		return waitFor(func() bool { return cond() || p.exited() }) && !p.exited()
	}
	n := 1 + r.Intn(6)
	want := 2
	if query != "" {
		want = 1 // below the query
	}
	if !wait(func() bool {
		return strings.Count(p.t.text(), ">>>\n") == want && hits() >= n && (query == "" || p.t.shows("Plotting"))
	}) {
		c.Violation("bad-start", "%s\nno prompt, or no scrapes (%d seen); exited: %v (%v)\n%s", desc, hits(), p.exited(), p.err, p.t.text())
		return
	}
	p.send(":quit\r")
	if !waitFor(p.exited) {
		c.Violation("no-exit", "%s\n:quit doesn't end it\n%s", desc, p.t.text())
		return
	}
	if p.err != nil {
		c.Violation("wrong-exit", "%s\nended with %v", desc, p.err)
		return
	}
	c.Eval(desc, true)
	c.Count("quick_starts", 1)
}

// failingSession: a target that fails hundreds of times costs the session
// neither connections nor files, and once it answers again it's plotted.
func failingSession(c *h.Ctx, r *rand.Rand, i int) {
	dir, err := os.MkdirTemp(c.Bin, "promq")
	if err != nil {
		c.Inconclusive("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	var hits, open, value atomic.Int64
	var failing atomic.Bool
	way := i % 4
	text := strings.Repeat("no, ", 1+r.Intn(8000))
	value.Store(1)
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		hits.Add(1)
		if failing.Load() {
			switch way {
			case 0:
				http.Error(w, text, 500)
			case 1:
				http.Error(w, text, 404)
			case 2:
				fmt.Fprintf(w, "m 1\n%s\n", text)
			case 3:
				w.Header().Set("Content-Length", fmt.Sprint(len(text)+10))
				fmt.Fprint(w, text)
			}
			return
		}
		fmt.Fprintf(w, "m %d\n", value.Load())
	}))
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	srv.Config.ConnState = func(_ net.Conn, st http.ConnState) {
		switch st {
		case http.StateNew:
			open.Add(1)
		case http.StateClosed, http.StateHijacked:
			open.Add(-1)
		}
	}
	srv.Start()
	defer srv.Close()
	how := []string{"answers with 500", "answers with 404", "sends no exposition", "cuts its answers short"}[way]
	desc := fmt.Sprintf("interactive session whose target %s for a while (%d bytes)", how, len(text))
	p, err := startPTY(100+r.Intn(100), 36+r.Intn(12), promqEnv(dir), dir, os.Args[0], "interactive", "10ms", "5s", "m", srv.URL+"/metrics")
	if err != nil {
		c.Inconclusive("no pseudo terminal: %v", err)
		return
	}
	defer p.kill()
	plotted := func(v float64) func() bool {
		return func() bool {
			values, _ := p.t.axes()
			for _, s := range values {
				if f, err := strconv.ParseFloat(s, 64); err == nil && f == v {
					return true
				}
			}
			return p.exited()
		}
	}
	if !waitFor(plotted(1)) || p.exited() {
		c.Violation("not-plotted", "%s\nat first nothing is plotted (exited: %v)\n%s", desc, p.exited(), p.t.text())
		return
	}
	files := func() int {
		es, _ := os.ReadDir(fmt.Sprintf("/proc/%d/fd", p.cmd.Process.Pid))
		return len(es)
	}
	filesBefore, openBefore := files(), open.Load()
	failing.Store(true)
	from := hits.Load()
	waitFor(func() bool { return hits.Load()-from > 250 || p.exited() })
	n := hits.Load() - from
	// what's no longer in use may take its time to go
	var files2 int
	var open2 int64
	good := waitFor20(func() bool {
		files2, open2 = files(), open.Load()
		return files2 <= filesBefore+40 && open2 <= openBefore+40 || p.exited()
	})
	if p.exited() {
		c.Violation("died", "%s\nit ended\n%s", desc, p.t.text())
		return
	}
	if n > 120 && !good {
		c.Violation("connections-kept", "%s\nafter %d failed requests it holds %d files and connections (%d before), the target has %d open connections (%d before)", desc, n, files2, filesBefore, open2, openBefore)
		return
	}
	value.Store(7)
	failing.Store(false)
	if !waitFor(plotted(7)) || p.exited() {
		c.Violation("not-recovered", "%s\nits target answers again, but isn't plotted (exited: %v)\n%s", desc, p.exited(), p.t.text())
		return
	}
	p.send(":quit\r")
	if !waitFor(p.exited) {
		c.Violation("no-exit", "%s\n:quit doesn't end it\n%s", desc, p.t.text())
		return
	}
	c.Eval(desc, true)
	c.Count("failed_requests", int(n))
}

// waitFor20 is waitFor for what should happen at once.
func waitFor20(cond func() bool) bool {
	dl := time.Now().Add(20 * time.Second)
	for !cond() {
		if time.Now().After(dl) {
			return false
		}
		time.Sleep(20 * time.Millisecond)
	}
	return true
}

// windowSession checks the notation of times on the axis for a window.
func windowSession(c *h.Ctx, r *rand.Rand, ts *targetServer, id string, window, period time.Duration) {
	dir, err := os.MkdirTemp(c.Bin, "promq")
	if err != nil {
		c.Inconclusive("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	tg := &target{path: "/" + id + "/metrics", base: time.Now()}
	tg.url = ts.srv.URL + tg.path
	tg.series = []tseries{{labels: map[string]string{labels.MetricName: "alpha_total", "zone": "z"}, vals: [2]float64{1, 2}, age: -1}}
	ts.mu.Lock()
	ts.by[tg.path] = tg
	ts.mu.Unlock()
	desc := fmt.Sprintf("interactive session with period %v, window %v", period, window)
	rows := 36 + r.Intn(12)
	p, err := startPTY(100+r.Intn(100), rows, promqEnv(dir), dir, os.Args[0], "interactive", period.String(), window.String(), "alpha_total", tg.url)
	if err != nil {
		c.Inconclusive("no pseudo terminal: %v", err)
		return
	}
	defer p.kill()
	layout := ""
	switch {
	case window >= 240*time.Hour:
		layout = "Jan _2"
	case window >= 24*time.Hour:
		layout = "_2 15h"
	case window >= time.Hour:
		layout = "15:04"
	case window >= time.Minute:
		layout = "04:05"
	}
	begun := time.Now()
	wrong := "no time is labelled"
	seen := 0
	good := waitFor(func() bool {
		if p.exited() {
			wrong = "it ended"
			return true
		}
		p.t.mu.Lock()
		defer p.t.mu.Unlock()
		now := time.Now()
		n := 0
		for y, row := range p.t.cells {
			for x, cell := range row {
				if cell.r != '┯' {
					continue
				}
				n++
				want := len(layout)
				if layout == "" {
					want = len("1600000000000ms")
				}
				got := ""
				for k := y + 1; k <= y+want && k < len(p.t.cells); k++ {
					got += string(p.t.cells[k][x].r)
				}
				ok := false
				if layout == "" {
					ms, err := strconv.ParseInt(strings.TrimSuffix(got, "ms"), 10, 64)
					ago := now.UnixNano()/1e6 - ms
					ok = err == nil && strings.HasSuffix(got, "ms") && ago >= -1000 && ago <= now.Sub(begun).Milliseconds()+int64(window/time.Millisecond)+2000
				} else {
					for d := -time.Second; d < now.Sub(begun)+15*time.Second && !ok; d += time.Second {
						ok = now.Add(-d).Format(layout) == got
					}
				}
				if !ok {
					wrong = fmt.Sprintf("a time is labelled %q at %s", got, now.Format(time.RFC3339))
					return false
				}
				// the prompt begins right below the labels
				for k := y + 1; k < len(p.t.cells); k++ {
					if p.t.cells[k][0].r == '>' && p.t.cells[k][1].r == '>' && k != y+want+1 {
						wrong = fmt.Sprintf("a label from row %d takes %d rows instead of %d", y+1, k-y-1, want)
						return false
					} else if p.t.cells[k][0].r == '>' {
						break
					}
				}
			}
		}
		if n > 0 {
			seen++
			wrong = ""
		}
		return seen >= 3 && p.t.cells != nil
	})
	if !good || wrong != "" {
		c.Violation("wrong-times", "%s\n%s\n%s", desc, wrong, p.t.text())
		return
	}
	p.send(":quit\r")
	if !waitFor(p.exited) {
		c.Violation("no-exit", "%s\n:quit doesn't end it\n%s", desc, p.t.text())
		return
	}
	c.Eval(desc, true)
	c.Count("window_sessions", 1)
}

func interactive(c *h.Ctx, r *rand.Rand, ts *targetServer, id string) (sig, det, desc string) {
	var hist []string
	note := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
	dir, err := os.MkdirTemp(c.Bin, "promq")
	if err != nil {
		return "harness", err.Error(), ""
	}
	defer os.RemoveAll(dir)
	tg := &target{path: "/" + id + "/metrics", base: time.Now()}
	tg.url = ts.srv.URL + tg.path
	// three metrics with well separated values
	mk := func(name string, val float64, kv ...string) tseries {
		m := map[string]string{labels.MetricName: name}
		for k := 0; k < len(kv); k += 2 {
			m[kv[k]] = kv[k+1]
		}
		return tseries{labels: m, vals: [2]float64{val, val}, age: -1}
	}
	vals := []float64{0, 50, 100}
	r.Shuffle(3, func(a, b int) { vals[a], vals[b] = vals[b], vals[a] })
	top := 0
	for vals[top] != 100 {
		top++
	}
	tag := fmt.Sprint(r.Intn(1000))
	widest := 12 + r.Intn(20) // characters a legend entry can have
	if r.Intn(2) == 0 {
		// what is longer than the default size of the legend
		tag += strings.Repeat("x", r.Intn(widest-len(tag)-5))
	}
	width := func() int { return (widest+3)*5 + r.Intn(60) }
	beta := float64(r.Intn(100))
	tg.series = []tseries{
		mk("alpha_total", vals[0], "zone", "za"+tag),
		mk("alpha_total", vals[1], "zone", "zb"),
		mk("alpha_total", vals[2], "zone", "é日"),
		mk("beta", beta, "job", "j"+tag),
	}
	ts.mu.Lock()
	ts.by[tg.path] = tg
	ts.mu.Unlock()
	setFault := func(f fault) {
		tg.mu.Lock()
		tg.fault, tg.from, tg.status = f, 0, 503
		tg.mu.Unlock()
	}
	hits := func() int {
		tg.mu.Lock()
		defer tg.mu.Unlock()
		return tg.hits
	}
	queries := []struct {
		q      string
		want   []string
		lo, hi float64
	}{
		{"sum by (zone) (alpha_total)", []string{"za" + tag, "zb", "é日"}, 0, 100},
		{"sum by (zone) (alpha_total{zone!=\"zb\"})", []string{"za" + tag, "é日"}, math.Min(vals[0], vals[2]), math.Max(vals[0], vals[2])},
		{"max by (zone)(alpha_total)", []string{"za" + tag, "zb", "é日"}, 0, 100},
		{"sum by (job) (beta)", []string{"j" + tag}, beta, beta},
		{"count by (__name__) (beta)", []string{"beta"}, 1, 1},
		{"sum by (zone) (alpha_total{zone=\"zb\"})", []string{"zb"}, vals[1], vals[1]},
		{"-1000*sum by (zone) (alpha_total)", []string{"za" + tag, "zb", "é日"}, -100000, 0},
		{"nothing_here", nil, 0, 0},
		{"2*3", []string{""}, 6, 6},
		{"sum by (zone) (max_over_time(alpha_total[1m:1s]))", []string{"za" + tag, "zb", "é日"}, 0, 100},
		{"topk(1, sum by (zone) (alpha_total offset 1s))", []string{[]string{"za" + tag, "zb", "é日"}[top]}, 100, 100},
	}
	w, ht := width(), 30+r.Intn(20)
	args := []string{"-c", "-t", tg.url}
	current := -1
	if r.Intn(2) == 0 {
		current = r.Intn(len(queries))
		args = append(args, "-q", queries[current].q)
		note("query %q on the command line", queries[current].q)
	}
	if err := writeKubeconfig(dir, "http://127.0.0.1:1"); err != nil {
		return "harness", err.Error(), ""
	}
	logEnv, _, logMode := logSetup(r, dir)
	note("%s", logMode)
	before := tree(dir)
	p, err := startPTY(w, ht, promqEnv(dir, logEnv...), dir, promqBin, args...)
	if err != nil {
		return "harness", "no pseudo terminal: " + err.Error(), ""
	}
	defer p.kill()
	fail := func(sg, f string, a ...any) (string, string, string) {
		p.t.mu.Lock()
		u := p.t.unknown
		p.t.mu.Unlock()
		return sg, fmt.Sprintf(f, a...) + fmt.Sprintf("\nexited: %v (%v)\nterminal %dx%d (unknown sequences %v):\n%s", p.exited(), p.err, w, ht, u, p.t.text()), strings.Join(hist, "; ")
	}
	wait := func(cond func() bool) bool {
		return waitFor(func() bool { return cond() || p.exited() }) && !p.exited()
	}
	if !wait(func() bool { return p.t.shows(">>>") }) {
		return fail("no-prompt", "the prompt isn't shown")
	}
	legendOK := func() string {
		titles, cols := p.t.legend()
		want := []string(nil)
		if current >= 0 {
			want = queries[current].want
		}
		if len(titles) != len(want) {
			return fmt.Sprintf("legend %q, must be %q", titles, want)
		}
		left := map[string]bool{}
		for _, x := range want {
			left[x] = true
		}
		for _, x := range titles {
			if !left[x] {
				return fmt.Sprintf("legend %q, must be %q", titles, want)
			}
			delete(left, x)
		}
		dots := p.t.braille()
		known := map[int]bool{}
		for k, col := range cols {
			known[col] = true
			if dots[col] == 0 {
				return fmt.Sprintf("no dots in the colour %d of %s (dots %v)", col, titles[k], dots)
			}
		}
		for col, n := range dots {
			if !known[col] {
				return fmt.Sprintf("%d cells of dots in colour %d, which no series has (legend %q %v)", n, col, titles, cols)
			}
		}
		return ""
	}
	settled := func() bool { return legendOK() == "" }
	gap := time.Duration(r.Intn(12)) * time.Millisecond
	enter := func(line string) { p.typeText(line, gap); p.send("\r") }
	plotting := func(q string) string { return fmt.Sprintf("Plotting %q...", q) }
	// the lines entered differ, so that answers can't be mistaken
	lines := 0
	entered := map[string]bool{}
	tagged := func(line string) string { lines++; return fmt.Sprintf("%s # %d", line, lines) }
	// answered: the line is there, the answer's beginning below it, and a new prompt
	answered := func(line, answer string) bool {
		rows := strings.Split(strings.TrimRight(p.t.text(), "\n"), "\n")
		for y := range rows {
			if rows[y] != strings.TrimRight(">>> "+line, " ") || y+2 >= len(rows) || !strings.HasPrefix(rows[y+1], answer) {
				continue
			}
			for _, row := range rows[y+2:] {
				if row == ">>>" {
					return true
				}
			}
		}
		return false
	}
	if current >= 0 {
		q := queries[current].q
		if !wait(func() bool { return answered(q, plotting(q)) }) {
			return fail("no-answer", "the query on the command line wasn't answered")
		}
	} else if !wait(func() bool { return strings.Count(p.t.text(), ">>>\n") == 2 }) {
		// the missing query is an empty line entered; what is typed before
		// that's over may be lost, as go-prompt loses type-ahead
		return fail("no-prompt", "the prompt isn't shown again after the initial empty line")
	}
	if !wait(settled) {
		return fail("wrong-graph", "%s", legendOK())
	}
	// An evaluation of the old query that is still going on when a query is
	// entered may leave its range of values behind, so entering the query
	// again is allowed to help.
	axesSettled := func() string {
		if current < 0 || len(queries[current].want) == 0 {
			return ""
		}
		c.Count("axes_checked", 1)
		lo, hi := queries[current].lo, queries[current].hi
		for try := 0; ; try++ {
			until := time.Now().Add(15 * time.Second)
			ok := func() bool { return legendOK() == "" && axesWrong(p.t, lo, hi) == "" }
			if !wait(func() bool { return ok() || time.Now().After(until) }) || ok() || try == 3 {
				return axesWrong(p.t, lo, hi)
			}
			c.Count("axes_retries", 1)
			q := tagged(queries[current].q)
			note("query %q again, as %s", q, axesWrong(p.t, lo, hi))
			enter(q)
			if !wait(func() bool { return answered(q, plotting(q)) && settled() }) {
				return "query " + q + " isn't plotted: " + legendOK()
			}
		}
	}
	if d := axesSettled(); d != "" {
		return fail("wrong-axes", "%s", d)
	}
	for n := 1 + r.Intn(4); n > 0; n-- {
		switch r.Intn(9) {
		case 0, 1, 2:
			current = r.Intn(len(queries))
			q := tagged(queries[current].q)
			note("query %q", q)
			enter(q)
			if !wait(func() bool { return answered(q, plotting(q)) }) {
				return fail("no-answer", "query %q wasn't answered", q)
			}
			if !wait(settled) {
				return fail("wrong-graph", "after query %q: %s", q, legendOK())
			}
			if d := axesSettled(); d != "" {
				return fail("wrong-axes", "after query %q: %s", q, d)
			}
			c.Count("graphs_checked", 1)
		case 3:
			bad := tagged(pick(r, []string{"sum(", "alpha_total{", "1 +", "rate(beta)", "foo bar", "quit()", "0x", "alpha_total[5m]]"}))
			note("malformed %q", bad)
			enter(bad)
			if !wait(func() bool { return answered(bad, "Unable to set query") }) {
				return fail("no-answer", "malformed query %q wasn't answered", bad)
			}
			if !wait(settled) { // stays as it was
				return fail("wrong-graph", "after malformed %q: %s", bad, legendOK())
			}
		case 4:
			if r.Intn(2) == 0 { // exactly this, so only once
				cmd := pick(r, []string{":exit", ":quit ", ":Q", ":", ":q!", ": q", ":qu", ":q ", ":quit;", ":help", ":QUIT", "::q"})
				if !entered[cmd] {
					entered[cmd] = true
					note("command %q", cmd)
					enter(cmd)
					msg := fmt.Sprintf("no known command %q (hint: try %q)", cmd, ":quit")
					if !wait(func() bool { return answered(cmd, msg[:min(len(msg), w-1)]) }) {
						return fail("no-answer", "command %q wasn't answered", cmd)
					}
					c.Count("commands_refused", 1)
				}
			} else if q := pick(r, []string{"quit", "q", "exit"}); !entered[q] { // a query
				entered[q] = true
				current = -1
				note("query %q", q)
				enter(q)
				if !wait(func() bool { return answered(q, plotting(q)) }) {
					return fail("no-answer", "query %q wasn't answered", q)
				}
				if !wait(settled) {
					return fail("wrong-graph", "after query %q: %s", q, legendOK())
				}
			}
			for m := 1 + r.Intn(3); m > 0; m-- {
				lines++
				cmd := []string{":help", ":quitt", ":", ":Q", ":q", ":quit ", ":help me with these queries, please ", ": quit", ":QUIT", "::quit", ":quit " + strings.Repeat("x", r.Intn(20))}[r.Intn(11)] + fmt.Sprint(lines)
				note("command %q", cmd)
				enter(cmd)
				// in one row, or in two
				msg := fmt.Sprintf("no known command %q (hint: try %q)", cmd, ":quit")
				if !wait(func() bool { return answered(cmd, msg[:min(len(msg), w-1)]) }) {
					return fail("no-answer", "command %q wasn't answered", cmd)
				}
				c.Count("commands_refused", 1)
			}
		case 5:
			w, ht = width(), 30+r.Intn(20)
			note("resize to %dx%d", w, ht)
			p.resize(w, ht)
			if !wait(func() bool {
				if legendOK() != "" {
					return false
				}
				// the prompt is in the last nine rows
				rows := strings.Split(p.t.text(), "\n")
				for y, row := range rows {
					if strings.Contains(row, ">>>") && y < ht-9 {
						return false
					}
				}
				return p.t.shows(">>>")
			}) {
				return fail("wrong-layout", "after the resize: %s", legendOK())
			}
		case 6:
			note("target fails for a while")
			setFault([]fault{badStatus, closedEarly, malformed, cutBody}[r.Intn(4)])
			n0 := hits()
			if !wait(func() bool { return hits() >= n0+2 }) {
				return fail("no-scrape", "the failing target isn't asked again")
			}
			setFault(noFault)
			n0 = hits()
			if !wait(func() bool { return hits() >= n0+2 }) {
				return fail("no-scrape", "the target isn't asked again after its failure")
			}
			if !wait(settled) {
				return fail("wrong-graph", "after the failure: %s", legendOK())
			}
		case 7:
			note("completion of alp")
			if !wait(func() bool { return hits() >= 2 }) { // the first scrape is over
				return fail("no-scrape", "the target isn't asked")
			}
			p.typeText("alp", gap)
			if !wait(func() bool { return p.t.shows("alpha_total") && p.t.shows("alp") }) {
				return fail("no-completion", "alpha_total isn't offered for \"alp\"")
			}
			p.send("\x7f\x7f\x7f")
			// erased before anything else is typed
			if !wait(func() bool {
				rows := strings.Split(strings.TrimRight(p.t.text(), "\n"), "\n")
				lastP := ""
				for _, row := range rows {
					if strings.Contains(row, ">>>") {
						lastP = row
					}
				}
				return strings.TrimSpace(lastP) == ">>>"
			}) {
				return fail("not-erased", "the text isn't erased")
			}
		case 8:
			// a completion accepted in the middle of a query
			typed := []string{"alpha_total*0+sum(alpha_t", "0+bet", "alpha_total{zone=\"é日\"}-alpha_", "0*alpha_total{zone=\"zb\"}/alpha_t"}[r.Intn(4)]
			full := typed[:strings.LastIndexAny(typed, "+-/(")+1] + map[byte]string{'a': "alpha_total", 'b': "beta"}[typed[strings.LastIndexAny(typed, "+-/(")+1]]
			note("completion of %q accepted", typed)
			if !wait(func() bool { return hits() >= 2 }) {
				return fail("no-scrape", "the target isn't asked")
			}
			p.typeText(typed, gap)
			if !wait(func() bool { return p.t.shows(">>> " + typed) }) {
				return fail("not-typed", "%q isn't shown", typed)
			}
			p.send("\t")
			if !wait(func() bool { return p.t.shows(">>> " + full) }) {
				return fail("no-preview", "the completion %q isn't shown for %q", full, typed)
			}
			p.typeText(" ", gap)
			if !wait(func() bool { return p.t.shows(">>> " + full) }) {
				return fail("not-accepted", "after accepting the completion of %q, %q isn't there", typed, full)
			}
			p.send("\x15") // and all of it is erased
			if !wait(func() bool {
				lastP := ""
				for _, row := range strings.Split(strings.TrimRight(p.t.text(), "\n"), "\n") {
					if strings.Contains(row, ">>>") {
						lastP = row
					}
				}
				return strings.TrimSpace(lastP) == ">>>"
			}) {
				return fail("not-erased", "the text isn't erased")
			}
			c.Count("completions_accepted", 1)
		}
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(1200)) * time.Millisecond)
		}
	}
	if d := axesSettled(); d != "" {
		return fail("wrong-axes", "in the end: %s", d)
	}
	n0 := hits()
	if !wait(func() bool { return hits() > n0 }) {
		return fail("no-scrape", "the target isn't asked any more")
	}
	quit := []string{":quit", ":q"}[r.Intn(2)]
	note("%s", quit)
	enter(quit)
	if !waitFor(p.exited) || !p.waitExit(time.Second) {
		return fail("no-exit", "%s doesn't end the program", quit)
	}
	n0 = hits()
	if p.err != nil {
		return fail("wrong-exit", "the program ended with %v", p.err)
	}
	p.t.mu.Lock()
	alt, cur, ent, out := p.t.alt, p.t.cursorOn, p.t.altEntered, p.t.outside
	p.t.mu.Unlock()
	if alt || !cur || ent != 1 {
		return fail("terminal-left", "at the end: alternate screen %v (entered %d times), cursor visible %v", alt, ent, cur)
	}
	if out > 0 && !strings.Contains(strings.Join(hist, " "), "resize") {
		return fail("outside", "%d characters were written outside the screen", out)
	}
	if d, _ := logsOK(before, tree(dir), logMode); d != "" {
		return fail("files", "%s", d)
	}
	c.Count("scrapes", n0)
	return "", "", strings.Join(hist, "; ")
}

func init() { h.Register(h.Check{ID: "C31", Fn: c31, Race: true}) }
