package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"

	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
	"sigs.k8s.io/instrumentation-tools/promq/prom"

	"verif/harness/h"
)

func init() {
	h.Register(h.Check{ID: "C07", Fn: c07, Race: true})
	h.Register(h.Check{ID: "C08", Fn: c08})
	h.Register(h.Check{ID: "C09", Fn: c09, Race: true})
}

// ---------------------------------------------------------------- C07

type refIndex map[string]map[string]map[string]bool

func (x refIndex) add(l labels.Labels) {
	n := l.Get(labels.MetricName)
	if n == "" {
		return
	}
	if x[n] == nil {
		x[n] = map[string]map[string]bool{}
	}
	for _, p := range l {
		if p.Name == labels.MetricName {
			continue
		}
		if x[n][p.Name] == nil {
			x[n][p.Name] = map[string]bool{}
		}
		x[n][p.Name][p.Value] = true
	}
}

func setKeys(s sets.String) []string {
	var out []string
	for k := range s {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func mkeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func checkIndex(c *h.Ctx, ix prom.Indexer, ref refIndex, when string) bool {
	if g, w := setKeys(ix.GetMetricNames()), mkeys(ref); !sameStrings(g, w) {
		c.Violation("metric-names", "%s: metric names %q, must be %q", when, g, w)
		return false
	}
	for _, m := range append(mkeys(ref), "absent_metric") {
		if g, w := setKeys(ix.GetStoredDimensionsForMetric(m)), mkeys(ref[m]); !sameStrings(g, w) {
			c.Violation("dimensions", "%s: labels of %s: %q, must be %q", when, m, g, w)
			return false
		}
		for _, d := range append(mkeys(ref[m]), "absent_label", labels.MetricName) {
			if g, w := setKeys(ix.GetStoredValuesForMetricAndDimension(m, d)), mkeys(ref[m][d]); !sameStrings(g, w) {
				c.Violation("values", "%s: values of %s.%s: %q, must be %q", when, m, d, g, w)
				return false
			}
		}
		c.Count("metrics_compared", 1)
	}
	return true
}

// c07: the completion index is exactly what was ingested, for concurrent users too.
func c07(c *h.Ctx) {
	c.Rule("sequential: random update sequences compared with a model after each step, previously returned answers re-checked (no aliasing) and mutated; concurrent: updaters sharing series with readers under the race detector, every answer bounded below by the updates completed before the read and above by those started before its end; non-trivial: more than one metric and a repeated series / a read that overlapped an update")
	c.Cases("seq", c.N(3000, 40000), func(i int, r *rand.Rand) {
		ix := prom.NewIndex()
		ref := refIndex{}
		var log []string
		var pool []labels.Labels
		rep := false
		type snap struct {
			got  sets.String
			copy []string
		}
		var snaps []snap
		for k := 0; k < 1+r.Intn(25); k++ {
			var l labels.Labels
			if len(pool) > 0 && r.Intn(4) == 0 {
				l = pool[r.Intn(len(pool))]
				rep = true
			} else {
				l = genPlainLabels(r, 6) // the index knowingly takes colliding label hashes for one series
			}
			pool = append(pool, l)
			log = append(log, l.String())
			c.Desc("updates %v", log)
			ix.UpdateMetric(prom.ParsedSeries{Labels: l.Copy(), Value: 1, Timestamp: int64(k)})
			ref.add(l)
			for _, s := range snaps {
				if g := setKeys(s.got); !sameStrings(g, s.copy) {
					c.Violation("aliasing", "updates %v: an answer given earlier changed from %q to %q", log, s.copy, g)
					return
				}
			}
			if r.Intn(3) == 0 {
				if !checkIndex(c, ix, ref, fmt.Sprintf("after %v", log)) {
					return
				}
				n := l.Get(labels.MetricName)
				answers := []sets.String{ix.GetMetricNames(), ix.GetStoredDimensionsForMetric(n)}
				for _, lp := range l {
					answers = append(answers, ix.GetStoredValuesForMetricAndDimension(n, lp.Name))
				}
				if r.Intn(2) == 0 { // scribble on what was returned: it is the caller's
					for _, a := range answers {
						if a != nil {
							a.Insert("scribble")
							for k := range a {
								a.Delete(k)
								break
							}
						}
					}
					if !checkIndex(c, ix, ref, fmt.Sprintf("after the caller changed an answer, updates %v", log)) {
						return
					}
				} else {
					for _, a := range answers {
						snaps = append(snaps, snap{a, setKeys(a)})
					}
				}
			}
		}
		if !checkIndex(c, ix, ref, fmt.Sprintf("after %v", log)) {
			return
		}
		c.Eval(strings.Join(log, ";"), rep && len(ref) > 1)
		if rep && len(ref) > 1 && len(log) < 8 {
			c.Sample("%v", log)
		}
	})
	c.Cases("wide", c.N(60, 1500), func(i int, r *rand.Rand) {
		ix := prom.NewIndex()
		ref := refIndex{}
		hist, what := genWide(r)
		for bi, b := range hist {
			c.Desc("%s, batch %d", what, bi)
			for _, p := range b {
				ix.UpdateMetric(p)
				ref.add(p.Labels)
			}
			if !checkIndex(c, ix, ref, fmt.Sprintf("%s, after batch %d", what, bi)) {
				return
			}
		}
		c.Eval(fmt.Sprint("wide", i), len(ref) > 1)
	})
	c.Cases("concurrent", c.N(320, 6000), func(i int, r *rand.Rand) {
		ix := prom.NewIndex()
		// a small pool of series, shared by the updaters
		var pool []labels.Labels
		seen := map[string]bool{}
		for len(pool) < 12 {
			l := labels.FromStrings(labels.MetricName, []string{"m1", "m2"}[r.Intn(2)], "l", fmt.Sprint(r.Intn(6)), pick(r, []string{"x", "y"}), fmt.Sprint(r.Intn(4)))
			if !seen[lkey(l)] {
				seen[lkey(l)] = true
				pool = append(pool, l)
			}
		}
		started := make([]atomic.Int32, len(pool))
		done := make([]atomic.Int32, len(pool))
		nu, nr := 2+r.Intn(3), 2+r.Intn(2)
		var scripts [][]int
		for u := 0; u < nu; u++ {
			scripts = append(scripts, r.Perm(len(pool)))
		}
		start := make(chan struct{})
		stop := atomic.Bool{}
		var wg, wgr sync.WaitGroup
		for u := 0; u < nu; u++ {
			wg.Add(1)
			go func(u int) {
				defer wg.Done()
				<-start
				for _, k := range scripts[u] {
					started[k].Store(1)
					ix.UpdateMetric(prom.ParsedSeries{Labels: pool[k].Copy()})
					done[k].Store(1)
					if k%3 == 0 {
						runtime.Gosched()
					}
				}
			}(u)
		}
		overl := atomic.Int64{}
		for q := 0; q < nr; q++ {
			wgr.Add(1)
			go func(q int) {
				defer wgr.Done()
				<-start
				prev := map[string]bool{}
				for n := 0; n < 60 && !stop.Load(); n++ {
					lo, hi := refIndex{}, refIndex{}
					for k := range pool {
						if done[k].Load() == 1 {
							lo.add(pool[k])
						}
					}
					m := []string{"m1", "m2"}[(n+q)%2]
					var got []string
					var what string
					var project func(refIndex) []string
					switch n % 3 {
					case 0:
						what = "names"
						got = setKeys(ix.GetMetricNames())
						project = func(x refIndex) []string { return mkeys(x) }
					case 1:
						what = "labels of " + m
						got = setKeys(ix.GetStoredDimensionsForMetric(m))
						project = func(x refIndex) []string { return mkeys(x[m]) }
					default:
						what = "values of l of " + m
						got = setKeys(ix.GetStoredValuesForMetricAndDimension(m, "l"))
						project = func(x refIndex) []string { return mkeys(x[m]["l"]) }
					}
					anyRunning := false
					for k := range pool {
						if started[k].Load() == 1 {
							hi.add(pool[k])
							if done[k].Load() == 0 {
								anyRunning = true
							}
						}
					}
					if anyRunning {
						overl.Add(1)
					}
					g := sets.NewString(got...)
					for _, w := range project(lo) {
						if !g.Has(w) {
							c.Violation("lost-update", "%s: %q was ingested before the read began but is missing from %q", what, w, got)
							return
						}
					}
					h := sets.NewString(project(hi)...)
					for _, x := range got {
						if !h.Has(x) {
							c.Violation("phantom", "%s: %q reported before any such series was ingested", what, x)
							return
						}
						prev[what+"/"+x] = true
					}
					for k := range prev {
						if w, x, _ := strings.Cut(k, "/"); w == what && !g.Has(x) {
							c.Violation("shrink", "%s: %q disappeared", what, x)
							return
						}
					}
					c.Count("concurrent_reads", 1)
				}
			}(q)
		}
		close(start)
		wg.Wait()
		wgr.Wait()
		ref := refIndex{}
		for _, l := range pool {
			ref.add(l)
		}
		checkIndex(c, ix, ref, "after all concurrent updates")
		c.Count("reads_overlapping_an_update", int(overl.Load()))
		c.Eval(fmt.Sprint(i, scripts), true)
	})
}

// ---------------------------------------------------------------- C08

type ctxKey struct{}

type scriptSource struct {
	fn func(ctx context.Context, t time.Time) ([]prom.ParsedSeries, error)
}

func (s scriptSource) ScrapePrometheusEndpoint(ctx context.Context, t time.Time) ([]prom.ParsedSeries, error) {
	return s.fn(ctx, t)
}

var badQueries = []string{"", "sum(", "m{", "m{l=}", "rate(m)", "1 +", "m[5m", "nofunc(m)", "m{l=~\"(\"}", "sum by (", "\"", "))"}

// c08: a scrape is all or nothing and each scrape is followed by one evaluation of the current query.
func c08(c *h.Ctx) {
	c.Rule("random sequences of scrapes (succeeding, failing with and without partial data, failing callbacks), query changes (valid and invalid) and manual evaluations over a scripted data source, compared with a sequential model of data, index and current query; non-trivial: the sequence has a failed scrape, a rejected query and a later successful scrape")
	c.Cases("ops", c.N(2500, 40000), func(i int, r *rand.Rand) {
		ref := newRef()
		rix := refIndex{}
		var next func(context.Context, time.Time) ([]prom.ParsedSeries, error)
		pd := prom.NewPeriodicData(scriptSource{func(ctx context.Context, t time.Time) ([]prom.ParsedSeries, error) { return next(ctx, t) }}, prom.DefaultEngineOptions(time.Hour, 5_000_000))
		pd.Times = prom.Range{Instant: true, Window: time.Hour, Interval: time.Second}
		var log []string
		query, sel := "", []*labels.Matcher(nil)
		id := 0
		var got *promql.Result
		var gotStr string
		calls := 0
		var cbErr error
		cb := func(res *promql.Result) error {
			calls++
			got = res
			if res.Err == nil {
				gotStr, _ = canon(res)
			} else {
				gotStr = "error"
			}
			return cbErr
		}
		pd.Callback = cb
		broken := false
		expect := func() string {
			if broken {
				return "error"
			}
			var lines []string
			for _, rs := range ref.matching(sel) {
				l := rs.lset.String()
				for _, p := range rs.pts {
					l += fmt.Sprintf(" %d:%x", p.t, bitsN(p.v))
				}
				lines = append(lines, l)
			}
			sort.Strings(lines)
			return strings.Join(lines, "\n")
		}
		failed, rejected, okAfter := false, false, false
		base := time.Now().UnixMilli() - 60_000
		used := map[int64]bool{}
		mk := func() []prom.ParsedSeries {
			var b []prom.ParsedSeries
			n, ls, ks := r.Intn(6), []string{"a", "b", "c"}, []string{"x", "y"}
			if r.Intn(120) == 0 { // as much as real targets expose
				n = r.Intn(1500)
				for k := 0; k < n/2; k++ {
					ls = append(ls, fmt.Sprint("l", k))
				}
			}
			for k := 0; k < n; k++ {
				id++
				t := base + r.Int63n(40_000)
				for used[t] {
					t++
				}
				used[t] = true
				v := float64(id)
				if r.Intn(6) == 0 {
					v = []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), -v}[r.Intn(6)]
				}
				b = append(b, prom.ParsedSeries{Labels: labels.FromStrings(labels.MetricName, pick(r, []string{"m", "n"}), "l", pick(r, ls), "k", pick(r, ks)), Value: v, Timestamp: t})
			}
			return b
		}
		someErr := func(msg string) error {
			return []error{errors.New(msg), errors.New(msg), context.Canceled, context.DeadlineExceeded, io.EOF, fmt.Errorf("wrapped: %w", context.Canceled)}[r.Intn(6)]
		}
		for step := 0; step < 3+r.Intn(14); step++ {
			calls, got, gotStr, cbErr = 0, nil, "", nil
			ctx := context.WithValue(context.Background(), ctxKey{}, step)
			switch r.Intn(6) {
			case 0: // set a valid query
				var ms []*labels.Matcher
				n := pick(r, []string{"m", "n"})
				ms = append(ms, mustMatcher(labels.MatchEqual, labels.MetricName, n))
				q := n
				if r.Intn(2) == 0 {
					t := labels.MatchType(r.Intn(4))
					v := pick(r, []string{"a", "b", "c"})
					ms = append(ms, mustMatcher(t, "l", v))
					q += fmt.Sprintf("{l%s%q}", t, v)
				}
				q += "[1h]"
				if broken = r.Intn(8) == 0; broken { // valid, but can't be evaluated
					q = pick(r, []string{`label_replace(m, "0-9", "x", "k", ".*")`, `label_replace(n, "d", "x", "k", "(")`, `label_join(m, "~", ",", "k")`})
				}
				log = append(log, "query "+q)
				c.Desc("%v", log)
				if err := pd.SetQuery(ctx, q); err != nil {
					c.Violation("valid-rejected", "valid query %q rejected: %v", q, err)
					return
				}
				query, sel = q, ms
			case 1: // an invalid one
				q := badQueries[r.Intn(len(badQueries))]
				log = append(log, fmt.Sprintf("badquery %q", q))
				c.Desc("%v", log)
				if err := pd.SetQuery(ctx, q); err == nil {
					c.Violation("invalid-accepted", "invalid query %q accepted", q)
					return
				}
				rejected = true
			case 2: // failing scrape
				boom := someErr("boom")
				part := mk()
				next = func(context.Context, time.Time) ([]prom.ParsedSeries, error) { return part, boom }
				log = append(log, fmt.Sprintf("scrapefail(partial %d)", len(part)))
				c.Desc("%v", log)
				err := pd.Scrape(ctx)
				if err == nil || !errors.Is(err, boom) {
					c.Violation("scrape-error-lost", "%v: a failing source made Scrape return %v", log, err)
					return
				}
				if calls != 0 {
					c.Violation("callback-on-failure", "%v: the callback ran %d times for a failed scrape", log, calls)
					return
				}
				failed = true
			case 3, 4: // successful scrape
				b := mk()
				var seenCtx context.Context
				var seenT time.Time
				n := 0
				next = func(ctx context.Context, t time.Time) ([]prom.ParsedSeries, error) {
					n++
					seenCtx, seenT = ctx, t
					return b, nil
				}
				if query != "" && r.Intn(5) == 0 {
					cbErr = someErr("callback says no")
				}
				log = append(log, "scrape "+descBatch([][]prom.ParsedSeries{b}))
				c.Desc("%v", log)
				t0 := time.Now()
				err := pd.Scrape(ctx)
				t1 := time.Now()
				ref.load(b)
				for _, p := range b {
					rix.add(p.Labels)
				}
				if n != 1 {
					c.Violation("source-calls", "%v: one scrape asked the source %d times", log, n)
					return
				}
				if seenCtx.Value(ctxKey{}) != step {
					c.Violation("ctx", "%v: the caller's context was not passed to the source", log)
					return
				}
				if seenT.Before(t0) || seenT.After(t1) {
					c.Violation("nowish", "%v: scrape time %v outside the scrape [%v,%v]", log, seenT, t0, t1)
					return
				}
				if query == "" {
					_ = err // whether evaluating nothing is an error is not judged; the data is kept either way
					break
				}
				if cbErr != nil {
					if !errors.Is(err, cbErr) {
						c.Violation("callback-error-lost", "%v: callback failed with %v but Scrape returned %v", log, cbErr, err)
						return
					}
				} else if err != nil {
					c.Violation("scrape-failed", "%v: Scrape failed: %v", log, err)
					return
				}
				if calls != 1 {
					c.Violation("callback-count", "%v: the callback ran %d times for one scrape", log, calls)
					return
				}
				if w := expect(); gotStr != w {
					c.Violation("result", "%v: query %s evaluated to\n%s\nmust be\n%s\n(err %v)", log, query, gotStr, w, got.Err)
					return
				}
				if failed && rejected {
					okAfter = true
				}
				c.Count("scrapes_evaluated", 1)
			default: // manual
				if query == "" {
					continue
				}
				log = append(log, "manual")
				c.Desc("%v", log)
				if r.Intn(4) == 0 {
					cbErr = someErr("no")
				}
				mine := 0
				err := pd.ManuallyExecuteQuery(ctx, func(res *promql.Result) error { mine++; return cb(res) })
				if !errors.Is(err, cbErr) {
					c.Violation("manual-err", "%v: ManuallyExecuteQuery returned %v, callback returned %v", log, err, cbErr)
					return
				}
				if mine != 1 || calls != 1 {
					c.Violation("manual-count", "%v: callback ran %d times", log, mine)
					return
				}
				if w := expect(); gotStr != w {
					c.Violation("result", "%v: manual %s evaluated to\n%s\nmust be\n%s", log, query, gotStr, w)
					return
				}
				c.Count("manual_evaluated", 1)
			}
		}
		if !checkIndex(c, pd.GetIndex(), rix, fmt.Sprintf("%v", log)) {
			return
		}
		c.Eval(strings.Join(log, ";"), failed && rejected && okAfter)
		if failed && rejected && okAfter && len(log) < 9 {
			c.Sample("%v", log)
		}
	})
	c.Cases("range", c.N(600, 6000), func(i int, r *rand.Rand) {
		// the chart's range query covers [now-window, now] at the interval
		win := time.Duration(1+r.Intn(120)) * time.Minute
		iv := []time.Duration{time.Second, 5 * time.Second, 15 * time.Second, time.Minute, 7 * time.Second}[r.Intn(5)]
		if r.Intn(3) == 0 { // fine steps
			win = time.Duration(1+r.Intn(120)) * time.Second
			iv = time.Duration(50+r.Intn(900)) * time.Millisecond
		}
		pts := []prom.ParsedSeries{}
		now := time.Now()
		for k := 0; k < 40; k++ {
			ts := now.Add(-time.Duration(r.Int63n(int64(win) + int64(win)/4))).UnixMilli()
			pts = append(pts, prom.ParsedSeries{Labels: labels.FromStrings(labels.MetricName, "m"), Value: float64(ts % 100000), Timestamp: ts})
		}
		pd := prom.NewPeriodicData(scriptSource{func(context.Context, time.Time) ([]prom.ParsedSeries, error) { return pts, nil }}, prom.DefaultEngineOptions(time.Hour, 5_000_000))
		pd.Times = prom.Range{Window: win, Interval: iv}
		q := []string{"time()", "m", "vector(time())"}[r.Intn(3)]
		c.Desc("range query %s window %v interval %v", q, win, iv)
		if err := pd.SetQuery(context.Background(), q); err != nil {
			c.Violation("valid-rejected", "%v", err)
			return
		}
		sort.SliceStable(pts, func(a, b int) bool { return pts[a].Timestamp < pts[b].Timestamp })
		t0 := time.Now().UnixMilli()
		ran := 0
		pd.Callback = func(res *promql.Result) error {
			ran++
			t1 := time.Now().UnixMilli()
			m, err := res.Matrix()
			if err != nil {
				c.Violation("not-matrix", "range query %q gave %v", q, err)
				return nil
			}
			if q != "m" {
				if len(m) != 1 {
					c.Violation("range-series", "%q: %d series", q, len(m))
					return nil
				}
				ps := m[0].Points
				want := int(win/iv) + 1
				if len(ps) != want && len(ps) != int((win-2*time.Millisecond)/iv)+1 {
					// the two clock readings may straddle a millisecond
					if !(len(ps) >= want-1 && len(ps) <= want) {
						c.Violation("range-steps", "window %v interval %v: %d steps, must be %d", win, iv, len(ps), want)
					}
				}
				for k, p := range ps {
					if p.T != ps[0].T+int64(k)*iv.Milliseconds() || math.Abs(p.V-float64(p.T)/1000) > 1e-6 {
						c.Violation("range-grid", "step %d at %d (value %v)", k, p.T, p.V)
						return nil
					}
				}
				if ps[0].T < t0-win.Milliseconds()-1 || ps[0].T > t1-win.Milliseconds()+1 {
					c.Violation("range-start", "window %v evaluated at [%d,%d] starts at %d", win, t0, t1, ps[0].T)
				}
				if e := ps[len(ps)-1].T; e > t1+1 || e < t0-iv.Milliseconds()-1 {
					c.Violation("range-end", "window %v evaluated at [%d,%d] ends at %d", win, t0, t1, e)
				}
				c.Count("range_steps", len(ps))
				return nil
			}
			if len(m) > 1 {
				c.Violation("range-series", "%q: %d series", q, len(m))
				return nil
			}
			// which of the steps there must be
			var first, grid int64 = -1, t0 - win.Milliseconds()
			if len(m) == 1 && len(m[0].Points) > 0 {
				p := m[0].Points[0].T
				first = p - (p-grid)/iv.Milliseconds()*iv.Milliseconds()
				if first-iv.Milliseconds() >= grid-1 { // just before
					first -= iv.Milliseconds()
				}
			}
			recent := func(t int64) bool {
				k := sort.Search(len(pts), func(k int) bool { return pts[k].Timestamp > t }) - 1
				return k >= 0 && pts[k].Timestamp > t-300_000
			}
			have := map[int64]bool{}
			for _, s := range m {
				for _, p := range s.Points {
					have[p.T] = true
				}
			}
			if first >= 0 && t1-t0+3 < iv.Milliseconds() {
				for t := first; t <= t0-2; t += iv.Milliseconds() {
					if recent(t) && !have[t] && t >= t1-win.Milliseconds()+1 {
						c.Violation("range-missing", "%q, window %v interval %v evaluated at [%d,%d]: no value at %d, which is %d steps after the start, though there's a recent sample", q, win, iv, t0, t1, t, (t-first)/iv.Milliseconds())
						return nil
					}
				}
			} else if first < 0 && recent(t0-2) && win > iv+10*time.Millisecond {
				c.Violation("range-missing", "%q, window %v interval %v evaluated at [%d,%d]: no value at all", q, win, iv, t0, t1)
				return nil
			}
			for _, s := range m {
				for _, p := range s.Points {
					// last sample within the 5m lookback
					k := sort.Search(len(pts), func(k int) bool { return pts[k].Timestamp > p.T }) - 1
					if k < 0 || pts[k].Timestamp < p.T-300_000 {
						c.Violation("range-lookback", "value at %d though no sample is recent", p.T)
						return nil
					}
					ok := false
					for x := k; x >= 0 && pts[x].Timestamp == pts[k].Timestamp; x-- {
						ok = ok || pts[x].Value == p.V
					}
					if !ok {
						c.Violation("range-value", "value %v at %d, latest sample is (%d,%v)", p.V, p.T, pts[k].Timestamp, pts[k].Value)
						return nil
					}
					c.Count("range_steps", 1)
				}
			}
			return nil
		}
		if err := pd.Scrape(context.Background()); err != nil {
			c.Violation("scrape-failed", "%v", err)
			return
		}
		if ran != 1 {
			c.Violation("callback-count", "callback ran %d times", ran)
		}
		c.Eval(fmt.Sprint(i, q, win, iv), true)
	})
}

// ---------------------------------------------------------------- C09

type regOp struct {
	write bool
	val   int
}

var regModel = porcupine.Model{
	Init: func() interface{} { return -1 },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		o := in.(regOp)
		if o.write {
			return true, o.val
		}
		return out.(int) == st.(int), st
	},
}

// c09: concurrent scrapes, query changes and evaluations are race free and linearizable.
func c09(c *h.Ctx) {
	c.Rule("concurrent histories of Scrape / SetQuery / ManuallyExecuteQuery on one PeriodicData under the race detector; every evaluation's result identifies the query it ran and the batches it saw; the query is checked as a linearizable register (porcupine), the data as an atomic grow-only set (each batch all or nothing, results form a chain consistent with real time); distinct by observed interleaving")
	c.Assume("porcupine decides register linearizability; a checker timeout is inconclusive")
	const Q = 10
	c.Cases("hist", c.N(240, 4000), func(i int, r *rand.Rand) {
		var clock atomic.Int64
		tick := func() int64 { return clock.Add(1) }
		var nextBatch atomic.Int64
		var dmu sync.Mutex
		started := map[int]int64{}
		delay := r.Intn(3)
		big := i%6 == 0
		src := scriptSource{func(ctx context.Context, t time.Time) ([]prom.ParsedSeries, error) {
			b := ctx.Value(ctxKey{}).(int)
			dmu.Lock()
			started[b] = tick()
			dmu.Unlock()
			if delay > 0 {
				time.Sleep(time.Duration(delay*50) * time.Microsecond)
			}
			var out []prom.ParsedSeries
			for _, k := range []string{"x", "y"} {
				if k == "y" && big {
					// lots of other data in the middle of the batch
					for f := 0; f < 1200; f++ {
						out = append(out, prom.ParsedSeries{Labels: labels.FromStrings(labels.MetricName, "filler", "f", fmt.Sprint(f)), Value: float64(b), Timestamp: t.UnixMilli() - 5000 + int64(b)})
					}
				}
				for q := 0; q < Q; q++ {
					out = append(out, prom.ParsedSeries{Labels: labels.FromStrings(labels.MetricName, "m", "q", fmt.Sprint(q), "k", k), Value: float64(b), Timestamp: t.UnixMilli() - 5000 + int64(b)})
				}
			}
			return out, nil
		}}
		pd := prom.NewPeriodicData(src, prom.DefaultEngineOptions(time.Hour, 5_000_000))
		pd.Times = prom.Range{Instant: true}
		type obs struct {
			client     int
			t0, t1     int64
			q          int
			batches    []int
			mustHave   int
			scrape     bool
			queryStart int64
		}
		var omu sync.Mutex
		var all []obs
		var ops []porcupine.Operation
		decode := func(res *promql.Result) (int, []int, string) {
			if res.Err != nil {
				return 0, nil, "error " + res.Err.Error()
			}
			m, err := res.Matrix()
			if err != nil {
				return 0, nil, err.Error()
			}
			q := -1
			var ref []int
			for si, s := range m {
				var n int
				fmt.Sscan(s.Metric.Get("q"), &n)
				if q != -1 && q != n {
					return 0, nil, fmt.Sprintf("result mixes queries %d and %d", q, n)
				}
				q = n
				var bs []int
				for _, p := range s.Points {
					bs = append(bs, int(p.V))
				}
				sort.Ints(bs)
				if si == 0 {
					ref = bs
				} else if fmt.Sprint(bs) != fmt.Sprint(ref) {
					return 0, nil, fmt.Sprintf("a batch is partly visible: series see batches %v and %v", ref, bs)
				}
			}
			if len(m) != 0 && len(m) != 2 {
				return 0, nil, fmt.Sprintf("%d series, must be 0 or 2", len(m))
			}
			return q, ref, ""
		}
		// per-call results come out through the callback of that call
		pd.Callback = nil
		var cbActive atomic.Int32
		var curMu sync.Mutex
		var pendingRes []obs
		pd.Callback = func(res *promql.Result) error {
			if cbActive.Add(1) != 1 {
				c.Violation("callback-overlap", "two scrape callbacks ran at the same time")
			}
			defer cbActive.Add(-1)
			q, bs, bad := decode(res)
			if bad != "" {
				c.Violation("torn-result", "scrape result: %s", bad)
			}
			curMu.Lock()
			pendingRes = append(pendingRes, obs{q: q, batches: bs, t1: tick()})
			curMu.Unlock()
			return nil
		}
		setq := func(client, k int) {
			t0 := tick()
			err := pd.SetQuery(context.Background(), fmt.Sprintf("m{q=%q}[1h]", fmt.Sprint(k)))
			t1 := tick()
			if err != nil {
				c.Violation("valid-rejected", "%v", err)
			}
			omu.Lock()
			ops = append(ops, porcupine.Operation{ClientId: client, Input: regOp{true, k}, Call: t0, Output: 0, Return: t1})
			omu.Unlock()
		}
		setq(0, 0)
		doScrape := func(client int) {
			b := int(nextBatch.Add(1))
			t0 := tick()
			err := pd.Scrape(context.WithValue(context.Background(), ctxKey{}, b))
			t1 := tick()
			if err != nil {
				c.Violation("scrape-failed", "Scrape: %v", err)
				return
			}
			// the callback that saw batch b first is this scrape's
			curMu.Lock()
			var mine *obs
			for k := range pendingRes {
				for _, x := range pendingRes[k].batches {
					if x == b && (mine == nil || len(pendingRes[k].batches) < len(mine.batches)) {
						mine = &pendingRes[k]
					}
				}
			}
			var o obs
			if mine != nil {
				o = *mine
			}
			curMu.Unlock()
			if mine == nil {
				c.Violation("scrape-not-evaluated", "Scrape of batch %d returned but no callback received a result containing it", b)
				return
			}
			o.client, o.t0, o.t1, o.mustHave, o.scrape = client, t0, t1, b, true
			omu.Lock()
			all = append(all, o)
			ops = append(ops, porcupine.Operation{ClientId: client, Input: regOp{false, 0}, Call: t0, Output: o.q, Return: t1})
			omu.Unlock()
		}
		doScrape(0)
		nc := 3 + r.Intn(3)
		scripts := make([][]int, nc)
		var qn int
		for k := range scripts {
			for s := 0; s < 3+r.Intn(3); s++ {
				o := r.Intn(3)
				if o == 0 {
					if qn+1 < Q {
						qn++
						scripts[k] = append(scripts[k], qn)
					}
				} else {
					scripts[k] = append(scripts[k], -o)
				}
			}
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		for k := 0; k < nc; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				<-start
				for _, op := range scripts[k] {
					switch {
					case op > 0:
						setq(k+1, op)
					case op == -1:
						doScrape(k + 1)
					default:
						o := obs{client: k + 1, t0: tick()}
						var bad string
						n := 0
						err := pd.ManuallyExecuteQuery(context.Background(), func(res *promql.Result) error {
							n++
							o.q, o.batches, bad = decode(res)
							return nil
						})
						o.t1 = tick()
						if err != nil || n != 1 {
							c.Violation("manual", "ManuallyExecuteQuery: err %v, %d callbacks", err, n)
							continue
						}
						if bad != "" {
							c.Violation("torn-result", "manual result: %s", bad)
							continue
						}
						omu.Lock()
						all = append(all, o)
						ops = append(ops, porcupine.Operation{ClientId: k + 1, Input: regOp{false, 0}, Call: o.t0, Output: o.q, Return: o.t1})
						omu.Unlock()
					}
				}
			}(k)
		}
		close(start)
		wg.Wait()
		if n := int(nextBatch.Load()); len(pendingRes) != n {
			c.Violation("callback-count", "%d scrapes, %d callbacks", n, len(pendingRes))
			return
		}
		// data: grow-only set
		completed := map[int]int64{}
		for _, o := range all {
			if o.scrape {
				completed[o.mustHave] = o.t1
			}
		}
		has := func(o obs, b int) bool {
			for _, x := range o.batches {
				if x == b {
					return true
				}
			}
			return false
		}
		for _, o := range all {
			for b, t := range completed {
				if t < o.t0 && !has(o, b) {
					c.Violation("stale-read", "an evaluation that began after scrape %d completed does not see it (sees %v)", b, o.batches)
					return
				}
			}
			for k, b := range o.batches {
				if k > 0 && o.batches[k-1] == b {
					c.Violation("dup-batch", "batch %d visible twice in %v", b, o.batches)
					return
				}
				if s, ok := started[b]; !ok || s > o.t1 {
					c.Violation("future-read", "batch %d visible before it was fetched", b)
					return
				}
			}
		}
		srt := append([]obs(nil), all...)
		sort.Slice(srt, func(a, b int) bool { return len(srt[a].batches) < len(srt[b].batches) })
		for k := 1; k < len(srt); k++ {
			for _, b := range srt[k-1].batches {
				if !has(srt[k], b) {
					c.Violation("not-a-chain", "evaluations saw %v and %v: no order of the scrapes explains both", srt[k-1].batches, srt[k].batches)
					return
				}
			}
		}
		overlap := 0
		for _, a := range all {
			for _, b := range all {
				if a.t1 < b.t0 && len(a.batches) > len(b.batches) {
					c.Violation("went-back", "a later evaluation saw %v after an earlier one saw %v", b.batches, a.batches)
					return
				}
				if a.client < b.client && a.t0 < b.t1 && b.t0 < a.t1 {
					overlap++
				}
			}
		}
		res, _ := porcupine.CheckOperationsVerbose(regModel, ops, time.Minute)
		switch res {
		case porcupine.Illegal:
			c.Violation("query-not-linearizable", "no order of the query changes explains which queries were evaluated: %v", ops)
			return
		case porcupine.Unknown:
			c.Inconclusive("register checker timed out")
		}
		sort.Slice(ops, func(a, b int) bool { return ops[a].Call < ops[b].Call })
		var sb strings.Builder
		for _, o := range ops {
			fmt.Fprintf(&sb, "c%d%v[%d-%d]=%v ", o.ClientId, o.Input, o.Call, o.Return, o.Output)
		}
		c.Count("operations", len(ops))
		c.Count("overlapping_evaluation_pairs", overlap)
		c.Eval(sb.String(), true)
		if overlap > 2 {
			c.Sample("%s", sb.String())
		}
	})
}
