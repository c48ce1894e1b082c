package checks

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/prometheus/prometheus/pkg/labels"

	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
	"sigs.k8s.io/instrumentation-tools/promq/prom"

	"verif/harness/h"
)

// genIndex makes an index in which metrics share label names but not values.
func genIndex(r *rand.Rand) idxModel {
	names := []string{"up", "up_time", "http_requests_total", "http_errors", "a", "ab", "node:cpu:rate5m", "_m", "sum_of", "by_x", "rate_total", "M", "m9", "http"}
	lns := []string{"code", "codec", "job", "le", "l", "instance", "_z", "by_zone", "method", "on_x", "hour", "x1"}
	vals := []string{"a", "ab", "b", "200", "404", "é", "日本", "x y", "q\"q", "b\\s", "n\nl", "http://a:1/m", "{}", "a,b", "#", "'", "`", "+Inf", "0.5"}
	m := idxModel{}
	nv := 0
	if r.Intn(30) == 0 { // as many as real targets have
		for k := 40 + r.Intn(150); k > 0; k-- {
			names = append(names, fmt.Sprintf("metric_%d", k))
			m[names[len(names)-1]] = map[string][]string{"l": {"v"}}
		}
		name := pick(r, names)
		m[name] = map[string][]string{"few": {"x"}}
		for k := r.Intn(80); k > 0; k-- {
			m[name][fmt.Sprintf("label_%d", k)] = []string{"y"}
		}
		for k := 10 + r.Intn(250); k > 0; k-- {
			m[name]["l_many"] = append(m[name]["l_many"], fmt.Sprintf("value %d", k))
		}
	}
	for n := 1 + r.Intn(6); n > 0; n-- {
		name := pick(r, names)
		if m[name] == nil {
			m[name] = map[string][]string{}
		}
		for k := r.Intn(5); k > 0; k-- {
			ln := pick(r, lns)
			if m[name][ln] != nil {
				continue
			}
			seen := map[string]bool{}
			for j := 1 + r.Intn(4); j > 0; j-- {
				v := pick(r, vals)
				if r.Intn(3) == 0 {
					nv++
					v += fmt.Sprint(nv) // nobody else has it
				}
				if !seen[v] {
					seen[v] = true
					m[name][ln] = append(m[name][ln], v)
				}
			}
		}
	}
	return m
}

// load puts the model into an index series by series, in random order.
func (m idxModel) load(r *rand.Rand, ix prom.Indexer) {
	var all []prom.ParsedSeries
	for _, metric := range m.metrics() {
		// whole series, each value of each label in one of them at least
		left := map[string][]string{}
		for _, l := range m.labels(metric) {
			left[l] = append([]string(nil), m[metric][l]...)
		}
		for first := true; first || len(left) > 0; first = false {
			ls := map[string]string{labels.MetricName: metric}
			for _, l := range keysSorted(left) {
				if r.Intn(3) > 0 {
					ls[l] = left[l][0]
					if left[l] = left[l][1:]; len(left[l]) == 0 {
						delete(left, l)
					}
				}
			}
			all = append(all, prom.ParsedSeries{Labels: labels.FromMap(ls), Value: 1})
		}
	}
	r.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
	for _, s := range all {
		ix.UpdateMetric(s)
	}
}

func keysSorted(m map[string][]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func withPrefix(xs []string, p string) (out []string) {
	for _, x := range xs {
		if strings.HasPrefix(x, p) {
			out = append(out, x)
		}
	}
	sort.Strings(out)
	return
}

func c29(c *h.Ctx) {
	c.Rule("random indexes in which metrics share label names but not values, and queries of one to three selectors (inside functions, aggregations, arithmetic, with earlier matchers and selectors on other metrics) cut where a metric name, a label name or a label value is typed: the names and values offered from the index must be exactly those of that metric (and label) that begin with what was typed, each once, and their descriptions list what the index has for them. The index grows between the questions. Non-trivial: another metric of the index has the label too, or something was typed of the word")
	c.Cases("names", c.N(1600, 60000), func(i int, r *rand.Rand) {
		m := genIndex(r)
		ix := prom.NewIndex()
		m.load(r, ix)
		comp := earley.NewPromQLCompleter(ix)
		type ask struct {
			text, part, kind, metric string
			wanted                   func() []string
		}
		var asked []ask
		for q := 0; q < 4; q++ {
			if q == 2 && r.Intn(2) == 0 { // more data
				more := genIndex(r)
				more.load(r, ix)
				for name, ls := range more {
					if m[name] == nil {
						m[name] = map[string][]string{}
					}
					for l, vs := range ls {
						have := map[string]bool{}
						for _, v := range append(m[name][l], vs...) {
							have[v] = true
						}
						m[name][l] = keysOf(have)
					}
				}
			}
			metrics := m.metrics()
			matcher := func(metric string) string {
				ls := m.labels(metric)
				l := "other"
				if len(ls) > 0 && r.Intn(5) > 0 {
					l = pick(r, ls)
				}
				v := "v"
				if vs := m[metric][l]; len(vs) > 0 && r.Intn(4) > 0 {
					v = pick(r, vs)
				}
				return l + pick(r, []string{"=", "!=", "=~", "!~"}) + quoteProm(v)
			}
			selector := func() string {
				metric := pick(r, metrics)
				s := metric
				if r.Intn(3) > 0 {
					var ms []string
					for k := r.Intn(3); k >= 0; k-- {
						ms = append(ms, matcher(metric))
					}
					s += "{" + strings.Join(ms, pick(r, []string{",", ", "})) + "}"
				}
				return s
			}
			// what comes before the selector that's being typed
			pre := ""
			for k := r.Intn(3); k > 0; k-- {
				s := selector()
				switch r.Intn(4) {
				case 0:
					s = "rate(" + s + "[5m])"
				case 1:
					s = "sum(" + s + ")"
				}
				pre += s + pick(r, []string{" + ", " / ", " and ", " > ", " * on (job) "})
			}
			pre += pick(r, []string{"", "", "", "sum(", "rate(", "avg by (job) (", "max(rate("})
			metric := pick(r, metrics)
			cut := func(s string) string { return s[:r.Intn(len(s)+1)] }
			var text, part, kind string
			var wanted func() []string
			var shared bool
			switch r.Intn(5) {
			case 4: // a label name in a grouping
				s := metric
				if r.Intn(2) == 0 {
					s += "{" + matcher(metric) + "}"
				}
				if r.Intn(3) == 0 {
					s = "rate(" + s + "[5m])"
				}
				text = pre + pick(r, []string{"sum", "max", "avg", "count", "stddev"}) + "(" + s + ")" + pick(r, []string{" by (", " without (", "by(", " by ("})
				for k := r.Intn(3); k > 0; k-- {
					l := "other"
					if ls := m.labels(metric); len(ls) > 0 && r.Intn(3) > 0 {
						l = pick(r, ls)
					}
					text += l + pick(r, []string{",", ", "})
				}
				if ls := m.labels(metric); len(ls) > 0 {
					part = cut(pick(r, ls))
				}
				text += part
				kind = "label"
				wanted = func() []string { return withPrefix(m.labels(metric), part) }
				for _, o := range metrics {
					if o != metric && len(m[o]) > 0 {
						shared = true
					}
				}
				c.Count("groupings", 1)
			case 0: // a metric name
				part = cut(metric)
				if pre == "" && part == "" {
					part = metric[:1]
				}
				text, kind = pre+part, "metric"
				wanted = func() []string { return withPrefix(m.metrics(), part) }
			case 1, 2: // a label name
				text = pre + metric + "{"
				for k := r.Intn(3); k > 0; k-- {
					text += matcher(metric) + pick(r, []string{",", ", "})
				}
				if ls := m.labels(metric); len(ls) > 0 {
					part = cut(pick(r, ls))
				}
				text += part
				kind = "label"
				wanted = func() []string { return withPrefix(m.labels(metric), part) }
				for _, o := range metrics {
					if o != metric && len(m[o]) > 0 {
						shared = true
					}
				}
			case 3: // a label value
				ls := m.labels(metric)
				l := "unknown"
				if len(ls) > 0 && r.Intn(8) > 0 {
					l = pick(r, ls)
				}
				text = pre + metric + "{"
				for k := r.Intn(3); k > 0; k-- {
					text += matcher(metric) + ","
				}
				text += l + pick(r, []string{"=", "!=", "=~", "!~"})
				if vs := m[metric][l]; r.Intn(3) == 0 && len(vs) > 0 {
					p := quoteGo(pick(r, vs))
					part = p[:r.Intn(len(p))]
				}
				wanted = func() (want []string) {
					for _, v := range m[metric][l] {
						if strings.HasPrefix(quoteGo(v), part) {
							want = append(want, v)
						}
					}
					sort.Strings(want)
					return
				}
				text += part
				kind = "value"
				for _, o := range metrics {
					if o != metric && len(m[o][l]) > 0 {
						shared = true
					}
				}
			}
			if text == "" {
				continue
			}
			if q >= 2 && len(asked) > 0 && r.Intn(2) == 0 {
				// what was asked before, of what's observed by now
				a := asked[r.Intn(len(asked))]
				text, part, kind, metric, wanted = a.text, a.part, a.kind, a.metric, a.wanted
				c.Count("asked_again", 1)
			}
			asked = append(asked, ask{text, part, kind, metric, wanted})
			want := wanted()
			desc := fmt.Sprintf("%q (index %v)", text, m)
			c.Desc("%s", desc)
			var rows []matchRow
			if !c.Call("complete", func() { rows = suggest(comp, text, len(text)) }) {
				return
			}
			// the same name or value may be meant by something else that's offered
			// as well (a keyword); names are told apart by their kind
			var got []string
			for _, row := range rows {
				switch {
				case kind == "metric" && row.K == "metric-id" && !strings.HasPrefix(row.V, "\""):
					got = append(got, row.V)
					var dims []string
					if row.D != "" {
						dims = strings.Split(row.D, ",")
					}
					if !sameStrings(dims, m.labels(row.V)) {
						c.Violation("wrong-description", "%s\n%s is described by %q, has labels %q", desc, row.V, row.D, m.labels(row.V))
						return
					}
				case kind == "label" && row.K == "metric-label":
					got = append(got, row.V)
					size := 0
					for _, v := range m[metric][row.V] {
						if !strings.Contains(row.D, quoteGo(v)) {
							c.Violation("wrong-description", "%s\nlabel %s is described by %q, which lacks its value %q", desc, row.V, row.D, v)
							return
						}
						size += len(quoteGo(v)) + 1
					}
					if len(row.D) > size+len(m[metric][row.V])+2 { // whatever separates them
						c.Violation("wrong-description", "%s\nlabel %s is described by %q, which has more than its values %q", desc, row.V, row.D, m[metric][row.V])
						return
					}
				case kind == "value" && strings.HasPrefix(row.V, "\""):
					u, err := unquoteProm(row.V)
					if err != nil {
						c.Violation("wrong-quote", "%s\nvalue %s isn't a PromQL string: %v", desc, row.V, err)
						return
					}
					got = append(got, u)
				case row.K == "metric-id" || row.K == "metric-label":
					c.Violation("wrong-kind", "%s\n%s (%s) is offered where a %s is expected", desc, row.V, row.K, kind)
					return
				}
			}
			sort.Strings(got)
			if !sameStrings(got, want) {
				c.Violation("wrong-"+kind, "%s\noffers %q, must be %q", desc, got, want)
				return
			}
			c.Count("offers_compared", len(got))
			c.Eval(desc, shared || part != "")
			if c.WantSample() && shared && len(want) > 1 {
				c.Sample("%s -> %q", desc, got)
			}
		}
	})
}

func quoteGo(s string) string { return fmt.Sprintf("%q", s) }

func init() { h.Register(h.Check{ID: "C29", Fn: c29}) }
