package checks

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"

	"sigs.k8s.io/instrumentation-tools/promq/prom"

	"verif/harness/h"
)

type genSample struct {
	labels map[string]string // incl. __name__; empty values mean absent
	val    float64
	ts     *int64
}

var expVals = []string{"a", "", "b c", "é", "日本語", "x=y,z", "{}", "}", "a\"q", "back\\slash", "nl\nnl", "tab\tt", "#", "\\n", "\\\\", "trailing\\", "0", " lead", "'", "👩‍🚀", "a\\\"b", "\n", "\"", "50%", "%d of %s", "<a&b>", "\x00", "\x1b[0m", "\u2028", "${HOME}", "a;b"}

func escLV(s string) string {
	return strings.NewReplacer(`\`, `\\`, "\n", `\n`, `"`, `\"`).Replace(s)
}

func genExposition(r *rand.Rand) (string, []genSample) {
	var sb strings.Builder
	var out []genSample
	names := []string{"up", "http_requests_total", "a:b", "_x", "go_gc_seconds", "HELP", "m1", "Up"}
	lns := []string{"l", "code", "le", "quantile", "instance", "_a", "job", "x9", "Zone"}
	nl := 1 + r.Intn(8)
	for i := 0; i < nl; i++ {
		switch r.Intn(10) {
		case 0:
			fmt.Fprintf(&sb, "# HELP %s some text with { braces } and 12 %s\n", names[r.Intn(len(names))], "\"q\"")
			continue
		case 1:
			fmt.Fprintf(&sb, "# TYPE %s %s\n", names[r.Intn(len(names))], []string{"counter", "gauge", "histogram", "summary", "untyped"}[r.Intn(5)])
			continue
		case 2:
			sb.WriteString([]string{"\n", "# just a comment\n", "#\n", "  \n", "\t\n"}[r.Intn(3)])
			continue
		}
		g := genSample{labels: map[string]string{}}
		name := names[r.Intn(len(names))]
		g.labels[labels.MetricName] = name
		sb.WriteString(name)
		sp := func() string { return strings.Repeat(" ", r.Intn(2)) }
		nlb := r.Intn(5)
		perm := r.Perm(len(lns))
		if nlb > 0 || r.Intn(6) == 0 {
			sb.WriteString("{")
			for k := 0; k < nlb; k++ {
				ln := lns[perm[k]]
				v := expVals[r.Intn(len(expVals))]
				g.labels[ln] = v
				fmt.Fprintf(&sb, "%s%s%s=%s\"%s\"", sp(), ln, sp(), sp(), escLV(v))
				if k < nlb-1 || r.Intn(4) == 0 {
					sb.WriteString(",")
				}
			}
			sb.WriteString(sp() + "}")
		}
		var f float64
		var txt string
		switch r.Intn(9) {
		case 0:
			f, txt = math.NaN(), "NaN"
		case 1:
			f, txt = math.Inf(1), "+Inf"
		case 2:
			f, txt = math.Inf(-1), "-Inf"
		case 3:
			f, txt = 0, "0"
		case 4:
			f = float64(r.Int63n(1 << 53))
			txt = strconv.FormatFloat(f, 'f', -1, 64)
		case 5:
			f = math.Ldexp(r.Float64()-0.5, r.Intn(2000)-1000)
			txt = strconv.FormatFloat(f, 'e', -1, 64)
		case 6:
			f = -r.Float64()
			txt = strconv.FormatFloat(f, 'g', -1, 64)
		case 7:
			f, txt = math.Copysign(0, -1), "-0"
		default:
			f = float64(r.Intn(1000))
			txt = strconv.FormatFloat(f, 'f', r.Intn(3), 64)
		}
		g.val = f
		sb.WriteString(" " + sp() + txt)
		if r.Intn(3) == 0 {
			t := r.Int63n(2_000_000_000_000) - 1000
			if r.Intn(10) == 0 {
				t = 0
			}
			g.ts = &t
			fmt.Fprintf(&sb, " %d", t)
		}
		sb.WriteString(sp() + "\n")
		out = append(out, g)
	}
	return sb.String(), out
}

// c06: every sample line is ingested exactly once with exact labels, value and time.
func c06(c *h.Ctx) {
	c.Rule("expositions rendered from random samples (escapes, unicode, empty label values, special floats, explicit and missing timestamps, comments, HELP/TYPE, spacing) plus target labels that collide with exposed ones; the parse is compared with the samples rendered; non-trivial: an escaped value or a colliding label or an explicit timestamp is present")
	roundtrip := func(i int, r *rand.Rand, big bool) {
		text, want := genExposition(r)
		for k := 5 + r.Intn(400); big && k > 0; k-- {
			t, w := genExposition(r)
			if r.Intn(60) == 0 { // a long one
				v := strings.Repeat(pick(r, expVals), r.Intn(30000))
				t += fmt.Sprintf("longest{a=\"%s\"} 1\n", escLV(v))
				w = append(w, genSample{labels: map[string]string{labels.MetricName: "longest", "a": v}, val: 1})
			}
			if r.Intn(60) == 0 { // a wide one
				g := genSample{labels: map[string]string{labels.MetricName: "widest"}, val: 2}
				var ls []string
				for n := r.Intn(300); n >= 0; n-- {
					g.labels[fmt.Sprintf("l%d", n)] = fmt.Sprint(n)
					ls = append(ls, fmt.Sprintf("l%d=\"%d\"", n, n))
				}
				t += "widest{" + strings.Join(ls, ",") + "} 2\n"
				w = append(w, g)
			}
			text += t
			want = append(want, w...)
		}
		if r.Intn(4) == 0 {
			text = strings.TrimSuffix(text, "\n")
		}
		extra := map[string]string{}
		for k := 0; k < r.Intn(3); k++ {
			extra[[]string{"instance", "job", "l", "zone"}[r.Intn(4)]] = []string{"http://h:1/metrics", "v", "日本", "q\"x", ""}[r.Intn(5)]
		}
		extraCopy := map[string]string{}
		for k, v := range extra {
			extraCopy[k] = v
		}
		now := time.Unix(1_600_000_000+r.Int63n(1000), r.Int63n(1e9))
		c.Desc("exposition %q extra %v now %v", text, extra, now)
		buf := []byte(text)
		var got []prom.ParsedSeries
		var err error
		if len(extra) == 0 && r.Intn(2) == 0 {
			got, err = prom.ParseTextData(buf, now)
		} else {
			got, err = prom.ParseTextDataWithAdditionalLabels(buf, now, extra)
		}
		if err != nil {
			c.Violation("parse-err", "valid exposition %q rejected: %v", text, err)
			return
		}
		for k := range buf { // the result must not alias the response buffer
			buf[k] = '!'
		}
		if fmt.Sprint(extra) != fmt.Sprint(extraCopy) {
			c.Violation("extra-mutated", "the target labels were modified: %v -> %v", extraCopy, extra)
		}
		if len(got) != len(want) {
			c.Violation("sample-count", "exposition %q has %d samples, %d were ingested", text, len(want), len(got))
			return
		}
		nontrivial := false
		for k := range want {
			wl := map[string]string{}
			for n, v := range want[k].labels {
				if v != "" {
					wl[n] = v
				}
				if strings.ContainsAny(v, "\\\"\n") {
					nontrivial = true
				}
			}
			for n, v := range extra {
				if _, ok := wl[n]; ok {
					nontrivial = true
				}
				if wl[n] = v; v == "" { // as if it had no such label
					delete(wl, n)
				}
			}
			wt := now.UnixMilli()
			if want[k].ts != nil {
				wt = *want[k].ts
				nontrivial = true
			}
			if labels.Compare(labels.FromMap(wl), got[k].Labels) != 0 {
				c.Violation("labels", "exposition %q extra %v sample %d: labels %s, must be %s", text, extra, k, got[k].Labels, labels.FromMap(wl))
				return
			}
			if got[k].Timestamp != wt {
				c.Violation("timestamp", "exposition %q sample %d: timestamp %d, must be %d", text, k, got[k].Timestamp, wt)
				return
			}
			if !(eqF(got[k].Value, want[k].val) || (math.IsNaN(want[k].val) && math.IsNaN(got[k].Value))) {
				c.Violation("value", "exposition %q sample %d: value %v, must be %v", text, k, got[k].Value, want[k].val)
				return
			}
			c.Count("samples_compared", 1)
		}
		c.Eval(text+fmt.Sprint(extra), nontrivial)
		if nontrivial && len(want) == 2 {
			c.Sample("%q + %v -> %v", text, extra, got)
		}
	}
	c.Cases("roundtrip", c.N(30000, 600000), func(i int, r *rand.Rand) { roundtrip(i, r, false) })
	c.Cases("large", c.N(160, 4000), func(i int, r *rand.Rand) { roundtrip(i, r, true) })
	bad := []string{"m{a=\"b\" 1\n", "m{a=b} 1\n", "m abc\n", "1m 1\n", "m 1 x\n", "m{a=\"b} 1\n", "m\n", "m{} \n", "m 1 2 3\n", "m{=\"x\"} 1\n", "m{a=\"\xff\"} 1\n", "m 1 1.5\n", "m-x 1\n", "<html>\n", "m{a=\"b\",,c=\"d\"} 1\n", "{\"status\":\"error\"}\n", "m 1e\n", "m 1 99999999999999999999\n"}
	c.Cases("malformed", c.N(4000, 40000), func(i int, r *rand.Rand) {
		pre, _ := genExposition(r)
		post, _ := genExposition(r)
		b := bad[r.Intn(len(bad))]
		if r.Intn(4) == 0 {
			post = ""
		}
		text := pre + b + post
		c.Desc("malformed %q", text)
		got, err := prom.ParseTextDataWithAdditionalLabels([]byte(text), time.Unix(1, 0), map[string]string{"instance": "x"})
		if err == nil {
			c.Violation("malformed-accepted", "malformed exposition %q (bad line %q) was accepted: %d samples", text, b, len(got))
			return
		}
		if len(got) != 0 {
			c.Violation("malformed-partial", "malformed exposition %q was rejected but still yielded %d samples", text, len(got))
			return
		}
		c.Count("malformed_rejected", 1)
		c.Eval(text, true)
	})
}
