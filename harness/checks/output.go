package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"strconv"
	"strings"

	"github.com/fatih/color"
	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"
	"github.com/prometheus/prometheus/promql/parser"
	"github.com/prometheus/prometheus/storage"
	"gopkg.in/yaml.v2"

	"sigs.k8s.io/instrumentation-tools/promq/prom"

	"verif/harness/h"
)

var outVals = append([]string{"true", "null", "~", "1", "1e3", "0x10", "1:30", "no", "y", "- a", "a: b", "a #b", "&x", "*x", "!x", "%d", "%!s(MISSING)", "<b>&amp;", "\u2028", "\x01", "\x7f", "  two  ", "a\n\nb\n", "\n lead", "[x", "{y", "'q'", "`", "@", "|", ">", "=> 1 @[2]", "2020-01-01", ".nan", "", "x\r\ny", "\\u0041", "\\u003c\\u0026", "<", "\u00a0", "\U0001F469\u200d", "\u001b[31mred", "\ufeff"}, expVals...)

func genResultLabels(r *rand.Rand) labels.Labels {
	m := map[string]string{}
	if r.Intn(6) > 0 {
		m[labels.MetricName] = pick(r, cliNames)
		if v := pick(r, outVals); v != "" && r.Intn(8) == 0 {
			m[labels.MetricName] = v // as label_replace can make it
		}
	}
	names := []string{"l", "code", "le", "instance", "_a", "y", "n", "on", "null", "Z"}
	for k := r.Intn(4); k > 0; k-- {
		v := pick(r, outVals)
		if v == "" {
			continue
		}
		m[names[r.Intn(len(names))]] = v
	}
	return labels.FromMap(m)
}

func genFloat(r *rand.Rand) float64 {
	switch r.Intn(12) {
	case 0:
		return math.NaN()
	case 1:
		return math.Inf(1 - 2*r.Intn(2))
	case 2:
		return math.Copysign(0, -1)
	case 3:
		return math.MaxFloat64
	case 4:
		return math.SmallestNonzeroFloat64
	case 5:
		return math.Float64frombits(r.Uint64())
	case 6:
		return float64(r.Int63())
	case 7:
		return 0
	default:
		return math.Round(r.NormFloat64()*1e5) / 100
	}
}

func genMs(r *rand.Rand) int64 {
	switch r.Intn(5) {
	case 0:
		return r.Int63n(2000) - 1000
	case 1:
		return 0
	default:
		return 1_600_000_000_000 + r.Int63n(1_000_000_000)
	}
}

// yamlList tells if the top level of a YAML document is a list.
func yamlList(out string) bool {
	var v any
	if err := yaml.Unmarshal([]byte(out), &v); err != nil {
		return true // it's said later what is wrong
	}
	_, ok := v.([]any)
	return ok
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func sameFloat(a, b float64) bool { return eqF(a, b) || math.IsNaN(a) && math.IsNaN(b) }

// jsonPoint checks a [seconds, "value"] pair.
func jsonPoint(v any, t int64, f float64, str *string) string {
	p, ok := v.([]any)
	if !ok || len(p) != 2 {
		return fmt.Sprintf("%v isn't a [time, value] pair", v)
	}
	n, ok := p[0].(json.Number)
	if !ok {
		return fmt.Sprintf("time %v isn't a number", p[0])
	}
	sec, err := strconv.ParseFloat(string(n), 64)
	if err != nil || int64(math.Round(sec*1000)) != t {
		return fmt.Sprintf("time %v, must be %d ms", n, t)
	}
	s, ok := p[1].(string)
	if !ok {
		return fmt.Sprintf("value %v isn't a string", p[1])
	}
	if str != nil {
		if s != *str {
			return fmt.Sprintf("value %q, must be %q", s, *str)
		}
		return ""
	}
	got, err := strconv.ParseFloat(s, 64)
	if err != nil || !sameFloat(got, f) {
		return fmt.Sprintf("value %q, must be %v", s, f)
	}
	return ""
}

func jsonLabels(v any, ls labels.Labels) string {
	m, ok := v.(map[string]any)
	if !ok {
		return fmt.Sprintf("labels %v aren't an object", v)
	}
	if len(m) != len(ls) {
		return fmt.Sprintf("labels %q, must be %s", m, ls)
	}
	for _, l := range ls {
		if m[l.Name] != any(l.Value) {
			return fmt.Sprintf("label %s is %q, must be %q", l.Name, m[l.Name], l.Value)
		}
	}
	return ""
}

func judgeJSON(out string, val parser.Value) string {
	d := json.NewDecoder(strings.NewReader(out))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return "not JSON: " + err.Error()
	}
	if d.More() {
		return "more than one JSON value"
	}
	switch x := val.(type) {
	case promql.Scalar:
		return jsonPoint(v, x.T, x.V, nil)
	case promql.String:
		return jsonPoint(v, x.T, 0, &x.V)
	case promql.Vector:
		a, ok := v.([]any)
		if !ok || len(a) != len(x) {
			return fmt.Sprintf("%d samples reported, must be %d", len(a), len(x))
		}
		for i := range x {
			m, ok := a[i].(map[string]any)
			if !ok {
				return fmt.Sprintf("sample %d isn't an object", i)
			}
			if e := jsonLabels(m["metric"], x[i].Metric); e != "" {
				return fmt.Sprintf("sample %d: %s", i, e)
			}
			if e := jsonPoint(m["value"], x[i].T, x[i].V, nil); e != "" {
				return fmt.Sprintf("sample %d: %s", i, e)
			}
		}
	case promql.Matrix:
		a, ok := v.([]any)
		if !ok || len(a) != len(x) {
			return fmt.Sprintf("%d series reported, must be %d", len(a), len(x))
		}
		for i := range x {
			m, ok := a[i].(map[string]any)
			if !ok {
				return fmt.Sprintf("series %d isn't an object", i)
			}
			if e := jsonLabels(m["metric"], x[i].Metric); e != "" {
				return fmt.Sprintf("series %d: %s", i, e)
			}
			ps, ok := m["values"].([]any)
			if !ok && len(x[i].Points) > 0 || len(ps) != len(x[i].Points) {
				return fmt.Sprintf("series %d: %d points, must be %d", i, len(ps), len(x[i].Points))
			}
			for k, p := range x[i].Points {
				if e := jsonPoint(ps[k], p.T, p.V, nil); e != "" {
					return fmt.Sprintf("series %d point %d: %s", i, k, e)
				}
			}
		}
	}
	return ""
}

type yPoint struct {
	T int64
	V float64
}

func judgeYAML(out string, val parser.Value) string {
	same := func(p yPoint, t int64, v float64) string {
		// (reading -0 from YAML gives the integer 0)
		if p.T != t || !sameFloat(p.V, v) && p.V != v {
			return fmt.Sprintf("%v at %d, must be %v at %d", p.V, p.T, v, t)
		}
		return ""
	}
	lab := func(m map[string]string, ls labels.Labels) string {
		if labels.Compare(labels.FromMap(m), ls) != 0 || len(m) != len(ls) {
			return fmt.Sprintf("labels %q, must be %s", m, ls)
		}
		return ""
	}
	switch x := val.(type) {
	case promql.Scalar:
		var p yPoint
		if err := yaml.UnmarshalStrict([]byte(out), &p); err != nil {
			return "not the YAML of a scalar: " + err.Error()
		}
		return same(p, x.T, x.V)
	case promql.String:
		var p struct {
			T int64
			V string
		}
		if err := yaml.UnmarshalStrict([]byte(out), &p); err != nil {
			return "not the YAML of a string: " + err.Error()
		}
		if p.T != x.T || p.V != x.V {
			return fmt.Sprintf("%q at %d, must be %q at %d", p.V, p.T, x.V, x.T)
		}
	case promql.Vector:
		var v []struct {
			Point  yPoint
			Metric map[string]string
		}
		if !yamlList(out) {
			return "not a YAML list"
		}
		if err := yaml.UnmarshalStrict([]byte(out), &v); err != nil {
			return "not the YAML of a vector: " + err.Error()
		}
		if len(v) != len(x) {
			return fmt.Sprintf("%d samples, must be %d", len(v), len(x))
		}
		for i := range x {
			if e := lab(v[i].Metric, x[i].Metric); e != "" {
				return fmt.Sprintf("sample %d: %s", i, e)
			}
			if e := same(v[i].Point, x[i].T, x[i].V); e != "" {
				return fmt.Sprintf("sample %d: %s", i, e)
			}
		}
	case promql.Matrix:
		var v []struct {
			Metric map[string]string
			Points []yPoint
		}
		if !yamlList(out) {
			return "not a YAML list"
		}
		if err := yaml.UnmarshalStrict([]byte(out), &v); err != nil {
			return "not the YAML of a matrix: " + err.Error()
		}
		if len(v) != len(x) {
			return fmt.Sprintf("%d series, must be %d", len(v), len(x))
		}
		for i := range x {
			if e := lab(v[i].Metric, x[i].Metric); e != "" {
				return fmt.Sprintf("series %d: %s", i, e)
			}
			if len(v[i].Points) != len(x[i].Points) {
				return fmt.Sprintf("series %d: %d points, must be %d", i, len(v[i].Points), len(x[i].Points))
			}
			for k, p := range x[i].Points {
				if e := same(v[i].Points[k], p.T, p.V); e != "" {
					return fmt.Sprintf("series %d point %d: %s", i, k, e)
				}
			}
		}
	}
	return ""
}

func fmtF(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func promLabels(ls labels.Labels, name bool) string {
	var ps []string
	for _, l := range ls {
		if l.Name == labels.MetricName && !name {
			continue
		}
		ps = append(ps, l.Name+"="+strconv.Quote(l.Value))
	}
	return "{" + strings.Join(ps, ", ") + "}"
}

func wantProm(val parser.Value) string {
	var lines []string
	switch x := val.(type) {
	case promql.Scalar:
		return fmt.Sprintf("scalar: %s @[%d]", fmtF(x.V), x.T)
	case promql.String:
		return x.V
	case promql.Vector:
		for _, s := range x {
			lines = append(lines, s.Metric.Get(labels.MetricName)+promLabels(s.Metric, false)+fmt.Sprintf(" => %s @[%d]", fmtF(s.V), s.T))
		}
	case promql.Matrix:
		for _, s := range x {
			lines = append(lines, promLabels(s.Metric, true)+" =>")
			if len(s.Points) == 0 {
				lines = append(lines, "")
			}
			for _, p := range s.Points {
				lines = append(lines, fmt.Sprintf("%s @[%d]", fmtF(p.V), p.T))
			}
		}
	}
	return strings.Join(lines, "\n")
}

func genResult(r *rand.Rand) parser.Value {
	switch r.Intn(6) {
	case 0:
		return promql.Scalar{T: genMs(r), V: genFloat(r)}
	case 1:
		return promql.String{T: genMs(r), V: pick(r, outVals)}
	case 2, 3:
		v := promql.Vector{}
		t := genMs(r)
		n := r.Intn(6)
		if r.Intn(800) == 0 {
			n = r.Intn(1200) // as large as real results get
		}
		for ; n > 0; n-- {
			v = append(v, promql.Sample{Metric: genResultLabels(r), Point: promql.Point{T: t, V: genFloat(r)}})
		}
		return v
	default:
		m := promql.Matrix{}
		for n := r.Intn(4); n > 0; n-- {
			s := promql.Series{Metric: genResultLabels(r)}
			t := genMs(r)
			k := r.Intn(5)
			if r.Intn(800) == 0 {
				k = r.Intn(1200)
			}
			for ; k > 0; k-- {
				s.Points = append(s.Points, promql.Point{T: t, V: genFloat(r)})
				t += 1 + r.Int63n(10000)
			}
			m = append(m, s)
		}
		return m
	}
}

func c26(c *h.Ctx) {
	c.Rule("random query results (scalars, strings, vectors, matrices; labels with control characters, quotes, markup, YAML and format-string syntax, any Unicode; NaN, infinities and extreme floats; times before and after the epoch) written in every output format, with and without colour: JSON and YAML are read back and compared with the result value by value, the Prometheus format with lines composed independently; errors and unknown formats must be errors; the result must be left as it was. Non-trivial: at least two series or samples, or a special value")
	formats := []string{"json", "json-colour", "yaml", "prometheus"}
	defer func(o bool) { color.NoColor = o }(color.NoColor)
	c.Cases("formats", c.N(60000, 1000000), func(i int, r *rand.Rand) {
		val := genResult(r)
		f := formats[i%len(formats)]
		name, col := f, false
		if f == "json-colour" {
			name, col = "json", true
		}
		// colour is used on terminals only
		color.NoColor = r.Intn(2) == 0
		// strings of their own, so that a change to the result is seen
		snap := fmt.Sprintf("%T %v", val, val)
		desc := fmt.Sprintf("%s of %s", f, snap)
		c.Desc("%s", desc)
		var warn storage.Warnings
		if r.Intn(16) == 0 {
			warn = storage.Warnings{errors.New("a warning")}
		}
		var out *string
		var err error
		if !c.Call("ToPrettyFormat", func() { out, err = prom.ToPrettyFormat(&promql.Result{Value: val, Warnings: warn}, name, col) }) {
			return
		}
		if now := fmt.Sprintf("%T %v", val, val); now != snap {
			c.Violation("result-changed", "%s\nthe result was changed into %s", desc, now)
			return
		}
		nt := false
		switch x := val.(type) {
		case promql.Vector:
			nt = len(x) > 1
		case promql.Matrix:
			nt = len(x) > 1
		case promql.Scalar:
			nt = math.IsNaN(x.V) || math.IsInf(x.V, 0)
		}
		c.Eval(desc, nt)
		if err != nil || out == nil {
			c.Violation("error", "%s\nfailed: %v", desc, err)
			return
		}
		why := ""
		switch f {
		case "json":
			why = judgeJSON(*out, val)
		case "json-colour":
			text := *out
			if !color.NoColor {
				text = ansi.ReplaceAllString(text, "")
				if strings.ContainsAny(text, "0123456789\"") && text == *out {
					why = "no colours although they were asked for"
				}
			} else if ansi.MatchString(text) {
				why = "colour codes although there are no colours"
			}
			if why == "" {
				why = judgeJSON(text, val)
			}
		case "yaml":
			why = judgeYAML(*out, val)
		case "prometheus":
			if w := wantProm(val); w != *out {
				why = fmt.Sprintf("must be %q", w)
			}
		}
		if why != "" {
			c.Violation("wrong-"+f, "%s\nwritten as %q: %s", desc, *out, why)
			return
		}
		c.Count("outputs_read_back", 1)
		if c.WantSample() && nt {
			c.Sample("%s -> %q", desc, *out)
		}
	})
	c.Cases("errors", c.N(400, 4000), func(i int, r *rand.Rand) {
		boom := errors.New("boom " + strconv.Itoa(i))
		name := []string{"json", "yaml", "prometheus", "json"}[i%4]
		res := &promql.Result{Err: boom}
		if r.Intn(2) == 0 {
			res.Value = genResult(r)
		}
		wantBoom := true
		switch r.Intn(3) {
		case 0:
			name = []string{"", "JSON", "xml", "Json", "yml", "text", "prom", " json", "jsonx", "table"}[r.Intn(10)]
			wantBoom = false
			if r.Intn(2) == 0 {
				res = &promql.Result{Value: genResult(r)}
			}
		}
		c.Desc("format %q of %v", name, res)
		var out *string
		var err error
		if !c.Call("ToPrettyFormat", func() { out, err = prom.ToPrettyFormat(res, name, i%8 < 4) }) {
			return
		}
		if err == nil || out != nil {
			c.Violation("error-lost", "format %q of %v: no error", name, res)
			return
		}
		if wantBoom && !errors.Is(err, boom) {
			c.Violation("error-lost", "format %q of %v: error is %v", name, res, err)
			return
		}
		c.Count("errors_seen", 1)
		c.Eval(fmt.Sprintf("err %d", i), true)
	})
}

func init() { h.Register(h.Check{ID: "C26", Fn: c26}) }
