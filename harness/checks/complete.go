package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/c-bata/go-prompt"
	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql/parser"

	"sigs.k8s.io/instrumentation-tools/cmd/metrics"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
	"sigs.k8s.io/instrumentation-tools/promq/prom"

	"verif/harness/h"
)

// ---- shared: an index with known contents

type idxModel map[string]map[string][]string // metric -> label -> values

func (m idxModel) metrics() []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (m idxModel) labels(metric string) []string {
	var out []string
	for k := range m[metric] {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (m idxModel) build() prom.Indexer {
	ix := prom.NewIndex()
	for _, metric := range m.metrics() {
		ix.UpdateMetric(prom.ParsedSeries{Labels: labels.FromStrings(labels.MetricName, metric)})
		for _, l := range m.labels(metric) {
			for _, v := range m[metric][l] {
				ix.UpdateMetric(prom.ParsedSeries{Labels: labels.FromStrings(labels.MetricName, metric, l, v), Value: 1})
			}
		}
	}
	return ix
}

var stdIndex = idxModel{
	"http_requests_total": {"code": {"200", "404", "500"}, "method": {"GET", "POST"}, "instance": {"http://a:1/metrics", "b"}},
	"http_errors":         {"code": {"1"}, "zone": {"eu west", "us\"east", "back\\slash"}},
	"up":                  {"job": {"x", "é日本"}},
	"ns:agg:rate5m":       {"le": {"0.5", "+Inf"}},
	"node_cpu":            {"cpu": {"0", "1"}, "mode": {"idle", "user"}, "by_zone": {"q"}},
	"clash":               {"hour": {"1"}, "sum": {"2"}, "time": {"3"}, "by": {"4"}, "rate": {"5"}, "bool": {"x"}, "offset": {"y"}, "plain": {"z"}},
	"sum_x":               {"on_call": {"a"}, "_y": {"b,c", "{}", "nl\nx"}},
	"Up":                  {"Zone": {"A", "a"}, "BY": {"1"}, "zone": {"z"}, "Sum": {"2"}},
}

type matchRow struct {
	V, K, D string
}

func suggest(comp autocomplete.PromQLCompleter, q string, pos int) []matchRow {
	var out []matchRow
	for _, m := range comp.GenerateSuggestions(q, pos) {
		out = append(out, matchRow{m.GetValue(), m.GetKind(), m.GetDetail()})
	}
	return out
}

func values(ms []matchRow) []string {
	var out []string
	for _, m := range ms {
		out = append(out, m.V)
	}
	return out
}

func sortedRows(ms []matchRow) string {
	out := make([]string, len(ms))
	for i, m := range ms {
		out[i] = m.V + "\x00" + m.K + "\x00" + m.D
	}
	sort.Strings(out)
	return strings.Join(out, "\x01")
}

// ---- shared: text generators

var textBits = []string{
	"up", "http_requests_total", "http_", "node_cpu", "ns:agg:rate5m", "sum", "sum_x", "rate", "abs", "time", "scalar", "topk", "count_values", "by", "without", "on", "ignoring", "group_left", "group_right",
	"bool", "offset", "and", "or", "unless", "(", ")", "{", "}", "[", "]", ",", ":", "=", "!=", "=~", "!~", "==", ">=", "<", ">", "+", "-", "*", "/", "%", "^", "@", "1", "5m", "0x1F", "1e9", ".5", "NaN", "Inf", "\"a\"", "'b'", "`c`", "\"unterminated", "'", "\"", "`", "\\", "#c", "\n", "\t", " ", "  ", "é", "日本", "👩‍🚀", "\u0301", "_", "$", "&", "|", "!", "~", "?", ";", "5", "1h30m", "code", "le", "start()", "end()",
}

func hostileText(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		b := make([]byte, r.Intn(30))
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		return string(b)
	case 1:
		rs := make([]rune, r.Intn(20))
		for i := range rs {
			rs[i] = rune(r.Intn(0x2fff))
		}
		return string(rs)
	case 2:
		toks := genPromQuery(r, r.Intn(4))
		s := joinTokens(r, toks, true)
		bs := []byte(s)
		for k := 0; k < 1+r.Intn(3) && len(bs) > 0; k++ {
			p := r.Intn(len(bs))
			switch r.Intn(3) {
			case 0:
				bs = append(bs[:p], bs[p+1:]...)
			case 1:
				bs[p] = byte(32 + r.Intn(95))
			case 2:
				bs = append(bs[:p], append([]byte(textBits[r.Intn(len(textBits))]), bs[p:]...)...)
			}
		}
		return string(bs)
	}
	var sb strings.Builder
	for k := r.Intn(14); k >= 0; k-- {
		sb.WriteString(textBits[r.Intn(len(textBits))])
		if r.Intn(2) == 0 {
			sb.WriteByte(' ')
		}
	}
	return sb.String()
}

// ---- generator of queries in the supported forms

type qtok struct {
	text   string
	kind   string // metric label value func aggr kw op num dur punct
	metric string // context, for label and value
	label  string
}

type qgen struct {
	r   *rand.Rand
	idx idxModel
	out []qtok
	// every metric named so far
	metrics []string
}

func (g *qgen) add(kind, text string) { g.out = append(g.out, qtok{text: text, kind: kind}) }
func (g *qgen) p(s string)            { g.add("punct", s) }

func (g *qgen) labelList(metric string) {
	g.p("(")
	ls := g.idx.labels(metric)
	n := g.r.Intn(3)
	if g.r.Intn(8) == 0 {
		n = 3 + g.r.Intn(3)
	}
	for i := 0; i < n && len(ls) > 0; i++ {
		if i > 0 {
			g.p(",")
		}
		g.out = append(g.out, qtok{text: ls[g.r.Intn(len(ls))], kind: "label", metric: metric})
	}
	if n > 0 && len(ls) > 0 && g.r.Intn(8) == 0 {
		g.p(",") // a list of labels may end with a comma
	}
	g.p(")")
}

func (g *qgen) selector(withRange bool) string {
	ms := g.idx.metrics()
	m := ms[g.r.Intn(len(ms))]
	g.metrics = append(g.metrics, m)
	g.add("metric", m)
	if g.r.Intn(2) == 0 {
		g.p("{")
		ls := g.idx.labels(m)
		n := 1 + g.r.Intn(2)
		if g.r.Intn(8) == 0 {
			n = 3 + g.r.Intn(3)
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				g.p(",")
			}
			l := ls[g.r.Intn(len(ls))]
			g.out = append(g.out, qtok{text: l, kind: "label", metric: m})
			g.add("lop", []string{"=", "!=", "=~", "!~"}[g.r.Intn(4)])
			vs := g.idx[m][l]
			g.out = append(g.out, qtok{text: quoteProm(vs[g.r.Intn(len(vs))]), kind: "value", metric: m, label: l})
		}
		g.p("}")
	}
	if withRange {
		g.p("[")
		g.dur()
		g.p("]")
	}
	g.offset()
	return m
}

func (g *qgen) dur() {
	g.add("dur", []string{"5m", "1h", "30s", "2d", "1w", "1y", "90s", "007m", "08d", "3000000000s"}[g.r.Intn(10)])
}

func (g *qgen) offset() {
	if g.r.Intn(5) == 0 {
		g.add("kw", "offset")
		g.dur()
	}
}

func quoteProm(s string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, "\n", `\n`, `"`, `\"`).Replace(s) + `"`
}

var (
	vecFuncs    = []string{"abs", "absent", "ceil", "exp", "floor", "ln", "log10", "log2", "round", "sort", "sort_desc", "sqrt", "timestamp"}
	timeFuncs   = []string{"day_of_month", "day_of_week", "days_in_month", "hour", "minute", "month", "year"}
	rangeFuncs  = []string{"rate", "irate", "increase", "avg_over_time", "changes", "delta", "idelta", "deriv", "resets", "count_over_time", "max_over_time", "min_over_time", "sum_over_time", "stddev_over_time", "stdvar_over_time", "absent_over_time"}
	plainAggs   = []string{"sum", "max", "min", "avg", "stddev", "stdvar", "count"}
	cmpOps      = []string{"==", "!=", ">", "<", ">=", "<="}
	arithOps    = []string{"+", "-", "*", "/", "%", "^"}
	setOpsQuery = []string{"and", "or", "unless"}
)

func (g *qgen) scalar(d int) {
	r := g.r
	switch {
	case d <= 0 || r.Intn(3) == 0:
		g.add("num", []string{"1", "2.5", "100", "0", ".5", "1e9", "0x1F", "Inf", "NaN"}[r.Intn(9)])
	case r.Intn(8) == 0:
		g.p("(")
		g.unary()
		g.scalar(d - 1)
		g.p(")")
	case r.Intn(4) == 0:
		g.add("func", "time")
		g.p("(")
		g.p(")")
	case r.Intn(3) == 0:
		g.add("func", "scalar")
		g.p("(")
		if r.Intn(4) == 0 {
			g.unary()
		}
		g.vector(d - 1)
		g.p(")")
	case r.Intn(3) == 0:
		g.p("(")
		g.scalar(0)
		g.add("op", arithOps[r.Intn(len(arithOps))])
		g.scalar(d - 1)
		g.p(")")
	case r.Intn(2) == 0:
		g.scalar(d - 1)
		g.add("op", cmpOps[r.Intn(len(cmpOps))])
		g.add("kw", "bool")
		g.scalar(d - 1)
	default:
		g.scalar(d - 1)
		g.add("op", arithOps[r.Intn(len(arithOps))])
		g.scalar(d - 1)
	}
}

func (g *qgen) unary() { g.add("op", []string{"-", "+"}[g.r.Intn(2)]) }

func (g *qgen) binary(d int) {
	r := g.r
	if r.Intn(12) == 0 {
		// with one side, or both, in parentheses for its sign
		g.p("(")
		g.unary()
		g.vector(d - 1)
		g.p(")")
		g.binop(true)
		g.vector(d - 1)
		return
	}
	switch r.Intn(5) {
	case 0:
		g.scalar(d - 1)
		g.binop(false)
		g.vector(d - 1)
	case 1:
		g.vector(d - 1)
		g.binop(false)
		g.scalar(d - 1)
	case 2:
		g.vector(d - 1)
		g.add("op", setOpsQuery[r.Intn(3)])
		if r.Intn(2) == 0 {
			g.add("kw", []string{"on", "ignoring"}[r.Intn(2)])
			g.labelList(g.lastMetric())
		}
		g.vector(d - 1)
	default:
		g.vector(d - 1)
		g.binop(true)
		g.vector(d - 1)
	}
}

func (g *qgen) lastMetric() string {
	if len(g.metrics) == 0 {
		return ""
	}
	return g.metrics[len(g.metrics)-1]
}

func (g *qgen) binop(group bool) {
	r := g.r
	if r.Intn(2) == 0 {
		g.add("op", arithOps[r.Intn(len(arithOps))])
	} else {
		g.add("op", cmpOps[r.Intn(len(cmpOps))])
		if r.Intn(3) == 0 {
			g.add("kw", "bool")
		}
	}
	if group && r.Intn(3) == 0 {
		g.add("kw", []string{"on", "ignoring"}[r.Intn(2)])
		g.labelList(g.lastMetric())
		if r.Intn(2) == 0 {
			g.add("kw", []string{"group_left", "group_right"}[r.Intn(2)])
			if r.Intn(2) == 0 {
				g.labelList(g.lastMetric())
			}
		}
	}
}

func (g *qgen) vector(d int) {
	r := g.r
	if d <= 0 {
		g.selector(false)
		return
	}
	switch r.Intn(7) {
	case 0:
		g.selector(false)
	case 1, 2:
		g.add("aggr", plainAggs[r.Intn(len(plainAggs))])
		switch r.Intn(3) {
		case 0:
			g.p("(")
			g.vector(d - 1)
			g.p(")")
		case 1:
			g.p("(")
			g.vector(d - 1)
			g.p(")")
			g.add("kw", []string{"by", "without"}[r.Intn(2)])
			g.labelList(g.lastMetric())
		case 2:
			g.add("kw", []string{"by", "without"}[r.Intn(2)])
			g.p("(")
			if r.Intn(2) == 0 {
				g.add("freelabel", "anylabel")
			}
			g.p(")")
			g.p("(")
			g.vector(d - 1)
			g.p(")")
		}
	case 3:
		if r.Intn(4) == 0 {
			g.add("func", timeFuncs[r.Intn(len(timeFuncs))])
			g.p("(")
			if r.Intn(3) > 0 {
				g.vector(d - 1)
			}
			g.p(")")
			return
		}
		g.add("func", vecFuncs[r.Intn(len(vecFuncs))])
		g.p("(")
		if r.Intn(10) == 0 {
			g.unary()
		}
		g.vector(d - 1)
		g.p(")")
	case 4:
		g.add("func", rangeFuncs[r.Intn(len(rangeFuncs))])
		g.p("(")
		g.matrix(d - 1)
		g.p(")")
	case 5:
		g.p("(")
		g.binary(d)
		g.p(")")
	case 6:
		fn := multiArgFuncs[r.Intn(len(multiArgFuncs))]
		g.add("func", fn.name)
		g.p("(")
		for i, a := range fn.args {
			if i > 0 {
				g.p(",")
			}
			switch a {
			case 'v':
				g.vector(d - 1)
			case 'm':
				g.matrix(d - 1)
			case 's':
				g.scalar(d - 1)
			}
		}
		g.p(")")
	}
}

// arguments: v instant vector, m range vector, s scalar
var multiArgFuncs = []struct{ name, args string }{
	{"histogram_quantile", "sv"}, {"clamp_max", "vs"}, {"clamp_min", "vs"}, {"vector", "s"}, {"round", "vs"},
	{"quantile_over_time", "sm"}, {"predict_linear", "ms"}, {"holt_winters", "mss"},
}

func (g *qgen) matrix(d int) {
	if d <= 0 || g.r.Intn(2) == 0 {
		g.selector(true)
		return
	}
	g.vector(d - 1)
	g.p("[")
	g.dur()
	g.p(":")
	if g.r.Intn(2) == 0 {
		g.dur()
	}
	g.p("]")
	g.offset()
}

func genQueryIdx(r *rand.Rand, d int, idx idxModel) []qtok {
	g := &qgen{r: r, idx: idx}
	switch r.Intn(6) {
	case 0:
		g.scalar(d)
	case 1:
		g.matrix(d)
	case 2:
		g.binary(d)
	case 3:
		g.unary()
		if r.Intn(4) == 0 {
			g.scalar(d)
		} else {
			g.vector(d)
		}
	default:
		g.vector(d)
	}
	return g.out
}

func genPromQuery(r *rand.Rand, d int) []qtok { return genQueryIdx(r, d, stdIndex) }

func wordy(s string) bool {
	c := s[len(s)-1]
	return c == '_' || c == ':' || c == '"' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// wordyStart tells if t can't follow a wordy token without a space.
func wordyStart(t string) bool { return wordy(t[:1]) }

// joinTokens renders tokens, with a space wherever one could matter.
func joinTokens(r *rand.Rand, toks []qtok, loose bool) string {
	var sb strings.Builder
	tight := loose && r.Intn(3) == 0
	for i, t := range toks {
		if i > 0 {
			need := !(toks[i-1].kind == "punct" || t.kind == "punct")
			if tight && !(wordy(toks[i-1].text) && wordyStart(t.text)) {
				need = false
			}
			inRange := t.text == ":" || toks[i-1].text == ":"
			if need || (!inRange && loose && r.Intn(3) == 0) {
				sb.WriteString(strings.Repeat(" ", 1+r.Intn(2)/2))
			}
		}
		sb.WriteString(t.text)
	}
	return sb.String()
}

// ---- C10: completion never crashes or hangs

func c10(c *h.Ctx) {
	c.Rule("arbitrary text (PromQL fragments, mutated valid queries, raw bytes, unicode) with the cursor at every offset, completed through the prompt-facing completer (rune cursor positions) and through the completion engine (every byte offset), plus character-by-character typing and erasing sessions in one process; the monitor flags panics, non-termination and unbounded memory, and checks that text after the cursor does not matter; non-trivial: the text before the cursor is not blank")
	comp := earley.NewPromQLCompleter(stdIndex.build())
	pc := metrics.NewCompleter(comp)
	doc := func(text string, cursor int) *prompt.Document {
		b := prompt.NewBuffer()
		b.InsertText(text, false, true)
		rs := utf8.RuneCountInString(text)
		b.CursorLeft(rs - cursor)
		return b.Document()
	}
	c.Cases("positions", c.N(700, 12000), func(i int, r *rand.Rand) {
		text := hostileText(r)
		pos := make([]int, 0)
		for p := 0; p <= len(text); p++ {
			if utf8.ValidString(text) || r.Intn(2) == 0 {
				pos = append(pos, p)
			}
		}
		if len(pos) > 14 {
			r.Shuffle(len(pos), func(a, b int) { pos[a], pos[b] = pos[b], pos[a] })
			pos = pos[:14]
			pos = append(pos, len(text))
		}
		for _, p := range pos {
			c.Desc("GenerateSuggestions(%q, %d)", text, p)
			c.Eval(text[:p], strings.TrimSpace(text[:p]) != "")
			var res []matchRow
			if !c.Call("complete", func() { res = suggest(comp, text, p) }) {
				return
			}
			c.Count("suggestions", len(res))
			if r.Intn(4) == 0 {
				var cut []matchRow
				if !c.Call("complete", func() { cut = suggest(comp, text[:p], p) }) {
					return
				}
				if sortedRows(res) != sortedRows(cut) {
					c.Violation("depends-on-suffix", "completing %q at %d depends on the text after the cursor: %q vs %q", text, p, values(res), values(cut))
				}
			}
		}
	})
	c.Cases("prompt", c.N(700, 12000), func(i int, r *rand.Rand) {
		text := strings.ToValidUTF8(hostileText(r), "é")
		text = strings.ReplaceAll(text, "\n", " ")
		n := utf8.RuneCountInString(text)
		for k := 0; k < 6; k++ {
			cur := r.Intn(n + 1)
			d := doc(text, cur)
			before := string([]rune(text)[:cur])
			c.Desc("Complete(%q | %q)", before, string([]rune(text)[cur:]))
			if d.TextBeforeCursor() != before {
				c.Inconclusive("document construction is off: %q vs %q", d.TextBeforeCursor(), before)
				return
			}
			c.Eval("p"+before, strings.TrimSpace(before) != "")
			var got []prompt.Suggest
			if !c.Call("complete", func() { got = pc.Complete(*d) }) {
				return
			}
			if before == "" {
				if len(got) != 0 {
					c.Violation("empty-not-quiet", "an empty prompt offers %d suggestions", len(got))
				}
				continue
			}
			var eng []matchRow
			if !c.Call("complete", func() { eng = suggest(comp, before, len(before)) }) {
				return
			}
			// what accepting them makes of the text is C33's
			var a, b []string
			for _, s := range got {
				a = append(a, s.Description)
			}
			for _, m := range eng {
				b = append(b, m.D)
			}
			sort.Strings(a)
			sort.Strings(b)
			if strings.Join(a, "\x01") != strings.Join(b, "\x01") {
				c.Violation("prompt-engine-differ", "prompt completion for %q|%q differs from completing the text before the cursor: %q vs %q", before, string([]rune(text)[cur:]), a, b)
			}
			if c.WantSample() && len(got) > 0 {
				c.Sample("%q -> %d suggestions, e.g. %q", before, len(got), got[0].Text)
			}
		}
	})
	c.Cases("typing", c.N(60, 1200), func(i int, r *rand.Rand) {
		cur := ""
		for step := 0; step < 40; step++ {
			switch r.Intn(6) {
			case 0:
				if len(cur) > 0 {
					_, n := utf8.DecodeLastRuneInString(cur)
					cur = cur[:len(cur)-n]
				}
			case 1:
				cur = cur[:r.Intn(len(cur)+1)]
				cur = strings.ToValidUTF8(cur, "")
			case 2:
				cur = strings.ToValidUTF8(hostileText(r), "é")
			default:
				cur += textBits[r.Intn(len(textBits))]
			}
			if len(cur) > 120 {
				cur = ""
			}
			c.Desc("typing session, now %q", cur)
			c.Eval("t"+cur, strings.TrimSpace(cur) != "")
			if !c.Call("complete", func() { suggest(comp, cur, len(cur)) }) {
				return
			}
		}
	})
	if c.Shard == 0 {
		// long input: cost must stay reasonable
		for _, unit := range []string{"up + ", "(", "up{code=\"1\",", "sum(", ")", "-", "\"", "[5m:", "é "} {
			c.ListCases("long:"+unit, 1, func(int) {
				n := 120
				text := strings.Repeat(unit, n/len(unit)+1)
				c.Desc("long input %q x %d", unit, n/len(unit)+1)
				c.Eval(text, true)
				c.Call("complete", func() { suggest(comp, text, len(text)) })
			})
		}
	}
}

// ---- C11: completion is a function of the text and the index alone

// FreshComplete answers queries (JSON list on stdin) in a fresh process; used by C11.
func FreshComplete() {
	var qs []string
	if err := json.NewDecoder(os.Stdin).Decode(&qs); err != nil {
		os.Exit(3)
	}
	comp := earley.NewPromQLCompleter(stdIndex.build())
	out := make([]string, len(qs))
	for i, q := range qs {
		func() {
			defer func() {
				if p := recover(); p != nil {
					out[i] = fmt.Sprint("panic: ", p)
				}
			}()
			out[i] = sortedRows(suggest(comp, q, len(q)))
		}()
	}
	_ = json.NewEncoder(os.Stdout).Encode(out)
}

func fresh(q string) (string, error) {
	b, _ := json.Marshal([]string{q})
	cmd := exec.Command(os.Args[0], "fresh-complete", "x")
	cmd.Stdin = strings.NewReader(string(b))
	out, err := cmd.Output()
	if err != nil {
		return "", err
	}
	var res []string
	if err := json.Unmarshal(out, &res); err != nil || len(res) != 1 {
		return "", fmt.Errorf("bad output %q", out)
	}
	return res[0], nil
}

func editStep(r *rand.Rand, cur string) string {
	switch r.Intn(10) {
	case 0: // erase a little
		if len(cur) > 0 {
			cur = cur[:len(cur)-1-r.Intn(min(4, len(cur)))]
		}
	case 1: // cut back
		cur = cur[:r.Intn(len(cur)+1)]
	case 2: // something else entirely
		cur = joinTokens(r, genPromQuery(r, r.Intn(3)), true)
	case 3: // edit in the middle
		if len(cur) > 0 {
			p := r.Intn(len(cur))
			cur = cur[:p] + textBits[r.Intn(len(textBits))] + cur[p:]
		}
	case 4: // replace a piece
		if len(cur) > 3 {
			p := r.Intn(len(cur) - 2)
			cur = cur[:p] + cur[p+1+r.Intn(2):]
		}
	case 5: // prefix of a valid query
		q := joinTokens(r, genPromQuery(r, r.Intn(3)), true)
		cur = q[:r.Intn(len(q)+1)]
	case 6:
		cur += " "
	default:
		if r.Intn(3) == 0 {
			cur += " "
		}
		cur += textBits[r.Intn(len(textBits))]
	}
	if len(cur) > 100 {
		cur = cur[:r.Intn(60)]
	}
	return strings.ToValidUTF8(cur, "")
}

func c11(c *h.Ctx) {
	c.Rule("editing sessions (typing, erasing, cutting, pasting, mid-text edits, words replaced by others of the same length, malformed text in between) against one long-lived completer; every answer is compared with every other answer ever given for the same text in the process, and sampled answers with those of a fresh process that saw nothing else; non-trivial: the answer is not empty")
	comp := earley.NewPromQLCompleter(stdIndex.build())
	memo := map[string]string{}
	check := func(q string, sess []string) bool {
		var got string
		if !c.Call("complete", func() { got = sortedRows(suggest(comp, q, len(q))) }) {
			return false
		}
		c.Eval(q, got != "")
		if prev, ok := memo[q]; ok {
			c.Count("repeat_comparisons", 1)
			if prev != got {
				c.Violation("history-dependent", "completing %q gave %q and later, after %q, %q", q, rowsVals(prev), tail(sess, 5), rowsVals(got))
				return false
			}
		} else {
			memo[q] = got
		}
		return true
	}
	nFresh := 0
	c.Cases("sessions", c.N(240, 4000), func(i int, r *rand.Rand) {
		cur := ""
		var sess []string
		for step := 0; step < 30; step++ {
			cur = editStep(r, cur)
			if r.Intn(5) == 0 && len(sess) > 0 {
				cur = sess[r.Intn(len(sess))]
			}
			c.Desc("session after %q: %q", tail(sess, 6), cur)
			if !check(cur, sess) {
				return
			}
			sess = append(sess, cur)
			// going on typing or erasing right after a probe: revisit its prefixes
			if r.Intn(6) == 0 && len(cur) > 1 {
				p := strings.ToValidUTF8(cur[:r.Intn(len(cur))], "")
				if !check(p, sess) {
					return
				}
				sess = append(sess, p)
			}
		}
		// compare with a process that saw only this text
		for k := 0; k < 2; k++ {
			q := sess[r.Intn(len(sess))]
			want, err := fresh(q)
			if err != nil {
				c.Inconclusive("fresh process: %v", err)
				return
			}
			nFresh++
			c.Count("fresh_comparisons", 1)
			if memo[q] != want {
				c.Violation("history-dependent", "completing %q in a session gave %q, but %q when it is the first text ever completed; session %q", q, rowsVals(memo[q]), rowsVals(want), tail(sess, 40))
				return
			}
			if c.WantSample() && want != "" {
				c.Sample("%q: session answer = fresh answer = %q", q, rowsVals(want))
			}
		}
	})
	// words replaced in place by others of the same length: every answer must be
	// the one given when some unrelated text was completed before
	swapWords := [][]string{
		{"maa", "mbb", "mcc", "abs", "sum", "lna"}, {"laa", "lbb", "lcc", "foo"}, {`"v1"`, `"v2"`, `"v3"`},
		{"==", "!=", ">=", "=~", "!~"}, {"+", "-", "*", ">", "="}, {"by", "on", "or"}, {"sum", "avg", "max", "min", "abs", "exp"},
	}
	swapForms := []string{"$0{", "$0{$1=", "$0{$1=$2,", "$0{$1=$2,$1=", "$0 $4 $0{", "$0 $3 $0{$1=", "$6($0{", "$6 by ($1) ($0{", "$6($0) $5 ($1", "$6($0) by ($1", "$0 $5 ($1) $0{", "$0[5m", "$6($0[5m])", "$0{$1=$2} $4 $0{$1=", "($0 $4 $0) $4 $0{", "$6($0{$1=$2}) ", "$0 $4 on ($1) group_left ($1) $0{"}
	swapIdx := idxModel{
		"maa": {"laa": {"v1", "v2"}, "lxa": {"p1"}}, "mbb": {"lbb": {"v2", "v3"}, "laa": {"q1"}, "lxb": {"p2"}}, "mcc": {"lcc": {"v3"}, "lxc": {"p3"}},
	}
	swapComp := earley.NewPromQLCompleter(swapIdx.build())
	c.Cases("swaps", c.N(1500, 40000), func(i int, r *rand.Rand) {
		form := swapForms[r.Intn(len(swapForms))]
		var parts []string // literal pieces and words
		var kinds []int
		for len(form) > 0 {
			if form[0] == '$' {
				k := int(form[1] - '0')
				parts, kinds = append(parts, pick(r, swapWords[k])), append(kinds, k)
				form = form[2:]
				continue
			}
			n := strings.IndexByte(form, '$')
			if n < 0 {
				n = len(form)
			}
			parts, kinds = append(parts, form[:n]), append(kinds, -1)
			form = form[n:]
		}
		var sess []string
		for step := 0; step < 6; step++ {
			for try := 0; try < 20; try++ {
				k := r.Intn(len(parts))
				if kinds[k] < 0 {
					continue
				}
				w := pick(r, swapWords[kinds[k]])
				if len(w) == len(parts[k]) && w != parts[k] {
					parts[k] = w
					break
				}
			}
			q := strings.Join(parts, "")
			if r.Intn(4) == 0 {
				q = q[:r.Intn(len(q)+1)]
			}
			c.Desc("after %q: %q", sess, q)
			var got, again string
			if !c.Call("complete", func() {
				got = sortedRows(suggest(swapComp, q, len(q)))
			}) {
				return
			}
			if r.Intn(2) == 0 {
				other := []string{"1 ", "(", "zzz ", "-"}[r.Intn(4)]
				if !c.Call("complete", func() {
					suggest(swapComp, other, len(other))
					again = sortedRows(suggest(swapComp, q, len(q)))
				}) {
					return
				}
				c.Eval("swap"+q, got != "")
				c.Count("swap_comparisons", 1)
				if got != again {
					c.Violation("history-dependent", "completing %q after %q gave %q, but after %q %q", q, sess, rowsVals(got), other, rowsVals(again))
					return
				}
				sess = []string{other}
			}
			sess = append(sess, q)
		}
	})
	// completers over different indexes must not influence each other
	c.Cases("two-indexes", c.N(60, 1000), func(i int, r *rand.Rand) {
		other := idxModel{"up": {"other": {"1"}}, "zzz": {"code": {"z"}}}
		ca, cb := earley.NewPromQLCompleter(stdIndex.build()), earley.NewPromQLCompleter(other.build())
		for k := 0; k < 8; k++ {
			toks := genPromQuery(r, 1)
			q := joinTokens(r, toks, true)
			q = q[:r.Intn(len(q)+1)]
			c.Desc("two completers: %q", q)
			var a1, b1, a2 string
			if !c.Call("complete", func() {
				a1 = sortedRows(suggest(ca, q, len(q)))
				b1 = sortedRows(suggest(cb, q, len(q)))
				a2 = sortedRows(suggest(ca, q, len(q)))
			}) {
				return
			}
			c.Eval("2"+q, a1 != b1)
			if a1 != a2 {
				c.Violation("cross-index", "completing %q gave %q, then %q after another completer was used", q, rowsVals(a1), rowsVals(a2))
			}
			for _, v := range strings.Split(b1, "\x01") {
				if strings.HasPrefix(v, "http_") || strings.HasPrefix(v, "node_cpu") {
					c.Violation("cross-index", "completing %q offered %q, which is only in another completer's index", q, v)
				}
			}
		}
	})
	// new data must show up at once
	c.Cases("index-grows", c.N(40, 400), func(i int, r *rand.Rand) {
		ix := stdIndex.build()
		ca := earley.NewPromQLCompleter(ix)
		q := []string{"zz", "up{", "sum(zz", "up{job=", "up + zz"}[r.Intn(5)]
		c.Desc("growing index: %q", q)
		if !c.Call("complete", func() { suggest(ca, q, len(q)) }) {
			return
		}
		ix.UpdateMetric(prom.ParsedSeries{Labels: labels.FromStrings(labels.MetricName, "zz_new", "a", "b")})
		ix.UpdateMetric(prom.ParsedSeries{Labels: labels.FromStrings(labels.MetricName, "up", "zlabel", "b", "job", "zval")})
		want := map[string]string{"zz": "zz_new", "up{": "zlabel", "sum(zz": "zz_new", "up{job=": `"zval"`, "up + zz": "zz_new"}[q]
		var got []matchRow
		if !c.Call("complete", func() { got = suggest(ca, q, len(q)) }) {
			return
		}
		c.Eval(fmt.Sprint("g", q, i), true)
		if !has(values(got), want) {
			c.Violation("stale-index", "completing %q does not offer %q although it is in the index now: %q", q, want, values(got))
		}
	})
}

func has(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func rowsVals(s string) []string {
	var out []string
	for _, row := range strings.Split(s, "\x01") {
		v, _, _ := strings.Cut(row, "\x00")
		out = append(out, v)
	}
	return tail(out, 40)
}

func tail(ss []string, n int) []string {
	if len(ss) > n {
		ss = ss[len(ss)-n:]
	}
	return append([]string(nil), ss...)
}

// ---- C12: completion offers the next token of supported queries, and nothing the language rejects

// viable tells if text can be continued to something the PromQL parser accepts:
// the parser reads left to right and objects at the first token that cannot
// continue any query, so its first complaint must concern the end of the text.
func viable(text string) (bool, string) {
	_, err := parser.ParseExpr(text)
	if err == nil {
		return true, ""
	}
	pe, ok := err.(parser.ParseErrors)
	if !ok || len(pe) == 0 {
		return false, err.Error()
	}
	first := pe[0]
	if int(first.PositionRange.Start) >= len(strings.TrimRight(text, " ")) {
		for _, k := range []string{"unexpected end of input", "unclosed left", "no expression found", "missing unit character"} {
			if strings.Contains(first.Err.Error(), k) {
				return true, ""
			}
		}
	}
	for _, k := range []string{"unexpected", "bad ", "unterminated", "escape ", "unknown escape", "unknown function", "illegal character", "invalid UTF-8", "trailing commas", "ranges only allowed", "offset mod", "offset may", "missing unit"} {
		if strings.HasPrefix(first.Err.Error(), k) {
			return false, err.Error()
		}
	}
	// not about the shape of the text: argument counts and types, label
	// clauses that repeat each other, values that are no regexps
	return true, ""
}

// groupParen matches text in a parenthesis opened right after group_left or group_right.
// groupSideAsExpr removes the group_left/group_right keyword in front of the
// parenthesis that text is inside of, so that the parenthesis reads as the
// start of an expression; "" if text is not inside such a parenthesis.
func groupSideAsExpr(text string) string {
	depth := 0
	for i := len(text) - 1; i >= 0; i-- {
		switch text[i] {
		case ')':
			depth++
		case '(':
			if depth == 0 {
				p := strings.TrimRight(text[:i], " ")
				for _, kw := range []string{"group_left", "group_right"} {
					if strings.HasSuffix(strings.ToLower(p), kw) {
						return p[:len(p)-len(kw)] + " " + text[i:]
					}
				}
				return ""
			}
			depth--
		}
	}
	return ""
}

const enginePrefixSeps = " []{}()+-*/%^=!><~,"

// typedWord is the word that text ends in, which completing it completes:
// since the last separator, or the string that text ends in (or with).
func typedWord(text string) string {
	var quote byte
	start := -1
	for i := 0; i < len(text); i++ {
		ch := text[i]
		if start < 0 {
			if ch == '"' || ch == '\'' || ch == '`' {
				start, quote = i, ch
			}
			continue
		}
		if ch == '\\' && quote != '`' {
			i++
		} else if ch == quote && i+1 < len(text) {
			start = -1
		}
	}
	if start >= 0 {
		return text[start:]
	}
	return text[strings.LastIndexAny(text, enginePrefixSeps)+1:]
}

// otherString is a string in any of PromQL's notations, which may hold what
// would be something else outside of a string.
func otherString(r *rand.Rand) string {
	parts := []string{"a", " ", "#", "{", "}", "(", ",", "=", "/", "x.*", "é", "5m"}
	style := r.Intn(3)
	switch style {
	case 0:
		parts = append(parts, "\\\"", "\\\\", "'", "`", "\\n")
	case 1:
		parts = append(parts, "\\'", "\\\\", "\"", "`", "\\n")
	case 2:
		parts = append(parts, "\\", "'", "\"", "$")
	}
	q := []string{"\"", "'", "`"}[style]
	s := q
	for k := r.Intn(5); k > 0; k-- {
		s += parts[r.Intn(len(parts))]
	}
	return s + q
}

// cutQuery cuts a valid query in front of or inside its token k: the text, and
// how much of the token it has; false where the token needn't be offered.
func cutQuery(r *rand.Rand, toks []qtok, k int) (text, part string, ok bool) {
	t := toks[k]
	typed := append([]qtok(nil), toks[:k]...)
	if r.Intn(8) == 0 {
		// keywords and aggregations may be written in any letter case
		for i := range typed {
			if t := &typed[i]; t.kind == "kw" || t.kind == "aggr" || t.kind == "op" && wordy(t.text) {
				t.text = strings.ToUpper(t.text)
			}
		}
	}
	for i := range typed {
		if typed[i].kind == "value" && r.Intn(4) == 0 {
			typed[i].text = otherString(r)
		}
	}
	before := joinTokens(r, typed, true)
	if k > 0 && (toks[k-1].kind != "punct" || r.Intn(3) == 0) && t.text != ":" && toks[k-1].text != ":" {
		if wordy(toks[k-1].text) || r.Intn(2) == 0 {
			before += " "
		}
	}
	switch t.kind {
	case "metric", "label", "func", "aggr", "kw":
		part = t.text[:r.Intn(len(t.text)+1)]
		if k == 0 && part == "" {
			part = t.text[:1]
		}
	case "value":
		part = t.text[:r.Intn(len(t.text))]
		if r.Intn(8) == 0 {
			part = t.text // up to its closing quote
		}
	case "op":
		if strings.Contains("and or unless", t.text) {
			part = t.text[:r.Intn(len(t.text)+1)]
		}
	case "lop":
	case "dur":
		part = t.text[:len(t.text)-1]
	default:
		return "", "", false
	}
	text = before + part
	return text, part, text != ""
}

func c12(c *h.Ctx) {
	c.Rule("random queries in the supported forms (selectors with matchers, ranges, offsets, functions, aggregations, binary and set operators with matching modifiers, subqueries), confirmed valid by the PromQL parser, cut before or inside every token: the next token must be offered, whatever follows the cursor; non-trivial: a cut with at least two tokens before it")
	comp := earley.NewPromQLCompleter(stdIndex.build())
	c.Assume("the PromQL parser of the pinned Prometheus release is the reference for what is valid; aggregations with parameters, selectors without a name and parenthesised non-binary expressions are not supported forms and are not required to be completed")
	judge := func(full string, toks []qtok, from int, r *rand.Rand) {
		for k := range toks {
			if k < from {
				continue
			}
			t := toks[k]
			text, _, needed := cutQuery(r, toks, k)
			if !needed {
				continue
			}
			c.Desc("%q cut to %q, next token %q", full, text, t.text)
			c.Eval(text+"\x00"+t.text, k >= 2)
			var got []matchRow
			pos := len(text)
			if !c.Call("complete", func() { got = suggest(comp, text+full[min(len(full), r.Intn(len(full)+1)):], pos) }) {
				return
			}
			vals := values(got)
			c.Count("suggestions", len(vals))
			ok := false
			switch t.kind {
			case "dur":
				ok = has(vals, t.text[len(t.text)-1:])
			case "value":
				want, _ := unquoteProm(t.text)
				for _, v := range vals {
					if u, err := unquoteProm(v); err == nil && u == want {
						ok = true
					}
				}
			default:
				ok = has(vals, t.text)
			}
			if !ok {
				c.Violation("missing:"+t.kind, "completing %q (from the valid query %q) does not offer %q; offered %q", text, full, t.text, vals)
				return
			}
			if c.WantSample() && k >= 3 {
				c.Sample("%q -> %d suggestions incl. %q", text, len(vals), t.text)
			}
		}
	}
	gen := func(r *rand.Rand, depth, lo, hi int) ([]qtok, string) {
		for try := 0; try < 400; try++ {
			toks := genPromQuery(r, depth)
			full := joinTokens(r, toks, false)
			if len(toks) >= lo && len(toks) <= hi {
				if _, err := parser.ParseExpr(full); err == nil {
					return toks, full
				}
				c.Count("rejected_by_parser", 1)
			}
		}
		return nil, ""
	}
	c.Cases("cuts", c.N(2600, 50000), func(i int, r *rand.Rand) {
		toks, full := gen(r, r.Intn(4), 1, 30)
		judge(full, toks, 0, r)
	})
	c.Cases("long", c.N(32, 600), func(i int, r *rand.Rand) {
		// parsing takes time cubic in the number of tokens
		toks, full := gen(r, 4+r.Intn(3), 45, 90)
		judge(full, toks, len(toks)-6, r)
	})
}

// ---- C13: nothing offered is rejected by the language

func c13(c *h.Ctx) {
	c.Rule("suggestions made for cuts of random valid queries, for mutated queries and for random fragment sequences, wherever what precedes the word being typed can still become a valid query: each offer must extend what was typed, and once accepted must leave text that the PromQL parser does not reject before its end; every function offered must exist in PromQL; non-trivial: at least one suggestion and two tokens before the cursor")
	c.Assume("the PromQL parser of the pinned Prometheus release is the reference for what is valid; it reads left to right and rejects at the first token that cannot continue any query")
	comp := earley.NewPromQLCompleter(stdIndex.build())
	judge := func(text string, r *rand.Rand) {
		if len(text) > 200 || strings.Contains(text, "#") {
			return
		}
		c.Desc("offers for %q", text)
		var got []matchRow
		if !c.Call("complete", func() { got = suggest(comp, text, len(text)) }) {
			return
		}
		part := typedWord(text)
		before := text[:len(text)-len(part)]
		if strings.Contains(before, "[") && strings.Contains(part, ":") {
			return // resolution of a subquery: units complete what follows the colon
		}
		if ok, _ := viable(before); !ok {
			c.Count("hopeless_text", 1)
			return
		}
		c.Eval(text, len(got) > 0 && len(strings.Fields(text)) >= 2)
		r.Shuffle(len(got), func(a, b int) { got[a], got[b] = got[b], got[a] })
		for j, m := range got {
			if j >= 14 {
				break
			}
			c.Count("accepted_suggestions", 1)
			acc := before + m.V
			if m.K == "time-unit" {
				acc = text + m.V
			} else if !strings.HasPrefix(m.V, part) {
				c.Violation("prefix", "completing %q offers %q, which does not start with what was typed (%q)", text, m.V, part)
				return
			}
			if ok, msg := viable(acc); !ok {
				sig := "unsound:" + m.K
				if alt := groupSideAsExpr(acc); alt != "" {
					if ok, _ := viable(alt); ok {
						sig = "unsound:group-side-parenthesis-read-as-expression"
					}
				} else if alt := groupSideAsExpr(before); alt != "" {
					if ok, _ := viable(alt + m.V); ok {
						sig = "unsound:group-side-parenthesis-read-as-expression"
					}
				}
				c.Violation(sig, "accepting %q (%s) after %q gives %q, which no continuation makes valid: %s", m.V, m.K, text, acc, msg)
				return
			}
		}
		if c.WantSample() && len(got) > 3 {
			c.Sample("%q -> %d viable suggestions, e.g. %q", text, len(got), got[0].V)
		}
	}
	c.Cases("offers", c.N(9000, 150000), func(i int, r *rand.Rand) {
		var text string
		switch r.Intn(3) {
		case 0:
			toks := genPromQuery(r, r.Intn(4))
			k := r.Intn(len(toks) + 1)
			text = joinTokens(r, toks[:k], true) + strings.Repeat(" ", r.Intn(2))
			if k < len(toks) && r.Intn(2) == 0 {
				text += toks[k].text[:r.Intn(len(toks[k].text)+1)]
			}
		case 1:
			text = strings.ToValidUTF8(hostileText(r), "")
		case 2:
			toks := genPromQuery(r, r.Intn(3))
			k := r.Intn(len(toks) + 1)
			text = joinTokens(r, toks[:k], true) + " "
			for n := r.Intn(3); n > 0; n-- {
				text += textBits[r.Intn(len(textBits))] + " "
			}
		}
		judge(text, r)
	})
	c.Cases("group-side", 4, func(i int, r *rand.Rand) {
		judge([]string{"up + on (job) group_left (", "up * on (job) group_right (", "up / ignoring (job) group_left (job, ", "up - on () group_right () "}[i], r)
	})
	c.ListCases("vocabulary", 1, func(int) {
		for _, start := range []string{" ", "(", "sum("} {
			var got []matchRow
			if !c.Call("complete", func() { got = suggest(comp, start, len(start)) }) {
				return
			}
			for _, m := range got {
				c.Eval("v"+start+m.V, true)
				if strings.HasPrefix(m.K, "function") && parser.Functions[m.V] == nil {
					c.Violation("vocabulary", "%q is offered as a function but PromQL has none", m.V)
				}
			}
		}
	})
}

func unquoteProm(s string) (string, error) {
	e, err := parser.ParseExpr(`m{l=` + s + `}`)
	if err != nil {
		return "", err
	}
	vs, ok := e.(*parser.VectorSelector)
	if !ok {
		return "", fmt.Errorf("not a selector")
	}
	for _, m := range vs.LabelMatchers {
		if m.Name == "l" {
			return m.Value, nil
		}
	}
	return "", fmt.Errorf("no matcher")
}

func init() {
	h.Register(h.Check{ID: "C10", Fn: c10})
	h.Register(h.Check{ID: "C11", Fn: c11})
	h.Register(h.Check{ID: "C12", Fn: c12})
	h.Register(h.Check{ID: "C13", Fn: c13})
}
