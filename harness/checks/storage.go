package checks

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"
	"github.com/prometheus/prometheus/storage"
	"github.com/prometheus/prometheus/tsdb/chunkenc"

	"sigs.k8s.io/instrumentation-tools/promq/prom"

	"verif/harness/h"
)

func init() {
	h.Register(h.Check{ID: "C01", Fn: c01})
	h.Register(h.Check{ID: "C02", Fn: c02})
	h.Register(h.Check{ID: "C03", Fn: c03})
	h.Register(h.Check{ID: "C04", Fn: c04})
	h.Register(h.Check{ID: "C05", Fn: c05})
	h.Register(h.Check{ID: "C06", Fn: c06})
}

// ---------------------------------------------------------------- reference

type refPt struct {
	t int64
	v float64
}

type refSeries struct {
	lset labels.Labels
	pts  []refPt // in time order, equal times in ingestion order
}

// refStore is the sequential model: what a storage means, written naively.
type refStore struct {
	byKey map[string]*refSeries
}

func newRef() *refStore { return &refStore{byKey: map[string]*refSeries{}} }

func lkey(l labels.Labels) string {
	var sb strings.Builder
	for _, x := range l {
		fmt.Fprintf(&sb, "%q=%q,", x.Name, x.Value)
	}
	return sb.String()
}

func (s *refStore) load(batch []prom.ParsedSeries) {
	for _, p := range batch {
		k := lkey(p.Labels)
		rs := s.byKey[k]
		if rs == nil {
			rs = &refSeries{lset: p.Labels.Copy()}
			s.byKey[k] = rs
		}
		i := len(rs.pts)
		for i > 0 && rs.pts[i-1].t > p.Timestamp {
			i--
		}
		rs.pts = append(rs.pts, refPt{})
		copy(rs.pts[i+1:], rs.pts[i:])
		rs.pts[i] = refPt{p.Timestamp, p.Value}
	}
}

func (s *refStore) clean(olderThan int64) {
	for k, rs := range s.byKey {
		var keep []refPt
		for _, p := range rs.pts {
			if p.t >= olderThan {
				keep = append(keep, p)
			}
		}
		if len(keep) == 0 {
			delete(s.byKey, k)
		} else {
			rs.pts = keep
		}
	}
}

func (s *refStore) matching(ms []*labels.Matcher) []*refSeries {
	var out []*refSeries
	for _, rs := range s.byKey {
		ok := true
		for _, m := range ms {
			if !refMatch(m, rs.lset.Get(m.Name)) {
				ok = false
				break
			}
		}
		if ok {
			out = append(out, rs)
		}
	}
	sort.Slice(out, func(i, j int) bool { return labels.Compare(out[i].lset, out[j].lset) < 0 })
	return out
}

func refMatch(m *labels.Matcher, v string) bool {
	switch m.Type {
	case labels.MatchEqual:
		return v == m.Value
	case labels.MatchNotEqual:
		return v != m.Value
	case labels.MatchRegexp:
		return regexp.MustCompile("^(?:" + m.Value + ")$").MatchString(v)
	default:
		return !regexp.MustCompile("^(?:" + m.Value + ")$").MatchString(v)
	}
}

// the reference as a prometheus Queryable
type refQueryable struct{ s *refStore }

func (q refQueryable) Querier(ctx context.Context, mint, maxt int64) (storage.Querier, error) {
	return refQuerier{q.s}, nil
}

type refQuerier struct{ s *refStore }

func (q refQuerier) LabelValues(string, ...*labels.Matcher) ([]string, storage.Warnings, error) {
	return nil, nil, nil
}
func (q refQuerier) LabelNames(...*labels.Matcher) ([]string, storage.Warnings, error) {
	return nil, nil, nil
}
func (q refQuerier) Close() error { return nil }
func (q refQuerier) Select(_ bool, _ *storage.SelectHints, ms ...*labels.Matcher) storage.SeriesSet {
	return &refSet{all: q.s.matching(ms), i: -1}
}

type refSet struct {
	all []*refSeries
	i   int
}

func (s *refSet) Next() bool                 { s.i++; return s.i < len(s.all) }
func (s *refSet) At() storage.Series         { return refS{s.all[s.i]} }
func (s *refSet) Err() error                 { return nil }
func (s *refSet) Warnings() storage.Warnings { return nil }

type refS struct{ rs *refSeries }

func (s refS) Labels() labels.Labels       { return s.rs.lset }
func (s refS) Iterator() chunkenc.Iterator { return &refIter{pts: s.rs.pts, i: -1} }

// refIter is the iterator contract written down: forward only.
type refIter struct {
	pts []refPt
	i   int
}

func (it *refIter) Next() bool {
	if it.i < len(it.pts) {
		it.i++
	}
	return it.i < len(it.pts)
}
func (it *refIter) Seek(t int64) bool {
	if it.i < 0 {
		it.i = 0
	}
	for it.i < len(it.pts) && it.pts[it.i].t < t {
		it.i++
	}
	return it.i < len(it.pts)
}
func (it *refIter) At() (int64, float64) { return it.pts[it.i].t, it.pts[it.i].v }
func (it *refIter) Err() error           { return nil }

// ---------------------------------------------------------------- generators

var lvAlphabet = []string{"a", "b", "ab", "abc", "x", "y", "é", "日本", "a b", "a\"b", "\\", "0", "-", "A", ".", "a.c"}
var lnAlphabet = []string{"l", "m", "code", "instance", "le", "zz", "_x", "Zone"}
var mnAlphabet = []string{"up", "req_total", "a:b:c", "mem", "req", "go_gc"}

func pick(r *rand.Rand, xs []string) string { return xs[r.Intn(len(xs))] }

// two label sets with the same 64-bit hash
var collide = [2]labels.Labels{
	labels.FromStrings(labels.MetricName, "metric", "lbl", "qeYKm3"),
	labels.FromStrings(labels.MetricName, "metric", "lbl", "2fUczT"),
}

func genLabels(r *rand.Rand, card int) labels.Labels {
	if r.Intn(16) == 0 {
		return collide[r.Intn(2)]
	}
	return genPlainLabels(r, card)
}

func genPlainLabels(r *rand.Rand, card int) labels.Labels {
	if card > len(lvAlphabet) {
		card = len(lvAlphabet)
	}
	m := map[string]string{}
	if r.Intn(12) != 0 {
		m[labels.MetricName] = mnAlphabet[r.Intn(1+r.Intn(len(mnAlphabet)))]
	}
	for _, n := range lnAlphabet[:1+r.Intn(len(lnAlphabet))] {
		if r.Intn(2) == 0 {
			m[n] = lvAlphabet[r.Intn(card)]
		}
	}
	if len(m) == 0 {
		m[labels.MetricName] = "up"
	}
	return labels.FromMap(m)
}

func genValue(r *rand.Rand, id int) float64 {
	switch r.Intn(40) {
	case 0:
		return math.Inf(1)
	case 1:
		return math.Inf(-1)
	case 2:
		return math.Copysign(0, -1)
	case 3:
		return math.NaN()
	case 4:
		return -float64(id) - 0.5
	}
	return float64(id)
}

// genTimes makes a timestamp source of a random temper.
func genTimes(r *rand.Rand, dups bool) (func() int64, string) {
	base := int64(1_600_000_000_000) + r.Int63n(1_000_000)
	if r.Intn(6) == 0 {
		base = r.Int63n(2000) - 1000
	}
	step := int64(1 + r.Intn(20000))
	n := int64(0)
	used := map[int64]bool{}
	uniq := func(t int64) int64 {
		if dups {
			return t
		}
		for used[t] {
			t++
		}
		used[t] = true
		return t
	}
	switch r.Intn(6) {
	case 0:
		return func() int64 { n++; return uniq(base + n*step) }, "inorder"
	case 1:
		return func() int64 { n++; return uniq(base - n*step) }, "reversed"
	case 2:
		return func() int64 { n++; return uniq(base + n*step + r.Int63n(6*step+1) - 3*step) }, "jitter"
	case 3:
		return func() int64 { return uniq(base + r.Int63n(8)*step) }, "fewvalues"
	case 4:
		return func() int64 {
			n++
			if r.Intn(5) == 0 {
				return uniq(base + r.Int63n(n+1)*step)
			}
			return uniq(base + n*step)
		}, "late"
	default:
		return func() int64 { return uniq(base + r.Int63n(1<<40) - (1 << 39)) }, "wild"
	}
}

func genHistory(r *rand.Rand, dups bool, maxSeries, maxBatches, maxBatch int) ([][]prom.ParsedSeries, string) {
	card := 1 + r.Intn(len(lvAlphabet))
	ns := 1 + r.Intn(maxSeries)
	var ls []labels.Labels
	seen := map[string]bool{}
	for i := 0; i < ns; i++ {
		l := genLabels(r, card)
		if k := lkey(l); !seen[k] {
			seen[k] = true
			ls = append(ls, l)
		}
	}
	clocks := make([]func() int64, len(ls))
	var tempers []string
	if r.Intn(2) == 0 {
		f, name := genTimes(r, dups)
		for i := range clocks {
			clocks[i] = f
		}
		tempers = append(tempers, name)
	} else {
		for i := range clocks {
			var name string
			clocks[i], name = genTimes(r, dups)
			tempers = append(tempers, name)
		}
	}
	id := 0
	var out [][]prom.ParsedSeries
	nb := 1 + r.Intn(maxBatches)
	for b := 0; b < nb; b++ {
		var batch []prom.ParsedSeries
		k := r.Intn(maxBatch + 1)
		for j := 0; j < k; j++ {
			s := r.Intn(len(ls))
			id++
			batch = append(batch, prom.ParsedSeries{Labels: ls[s].Copy(), Value: genValue(r, id), Timestamp: clocks[s]()})
		}
		out = append(out, batch)
	}
	return out, strings.Join(tempers, "+")
}

// genWide makes a store the size of a real target's: hundreds of series, with
// many label names and values, few samples each.
func genWide(r *rand.Rand) ([][]prom.ParsedSeries, string) {
	ns := 80 + r.Intn(80*(1+r.Intn(16)))
	if r.Intn(8) == 0 {
		ns *= 4
	}
	nn := 1 + r.Intn(160)
	nm := 1 + r.Intn(90)
	nv := 1 + r.Intn(1+r.Intn(400))
	var batch []prom.ParsedSeries
	seen := map[string]bool{}
	base := int64(1_600_000_000_000)
	for i := 0; i < ns; i++ {
		m := map[string]string{labels.MetricName: fmt.Sprintf("m%d", r.Intn(nm))}
		for j := 0; j < 1+r.Intn(4); j++ {
			m[fmt.Sprintf("n%d", r.Intn(nn))] = fmt.Sprintf("v%d", r.Intn(nv))
		}
		if r.Intn(3) == 0 {
			m["instance"] = pick(r, lvAlphabet)
		}
		if r.Intn(120) == 0 {
			for j := 8 + r.Intn(52); j > 0; j-- {
				m[fmt.Sprintf("many%d", j)] = strings.Repeat("x", r.Intn(200))
			}
		}
		l := labels.FromMap(m)
		if seen[lkey(l)] {
			continue
		}
		seen[lkey(l)] = true
		for j := 0; j < 1+r.Intn(3); j++ {
			batch = append(batch, prom.ParsedSeries{Labels: l, Value: float64(len(batch)), Timestamp: base + int64(r.Intn(9))*1000 + int64(j)})
		}
	}
	r.Shuffle(len(batch), func(i, j int) { batch[i], batch[j] = batch[j], batch[i] })
	var out [][]prom.ParsedSeries
	for k := 1 + r.Intn(3); k > 1 && len(batch) > 1; k-- {
		n := r.Intn(len(batch))
		out = append(out, batch[:n])
		batch = batch[n:]
	}
	out = append(out, batch)
	return out, fmt.Sprintf("up to %d series, %d metrics, %d label names, %d values", ns, nm, nn, nv)
}

// genWideMatchers makes matchers for the series of genWide, mostly for labels that are there.
// howMany matchers to use
func howMany(r *rand.Rand) int {
	if r.Intn(6) == 0 {
		return 1 + r.Intn(7)
	}
	return 1 + r.Intn(3)
}

func genWideMatchers(r *rand.Rand, ref *refStore) []*labels.Matcher {
	var all []*refSeries
	for _, rs := range ref.byKey {
		all = append(all, rs)
	}
	sort.Slice(all, func(i, j int) bool { return labels.Compare(all[i].lset, all[j].lset) < 0 })
	if len(all) == 0 {
		return []*labels.Matcher{genMatcher(r)}
	}
	var ms []*labels.Matcher
	l := all[r.Intn(len(all))].lset
	for k := 0; k < 4 && len(l) < 9; k++ { // rather one with many labels
		l = all[r.Intn(len(all))].lset
	}
	for j := howMany(r); j > 0; j-- {
		x := l[r.Intn(len(l))]
		v := x.Value
		ty := labels.MatchType(r.Intn(4))
		if ty == labels.MatchRegexp || ty == labels.MatchNotRegexp {
			switch r.Intn(4) {
			case 0:
				v = regexp.QuoteMeta(v)
			case 1:
				v = "v1.*|"
			case 2:
				v = "[mv]\\d*[02468]"
			default:
				v = "(" + regexp.QuoteMeta(v) + "|v2|m3|v3.)"
			}
		} else if r.Intn(6) == 0 {
			v = ""
		}
		ms = append(ms, mustMatcher(ty, x.Name, v))
	}
	return ms
}

func descBatch(bs [][]prom.ParsedSeries) string {
	var sb strings.Builder
	for _, b := range bs {
		sb.WriteString("[")
		for _, p := range b {
			fmt.Fprintf(&sb, "%s@%d=%v ", p.Labels, p.Timestamp, p.Value)
		}
		sb.WriteString("] ")
	}
	return sb.String()
}

func eqF(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

type gotSeries struct {
	lset labels.Labels
	pts  []refPt
}

func readAll(c *h.Ctx, set storage.SeriesSet) (out []gotSeries) {
	for set.Next() {
		s := set.At()
		g := gotSeries{lset: s.Labels()}
		it := s.Iterator()
		for it.Next() {
			t, v := it.At()
			g.pts = append(g.pts, refPt{t, v})
		}
		if it.Err() != nil {
			c.Violation("iter-err", "iterator error: %v", it.Err())
		}
		out = append(out, g)
	}
	if set.Err() != nil {
		c.Violation("set-err", "series set error: %v", set.Err())
	}
	return
}

func cmpPts(want, got []refPt) string {
	for i := 1; i < len(got); i++ {
		if got[i].t < got[i-1].t {
			return fmt.Sprintf("samples out of time order: %d after %d (position %d of %v)", got[i].t, got[i-1].t, i, got)
		}
	}
	if len(want) != len(got) {
		return fmt.Sprintf("%d samples expected, %d returned: want %v got %v", len(want), len(got), want, got)
	}
	for i, p := range want {
		if got[i].t != p.t || math.Float64bits(got[i].v) != math.Float64bits(p.v) {
			return fmt.Sprintf("sample %d is (%d,%v), expected (%d,%v), in time and then ingestion order: want %v got %v", i, got[i].t, got[i].v, p.t, p.v, want, got)
		}
	}
	return ""
}

func compareSeries(c *h.Ctx, where string, want []*refSeries, got []gotSeries) bool {
	gm := map[string]gotSeries{}
	for _, g := range got {
		k := lkey(g.lset)
		if _, dup := gm[k]; dup {
			c.Violation("dup-series", "%s: series %s returned twice", where, g.lset)
			return false
		}
		gm[k] = g
	}
	for _, w := range want {
		k := lkey(w.lset)
		g, ok := gm[k]
		if !ok {
			c.Violation("missing-series", "%s: series %s (with %d samples) is missing from the result", where, w.lset, len(w.pts))
			return false
		}
		delete(gm, k)
		if d := cmpPts(w.pts, g.pts); d != "" {
			c.Violation("samples", "%s: series %s: %s", where, w.lset, d)
			return false
		}
	}
	for _, g := range gm {
		c.Violation("extra-series", "%s: series %s must not be in the result", where, g.lset)
		return false
	}
	return true
}

func mustMatcher(t labels.MatchType, n, v string) *labels.Matcher {
	m, err := labels.NewMatcher(t, n, v)
	if err != nil {
		panic(err)
	}
	return m
}

func selectAllMatcher() *labels.Matcher { return mustMatcher(labels.MatchRegexp, "__nolabel__", ".*") }

func shortKey(bs [][]prom.ParsedSeries) string { return descBatch(bs) }

// ---------------------------------------------------------------- C01

// c01: conservation and order of samples under any ingestion history.
func c01(c *h.Ctx) {
	c.Rule("random ingestion histories (1-8 series, 1-12 batches, timestamps in order/reversed/jittered/late/duplicated/wild, unique values plus NaN/Inf/-0); non-trivial: at least one out-of-order or equal-time sample in some series; distinct by full history")
	run := func(i int, r *rand.Rand, ms, mb, mk int) {
		hist, temper := genHistory(r, true, ms, mb, mk)
		c.Desc("history %s: %s", temper, descBatch(hist))
		st := prom.NewRangeStorage()
		ref := newRef()
		last := map[string]int64{}
		nontrivial := false
		total := 0
		for bi, b := range hist {
			for _, p := range b {
				k := lkey(p.Labels)
				if lt, ok := last[k]; ok && p.Timestamp <= lt {
					nontrivial = true
				}
				if p.Timestamp > last[k] || last[k] == 0 {
					last[k] = p.Timestamp
				}
			}
			total += len(b)
			if err := st.LoadData(b); err != nil {
				c.Violation("load-err", "LoadData failed: %v", err)
				return
			}
			ref.load(b)
			if bi != len(hist)-1 && r.Intn(3) != 0 {
				continue
			}
			q, err := st.Querier(context.Background(), math.MinInt64, math.MaxInt64)
			if err != nil {
				c.Violation("querier-err", "Querier failed: %v", err)
				return
			}
			got := readAll(c, q.Select(false, nil, selectAllMatcher()))
			c.Count("series_read", len(got))
			if !compareSeries(c, fmt.Sprintf("after batch %d", bi), ref.matching(nil), got) {
				return
			}
			// each series on its own, the way a query names it
			for _, rs := range ref.matching(nil) {
				var mm []*labels.Matcher
				for _, l := range rs.lset {
					mm = append(mm, mustMatcher(labels.MatchEqual, l.Name, l.Value))
				}
				if !compareSeries(c, fmt.Sprintf("after batch %d selecting %s", bi, rs.lset), ref.matching(mm), readAll(c, q.Select(true, nil, mm...))) {
					return
				}
			}
		}
		c.Count("samples_ingested", total)
		c.Eval(shortKey(hist), nontrivial)
		if c.WantSample() && nontrivial && total < 14 {
			c.Sample("%s: %s", temper, descBatch(hist))
		}
	}
	c.Cases("history", c.N(12000, 250000), func(i int, r *rand.Rand) { run(i, r, 8, 12, 12) })
	c.Cases("long", c.N(400, 6000), func(i int, r *rand.Rand) { run(i, r, 3, 40, 60) })
	c.Cases("wide", c.N(200, 4000), func(i int, r *rand.Rand) {
		hist, what := genWide(r)
		st := prom.NewRangeStorage()
		ref := newRef()
		for bi, b := range hist {
			c.Desc("%s, batch %d of %d samples", what, bi, len(b))
			if err := st.LoadData(b); err != nil {
				c.Violation("load-err", "LoadData failed: %v", err)
				return
			}
			ref.load(b)
			q, err := st.Querier(context.Background(), math.MinInt64, math.MaxInt64)
			if err != nil {
				c.Violation("querier-err", "Querier failed: %v", err)
				return
			}
			got := readAll(c, q.Select(r.Intn(2) == 0, nil, selectAllMatcher()))
			c.Count("series_read", len(got))
			if !compareSeries(c, fmt.Sprintf("%s, after batch %d", what, bi), ref.matching(nil), got) {
				return
			}
			for k := 0; k < 6 && len(b) > 0; k++ {
				var mm []*labels.Matcher
				for _, l := range b[r.Intn(len(b))].Labels {
					mm = append(mm, mustMatcher(labels.MatchEqual, l.Name, l.Value))
				}
				if !compareSeries(c, fmt.Sprintf("%s, after batch %d selecting %v", what, bi, mm), ref.matching(mm), readAll(c, q.Select(true, nil, mm...))) {
					return
				}
			}
		}
		c.Eval(fmt.Sprint("wide", i), len(ref.byKey) > 64)
	})
}

// ---------------------------------------------------------------- C02

var reAlphabet = []string{"a.*", ".*", ".+", "a|b", "", "x?", "a|", "[ab]+", "(a|ab)(c|)", ".", "[^a]*", "日.*", "a\\.c", "a.c", "(?i)A", "A|x|y|0", "b|(a)", "..?"}

func genMatcher(r *rand.Rand) *labels.Matcher {
	name := pick(r, lnAlphabet)
	vals := lvAlphabet
	if r.Intn(3) == 0 {
		name = labels.MetricName
		vals = mnAlphabet
	} else if r.Intn(8) == 0 {
		name = "nosuch"
	}
	v := pick(r, vals)
	if r.Intn(5) == 0 {
		v = ""
	}
	switch r.Intn(4) {
	case 0:
		return mustMatcher(labels.MatchEqual, name, v)
	case 1:
		return mustMatcher(labels.MatchNotEqual, name, v)
	case 2:
		if r.Intn(2) == 0 {
			v = pick(r, reAlphabet)
		} else {
			v = regexp.QuoteMeta(v)
		}
		return mustMatcher(labels.MatchRegexp, name, v)
	default:
		if r.Intn(2) == 0 {
			v = pick(r, reAlphabet)
		} else {
			v = regexp.QuoteMeta(v)
		}
		return mustMatcher(labels.MatchNotRegexp, name, v)
	}
}

// c02: series selection and whole PromQL queries agree with a naive reference.
func c02(c *h.Ctx) {
	c.Rule("random stores x random matcher lists (=,!=,=~,!~; empty, absent and non-ASCII values), each Select compared with a linear scan; non-trivial: the result is neither empty nor everything, or a matcher matches the empty string. Plus random PromQL queries evaluated by the same engine over the tool's storage and over the reference storage; non-trivial: non-empty result")
	c.Cases("select", c.N(6000, 120000), func(i int, r *rand.Rand) {
		hist, _ := genHistory(r, true, 14, 4, 12)
		st := prom.NewRangeStorage()
		ref := newRef()
		for _, b := range hist {
			if err := st.LoadData(b); err != nil {
				c.Violation("load-err", "LoadData failed: %v", err)
				return
			}
			ref.load(b)
		}
		q, _ := st.Querier(context.Background(), math.MinInt64, math.MaxInt64)
		for k := 0; k < 6; k++ {
			var ms []*labels.Matcher
			for j := howMany(r); j > 0; j-- {
				ms = append(ms, genMatcher(r))
			}
			c.Desc("store %s select %v", descBatch(hist), ms)
			srt := r.Intn(2) == 0
			got := readAll(c, q.Select(srt, &storage.SelectHints{}, ms...))
			want := ref.matching(ms)
			c.Count("selects", 1)
			if !compareSeries(c, fmt.Sprintf("select %v", ms), want, got) {
				return
			}
			if srt {
				for x := 1; x < len(got); x++ {
					if labels.Compare(got[x-1].lset, got[x].lset) >= 0 {
						c.Violation("unsorted", "Select(sortSeries=true, %v) returned %s before %s", ms, got[x-1].lset, got[x].lset)
						return
					}
				}
			}
			empties := false
			for _, m := range ms {
				if refMatch(m, "") {
					empties = true
					c.Count("selects_matching_absent_label", 1)
					break
				}
			}
			c.Eval(fmt.Sprint(shortKey(hist), ms), empties || (len(got) > 0 && len(got) < len(ref.byKey)))
			if c.WantSample() && len(got) > 0 && len(got) < len(ref.byKey) {
				c.Sample("%d series, select %v -> %d", len(ref.byKey), ms, len(got))
			}
		}
	})
	c.Cases("wide", c.N(240, 5000), func(i int, r *rand.Rand) {
		hist, what := genWide(r)
		st := prom.NewRangeStorage()
		ref := newRef()
		for _, b := range hist {
			if err := st.LoadData(b); err != nil {
				c.Violation("load-err", "LoadData failed: %v", err)
				return
			}
			ref.load(b)
		}
		q, _ := st.Querier(context.Background(), math.MinInt64, math.MaxInt64)
		for k := 0; k < 6; k++ {
			ms := genWideMatchers(r, ref)
			c.Desc("store of %s, select %v", what, ms)
			srt := r.Intn(2) == 0
			got := readAll(c, q.Select(srt, &storage.SelectHints{}, ms...))
			c.Count("selects", 1)
			if !compareSeries(c, fmt.Sprintf("%s, select %v", what, ms), ref.matching(ms), got) {
				return
			}
			for x := 1; srt && x < len(got); x++ {
				if labels.Compare(got[x-1].lset, got[x].lset) >= 0 {
					c.Violation("unsorted", "Select(sortSeries=true, %v) returned %s before %s", ms, got[x-1].lset, got[x].lset)
					return
				}
			}
			c.Eval(fmt.Sprint("wide", i, ms), len(got) > 0 && len(got) < len(ref.byKey))
		}
	})
	engine := func() *promql.Engine { return promql.NewEngine(refEngineOpts()) }
	c.Cases("promql", c.N(4000, 80000), func(i int, r *rand.Rand) {
		base := int64(1_600_000_000_000)
		st := prom.NewRangeStorage()
		ref := newRef()
		id := 0
		names := []string{"up", "req_total", "mem"}
		used := map[string]bool{}
		for b := 0; b < 1+r.Intn(12); b++ {
			var batch []prom.ParsedSeries
			for j := 0; j < r.Intn(14); j++ {
				m := map[string]string{labels.MetricName: pick(r, names)}
				for _, n := range []string{"l", "m", "code"} {
					if r.Intn(3) > 0 {
						m[n] = lvAlphabet[r.Intn(4)]
					}
				}
				l := labels.FromMap(m)
				t := base + int64(b)*15000
				if r.Intn(4) == 0 {
					t = base + r.Int63n(200)*1000
				}
				k := fmt.Sprint(lkey(l), t)
				if used[k] {
					continue
				}
				used[k] = true
				id++
				batch = append(batch, prom.ParsedSeries{Labels: l, Value: float64(id*7%101) + float64(id)/1000, Timestamp: t})
			}
			if err := st.LoadData(batch); err != nil {
				c.Violation("load-err", "LoadData failed: %v", err)
				return
			}
			ref.load(batch)
		}
		for k := 0; k < 3; k++ {
			qs := genQuery(r, names, 3)
			c.Desc("query %s over %s", qs, descRef(ref))
			var a, b *promql.Result
			exec := func(qa storage.Queryable) *promql.Result {
				e := engine()
				var q promql.Query
				var err error
				rr := rand.New(rand.NewSource(int64(i*31 + k)))
				if rr.Intn(2) == 0 {
					q, err = e.NewInstantQuery(qa, qs, ms2t(base+rr.Int63n(220)*1000))
				} else {
					s := base + rr.Int63n(100)*1000
					q, err = e.NewRangeQuery(qa, qs, ms2t(s), ms2t(s+rr.Int63n(120)*1000), time.Duration(1+rr.Intn(30))*time.Second)
				}
				if err != nil {
					return &promql.Result{Err: err}
				}
				return q.Exec(context.Background())
			}
			a = exec(st)
			b = exec(refQueryable{ref})
			c.Count("queries", 1)
			sa, na := canon(a)
			sb, _ := canon(b)
			if sa != sb {
				c.Violation("promql-diff", "query %s\nover %s\nby the tool's storage: %s\nby the reference:      %s", qs, descRef(ref), sa, sb)
				return
			}
			c.Count("result_points", na)
			c.Eval(fmt.Sprint(i, qs), na > 0)
			if na > 0 && na < 6 {
				c.Sample("%s -> %s", qs, sa)
			}
		}
	})
}

func ms2t(ms int64) time.Time { return time.Unix(ms/1000, (ms%1000)*1e6).UTC() }

func descRef(s *refStore) string {
	var sb strings.Builder
	for _, rs := range s.matching(nil) {
		fmt.Fprintf(&sb, "%s%v ", rs.lset, rs.pts)
	}
	return sb.String()
}

// canon renders a query result independent of series order.
func canon(res *promql.Result) (string, int) {
	if res.Err != nil {
		return "error", 0 // which of several errors is met first may depend on series order
	}
	var lines []string
	n := 0
	switch v := res.Value.(type) {
	case promql.Vector:
		for _, s := range v {
			lines = append(lines, fmt.Sprintf("%s %d %x", s.Metric, s.T, bitsN(s.V)))
			n++
		}
	case promql.Matrix:
		for _, s := range v {
			l := s.Metric.String()
			for _, p := range s.Points {
				l += fmt.Sprintf(" %d:%x", p.T, bitsN(p.V))
				n++
			}
			lines = append(lines, l)
		}
	case promql.Scalar:
		lines = append(lines, fmt.Sprintf("scalar %d %x", v.T, bitsN(v.V)))
		n++
	case promql.String:
		lines = append(lines, fmt.Sprintf("string %d %q", v.T, v.V))
	default:
		lines = append(lines, fmt.Sprintf("%T", v))
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n"), n
}

func bitsN(f float64) uint64 {
	if math.IsNaN(f) {
		return 0x7ff8000000000001
	}
	return math.Float64bits(f)
}

// genQuery builds a PromQL expression whose value does not depend on the
// order in which the storage lists series (no float-summing aggregations).
// refEngineOpts are Prometheus' defaults, independent of the tool's own.
func refEngineOpts() promql.EngineOpts {
	return promql.EngineOpts{
		Timeout: time.Hour, MaxSamples: 5_000_000, LookbackDelta: 5 * time.Minute,
		NoStepSubqueryIntervalFn: func(int64) int64 { return time.Minute.Milliseconds() },
		EnableAtModifier:         true, EnableNegativeOffset: true,
	}
}

func genQuery(r *rand.Rand, names []string, depth int) string {
	sel := func() string {
		var ms []string
		for j := 0; j < r.Intn(3); j++ {
			op := []string{"=", "!=", "=~", "!~"}[r.Intn(4)]
			v := lvAlphabet[r.Intn(4)]
			switch r.Intn(4) {
			case 0:
				v = ""
			case 1:
				if op == "=~" || op == "!~" {
					v = []string{"a|b", "a.*", ".+", ".*", "b|"}[r.Intn(5)]
				}
			}
			ms = append(ms, fmt.Sprintf("%s%s%q", pick(r, []string{"l", "m", "code", "nosuch"}), op, v))
		}
		n := pick(r, names)
		if r.Intn(8) == 0 {
			n = ""
			ms = append(ms, fmt.Sprintf("__name__=~%q", pick(r, []string{"up|mem", "req.*", ".+", "m.*"})))
		}
		s := n
		if len(ms) > 0 {
			s += "{" + strings.Join(ms, ",") + "}"
		}
		return s
	}
	off := func() string {
		switch r.Intn(8) {
		case 0:
			return " offset 20s"
		case 1:
			return " offset -20s"
		case 2:
			return " @ 1600000060"
		}
		return ""
	}
	if depth <= 0 {
		return sel() + off()
	}
	switch r.Intn(10) {
	case 0, 1:
		return sel() + off()
	case 2, 3, 4:
		f := pick(r, []string{"rate", "increase", "delta", "max_over_time", "min_over_time", "count_over_time", "last_over_time", "changes", "resets", "idelta", "irate", "present_over_time", "absent_over_time"})
		return fmt.Sprintf("%s(%s[%s]%s)", f, sel(), pick(r, []string{"30s", "1m", "90s", "5m"}), off())
	case 5:
		return fmt.Sprintf("%s by (%s) (%s)", pick(r, []string{"max", "min", "count", "group"}), pick(r, []string{"l", "m", "code", "l, code", ""}), genQuery(r, names, depth-1))
	case 6:
		return fmt.Sprintf("%s without (%s) (%s)", pick(r, []string{"max", "min", "count"}), pick(r, []string{"l", "m", "code"}), genQuery(r, names, depth-1))
	case 7:
		return fmt.Sprintf("%s((%s)[%s]%s)", pick(r, []string{"max_over_time", "min_over_time", "count_over_time", "last_over_time", "changes"}), genQuery(r, names, depth-1), pick(r, []string{"1m:10s", "90s:15s", "5m:", "3m:1m", "2m:7s"}), off())
	case 8:
		return fmt.Sprintf("(%s) %s (%s)", genQuery(r, names, depth-1), pick(r, []string{"and", "or", "unless", "+ on(l, m, code)", "> bool", "-"}), genQuery(r, names, depth-1))
	default:
		return fmt.Sprintf("timestamp(%s)", sel())
	}
}

// ---------------------------------------------------------------- C03

// c03: the iterator contract under any interleaving of Next and Seek.
func c03(c *h.Ctx) {
	c.Rule("random series and random interleavings of Next/Seek (targets around, on, before and after sample times, forward and backward) on one or several iterators of the same series, compared step by step with a forward-only model; non-trivial: the script has a Seek that must not move and one that must")
	run := func(i int, r *rand.Rand, mb, mk, steps int) {
		hist, _ := genHistory(r, true, 2, mb, mk)
		st := prom.NewRangeStorage()
		ref := newRef()
		for _, b := range hist {
			if err := st.LoadData(b); err != nil {
				c.Violation("load-err", "LoadData failed: %v", err)
				return
			}
			ref.load(b)
		}
		q, _ := st.Querier(context.Background(), math.MinInt64, math.MaxInt64)
		set := q.Select(false, nil, selectAllMatcher())
		for set.Next() {
			s := set.At()
			rs := ref.byKey[lkey(s.Labels())]
			if rs == nil {
				c.Violation("extra-series", "series %s never ingested", s.Labels())
				return
			}
			nit := 1 + r.Intn(3)
			var its []chunkenc.Iterator
			var refs []*refIter
			for k := 0; k < nit; k++ {
				its = append(its, s.Iterator())
				refs = append(refs, &refIter{pts: rs.pts, i: -1})
			}
			stayed, moved := false, false
			var script []string
			for step := 0; step < 4+r.Intn(steps); step++ {
				k := r.Intn(nit)
				it, rf := its[k], refs[k]
				var got, want bool
				if r.Intn(2) == 0 {
					script = append(script, fmt.Sprintf("it%d.Next", k))
					c.Desc("series %v script %v", rs.pts, script)
					want = rf.Next()
					got = it.Next()
				} else {
					var t int64
					if len(rs.pts) > 0 {
						t = rs.pts[r.Intn(len(rs.pts))].t + int64(r.Intn(3)-1)
					}
					switch r.Intn(8) {
					case 0:
						t = rs.pts[0].t - 1000
					case 1:
						t = rs.pts[len(rs.pts)-1].t + int64(r.Intn(2))
					}
					script = append(script, fmt.Sprintf("it%d.Seek(%d)", k, t))
					c.Desc("series %v script %v", rs.pts, script)
					if rf.i >= 0 && rf.i < len(rs.pts) {
						if rs.pts[rf.i].t >= t {
							stayed = true
						} else {
							moved = true
						}
					}
					want = rf.Seek(t)
					got = it.Seek(t)
				}
				c.Count("iterator_steps", 1)
				if want != got {
					c.Violation("iter-bool", "samples %v, script %v: returned %v, must return %v", rs.pts, script, got, want)
					return
				}
				if want {
					gt, gv := it.At()
					wt, _ := rf.At()
					// among samples of equal time the choice is the storage's; the time is not
					ok := gt == wt
					if ok {
						ok = false
						for _, p := range rs.pts {
							if p.t == gt && eqF(p.v, gv) {
								ok = true
							}
						}
					}
					if !ok {
						c.Violation("iter-at", "samples %v, script %v: at (%d,%v), must be at time %d", rs.pts, script, gt, gv, wt)
						return
					}
				}
				if it.Err() != nil {
					c.Violation("iter-err", "iterator error %v", it.Err())
				}
			}
			c.Eval(fmt.Sprint(rs.pts, script), stayed && moved)
			if stayed && moved && len(rs.pts) < 6 {
				c.Sample("%v %v", rs.pts, script)
			}
		}
	}
	c.Cases("script", c.N(12000, 250000), func(i int, r *rand.Rand) { run(i, r, 6, 10, 24) })
	c.Cases("long", c.N(500, 10000), func(i int, r *rand.Rand) { run(i, r, 30, 20+r.Intn(120), 60) })
}

// ---------------------------------------------------------------- C04

// c04: retention removes exactly the old samples and nothing else, for good.
func c04(c *h.Ctx) {
	c.Rule("random interleavings of ingestion and Clean(cutoff), the whole store compared with the model after each step, including series that are fully cleaned and ingested again; non-trivial: some cleaning removed a part of a series and some removed a whole series")
	c.Cases("ops", c.N(8000, 150000), func(i int, r *rand.Rand) {
		hist, _ := genHistory(r, true, 6, 10, 10)
		st := prom.NewRangeStorage()
		ref := newRef()
		var log []string
		part, whole, again := false, false, false
		gone := map[string]bool{}
		for bi, b := range hist {
			if err := st.LoadData(b); err != nil {
				c.Violation("load-err", "LoadData failed: %v", err)
				return
			}
			for _, p := range b {
				if gone[lkey(p.Labels)] {
					again = true
				}
			}
			ref.load(b)
			log = append(log, "load "+descBatch([][]prom.ParsedSeries{b}))
			if r.Intn(2) == 0 {
				var all []int64
				for _, rs := range ref.byKey {
					for _, p := range rs.pts {
						all = append(all, p.t)
					}
				}
				sort.Slice(all, func(x, y int) bool { return all[x] < all[y] })
				cut := int64(0)
				if len(all) > 0 {
					cut = all[r.Intn(len(all))] + int64(r.Intn(3)-1)
					if r.Intn(6) == 0 {
						cut = all[len(all)-1] + 1
					}
				}
				for k, rs := range ref.byKey {
					n := 0
					for _, p := range rs.pts {
						if p.t < cut {
							n++
						}
					}
					if n == len(rs.pts) {
						whole = true
						gone[k] = true
					} else if n > 0 {
						part = true
					}
				}
				log = append(log, fmt.Sprintf("clean %d", cut))
				c.Desc("%v", log)
				st.Clean(cut)
				ref.clean(cut)
				c.Count("cleans", 1)
			}
			q, _ := st.Querier(context.Background(), math.MinInt64, math.MaxInt64)
			if !compareSeries(c, fmt.Sprintf("step %d of %v", bi, log), ref.matching(nil), readAll(c, q.Select(false, nil, selectAllMatcher()))) {
				return
			}
			m := genMatcher(r)
			if !compareSeries(c, fmt.Sprintf("select %v at step %d of %v", m, bi, log), ref.matching([]*labels.Matcher{m}), readAll(c, q.Select(true, nil, m))) {
				return
			}
		}
		if again {
			c.Count("series_ingested_again_after_full_clean", 1)
		}
		c.Eval(strings.Join(log, ";"), part && whole)
		if part && whole && len(log) < 6 {
			c.Sample("%v", log)
		}
	})
	c.Cases("wide", c.N(120, 3000), func(i int, r *rand.Rand) {
		hist, what := genWide(r)
		if r.Intn(3) == 0 { // few series with many samples
			hist, what = genHistory(r, true, 3, 30, 100)
		}
		st := prom.NewRangeStorage()
		ref := newRef()
		part, whole := false, false
		for bi, b := range append(hist, hist[0]) { // the first batch comes again
			if err := st.LoadData(b); err != nil {
				c.Violation("load-err", "LoadData failed: %v", err)
				return
			}
			ref.load(b)
			var cut int64
			if len(b) > 0 {
				cut = b[r.Intn(len(b))].Timestamp + int64(r.Intn(3)-1)
			}
			before, n := 0, len(ref.byKey)
			for _, rs := range ref.byKey {
				before += len(rs.pts)
			}
			c.Desc("%s: clean %d after batch %d", what, cut, bi)
			st.Clean(cut)
			ref.clean(cut)
			c.Count("cleans", 1)
			whole = whole || len(ref.byKey) < n
			for _, rs := range ref.byKey {
				before -= len(rs.pts)
			}
			part = part || before > 0
			q, _ := st.Querier(context.Background(), math.MinInt64, math.MaxInt64)
			if !compareSeries(c, fmt.Sprintf("%s: after cleaning %d, batch %d", what, cut, bi), ref.matching(nil), readAll(c, q.Select(false, nil, selectAllMatcher()))) {
				return
			}
			ms := genWideMatchers(r, ref)
			if !compareSeries(c, fmt.Sprintf("%s: after cleaning %d, batch %d, select %v", what, cut, bi, ms), ref.matching(ms), readAll(c, q.Select(true, nil, ms...))) {
				return
			}
		}
		c.Eval(fmt.Sprint("wide", i), part && whole)
	})
}

// ---------------------------------------------------------------- C05

// c05: label name and value enumeration.
func c05(c *h.Ctx) {
	c.Rule("random stores, some cleaned in between; LabelNames/LabelValues with and without matchers compared with a scan of the matching series; non-trivial: a matcher excludes some series but not all")
	run := func(i int, r *rand.Rand, wide bool) {
		hist, what := genHistory(r, true, 12, 4, 10)
		if wide {
			hist, what = genWide(r)
		} else {
			what = descBatch(hist)
		}
		st := prom.NewRangeStorage()
		ref := newRef()
		cleaned := ""
		for bi, b := range hist {
			_ = st.LoadData(b)
			ref.load(b)
			if cutAt := r.Intn(3 * len(hist)); cutAt == bi && len(b) > 0 {
				cut := b[r.Intn(len(b))].Timestamp + int64(r.Intn(3))
				before := len(ref.byKey)
				st.Clean(cut)
				ref.clean(cut)
				cleaned += fmt.Sprintf(" clean(%d) after batch %d", cut, bi)
				c.Count("series_cleaned_away", before-len(ref.byKey))
			}
		}
		q, _ := st.Querier(context.Background(), math.MinInt64, math.MaxInt64)
		for k := 0; k < 4; k++ {
			var ms []*labels.Matcher
			for j := 0; j < r.Intn(3); j++ {
				ms = append(ms, genMatcher(r))
			}
			if wide && len(ms) > 0 {
				ms = genWideMatchers(r, ref)
			}
			sub := ref.matching(ms)
			names := map[string]bool{}
			vals := map[string]bool{}
			ln := pick(r, append([]string{labels.MetricName, "nosuch"}, lnAlphabet...))
			if wide && r.Intn(3) > 0 {
				ln = fmt.Sprintf("n%d", r.Intn(4))
				if ls := ref.matching(ms); len(ls) > 0 && r.Intn(2) == 0 {
					l := ls[r.Intn(len(ls))].lset
					ln = l[r.Intn(len(l))].Name
				}
			}
			for _, rs := range sub {
				for _, l := range rs.lset {
					names[l.Name] = true
					if l.Name == ln {
						vals[l.Value] = true
					}
				}
			}
			c.Desc("store %s%s names/values(%s) %v", what, cleaned, ln, ms)
			gn, _, err := q.LabelNames(ms...)
			if err != nil {
				c.Violation("names-err", "LabelNames: %v", err)
			}
			gv, _, err := q.LabelValues(ln, ms...)
			if err != nil {
				c.Violation("values-err", "LabelValues: %v", err)
			}
			if w := keysOf(names); !sameStrings(w, gn) {
				c.Violation("label-names", "LabelNames(%v) = %q, must be %q", ms, gn, w)
				return
			}
			if w := keysOf(vals); !sameStrings(w, gv) {
				c.Violation("label-values", "LabelValues(%q, %v) = %q, must be %q", ln, ms, gv, w)
				return
			}
			c.Eval(fmt.Sprint(i, what, ln, ms), len(sub) > 0 && len(sub) < len(ref.byKey))
			if len(sub) > 0 && len(sub) < len(ref.byKey) {
				c.Sample("LabelValues(%q,%v)=%q LabelNames=%q", ln, ms, gv, gn)
			}
		}
	}
	c.Cases("enum", c.N(8000, 120000), func(i int, r *rand.Rand) { run(i, r, false) })
	c.Cases("wide", c.N(200, 4000), func(i int, r *rand.Rand) { run(i, r, true) })
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
