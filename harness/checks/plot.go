package checks

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"github.com/gdamore/tcell"
	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"

	"sigs.k8s.io/instrumentation-tools/cmd/metrics"
	"sigs.k8s.io/instrumentation-tools/promq/term"
	"sigs.k8s.io/instrumentation-tools/promq/term/plot"

	"verif/harness/h"
)

// ---------------------------------------------------------------- workload

type gPoint struct {
	x int64
	y float64
}

func (p gPoint) X() int64   { return p.x }
func (p gPoint) Y() float64 { return p.y }

type gSeries struct {
	title string
	id    plot.SeriesId
	pts   []plot.Point
}

func (s *gSeries) Title() string        { return s.title }
func (s *gSeries) Id() plot.SeriesId    { return s.id }
func (s *gSeries) Points() []plot.Point { return s.pts }

func finite(v float64) bool { return !math.IsNaN(v) && !math.IsInf(v, 0) }

// genY draws a value generator of one of many magnitudes.
func genY(r *rand.Rand) func() float64 {
	switch r.Intn(14) {
	case 0:
		v := []float64{0, 1, -5, 1e17, -1e17, 5e-324, math.MaxFloat64, -math.MaxFloat64, 0.1}[r.Intn(9)]
		return func() float64 { return v }
	case 1: // large, differing by next to nothing
		b := []float64{1e16, 1.6e18, -1.6e18, 1e300, 9007199254740993}[r.Intn(5)]
		return func() float64 {
			v := b
			for n := r.Intn(6); n > 0; n-- {
				v = math.Nextafter(v, math.Inf(1))
			}
			return v
		}
	case 2:
		return func() float64 { return (r.Float64()*2 - 1) * math.MaxFloat64 }
	case 3:
		return func() float64 { return float64(r.Intn(9)) * 5e-324 }
	case 4:
		return func() float64 { return math.Exp(r.NormFloat64() * 100) }
	case 5:
		v := r.Float64()
		return func() float64 { v += r.Float64(); return v }
	case 6:
		v := 1e9 * r.Float64()
		return func() float64 { v += float64(r.Intn(3)); return v }
	case 7:
		return func() float64 { return -r.Float64() * 1e6 }
	case 8:
		return func() float64 { return float64(r.Intn(4)) }
	case 9:
		v := 1e6
		return func() float64 { v -= r.Float64() * 1e3; return v }
	default:
		m := math.Pow(10, float64(r.Intn(12)-4))
		return func() float64 { return r.NormFloat64() * m }
	}
}

func genSeriesSet(r *rand.Rand, hostile bool) plot.SeriesSet {
	n := r.Intn(5)
	if !hostile {
		n = 1 + r.Intn(3)
	}
	start := []int64{0, 1605000000000, -50, 1, 1 << 52}[r.Intn(5)]
	step := []int64{1, 1000, 5000, 15000, 60000, 7}[r.Intn(6)]
	shared := genY(r)
	bad := 0
	if hostile && r.Intn(3) == 0 {
		bad = 1 + r.Intn(10)
	}
	var set plot.SeriesSet
	for i := 0; i < n; i++ {
		g := shared
		if r.Intn(2) == 0 {
			g = genY(r)
		}
		np := r.Intn(40)
		switch r.Intn(8) {
		case 0:
			np = 0
		case 1:
			np = 1
		case 2:
			np = 1 + r.Intn(500)
		}
		if !hostile && np == 0 {
			np = 1
		}
		x := start
		var pts []plot.Point
		for k := 0; k < np; k++ {
			y := g()
			if bad > 0 && r.Intn(10) < bad {
				y = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[r.Intn(3)]
			}
			pts = append(pts, gPoint{x, y})
			switch r.Intn(10) {
			case 0:
				x += step * int64(1+r.Intn(20)) // gap
			case 1:
				x += int64(r.Intn(3)) // nearly or exactly the same time
			default:
				x += step
			}
		}
		set = append(set, &gSeries{title: fmt.Sprintf("s%d", i), id: plot.SeriesId(1 + r.Intn(255)), pts: pts})
	}
	return set
}

func descSet(set plot.SeriesSet) string {
	var sb strings.Builder
	for _, s := range set {
		fmt.Fprintf(&sb, "[id%d", s.Id())
		for i, p := range s.Points() {
			if i > 24 {
				fmt.Fprintf(&sb, " ..%d", len(s.Points()))
				break
			}
			fmt.Fprintf(&sb, " %d:%g", p.X(), p.Y())
		}
		sb.WriteString("] ")
	}
	return sb.String()
}

// recScreen records what is written where.
type recScreen struct {
	tcell.Screen
	cells map[[2]int]recCell
	dup   int
}

type recCell struct {
	r   rune
	c   []rune
	sty tcell.Style
}

func newRec() *recScreen {
	s := tcell.NewSimulationScreen("UTF-8")
	s.Init()
	s.SetSize(10, 5)
	return &recScreen{Screen: s, cells: map[[2]int]recCell{}}
}

func (s *recScreen) SetContent(x, y int, mainc rune, combc []rune, style tcell.Style) {
	s.cells[[2]int{x, y}] = recCell{mainc, append([]rune(nil), combc...), style}
}
func (s *recScreen) SetCell(x, y int, style tcell.Style, ch ...rune) {
	if len(ch) > 0 {
		s.SetContent(x, y, ch[0], ch[1:], style)
	}
}
func (s *recScreen) at(x, y int) rune { return s.cells[[2]int{x, y}].r }

func genBox(r *rand.Rand) term.PositionBox {
	b := term.PositionBox{StartCol: r.Intn(20), StartRow: r.Intn(20), Cols: r.Intn(90), Rows: r.Intn(35)}
	switch r.Intn(6) {
	case 0:
		b.Cols = r.Intn(10)
	case 1:
		b.Rows = r.Intn(6)
	case 2:
		b.Cols, b.Rows = 100+r.Intn(300), 20+r.Intn(80)
	case 3:
		b.StartCol, b.StartRow = 0, 0
	}
	return b
}

// ---- C15: graphs render whatever the data

func c15(c *h.Ctx) {
	c.Rule("random series sets (none, empty series, single points, gaps, equal times, NaN and infinities, flat lines of any sign, neighbouring floats, subnormal and maximal magnitudes) drawn by the graph widget into boxes of any size and position with random tick spacing, and re-drawn with the previous range carried over; monitors: no panic, no hang, no unbounded memory, no cell written outside the box; non-trivial: something was drawn and the data has at least two distinct finite values or a non-finite one")
	c.Cases("render", c.N(9000, 200000), func(i int, r *rand.Rand) {
		prev := plot.AutoAxes()
		box := genBox(r)
		g := &term.GraphView{
			DomainLabeler:     func(v int64) string { return fmt.Sprintf("%d", v%1000) },
			RangeLabeler:      func(v float64) string { return fmt.Sprintf("%5.5g", v) },
			DomainTickSpacing: []int{0, 0, 1, 3, 10, 50}[r.Intn(6)],
			RangeTickSpacing:  []int{0, 0, 1, 3, 10, 50}[r.Intn(6)],
		}
		for rnd := 0; rnd < 1+r.Intn(3); rnd++ {
			set := genSeriesSet(r, true)
			if rnd > 0 && r.Intn(3) == 0 {
				box = genBox(r)
			}
			c.Desc("box %+v spacing %d/%d, series %s", box, g.DomainTickSpacing, g.RangeTickSpacing, descSet(set))
			rec := newRec()
			if !c.Call("draw graph", func() {
				base := plot.AutoAxes()
				if r.Intn(3) > 0 {
					base = base.WithPreviousRange(prev)
				}
				g.Graph = plot.DataToPlatonicGraph(set, base)
				prev = g.Graph.PlatonicAxes
				g.SetBox(box)
				g.FlushTo(rec)
			}) {
				return
			}
			distinct := map[float64]bool{}
			bad := false
			for _, s := range set {
				for _, p := range s.Points() {
					if finite(p.Y()) {
						distinct[p.Y()] = true
					} else {
						bad = true
					}
				}
			}
			for xy := range rec.cells {
				if xy[0] < box.StartCol || xy[0] >= box.StartCol+box.Cols || xy[1] < box.StartRow || xy[1] >= box.StartRow+box.Rows {
					c.Violation("outside-box", "box %+v, spacing %d/%d: cell (col %d,row %d) written; series %s", box, g.DomainTickSpacing, g.RangeTickSpacing, xy[0], xy[1], descSet(set))
					return
				}
			}
			c.Count("cells_written", len(rec.cells))
			c.Eval(fmt.Sprintf("%v%s", box, descSet(set)), len(rec.cells) > 0 && (len(distinct) > 1 || bad))
			if c.WantSample() && len(rec.cells) > 0 && bad {
				c.Sample("box %+v: %d cells, all inside; %s", box, len(rec.cells), descSet(set))
			}
		}
	})
}

// ---- C16: what is drawn is the data

// exactPos is where v belongs on [0,n-1], as an exact fraction.
func exactPos(v, lo, hi *big.Rat, n int) float64 {
	d := new(big.Rat).Sub(hi, lo)
	if d.Sign() == 0 {
		return 0
	}
	q := new(big.Rat).Sub(v, lo)
	q.Quo(q, d)
	q.Mul(q, new(big.Rat).SetInt64(int64(n-1)))
	f, _ := q.Float64()
	return f
}

func rat(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }
func rati(i int64) *big.Rat  { return new(big.Rat).SetInt64(i) }

func nearRound(got int, exact float64, n int) bool {
	return math.Abs(float64(got)-exact) <= 0.5+1e-6+1e-9*float64(n)
}

// brailleDots lists the dots of a braille rune as (row,col) inside the cell.
func brailleDots(rn rune) (out [][2]int, ok bool) {
	if rn == ' ' {
		return nil, true
	}
	if rn < 0x2800 || rn > 0x28ff {
		return nil, false
	}
	// Unicode: dots 1-3 and 7 down the left column, 4-6 and 8 down the right
	pos := [8][2]int{{0, 0}, {1, 0}, {2, 0}, {0, 1}, {1, 1}, {2, 1}, {3, 0}, {3, 1}}
	for b := 0; b < 8; b++ {
		if (rn-0x2800)&(1<<b) != 0 {
			out = append(out, pos[b])
		}
	}
	return out, true
}

func c16(c *h.Ctx) {
	c.Rule("random series sets scaled to random screen sizes through the plotting pipeline; the lit dots are decoded from the braille output and compared with positions computed exactly (rationals): every finite sample's dot (samples sharing a column: one dot at their average) is lit, nothing is lit outside the rectangles between consecutive samples of a series, lines have no gaps, a cell has the colour of a series in it, every finite sample is kept exactly once; axes cover the data and any carried-over range. Plus complete enumeration of the dot-to-character mapping for small screens. Non-trivial: at least two columns with samples")
	scale := func(v float64) float64 { return v }
	c.Cases("placement", c.N(6000, 120000), func(i int, r *rand.Rand) {
		set := genSeriesSet(r, r.Intn(2) == 0)
		for k, s := range set { // distinct ids
			s.(*gSeries).id = plot.SeriesId(k*7 + 1 + r.Intn(5))
		}
		term := plot.ScreenSize{Rows: plot.Row(1 + r.Intn(30)), Cols: plot.Column(1 + r.Intn(70))}
		var size plot.ScreenSize
		base := plot.AutoAxes()
		// the range that must be carried over
		prevLo, prevHi := math.Inf(1), math.Inf(-1)
		switch r.Intn(6) {
		case 0:
			prevLo = r.NormFloat64() * math.Pow(10, float64(r.Intn(300)-100))
			prevHi = prevLo + math.Abs(prevLo)*r.Float64()
			base = base.WithPreviousRange(plot.PlatonicAxes{RangeMin: prevLo, RangeMax: prevHi})
		case 1:
			// what a few earlier graphs showed, some of them without data
			last := plot.AutoAxes()
			for n := 1 + r.Intn(4); n > 0; n-- {
				var earlier plot.SeriesSet
				switch r.Intn(4) {
				case 0:
				case 1:
					earlier = set
				default:
					earlier = genSeriesSet(r, r.Intn(2) == 0)
				}
				if !c.Call("plot earlier graph", func() {
					last = plot.DataToPlatonicGraph(earlier, plot.AutoAxes().WithPreviousRange(last)).PlatonicAxes
				}) {
					return
				}
				for _, s := range earlier {
					for _, p := range s.Points() {
						if finite(p.Y()) {
							prevLo, prevHi = math.Min(prevLo, p.Y()), math.Max(prevHi, p.Y())
						}
					}
				}
				c.Count("earlier_graphs", 1)
			}
			base = base.WithPreviousRange(last)
		}
		c.Desc("screen %+v carried range [%g,%g] series %s", term, prevLo, prevHi, descSet(set))
		var g *plot.PlatonicGraph
		var sg *plot.ScreenGraph
		var rendered *plot.RenderedGraph
		type out struct {
			rn rune
			id plot.SeriesId
		}
		cells := map[[2]int]out{}
		twice := ""
		if !c.Call("plot", func() {
			g = plot.DataToPlatonicGraph(set, base)
			size = plot.BrailleCellScreenSize(term)
			sg = g.ToScreen(scale, size)
			rendered = sg.Render(plot.BrailleCellMapper)
			plot.DrawBraille(rendered, func(row plot.Row, col plot.Column, rn rune, id plot.SeriesId) {
				k := [2]int{int(row), int(col)}
				if _, ok := cells[k]; ok {
					twice = fmt.Sprint(k)
				}
				cells[k] = out{rn, id}
			})
		}) {
			return
		}
		if size.Rows != term.Rows*4 || size.Cols != term.Cols*2 {
			c.Violation("braille-size", "a %v screen has %v dots", term, size)
			return
		}
		// the dots of samples are told from those of lines, and keep all their series
		samples := map[int]map[plot.SeriesId]bool{}
		for _, s := range sg.Series {
			for _, p := range s.Points {
				ind := plot.BrailleCellMapper(p.Row, p.Col, size)
				if samples[ind] == nil {
					samples[ind] = map[plot.SeriesId]bool{}
				}
				samples[ind][s.Id] = true
			}
		}
		for ind, cell := range rendered.Cells {
			has := map[plot.SeriesId]bool{cell.Series: true}
			for _, id := range cell.MoreSeries {
				has[id] = true
			}
			if cell.IsPoint != (samples[ind] != nil) || cell.IsPoint && !samples[ind][cell.Series] {
				c.Violation("rendered", "dot %d is that of a sample: %v, of series %d; samples there are of series %v; series %s", ind, cell.IsPoint, cell.Series, samples[ind], descSet(set))
				return
			}
			for id := range samples[ind] {
				if !has[id] {
					c.Violation("rendered", "dot %d lacks series %d, which has a sample there; series %s", ind, id, descSet(set))
					return
				}
			}
		}
		if twice != "" || len(cells) != int(term.Rows)*int(term.Cols) {
			c.Violation("cells", "screen %v: %d cells drawn, one twice: %q", term, len(cells), twice)
			return
		}
		// axes
		loY, hiY := prevLo, prevHi
		loX, hiX := int64(math.MaxInt64), int64(math.MinInt64)
		anyPt := false
		for _, s := range set {
			for _, p := range s.Points() {
				if p.X() < loX {
					loX = p.X()
				}
				if p.X() > hiX {
					hiX = p.X()
				}
				if finite(p.Y()) {
					anyPt = true
					loY, hiY = math.Min(loY, p.Y()), math.Max(hiY, p.Y())
				}
			}
		}
		if g.DomainMin != loX || g.DomainMax != hiX || g.RangeMin != loY || g.RangeMax != hiY {
			c.Violation("axes", "axes %+v, must be domain [%d,%d] range [%g,%g]; series %s", g.PlatonicAxes, loX, hiX, loY, hiY, descSet(set))
			return
		}
		// decode
		lit := map[[2]int]plot.SeriesId{} // (row from bottom, col)
		for k, o := range cells {
			ds, ok := brailleDots(o.rn)
			if !ok {
				c.Violation("not-braille", "cell %v shows %q", k, o.rn)
				return
			}
			if len(ds) == 0 && o.id != plot.NoSeries {
				c.Violation("blank-coloured", "blank cell %v belongs to series %d", k, o.id)
				return
			}
			for _, d := range ds {
				lit[[2]int{int(size.Rows) - 1 - (k[0]*4 + d[0]), k[1]*2 + d[1]}] = o.id
			}
		}
		if !anyPt {
			if len(lit) != 0 {
				c.Violation("phantom-dots", "%d dots lit without data", len(lit))
			}
			c.Eval("empty", false)
			return
		}
		if len(sg.Series) != len(set) {
			c.Violation("series-count", "%d series on screen for %d", len(sg.Series), len(set))
			return
		}
		explained := map[[2]int]map[plot.SeriesId]bool{}
		expl := func(k [2]int, id plot.SeriesId) {
			if explained[k] == nil {
				explained[k] = map[plot.SeriesId]bool{}
			}
			explained[k][id] = true
		}
		cols := map[int]bool{}
		Rlo, Rhi, Rx0, Rx1 := rat(loY), rat(hiY), rati(loX), rati(hiX)
		for si, s := range set {
			ss := sg.Series[si]
			if ss.Id != s.Id() {
				c.Violation("series-id", "series %d has id %d on screen", s.Id(), ss.Id)
				return
			}
			var want []plot.Point
			for _, p := range s.Points() {
				if finite(p.Y()) {
					want = append(want, p)
				}
			}
			k := 0
			lastCol := -1
			for _, pp := range ss.Points {
				row, col := int(pp.Row), int(pp.Col)
				if col <= lastCol {
					c.Violation("columns", "series %d: two points in column %d", s.Id(), col)
					return
				}
				lastCol = col
				cols[col] = true
				if len(pp.OriginalPoints) == 0 || k+len(pp.OriginalPoints) > len(want) {
					c.Violation("conservation", "series %d: a screen point stands for %d samples", s.Id(), len(pp.OriginalPoints))
					return
				}
				sum := 0.0
				for _, op := range pp.OriginalPoints {
					if op.X() != want[k].X() || op.Y() != want[k].Y() {
						c.Violation("conservation", "series %d: sample %d is %v on screen, must be %v", s.Id(), k, op, want[k])
						return
					}
					k++
					ex := exactPos(rati(op.X()), Rx0, Rx1, int(size.Cols))
					if !nearRound(col, ex, int(size.Cols)) {
						c.Violation("column", "sample at time %d in domain [%d,%d] is in column %d of %d, must be %.3f", op.X(), loX, hiX, col, size.Cols, ex)
						return
					}
					ey := exactPos(rat(op.Y()), Rlo, Rhi, int(size.Rows))
					sum += ey
					if len(pp.OriginalPoints) == 1 && !nearRound(row, ey, int(size.Rows)) {
						c.Violation("row", "value %g in range [%g,%g] is in row %d of %d, must be %.3f", op.Y(), loY, hiY, row, size.Rows, ey)
						return
					}
				}
				mean := sum / float64(len(pp.OriginalPoints))
				if len(pp.OriginalPoints) > 1 && math.Abs(mean-float64(row)) > 1.51 {
					c.Violation("row-average", "%d samples in one column average to row %.3f but are drawn in row %d; series %s", len(pp.OriginalPoints), mean, row, descSet(set))
					return
				}
				if len(pp.OriginalPoints) > 1 {
					c.Count("averaged_columns", 1)
				}
				if _, ok := lit[[2]int{row, col}]; !ok {
					c.Violation("dot-missing", "the dot (row %d,col %d) of series %d is not lit; series %s", row, col, s.Id(), descSet(set))
					return
				}
				c.Count("dots_checked", 1)
				expl([2]int{row, col}, s.Id())
			}
			if k != len(want) {
				c.Violation("conservation", "series %d: %d of %d samples on screen", s.Id(), k, len(want))
				return
			}
			for j := 1; j < len(ss.Points); j++ {
				a, b := ss.Points[j-1], ss.Points[j]
				r0, r1 := int(a.Row), int(b.Row)
				if r0 > r1 {
					r0, r1 = r1, r0
				}
				for rr := r0; rr <= r1; rr++ {
					for cc := int(a.Col); cc <= int(b.Col); cc++ {
						expl([2]int{rr, cc}, s.Id())
					}
				}
				// no gaps: along the longer direction each step has a dot near the ideal line
				run, rise := int(b.Col-a.Col), int(b.Row-a.Row)
				dir, steep := 1, rise
				if rise < 0 {
					dir, steep = -1, -rise
				}
				n := run
				if steep > run {
					n = steep
				}
				for t := 0; t <= n; t++ {
					fr, fc := float64(a.Row)+float64(rise)*float64(t)/float64(n), float64(a.Col)+float64(run)*float64(t)/float64(n)
					found := false
					for dr := -1; dr <= 1 && !found; dr++ {
						for dc := -1; dc <= 1 && !found; dc++ {
							rr, cc := int(math.Round(fr))+dr, int(math.Round(fc))+dc
							if run >= steep && cc != int(a.Col)+t || steep > run && rr != int(a.Row)+dir*t {
								continue
							}
							_, found = lit[[2]int{rr, cc}]
						}
					}
					if !found && rise < 0 {
						// the two ways in which falling lines are known to be drawn
						sig := "falling-line-gap"
						if steep >= run {
							sig = "falling-line-steep-left-out"
						} else {
							level := true
							for cc := int(a.Col); cc <= int(b.Col); cc++ {
								if _, ok := lit[[2]int{int(a.Row), cc}]; !ok {
									level = false
								}
							}
							if level {
								sig = "falling-line-drawn-level"
							}
						}
						c.Violation(sig, "the line of series %d falling from (row %d,col %d) to (row %d,col %d) has a gap at (%.1f,%.1f)", s.Id(), a.Row, a.Col, b.Row, b.Col, fr, fc)
						break
					}
					if !found {
						c.Violation("line-gap", "the line of series %d from (row %d,col %d) to (row %d,col %d) has a gap at (%.1f,%.1f)", s.Id(), a.Row, a.Col, b.Row, b.Col, fr, fc)
						return
					}
				}
				c.Count("lines_checked", 1)
			}
		}
		for k := range lit {
			if explained[k] == nil {
				c.Violation("phantom-dots", "the dot (row %d,col %d) of %v is lit but no series passes there; series %s", k[0], k[1], size, descSet(set))
				return
			}
		}
		for k, o := range cells {
			if o.rn == ' ' {
				continue
			}
			ds, _ := brailleDots(o.rn)
			ok := false
			for _, d := range ds {
				if explained[[2]int{int(size.Rows) - 1 - (k[0]*4 + d[0]), k[1]*2 + d[1]}][o.id] {
					ok = true
				}
			}
			if !ok {
				c.Violation("colour", "cell %v has the colour of series %d, which has no dot in it", k, o.id)
				return
			}
		}
		c.Eval(descSet(set)+fmt.Sprint(term), len(cols) > 1)
		if c.WantSample() && len(cols) > 4 {
			c.Sample("%v: %d dots lit, %d columns with samples; %s", term, len(lit), len(cols), descSet(set))
		}
	})
	// the widget passes the colours on
	c.Cases("colours", c.N(1500, 30000), func(i int, r *rand.Rand) {
		set := genSeriesSet(r, false)
		ids := map[tcell.Color]bool{}
		for k, s := range set {
			s.(*gSeries).id = plot.SeriesId(1 + (r.Intn(40)+k*50)%255)
			ids[tcell.Color(s.Id())] = true
		}
		g := &term.GraphView{DomainLabeler: func(v int64) string { return "" }, RangeLabeler: func(v float64) string { return "" }}
		box := term.PositionBox{StartCol: r.Intn(3), StartRow: r.Intn(3), Cols: 10 + r.Intn(80), Rows: 5 + r.Intn(30)}
		c.Desc("graph view %v of %s", box, descSet(set))
		rec := newRec()
		if !c.Call("draw graph", func() {
			g.Graph = plot.DataToPlatonicGraph(set, plot.AutoAxes())
			g.SetBox(box)
			g.FlushTo(rec)
		}) {
			return
		}
		n := 0
		for xy, cell := range rec.cells {
			if cell.r <= 0x2800 || cell.r > 0x28ff {
				continue
			}
			n++
			if fg, _, _ := cell.sty.Decompose(); !ids[fg] {
				c.Violation("widget-colour", "cell %v has dots in colour %d, which no series has; series %s", xy, fg, descSet(set))
				return
			}
		}
		c.Eval("v"+descSet(set)+fmt.Sprint(box), n > 0 && len(set) > 1)
		c.Count("widget_cells", n)
	})
	// the widget shows the plot, whole and in its place
	c.Cases("widget", c.N(4000, 80000), func(i int, r *rand.Rand) {
		set := genSeriesSet(r, r.Intn(3) == 0)
		for k, s := range set {
			s.(*gSeries).id = plot.SeriesId(1 + k*300 + r.Intn(250))
		}
		w := newWidget(r)
		c.Desc("graph view %v spacing %d/%d of %s", w.box, w.v.DomainTickSpacing, w.v.RangeTickSpacing, descSet(set))
		if !c.Call("draw graph", func() { w.draw(set) }) {
			return
		}
		if !w.expectDrawn() {
			c.Eval("vsmall", false)
			return
		}
		if !w.found {
			some := false
			for _, s := range set {
				for _, p := range s.Points() {
					some = some || finite(p.Y())
				}
			}
			if some && len(w.rec.cells) == 0 {
				c.Violation("widget-not-drawn", "box %v has room for a plot of %v, but nothing is drawn; series %s", w.box, w.inner(), descSet(set))
			}
			return
		}
		in := plot.ScreenSize{Rows: plot.Row(w.rows), Cols: plot.Column(w.cols)}
		n, wrong := 0, ""
		if !c.Call("plot", func() {
			sg := w.v.Graph.ToScreen(scale, plot.BrailleCellScreenSize(in))
			plot.DrawBraille(sg.Render(plot.BrailleCellMapper), func(row plot.Row, col plot.Column, rn rune, id plot.SeriesId) {
				got := w.rec.cells[[2]int{w.corner[0] + 1 + int(col), w.box.StartRow + int(row)}]
				blank := func(rn rune) bool { return rn == 0 || rn == ' ' || rn == 0x2800 }
				if blank(rn) && blank(got.r) {
					return
				}
				n++
				fg, _, _ := got.sty.Decompose()
				if (got.r != rn || fg != tcell.Color(id%256)) && wrong == "" {
					wrong = fmt.Sprintf("the plot's cell (row %d,col %d) shows %q in colour %d, must be %q in colour %d", row, col, got.r, fg, rn, id%256)
				}
			})
		}) {
			return
		}
		if wrong != "" {
			c.Violation("widget-plot", "box %v, axes cross at %v: %s; series %s", w.box, w.corner, wrong, descSet(set))
			return
		}
		c.Eval("w"+descSet(set)+fmt.Sprint(w.box), n > 1)
		c.Count("widget_plots", 1)
		c.Count("widget_cells", n)
	})
	maxR, maxC := 6, 6
	if c.Thorough() {
		maxR, maxC = 14, 14
	}
	c.ListCases("mapping", maxR*maxC, func(i int) {
		t := plot.ScreenSize{Rows: plot.Row(1 + i/maxC), Cols: plot.Column(1 + i%maxC)}
		size := plot.BrailleCellScreenSize(t)
		seen := map[int]bool{}
		for row := plot.Row(0); row < size.Rows; row++ {
			for col := plot.Column(0); col < size.Cols; col++ {
				c.Desc("screen %v dot (%d,%d)", t, row, col)
				var ind int
				gr := &plot.RenderedGraph{ScreenSize: size, SubCellMapper: plot.BrailleCellMapper, Cells: make([]plot.Cell, int(size.Rows)*int(size.Cols))}
				wantR, wantC := int(size.Rows-1-row)/4, int(col)/2
				dotR, dotC := int(size.Rows-1-row)%4, int(col)%2
				if !c.Call("map and draw", func() {
					ind = plot.BrailleCellMapper(row, col, size)
					gr.Cells[ind] = plot.Cell{IsPoint: true, Series: 9}
					plot.DrawBraille(gr, func(rr plot.Row, cc plot.Column, rn rune, id plot.SeriesId) {
						ds, ok := brailleDots(rn)
						if int(rr) == wantR && int(cc) == wantC {
							if !ok || len(ds) != 1 || ds[0] != [2]int{dotR, dotC} || id != 9 {
								c.Violation("mapping", "screen %v: dot (row %d,col %d) is drawn as %q in cell (%d,%d)", t, row, col, rn, rr, cc)
							}
						} else if rn != ' ' {
							c.Violation("mapping", "screen %v: dot (row %d,col %d) also lights cell (%d,%d)", t, row, col, rr, cc)
						}
					})
				}) {
					return
				}
				if seen[ind] {
					c.Violation("mapping", "screen %v: two dots share index %d", t, ind)
					return
				}
				seen[ind] = true
				c.Count("dots_enumerated", 1)
				c.Eval(fmt.Sprintf("m%v%d,%d", t, row, col), true)
			}
		}
	})
	c.Cases("scales", c.N(800, 8000), func(i int, r *rand.Rand) {
		// non-linear monotone scales: order and end points are kept
		scales := []plot.RangeScale{math.Cbrt, math.Atan, func(v float64) float64 { return math.Log1p(math.Abs(v)) * sign(v) }, func(v float64) float64 { return 3*v - 7 }}
		sc := scales[r.Intn(len(scales))]
		lo := r.NormFloat64() * 100
		hi := lo + r.Float64()*1000 + 1
		g := plot.PlatonicGraph{PlatonicAxes: plot.PlatonicAxes{DomainMin: 0, DomainMax: 10, RangeMin: lo, RangeMax: hi}}
		n := 2 + r.Intn(200)
		c.Desc("scale on [%g,%g] rows %d", lo, hi, n)
		_, rng := g.ScalePlatonicToScreen(sc, plot.ScreenSize{Rows: plot.Row(n), Cols: 5})
		for k := 0; k < 20; k++ {
			v := lo + (hi-lo)*r.Float64()
			switch k {
			case 0:
				v = lo
			case 1:
				v = hi
			}
			ex := (sc(v) - sc(lo)) / (sc(hi) - sc(lo)) * float64(n-1)
			if got := int(rng(v)); !nearRound(got, ex, n) {
				c.Violation("scaled-row", "value %g of [%g,%g] under a non-linear scale is in row %d of %d, must be %.2f", v, lo, hi, got, n, ex)
				return
			}
		}
		c.Eval(fmt.Sprintf("sc%g%g%d", lo, hi, n), true)
	})
}

// widget is a graph view drawn on a recording screen, and what its picture
// says about where the plot is.
type widget struct {
	v      *term.GraphView
	box    term.PositionBox
	rec    *recScreen
	found  bool
	corner [2]int // of the axes (col,row)
	rows   int    // of the plot
	cols   int
	times  map[string]int64 // by label
	values map[string]float64
}

func newWidget(r *rand.Rand) *widget {
	w := &widget{box: genBox(r), rec: newRec(), times: map[string]int64{}, values: map[string]float64{}}
	if r.Intn(2) == 0 {
		w.box.Cols, w.box.Rows = w.box.Cols%12, w.box.Rows%12
	}
	// every time and value has a label of its own
	tl, vl := map[int64]string{}, map[float64]string{}
	tw, vw := 1+r.Intn(4), 1+r.Intn(6)
	w.v = &term.GraphView{
		DomainTickSpacing: 1 + r.Intn(14), RangeTickSpacing: 1 + r.Intn(14),
		DomainLabeler: func(v int64) string {
			if _, ok := tl[v]; !ok {
				tl[v] = strings.Repeat("t", r.Intn(tw)) + fmt.Sprint(len(tl))
				w.times[tl[v]] = v
			}
			return tl[v]
		},
		RangeLabeler: func(v float64) string {
			if v == 0 {
				v = 0 // one zero
			}
			if _, ok := vl[v]; !ok {
				vl[v] = strings.Repeat("v", r.Intn(vw)) + fmt.Sprint(len(vl))
				w.values[vl[v]] = v
			}
			return vl[v]
		},
	}
	return w
}

func (w *widget) draw(set plot.SeriesSet) {
	w.v.Graph = plot.DataToPlatonicGraph(set, plot.AutoAxes())
	w.v.SetBox(w.box)
	w.v.FlushTo(w.rec)
	for xy, cell := range w.rec.cells {
		if cell.r == '┗' {
			w.found, w.corner = true, xy
			w.rows = xy[1] - w.box.StartRow
			w.cols = w.box.StartCol + w.box.Cols - 1 - xy[0]
		}
	}
}

// inner is the room that the axes leave.
func (w *widget) inner() plot.ScreenSize { return w.ticks().InnerGraphSize }

func (w *widget) ticks() *plot.ScreenTicks {
	return plot.EvenlySpacedTicks(w.v.Graph, plot.ScreenSize{Rows: plot.Row(w.box.Rows), Cols: plot.Column(w.box.Cols)},
		plot.TickScaling{RangeScale: func(v float64) float64 { return v }, DomainDensity: w.v.DomainTickSpacing, RangeDensity: w.v.RangeTickSpacing},
		plot.Labeling{DomainLabeler: w.v.DomainLabeler, RangeLabeler: w.v.RangeLabeler, LineSize: 1})
}

func (w *widget) expectDrawn() bool {
	in := w.inner()
	return in.Rows > 0 && in.Cols > 0
}

func sign(v float64) float64 {
	if v < 0 {
		return -1
	}
	return 1
}

// ---- C17: the axes tell the truth

func c17(c *h.Ctx) {
	c.Rule("random non-empty series sets and box sizes; ticks computed by the library and the axes drawn from them: every tick is inside the data's range, ordered, placed where the data of that value is placed, labelled with its value's label next to the axis and inside the margin; the first and last time and the smallest and largest value have a tick and no two ticks share a place; margins are just large enough; every drawn cell is an axis, tick, corner or label cell; non-trivial: at least two ticks on an axis")
	c.Cases("ticks", c.N(9000, 200000), func(i int, r *rand.Rand) {
		set := genSeriesSet(r, false)
		outer := plot.ScreenSize{Rows: plot.Row(1 + r.Intn(40)), Cols: plot.Column(1 + r.Intn(120))}
		if r.Intn(5) == 0 {
			outer = plot.ScreenSize{Rows: plot.Row(10 + r.Intn(90)), Cols: plot.Column(100 + r.Intn(300))}
		}
		sc := plot.TickScaling{RangeScale: func(v float64) float64 { return v }, RangeDensity: 1 + r.Intn(20), DomainDensity: 1 + r.Intn(20)}
		fm := []string{"%5.5g", "%.3g", "%g", "v"}[r.Intn(4)]
		rl := func(v float64) string {
			if fm == "v" {
				return "v"
			}
			return fmt.Sprintf(fm, v)
		}
		dl := func(v int64) string { return fmt.Sprint(v) }
		if r.Intn(2) == 0 {
			dl = func(v int64) string { return fmt.Sprint(v % 97) }
		}
		lineSize := 1
		if r.Intn(6) == 0 {
			lineSize = 2
		}
		c.Desc("outer %+v densities %d/%d format %q series %s", outer, sc.DomainDensity, sc.RangeDensity, fm, descSet(set))
		var g *plot.PlatonicGraph
		var tk *plot.ScreenTicks
		type ax struct {
			kind plot.AxisCellKind
			rn   rune
		}
		cells := map[[2]int][]ax{}
		if !c.Call("ticks", func() {
			g = plot.DataToPlatonicGraph(set, plot.AutoAxes())
			tk = plot.EvenlySpacedTicks(g, outer, sc, plot.Labeling{DomainLabeler: dl, RangeLabeler: rl, LineSize: lineSize})
		}) {
			return
		}
		if tk.InnerGraphSize.Rows == 0 || tk.InnerGraphSize.Cols == 0 {
			if tk.InnerGraphSize.Rows != 0 && tk.InnerGraphSize.Cols != 0 {
				c.Violation("inner", "inner size %v", tk.InnerGraphSize)
			}
			c.Eval("small", false)
			return
		}
		in := tk.InnerGraphSize
		if in.Rows < 0 || in.Cols < 0 || in.Rows+tk.MarginRows != outer.Rows || in.Cols+tk.MarginCols != outer.Cols {
			c.Violation("inner", "outer %v = inner %v + margins %d,%d does not hold", outer, in, tk.MarginRows, tk.MarginCols)
			return
		}
		if tk.LineSize != lineSize {
			c.Violation("inner", "line size %d, asked for %d", tk.LineSize, lineSize)
			return
		}
		// domain
		rx0, rx1 := rati(g.DomainMin), rati(g.DomainMax)
		maxL := 0
		for k, t := range tk.DomainTicks {
			if t.Value < g.DomainMin || t.Value > g.DomainMax {
				c.Violation("domain-tick-outside", "tick at time %d outside the data [%d,%d]", t.Value, g.DomainMin, g.DomainMax)
				return
			}
			if ex := exactPos(rati(t.Value), rx0, rx1, int(in.Cols)); !nearRound(int(t.Col), ex, int(in.Cols)) {
				c.Violation("domain-tick-place", "tick for time %d of [%d,%d] in column %d of %d, must be %.2f", t.Value, g.DomainMin, g.DomainMax, t.Col, in.Cols, ex)
				return
			}
			if t.Label != dl(t.Value) {
				c.Violation("domain-tick-label", "tick for time %d is labelled %q, not %q", t.Value, t.Label, dl(t.Value))
				return
			}
			if k > 0 && (t.Value <= tk.DomainTicks[k-1].Value || t.Col <= tk.DomainTicks[k-1].Col) {
				c.Violation("domain-tick-order", "ticks %+v not in order", tk.DomainTicks)
				return
			}
			if len(t.Label) > maxL {
				maxL = len(t.Label)
			}
		}
		if nd := len(tk.DomainTicks); nd == 0 || tk.DomainTicks[0].Value != g.DomainMin {
			c.Violation("domain-ends", "no tick at the first time %d: %+v", g.DomainMin, tk.DomainTicks)
			return
		} else if g.DomainMax > g.DomainMin && tk.DomainTicks[nd-1].Col != in.Cols-1 {
			c.Violation("domain-ends", "no tick at the last time %d (column %d): %+v", g.DomainMax, in.Cols-1, tk.DomainTicks)
			return
		}
		if int(tk.MarginRows) < maxL+lineSize {
			c.Violation("margin", "%d rows below the graph cannot hold labels of %d", tk.MarginRows, maxL)
			return
		}
		// range
		maxL = 0
		ry0, ry1 := rat(g.RangeMin), rat(g.RangeMax)
		for k, t := range tk.RangeTicks {
			if !(t.Value >= g.RangeMin && t.Value <= g.RangeMax) {
				c.Violation("range-tick-outside", "tick at value %g outside the data [%g,%g]", t.Value, g.RangeMin, g.RangeMax)
				return
			}
			up := int(in.Rows) - 1 - int(t.Row)
			if ex := exactPos(rat(t.Value), ry0, ry1, int(in.Rows)); !nearRound(up, ex, int(in.Rows)) {
				c.Violation("range-tick-place", "tick for value %g of [%g,%g] is %d rows up of %d, must be %.2f", t.Value, g.RangeMin, g.RangeMax, up, in.Rows, ex)
				return
			}
			if t.Label != rl(t.Value) {
				c.Violation("range-tick-label", "tick for value %g is labelled %q, not %q", t.Value, t.Label, rl(t.Value))
				return
			}
			if k > 0 && (t.Value <= tk.RangeTicks[k-1].Value || t.Row > tk.RangeTicks[k-1].Row) {
				c.Violation("range-tick-order", "ticks %+v not in order", tk.RangeTicks)
				return
			}
			if k > 0 && t.Row == tk.RangeTicks[k-1].Row {
				c.Violation("range-ticks-share-row", "the ticks for %g and %g are both drawn in row %d", tk.RangeTicks[k-1].Value, t.Value, t.Row)
			}
			if len(t.Label) > maxL {
				maxL = len(t.Label)
			}
		}
		nr := len(tk.RangeTicks)
		if nr == 0 || tk.RangeTicks[0].Value != g.RangeMin {
			c.Violation("range-ends", "no tick at the smallest value %g: %+v", g.RangeMin, tk.RangeTicks)
			return
		}
		if g.RangeMax > g.RangeMin && in.Rows > 1 && tk.RangeTicks[nr-1].Row != 0 {
			sig := "range-ends"
			if int(tk.RangeTicks[nr-1].Row) == int(in.Rows)-1 {
				// the last tick kept is in the bottom row, whose number counted from
				// the top is that of the top row counted from the bottom
				sig = "range-top-tick-mistaken-for-bottom"
			}
			c.Violation(sig, "no tick at the largest value %g (top row): %+v", g.RangeMax, tk.RangeTicks)
		}
		if int(tk.MarginCols) < maxL+lineSize {
			c.Violation("margin", "%d columns beside the graph cannot hold labels of %d", tk.MarginCols, maxL)
			return
		}
		// drawing
		if !c.Call("draw axes", func() {
			plot.DrawAxes(tk, func(row plot.Row, col plot.Column, rn rune, kind plot.AxisCellKind) {
				k := [2]int{int(row), int(col)}
				cells[k] = append(cells[k], ax{kind, rn})
			})
		}) {
			return
		}
		has := func(row, col int, kind plot.AxisCellKind) bool {
			for _, a := range cells[[2]int{row, col}] {
				if a.kind == kind {
					return true
				}
			}
			return false
		}
		line := int(tk.MarginCols) - 1
		for row := 0; row < int(in.Rows); row++ {
			if !has(row, line, plot.YAxisKind) {
				c.Violation("axis-line", "no value axis at row %d", row)
				return
			}
		}
		for col := 0; col < int(in.Cols); col++ {
			if !has(int(in.Rows), col+int(tk.MarginCols), plot.XAxisKind) {
				c.Violation("axis-line", "no time axis at column %d", col)
				return
			}
		}
		if cc := cells[[2]int{int(in.Rows), line}]; len(cc) == 0 || cc[len(cc)-1].kind != plot.AxisCornerKind {
			c.Violation("axis-corner", "no corner")
			return
		}
		allowed := map[[3]int]bool{}
		rowLabels := map[int]map[string]bool{}
		for _, t := range tk.RangeTicks {
			if !has(int(t.Row), line, plot.RangeTickKind) {
				c.Violation("tick-drawn", "range tick %+v is not drawn", t)
				return
			}
			allowed[[3]int{int(t.Row), line, int(plot.RangeTickKind)}] = true
			if rowLabels[int(t.Row)] == nil {
				rowLabels[int(t.Row)] = map[string]bool{}
			}
			rowLabels[int(t.Row)][t.Label] = true
			for k := range []rune(t.Label) {
				allowed[[3]int{int(t.Row), line - len([]rune(t.Label)) + k, int(plot.LabelKind)}] = true
			}
			if len(rowLabels[int(t.Row)]) == 1 {
				s := ""
				for k := range []rune(t.Label) {
					for _, a := range cells[[2]int{int(t.Row), line - len(t.Label) + k}] {
						if a.kind == plot.LabelKind {
							s += string(a.rn)
							break
						}
					}
				}
				if s != t.Label {
					c.Violation("label-drawn", "row %d shows label %q, must be %q", t.Row, s, t.Label)
					return
				}
			}
		}
		for _, t := range tk.DomainTicks {
			col := int(t.Col) + int(tk.MarginCols) - 1 // drawn at the cell before
			if !has(int(in.Rows), col, plot.DomainTickKind) {
				col++
			}
			if !has(int(in.Rows), col, plot.DomainTickKind) {
				c.Violation("tick-drawn", "domain tick %+v is not drawn", t)
				return
			}
			allowed[[3]int{int(in.Rows), col, int(plot.DomainTickKind)}] = true
			s := ""
			for k := range []rune(t.Label) {
				row := int(in.Rows) + lineSize + k
				allowed[[3]int{row, col, int(plot.LabelKind)}] = true
				for _, a := range cells[[2]int{row, col}] {
					if a.kind == plot.LabelKind {
						s += string(a.rn)
					}
				}
			}
			if s != t.Label {
				c.Violation("label-drawn", "column %d shows label %q, must be %q", col, s, t.Label)
				return
			}
		}
		for k, as := range cells {
			for _, a := range as {
				if (a.kind == plot.LabelKind || a.kind == plot.DomainTickKind || a.kind == plot.RangeTickKind) && !allowed[[3]int{k[0], k[1], int(a.kind)}] {
					c.Violation("stray", "a stray axis cell of kind %d at row %d col %d", a.kind, k[0], k[1])
					return
				}
				if k[0] < 0 || k[1] < 0 || k[0] >= int(outer.Rows) || k[1] >= int(outer.Cols) {
					c.Violation("outside", "axis cell at row %d col %d outside %v", k[0], k[1], outer)
					return
				}
			}
		}
		c.Count("domain_ticks", len(tk.DomainTicks))
		c.Count("range_ticks", nr)
		c.Eval(descSet(set)+fmt.Sprint(outer), nr > 1 || len(tk.DomainTicks) > 1)
		if c.WantSample() && nr > 2 {
			c.Sample("outer %v: ticks %+v / %+v", outer, tk.DomainTicks, tk.RangeTicks)
		}
	})
	// read off the picture that the widget draws
	c.Cases("widget", c.N(4000, 80000), func(i int, r *rand.Rand) {
		set := genSeriesSet(r, false)
		w := newWidget(r)
		c.Desc("graph view %v spacing %d/%d of %s", w.box, w.v.DomainTickSpacing, w.v.RangeTickSpacing, descSet(set))
		if !c.Call("draw graph", func() { w.draw(set) }) {
			return
		}
		if !w.found {
			c.Eval("wsmall", false)
			return
		}
		g := w.v.Graph
		fail := func(sig, f string, a ...interface{}) {
			if sig = "widget-" + sig; sig == "widget-" {
				sig = "range-ticks-share-row"
			}
			c.Violation(sig, "%s; box %v, axes cross at %v, series %s", fmt.Sprintf(f, a...), w.box, w.corner, descSet(set))
		}
		if w.rows <= 0 || w.cols <= 0 {
			fail("corner", "the axes leave %d rows and %d columns", w.rows, w.cols)
			return
		}
		// the ticks that the library is known to put into the same row
		shared, topGone := map[int]int{}, false
		for _, t := range w.ticks().RangeTicks {
			shared[int(t.Row)]++
			topGone = int(t.Row) == w.rows-1
		}
		// values, from top to bottom
		ticks, last := 0, math.Inf(1)
		sawMin, sawMax := false, false
		for row := 0; row < w.rows; row++ {
			y := w.box.StartRow + row
			txt := ""
			for x := w.box.StartCol; x < w.corner[0]; x++ {
				if rn := w.rec.at(x, y); rn != 0 {
					txt += string(rn)
				}
			}
			switch rn := w.rec.at(w.corner[0], y); {
			case rn == '┨':
				if shared[row] > 1 {
					// the labels lie over one another
					fail("", "%d ticks are drawn in row %d: %q", shared[row], row, txt)
					ticks++
					sawMin, sawMax = sawMin || row == w.rows-1, sawMax || row == 0
					continue
				}
				v, ok := w.values[txt]
				if !ok {
					fail("label", "the tick in row %d is labelled %q, which no value is", row, txt)
					return
				}
				up := w.rows - 1 - row
				if ex := exactPos(rat(v), rat(g.RangeMin), rat(g.RangeMax), w.rows); v < g.RangeMin || v > g.RangeMax || !nearRound(up, ex, w.rows) {
					fail("place", "the tick labelled %q, for value %g of [%g,%g], is drawn %d rows up of %d, must be %.2f", txt, v, g.RangeMin, g.RangeMax, up, w.rows, ex)
					return
				}
				if v >= last {
					fail("order", "values %g and %g out of order", last, v)
					return
				}
				last = v
				sawMin, sawMax = sawMin || v == g.RangeMin, sawMax || up == w.rows-1
				ticks++
			case txt != "":
				fail("stray", "row %d has text %q but no tick", row, txt)
				return
			case rn != '┃':
				fail("line", "no value axis in row %d: %q", row, rn)
				return
			}
		}
		if sawMin && !sawMax && w.rows > 1 && g.RangeMin < g.RangeMax && topGone {
			c.Violation("range-top-tick-mistaken-for-bottom", "no tick at the largest value %g (top row); box %v, series %s", g.RangeMax, w.box, descSet(set))
			sawMax = true
		}
		if !sawMin || !sawMax && w.rows > 1 && g.RangeMin < g.RangeMax {
			fail("ends", "ticks for the smallest (%v) and the largest value (%v)", sawMin, sawMax)
			return
		}
		// times, from left to right
		shift, n := -1, 0
		lastT := int64(math.MinInt64)
		sawMin, sawMax = false, false
		for x := w.corner[0]; x < w.box.StartCol+w.box.Cols; x++ {
			txt := ""
			for y := w.corner[1] + 1; y < w.box.StartRow+w.box.Rows; y++ {
				if rn := w.rec.at(x, y); rn != 0 {
					txt += string(rn)
				}
			}
			rn := w.rec.at(x, w.corner[1])
			if txt == "" {
				if x > w.corner[0] && rn != '━' {
					fail("line", "time axis at column %d shows %q without a label", x, rn)
					return
				}
				continue
			}
			t, ok := w.times[txt]
			if !ok || x > w.corner[0] && rn != '┯' {
				fail("label", "the time axis's column %d shows %q above %q", x, rn, txt)
				return
			}
			if t <= lastT && n > 0 {
				fail("order", "times %d and %d out of order", lastT, t)
				return
			}
			lastT = t
			ex := exactPos(rati(t), rati(g.DomainMin), rati(g.DomainMax), w.cols)
			ok = false
			for sh := 0; sh < 2; sh++ { // on the cell before, or on it; all alike
				if (shift < 0 || shift == sh) && nearRound(x-w.corner[0]-sh, ex, w.cols) {
					if !nearRound(x-w.corner[0]-1+sh, ex, w.cols) {
						shift = sh
					}
					ok = true
				}
			}
			if !ok {
				fail("place", "the tick labelled %q, for time %d of [%d,%d], is drawn in column %d of %d, must be %.2f", txt, t, g.DomainMin, g.DomainMax, x-w.corner[0], w.cols, ex)
				return
			}
			n++
			sawMin, sawMax = sawMin || t == g.DomainMin, sawMax || math.Abs(ex-float64(w.cols-1)) <= 0.51
		}
		if !sawMin || !sawMax && g.DomainMin < g.DomainMax {
			fail("ends", "ticks for the first (%v) and the last time (%v)", sawMin, sawMax)
			return
		}
		c.Count("widget_ticks_read", ticks+n)
		c.Eval("w"+descSet(set)+fmt.Sprint(w.box), ticks > 1 || n > 1)
	})
}

// ---- C18: plotted series are the query's result

func c18(c *h.Ctx) {
	c.Rule("random range-query results (label sets with unicode, empty and equal values, any floats, no series, errors, other result types) converted for plotting; each series must keep every sample bit for bit, its title must be its label values in label order, its id non-zero, below 256 and the same whenever the same series is converted; later changes to the result's memory must not show; non-trivial: at least two series with samples")
	c.Cases("convert", c.N(6000, 100000), func(i int, r *rand.Rand) {
		var m promql.Matrix
		type want struct {
			title string
			pts   []promql.Point
		}
		var ws []want
		maxN, maxK := 6, 20
		if r.Intn(80) == 0 { // as large as real results get
			maxN, maxK = 300, 4
			if r.Intn(2) == 0 {
				maxN, maxK = 4, 3000
			}
		}
		for n := r.Intn(maxN); n > 0; n-- {
			lm := map[string]string{}
			for k := r.Intn(5); k > 0; k-- {
				lm[[]string{"__name__", "job", "instance", "a", "zz", "le", "Zone", "_", "A"}[r.Intn(9)]] = []string{"", "up", "x, y", "é世", "\"q\"", "b"}[r.Intn(6)]
			}
			ls := labels.FromMap(lm)
			var pts []promql.Point
			for k := r.Intn(maxK); k > 0; k-- {
				v := genY(r)()
				if r.Intn(8) == 0 {
					v = []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1)}[r.Intn(4)]
				}
				pts = append(pts, promql.Point{T: r.Int63n(1e13), V: v})
			}
			sort.Slice(pts, func(a, b int) bool { return pts[a].T < pts[b].T })
			var vals []string
			var names []string
			for k := range ls.Map() {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				vals = append(vals, ls.Get(k))
			}
			ws = append(ws, want{strings.Join(vals, ", "), append([]promql.Point(nil), pts...)})
			m = append(m, promql.Series{Metric: ls, Points: pts})
		}
		c.Desc("convert %v", m)
		if r.Intn(10) == 0 {
			var err error
			res := &promql.Result{Err: fmt.Errorf("boom"), Value: m}
			if r.Intn(2) == 0 {
				res = &promql.Result{Value: promql.Scalar{T: 1, V: 2}}
			}
			var set plot.SeriesSet
			if !c.Call("convert", func() { set, err = metrics.PromResultToPromSeriesSet(res) }) {
				return
			}
			if err == nil || len(set) != 0 {
				c.Violation("error-lost", "a failed or non-range result was converted without an error")
			}
			c.Eval("err", false)
			return
		}
		var set, set2 plot.SeriesSet
		var err error
		if !c.Call("convert", func() {
			set, err = metrics.PromResultToPromSeriesSet(&promql.Result{Value: m})
			set2, _ = metrics.PromResultToPromSeriesSet(&promql.Result{Value: m})
		}) {
			return
		}
		if err != nil || len(set) != len(m) {
			c.Violation("series-count", "%d series became %d (%v)", len(m), len(set), err)
			return
		}
		for k := range m { // the engine reuses this memory
			for j := range m[k].Points {
				m[k].Points[j] = promql.Point{T: -1, V: -1}
			}
		}
		for k, s := range set {
			if s.Title() != ws[k].title {
				c.Violation("title", "series %v is titled %q, must be %q", m[k].Metric, s.Title(), ws[k].title)
				return
			}
			if s.Id() == plot.NoSeries || s.Id() > 255 || s.Id() != set2[k].Id() {
				c.Violation("id", "series %v has id %d, then %d", m[k].Metric, s.Id(), set2[k].Id())
				return
			}
			ps := s.Points()
			if len(ps) != len(ws[k].pts) {
				c.Violation("points", "series %v: %d points of %d", m[k].Metric, len(ps), len(ws[k].pts))
				return
			}
			for j, p := range ps {
				if p.X() != ws[k].pts[j].T || math.Float64bits(p.Y()) != math.Float64bits(ws[k].pts[j].V) {
					c.Violation("points", "series %v point %d is (%d,%v), must be %v", m[k].Metric, j, p.X(), p.Y(), ws[k].pts[j])
					return
				}
			}
			c.Count("points", len(ps))
		}
		c.Eval(fmt.Sprint(ws), len(ws) > 1)
		if c.WantSample() && len(ws) > 1 {
			c.Sample("%d series: %q", len(set), set[0].Title())
		}
	})
}

func init() {
	h.Register(h.Check{ID: "C15", Fn: c15})
	h.Register(h.Check{ID: "C16", Fn: c16})
	h.Register(h.Check{ID: "C17", Fn: c17})
	h.Register(h.Check{ID: "C18", Fn: c18})
}
