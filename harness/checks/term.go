package checks

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode"

	"github.com/gdamore/tcell"
	"github.com/mattn/go-runewidth"

	"sigs.k8s.io/instrumentation-tools/promq/term"

	"verif/harness/h"
)

// ---------------------------------------------------------------- C19: split views

// pane is a leaf that records the boxes and flushes it got.
type pane struct {
	name    string
	boxes   []term.PositionBox
	flushes []tcell.Screen
}

func (p *pane) SetBox(b term.PositionBox)   { p.boxes = append(p.boxes, b) }
func (p *pane) FlushTo(screen tcell.Screen) { p.flushes = append(p.flushes, screen) }

// sizedOnly is a leaf that can't be flushed.
type sizedOnly struct{ term.StaticResizable }

// splitTree mirrors a tree of split views.
type splitTree struct {
	view           term.Resizable
	sv             *term.SplitView
	leaf           *pane
	dull           *sizedOnly
	docked, flexed *splitTree
}

func genSplit(r *rand.Rand, depth int, n *int) *splitTree {
	if depth == 0 || (*n > 0 && r.Intn(3) == 0) {
		*n++
		if r.Intn(6) == 0 {
			s := &sizedOnly{}
			return &splitTree{view: s, dull: s}
		}
		p := &pane{name: fmt.Sprintf("p%d", *n)}
		return &splitTree{view: p, leaf: p}
	}
	sv := &term.SplitView{Dock: term.DockPos(r.Intn(4)), DockSize: r.Intn(30)}
	switch r.Intn(10) {
	case 0:
		sv.DockSize = -r.Intn(5)
	case 1:
		sv.DockSize = 1000
	case 2:
		sv.DockSize = 0
	}
	switch r.Intn(4) {
	case 0:
		sv.DockMaxPercent = 1 + r.Intn(100)
	case 1:
		sv.DockMaxPercent = []int{1, 10, 20, 25, 33, 50, 99, 100, 150}[r.Intn(9)]
	}
	t := &splitTree{view: sv, sv: sv}
	*n++
	t.docked = genSplit(r, depth-1, n)
	t.flexed = genSplit(r, depth-1, n)
	sv.Docked, sv.Flexed = t.docked.view, t.flexed.view
	return t
}

func (t *splitTree) String() string {
	switch {
	case t.leaf != nil:
		return t.leaf.name
	case t.dull != nil:
		return "static"
	}
	return fmt.Sprintf("{dock %s size %d max %d%%: %s | %s}", [...]string{"below", "above", "left", "right"}[t.sv.Dock], t.sv.DockSize, t.sv.DockMaxPercent, t.docked, t.flexed)
}

// expectSplit lists the box each leaf has to get.
func (t *splitTree) expect(b term.PositionBox, out func(t *splitTree, b term.PositionBox)) {
	if t.sv == nil {
		out(t, b)
		return
	}
	avail := b.Rows
	if t.sv.Dock == term.PosLeft || t.sv.Dock == term.PosRight {
		avail = b.Cols
	}
	dock := t.sv.DockSize
	if dock > avail-1 { // always leave something to the other pane
		dock = avail - 1
	}
	if t.sv.DockMaxPercent > 0 {
		if m := avail * t.sv.DockMaxPercent / 100; dock > m {
			dock = m
		}
	}
	if dock < 0 {
		dock = 0
	}
	d, f := b, b
	switch t.sv.Dock {
	case term.PosBelow:
		d.Rows, f.Rows = dock, avail-dock
		d.StartRow = b.StartRow + f.Rows
	case term.PosAbove:
		d.Rows, f.Rows = dock, avail-dock
		f.StartRow = b.StartRow + dock
	case term.PosLeft:
		d.Cols, f.Cols = dock, avail-dock
		f.StartCol = b.StartCol + dock
	case term.PosRight:
		d.Cols, f.Cols = dock, avail-dock
		d.StartCol = b.StartCol + f.Cols
	}
	t.docked.expect(d, out)
	t.flexed.expect(f, out)
}

func (t *splitTree) leaves(out *[]*splitTree) {
	if t.sv == nil {
		*out = append(*out, t)
		return
	}
	t.docked.leaves(out)
	t.flexed.leaves(out)
}

func c19(c *h.Ctx) {
	c.Rule("random (nested) split views with random dock side, size and percentage, given a sequence of random boxes (also empty and tiny ones): each pane's box is compared with an independently computed one, the panes' boxes are counted cell by cell (every cell of the box in exactly one pane), and a flush must reach every pane that can be flushed, with the same screen; small sizes are enumerated completely for single splits; non-trivial: both panes of some split are non-empty")
	one := func(t *splitTree, boxes []term.PositionBox) {
		var leaves []*splitTree
		t.leaves(&leaves)
		for _, b := range boxes {
			c.Desc("%s in %+v", t, b)
			if !c.Call("SplitView.SetBox", func() { t.view.SetBox(b) }) {
				return
			}
			got := map[*splitTree]term.PositionBox{}
			for _, l := range leaves {
				switch {
				case l.dull != nil:
					got[l] = l.dull.PositionBox
				case len(l.leaf.boxes) == 0:
					c.Violation("no-box", "%s in %+v: %s got no box", t, b, l.leaf.name)
					return
				default:
					got[l] = l.leaf.boxes[len(l.leaf.boxes)-1]
				}
			}
			bad := false
			both := false
			t.expect(b, func(l *splitTree, want term.PositionBox) {
				g := got[l]
				if g.Rows > 0 && g.Cols > 0 && g != b {
					both = true
				}
				if g != want && !bad {
					bad = true
					c.Violation("wrong-box", "%s in %+v: pane %s got %+v, expected %+v", t, b, l, g, want)
				}
			})
			if bad {
				return
			}
			cells := map[[2]int]int{}
			for _, l := range leaves {
				g := got[l]
				for y := 0; y < g.Rows; y++ {
					for x := 0; x < g.Cols; x++ {
						cells[[2]int{g.StartCol + x, g.StartRow + y}]++
					}
				}
			}
			for y := 0; y < b.Rows; y++ {
				for x := 0; x < b.Cols; x++ {
					k := [2]int{b.StartCol + x, b.StartRow + y}
					if cells[k] != 1 {
						c.Violation("not-partitioned", "%s in %+v: cell %v is in %d panes", t, b, k, cells[k])
						return
					}
					delete(cells, k)
				}
			}
			if len(cells) > 0 {
				c.Violation("outside-box", "%s in %+v: %d cells of panes are outside", t, b, len(cells))
				return
			}
			scr := newRec()
			fl, canFlush := t.view.(term.Flushable)
			if canFlush {
				if !c.Call("SplitView.FlushTo", func() { fl.FlushTo(scr) }) {
					return
				}
				for _, l := range leaves {
					if l.leaf == nil {
						continue
					}
					if len(l.leaf.flushes) != 1 || l.leaf.flushes[0] != tcell.Screen(scr) {
						c.Violation("flush-lost", "%s: pane %s was flushed %d times by one flush", t, l.leaf.name, len(l.leaf.flushes))
						return
					}
					l.leaf.flushes = nil
				}
			}
			c.Count("panes_checked", len(leaves))
			c.Eval(fmt.Sprintf("%s %v", t, b), both)
			if c.WantSample() && both {
				c.Sample("%s in %+v: %d panes partition it", t, b, len(leaves))
			}
		}
	}
	c.Cases("nested", c.N(20000, 400000), func(i int, r *rand.Rand) {
		n := 0
		t := genSplit(r, 1+r.Intn(4), &n)
		if t.sv == nil {
			return
		}
		var boxes []term.PositionBox
		for k := 0; k < 1+r.Intn(3); k++ {
			b := genBox(r)
			if r.Intn(6) == 0 {
				b.Cols, b.Rows = r.Intn(4), r.Intn(4)
			}
			boxes = append(boxes, b)
		}
		one(t, boxes)
	})
	maxAvail := c.N(12, 30)
	c.ListCases("enumerated", (maxAvail+1)*4, func(i int) {
		avail, dock := i/4, term.DockPos(i%4)
		for size := -1; size <= avail+2; size++ {
			for _, pct := range []int{0, 1, 5, 10, 20, 25, 30, 33, 34, 50, 66, 67, 75, 90, 99, 100, 101, 200} {
				mk := func() *splitTree {
					a, b := &pane{name: "a"}, &pane{name: "b"}
					sv := &term.SplitView{Dock: dock, DockSize: size, DockMaxPercent: pct, Docked: a, Flexed: b}
					return &splitTree{view: sv, sv: sv, docked: &splitTree{view: a, leaf: a}, flexed: &splitTree{view: b, leaf: b}}
				}
				b := term.PositionBox{StartCol: 3, StartRow: 1, Cols: 3, Rows: avail}
				if dock == term.PosLeft || dock == term.PosRight {
					b.Cols, b.Rows = avail, 2
				}
				one(mk(), []term.PositionBox{b})
			}
		}
	})
}

// ---------------------------------------------------------------- C20: text boxes

type modelCell struct {
	r     rune
	comb  []rune
	sty   tcell.Style
	width int
}

type textSpan struct {
	s   string
	sty tcell.Style
}

// layout is the reference: text broken into lines of at most cols columns.
func layout(spans []textSpan, cols int) [][]modelCell {
	lines := [][]modelCell{nil}
	used := 0
	put := func(cell modelCell) {
		if cell.width > cols {
			return
		}
		if used+cell.width > cols {
			lines = append(lines, nil)
			used = 0
		}
		lines[len(lines)-1] = append(lines[len(lines)-1], cell)
		used += cell.width
	}
	for _, sp := range spans {
		var cur *modelCell
		flush := func() {
			if cur != nil {
				put(*cur)
				cur = nil
			}
		}
		for _, rn := range sp.s {
			if rn == '\n' {
				flush()
				lines = append(lines, nil)
				used = 0
				continue
			}
			if unicode.IsControl(rn) {
				continue
			}
			w := runewidth.RuneWidth(rn)
			if w == 0 {
				if cur == nil {
					cur = &modelCell{r: ' ', sty: sp.sty, width: 1}
				}
				cur.comb = append(cur.comb, rn)
				continue
			}
			flush()
			cur = &modelCell{r: rn, sty: sp.sty, width: w}
		}
		flush()
	}
	return lines
}

var textPieces = []string{"a", "b", "xyz", "word ", "  ", "\n", "\n\n", "é", "e\u0301", "o\u0308\u0323", "あ", "漢字", "한", "\u0301", "\t", "\x1b", "\r", "\x7f", "\u0085", "•", "😀", "→", "ｗ", "⚠", "\u200b", "\u200d", "longlonglong", "0123456789", "\xff", "{a=\"b\"}", "ﬁ", "Ω"}

func genText(r *rand.Rand, n int) string {
	var sb strings.Builder
	plain := r.Intn(3) == 0
	for ; n > 0; n-- {
		if plain {
			if r.Intn(12) == 0 {
				sb.WriteByte('\n')
			} else {
				sb.WriteByte(byte(' ' + r.Intn(94)))
			}
			continue
		}
		sb.WriteString(textPieces[r.Intn(len(textPieces))])
	}
	return sb.String()
}

func genStyle(r *rand.Rand) tcell.Style {
	s := tcell.StyleDefault
	if r.Intn(2) == 0 {
		s = s.Foreground(tcell.Color(r.Intn(256)))
	}
	if r.Intn(3) == 0 {
		s = s.Background(tcell.Color(r.Intn(256)))
	}
	if r.Intn(4) == 0 {
		s = s.Bold(true)
	}
	return s
}

// cellDiff compares a drawn cell with the expected one ("" if the same).
func cellDiff(got recCell, want modelCell) string {
	if got.r == 0 {
		got.r = ' '
	}
	if got.r != want.r || string(got.c) != string(want.comb) {
		return fmt.Sprintf("shows %q+%q instead of %q+%q", got.r, string(got.c), want.r, string(want.comb))
	}
	if got.sty != want.sty {
		return fmt.Sprintf("%q has style %v instead of %v", got.r, got.sty, want.sty)
	}
	return ""
}

func c20(c *h.Ctx) {
	c.Rule("random styled writes (narrow, wide, combining and control characters, newlines, invalid UTF-8) to text boxes, drawn into a random box, then resized, written to and drawn again several times on fresh screens; every cell of the box is compared (character, combining marks, style) with an independent line-breaking model that keeps the last lines; nothing may be drawn outside the box. Non-trivial: some line wrapped, scrolled or held a wide or combining character")
	c.Cases("layout", c.N(25000, 500000), func(i int, r *rand.Rand) {
		tb := &term.TextBox{}
		var spans []textSpan
		var hist []string
		box := genBox(r)
		for rnd := 0; rnd < 1+r.Intn(4); rnd++ {
			for k := r.Intn(4); k > 0; k-- {
				n := r.Intn(30)
				if r.Intn(20) == 0 {
					n = 500
				}
				sp := textSpan{genText(r, n), genStyle(r)}
				spans = append(spans, sp)
				hist = append(hist, fmt.Sprintf("write %q", sp.s))
				tb.WriteString(sp.s, sp.sty)
			}
			if rnd == 0 || r.Intn(3) > 0 {
				box = genBox(r)
				if r.Intn(3) == 0 {
					box.Cols = r.Intn(6)
				}
				hist = append(hist, fmt.Sprintf("box %+v", box))
				if !c.Call("TextBox.SetBox", func() { tb.SetBox(box) }) {
					return
				}
			}
			hist = append(hist, "draw")
			c.Desc("%s", strings.Join(hist, "; "))
			rec := newRec()
			if !c.Call("TextBox.FlushTo", func() { tb.FlushTo(rec) }) {
				return
			}
			lines := layout(spans, box.Cols)
			if box.Cols == 0 || box.Rows == 0 {
				if len(rec.cells) > 0 {
					c.Violation("outside-box", "%d cells drawn into the empty box %+v", len(rec.cells), box)
					return
				}
				continue
			}
			scrolled := len(lines) > box.Rows
			if scrolled {
				lines = lines[len(lines)-box.Rows:]
			}
			special := scrolled
			for y := 0; y < box.Rows; y++ {
				var line []modelCell
				if y < len(lines) {
					line = lines[y]
				}
				x := 0
				for _, m := range line {
					if d := cellDiff(rec.cells[[2]int{box.StartCol + x, box.StartRow + y}], m); d != "" {
						c.Violation("wrong-text", "column %d, row %d of box %+v %s\nhistory: %s", x, y, box, d, strings.Join(hist, "; "))
						return
					}
					if m.width > 1 || len(m.comb) > 0 {
						special = true
					}
					x += m.width
					c.Count("characters_compared", 1)
				}
				for ; x < box.Cols; x++ {
					if d := cellDiff(rec.cells[[2]int{box.StartCol + x, box.StartRow + y}], modelCell{r: ' ', sty: tcell.StyleDefault}); d != "" {
						c.Violation("not-blank", "column %d, row %d of box %+v %s\nhistory: %s", x, y, box, d, strings.Join(hist, "; "))
						return
					}
				}
				if x > box.Cols {
					panic("model: line wider than the box")
				}
			}
			for xy := range rec.cells {
				if xy[0] < box.StartCol || xy[0] >= box.StartCol+box.Cols || xy[1] < box.StartRow || xy[1] >= box.StartRow+box.Rows {
					c.Violation("outside-box", "box %+v: cell %v drawn; history: %s", box, xy, strings.Join(hist, "; "))
					return
				}
			}
			c.Eval(strings.Join(hist, ";"), special && len(spans) > 0)
			if c.WantSample() && special {
				c.Sample("%s", strings.Join(hist, "; "))
			}
		}
	})
}

func init() {
	h.Register(h.Check{ID: "C19", Fn: c19})
	h.Register(h.Check{ID: "C20", Fn: c20})
}
