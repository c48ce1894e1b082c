package checks

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/gdamore/tcell"
	"github.com/mattn/go-runewidth"

	"sigs.k8s.io/instrumentation-tools/promq/term"

	"verif/harness/h"
)

// vtCell is one cell of the reference terminal.
type vtCell struct {
	modelCell
	tail bool // second half of a wide character
	unk  bool // terminals differ on what's here
}

// vtTerm is a reference VT100 terminal: it interprets the bytes that
// go-prompt's own VT100 writer produces.
type vtTerm struct {
	rows, cols int
	cells      [][]vtCell
	row, col   int
	pending    bool // the last column was just written to
	sty        tcell.Style
	fg, bg     int // -1: default
	bold       bool
	hidden     bool
	fuzzy      bool // something was done in the last column that terminals disagree on
	shows      int  // how often the cursor was shown
}

func blank() vtCell { return vtCell{modelCell: modelCell{r: ' ', width: 1}} }

func newVT(cols, rows int) *vtTerm {
	t := &vtTerm{rows: rows, cols: cols, fg: -1, bg: -1}
	for y := 0; y < rows; y++ {
		t.cells = append(t.cells, t.blankLine())
	}
	return t
}

func (t *vtTerm) blankLine() []vtCell {
	l := make([]vtCell, t.cols)
	for x := range l {
		l[x] = blank()
	}
	return l
}

func (t *vtTerm) resize(cols, rows int) {
	old := t.cells
	t.rows, t.cols, t.cells = rows, cols, nil
	for y := 0; y < rows; y++ {
		l := t.blankLine()
		if y < len(old) {
			copy(l, old[y])
			if cols < len(old[y]) && cols > 0 && old[y][cols].tail {
				l[cols-1] = vtCell{unk: true}
			}
		}
		t.cells = append(t.cells, l)
	}
	if t.col > cols-1 {
		t.col = cols - 1
		t.pending = true
	}
	if t.row > rows-1 {
		t.row = rows - 1
	}
}

// split handles a change to one half of a wide character.
func (t *vtTerm) split(y, x int) {
	l := t.cells[y]
	if l[x].tail && x > 0 {
		l[x-1].unk = true
		l[x].tail = false
	}
	if l[x].width == 2 && x+1 < t.cols && l[x+1].tail {
		l[x+1] = vtCell{unk: true}
	}
}

func (t *vtTerm) set(y, x int, c vtCell) {
	t.split(y, x)
	t.cells[y][x] = c
}

func (t *vtTerm) erase(y, from, to int) {
	for x := from; x < to; x++ {
		t.set(y, x, blank())
	}
}

func (t *vtTerm) index() {
	if t.row < t.rows-1 {
		t.row++
		return
	}
	t.cells = append(t.cells[1:], t.blankLine())
}

func (t *vtTerm) reverseIndex() {
	if t.row > 0 {
		t.row--
		return
	}
	t.cells = append([][]vtCell{t.blankLine()}, t.cells[:t.rows-1]...)
}

func (t *vtTerm) newline() {
	t.index()
	t.col, t.pending = 0, false
}

func (t *vtTerm) put(rn rune) {
	w := runewidth.RuneWidth(rn)
	if w == 0 {
		x := t.col - 1
		if t.pending {
			x = t.col
		}
		if x < 0 {
			return
		}
		if t.cells[t.row][x].tail {
			x--
		}
		t.cells[t.row][x].comb = append(append([]rune(nil), t.cells[t.row][x].comb...), rn)
		return
	}
	if w > t.cols {
		return
	}
	if t.pending {
		t.newline()
	}
	if t.col+w > t.cols {
		for x := t.col; x < t.cols; x++ {
			t.set(t.row, x, vtCell{unk: true})
		}
		t.newline()
	}
	t.set(t.row, t.col, vtCell{modelCell: modelCell{r: rn, sty: t.sty, width: w}})
	if w == 2 {
		t.split(t.row, t.col+1)
		t.cells[t.row][t.col+1] = vtCell{tail: true}
	}
	t.col += w
	if t.col == t.cols {
		t.col--
		t.pending = true
	}
}

func (t *vtTerm) sgr(args []int) {
	for _, a := range args {
		switch {
		case a == 0:
			t.fg, t.bg, t.bold = -1, -1, false
		case a == 1:
			t.bold = true
		case a >= 30 && a <= 37:
			t.fg = a - 30
		case a >= 90 && a <= 97:
			t.fg = a - 90 + 8
		case a == 39:
			t.fg = -1
		case a >= 40 && a <= 47:
			t.bg = a - 40
		case a >= 100 && a <= 107:
			t.bg = a - 100 + 8
		case a == 49:
			t.bg = -1
		default:
			panic(fmt.Sprintf("model: unknown attribute %d", a))
		}
	}
	t.sty = tcell.StyleDefault.Bold(t.bold)
	if t.fg >= 0 {
		t.sty = t.sty.Foreground(tcell.Color(t.fg))
	}
	if t.bg >= 0 {
		t.sty = t.sty.Background(tcell.Color(t.bg))
	}
}

func (t *vtTerm) write(b []byte) {
	for len(b) > 0 {
		switch {
		case b[0] == '\n':
			if !t.pending {
				// the view drops the rest of the line, terminals keep it
				for x := t.col; x < t.cols; x++ {
					if m := t.cells[t.row][x]; m.r != ' ' || m.sty != tcell.StyleDefault {
						t.set(t.row, x, vtCell{unk: true})
					}
				}
			}
			t.newline()
			b = b[1:]
		case b[0] == 0x1b && b[1] == 'D':
			t.index()
			b = b[2:]
		case b[0] == 0x1b && b[1] == 'M':
			t.reverseIndex()
			b = b[2:]
		case b[0] == 0x1b && b[1] == ']':
			i := strings.IndexByte(string(b), 7)
			b = b[i+1:]
		case b[0] == 0x1b && b[1] == '[':
			i := 2
			for b[i] < 0x40 {
				i++
			}
			t.csi(string(b[2:i]), b[i])
			b = b[i+1:]
		default:
			rn, n := utf8.DecodeRune(b)
			t.put(rn)
			b = b[n:]
		}
	}
}

func (t *vtTerm) csi(params string, final byte) {
	if strings.HasPrefix(params, "?") {
		if params == "?25" {
			t.hidden = final == 'l'
			if final == 'h' {
				t.shows++
			}
		}
		return
	}
	var args []int
	for _, s := range strings.Split(params, ";") {
		n, _ := strconv.Atoi(s)
		args = append(args, n)
	}
	n := args[0]
	if t.pending && final != 'm' && final != 'H' {
		t.fuzzy = true
	}
	move := func(dy, dx int) {
		t.pending = false
		t.row = min(max(t.row+dy, 0), t.rows-1)
		t.col = min(max(t.col+dx, 0), t.cols-1)
	}
	switch final {
	case 'A':
		move(-n, 0)
	case 'B':
		move(n, 0)
	case 'C':
		move(0, n)
	case 'D':
		move(0, -n)
	case 'H':
		t.pending = false
		t.row, t.col = 0, 0
		if params != "" {
			panic("model: only used to go home")
		}
	case 'J':
		switch n {
		case 0:
			t.erase(t.row, t.col, t.cols)
			for y := t.row + 1; y < t.rows; y++ {
				t.erase(y, 0, t.cols)
			}
		case 1:
			t.erase(t.row, 0, t.col+1)
			for y := 0; y < t.row; y++ {
				t.erase(y, 0, t.cols)
			}
		case 2:
			for y := 0; y < t.rows; y++ {
				t.erase(y, 0, t.cols)
			}
		}
	case 'K':
		switch n {
		case 0:
			t.erase(t.row, t.col, t.cols)
		case 1:
			t.erase(t.row, 0, t.col+1)
		case 2:
			t.erase(t.row, 0, t.cols)
		}
	case 'm':
		t.sgr(args)
	default:
		panic(fmt.Sprintf("model: unknown sequence %q %c", params, final))
	}
}

// diff compares the terminal with what was drawn at the given place.
func (t *vtTerm) diff(rec *recScreen, col0, row0 int) string {
	for y := 0; y < t.rows; y++ {
		for x := 0; x < t.cols; x++ {
			m := t.cells[y][x]
			if m.tail || m.unk {
				continue
			}
			if d := cellDiff(rec.cells[[2]int{col0 + x, row0 + y}], m.modelCell); d != "" {
				return fmt.Sprintf("column %d, row %d %s", x, y, d)
			}
		}
	}
	return ""
}

func (t *vtTerm) text() string {
	var sb strings.Builder
	for _, l := range t.cells {
		sb.WriteByte('|')
		for _, c := range l {
			if c.tail {
				continue
			}
			if c.unk {
				sb.WriteByte('?')
				continue
			}
			sb.WriteRune(c.r)
		}
		sb.WriteString("|\n")
	}
	return sb.String()
}

func recText(rec *recScreen, col0, row0, cols, rows int) string {
	var sb strings.Builder
	for y := 0; y < rows; y++ {
		sb.WriteByte('|')
		for x := 0; x < cols; x++ {
			r := rec.at(col0+x, row0+y)
			if r == 0 {
				r = ' '
			}
			sb.WriteRune(r)
			if runewidth.RuneWidth(r) == 2 {
				x++
			}
		}
		sb.WriteString("|\n")
	}
	return sb.String()
}

func insideBox(c *h.Ctx, rec *recScreen, box term.PositionBox, hist []string) bool {
	for xy := range rec.cells {
		if xy[0] < box.StartCol || xy[0] >= box.StartCol+box.Cols || xy[1] < box.StartRow || xy[1] >= box.StartRow+box.Rows {
			c.Violation("outside-box", "box %+v: cell %v drawn; after: %s", box, xy, strings.Join(hist, "; "))
			return false
		}
	}
	return true
}
