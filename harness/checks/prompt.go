package checks

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	prompt "github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"

	"sigs.k8s.io/instrumentation-tools/promq/term"

	"verif/harness/gp"
	"verif/harness/h"
)

// stubScreen is the part of the runner that the prompt talks to.
type stubScreen struct {
	mu         sync.Mutex
	col, row   int
	hidden     bool
	repaints   int
	onRepaint  func()
	cursorSets int
}

func (s *stubScreen) ShowCursor(col, row int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.col, s.row, s.hidden = col, row, false
	s.cursorSets++
}
func (s *stubScreen) HideCursor() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.hidden = true
}
func (s *stubScreen) RequestRepaint() {
	s.mu.Lock()
	s.repaints++
	f := s.onRepaint
	s.mu.Unlock()
	if f != nil {
		f()
	}
}
func (s *stubScreen) cursor() (col, row int, hidden bool, repaints int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.col, s.row, s.hidden, s.repaints
}

// parked is a console parser on which a prompt's own loop stays parked, so
// that its steps can be made from outside.
type parked struct{ over chan struct{} }

func (p *parked) Setup() error                { <-p.over; runtime.Goexit(); return nil }
func (p *parked) TearDown() error             { return nil }
func (p *parked) GetWinSize() *prompt.WinSize { return &prompt.WinSize{Row: 1, Col: 1} }
func (p *parked) Read() ([]byte, error)       { select {} }

// heldView is a running prompt view whose prompt is stepped from outside.
type heldView struct {
	v      *term.PromptView
	scr    *stubScreen
	p      *prompt.Prompt
	in     prompt.ConsoleParser
	out    prompt.ConsoleWriter
	cancel func()
	ended  chan error
	over   chan struct{}
}

func hold(comp prompt.Completer, early *term.PositionBox, opts ...prompt.Option) *heldView {
	hv := &heldView{scr: &stubScreen{}, ended: make(chan error, 1), over: make(chan struct{})}
	ready := make(chan struct{})
	hv.v = &term.PromptView{
		Screen: hv.scr,
		SetupPrompt: func(req ...prompt.Option) *prompt.Prompt {
			hv.p = gp.New(comp, append(append([]prompt.Option(nil), opts...), req...)...)
			hv.in, hv.out = gp.Parser(hv.p), gp.Writer(hv.p)
			dummy := gp.New(comp)
			gp.SetParser(dummy, &parked{hv.over})
			return dummy
		},
		HandleInput: func(string) (*string, bool) { return nil, false },
		OnSetup:     func() { close(ready) },
	}
	if early != nil {
		hv.v.SetBox(*early)
	}
	ctx, cancel := context.WithCancel(context.Background())
	hv.cancel = cancel
	go func() { hv.ended <- hv.v.Run(ctx, nil, cancel) }()
	<-ready
	return hv
}

func (hv *heldView) stop() {
	hv.cancel()
	close(hv.over)
	<-hv.ended
}

// refWriter sends what go-prompt draws to the reference terminal.
type refWriter struct {
	*prompt.VT100Writer
	t *vtTerm
}

func (w *refWriter) sync() { w.t.write(gp.Drain(w.VT100Writer)) }
func (w *refWriter) Flush() error {
	w.sync()
	return nil
}

// refFeed feeds the reference prompt; it reports if go-prompt itself crashed.
func refFeed(p *prompt.Prompt, b []byte) (line string, done, crashed bool) {
	defer func() {
		if x := recover(); x != nil {
			crashed = true
		}
	}()
	line, done = gp.Feed(p, b)
	return line, done, false
}

// ---------------------------------------------------------------- C21

func c21(c *h.Ctx) {
	c.Rule("two workloads on a real prompt view compared cell by cell (and cursor, colours, repaint requests) with a reference VT100 terminal that is fed by go-prompt's own escape-sequence writer: random sequences of drawing operations with resizes, and whole editing sessions (text in many scripts, editing, history and completion keys, several lines, printed answers) in boxes of any size, small ones included. Non-trivial: the contents wrapped, scrolled or had completions")
	words := []string{"a", "bc", "foo ", "x=1", "漢", "あいう", "é", "•", " ", "longer words here ", "0123456789", "😀", "ü", "{job=\"x\"}"}
	c.Cases("ops", c.N(8000, 200000), func(i int, r *rand.Rand) {
		box := term.PositionBox{StartCol: r.Intn(9), StartRow: r.Intn(9), Cols: 2 + r.Intn(24), Rows: 1 + r.Intn(9)}
		var early *term.PositionBox
		if r.Intn(2) == 0 {
			early = &box
		}
		hv := hold(func(prompt.Document) []prompt.Suggest { return nil }, early)
		defer hv.stop()
		if early == nil {
			hv.v.SetBox(box)
		}
		ref := &refWriter{&prompt.VT100Writer{}, newVT(box.Cols, box.Rows)}
		t := ref.t
		var hist []string
		special := false
		both := func(what string, f func(w prompt.ConsoleWriter)) bool {
			hist = append(hist, what)
			c.Desc("box %+v: %s", box, strings.Join(hist, "; "))
			f(ref)
			ref.sync()
			return c.Call(what, func() { f(hv.out) })
		}
		n := 1 + r.Intn(40)
		for k := 0; k < n; k++ {
			ok := true
			if t.pending {
				special = true
				// what terminals do after writing to the last column differs, so
				// go-prompt always adds a line break there
				switch r.Intn(3) {
				case 0:
					ok = both("newline", func(w prompt.ConsoleWriter) { w.WriteRaw([]byte{'\n'}) })
				case 1:
					ok = both("home", func(w prompt.ConsoleWriter) { w.CursorGoTo(0, 0) })
				default:
					s := words[r.Intn(len(words))]
					ok = both(fmt.Sprintf("write %q", s), func(w prompt.ConsoleWriter) { w.WriteStr(s) })
				}
			} else {
				m := r.Intn(8) - 1
				if r.Intn(5) == 0 {
					m = []int{100, -100, 0}[r.Intn(3)]
				}
				switch r.Intn(20) {
				case 0, 1, 2, 3, 4:
					s := ""
					for j := 1 + r.Intn(3); j > 0; j-- {
						s += words[r.Intn(len(words))]
					}
					if r.Intn(4) == 0 {
						s += "\u0301"
						if r.Intn(2) == 0 {
							s += "z"
						}
					}
					ok = both(fmt.Sprintf("write %q", s), func(w prompt.ConsoleWriter) { w.WriteStr(s) })
				case 5:
					s := words[r.Intn(len(words))] + "\n" + words[r.Intn(len(words))] + "\n"
					ok = both(fmt.Sprintf("clear, write %q", s), func(w prompt.ConsoleWriter) { w.EraseDown(); w.WriteStr(s) })
				case 6, 7:
					fg, bg, bold := prompt.Color(r.Intn(17)), prompt.Color(r.Intn(17)), r.Intn(2) == 0
					ok = both(fmt.Sprintf("colour %d/%d/%v", fg, bg, bold), func(w prompt.ConsoleWriter) { w.SetColor(fg, bg, bold) })
				case 8:
					ok = both(fmt.Sprintf("up %d", m), func(w prompt.ConsoleWriter) { w.CursorUp(m) })
				case 9:
					ok = both(fmt.Sprintf("down %d", m), func(w prompt.ConsoleWriter) { w.CursorDown(m) })
				case 10:
					ok = both(fmt.Sprintf("forward %d", m), func(w prompt.ConsoleWriter) { w.CursorForward(m) })
				case 11:
					ok = both(fmt.Sprintf("backward %d", m), func(w prompt.ConsoleWriter) { w.CursorBackward(m) })
				case 12:
					ok = both("home", func(w prompt.ConsoleWriter) { w.CursorGoTo(0, 0) })
				case 13:
					ok = both("index", func(w prompt.ConsoleWriter) { w.ScrollDown() })
				case 14:
					ok = both("reverse index", func(w prompt.ConsoleWriter) { w.ScrollUp() })
				case 15:
					ok = both("erase down", func(w prompt.ConsoleWriter) { w.EraseDown() })
				case 16:
					if r.Intn(3) == 0 {
						ok = both("erase screen", func(w prompt.ConsoleWriter) { w.EraseScreen() })
					} else {
						ok = both("erase up", func(w prompt.ConsoleWriter) { w.EraseUp() })
					}
				case 17:
					switch r.Intn(3) {
					case 0:
						ok = both("erase start of line", func(w prompt.ConsoleWriter) { w.EraseStartOfLine() })
					case 1:
						ok = both("erase end of line", func(w prompt.ConsoleWriter) { w.EraseEndOfLine() })
					case 2:
						ok = both("erase line", func(w prompt.ConsoleWriter) { w.EraseLine() })
					}
				case 18:
					ok = both("clear, newline", func(w prompt.ConsoleWriter) { w.EraseEndOfLine(); w.WriteRaw([]byte{'\n'}) })
				case 19:
					ok = both("title", func(w prompt.ConsoleWriter) { w.SetTitle("abc"); w.ClearTitle() })
				}
			}
			if !ok {
				return
			}
			if r.Intn(25) == 0 {
				nb := term.PositionBox{StartCol: r.Intn(9), StartRow: r.Intn(9), Cols: 2 + r.Intn(24), Rows: 1 + r.Intn(9)}
				switch r.Intn(3) {
				case 0:
					nb.Cols = box.Cols
				case 1:
					nb = box
					nb.StartCol++
				}
				// a cursor that a resize leaves outside goes to the edge
				box = nb
				hist = append(hist, fmt.Sprintf("resize %+v", box))
				if !c.Call("SetBox", func() { hv.v.SetBox(box) }) {
					return
				}
				wasPending := t.pending
				t.pending = false
				t.resize(box.Cols, box.Rows)
				// the line may go on where it was cut: terminals differ
				if t.pending || wasPending {
					t.pending = false
					if !both("home", func(w prompt.ConsoleWriter) { w.CursorGoTo(0, 0) }) {
						return
					}
				}
			}
			if r.Intn(60) == 0 {
				// the area has no room for a while: nothing may be drawn, and afterwards
				// a fresh picture must be right again
				nb := term.PositionBox{StartCol: r.Intn(9), StartRow: r.Intn(9), Cols: r.Intn(3), Rows: r.Intn(2)}
				if nb.Cols > 1 {
					nb.Rows = 0
				}
				hist = append(hist, fmt.Sprintf("resize %+v, drawing", nb))
				c.Desc("box %+v: %s", box, strings.Join(hist, "; "))
				quiet := true
				if !c.Call("drawing without room", func() {
					hv.v.SetBox(nb)
					for j := r.Intn(6); j > 0; j-- {
						switch r.Intn(8) {
						case 0:
							hv.out.WriteStr(words[r.Intn(len(words))])
						case 1:
							hv.out.WriteRaw([]byte{'\n'})
						case 2:
							hv.out.EraseDown()
						case 3:
							hv.out.CursorUp(r.Intn(3))
						case 4:
							hv.out.CursorForward(r.Intn(3))
						case 5:
							hv.out.CursorBackward(r.Intn(3))
						case 6:
							hv.out.EraseScreen()
						case 7:
							hv.out.Flush()
						}
						rec := newRec()
						hv.v.FlushTo(rec)
						quiet = quiet && insideBox(c, rec, nb, hist)
					}
					hv.v.SetBox(box)
				}) || !quiet {
					return
				}
				t.resize(box.Cols, box.Rows)
				if !both("home", func(w prompt.ConsoleWriter) { w.CursorGoTo(0, 0) }) ||
					!both("erase screen", func(w prompt.ConsoleWriter) { w.EraseScreen() }) {
					return
				}
				t.pending = false
				c.Count("times_without_room", 1)
			}
			if r.Intn(3) > 0 && k < n-1 {
				continue
			}
			_, _, _, before := hv.scr.cursor()
			hide := r.Intn(4) == 0
			if !c.Call("flush", func() {
				for _, w := range []prompt.ConsoleWriter{ref, hv.out} {
					if hide {
						w.HideCursor()
					} else {
						w.ShowCursor()
					}
					w.Flush()
				}
			}) {
				return
			}
			col, row, hidden, after := hv.scr.cursor()
			if after <= before {
				c.Violation("no-repaint", "box %+v: flushing requested no repaint; %s", box, strings.Join(hist, "; "))
				return
			}
			rec := newRec()
			if !c.Call("FlushTo", func() { hv.v.FlushTo(rec) }) {
				return
			}
			if d := t.diff(rec, box.StartCol, box.StartRow); d != "" {
				c.Violation("wrong-cell", "box %+v: %s\nafter: %s\nview:\n%sterminal:\n%s", box, d, strings.Join(hist, "; "), recText(rec, box.StartCol, box.StartRow, box.Cols, box.Rows), t.text())
				return
			}
			if hidden != t.hidden || (!hidden && !t.pending && (col != box.StartCol+t.col || row != box.StartRow+t.row)) {
				c.Violation("wrong-cursor", "box %+v: cursor at column %d, row %d (hidden %v), on a terminal %d, %d (hidden %v)\nafter: %s", box, col, row, hidden, box.StartCol+t.col, box.StartRow+t.row, t.hidden, strings.Join(hist, "; "))
				return
			}
			if !insideBox(c, rec, box, hist) {
				return
			}
			c.Count("screens_compared", 1)
		}
		c.Eval(fmt.Sprint(box, hist), special)
		if c.WantSample() && special {
			c.Sample("box %+v: %s", box, strings.Join(hist, "; "))
		}
	})

	sugg := []prompt.Suggest{{Text: "cheddar", Description: "only sharp"}, {Text: "chutney", Description: ""}, {Text: "cheese_total", Description: "a counter of cheeses, with a very long description of what it is about"}, {Text: "parmesan", Description: "漢字"}, {Text: "sum", Description: "aggregation"}, {Text: "sum_over_time(", Description: "function"}, {Text: "s", Description: "x"}, {Text: "stddev", Description: "y"}, {Text: "stdvar", Description: "z"}, {Text: "sort", Description: "function"}, {Text: "scalar", Description: "function"}}
	comp := func(d prompt.Document) []prompt.Suggest {
		w := d.GetWordBeforeCursor()
		if w == "" {
			return nil
		}
		return prompt.FilterHasPrefix(sugg, w, true)
	}
	type step struct {
		name string
		ev   *tcell.EventKey // nil: text
		seq  []byte
	}
	keys := []step{
		{"left", tcell.NewEventKey(tcell.KeyLeft, 0, 0), []byte("\x1b[D")},
		{"left", tcell.NewEventKey(tcell.KeyLeft, 0, 0), []byte("\x1b[D")},
		{"right", tcell.NewEventKey(tcell.KeyRight, 0, 0), []byte("\x1b[C")},
		{"up", tcell.NewEventKey(tcell.KeyUp, 0, 0), []byte("\x1b[A")},
		{"down", tcell.NewEventKey(tcell.KeyDown, 0, 0), []byte("\x1b[B")},
		{"tab", tcell.NewEventKey(tcell.KeyTab, 0, 0), []byte("\t")},
		{"tab", tcell.NewEventKey(tcell.KeyTab, 0, 0), []byte("\t")},
		{"backtab", tcell.NewEventKey(tcell.KeyBacktab, 0, 0), []byte("\x1b[Z")},
		{"backspace", tcell.NewEventKey(tcell.KeyBackspace2, 0, 0), []byte("\x7f")},
		{"delete", tcell.NewEventKey(tcell.KeyDelete, 0, 0), []byte("\x1b[3~")},
		{"home", tcell.NewEventKey(tcell.KeyHome, 0, 0), []byte("\x01")},
		{"ctrl-a", tcell.NewEventKey(tcell.KeyCtrlA, 0, tcell.ModCtrl), []byte("\x01")},
		{"ctrl-e", tcell.NewEventKey(tcell.KeyCtrlE, 0, tcell.ModCtrl), []byte("\x05")},
		{"ctrl-w", tcell.NewEventKey(tcell.KeyCtrlW, 0, tcell.ModCtrl), []byte("\x17")},
		{"ctrl-u", tcell.NewEventKey(tcell.KeyCtrlU, 0, tcell.ModCtrl), []byte("\x15")},
		{"ctrl-k", tcell.NewEventKey(tcell.KeyCtrlK, 0, tcell.ModCtrl), []byte("\x0b")},
		{"ctrl-c", tcell.NewEventKey(tcell.KeyCtrlC, 0, tcell.ModCtrl), []byte("\x03")},
		{"enter", tcell.NewEventKey(tcell.KeyEnter, 0, 0), []byte("\r")},
		{"enter", tcell.NewEventKey(tcell.KeyEnter, 0, 0), []byte("\r")},
	}
	c.Cases("sessions", c.N(3000, 60000), func(i int, r *rand.Rand) {
		box := term.PositionBox{StartCol: r.Intn(5), StartRow: r.Intn(30), Cols: 12 + r.Intn(60), Rows: 7 + r.Intn(10)}
		switch r.Intn(8) {
		case 0:
			box.Rows = 1 + r.Intn(8)
		case 1:
			box.Cols = 5 + r.Intn(12)
		}
		var early *term.PositionBox
		if r.Intn(2) == 0 {
			early = &box
		}
		opts := []prompt.Option{prompt.OptionPrefix(">>> "), prompt.OptionCompletionWordSeparator(" []{}()=!~,"), prompt.OptionPrefixTextColor(prompt.Cyan), prompt.OptionInputTextColor(prompt.Yellow)}
		hv := hold(comp, early, opts...)
		defer hv.stop()
		if early == nil {
			hv.v.SetBox(box)
		}
		ref := &refWriter{&prompt.VT100Writer{}, newVT(box.Cols, box.Rows)}
		rp := gp.New(comp, append(opts, prompt.OptionWriter(ref))...)
		t := ref.t
		var hist []string
		special := false
		shown := 0
		compare := func() bool {
			rec := newRec()
			if !c.Call("FlushTo", func() { hv.v.FlushTo(rec) }) {
				return false
			}
			if d := t.diff(rec, box.StartCol, box.StartRow); d != "" {
				c.Violation("wrong-cell", "box %+v: %s\nafter: %s\nview:\n%sterminal:\n%s", box, d, strings.Join(hist, " "), recText(rec, box.StartCol, box.StartRow, box.Cols, box.Rows), t.text())
				return false
			}
			col, row, hidden, _ := hv.scr.cursor()
			if hv.scr.cursorSets != t.shows {
				c.Violation("wrong-cursor", "box %+v: the cursor was shown %d times, not %d times; after: %s", box, hv.scr.cursorSets, t.shows, strings.Join(hist, " "))
				return false
			}
			if t.shows == shown {
				// a window that's too small: the cursor isn't placed
				return insideBox(c, rec, box, hist)
			}
			shown = t.shows
			if hidden != t.hidden || (!hidden && !t.pending && (col != box.StartCol+t.col || row != box.StartRow+t.row)) {
				c.Violation("wrong-cursor", "box %+v: cursor at column %d, row %d (hidden %v), on a terminal %d, %d (hidden %v)\nafter: %s", box, col, row, hidden, box.StartCol+t.col, box.StartRow+t.row, t.hidden, strings.Join(hist, " "))
				return false
			}
			if t.row > 0 {
				special = true
			}
			c.Count("screens_compared", 1)
			return insideBox(c, rec, box, hist)
		}
		begin := func() bool {
			gp.Start(rp, &prompt.WinSize{Row: uint16(box.Rows), Col: uint16(box.Cols)})
			return c.Call("render prompt", func() { gp.Start(hv.p, hv.in.GetWinSize()) }) && (t.fuzzy || compare())
		}
		if !begin() {
			return
		}
		for k := 1 + r.Intn(30); k > 0; k-- {
			st := keys[r.Intn(len(keys))]
			if r.Intn(2) == 0 {
				s := words[r.Intn(len(words))]
				if r.Intn(2) == 0 {
					s = []string{"c", "ch", "s", "su", "sum", "p", "che", "(", "s"}[r.Intn(9)]
				}
				st = step{name: fmt.Sprintf("%q", s), seq: []byte(s)}
				for _, rn := range s {
					hv.v.HandleKey(tcell.NewEventKey(tcell.KeyRune, rn, 0))
				}
			} else {
				hv.v.HandleKey(st.ev)
			}
			hist = append(hist, st.name)
			c.Desc("box %+v: %s", box, strings.Join(hist, " "))
			b, err := hv.in.Read()
			if err != nil {
				c.Violation("key-lost", "box %+v: nothing to read after %s", box, strings.Join(hist, " "))
				return
			}
			rline, rdone, crashed := refFeed(rp, st.seq)
			if crashed {
				// go-prompt itself can't draw completions in such a narrow window
				c.Count("sessions_cut_short", 1)
				break
			}
			var line string
			var done bool
			if !c.Call("feed", func() { line, done = gp.Feed(hv.p, b) }) {
				return
			}
			if line != rline || done != rdone || gp.Text(hv.p) != gp.Text(rp) {
				c.Violation("wrong-input", "box %+v: after %s the line is %q (entered %q %v), expected %q (%q %v)", box, strings.Join(hist, " "), gp.Text(hv.p), line, done, gp.Text(rp), rline, rdone)
				return
			}
			if done {
				if r.Intn(2) == 0 {
					a := fmt.Sprintf("answer to %q, which may be long\n", line)
					if r.Intn(3) == 0 {
						a = "two\nlines\n"
					}
					hist = append(hist, fmt.Sprintf("printed %q", a))
					for _, w := range []prompt.ConsoleWriter{ref, hv.out} {
						w.WriteStr(a)
						w.Flush()
					}
				}
				if !begin() {
					return
				}
				continue
			}
			if t.fuzzy {
				// go-prompt misjudged where the line ends (wide characters that
				// wrap, a window that's too small)
				c.Count("sessions_cut_short", 1)
				break
			}
			if !compare() {
				return
			}
		}
		c.Eval(fmt.Sprint(box, hist), special)
		if c.WantSample() && special {
			c.Sample("box %+v: %s\n%s", box, strings.Join(hist, " "), t.text())
		}
	})
}

// ---------------------------------------------------------------- C22

// keyTable says what go-prompt key each terminal key stands for.
type keyCase struct {
	name string
	ev   *tcell.EventKey
	want []prompt.Key // none: go-prompt has no such key
}

func keyCases() []keyCase {
	var out []keyCase
	add := func(k tcell.Key, m tcell.ModMask, want ...prompt.Key) {
		ev := tcell.NewEventKey(k, 0, m)
		out = append(out, keyCase{fmt.Sprintf("%s(mods %d)", ev.Name(), m), ev, want})
	}
	ctrl := map[tcell.Key]prompt.Key{
		tcell.KeyCtrlA: prompt.ControlA, tcell.KeyCtrlB: prompt.ControlB, tcell.KeyCtrlC: prompt.ControlC, tcell.KeyCtrlD: prompt.ControlD,
		tcell.KeyCtrlE: prompt.ControlE, tcell.KeyCtrlF: prompt.ControlF, tcell.KeyCtrlG: prompt.ControlG, tcell.KeyCtrlK: prompt.ControlK,
		tcell.KeyCtrlL: prompt.ControlL, tcell.KeyCtrlN: prompt.ControlN, tcell.KeyCtrlO: prompt.ControlO, tcell.KeyCtrlP: prompt.ControlP,
		tcell.KeyCtrlQ: prompt.ControlQ, tcell.KeyCtrlR: prompt.ControlR, tcell.KeyCtrlS: prompt.ControlS, tcell.KeyCtrlT: prompt.ControlT,
		tcell.KeyCtrlU: prompt.ControlU, tcell.KeyCtrlV: prompt.ControlV, tcell.KeyCtrlW: prompt.ControlW, tcell.KeyCtrlX: prompt.ControlX,
		tcell.KeyCtrlY: prompt.ControlY, tcell.KeyCtrlZ: prompt.ControlZ, tcell.KeyCtrlSpace: prompt.ControlSpace,
		tcell.KeyCtrlBackslash: prompt.ControlBackslash, tcell.KeyCtrlRightSq: prompt.ControlSquareClose,
		tcell.KeyCtrlCarat: prompt.ControlCircumflex, tcell.KeyCtrlUnderscore: prompt.ControlUnderscore,
	}
	for k := tcell.KeyCtrlSpace; k <= tcell.KeyCtrlUnderscore; k++ {
		if p, ok := ctrl[k]; ok {
			add(k, tcell.ModCtrl, p)
		}
	}
	// the same keys under several names
	add(tcell.KeyBackspace, 0, prompt.Backspace, prompt.ControlH)
	add(tcell.KeyBackspace2, 0, prompt.Backspace)
	add(tcell.KeyTab, 0, prompt.Tab, prompt.ControlI)
	add(tcell.KeyCtrlJ, tcell.ModCtrl, prompt.Enter, prompt.ControlJ)
	add(tcell.KeyEnter, 0, prompt.Enter, prompt.ControlM)
	add(tcell.KeyEscape, 0, prompt.Escape)
	for _, m := range []tcell.ModMask{0, tcell.ModAlt} {
		add(tcell.KeyHome, m, prompt.Home)
		add(tcell.KeyEnd, m, prompt.End)
		add(tcell.KeyPgUp, m, prompt.PageUp)
		add(tcell.KeyPgDn, m, prompt.PageDown)
		add(tcell.KeyInsert, m, prompt.Insert)
		add(tcell.KeyBacktab, m, prompt.BackTab)
	}
	for _, a := range []struct {
		k              tcell.Key
		plain, ctl, sh prompt.Key
	}{
		{tcell.KeyUp, prompt.Up, prompt.ControlUp, prompt.ShiftUp}, {tcell.KeyDown, prompt.Down, prompt.ControlDown, prompt.ShiftDown},
		{tcell.KeyLeft, prompt.Left, prompt.ControlLeft, prompt.ShiftLeft}, {tcell.KeyRight, prompt.Right, prompt.ControlRight, prompt.ShiftRight},
		{tcell.KeyDelete, prompt.Delete, prompt.ControlDelete, prompt.ShiftDelete},
	} {
		add(a.k, 0, a.plain)
		add(a.k, tcell.ModAlt, a.plain)
		add(a.k, tcell.ModCtrl, a.ctl)
		add(a.k, tcell.ModShift, a.sh)
		add(a.k, tcell.ModCtrl|tcell.ModAlt, a.ctl)
		add(a.k, tcell.ModShift|tcell.ModAlt, a.sh)
		add(a.k, tcell.ModCtrl|tcell.ModShift, a.ctl, a.sh)
	}
	fs := []prompt.Key{prompt.F1, prompt.F2, prompt.F3, prompt.F4, prompt.F5, prompt.F6, prompt.F7, prompt.F8, prompt.F9, prompt.F10, prompt.F11, prompt.F12,
		prompt.F13, prompt.F14, prompt.F15, prompt.F16, prompt.F17, prompt.F18, prompt.F19, prompt.F20, prompt.F21, prompt.F22, prompt.F23, prompt.F24}
	for i, f := range fs {
		add(tcell.KeyF1+tcell.Key(i), 0, f)
	}
	for k := tcell.KeyF25; k <= tcell.KeyF64; k++ {
		add(k, 0)
	}
	for _, k := range []tcell.Key{tcell.KeyUpLeft, tcell.KeyUpRight, tcell.KeyDownLeft, tcell.KeyDownRight, tcell.KeyCenter, tcell.KeyHelp, tcell.KeyExit, tcell.KeyClear, tcell.KeyCancel, tcell.KeyPrint, tcell.KeyPause} {
		add(k, 0)
	}
	return out
}

func isOneOf(k prompt.Key, want []prompt.Key) bool {
	for _, w := range want {
		if w == k {
			return true
		}
	}
	return false
}

// keyToken is what the prompt has to see for one key event.
type keyToken struct {
	text string
	kc   *keyCase
}

// checkStream compares what was read with what was typed; it returns "" if all
// is well.
func checkStream(reads [][]byte, want []keyToken) string {
	i := 0
	for n, b := range reads {
		if len(b) == 0 {
			return fmt.Sprintf("read %d is empty", n)
		}
		for i < len(want) && want[i].kc != nil && len(want[i].kc.want) == 0 {
			i++ // has no meaning for the prompt
		}
		if i >= len(want) {
			return fmt.Sprintf("read %d: %q was never typed", n, b)
		}
		if want[i].kc != nil {
			if k := prompt.GetKey(b); !isOneOf(k, want[i].kc.want) {
				return fmt.Sprintf("read %d: %q (go-prompt key %v) for the key %s, expected one of %v", n, b, k, want[i].kc.name, want[i].kc.want)
			}
			i++
			continue
		}
		s := string(b)
		for s != "" {
			for i < len(want) && want[i].kc != nil && len(want[i].kc.want) == 0 {
				i++
			}
			if i >= len(want) || want[i].kc != nil || !strings.HasPrefix(s, want[i].text) {
				next := "nothing"
				if i < len(want) {
					next = fmt.Sprintf("%q", want[i].text)
					if want[i].kc != nil {
						next = "the key " + want[i].kc.name
					}
				}
				return fmt.Sprintf("read %d: %q: %q came instead of %s", n, b, s, next)
			}
			s = s[len(want[i].text):]
			i++
		}
	}
	for ; i < len(want); i++ {
		if want[i].kc != nil && len(want[i].kc.want) == 0 {
			continue
		}
		return fmt.Sprintf("key event %d (%q %+v) was never read", i, want[i].text, want[i].kc)
	}
	return ""
}

func c22(c *h.Ctx) {
	c.Rule("every special key with every modifier that matters is sent on its own (complete enumeration against an independent table of what go-prompt key it stands for), and random sequences of text and special keys are sent with random reads in between, and from another goroutine than the one that reads; the reads must give back exactly what was typed, in order, with every special key in a read of its own. Non-trivial: text and special keys mixed")
	cases := keyCases()
	c.ListCases("keys", len(cases), func(i int) {
		kc := cases[i]
		hv := hold(nil, nil)
		defer hv.stop()
		c.Desc("key %s", kc.name)
		if !c.Call("HandleKey", func() { hv.v.HandleKey(kc.ev) }) {
			return
		}
		var got [][]byte
		for k := 0; k < 5; k++ {
			var b []byte
			var err error
			if !c.Call("Read", func() { b, err = hv.in.Read() }) {
				return
			}
			if err == nil {
				got = append(got, b)
			}
		}
		if d := checkStream(got, []keyToken{{kc: &kc}}); d != "" {
			c.Violation("wrong-key:"+kc.name, "%s", d)
			return
		}
		c.Count("special_keys", 1)
		c.Eval("key"+kc.name, len(kc.want) > 0)
	})
	runes := []rune("abcXYZ019 {}()=\"é漢😀\u0301~_[\u00a0\ufffd\u2028")
	gen := func(r *rand.Rand) (*tcell.EventKey, keyToken) {
		if r.Intn(3) == 0 {
			kc := &cases[r.Intn(len(cases))]
			return kc.ev, keyToken{kc: kc}
		}
		rn := runes[r.Intn(len(runes))]
		if r.Intn(5) == 0 {
			rn = rune(0x20 + r.Intn(0x3000))
			if rn == 0x7f {
				rn = 'q'
			}
		}
		var m tcell.ModMask
		if r.Intn(10) == 0 {
			m = tcell.ModShift
		}
		return tcell.NewEventKey(tcell.KeyRune, rn, m), keyToken{text: string(rn)}
	}
	descr := func(want []keyToken) string {
		var sb strings.Builder
		for _, w := range want {
			if w.kc != nil {
				fmt.Fprintf(&sb, " <%s>", w.kc.name)
			} else {
				fmt.Fprintf(&sb, " %q", w.text)
			}
		}
		return sb.String()
	}
	c.Cases("sequences", c.N(6000, 200000), func(i int, r *rand.Rand) {
		hv := hold(nil, nil)
		defer hv.stop()
		var want []keyToken
		var reads [][]byte
		queued := 0
		read := func() {
			if b, err := hv.in.Read(); err == nil {
				reads = append(reads, append([]byte(nil), b...))
			}
		}
		for k := 1 + r.Intn(60); k > 0; k-- {
			ev, w := gen(r)
			if queued >= 25 || r.Intn(6) == 0 {
				for j := 0; j < 120; j++ {
					if queued < 25 && r.Intn(3) == 0 {
						break
					}
					read()
				}
				if queued >= 25 {
					queued = 0
				}
			}
			want = append(want, w)
			c.Desc("keys%s", descr(want))
			hv.v.HandleKey(ev)
			queued++
		}
		for j := 0; j < 120; j++ {
			read()
		}
		if d := checkStream(reads, want); d != "" {
			c.Violation("wrong-stream", "%s\nkeys:%s\nreads: %q", d, descr(want), reads)
			return
		}
		c.Count("keys_in_sequences", len(want))
		mixed := strings.Contains(descr(want), "<") && len(reads) > 1
		c.Eval(descr(want), mixed)
		if c.WantSample() && mixed {
			c.Sample("keys:%s -> reads %q", descr(want), reads)
		}
	})
	// long pastes, read while they arrive
	c.Cases("pastes", c.N(60, 1500), func(i int, r *rand.Rand) {
		hv := hold(nil, nil)
		defer hv.stop()
		var want []keyToken
		var evs []*tcell.EventKey
		special := []int{0, 0, 500, 2000}[r.Intn(4)]
		for k := 500 + r.Intn(6000); k > 0; k-- {
			if special > 0 && r.Intn(special) == 0 {
				ev, w := gen(r)
				want, evs = append(want, w), append(evs, ev)
				continue
			}
			rn := rune('a' + r.Intn(26))
			if r.Intn(30) == 0 {
				rn = []rune("é漢😀{\"=")[r.Intn(6)]
			}
			want, evs = append(want, keyToken{text: string(rn)}), append(evs, tcell.NewEventKey(tcell.KeyRune, rn, 0))
		}
		c.Desc("a paste of %d keys", len(evs))
		sent := make(chan struct{})
		go func() {
			defer close(sent)
			for _, e := range evs {
				hv.v.HandleKey(e)
			}
		}()
		var reads [][]byte
		longest := 0
		for idle, over := 0, false; idle < 120; {
			b, err := hv.in.Read()
			if err == nil {
				reads = append(reads, append([]byte(nil), b...))
				longest = max(longest, len(b))
				idle = 0
				continue
			}
			if over {
				idle++
				continue
			}
			select {
			case <-sent:
				over = true
			default:
				runtime.Gosched()
			}
		}
		if d := checkStream(reads, want); d != "" {
			c.Violation("wrong-stream", "a paste of %d keys, %d of them special: %s", len(evs), special, d)
			return
		}
		c.Count("keys_pasted", len(want))
		if longest > 256 {
			c.Count("pastes_with_a_read_over_256", 1)
		}
		if longest > 1024 {
			c.Count("pastes_with_a_read_over_1024", 1)
		}
		c.Eval(fmt.Sprintf("paste %d %d", i, len(evs)), true)
	})
	c.Cases("concurrent", c.N(300, 5000), func(i int, r *rand.Rand) {
		hv := hold(nil, nil)
		defer hv.stop()
		var want []keyToken
		var evs []*tcell.EventKey
		for k := 50 + r.Intn(200); k > 0; k-- {
			ev, w := gen(r)
			want, evs = append(want, w), append(evs, ev)
		}
		c.Desc("concurrent keys%s", descr(want))
		sent := make(chan struct{})
		pause := r.Intn(20)
		go func() {
			defer close(sent)
			for k, e := range evs {
				hv.v.HandleKey(e)
				if pause > 0 && k%pause == 0 {
					runtime.Gosched()
				}
			}
		}()
		var reads [][]byte
		for idle, over := 0, false; idle < 120; {
			b, err := hv.in.Read()
			if err == nil {
				reads = append(reads, append([]byte(nil), b...))
				idle = 0
				continue
			}
			if over {
				idle++
				continue
			}
			select {
			case <-sent:
				over = true
			case <-time.After(50 * time.Microsecond):
			}
		}
		if d := checkStream(reads, want); d != "" {
			c.Violation("wrong-stream", "%s\nkeys:%s\nreads: %q", d, descr(want), reads)
			return
		}
		c.Count("keys_sent_concurrently", len(want))
		c.Eval(descr(want), true)
	})
}

// ---------------------------------------------------------------- C24

// endingParser hands the prompt an empty line once the session is over, so
// that its goroutines end too.
type endingParser struct {
	prompt.ConsoleParser
	over atomic.Bool
}

func (p *endingParser) Read() ([]byte, error) {
	if p.over.Load() {
		return []byte("\r"), nil
	}
	return p.ConsoleParser.Read()
}

type session struct {
	mu      sync.Mutex
	inputs  []string
	stops   int
	setups  int
	onSetup int
	late    []string // inputs after a stop
	stopped bool
	replies []string
	over    atomic.Bool
}

func c24(c *h.Ctx) {
	c.Rule("whole prompt views run with a real go-prompt loop (race detector on) while another goroutine draws and resizes them: initial input, typed lines, printed answers, a stop request, cancellation and deadlines at random points; recorded: every line handled (exactly once, in order, unchanged), answers on the view's screen, exactly one shutdown, what Run returns, that keys sent to a stopped view don't block. Non-trivial: at least two lines were entered")
	text := func(r *rand.Rand) string {
		ps := []string{"sum", "(", "rate", "foo_total", "{a=\"b\"}", "[5m]", ")", " ", "x", "é", "漢字", "+", "1", " by ", ","}
		s := ""
		for k := 1 + r.Intn(6); k > 0; k-- {
			s += ps[r.Intn(len(ps))]
		}
		if strings.TrimSpace(s) == "" {
			s += "q"
		}
		return s
	}
	// a batch of sessions at a time: they mostly wait
	c.Cases("sessions", c.N(120, 3000), func(i int, r *rand.Rand) {
		var wg sync.WaitGroup
		const par = 12
		res := make([]string, par)
		sigs := make([]string, par)
		descs := make([]string, par)
		for k := 0; k < par; k++ {
			k := k
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				sigs[k], res[k], descs[k] = promptSession(c, rr, text)
			}()
		}
		wg.Wait()
		for k := range res {
			if sigs[k] != "" {
				c.Violation(sigs[k], "%s\nsession: %s", res[k], descs[k])
			}
			c.Eval(descs[k], strings.Count(descs[k], "line ") > 1)
			c.Count("sessions", 1)
			if c.WantSample() {
				c.Sample("%s", descs[k])
			}
		}
	})
}

// waitFor polls until the condition holds; it gives up after a time that no
// working program needs, however loaded the machine.
func waitFor(cond func() bool) bool {
	dl := time.Now().Add(60 * time.Second)
	for !cond() {
		if time.Now().After(dl) {
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
	return true
}

func promptSession(c *h.Ctx, r *rand.Rand, text func(*rand.Rand) string) (sig, detail, desc string) {
	var hist []string
	s := &session{}
	scr := &stubScreen{}
	var ep *endingParser
	ready := make(chan struct{})
	stopAt := -1
	lines := 1 + r.Intn(4)
	if r.Intn(2) == 0 {
		stopAt = r.Intn(lines)
	}
	reply := make([]*string, lines+1)
	for k := range reply {
		if r.Intn(3) > 0 {
			t := fmt.Sprintf("reply-%d-%d\n", k, r.Intn(1000))
			reply[k] = &t
		}
	}
	sepAt := r.Intn(2) == 0
	v := &term.PromptView{
		Screen: scr,
		SetupPrompt: func(req ...prompt.Option) *prompt.Prompt {
			s.mu.Lock()
			s.setups++
			s.mu.Unlock()
			p := gp.New(func(prompt.Document) []prompt.Suggest { return nil }, append([]prompt.Option{prompt.OptionPrefix(">>> ")}, req...)...)
			ep = &endingParser{ConsoleParser: gp.Parser(p)}
			gp.SetParser(p, ep)
			return p
		},
		HandleInput: func(in string) (*string, bool) {
			if s.over.Load() {
				return nil, true
			}
			s.mu.Lock()
			defer s.mu.Unlock()
			if s.stopped {
				s.late = append(s.late, in)
				return nil, true
			}
			n := len(s.inputs)
			s.inputs = append(s.inputs, in)
			var t *string
			if n < len(reply) {
				t = reply[n]
			}
			if t != nil {
				s.replies = append(s.replies, *t)
			}
			if n == stopAt {
				s.stopped = true
				return t, true
			}
			return t, false
		},
		OnSetup: func() {
			s.mu.Lock()
			s.onSetup++
			s.mu.Unlock()
			close(ready)
		},
	}
	box := term.PositionBox{StartCol: r.Intn(5), StartRow: r.Intn(5), Cols: 60 + r.Intn(40), Rows: 20 + r.Intn(10)}
	early := r.Intn(2) == 0
	if early {
		hist = append(hist, "box before Run")
		v.SetBox(box)
	}
	var ctx context.Context
	var cancel func()
	deadline := false
	parent, pcancel := context.WithCancel(context.Background())
	defer pcancel()
	if stopAt < 0 && r.Intn(4) == 0 {
		deadline = true
		ctx, cancel = context.WithTimeout(parent, time.Duration(1+r.Intn([]int{15, 60, 300}[r.Intn(3)]))*time.Millisecond)
		hist = append(hist, "deadline")
	} else {
		ctx, cancel = context.WithCancel(parent)
	}
	defer cancel()
	// who stops the prompt may take its time to end the context
	lateCancel := r.Intn(3) == 0
	shutdown := func() {
		s.mu.Lock()
		s.stops++
		s.mu.Unlock()
		if !lateCancel {
			cancel()
		}
	}
	var want []string
	var initial *string
	if r.Intn(2) == 0 {
		t := text(r)
		if r.Intn(6) == 0 {
			t = ""
		}
		initial = &t
		want = append(want, t)
		hist = append(hist, fmt.Sprintf("initial line %q", t))
	}
	ended := make(chan error, 1)
	go func() { ended <- v.Run(ctx, initial, shutdown) }()
	fail := func(sg, f string, a ...any) (string, string, string) {
		s.over.Store(true)
		if ep != nil {
			ep.over.Store(true)
		}
		pcancel()
		return sg, fmt.Sprintf(f, a...), strings.Join(hist, "; ")
	}
	select {
	case <-ready:
	case <-time.After(60 * time.Second):
		return fail("never-set-up", "OnSetup wasn't called")
	}
	defer func() {
		s.over.Store(true)
		ep.over.Store(true)
	}()
	if !early {
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		}
		hist = append(hist, "box after setup")
		s.mu.Lock()
		n := len(s.inputs)
		s.mu.Unlock()
		if n > 0 {
			return fail("input-before-size", "a line was handled before the prompt had a size")
		}
	}
	// the drawing goroutine
	var drawMu sync.Mutex
	drawStop := make(chan struct{})
	drawDone := make(chan struct{})
	resizes := r.Intn(3) == 0
	rr := rand.New(rand.NewSource(r.Int63()))
	last := newRec()
	go func() {
		defer close(drawDone)
		if !early {
			v.SetBox(box)
		}
		for {
			drawMu.Lock()
			if resizes && rr.Intn(20) == 0 {
				box.StartCol = rr.Intn(5)
				v.SetBox(box)
			}
			rec := newRec()
			v.FlushTo(rec)
			last = rec
			drawMu.Unlock()
			select {
			case <-drawStop:
				return
			case <-time.After(time.Duration(1+rr.Intn(5)) * time.Millisecond):
			}
		}
	}()
	stopDraw := func() {
		select {
		case <-drawStop:
		default:
			close(drawStop)
		}
		<-drawDone
	}
	defer stopDraw()
	got := func() int {
		s.mu.Lock()
		defer s.mu.Unlock()
		return len(s.inputs)
	}
	send := func(ev *tcell.EventKey) bool {
		ok := make(chan struct{})
		go func() { v.HandleKey(ev); close(ok) }()
		select {
		case <-ok:
			return true
		case <-time.After(60 * time.Second):
			return false
		}
	}
	isOver := func() bool { return ctx.Err() != nil }
	for n := 0; n < lines && (stopAt < 0 || n <= stopAt); n++ {
		if n > 0 || initial == nil {
			t := text(r)
			want = append(want, t)
			hist = append(hist, fmt.Sprintf("line %q", t))
			for _, rn := range t {
				if !send(tcell.NewEventKey(tcell.KeyRune, rn, 0)) {
					return fail("key-blocks", "HandleKey never returned")
				}
				if sepAt && r.Intn(4) == 0 {
					time.Sleep(time.Duration(r.Intn(15)) * time.Millisecond)
				}
			}
			if !send(tcell.NewEventKey(tcell.KeyEnter, 0, 0)) {
				return fail("key-blocks", "HandleKey never returned")
			}
		}
		if !waitFor(func() bool { return got() > n || isOver() }) {
			return fail("line-lost", "line %d (%q) was never handled; handled so far: %q", n, want[len(want)-1], s.inputs)
		}
		if isOver() {
			break
		}
		// what the prompt says is shown, once it's drawn
		s.mu.Lock()
		rep := append([]string(nil), s.replies...)
		s.mu.Unlock()
		if len(rep) > 0 && !isOver() {
			wantText := strings.TrimSuffix(rep[len(rep)-1], "\n")
			seen := waitFor(func() bool {
				drawMu.Lock()
				defer drawMu.Unlock()
				return strings.Contains(recText(last, box.StartCol, box.StartRow, box.Cols, box.Rows), wantText) || isOver()
			})
			if !seen {
				return fail("reply-not-shown", "%q isn't on the screen:\n%s", wantText, recText(last, box.StartCol, box.StartRow, box.Cols, box.Rows))
			}
			c.Count("replies_seen", 1)
		}
	}
	if stopAt >= 0 {
		if !waitFor(func() bool { s.mu.Lock(); defer s.mu.Unlock(); return s.stops > 0 }) {
			return fail("no-shutdown", "HandleInput asked to stop, but the screen wasn't shut down")
		}
		hist = append(hist, "stopped")
		if lateCancel {
			hist = append(hist, "a line typed before the context ended")
			for _, rn := range "late" {
				if !send(tcell.NewEventKey(tcell.KeyRune, rn, 0)) {
					return fail("key-blocks", "HandleKey never returned")
				}
			}
			if !send(tcell.NewEventKey(tcell.KeyEnter, 0, 0)) {
				return fail("key-blocks", "HandleKey never returned")
			}
			time.Sleep(time.Duration(20+r.Intn(60)) * time.Millisecond)
			select {
			case err := <-ended:
				return fail("wrong-error", "Run returned %v before its context ended", err)
			default:
			}
			c.Count("late_cancels", 1)
			cancel()
		}
	} else if !deadline {
		hist = append(hist, "cancelled")
		cancel()
	}
	var err error
	select {
	case err = <-ended:
	case <-time.After(60 * time.Second):
		return fail("run-hangs", "Run didn't return")
	}
	if deadline && ctx.Err() == context.DeadlineExceeded {
		if !errors.Is(err, context.DeadlineExceeded) {
			return fail("wrong-error", "Run returned %v after its deadline", err)
		}
	} else if err != nil {
		return fail("wrong-error", "Run returned %v after it was cancelled", err)
	}
	// keys still arrive from the screen for a while
	for k := 0; k < 40; k++ {
		if !send(tcell.NewEventKey(tcell.KeyRune, 'z', 0)) {
			return fail("key-blocks", "HandleKey for a stopped prompt never returned")
		}
	}
	stopDraw()
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.setups != 1 || s.onSetup != 1 {
		return fail("wrong-setup", "SetupPrompt called %d times, OnSetup %d times", s.setups, s.onSetup)
	}
	if len(s.late) > 0 {
		return fail("input-after-stop", "handled after the stop: %q", s.late)
	}
	if stopAt < 0 && s.stops != 0 || s.stops > 1 || stopAt >= 0 && s.stops != 1 {
		return fail("wrong-shutdowns", "the screen was shut down %d times (stop requested: %v)", s.stops, stopAt >= 0)
	}
	// typed-ahead keys are go-prompt's business: lines are sent one at a time
	for k, in := range s.inputs {
		if k >= len(want) || in != want[k] {
			if isOver() && stopAt < 0 && k == len(s.inputs)-1 && k == len(want) {
				continue
			}
			return fail("wrong-line", "line %d was handled as %q; lines entered: %q; handled: %q", k, in, want, s.inputs)
		}
	}
	if !deadline && len(s.inputs) != len(want) {
		return fail("line-lost", "%d lines were entered, %d handled: %q", len(want), len(s.inputs), s.inputs)
	}
	c.Count("lines_handled", len(s.inputs))
	return "", "", strings.Join(hist, "; ")
}

var _ = utf8.RuneError

func init() {
	h.Register(h.Check{ID: "C21", Fn: c21})
	h.Register(h.Check{ID: "C22", Fn: c22, Race: true})
	h.Register(h.Check{ID: "C24", Fn: c24, Race: true})
}
