package checks

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gdamore/tcell"

	"sigs.k8s.io/instrumentation-tools/promq/term"

	"verif/harness/h"
)

// fakeScreen is a thread-safe terminal screen with an event queue of limited
// length, as tcell's: it records what is shown.
type fakeScreen struct {
	tcell.Screen // for what the runner has no use for

	mu       sync.Mutex
	w, h     int
	cells    map[[2]int]rune
	shown    map[[2]int]rune
	shownW   int
	shownH   int
	shows    int
	inits    int
	finis    int
	initErr  error
	cx, cy   int
	cvis     bool
	evch     chan tcell.Event
	quit     chan struct{}
	full     int
	beforeIn []string // calls before Init
	polled   int
}

func newFakeScreen(w, h, queue int) *fakeScreen {
	s := tcell.NewSimulationScreen("UTF-8")
	s.Init()
	return &fakeScreen{Screen: s, w: w, h: h, cells: map[[2]int]rune{}, evch: make(chan tcell.Event, queue), quit: make(chan struct{})}
}

func (s *fakeScreen) use(what string) {
	if s.inits == 0 {
		s.beforeIn = append(s.beforeIn, what)
	}
}
func (s *fakeScreen) Init() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.initErr != nil {
		return s.initErr
	}
	s.inits++
	return nil
}
func (s *fakeScreen) Fini() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.use("Fini")
	s.finis++
	if s.finis == 1 {
		close(s.quit)
	}
}
func (s *fakeScreen) Clear() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.use("Clear")
	s.cells = map[[2]int]rune{}
}
func (s *fakeScreen) Fill(r rune, _ tcell.Style) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.cells = map[[2]int]rune{}
	if r != ' ' {
		for y := 0; y < s.h; y++ {
			for x := 0; x < s.w; x++ {
				s.cells[[2]int{x, y}] = r
			}
		}
	}
}
func (s *fakeScreen) SetContent(x, y int, r rune, _ []rune, _ tcell.Style) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.use("SetContent")
	if x < 0 || y < 0 || x >= s.w || y >= s.h {
		return
	}
	s.cells[[2]int{x, y}] = r
}
func (s *fakeScreen) SetCell(x, y int, st tcell.Style, ch ...rune) {
	if len(ch) > 0 {
		s.SetContent(x, y, ch[0], nil, st)
	}
}
func (s *fakeScreen) Show() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.use("Show")
	if s.finis > 0 {
		return
	}
	s.shown = map[[2]int]rune{}
	for k, v := range s.cells {
		s.shown[k] = v
	}
	s.shownW, s.shownH = s.w, s.h
	s.shows++
}
func (s *fakeScreen) Sync() { s.Show() }
func (s *fakeScreen) ShowCursor(x, y int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.cx, s.cy, s.cvis = x, y, true
}
func (s *fakeScreen) HideCursor() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.cvis = false
}
func (s *fakeScreen) Size() (int, int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.w, s.h
}
func (s *fakeScreen) PollEvent() tcell.Event {
	select {
	case <-s.quit:
		return nil
	default:
	}
	select {
	case <-s.quit:
		return nil
	case e := <-s.evch:
		s.mu.Lock()
		s.polled++
		s.mu.Unlock()
		return e
	}
}
func (s *fakeScreen) PostEvent(e tcell.Event) error {
	select {
	case s.evch <- e:
		return nil
	default:
		s.mu.Lock()
		s.full++
		s.mu.Unlock()
		return tcell.ErrEventQFull
	}
}
func (s *fakeScreen) PostEventWait(e tcell.Event) {
	select {
	case s.evch <- e:
	case <-s.quit:
	}
}

func (s *fakeScreen) resize(w, h int) {
	s.mu.Lock()
	s.w, s.h = w, h
	for k := range s.cells {
		if k[0] >= w || k[1] >= h {
			delete(s.cells, k)
		}
	}
	s.mu.Unlock()
	s.PostEventWait(tcell.NewEventResize(w, h))
}

// fakeView marks its box with its own rune.
type fakeView struct {
	mark    rune
	initial bool
	busy    *atomic.Int32 // calls into any view at the moment
	ended   *atomic.Bool
	bad     *atomic.Pointer[string]
	slow    bool
	version atomic.Int64 // drawn into the last column's place

	mu      sync.Mutex
	box     term.PositionBox
	sized   bool
	flushes int
}

func (v *fakeView) enter(what string) func() {
	if v.busy.Add(1) != 1 {
		m := what + " of view " + string(v.mark) + " while another view call was running"
		v.bad.CompareAndSwap(nil, &m)
	}
	if v.ended.Load() {
		m := what + " of view " + string(v.mark) + " after Run had returned"
		v.bad.CompareAndSwap(nil, &m)
	}
	if v.slow {
		runtime.Gosched()
	}
	return func() { v.busy.Add(-1) }
}

func (v *fakeView) SetBox(b term.PositionBox) {
	defer v.enter("SetBox")()
	v.mu.Lock()
	defer v.mu.Unlock()
	v.box, v.sized = b, true
}

func (v *fakeView) FlushTo(s tcell.Screen) {
	defer v.enter("FlushTo")()
	v.mu.Lock()
	defer v.mu.Unlock()
	v.flushes++
	if !v.sized {
		if !v.initial {
			m := "view " + string(v.mark) + " was drawn without having a box"
			v.bad.CompareAndSwap(nil, &m)
		}
		return
	}
	for y := 0; y < v.box.Rows; y++ {
		for x := 0; x < v.box.Cols; x++ {
			// leave holes, which ones depending on the view and the size, so
			// that leftovers of other views and sizes are seen
			if marked(v.mark, x, y, v.box.Cols, v.box.Rows) {
				s.SetContent(v.box.StartCol+x, v.box.StartRow+y, v.mark, nil, tcell.StyleDefault)
			}
		}
	}
	if v.box.Cols > 0 && v.box.Rows > 0 {
		s.SetContent(v.box.StartCol, v.box.StartRow, v.corner(), nil, tcell.StyleDefault)
	}
}

func marked(mark rune, x, y, cols, rows int) bool { return (x+y+cols+2*rows+int(mark))%3 == 0 }

func (v *fakeView) corner() rune { return rune(0x4e00 + v.version.Load()) }

// screenHas tells what's wrong with the screen if it should show just v.
func (s *fakeScreen) screenHas(v *fakeView) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.shownW != s.w || s.shownH != s.h {
		return fmt.Sprintf("last shown at size %dx%d, is %dx%d", s.shownW, s.shownH, s.w, s.h)
	}
	if s.shown == nil {
		return "nothing was ever shown"
	}
	for y := 0; y < s.h; y++ {
		for x := 0; x < s.w; x++ {
			var want rune
			switch {
			case v == nil:
			case x == 0 && y == 0:
				want = v.corner()
			case marked(v.mark, x, y, s.w, s.h):
				want = v.mark
			}
			got := s.shown[[2]int{x, y}]
			if got == ' ' {
				got = 0
			}
			if got != want {
				return fmt.Sprintf("cell (%d,%d) shows %q instead of %q", x, y, got, want)
			}
		}
	}
	return ""
}

func c23(c *h.Ctx) {
	c.Rule("whole runner lives on a recording screen with a short event queue (race detector on): several goroutines request views and repaints, press keys and resize the terminal at random times, also before Run has a screen, while the key handler is blocked, and after Run is over; recorded: what is shown once all is quiet (the last requested view at the current size, nothing of other views), the keys handled and their order, which calls overlap, that requests return, that Run ends the screen once and returns nil, or the error of a screen that can't be made or initialized. Non-trivial: views were replaced and keys handled in the same life")
	c.Cases("lives", c.N(1500, 30000), func(i int, r *rand.Rand) {
		w, hh := 4+r.Intn(30), 3+r.Intn(12)
		scr := newFakeScreen(w, hh, []int{1, 2, 10, 10, 10}[r.Intn(5)])
		var busy atomic.Int32
		var ended atomic.Bool
		var bad atomic.Pointer[string]
		nviews := 0
		var nmu sync.Mutex
		slow := r.Intn(3) == 0
		mk := func(initial bool) *fakeView {
			nmu.Lock()
			defer nmu.Unlock()
			nviews++
			return &fakeView{mark: rune('A' + nviews%40), initial: initial, busy: &busy, ended: &ended, bad: &bad, slow: slow}
		}
		var hist []string
		var keysMu sync.Mutex
		var keysGot []rune
		gate := make(chan struct{})
		gated := r.Intn(4) == 0
		if !gated {
			close(gate)
		}
		var hold atomic.Pointer[chan struct{}]
		var inHandler atomic.Int32
		handled := make(chan struct{}, 10000)
		rn := &term.Runner{
			KeyHandler: func(e *tcell.EventKey) {
				if inHandler.Add(1) != 1 {
					m := "two keys handled at the same time"
					bad.CompareAndSwap(nil, &m)
				}
				defer inHandler.Add(-1)
				handled <- struct{}{}
				<-gate
				if g := hold.Load(); g != nil {
					<-*g
				}
				keysMu.Lock()
				keysGot = append(keysGot, e.Rune())
				keysMu.Unlock()
			},
			MakeScreen: func() (tcell.Screen, error) { return scr, nil },
		}
		var starts atomic.Int32
		started := make(chan struct{})
		rn.OnStart = func() {
			scr.mu.Lock()
			if scr.inits != 1 {
				m := "OnStart was called before the screen was initialized"
				bad.CompareAndSwap(nil, &m)
			}
			if scr.polled > 0 {
				m := "OnStart was called after the first event"
				bad.CompareAndSwap(nil, &m)
			}
			scr.mu.Unlock()
			if starts.Add(1) == 1 {
				close(started)
			}
		}
		var last *fakeView // the view that has to end up on the screen
		early := r.Intn(3) == 0
		if early {
			hist = append(hist, "view requested before Run")
			if !c.Call("RequestUpdate", func() {
				rn.HideCursor()
				rn.ShowCursor(1, 1)
				rn.RequestRepaint()
				if r.Intn(2) == 0 {
					rn.RequestUpdate(mk(false))
				}
				last = mk(false)
				rn.RequestUpdate(last)
			}) {
				return
			}
		}
		var initial term.View
		var initV *fakeView
		if r.Intn(2) == 0 {
			initV = mk(true)
			initial = initV
			if last == nil {
				last = initV
			}
			hist = append(hist, "initial view")
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		c.Desc("%s", strings.Join(hist, "; "))
		done := make(chan error, 1)
		panicked := make(chan string, 1)
		go func() {
			defer func() {
				if p := recover(); p != nil {
					b := make([]byte, 1<<14)
					panicked <- fmt.Sprintf("%v\n%s", p, b[:runtime.Stack(b, false)])
				}
			}()
			e := rn.Run(ctx, initial)
			ended.Store(true)
			done <- e
		}()
		fail := func(sig, f string, a ...any) {
			select {
			case <-gate:
			default:
				close(gate)
			}
			cancel()
			c.Violation(sig, "%s\nlife: %s", fmt.Sprintf(f, a...), strings.Join(hist, "; "))
		}
		select {
		case <-started:
		case p := <-panicked:
			fail("panic", "Run panicked: %s", p)
			return
		case <-time.After(60 * time.Second):
			fail("never-started", "OnStart wasn't called")
			return
		}
		if initV != nil && last == initV {
			// tell it the size, as terminals do at the start
			scr.PostEventWait(tcell.NewEventResize(w, hh))
		}
		// several goroutines act
		var wg sync.WaitGroup
		var lastMu sync.Mutex
		var keysSent []rune
		nkeys := 0
		blocked := make(chan string, 8)
		timed := func(what string, f func()) {
			t := time.AfterFunc(60*time.Second, func() {
				select {
				case blocked <- what:
				default:
				}
			})
			f()
			t.Stop()
		}
		nact := 1 + r.Intn(3)
		total := 0
		for a := 0; a < nact; a++ {
			rr := rand.New(rand.NewSource(r.Int63()))
			n := 1 + rr.Intn(25)
			total += n
			hist = append(hist, fmt.Sprintf("actor %d: %d requests", a, n))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < n; k++ {
					switch rr.Intn(5) {
					case 0, 1:
						v := mk(false)
						// the order of concurrent requests is the order in which they're made
						lastMu.Lock()
						timed("RequestUpdate", func() { rn.RequestUpdate(v) })
						last = v
						lastMu.Unlock()
					case 2:
						timed("RequestRepaint", rn.RequestRepaint)
					case 3:
						timed("ShowCursor", func() { rn.ShowCursor(rr.Intn(5), rr.Intn(5)) })
					case 4:
						timed("HideCursor", rn.HideCursor)
					}
					if rr.Intn(3) == 0 {
						time.Sleep(time.Duration(rr.Intn(300)) * time.Microsecond)
					}
				}
			}()
		}
		resizes := r.Intn(2) == 0
		{
			rr := rand.New(rand.NewSource(r.Int63()))
			nkeys = rr.Intn(20)
			hist = append(hist, fmt.Sprintf("%d keys, resizes %v, handler blocked %v, queue of %d", nkeys, resizes, gated, cap(scr.evch)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < nkeys; k++ {
					ev := tcell.NewEventKey(tcell.KeyRune, rune('a'+k), 0)
					if gated {
						// nobody takes events for now: only what fits
						if scr.PostEvent(ev) == nil {
							keysSent = append(keysSent, rune('a'+k))
						}
					} else {
						scr.PostEventWait(ev)
						keysSent = append(keysSent, rune('a'+k))
						if resizes && rr.Intn(3) == 0 {
							scr.resize(4+rr.Intn(30), 3+rr.Intn(12))
						}
					}
					if rr.Intn(3) == 0 {
						time.Sleep(time.Duration(rr.Intn(300)) * time.Microsecond)
					}
				}
			}()
		}
		acted := make(chan struct{})
		go func() { wg.Wait(); close(acted) }()
		select {
		case <-acted:
		case what := <-blocked:
			fail("request-blocks", "%s didn't return (key handler blocked: %v)", what, gated)
			return
		}
		if gated {
			close(gate)
		}
		lastV := last
		if !waitFor(func() bool {
			keysMu.Lock()
			n := len(keysGot)
			keysMu.Unlock()
			return n >= len(keysSent) && (lastV == nil || scr.screenHas(lastV) == "")
		}) {
			fail("not-shown", "all requests are made, but the screen doesn't show the last one: %s (keys handled: %d of %d)", scr.screenHas(lastV), len(keysGot), len(keysSent))
			return
		}
		// a repaint shows what has changed in the view meanwhile
		if lastV != nil {
			for k := 0; k < 2; k++ {
				lastV.version.Add(1)
				rn.RequestRepaint()
				if !waitFor(func() bool { return scr.screenHas(lastV) == "" }) {
					fail("not-repainted", "a repaint was requested, but not done: %s", scr.screenHas(lastV))
					return
				}
			}
		}
		// also one that's requested while the queue is full of keys
		if lastV != nil && r.Intn(2) == 0 {
			g := make(chan struct{})
			hold.Store(&g)
			key := func() tcell.Event {
				return tcell.NewEventKey(tcell.KeyRune, rune('0'+len(keysSent)%10), 0)
			}
			scr.PostEventWait(key())
			keysSent = append(keysSent, rune('0'+len(keysSent)%10))
			for scr.PostEvent(key()) == nil {
				keysSent = append(keysSent, rune('0'+len(keysSent)%10))
			}
			lastV.version.Add(1)
			rn.RequestRepaint()
			hold.Store(nil)
			close(g)
			if !waitFor(func() bool {
				keysMu.Lock()
				n := len(keysGot)
				keysMu.Unlock()
				return n >= len(keysSent) && scr.screenHas(lastV) == ""
			}) {
				fail("not-repainted", "a repaint was requested when the queue was full of keys, but not done: %s (keys handled: %d of %d)", scr.screenHas(lastV), len(keysGot), len(keysSent))
				return
			}
			c.Count("repaints_behind_keys", 1)
		}
		rn.ShowCursor(2, 1)
		scr.mu.Lock()
		cx, cy, cvis := scr.cx, scr.cy, scr.cvis
		scr.mu.Unlock()
		if cx != 2 || cy != 1 || !cvis {
			fail("wrong-cursor", "ShowCursor(2, 1) put the cursor at %d, %d (%v)", cx, cy, cvis)
			return
		}
		rn.HideCursor()
		scr.mu.Lock()
		cvis = scr.cvis
		scr.mu.Unlock()
		if cvis {
			fail("wrong-cursor", "HideCursor left the cursor visible")
			return
		}
		keysMu.Lock()
		same := string(keysGot) == string(keysSent)
		keysMu.Unlock()
		if !same {
			fail("wrong-keys", "keys sent: %q, handled: %q", string(keysSent), string(keysGot))
			return
		}
		// the end, with a last burst of requests
		if r.Intn(2) == 0 {
			go rn.RequestUpdate(mk(false))
			go rn.RequestRepaint()
		}
		cancel()
		var err error
		select {
		case err = <-done:
		case p := <-panicked:
			fail("panic", "Run panicked: %s", p)
			return
		case <-time.After(60 * time.Second):
			fail("run-hangs", "Run didn't return after its context was cancelled")
			return
		}
		if err != nil {
			fail("wrong-error", "Run returned %v", err)
			return
		}
		if !c.Call("requests after the end", func() {
			rn.RequestRepaint()
			rn.RequestUpdate(mk(false))
			rn.HideCursor()
			rn.ShowCursor(0, 0)
		}) {
			return
		}
		time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		scr.mu.Lock()
		defer scr.mu.Unlock()
		if scr.finis != 1 || scr.inits != 1 || starts.Load() != 1 {
			fail("wrong-lifecycle", "screen initialized %d times, ended %d times, OnStart called %d times", scr.inits, scr.finis, starts.Load())
			return
		}
		if len(scr.beforeIn) > 0 {
			fail("wrong-lifecycle", "used before it was initialized: %v", scr.beforeIn)
			return
		}
		if m := bad.Load(); m != nil {
			fail("wrong-calls", "%s", *m)
			return
		}
		c.Count("views_requested", nviews)
		c.Count("keys_handled", len(keysSent))
		c.Count("screens_shown", scr.shows)
		c.Count("events_dropped_by_full_queue", scr.full)
		c.Eval(strings.Join(hist, ";"), nviews > 1 && len(keysSent) > 0)
		if c.WantSample() && nviews > 1 {
			c.Sample("%s: %d views, %d shows", strings.Join(hist, "; "), nviews, scr.shows)
		}
	})
	c.Cases("errors", c.N(40, 200), func(i int, r *rand.Rand) {
		boom := errors.New("boom")
		scr := newFakeScreen(10, 5, 10)
		rn := &term.Runner{KeyHandler: func(*tcell.EventKey) {}}
		if i%2 == 0 {
			rn.MakeScreen = func() (tcell.Screen, error) { return nil, boom }
		} else {
			scr.initErr = boom
			rn.MakeScreen = func() (tcell.Screen, error) { return scr, nil }
		}
		if r.Intn(2) == 0 {
			rn.RequestRepaint()
		}
		ctx, cancel := context.WithCancel(context.Background())
		if r.Intn(2) == 0 {
			cancel()
		}
		var err error
		c.Desc("screen that fails (case %d)", i%2)
		if !c.Call("Run", func() { err = rn.Run(ctx, nil) }) {
			cancel()
			return
		}
		cancel()
		if !errors.Is(err, boom) {
			c.Violation("error-lost", "Run with a screen that fails with %v returned %v", boom, err)
			return
		}
		c.Eval(fmt.Sprintf("err%d", i), true)
	})
}

func init() { h.Register(h.Check{ID: "C23", Fn: c23, Race: true}) }
