package checks

import (
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"

	"github.com/mattn/go-runewidth"
)

// xterm is a terminal emulator for what full-screen programs write.
type xterm struct {
	mu         sync.Mutex
	w, h       int
	cells      [][]xcell
	cx, cy     int
	fg         int // -1: default
	pending    []byte
	alt        bool // alternate screen
	cursorOn   bool
	unknown    []string
	outside    int // characters written outside the screen
	bytes      int
	altEntered int
	altLeft    int
}

type xcell struct {
	r  rune
	fg int
}

func newXterm(w, h int) *xterm {
	t := &xterm{fg: -1, cursorOn: true}
	t.size(w, h)
	return t
}

func (t *xterm) size(w, h int) {
	t.w, t.h = w, h
	old := t.cells
	t.cells = make([][]xcell, h)
	for y := range t.cells {
		t.cells[y] = make([]xcell, w)
		for x := range t.cells[y] {
			t.cells[y][x] = xcell{' ', -1}
			if y < len(old) && x < len(old[y]) {
				t.cells[y][x] = old[y][x]
			}
		}
	}
}

func (t *xterm) resize(w, h int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.size(w, h)
}

func (t *xterm) put(r rune) {
	if t.cx >= t.w { // no program here relies on wrapping
		t.outside++
		return
	}
	if t.cy < 0 || t.cy >= t.h || t.cx < 0 {
		t.outside++
		return
	}
	n := runewidth.RuneWidth(r)
	if n == 0 {
		return // combining
	}
	t.cells[t.cy][t.cx] = xcell{r, t.fg}
	if n == 2 && t.cx+1 < t.w {
		t.cells[t.cy][t.cx+1] = xcell{0, t.fg}
	}
	t.cx += n
}

// write takes output of the program.
func (t *xterm) write(b []byte) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.bytes += len(b)
	b = append(t.pending, b...)
	t.pending = nil
	for len(b) > 0 {
		switch c := b[0]; {
		case c == 0x1b:
			n := t.escape(b)
			if n == 0 { // incomplete
				t.pending = append([]byte(nil), b...)
				return
			}
			b = b[n:]
			continue
		case c == '\r':
			t.cx = 0
		case c == '\n':
			if t.cy < t.h-1 {
				t.cy++
			} else if !t.alt {
				t.cells = append(t.cells[1:], make([]xcell, t.w))
				for x := range t.cells[t.h-1] {
					t.cells[t.h-1][x] = xcell{' ', -1}
				}
			}
		case c == '\b':
			if t.cx > 0 {
				t.cx--
			}
		case c < 0x20 || c == 0x7f: // bell, shifts
		default:
			if !utf8.FullRune(b) {
				t.pending = append([]byte(nil), b...)
				return
			}
			r, n := utf8.DecodeRune(b)
			t.put(r)
			b = b[n:]
			continue
		}
		b = b[1:]
	}
}

func (t *xterm) clear(y, x0, x1 int) {
	if y < 0 || y >= t.h {
		return
	}
	for x := x0; x < x1 && x < t.w; x++ {
		t.cells[y][x] = xcell{' ', -1}
	}
}

// escape handles the sequence at the beginning of b and returns its length.
func (t *xterm) escape(b []byte) int {
	if len(b) < 2 {
		return 0
	}
	switch b[1] {
	case '[':
	case '(', ')':
		if len(b) < 3 {
			return 0
		}
		return 3
	case ']':
		for i := 2; i < len(b); i++ {
			if b[i] == 7 {
				return i + 1
			}
			if b[i] == '\\' && b[i-1] == 0x1b {
				return i + 1
			}
		}
		return 0
	default: // keypad modes and the like
		return 2
	}
	i := 2
	for i < len(b) && (b[i] < 0x40 || b[i] > 0x7e) {
		i++
	}
	if i == len(b) {
		return 0
	}
	args := string(b[2:i])
	private := strings.HasPrefix(args, "?")
	var ps []int
	for _, a := range strings.Split(strings.TrimPrefix(args, "?"), ";") {
		n, _ := strconv.Atoi(a)
		ps = append(ps, n)
	}
	arg := func(k, def int) int {
		if k < len(ps) && ps[k] > 0 {
			return ps[k]
		}
		return def
	}
	switch b[i] {
	case 'H', 'f':
		t.cy, t.cx = arg(0, 1)-1, arg(1, 1)-1
	case 'J':
		switch ps[0] {
		case 0:
			t.clear(t.cy, t.cx, t.w)
			for y := t.cy + 1; y < t.h; y++ {
				t.clear(y, 0, t.w)
			}
		case 1:
			t.clear(t.cy, 0, t.cx+1)
			for y := 0; y < t.cy; y++ {
				t.clear(y, 0, t.w)
			}
		case 2:
			for y := 0; y < t.h; y++ {
				t.clear(y, 0, t.w)
			}
		}
	case 'K':
		t.clear(t.cy, t.cx, t.w)
	case 'A':
		t.cy = max(0, t.cy-arg(0, 1))
	case 'B':
		t.cy = min(t.h-1, t.cy+arg(0, 1))
	case 'C':
		t.cx = min(t.w-1, t.cx+arg(0, 1))
	case 'D':
		t.cx = max(0, t.cx-arg(0, 1))
	case 'G':
		t.cx = arg(0, 1) - 1
	case 'm':
		if private {
			break
		}
		for k := 0; k < len(ps); k++ {
			switch p := ps[k]; {
			case p == 0 || p == 39:
				t.fg = -1
			case p >= 30 && p <= 37:
				t.fg = p - 30
			case p >= 90 && p <= 97:
				t.fg = p - 90 + 8
			case p == 38 || p == 48:
				if k+2 < len(ps) && ps[k+1] == 5 {
					if p == 38 {
						t.fg = ps[k+2]
					}
					k += 2
				}
			}
		}
	case 'h', 'l':
		on := b[i] == 'h'
		if private {
			for _, p := range ps {
				switch p {
				case 1049, 47, 1047:
					if on && !t.alt {
						t.altEntered++
					} else if !on && t.alt {
						t.altLeft++
					}
					t.alt = on
				case 25:
					t.cursorOn = on
				}
			}
		}
	default:
		if len(t.unknown) < 20 {
			t.unknown = append(t.unknown, fmt.Sprintf("%q", b[:i+1]))
		}
	}
	return i + 1
}

// text is what's on the screen.
func (t *xterm) text() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	var sb strings.Builder
	for _, row := range t.cells {
		var l strings.Builder
		for _, c := range row {
			if c.r != 0 {
				l.WriteRune(c.r)
			}
		}
		sb.WriteString(strings.TrimRight(l.String(), " ") + "\n")
	}
	return sb.String()
}

func (t *xterm) shows(s string) bool { return strings.Contains(t.text(), s) }

// ptyProc is a program on a pseudo terminal.
type ptyProc struct {
	cmd    *exec.Cmd
	master *os.File
	t      *xterm
	done   chan struct{}
	err    error
	drain  chan struct{}
}

func ioctl(fd uintptr, req, arg uintptr) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, arg); e != 0 {
		return e
	}
	return nil
}

func setWinsize(f *os.File, w, h int) error {
	ws := struct{ r, c, x, y uint16 }{uint16(h), uint16(w), 0, 0}
	return ioctl(f.Fd(), syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&ws)))
}

// startPTY runs a program on a terminal of its own.
func startPTY(w, h int, env []string, dir string, name string, args ...string) (*ptyProc, error) {
	fd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	master := os.NewFile(uintptr(fd), "/dev/ptmx")
	var n uint32
	var zero int32
	if err := ioctl(uintptr(fd), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero))); err != nil {
		master.Close()
		return nil, err
	}
	if err := ioctl(uintptr(fd), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); err != nil {
		master.Close()
		return nil, err
	}
	slave, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		master.Close()
		return nil, err
	}
	defer slave.Close()
	if err := setWinsize(master, w, h); err != nil {
		master.Close()
		return nil, err
	}
	p := &ptyProc{t: newXterm(w, h), master: master, done: make(chan struct{}), drain: make(chan struct{})}
	p.cmd = exec.Command(name, args...)
	p.cmd.Env, p.cmd.Dir = env, dir
	p.cmd.Stdin, p.cmd.Stdout, p.cmd.Stderr = slave, slave, slave
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	if err := p.cmd.Start(); err != nil {
		master.Close()
		return nil, err
	}
	go func() {
		defer close(p.drain)
		buf := make([]byte, 64<<10)
		for {
			n, err := master.Read(buf)
			p.t.write(buf[:n])
			if err != nil {
				return
			}
		}
	}()
	go func() {
		p.err = p.cmd.Wait()
		close(p.done)
	}()
	return p, nil
}

func (p *ptyProc) send(s string) { p.master.Write([]byte(s)) }

// typeText sends one character after another, as people do.
func (p *ptyProc) typeText(s string, gap time.Duration) {
	for _, r := range s {
		p.send(string(r))
		if gap > 0 {
			time.Sleep(gap)
		}
	}
}

func (p *ptyProc) resize(w, h int) {
	p.t.resize(w, h)
	setWinsize(p.master, w, h)
}

func (p *ptyProc) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *ptyProc) waitExit(d time.Duration) bool {
	select {
	case <-p.done:
	case <-time.After(d):
		return false
	}
	select {
	case <-p.drain:
	case <-time.After(5 * time.Second):
	}
	return true
}

// kill ends the program and frees the terminal.
func (p *ptyProc) kill() {
	if !p.exited() {
		syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
		<-p.done
	}
	p.master.Close()
}
