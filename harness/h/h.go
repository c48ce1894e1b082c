// Package h is the monitoring framework shared by every check: it runs
// deterministic case lists against the real code, watches each case for
// panics, hangs and unbounded memory, records what the monitors observed, and
// turns oracle mismatches into violations.
package h

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Violation is one observed refutation of a property.
type Violation struct {
	Sig    string `json:"sig"`    // stable identity of what failed (for known findings)
	Detail string `json:"detail"` // human-readable witness
	Case   int    `json:"case"`   // case index (VERIF_CASE replays it)
	Desc   string `json:"desc"`   // description of the case that was running
	Group  string `json:"group"`
}

// Result is what one worker reports.
type Result struct {
	Evaluations int              `json:"evaluations"`
	Hashes      []uint64         `json:"hashes"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []string         `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Rule        string           `json:"rule"`
	Inconcl     []string         `json:"inconclusive"`
	Assume      []string         `json:"assumptions"`
	Exhaustive  bool             `json:"exhaustive"`
	Done        bool             `json:"done"`
}

// Ctx is handed to each check.
type Ctx struct {
	Prop   string
	Seed   int64
	Tier   string
	Shard  int
	Shards int
	Only   int // only this case (or -1)
	Out    string
	Bin    string // directory holding auxiliary binaries and scratch

	mu     sync.Mutex
	res    Result
	seen   map[uint64]struct{}
	sigs   map[string]int
	known  map[string]string
	start  time.Time
	limit  time.Duration
	group  string
	curIdx int
	cur    atomic.Pointer[caseInfo]
	caseN  int64
}

type caseInfo struct {
	n     int64
	desc  string
	cpu   time.Duration
	start time.Time
	gid   string
	idle  int
	last  string
}

// Check is a registered property check.
type Check struct {
	ID   string
	Fn   func(*Ctx)
	Race bool
	// Shards caps the number of worker processes (0: as many as cores).
	Shards int
	// PTY: run the worker under a pseudo terminal.
	PTY bool
}

// Checks is the registry.
var Checks = map[string]Check{}

// Register adds a check.
func Register(c Check) { Checks[c.ID] = c }

// Thorough tells if the thorough tier was asked for.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks a case count by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Group names the case family that follows (part of case identity).
func (c *Ctx) Group(name string) { c.group = name }

// Rule describes how cases are made and what counts as non-trivial.
func (c *Ctx) Rule(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.res.Rule != "" {
		c.res.Rule += " | "
	}
	c.res.Rule += s
}

// Assume records an assumption.
func (c *Ctx) Assume(s string) {
	c.mu.Lock()
	c.res.Assume = append(c.res.Assume, s)
	c.mu.Unlock()
}

// Exhaustive marks the run as a complete enumeration of a finite space.
func (c *Ctx) Exhaustive() { c.res.Exhaustive = true }

// Rand derives the PRNG of one case from the seed, property, group and index.
func (c *Ctx) Rand(i int) *rand.Rand {
	f := fnv.New64a()
	fmt.Fprintf(f, "%d/%s/%s/%d", c.Seed, c.Prop, c.group, i)
	return rand.New(rand.NewSource(int64(f.Sum64())))
}

// Cases runs n cases of a group, split over the shards.
func (c *Ctx) Cases(group string, n int, fn func(i int, r *rand.Rand)) {
	c.Group(group)
	only := c.Only
	og := os.Getenv("VERIF_GROUP")
	if og != "" && og != group {
		return
	}
	for i := 0; i < n; i++ {
		if only >= 0 && i != only {
			continue
		}
		if only < 0 && i%c.Shards != c.Shard {
			continue
		}
		if c.tooMany() {
			return
		}
		c.mu.Lock()
		c.curIdx = i
		c.mu.Unlock()
		r := c.Rand(i)
		c.Guard(fmt.Sprintf("%s #%d", group, i), func() { fn(i, r) })
	}
}

// ListCases runs over an explicit list.
func (c *Ctx) ListCases(group string, n int, fn func(i int)) {
	c.Cases(group, n, func(i int, _ *rand.Rand) { fn(i) })
}

func (c *Ctx) tooMany() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.res.Violations) >= 12 {
		return true
	}
	// with a violation in hand, slow cases (such as waiting for something that
	// never comes) needn't all be run
	if time.Since(c.start) > 60*time.Second {
		for s := range c.sigs {
			if _, ok := c.known[s]; !ok {
				return true
			}
		}
	}
	return false
}

// Desc updates the description of the running case (kept for hang and crash reports).
func (c *Ctx) Desc(format string, a ...any) {
	ci := c.cur.Load()
	if ci == nil {
		return
	}
	s := format
	if len(a) > 0 {
		s = fmt.Sprintf(format, a...)
	}
	n := *ci
	n.desc = s
	n.n = atomic.AddInt64(&c.caseN, 1)
	n.cpu = cpuTime()
	n.start = time.Now()
	n.idle = 0
	c.cur.Store(&n)
}

// SUTPrefix is the import path of the code under test.
const SUTPrefix = "sigs.k8s.io/instrumentation-tools"

// Guard runs fn as the current case: a panic inside it that passed through the
// code under test is a violation; one that did not is a harness error.
func (c *Ctx) Guard(desc string, fn func()) {
	prev := c.cur.Load()
	c.cur.Store(&caseInfo{n: atomic.AddInt64(&c.caseN, 1), desc: desc, cpu: cpuTime(), start: time.Now(), gid: goid()})
	defer c.cur.Store(prev)
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if p == errStop {
				return
			}
			if f := SUTFrame(panicPart(st)); f != "" {
				c.Violation("panic:"+f, "panic: %v\n%s", p, trim(st, 4000))
				return
			}
			panic(fmt.Sprintf("harness panic: %v\n%s", p, st))
		}
	}()
	fn()
}

var errStop = fmt.Errorf("stop case")

// panicPart cuts the goroutine trace to the frames below the panic call.
func panicPart(st string) string {
	if i := strings.Index(st, "panic("); i >= 0 {
		return st[i:]
	}
	return st
}

// SUTFrame returns the innermost code-under-test function of a stack trace, or
// "" if a harness frame comes before any.
func SUTFrame(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "created by") {
			break
		}
		if strings.HasPrefix(l, SUTPrefix) {
			f := strings.TrimPrefix(strings.TrimPrefix(l, SUTPrefix), "/")
			if i := strings.LastIndex(f, "("); i > 0 {
				f = f[:i]
			}
			return f
		}
		if strings.HasPrefix(l, "verif/harness") {
			// a callback of ours invoked by the SUT failed, or our own code
			return ""
		}
	}
	return ""
}

// Call runs fn (a call into the code under test) and turns a panic into a
// violation; it reports whether fn returned normally.
func (c *Ctx) Call(what string, fn func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			if p == errStop {
				panic(p)
			}
			st := string(debug.Stack())
			f := SUTFrame(panicPart(st))
			if f == "" {
				panic(fmt.Sprintf("harness panic: %v\n%s", p, st))
			}
			c.Violation("panic:"+f, "%s: panic: %v\n%s", what, p, trim(st, 3000))
			ok = false
		}
	}()
	fn()
	return true
}

// Violation records a refutation.
func (c *Ctx) Violation(sig, format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.sigs[sig]++
	c.bump("oracle_mismatches", 1)
	if c.sigs[sig] > 2 || len(c.res.Violations) >= 12 {
		return
	}
	d := ""
	if ci := c.cur.Load(); ci != nil {
		d = ci.desc
	}
	c.res.Violations = append(c.res.Violations, Violation{Sig: sig, Detail: trim(fmt.Sprintf(format, a...), 6000), Case: c.curIdx, Desc: trim(d, 4000), Group: c.group})
}

// Inconclusive records that part of the run could not be judged.
func (c *Ctx) Inconclusive(format string, a ...any) {
	c.mu.Lock()
	c.res.Inconcl = append(c.res.Inconcl, fmt.Sprintf(format, a...))
	c.mu.Unlock()
}

// Eval counts one evaluated case; key identifies it, nontrivial says if it
// counts as such by the rule.
func (c *Ctx) Eval(key string, nontrivial bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Evaluations++
	if nontrivial {
		f := fnv.New64a()
		f.Write([]byte(key))
		c.seen[f.Sum64()] = struct{}{}
	}
}

// Count adds to an observation counter.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.bump(name, int64(n))
	c.mu.Unlock()
}

func (c *Ctx) bump(name string, n int64) { c.res.Counters[name] += n }

// Sample keeps a few written-out cases.
func (c *Ctx) Sample(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.res.Samples) < 4 {
		c.res.Samples = append(c.res.Samples, trim(fmt.Sprintf(format, a...), 900))
	}
}

// WantSample says whether another sample is still kept.
func (c *Ctx) WantSample() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.res.Samples) < 4
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...[cut]"
	}
	return s
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func goid() string {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	s := strings.TrimPrefix(string(b[:n]), "goroutine ")
	if i := strings.IndexByte(s, ' '); i > 0 {
		return s[:i]
	}
	return ""
}

// SUTFrameAny returns the innermost code-under-test function anywhere in the stack.
func SUTFrameAny(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "created by") {
			break
		}
		if strings.HasPrefix(l, SUTPrefix) {
			return SUTFrame(l)
		}
	}
	return ""
}

// limits of one case (one step between Guard/Desc calls)
const (
	cpuLimit  = 60 * time.Second // CPU seconds of this process: independent of machine load
	memLimit  = 3 << 30
	idleTicks = 200 // x100ms in which the case's goroutine stayed blocked at the same place
)

// monitor watches the running case: a case that burns cpuLimit of CPU, grows
// the heap beyond memLimit or stays blocked at one place inside the code under
// test is reported as not terminating.
func (c *Ctx) monitor() {
	var lastN int64 = -1
	idle := 0
	lastStack := ""
	for {
		time.Sleep(100 * time.Millisecond)
		if time.Since(c.start) > c.limit {
			c.abortInconclusive("the run took too long, what remained was left out")
		}
		ci := c.cur.Load()
		if ci == nil {
			continue
		}
		if ci.n != lastN {
			lastN, idle, lastStack = ci.n, 0, ""
		}
		var ms runtime.MemStats
		if cpuTime()-ci.cpu > 500*time.Millisecond {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > memLimit {
				c.abort("unbounded-memory", ci, fmt.Sprintf("heap grew to %d MiB within one case", ms.HeapAlloc>>20))
			}
		}
		if d := cpuTime() - ci.cpu; d > cpuLimit {
			c.abort("no-termination", ci, fmt.Sprintf("one case consumed %v of CPU without finishing", d.Round(time.Second)))
		}
		if time.Since(ci.start) > 5*time.Second {
			st := c.stackOf(ci.gid)
			hdr, body, _ := strings.Cut(st, "\n")
			blocked := false
			for _, k := range []string{"semacquire", "sync.Mutex.Lock", "sync.RWMutex", "sync.Cond.Wait", "chan receive", "chan send", "select", "sync.WaitGroup.Wait"} {
				if strings.Contains(hdr, k) {
					blocked = true
				}
			}
			if blocked && body == lastStack {
				idle++
			} else {
				idle = 0
			}
			lastStack = body
			if idle > idleTicks {
				f := SUTFrameAny(body)
				if f == "" {
					c.abortInconclusive("case blocked outside the code under test: " + ci.desc + "\n" + trim(allStacks(), 8000))
				}
				c.abort("deadlock", ci, "the calling goroutine stays blocked in "+f+":\n"+trim(st, 3000))
			}
		}
	}
}

func allStacks() string {
	b := make([]byte, 1<<20)
	n := runtime.Stack(b, true)
	return string(b[:n])
}

func (c *Ctx) stackOf(gid string) string {
	for _, g := range strings.Split(allStacks(), "\n\n") {
		if strings.HasPrefix(g, "goroutine "+gid+" ") {
			return g
		}
	}
	return ""
}

func (c *Ctx) abort(kind string, ci *caseInfo, detail string) {
	st := c.stackOf(ci.gid)
	_, body, _ := strings.Cut(st, "\n")
	f := SUTFrameAny(body)
	if f == "" {
		c.abortInconclusive(kind + " outside the code under test: " + ci.desc + "\n" + trim(st, 3000))
	}
	c.Violation(kind+":"+f, "%s\ncase: %s\nstack:\n%s", detail, trim(ci.desc, 2000), trim(st, 3000))
	c.Finish()
	os.Exit(0)
}

func (c *Ctx) abortInconclusive(msg string) {
	c.Inconclusive("%s", msg)
	c.Finish()
	os.Exit(0)
}

// Finish writes the result file.
func (c *Ctx) Finish() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Done = true
	c.res.Hashes = c.res.Hashes[:0]
	for k := range c.seen {
		c.res.Hashes = append(c.res.Hashes, k)
	}
	b, err := json.Marshal(&c.res)
	if err == nil {
		err = os.WriteFile(c.Out, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness: cannot write result:", err)
		os.Exit(3)
	}
}

// RunWorker executes one shard.
func RunWorker(id string, shard, shards int, out string) {
	ck, ok := Checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(3)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	only := -1
	if s := os.Getenv("VERIF_CASE"); s != "" {
		only, _ = strconv.Atoi(s)
	}
	c := &Ctx{Prop: id, Seed: seed, Tier: tier, Shard: shard, Shards: shards, Only: only, Out: out, Bin: os.Getenv("VERIF_SCRATCH"),
		seen: map[uint64]struct{}{}, sigs: map[string]int{}}
	c.res.Counters = map[string]int64{}
	c.known = loadKnown(os.Getenv("VERIF_KNOWN"), id)
	c.start = time.Now()
	c.limit = timeLimit(tier) - 20*time.Second
	go c.monitor()
	ck.Fn(c)
	c.Finish()
}

// Stop abandons the current case.
func Stop() { panic(errStop) }
