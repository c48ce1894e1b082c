package h

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Supervise runs a check in worker processes, judges what they observed and
// exits with the verdict: 0 held, 1 violated, 2 inconclusive or harness error.
func Supervise(id, verif string) int {
	start := time.Now()
	ck, ok := Checks[id]
	if !ok {
		fmt.Println("unknown check", id)
		return 2
	}
	scratch, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if ck.Shards > 0 && shards > ck.Shards {
		shards = ck.Shards
	}
	if os.Getenv("VERIF_CASE") != "" {
		shards = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	limit := timeLimit(tier)
	self, _ := os.Executable()
	type wr struct {
		res    *Result
		stderr string
		err    error
		killed atomic.Bool
	}
	outs := make([]wr, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(scratch, fmt.Sprintf("res.%d.json", i))
			errp := filepath.Join(scratch, fmt.Sprintf("stderr.%d", i))
			outp := filepath.Join(scratch, fmt.Sprintf("stdout.%d", i))
			ef, _ := os.Create(errp)
			of, _ := os.Create(outp)
			defer ef.Close()
			defer of.Close()
			args := []string{"worker", id, strconv.Itoa(i), strconv.Itoa(shards), out}
			cmd := exec.Command(self, args...)
			cmd.Stdout, cmd.Stderr = of, ef
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			if ck.PTY {
				// script(1) supplies the controlling terminal go-prompt insists on
				q := self
				for _, a := range args {
					q += " " + a
				}
				cmd = exec.Command("script", "-qec", "stty rows 40 cols 120; exec "+q+" 2>"+errp, "/dev/null")
				devnull, _ := os.Open(os.DevNull)
				cmd.Stdin = devnull
				cmd.Stdout, cmd.Stderr = of, of
				cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			}
			sc := filepath.Join(scratch, fmt.Sprintf("w%d", i))
			_ = os.Mkdir(sc, 0o755)
			cmd.Env = append(os.Environ(),
				"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(scratch, fmt.Sprintf("race.%d", i)),
				"VERIF_SCRATCH="+sc, "VERIF_KNOWN="+filepath.Join(verif, "KNOWN_FINDINGS"), "GOTRACEBACK=all", "NO_COLOR=")
			if err := cmd.Start(); err != nil {
				outs[i].err = err
				return
			}
			t := time.AfterFunc(limit, func() {
				outs[i].killed.Store(true)
				_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			})
			outs[i].err = cmd.Wait()
			t.Stop()
			b, _ := os.ReadFile(errp)
			if len(b) > 4<<20 {
				b = append(b[:2<<20], b[len(b)-(1<<20):]...)
			}
			outs[i].stderr = string(b)
			if rb, err := os.ReadFile(out); err == nil {
				r := &Result{}
				if json.Unmarshal(rb, r) == nil && r.Done {
					outs[i].res = r
				}
			}
		}(i)
	}
	wg.Wait()

	var all Result
	all.Counters = map[string]int64{}
	distinct := map[uint64]struct{}{}
	var harnessErrs []string
	for i := range outs {
		o := &outs[i]
		if o.res == nil {
			if v, ok := crashViolation(o.stderr); ok {
				all.Violations = append(all.Violations, v)
				continue
			}
			why := fmt.Sprintf("worker %d ended without a result (err=%v killed=%v)\n%s", i, o.err, o.killed.Load(), tailOf(o.stderr, 6000))
			harnessErrs = append(harnessErrs, why)
			continue
		}
		r := o.res
		all.Evaluations += r.Evaluations
		for _, hsh := range r.Hashes {
			distinct[hsh] = struct{}{}
		}
		for k, v := range r.Counters {
			if strings.HasPrefix(k, "max_") {
				if v > all.Counters[k] {
					all.Counters[k] = v
				}
				continue
			}
			all.Counters[k] += v
		}
		all.Violations = append(all.Violations, r.Violations...)
		all.Inconcl = append(all.Inconcl, r.Inconcl...)
		if all.Rule == "" {
			all.Rule = r.Rule
		}
		if len(all.Assume) == 0 {
			all.Assume = r.Assume
		}
		all.Exhaustive = all.Exhaustive || r.Exhaustive
		if len(all.Samples) < 6 {
			for _, s := range r.Samples {
				if len(all.Samples) < 6 {
					all.Samples = append(all.Samples, s)
				}
			}
		}
	}
	// race detector reports
	if ck.Race {
		races, foreign := raceReports(scratch)
		all.Counters["race_reports_in_scope"] = int64(len(races))
		all.Counters["race_reports_out_of_scope"] = int64(foreign)
		all.Violations = append(all.Violations, races...)
	}

	known := loadKnown(filepath.Join(verif, "KNOWN_FINDINGS"), id)
	var fresh []Violation
	knownHit := map[string]string{}
	for _, v := range all.Violations {
		if d, ok := known[v.Sig]; ok {
			knownHit[v.Sig] = d
			continue
		}
		fresh = append(fresh, v)
	}
	if all.Samples == nil {
		all.Samples = []string{}
	}
	cov := map[string]any{
		"evaluations": all.Evaluations, "distinct_nontrivial": len(distinct), "rule": all.Rule, "samples": all.Samples,
		"observed": all.Counters, "workers": shards,
	}
	if all.Exhaustive {
		cov["exhaustive"] = true
	}
	if len(all.Inconcl) > 0 {
		cov["inconclusive"] = all.Inconcl
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seedOf(), "level": "exploration",
		"coverage": cov, "assumptions": append([]string{}, all.Assume...), "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
	}
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644)

	var kk []string
	for s := range knownHit {
		kk = append(kk, s)
	}
	sort.Strings(kk)
	for _, s := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, knownHit[s])
	}
	fmt.Printf("%s: %d evaluations, %d distinct non-trivial, %d workers, %.1fs\n", id, all.Evaluations, len(distinct), shards, time.Since(start).Seconds())
	var ks []string
	for k := range all.Counters {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  observed %s=%d\n", k, all.Counters[k])
	}
	if len(fresh) > 0 {
		dir := filepath.Join(verif, "evidence", "replays")
		_ = os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, id+".json")
		b, _ := json.MarshalIndent(map[string]any{
			"property": id, "seed": seedOf(), "tier": tier, "violations": fresh,
			"replay": fmt.Sprintf("cd /verif && VERIF_SEED=%d VERIF_TIER=%s VERIF_GROUP='%s' VERIF_CASE=%d bash check.sh %s", seedOf(), tier, fresh[0].Group, fresh[0].Case, id),
		}, "", " ")
		_ = os.WriteFile(p, append(b, '\n'), 0o644)
		for i, v := range fresh {
			if i == 4 {
				fmt.Printf("... and %d more\n", len(fresh)-i)
				break
			}
			fmt.Printf("--- [%s] group=%s case=%d %s\n%s\n", v.Sig, v.Group, v.Case, v.Desc, v.Detail)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		return 1
	}
	if len(harnessErrs) > 0 {
		for _, e := range harnessErrs {
			fmt.Println("HARNESS-ERROR:", e)
		}
		return 2
	}
	if len(all.Inconcl) > 0 {
		for _, e := range all.Inconcl {
			fmt.Println("INCONCLUSIVE:", e)
		}
		return 2
	}
	if all.Evaluations == 0 || len(distinct) == 0 {
		fmt.Println("INCONCLUSIVE: nothing was observed")
		return 2
	}
	return 0
}

func seedOf() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func tailOf(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// crashViolation recognises a Go crash (panic or fatal error) whose failing
// goroutine runs code under test.
func crashViolation(stderr string) (Violation, bool) {
	idx := strings.Index(stderr, "\npanic: ")
	if strings.HasPrefix(stderr, "panic: ") {
		idx = 0
	}
	if f := strings.Index(stderr, "fatal error: "); f >= 0 && (idx < 0 || f < idx) {
		idx = f
	}
	if idx < 0 {
		return Violation{}, false
	}
	body := stderr[idx:]
	if strings.Contains(body[:min(len(body), 400)], "harness panic") {
		return Violation{}, false
	}
	i := strings.Index(body, "\ngoroutine ")
	if i < 0 {
		return Violation{}, false
	}
	g := body[i+1:]
	if j := strings.Index(g, "\n\n"); j > 0 {
		g = g[:j]
	}
	f := SUTFrame(g)
	if f == "" {
		return Violation{}, false
	}
	return Violation{Sig: "crash:" + f, Detail: trim(body, 5000), Desc: "process crash in the code under test"}, true
}

// raceReports parses the race detector's logs; a report counts if the
// innermost non-runtime frame of either access, or any frame below it before
// harness code, belongs to the code under test.
func raceReports(dir string) (vs []Violation, foreign int) {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	seen := map[string]bool{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "WARNING: DATA RACE") {
				continue
			}
			sig, in := raceSig(rep)
			if !in {
				foreign++
				continue
			}
			if seen[sig] {
				continue
			}
			seen[sig] = true
			vs = append(vs, Violation{Sig: "race:" + sig, Detail: trim(rep, 5000), Desc: "data race reported by the Go race detector"})
		}
	}
	return
}

// foreignTop lists packages whose own internals may race with themselves
// (third-party code): a race both of whose accesses are made there is theirs.
func raceSig(rep string) (string, bool) {
	sc := bufio.NewScanner(strings.NewReader(rep))
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	var stacks [][]string
	var cur []string
	on := false
	flush := func() {
		if on && len(cur) > 0 {
			stacks = append(stacks, cur)
		}
		cur = nil
	}
	for sc.Scan() {
		l := sc.Text()
		t := strings.TrimSpace(l)
		low := strings.ToLower(t)
		switch {
		case strings.Contains(low, " at 0x") && (strings.HasPrefix(low, "read") || strings.HasPrefix(low, "write") || strings.HasPrefix(low, "previous") || strings.HasPrefix(low, "atomic")):
			flush()
			on = true
		case strings.HasPrefix(t, "Goroutine ") || strings.HasPrefix(t, "Location"):
			flush()
			on = false
		case on && strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "      ") && t != "":
			cur = append(cur, t)
		}
	}
	flush()
	in := false
	var tops []string
	for _, st := range stacks {
		top := ""
		for _, fr := range st {
			if strings.HasPrefix(fr, SUTPrefix) {
				if top == "" {
					top = strings.TrimSuffix(strings.TrimPrefix(strings.TrimPrefix(fr, SUTPrefix), "/"), "()")
				}
				in = true
				break
			}
			if strings.HasPrefix(fr, "verif/harness") || strings.HasPrefix(fr, "main.") {
				if top == "" {
					top = "harness"
				}
				break
			}
			if strings.HasPrefix(fr, "github.com/c-bata/go-prompt") {
				top = "go-prompt"
				break
			}
		}
		if top == "" {
			top = "?"
		}
		tops = append(tops, top)
	}
	sort.Strings(tops)
	return strings.Join(tops, "<->"), in
}

// loadKnown reads "known: property=<id> sig=<sig> <text>" lines.
func loadKnown(path, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" ")
		if !strings.HasPrefix(rest, "sig=") {
			continue
		}
		rest = strings.TrimPrefix(rest, "sig=")
		sig, txt, _ := strings.Cut(rest, " ")
		out[sig] = txt
	}
	return out
}

// timeLimit is how long a worker may run.
func timeLimit(tier string) time.Duration {
	if tier == "thorough" {
		return 3 * time.Hour
	}
	return 780 * time.Second
}
