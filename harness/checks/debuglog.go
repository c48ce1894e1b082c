package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"verif/harness/h"
)

// local ports in network errors change from run to run
var noPorts = regexp.MustCompile(`127\.0\.0\.1:[0-9]+->`)

const logDirVar = "PQ_DEBUG_LOG_DIRECTORY"

// logSetup prepares a place for the debug logs; "" means no logging.
// dir must exist; mode says what was chosen.
func logSetup(r *rand.Rand, dir string) (env []string, logs string, mode string) {
	logs = filepath.Join(dir, "logs")
	switch r.Intn(5) {
	case 0:
		return nil, "", "no logs"
	case 1:
		os.Mkdir(logs, 0o755)
		mode = "logs into an empty directory"
	case 2:
		os.Mkdir(logs, 0o755)
		for _, f := range []string{"debug.log", "error.log"} {
			os.WriteFile(filepath.Join(logs, f), []byte("kept "+f+"\n"), 0o644)
		}
		mode = "logs appended to earlier ones"
	case 3:
		mode = "log directory missing"
	case 4:
		os.WriteFile(logs, []byte("not a directory"), 0o644)
		mode = "log directory is a file"
	}
	return []string{logDirVar + "=" + logs}, logs, mode
}

// logsOK compares the files before and after: only the logs may have grown,
// and only if there's a directory for them.
func logsOK(before, after map[string]string, mode string) (string, int) {
	on := strings.HasPrefix(mode, "logs ")
	n := 0
	a, b := map[string]string{}, map[string]string{}
	for k, v := range before {
		a[k] = v
	}
	for k, v := range after {
		if on && (k == "logs/debug.log" || k == "logs/error.log") {
			if !strings.HasPrefix(v, before[k]) {
				return "what was in " + k + " is gone", 0
			}
			n += len(v) - len(before[k])
			delete(a, k)
			continue
		}
		b[k] = v
	}
	if d := diffTree(a, b); d != "" {
		return d, n
	}
	if on && n == 0 {
		return "nothing is logged", n
	}
	return "", n
}

func c32(c *h.Ctx) {
	c.Rule("the same completions, computed by fresh processes without debug logging and with it (into an empty directory, after earlier logs, into a missing directory, with a file in the directory's place), and the real program listing metrics, succeeding or failing, in the same configurations: the answers, streams and exit status must be the same, earlier logs kept, only the two log files written, and something logged if logging is on. Non-trivial: logging is on and there are suggestions")
	ts := newTargetServer()
	defer ts.srv.Close()
	complete := func(dir string, env []string, qs []string) (out, errs string, err error) {
		b, _ := json.Marshal(qs)
		cmd := exec.Command(os.Args[0], "fresh-complete", "x")
		cmd.Dir = dir
		cmd.Env = append([]string{"HOME=" + dir, "PATH=/usr/bin:/bin"}, env...)
		cmd.Stdin = bytes.NewReader(b)
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		err = cmd.Run()
		return o.String(), e.String(), err
	}
	c.Cases("completions", c.N(400, 6000), func(i int, r *rand.Rand) {
		dir, err := os.MkdirTemp(c.Bin, "log")
		if err != nil {
			c.Inconclusive("%v", err)
			return
		}
		defer os.RemoveAll(dir)
		var qs []string
		cur := ""
		for k := 0; k < 12; k++ {
			cur = editStep(r, cur)
			if len(cur) > 60 {
				cur = cur[:60]
			}
			qs = append(qs, strings.ToValidUTF8(cur, "?"))
		}
		qs = append(qs, "", "sum(", "{le=~\"(\"", "\"open", "\x01", "unclosed{é=")
		env, _, mode := logSetup(r, dir)
		desc := fmt.Sprintf("%s, completing %q", mode, qs)
		c.Desc("%s", desc)
		o1, e1, err1 := complete(dir, nil, qs)
		if err1 != nil {
			c.Inconclusive("completing failed without logs: %v %s", err1, e1)
			return
		}
		before := tree(dir)
		o2, e2, err2 := complete(dir, env, qs)
		after := tree(dir)
		if err2 != nil || e2 != e1 || o2 != o1 {
			c.Violation("changed", "%s\nwithout: %s %q\nwith:    %s %q (%v)", desc, o1, e1, o2, e2, err2)
			return
		}
		d, n := logsOK(before, after, mode)
		if d != "" {
			c.Violation("files", "%s\n%s", desc, d)
			return
		}
		c.Count("bytes_logged", n)
		c.Count("completions_compared", len(qs))
		c.Eval(desc, n > 0)
	})
	if promqBin == "" {
		c.Inconclusive("no program to run")
		return
	}
	c.Cases("program", c.N(600, 8000), func(i int, r *rand.Rand) {
		dir, err := os.MkdirTemp(c.Bin, "log")
		if err != nil {
			c.Inconclusive("%v", err)
			return
		}
		defer os.RemoveAll(dir)
		_, order, _, _ := genTargets(r, ts, fmt.Sprintf("d%d", i), true)
		os.WriteFile(filepath.Join(dir, "kubeconfig"), nil, 0o600)
		args := []string{[]string{"-l", "-q=sum(", "-qm{nosuch=\"x\"}", "-onoformat", "-q\"text"}[r.Intn(5)]}
		for _, t := range order {
			args = append(args, "-t", t.url)
		}
		env, _, mode := logSetup(r, dir)
		desc := fmt.Sprintf("%s: promq %q", mode, args)
		c.Desc("%s", desc)
		reset := func() { // the same answers again
			for _, t := range order {
				t.mu.Lock()
				t.hits = 0
				t.mu.Unlock()
			}
		}
		o1, e1, s1, h1 := runProgram(c, dir, promqEnv(dir), args)
		before := tree(dir)
		reset()
		o2, e2, s2, h2 := runProgram(c, dir, promqEnv(dir, env...), args)
		after := tree(dir)
		if h1 || s1 < 0 {
			c.Inconclusive("%s\nthe run without logs didn't end properly", desc)
			return
		}
		e1, e2 = noPorts.ReplaceAllString(e1, "PORT"), noPorts.ReplaceAllString(e2, "PORT")
		if o1 != o2 || e1 != e2 || s1 != s2 || h2 {
			c.Violation("changed", "%s\nwithout: %d %q %q\nwith:    %d %q %q", desc, s1, o1, e1, s2, o2, e2)
			return
		}
		d, n := logsOK(before, after, mode)
		if d != "" {
			c.Violation("files", "%s\n%s", desc, d)
			return
		}
		c.Count("runs_compared", 1)
		c.Eval(desc, n > 0 && o1 != "")
		if c.WantSample() && n > 0 {
			c.Sample("%s", desc)
		}
	})
}

func init() { h.Register(h.Check{ID: "C32", Fn: c32}) }
