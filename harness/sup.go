package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const (
	exitHang         = 97
	exitInconclusive = 98
	pkgPath          = "github.com/leonelquinteros/gotext"
)

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "fresh" {
		freshMain(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "claims" {
		claimsMain(os.Args[2:])
		return
	}
	id := flag.String("check", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	worker := flag.Bool("worker", false, "internal")
	dir := flag.String("dir", "", "scratch dir")
	verif := flag.String("verif", "/verif", "where evidence goes")
	group := flag.String("group", "", "replay: group")
	only := flag.Int64("only", -1, "replay: index")
	replay := flag.String("replay", "", "replay file")
	flag.Parse()
	ch := checks[*id]
	if ch == nil {
		fmt.Fprintln(os.Stderr, "unknown check", *id)
		os.Exit(2)
	}
	if *replay != "" {
		var r struct {
			Tier  string
			Seed  int64
			Group string
			Index int64
		}
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*tier, *seed, *group, *only = r.Tier, r.Seed, r.Group, r.Index
	}
	if *worker {
		os.Exit(workerMain(ch, *tier, *seed, *dir, *verif, *group, *only))
	}
	os.Exit(supervise(ch, *tier, *seed, *dir, *verif, *group, *only))
}

// ---------------------------------------------------------------- worker

func workerMain(ch *Check, tier string, seed int64, dir, verif, group string, only int64) int {
	c := newC(ch.ID, tier, seed)
	c.OnlyGrp, c.Only = group, only
	c.known = loadKnown(verif, ch.ID)
	c.Scratch = filepath.Join(dir, "scratch")
	os.MkdirAll(c.Scratch, 0o755)
	if j, err := os.Create(filepath.Join(dir, "journal")); err == nil {
		c.journal = j
	}
	if !ch.Race {
		// An allocation run wild fails instead of taking the machine down.
		lim := syscall.Rlimit{Cur: 16 << 30, Max: 16 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	done := make(chan struct{})
	go watchdog(c, filepath.Join(dir, "result.json"), filepath.Join(dir, "hang.txt"), done)
	ch.Run(c)
	close(done)
	c.writeResult(filepath.Join(dir, "result.json"), true)
	return 0
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func allStacks() string {
	buf := make([]byte, 4<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

var goHead = regexp.MustCompile(`^goroutine (\d+) \[([^\],]+)(, [^\]]*)?\]`)

type gstate struct {
	id, state, stack string
	lib              bool
}

func parseStacks(dump string) []gstate {
	var out []gstate
	for _, b := range strings.Split(dump, "\n\n") {
		m := goHead.FindStringSubmatch(strings.TrimSpace(b))
		if m == nil {
			continue
		}
		out = append(out, gstate{m[1], m[2], b, strings.Contains(b, pkgPath)})
	}
	return out
}

func blockedOnSync(s string) bool {
	return strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "semacquire") || strings.HasPrefix(s, "chan ") || strings.HasPrefix(s, "select")
}

// deadlocked decides from the goroutine states: somebody waits inside the library for a lock or a
// channel, and there is nobody left who could run and release it.
func deadlocked(gs []gstate) (string, bool) {
	var ids []string
	for _, g := range gs {
		if strings.Contains(g.stack, "main.watchdog(") || strings.Contains(g.stack, "os/signal") || g.state == "finalizer wait" || g.state == "GC worker (idle)" {
			continue
		}
		if g.lib && blockedOnSync(g.state) {
			ids = append(ids, g.id+"/"+g.state)
			continue
		}
		if blockedOnSync(g.state) {
			continue
		}
		return "", false // running, runnable, sleeping, in a system call: not stuck
	}
	sort.Strings(ids)
	return strings.Join(ids, " "), len(ids) > 0
}

// spinning returns the library goroutines that are running.
func spinning(gs []gstate) map[string]bool {
	out := map[string]bool{}
	for _, g := range gs {
		if g.lib && (g.state == "running" || g.state == "runnable") && !strings.Contains(g.stack, "main.watchdog(") {
			out[g.id] = true
		}
	}
	return out
}

// watchdog decides non-termination by structure (nobody can run) or by consumed processor time,
// never by the clock on the wall; the latter only ends a run as inconclusive.
func watchdog(c *C, result, hang string, done chan struct{}) {
	last, lastCPU, lastAt := c.progress.Load(), cpuSeconds(), time.Now()
	prevDead := ""
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	for {
		select {
		case <-done:
			return
		case <-tick.C:
		}
		if p := c.progress.Load(); p != last {
			last, lastCPU, lastAt, prevDead = p, cpuSeconds(), time.Now(), ""
			continue
		}
		if time.Since(lastAt) < 5*time.Second {
			continue
		}
		dump := allStacks()
		gs := parseStacks(dump)
		if ids, dead := deadlocked(gs); dead {
			if ids == prevDead {
				// one more look to be sure that nothing moved
				time.Sleep(2 * time.Second)
				ids2, dead2 := deadlocked(parseStacks(allStacks()))
				if dead2 && ids2 == ids && c.progress.Load() == last {
					os.WriteFile(hang, []byte("deadlock: all goroutines wait for locks or channels, some inside the library: "+ids+"\n\n"+dump), 0o644)
					c.writeResult(result, false)
					os.Exit(exitHang)
				}
			}
			prevDead = ids
			continue
		}
		prevDead = ""
		if cpuSeconds()-lastCPU > 60 {
			a := spinning(gs)
			for i := 0; i < 10 && len(a) > 0; i++ {
				time.Sleep(300 * time.Millisecond)
				b := spinning(parseStacks(allStacks()))
				for id := range a {
					if !b[id] {
						delete(a, id)
					}
				}
			}
			if len(a) > 0 && c.progress.Load() == last {
				os.WriteFile(hang, []byte("spin: a library call has used more than 60 s of processor time without finishing\n\n"+dump), 0o644)
				c.writeResult(result, false)
				os.Exit(exitHang)
			}
		}
		if time.Since(lastAt) > 400*time.Second {
			os.WriteFile(hang, []byte("no progress, reason unknown\n\n"+dump), 0o644)
			c.writeResult(result, false)
			os.Exit(exitInconclusive)
		}
	}
}

// ---------------------------------------------------------------- known findings

// loadKnown reads the findings of a property: "finding: property=<id> key=<key> <what>".
func loadKnown(verif, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return out
	}
	re := regexp.MustCompile(`^finding: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil && m[1] == id {
			out[m[2]] = m[3]
		}
	}
	return out
}

// ---------------------------------------------------------------- supervisor

type raceReport struct {
	key, text string
	lib       bool
}

var lineNo = regexp.MustCompile(`:\d+( \+0x[0-9a-f]+)?`)

func readRaces(prefix string) []raceReport {
	files, _ := filepath.Glob(prefix + "*")
	seen := map[string]bool{}
	var out []raceReport
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			// identify a race by the functions of both accesses
			var fns []string
			for _, l := range strings.Split(blk, "\n") {
				if strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "   ") {
					fns = append(fns, strings.TrimSpace(l))
				}
				if strings.Contains(l, "Goroutine ") && strings.Contains(l, "created at") {
					break
				}
			}
			key := lineNo.ReplaceAllString(strings.Join(fns, "|"), "")
			if seen[key] {
				continue
			}
			seen[key] = true
			out = append(out, raceReport{key, strings.TrimSpace(blk), strings.Contains(blk, pkgPath)})
		}
	}
	return out
}

func supervise(ch *Check, tier string, seed int64, dir, verif, group string, only int64) int {
	start := time.Now()
	self, _ := os.Executable()
	os.MkdirAll(dir, 0o755)
	resPath := filepath.Join(dir, "result.json")
	args := []string{"-worker", "-check", ch.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-dir", dir, "-verif", verif, "-group", group, "-only", fmt.Sprint(only)}
	cmd := exec.Command(self, args...)
	stderr := &tailBuffer{max: 1 << 20}
	cmd.Stderr = stderr
	cmd.Stdout = stderr
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(dir, "race.log"))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	err := cmd.Run()

	res := &Result{Counters: map[string]int64{}}
	if b, e := os.ReadFile(resPath); e == nil {
		json.Unmarshal(b, res)
	}
	viols := res.Violations
	inconclusive := ""
	var ee *exec.ExitError
	switch {
	case err == nil && res.Done:
	case errors.As(err, &ee):
		inflight := journalLines(filepath.Join(dir, "journal"))
		switch code := ee.ExitCode(); {
		case code == exitHang:
			b, _ := os.ReadFile(filepath.Join(dir, "hang.txt"))
			g, i := firstCase(inflight)
			viols = append(viols, Violation{Key: "hang", What: firstLine(string(b)), Group: g, Index: i, Detail: []string{"cases in flight: " + strings.Join(inflight, "; "), string(b)}})
		case code == 2 && strings.Contains(stderr.String(), "goroutine "):
			g, i := firstCase(inflight)
			viols = append(viols, Violation{Key: "crash", What: "the process died: " + crashLine(stderr.String()), Group: g, Index: i, Detail: []string{"cases in flight: " + strings.Join(inflight, "; "), crashText(stderr.String())}})
		default:
			b, _ := os.ReadFile(filepath.Join(dir, "hang.txt"))
			inconclusive = fmt.Sprintf("worker ended with %v: %s\n%s", err, firstLine(string(b)), stderr.String())
		}
	default:
		inconclusive = fmt.Sprintf("worker: %v, done=%v\n%s", err, res.Done, stderr.String())
	}
	nraces := 0
	if ch.Race {
		known := loadKnown(verif, ch.ID)
		for _, r := range readRaces(filepath.Join(dir, "race.log")) {
			nraces++
			if !r.lib {
				inconclusive = "data race inside the harness itself:\n" + r.text
				continue
			}
			if _, ok := known["race:"+r.key]; ok {
				continue
			}
			viols = append(viols, Violation{Key: "race:" + r.key, What: "data race: " + r.key, Index: -1, Detail: []string{r.text}})
		}
		res.Counters["race_reports"] = int64(nraces)
	}
	if only < 0 && len(viols) == 0 && inconclusive == "" {
		if res.Evals < ch.MinEvals {
			inconclusive = fmt.Sprintf("only %d evaluations, need %d", res.Evals, ch.MinEvals)
		}
		for _, n := range ch.Need {
			if res.Counters[n] == 0 {
				inconclusive = "never observed: " + n
			}
		}
	}

	// evidence
	if only < 0 {
		ev := map[string]interface{}{
			"property": ch.ID, "tier": tier, "seed": seed, "level": ch.Level,
			"coverage": map[string]interface{}{
				"evaluations": res.Evals, "distinct_nontrivial": res.Distinct, "rule": ch.Rule,
				"samples": res.Samples, "observed": res.Counters,
			},
			"assumptions": ch.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(viols),
		}
		if ch.Assume == nil {
			ev["assumptions"] = []string{}
		}
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verif, "evidence", ch.ID+".json"), append(b, '\n'), 0o644)
	}
	for _, k := range res.KnownSeen {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", ch.ID, k.What)
	}
	if len(viols) > 0 {
		for i, v := range viols {
			p := filepath.Join(verif, "evidence", "replays", fmt.Sprintf("%s-%d.json", ch.ID, i))
			os.MkdirAll(filepath.Dir(p), 0o755)
			b, _ := json.MarshalIndent(map[string]interface{}{
				"property": ch.ID, "tier": tier, "seed": seed, "group": v.Group, "index": v.Index,
				"key": v.Key, "what": v.What, "detail": v.Detail,
				"how": "bash /verif/check.sh " + ch.ID + " --replay <this file>",
			}, "", " ")
			os.WriteFile(p, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, p)
			fmt.Printf("  %s\n", strings.ReplaceAll(cut(v.What, 600), "\n", " "))
			if only >= 0 || i == 0 {
				for _, d := range v.Detail {
					fmt.Printf("    %s\n", strings.ReplaceAll(cut(d, 3000), "\n", "\n    "))
				}
			}
		}
		return 1
	}
	if inconclusive != "" {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", ch.ID, cut(inconclusive, 6000))
		return 2
	}
	fmt.Printf("ok property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs", ch.ID, tier, seed, res.Evals, res.Distinct, time.Since(start).Seconds())
	var ks []string
	for k := range res.Counters {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf(" %s=%d", k, res.Counters[k])
	}
	fmt.Println()
	return 0
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func journalLines(p string) []string {
	b, _ := os.ReadFile(p)
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if l = strings.Trim(l, " \x00"); l != "" {
			out = append(out, l)
		}
	}
	return out
}

func firstCase(lines []string) (string, int64) {
	if len(lines) == 0 {
		return "", -1
	}
	f := strings.Fields(lines[0])
	if len(f) != 2 {
		return "", -1
	}
	i, _ := strconv.ParseInt(f[1], 10, 64)
	return f[0], i
}

func crashText(s string) string {
	for _, m := range []string{"fatal error:", "panic:", "runtime: "} {
		if i := strings.Index(s, m); i >= 0 {
			return cut(s[i:], 7000)
		}
	}
	return cut(s, 7000)
}

func crashLine(s string) string { return firstLine(crashText(s)) }

type tailBuffer struct {
	mu  sync.Mutex
	b   bytes.Buffer
	max int
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b.Len() < t.max {
		t.b.Write(p)
	}
	return len(p), nil
}

func (t *tailBuffer) String() string { t.mu.Lock(); defer t.mu.Unlock(); return t.b.String() }

var _ = pprof.Lookup
