package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/andygello555/json-dom/jom"
)

// ---------------------------------------------------------------------------------------------------------------------
// The check framework: a supervisor process starts worker processes (shards); a worker runs its share of a fixed, seeded
// list of cases, writing the case it is about to run to a progress file first. A worker that dies (Go fatal error, stack
// overflow, a panic in a goroutine of the code under test, a data race report) is attributed to the case it was running.
// A worker that makes no progress is attributed the same way, after the case has been confirmed to hang, alone, in two
// more fresh processes.
// ---------------------------------------------------------------------------------------------------------------------

// Violation is one observed violation.
type Violation struct {
	Case   int    `json:"case"`
	Group  string `json:"group"`
	Sig    string `json:"sig"` // what failed, independent of anything that varies between runs (used by known findings)
	Detail string `json:"detail"`
	Input  string `json:"input"`
	Seed   int64  `json:"seed"`
	Tier   string `json:"tier"`
}

// Result is what a worker reports.
type Result struct {
	Done       bool           `json:"done"`
	Cases      int            `json:"cases"`
	Counters   map[string]int `json:"counters"`
	Distinct   []uint64       `json:"distinct"`
	Samples    []interface{}  `json:"samples"`
	Violations []Violation    `json:"violations"`
	Incon      map[string]int `json:"inconclusive"`
}

// T is given to each case.
type T struct {
	r       *Runner
	R       *rand.Rand
	Idx     int
	Group   string
	input   string
	sampled bool
}

type bailout struct{}

// Input records what the case is (shown in replays, used when the worker dies).
func (t *T) Input(format string, a ...interface{}) {
	t.input = fmt.Sprintf(format, a...)
	t.r.note(t)
}

// Fail records a violation and ends the case.
func (t *T) Fail(sig, format string, a ...interface{}) {
	t.r.mu.Lock()
	t.r.res.Violations = append(t.r.res.Violations, Violation{Case: t.Idx, Group: t.Group, Sig: sig, Detail: clip(fmt.Sprintf(format, a...), 6000), Input: clip(t.input, 6000), Seed: t.r.seed, Tier: t.r.tier})
	t.r.mu.Unlock()
	panic(bailout{})
}

// Count adds to a counter that ends up in the evidence.
func (t *T) Count(name string, n int) {
	t.r.mu.Lock()
	t.r.res.Counters[name] += n
	t.r.mu.Unlock()
}

// Nontrivial records a distinct non-trivial case by its key.
func (t *T) Nontrivial(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	t.r.mu.Lock()
	t.r.distinct[h.Sum64()] = true
	if !t.sampled && len(t.r.res.Samples) < 3 && t.Idx%7 == 3 {
		t.sampled = true
		t.r.res.Samples = append(t.r.res.Samples, map[string]interface{}{"group": t.Group, "case": t.Idx, "input": clip(t.input, 700), "observed": clip(key, 300)})
	}
	t.r.mu.Unlock()
}

func (t *T) Inconclusive(why string) {
	t.r.mu.Lock()
	t.r.res.Incon[why]++
	t.r.mu.Unlock()
}

// Runner runs the cases of one shard.
type Runner struct {
	mu       sync.Mutex
	seed     int64
	tier     string
	shard, n int
	only     int
	skip     map[int]bool
	next     int
	res      Result
	distinct map[uint64]bool
	prog     *os.File
	serial   int
	scratch  string
	check    string
}

func (r *Runner) Thorough() bool { return r.tier == "thorough" }

// N scales a number of cases by the tier.
func (r *Runner) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	if k := quickTimes[r.check]; k > 0 {
		return quick * k
	}
	return quick
}

// quickTimes multiplies the numbers of quick cases of checks with cheap cases.
var quickTimes = map[string]int{
	"C01": 2, "C02": 2, "C03": 4, "C04": 3, "C05": 4, "C06": 3, "C08": 10, "C09": 8, "C10": 8, "C11": 6, "C12": 8, "C13": 2,
	"C16": 2, "C18": 8, "C19": 15, "C20": 5, "C21": 2, "C22": 15, "C23": 12, "C24": 10, "C25": 2, "C26": 4, "C27": 3, "C28": 5, "C29": 2, "C30": 3, "C31": 3,
}

func (r *Runner) note(t *T) {
	if r.prog == nil {
		return
	}
	r.serial++
	b, _ := json.Marshal(map[string]interface{}{"case": t.Idx, "group": t.Group, "input": clip(t.input, 3500), "serial": r.serial})
	buf := make([]byte, 8192)
	copy(buf, b)
	if len(b) < len(buf) {
		for i := len(b); i < len(buf); i++ {
			buf[i] = ' '
		}
	}
	r.prog.WriteAt(buf, 0)
}

// Group runs count cases of one kind. Case numbers are global and fixed for a given tier.
func (r *Runner) Group(name string, count int, f func(t *T)) {
	base := r.next
	r.next += count
	for i := 0; i < count; i++ {
		idx := base + i
		if r.only >= 0 {
			if idx != r.only {
				continue
			}
		} else if idx%r.n != r.shard || r.skip[idx] {
			continue
		}
		if r.only < 0 && len(r.res.Violations) >= 3 {
			return
		}
		r.res.Cases++
		for attempt := 0; ; attempt++ {
			t := &T{r: r, R: rand.New(rand.NewSource(r.seed*1000003 + int64(idx)*7919 + 17)), Idx: idx, Group: name}
			t.input = ""
			r.note(t)
			before, start := len(r.res.Violations), time.Now()
			r.runCase(t, f)
			// A filter that has not ended after a second is stopped, which a starved machine can make happen to any. So a
			// case that failed and took that long has to fail again. The checks about time and schedules have rules of their own.
			if len(r.res.Violations) == before || time.Since(start) < 900*time.Millisecond || timed[r.check] {
				if len(r.res.Violations) == before && attempt > 0 {
					t.Inconclusive("failed when it took over 0.9 s, but not when repeated")
				}
				break
			}
			if attempt == 3 {
				break
			}
			r.res.Violations = r.res.Violations[:before]
			time.Sleep(time.Duration(attempt+1) * time.Second)
		}
	}
}

var timed = map[string]bool{"C14": true, "C15": true, "C17": true}

// List runs one case for each element of a list of literal cases.
func List[E any](r *Runner, name string, list []E, f func(t *T, e E)) {
	r.Group(name, len(list), func(t *T) { f(t, list[t.Idx-r.baseOf(name, t.Idx, len(list))]) })
}

func (r *Runner) baseOf(name string, idx, n int) int { return r.next - n }

func (r *Runner) runCase(t *T, f func(t *T)) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(bailout); ok {
				return
			}
			r.mu.Lock()
			r.res.Violations = append(r.res.Violations, Violation{Case: t.Idx, Group: t.Group, Sig: "panic", Detail: clip(fmt.Sprintf("unexpected panic: %v\n%s", p, debug.Stack()), 6000), Input: clip(t.input, 6000), Seed: r.seed, Tier: r.tier})
			r.mu.Unlock()
		}
	}()
	f(t)
}

// Check is one property's check.
type Check struct {
	ID     string
	Rule   string
	Shards int
	Assume []string
	Run    func(r *Runner)
	// Stall is how long a worker may go without starting a new case before the case counts as possibly hanging.
	Stall time.Duration
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + fmt.Sprintf("...(%d more bytes)", len(s)-n)
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

// ---------------------------------------------------------------------------------------------------------------------

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vh {check|worker} ID [flags]")
		os.Exit(2)
	}
	mode, id := os.Args[1], os.Args[2]
	if mode == "eval" {
		// for cases that end the process
		text, err := os.ReadFile(id)
		if err != nil {
			panic(err)
		}
		if out, err := jom.Eval(text, false); err != nil {
			fmt.Println("ERR:", clip(err.Error(), 200))
		} else {
			fmt.Println("OK:", clip(string(out), 200))
		}
		return
	}
	fs := flag.NewFlagSet("vh", flag.ExitOnError)
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	root := fs.String("root", "/verif", "")
	scratch := fs.String("scratch", "", "")
	shard := fs.Int("shard", 0, "")
	nsh := fs.Int("shards", 1, "")
	only := fs.Int("only", -1, "")
	skip := fs.String("skip", "", "")
	out := fs.String("out", "", "")
	replay := fs.String("replay", "", "")
	fs.Parse(os.Args[3:])
	c, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(2)
	}
	switch mode {
	case "worker":
		os.Exit(worker(c, *tier, *seed, *shard, *nsh, *only, *skip, *out, *scratch))
	case "check":
		os.Exit(supervise(c, *tier, *seed, *root, *scratch, *replay))
	}
	os.Exit(2)
}

func worker(c *Check, tier string, seed int64, shard, n, only int, skip, out, scratch string) int {
	if runtime.GOARCH == "amd64" && !raceEnabled {
		var lim syscall.Rlimit
		lim.Cur, lim.Max = 12<<30, 12<<30
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	r := &Runner{seed: seed, tier: tier, shard: shard, n: n, only: only, skip: map[int]bool{}, distinct: map[uint64]bool{}, scratch: scratch, check: c.ID}
	for _, s := range strings.Split(skip, ",") {
		if v, err := strconv.Atoi(s); err == nil {
			r.skip[v] = true
		}
	}
	r.res.Counters = map[string]int{}
	r.res.Incon = map[string]int{}
	f, err := os.Create(out + ".progress")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r.prog = f
	save := func() {
		r.mu.Lock()
		defer r.mu.Unlock()
		r.res.Distinct = nil
		for h := range r.distinct {
			r.res.Distinct = append(r.res.Distinct, h)
		}
		b, _ := json.Marshal(r.res)
		os.WriteFile(out+".tmp", b, 0o644)
		os.Rename(out+".tmp", out)
	}
	c.Run(r)
	r.res.Done = true
	save()
	return 0
}

type shardRun struct {
	res     *Result
	crash   *Violation
	harness string
}

type progress struct {
	Case   int    `json:"case"`
	Group  string `json:"group"`
	Input  string `json:"input"`
	Serial int    `json:"serial"`
}

func readProgress(path string) (p progress, ok bool) {
	b, err := os.ReadFile(path)
	if err != nil {
		return p, false
	}
	return p, json.Unmarshal(bytes.TrimSpace(b), &p) == nil
}

// startWorker runs one worker to its end. hung is true if it made no progress for the stall time and was killed.
func startWorker(c *Check, tier string, seed int64, shard, n, only int, skip []int, dir string, tag string) (res *Result, exit error, hung bool, stderrTail string, p progress, pok bool) {
	out := filepath.Join(dir, "w"+tag+".json")
	var sk []string
	for _, s := range skip {
		sk = append(sk, strconv.Itoa(s))
	}
	wscratch := filepath.Join(dir, "s"+tag)
	os.MkdirAll(wscratch, 0o755)
	self, _ := os.Executable()
	cmd := exec.Command(self, "worker", c.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-shard", fmt.Sprint(shard), "-shards", fmt.Sprint(n), "-only", fmt.Sprint(only), "-skip", strings.Join(sk, ","), "-out", out, "-scratch", wscratch)
	cmd.Dir = wscratch
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66 log_path="+out+".race", "GOTRACEBACK=single")
	errf, _ := os.Create(out + ".stderr")
	cmd.Stdout, cmd.Stderr = errf, errf
	runtime.LockOSThread()
	err := cmd.Start()
	if err != nil {
		return nil, err, false, err.Error(), p, false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last, lastAt := -1, time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case exit = <-done:
			break loop
		case <-tick.C:
			if pr, ok := readProgress(out + ".progress"); ok && pr.Serial != last {
				last, lastAt = pr.Serial, time.Now()
			}
			if time.Since(lastAt) > c.Stall {
				hung = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
				time.Sleep(500 * time.Millisecond)
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				exit = <-done
				break loop
			}
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // anything the worker left running
	errf.Close()
	eb, _ := os.ReadFile(out + ".stderr")
	if races, _ := filepath.Glob(out + ".race*"); len(races) > 0 {
		for _, rf := range races {
			b, _ := os.ReadFile(rf)
			eb = append(eb, b...)
		}
	}
	stderrTail = firstFatal(string(eb))
	p, pok = readProgress(out + ".progress")
	if b, e := os.ReadFile(out); e == nil {
		var r Result
		if json.Unmarshal(b, &r) == nil {
			res = &r
		}
	}
	return
}

// firstFatal picks the interesting part of what a worker printed.
func firstFatal(s string) string {
	for _, mark := range []string{"WARNING: DATA RACE", "fatal error:", "panic:", "goroutine stack exceeds", "SIGQUIT"} {
		if i := strings.Index(s, mark); i >= 0 {
			if i > 300 {
				i -= 300
			} else {
				i = 0
			}
			return clip(s[i:], 5000)
		}
	}
	if len(s) > 3000 {
		s = s[len(s)-3000:]
	}
	return s
}

func runShard(c *Check, tier string, seed int64, shard, n int, dir string) (out shardRun) {
	var skip []int
	for attempt := 0; attempt < 4; attempt++ {
		tag := fmt.Sprintf("%d.%d", shard, attempt)
		res, exit, hung, tail, p, pok := startWorker(c, tier, seed, shard, n, -1, skip, dir, tag)
		if exit == nil && res != nil && res.Done {
			out.res = res
			return
		}
		// Data races are reported at the end of the run (exit code 66) in a result that is otherwise complete.
		if res != nil && res.Done && strings.Contains(tail, "WARNING: DATA RACE") {
			out.res = res
			out.crash = &Violation{Case: p.Case, Group: p.Group, Sig: "data-race", Input: "the whole workload of shard " + fmt.Sprint(shard), Detail: tail, Seed: seed, Tier: tier}
			return
		}
		if !pok {
			out.harness = fmt.Sprintf("worker ended without progress: %v: %s", exit, tail)
			return
		}
		// Confirm with the case alone, in fresh processes.
		confirmed, what := 0, ""
		for k := 0; k < 2; k++ {
			res2, exit2, hung2, tail2, _, _ := startWorker(c, tier, seed, 0, 1, p.Case, nil, dir, fmt.Sprintf("%s.c%d", tag, k))
			if hung2 {
				confirmed++
				what = "hang"
			} else if exit2 != nil && (res2 == nil || !res2.Done) && !killed(exit2) {
				confirmed++
				what = "crash"
				tail = tail2
			} else if res2 != nil && len(res2.Violations) > 0 {
				out.crash = &res2.Violations[0]
				return
			}
		}
		isCrash := !hung && !killed(exit)
		if confirmed == 2 || (isCrash && (strings.Contains(tail, "fatal error:") || strings.Contains(tail, "panic:") || strings.Contains(tail, "DATA RACE"))) {
			if what == "" {
				what = "crash"
			}
			out.crash = &Violation{Case: p.Case, Group: p.Group, Sig: what, Input: p.Input, Detail: fmt.Sprintf("the process running this case ended (%v) / %s\n%s", exit, what, tail), Seed: seed, Tier: tier}
			return
		}
		// Not reproducible alone (for example: ended for lack of memory). Leave the case out and go on, as inconclusive.
		skip = append(skip, p.Case)
	}
	out.harness = fmt.Sprintf("gave up after several unexplained ends of the worker, cases %v", skip)
	return
}

// killed says whether a process was ended by SIGKILL, which the code under test does not do to itself.
func killed(err error) bool {
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok {
			return ws.Signaled() && ws.Signal() == syscall.SIGKILL
		}
	}
	return false
}

type known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "open" or "fixed"
	Sig      string `json:"sig"`
	What     string `json:"what"`
}

func loadKnown(root, id string) (open []known) {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(b), "\n") {
		var k known
		if strings.TrimSpace(line) == "" || json.Unmarshal([]byte(line), &k) != nil {
			continue
		}
		if k.Property == id && k.Status == "open" {
			open = append(open, k)
		}
	}
	return
}

func supervise(c *Check, tier string, seed int64, root, scratch, replay string) int {
	start := time.Now()
	dir, err := os.MkdirTemp(scratch, "run")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	if c.Stall == 0 {
		c.Stall = 60 * time.Second
	}
	if replay != "" {
		b, err := os.ReadFile(replay)
		var v Violation
		if err != nil || json.Unmarshal(b, &v) != nil {
			fmt.Fprintln(os.Stderr, "cannot read replay")
			return 2
		}
		res, exit, hung, tail, _, _ := startWorker(c, v.Tier, v.Seed, 0, 1, v.Case, nil, dir, "replay")
		fmt.Println("exit:", exit, "hung:", hung)
		if res != nil {
			for _, x := range res.Violations {
				fmt.Printf("case %d (%s): %s\ninput: %s\n%s\n", x.Case, x.Group, x.Sig, x.Input, x.Detail)
			}
			if len(res.Violations) > 0 {
				return 1
			}
		}
		if exit != nil {
			fmt.Println(tail)
			return 1
		}
		return 0
	}
	shards := c.Shards
	if shards == 0 {
		shards = 6
	}
	runs := make([]shardRun, shards)
	var wg sync.WaitGroup
	for i := range runs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			runs[i] = runShard(c, tier, seed, i, shards, dir)
		}(i)
	}
	wg.Wait()

	var vs []Violation
	counters := map[string]int{}
	incon := map[string]int{}
	distinct := map[uint64]bool{}
	var samples []interface{}
	cases := 0
	harness := ""
	for _, s := range runs {
		if s.harness != "" {
			harness = s.harness
		}
		if s.crash != nil {
			vs = append(vs, *s.crash)
		}
		if s.res == nil {
			continue
		}
		cases += s.res.Cases
		vs = append(vs, s.res.Violations...)
		for k, v := range s.res.Counters {
			counters[k] += v
		}
		for k, v := range s.res.Incon {
			incon[k] += v
		}
		for _, h := range s.res.Distinct {
			distinct[h] = true
		}
		if len(samples) < 6 {
			samples = append(samples, s.res.Samples...)
		}
	}
	if len(samples) > 6 {
		samples = samples[:6]
	}
	if samples == nil {
		samples = []interface{}{}
	}
	sort.SliceStable(vs, func(i, j int) bool { return vs[i].Case < vs[j].Case })

	// Known findings
	openK := loadKnown(root, c.ID)
	hit := map[string]bool{}
	var fresh []Violation
	for _, v := range vs {
		matched := false
		for _, k := range openK {
			if k.Sig == v.Sig {
				matched = true
				hit[k.Sig] = true
			}
		}
		if !matched {
			fresh = append(fresh, v)
		}
	}
	for _, k := range openK {
		if hit[k.Sig] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k.What)
		}
	}
	cov := map[string]interface{}{
		"evaluations":         cases,
		"distinct_nontrivial": len(distinct),
		"rule":                c.Rule,
		"samples":             samples,
		"observed":            counters,
		"known_findings_seen": len(hit),
	}
	if len(incon) > 0 {
		cov["inconclusive"] = incon
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": c.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(fresh) > 0 {
		os.MkdirAll(filepath.Join(root, "evidence", "replays"), 0o755)
		path := filepath.Join(root, "evidence", "replays", fmt.Sprintf("%s-%d.json", c.ID, fresh[0].Case))
		b, _ := json.MarshalIndent(fresh[0], "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("case %d (%s): %s\ninput: %s\n%s\n", fresh[0].Case, fresh[0].Group, fresh[0].Sig, clip(fresh[0].Input, 2000), clip(fresh[0].Detail, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		return 1
	}
	if harness != "" {
		fmt.Fprintln(os.Stderr, "check error:", harness)
		return 2
	}
	if cases == 0 {
		fmt.Fprintln(os.Stderr, "check error: no cases were run")
		return 2
	}
	fmt.Printf("ok property=%s cases=%d distinct=%d %v wall=%.1fs\n", c.ID, cases, len(distinct), counters, time.Since(start).Seconds())
	return 0
}

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }
