package main

// Runner: parent process, worker processes, watch dog, evidence.
//
// A check is a fixed list of cases; case k of a check draws everything from a
// generator seeded with (check, VERIF_SEED, k). The parent starts worker
// processes of the same binary, each taking every n-th case. Before the code
// under test runs on an input, the input is put into the worker's journal, so
// that a crash, a stack overflow or a hang of a worker still names its input.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type check struct {
	id       string
	quick    int // number of cases
	thorough int
	workers  int // 0 = number of CPUs (at most 8)
	level    string
	rule     string
	assume   []string
	// cpu seconds which one case may take (default 60)
	limit float64
	run   func(x *ctx)
	// once per worker, before its cases
	prepare func(x *ctx)
	// required features: the run is void (exit 2) if one of them was never seen
	need []string
}

var checks = map[string]*check{}

func register(c *check) { checks[c.id] = c }

type violation struct {
	Property string            `json:"property"`
	Seed     int64             `json:"seed"`
	Tier     string            `json:"tier"`
	Case     int               `json:"case"`
	Message  string            `json:"message"`
	Inputs   map[string]string `json:"inputs"`
}

type result struct {
	Evals      int            `json:"evals"`
	Nontrivial int            `json:"nontrivial"`
	Hashes     []uint64       `json:"hashes"`
	Counts     map[string]int `json:"counts"`
	Feats      map[string]int `json:"feats"`
	Samples    []string       `json:"samples"`
	Cases      int            `json:"cases"`
	Known      map[string]int `json:"known"`
	Max        map[string]int `json:"max"`
}

// ctx is what a case sees.
type ctx struct {
	c       *check
	tier    string
	seed    int64
	k       int
	n       int // number of cases of the run
	r       *rand.Rand
	dir     string // scratch directory of the worker
	res     *result
	seen    map[uint64]bool
	inputs  map[string]string
	journal string
	started int64 // CPU time (ms) at the start of the running case
	wall0   int64
	quiet   bool
}

type failure struct{ msg string }

func (x *ctx) thoroughRun() bool { return x.tier == "thorough" }

// fail ends the case with a violation.
func (x *ctx) fail(f string, a ...interface{}) { panic(failure{fmt.Sprintf(f, a...)}) }

// input notes an input on which the code under test is about to run.
func (x *ctx) input(name, text string) {
	x.inputs[name] = text
	b, _ := json.Marshal(map[string]interface{}{"case": x.k, "inputs": x.inputs})
	ioutil.WriteFile(x.journal, b, 0644)
}

// only forgets the former inputs and notes this one.
func (x *ctx) only(name, text string) {
	x.inputs = map[string]string{}
	x.input(name, text)
}

// eval counts one evaluation of the oracle on something identified by key;
// trivial ones do not count as distinct.
func (x *ctx) eval(key string, nontrivial bool) {
	x.res.Evals++
	if !nontrivial {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	s := h.Sum64()
	if !x.seen[s] {
		x.seen[s] = true
		x.res.Nontrivial++
	}
}

func (x *ctx) count(name string, n int) { x.res.Counts[name] += n }

func (x *ctx) feats(m map[string]int) {
	for k, v := range m {
		x.res.Feats[k] += v
	}
}

func (x *ctx) feat(k string) { x.res.Feats[k]++ }

func (x *ctx) sample(s string) {
	if len(x.res.Samples) < 2 && len(s) < 3000 {
		x.res.Samples = append(x.res.Samples, s)
	}
}

func (x *ctx) sub(n int) *rand.Rand {
	return rand.New(rand.NewSource(mix(x.c.id, x.seed, x.k*1000+n)))
}

func mix(id string, seed int64, k int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", id, seed, k)
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

func cpuMillis() int64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return u.Utime.Sec*1000 + u.Utime.Usec/1000 + u.Stime.Sec*1000 + u.Stime.Usec/1000
}

func rssMB() int64 {
	b, err := ioutil.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize()) >> 20
}

// runCase runs case k and returns the message of a violation.
func (x *ctx) runCase(k int) (msg string) {
	x.k = k
	x.r = rand.New(rand.NewSource(mix(x.c.id, x.seed, k)))
	x.inputs = map[string]string{}
	atomic.StoreInt64(&x.started, cpuMillis())
	defer func() {
		if e := recover(); e != nil {
			if f, ok := e.(failure); ok {
				msg = f.msg
				return
			}
			msg = fmt.Sprintf("panic: %v\n%s", e, panicSite(debug.Stack()))
		}
	}()
	x.c.run(x)
	x.res.Cases++
	return ""
}

func panicSite(st []byte) string {
	l := strings.Split(string(st), "\n")
	if len(l) > 60 {
		l = l[:60]
	}
	return strings.Join(l, "\n")
}

func (x *ctx) violation(msg string) *violation {
	return &violation{x.c.id, x.seed, x.tier, x.k, msg, x.inputs}
}

func newCtx(c *check, tier string, seed int64, dir string) *ctx {
	n := c.quick
	if tier == "thorough" {
		n = c.thorough
	}
	if s := os.Getenv("VP_CASES"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	return &ctx{c: c, tier: tier, seed: seed, n: n, dir: dir, journal: filepath.Join(dir, "journal.json"), seen: map[uint64]bool{},
		inputs: map[string]string{},
		res:    &result{Counts: map[string]int{}, Feats: map[string]int{}, Known: map[string]int{}}}
}

// worker runs its share; exit code 0 = all held, 7 = violation written.
func worker(id, tier string, seed int64, shard, shards int, dir string) int {
	c := checks[id]
	x := newCtx(c, tier, seed, dir)
	debug.SetMaxStack(600 << 20)
	limit := c.limit
	if limit == 0 {
		limit = 120
	}
	var done int32
	go func() { // watch dog, decides by CPU time and memory, never by wall time
		for atomic.LoadInt32(&done) == 0 {
			time.Sleep(200 * time.Millisecond)
			used := float64(cpuMillis()-atomic.LoadInt64(&x.started)) / 1000
			why := ""
			if used > limit {
				why = fmt.Sprintf("hang: %.0f s of CPU time on one case", used)
			} else if m := rssMB(); m > 3500 {
				why = fmt.Sprintf("memory: %d MB in use", m)
			}
			if why != "" {
				ioutil.WriteFile(filepath.Join(dir, "dog"), []byte(why), 0644)
				os.Exit(8)
			}
		}
	}()
	os.Chdir(dir)
	atomic.StoreInt64(&x.started, cpuMillis())
	if c.prepare != nil {
		if msg := x.guard(func() { c.prepare(x) }); msg != "" {
			writeJSON(filepath.Join(dir, "violation.json"), x.violation(msg))
			return 7
		}
	}
	for k := shard; k < x.n; k += shards {
		if msg := x.runCase(k); msg != "" {
			writeJSON(filepath.Join(dir, "violation.json"), x.violation(msg))
			return 7
		}
		ms := int(cpuMillis() - atomic.LoadInt64(&x.started))
		x.maxOf("most CPU time of one case (ms)", ms)
		if ms > 5000 && os.Getenv("VP_SLOW") != "" {
			writeJSON(filepath.Join(os.Getenv("VP_SLOW"), fmt.Sprintf("%s-%d-%d.json", id, k, ms)), x.violation("slow"))
		}
	}
	atomic.StoreInt32(&done, 1)
	for h := range x.seen {
		x.res.Hashes = append(x.res.Hashes, h)
	}
	writeJSON(filepath.Join(dir, "result.json"), x.res)
	return 0
}

func (x *ctx) guard(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			if v, ok := e.(failure); ok {
				msg = v.msg
				return
			}
			msg = fmt.Sprintf("panic: %v\n%s", e, panicSite(debug.Stack()))
		}
	}()
	f()
	return ""
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(path, append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

var raceRe = regexp.MustCompile(`WARNING: DATA RACE`)

// parent runs a check; returns the exit code.
func parent(id, tier string, seed int64, root string) int {
	c := checks[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "no such check", id)
		return 2
	}
	t0 := time.Now()
	n := c.workers
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
		if n < 2 {
			n = 2
		}
	}
	tmp, err := ioutil.TempDir("", "vp-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()
	var mu sync.Mutex
	var wg sync.WaitGroup
	var found []*violation
	var results []*result
	var broken []string
	cmds := make([]*exec.Cmd, n)
	for i := 0; i < n; i++ {
		dir := filepath.Join(tmp, "w"+strconv.Itoa(i))
		os.Mkdir(dir, 0755)
		cmd := exec.Command(self, "worker", id, tier, strconv.FormatInt(seed, 10), strconv.Itoa(i), strconv.Itoa(n), dir)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66 history_size=4 atexit_sleep_ms=0", "GOMEMLIMIT=1500MiB")
		if c.workers != 0 {
			cmd.Env = append(cmd.Env, "GOMAXPROCS="+strconv.Itoa(runtime.NumCPU()/c.workers+1))
		}
		log, _ := os.Create(filepath.Join(dir, "log"))
		cmd.Stdout, cmd.Stderr = log, log
		cmds[i] = cmd
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			err := cmd.Wait()
			log.Close()
			mu.Lock()
			defer mu.Unlock()
			if len(found) > 0 {
				return // ended by us
			}
			var v violation
			if b, e := ioutil.ReadFile(filepath.Join(dir, "violation.json")); e == nil && json.Unmarshal(b, &v) == nil {
				found = append(found, &v)
			} else if err != nil {
				lg, _ := ioutil.ReadFile(filepath.Join(dir, "log"))
				dog, _ := ioutil.ReadFile(filepath.Join(dir, "dog"))
				code := cmd.ProcessState.ExitCode()
				ws, _ := cmd.ProcessState.Sys().(syscall.WaitStatus)
				var j struct {
					Case   int
					Inputs map[string]string
				}
				b, e := ioutil.ReadFile(filepath.Join(dir, "journal.json"))
				if e == nil {
					e = json.Unmarshal(b, &j)
				}
				msg := ""
				switch {
				case len(dog) > 0:
					msg = string(dog)
				case code == 66 || raceRe.Match(lg):
					msg = "data race:\n" + clip(string(lg), 6000)
				case code == 2:
					msg = "crash:\n" + clip(string(lg), 4000)
				case ws.Signaled() && (ws.Signal() == syscall.SIGSEGV || ws.Signal() == syscall.SIGABRT || ws.Signal() == syscall.SIGBUS):
					msg = "crash by " + ws.Signal().String() + ":\n" + clip(string(lg), 4000)
				}
				if msg == "" || e != nil {
					broken = append(broken, fmt.Sprintf("worker %d: %v\n%s", i, err, clip(string(lg), 4000)))
					return
				}
				found = append(found, &violation{id, seed, tier, j.Case, msg, j.Inputs})
			} else {
				var r result
				b, e := ioutil.ReadFile(filepath.Join(dir, "result.json"))
				if e == nil {
					e = json.Unmarshal(b, &r)
				}
				if e != nil {
					broken = append(broken, fmt.Sprintf("worker %d gave no result: %v", i, e))
					return
				}
				results = append(results, &r)
			}
			if len(found) > 0 {
				for _, o := range cmds {
					if o != nil && o.Process != nil {
						o.Process.Kill()
					}
				}
			}
		}(i)
	}
	wg.Wait()
	code := 0
	tot := &result{Counts: map[string]int{}, Feats: map[string]int{}, Known: map[string]int{}}
	all := map[uint64]bool{}
	for _, r := range results {
		tot.Evals += r.Evals
		tot.Cases += r.Cases
		for _, h := range r.Hashes {
			all[h] = true
		}
		for k, v := range r.Counts {
			tot.Counts[k] += v
		}
		for k, v := range r.Feats {
			tot.Feats[k] += v
		}
		for k, v := range r.Max {
			if v > tot.Counts[k] {
				tot.Counts[k] = v
			}
		}
		for k, v := range r.Known {
			tot.Known[k] += v
		}
		if len(tot.Samples) < 3 && len(r.Samples) > 0 {
			tot.Samples = append(tot.Samples, r.Samples[0])
		}
	}
	for _, v := range found {
		h := fnv.New64a()
		fmt.Fprint(h, v.Case, v.Message, v.Inputs)
		rdir := filepath.Join(root, "replays")
		os.MkdirAll(rdir, 0755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%016x.json", id, h.Sum64()))
		writeJSON(path, v)
		fmt.Printf("%s: case %d: %s\n", id, v.Case, printable(clip(v.Message, 3000)))
		var names []string
		for k := range v.Inputs {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			fmt.Printf("--- %s\n%s\n", k, printable(clip(v.Inputs[k], 1500)))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		code = 1
		break
	}
	if code == 0 && len(broken) > 0 {
		fmt.Fprintln(os.Stderr, strings.Join(broken, "\n"))
		code = 2
	}
	if code == 0 {
		for _, f := range c.need {
			if tot.Feats[f] == 0 && tot.Counts[f] == 0 {
				fmt.Fprintln(os.Stderr, id, ": the workload never showed:", f)
				code = 2
			}
		}
		if tot.Evals == 0 || len(all) < 2 {
			fmt.Fprintln(os.Stderr, id, ": nothing was observed")
			code = 2
		}
	}
	var known []string
	for k := range tot.Known {
		known = append(known, k)
	}
	sort.Strings(known)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	cov := map[string]interface{}{
		"evaluations":         tot.Evals,
		"distinct_nontrivial": len(all),
		"rule":                c.rule,
		"samples":             tot.Samples,
		"cases":               tot.Cases,
		"worker_processes":    n,
	}
	if len(tot.Counts) > 0 {
		cov["observed"] = tot.Counts
	}
	if len(tot.Feats) > 0 {
		cov["constructs_seen"] = tot.Feats
		cov["distinct_constructs"] = len(tot.Feats)
	}
	if len(tot.Samples) == 0 && len(found) > 0 {
		cov["samples"] = []string{clip(found[0].Message, 500)}
	}
	lv := c.level
	if lv == "" {
		lv = "exploration"
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": lv, "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "assumptions": c.assume, "violations": len(found)}
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	writeJSON(filepath.Join(root, "evidence", id+".json"), ev)
	if code == 0 {
		fmt.Printf("%s %s: %d cases, %d evaluations, %d distinct, no violation (%.1f s)\n", id, tier, tot.Cases, tot.Evals, len(all), time.Since(t0).Seconds())
	}
	return code
}

func clip(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "?") + "..."
	}
	return s
}

// replay runs the case of a violation file again in this process.
func replay(path string) int {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := checks[v.Property]
	dir, _ := ioutil.TempDir("", "vp-replay-")
	defer os.RemoveAll(dir)
	x := newCtx(c, v.Tier, v.Seed, dir)
	os.Chdir(dir)
	if c.prepare != nil {
		c.prepare(x)
	}
	if msg := x.runCase(v.Case); msg != "" {
		fmt.Printf("%s: case %d: %s\n", v.Property, v.Case, printable(msg))
		for k, t := range x.inputs {
			fmt.Printf("--- %s\n%s\n", k, printable(t))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
		return 1
	}
	fmt.Printf("%s: case %d holds\n", v.Property, v.Case)
	return 0
}

// printable shows control characters, except for tabs and line ends, as escapes.
func printable(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c < ' ' && c != '\n' && c != '\t' && c != '\r' || c == 0x7f {
			fmt.Fprintf(&b, "\\x%02x", c)
		} else {
			b.WriteRune(c)
		}
	}
	return b.String()
}
