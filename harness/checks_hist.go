package main

// P20 histories of parses in one process, P21 parses at the same time.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/log"
	"github.com/akm/tparser/parser"
	"github.com/akm/tparser/token"
	"golang.org/x/text/encoding/japanese"
)

// job is one thing to parse: a text at an entry point, or a program file.
type job struct {
	Mode  string            // a mode of parseMode, "method:Name", "tokens" or "files"
	Text  string            // in-memory text
	Dir   string            // directory of the files
	Main  string            // program file, relative to Dir
	Files map[string][]byte // files relative to Dir
	Kind  string
	Clock int64     // time of the files
	Paths [2]string // of the contexts of program and unit for a text; "-" for none
	Cwd   bool      // to be parsed with Dir as working directory; otherwise its paths are absolute
}

func (j *job) path(i int) string {
	if j.Paths[i] == "" {
		return []string{"p.dpr", "u.pas"}[i]
	}
	return j.Paths[i]
}

func (j *job) write(base string) {
	for p, b := range j.Files {
		q := filepath.Join(base, j.Dir, p)
		put(q, b)
		if j.Clock > 0 {
			t := time.Unix(j.Clock, 0)
			if err := os.Chtimes(q, t, t); err != nil {
				panic(err)
			}
		}
	}
}

// twin is a source that differs from j in one character: of the same length
// and, for files, of the same paths and times.
func (j *job) twin(r *rand.Rand) *job {
	if j.Mode == "tokens" {
		return nil
	}
	c := *j
	change := func(b []byte) bool {
		var at []int
		for i, x := range b {
			// not in a multi-byte character
			if (x|32 >= 'a' && x|32 <= 'z' || x >= '0' && x <= '9') && (i == 0 || b[i-1] < 128) {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return false
		}
		i := at[r.Intn(len(at))]
		switch {
		case b[i] == '9' || b[i]|32 == 'z':
			b[i]--
		case b[i] >= 'a' && r.Intn(2) == 0:
			b[i] -= 32
		default:
			b[i]++
		}
		return true
	}
	c.Kind = "source changed in one character"
	if j.Mode != "files" {
		b := []byte(j.Text)
		if !change(b) {
			return nil
		}
		c.Text = string(b)
		return &c
	}
	c.Kind = "file changed in one character"
	j.Clock = 1500000000
	c.Clock = j.Clock
	c.Files = map[string][]byte{}
	var l []string
	for p, b := range j.Files {
		c.Files[p] = append([]byte{}, b...)
		l = append(l, p)
	}
	sort.Strings(l)
	if !change(c.Files[l[r.Intn(len(l))]]) {
		return nil
	}
	return &c
}

// run parses; again prints the same result once more.
func (j *job) run(base string) (res string, again func() string) {
	switch {
	case j.Mode == "files":
		dir := filepath.Join(base, j.Dir)
		path := filepath.Join(dir, j.Main)
		if j.Cwd {
			old, _ := os.Getwd()
			if err := os.Chdir(dir); err != nil {
				panic(err)
			}
			defer os.Chdir(old)
			path = j.Main
		}
		r, err := parser.ParseProgram(path)
		if err != nil {
			return "ERR " + err.Error(), func() string { return "ERR " + err.Error() }
		}
		if r == nil || r.Program == nil {
			return "NIL", func() string { return "NIL" }
		}
		again = func() string {
			d := NewDumper()
			d.computed = true
			add := func(p string) {
				full := p
				if !filepath.IsAbs(p) {
					full = filepath.Join(dir, p)
				}
				var b []byte
				for f, c := range j.Files {
					if filepath.Join(dir, f) == filepath.Clean(full) {
						b = c
					}
				}
				t, _ := japanese.ShiftJIS.NewDecoder().Bytes(b)
				d.AddSource(p, sigToks([]rune(string(t))))
			}
			add(path)
			parts := []dumpPart{{path, r.Program}}
			for _, u := range r.Units {
				add(u.Path)
				parts = append(parts, dumpPart{u.Path, u})
			}
			return strings.Join(d.Dump(parts...), "\n\n")
		}
		return again(), again
	case j.Mode == "tokens":
		var b strings.Builder
		text := []rune(j.Text)

		t := token.NewTokenizer(&text, 0)
		for i := 0; i < len(text)+2; i++ {
			k := t.GetNext()
			if k == nil {
				break
			}
			fmt.Fprintf(&b, "%d %q %d-%d\n", k.Type, k.RawString(), k.Start.Index, k.End.Index)
			if k.Type == token.EOF {
				break
			}
		}
		s := b.String()
		return s, func() string { return s }
	case strings.HasPrefix(j.Mode, "method:"):
		n, err := callMethodAt(j.Mode[7:], []rune(j.Text), j.path(0))
		if err != nil {
			return "ERR " + err.Error(), func() string { return "ERR " + err.Error() }
		}
		again = func() string {
			var b strings.Builder
			if nd, ok := n.(ast.Node); ok && !isNil(n) {
				err := astcore.WalkDown(nd, func(v ast.Node) error {
					b.WriteString(typeName(v))
					if id, ok := v.(*astcore.Ident); ok && id != nil {
						fmt.Fprintf(&b, " %s %v", id.Name, id.Location)
					}
					b.WriteString("\n")
					return nil
				})
				if err != nil {
					return "walk " + err.Error()
				}
			}
			return b.String()
		}
		return again(), again
	}
	text := []rune(j.Text)
	o := parseModeAt(j.Mode, text, j.path(0), j.path(1))
	if string(text) != j.Text {
		return "TEXT CHANGED: " + string(text), nil
	}
	if o.err != nil {
		return "ERR " + o.err.Error(), func() string { return "ERR " + o.err.Error() }
	}
	if o.node == nil {
		return "NIL", func() string { return "NIL" }
	}
	toks := sigToks(text)
	again = func() string { return dumpOne("S", toks, o, true) }
	return again(), again
}

// oneMain: "vp one": runs the job of standard input and prints its result.
func oneMain() {
	var j job
	b, _ := ioutil.ReadAll(os.Stdin)
	if err := json.Unmarshal(b, &j); err != nil {
		panic(err)
	}
	s, _ := j.run("")
	fmt.Print(s)
}

func child(in interface{}, arg ...string) ([]byte, []byte, error) {
	self, _ := os.Executable()
	b, err := json.Marshal(in)
	if err != nil {
		panic(err)
	}
	c := exec.Command(self, arg...)
	c.Stdin = bytes.NewReader(b)
	c.Env = append(os.Environ(), "GOMAXPROCS=8")
	var out, e bytes.Buffer
	c.Stdout, c.Stderr = &out, &e
	err = c.Run()
	return out.Bytes(), e.Bytes(), err
}

// mkJob draws something to parse.
// A job of files goes to the directory dir of base, cwd allows relative paths.
func (x *ctx) mkJob(size int, base, dir string, cwd bool) *job {
	r := x.r
	switch r.Intn(16) {
	case 0:
		_, _, t := rawText(r, size)
		return &job{Mode: "tokens", Text: string(t), Kind: "tokens"}
	case 1, 2:
		_, _, t := rawText(r, size)
		return &job{Mode: "method:" + methodNames[r.Intn(len(methodNames))], Text: string(t), Kind: "single method"}
	case 3, 4, 5:
		return x.fileJob(size, base, dir, cwd)
	case 6, 7, 8, 9, 10:
		m, t, _, _ := validText(r, size)
		return &job{Mode: m, Text: string(t), Kind: "generated source"}
	}
	k, m, t := rawText(r, size)
	return &job{Mode: m, Text: string(t), Kind: k}
}

func (x *ctx) fileJob(size int, base, dir string, cwd bool) *job {
	r := x.r
	prefix := filepath.Join(base, dir) + "/"
	cwd = cwd && r.Intn(2) == 0
	if cwd {
		prefix = ""
	}
	p := x.makeProjectAt(r.Int63(), 5+r.Intn(size), 1+r.Intn(4), r.Intn(2) == 0, prefix)
	fs := p.pr.files()
	bad := -1
	if r.Intn(3) == 0 {
		bad = r.Intn(len(fs))
	}
	j := &job{Mode: "files", Main: p.pr.prog.path, Files: map[string][]byte{}, Kind: "project of files", Dir: dir, Cwd: cwd}
	for i, f := range fs {
		st := randStyle(r)
		st.sjis = true
		toks := f.toks
		if i == bad {
			toks, _ = mutToks(r, toks, toks)
			j.Kind = "damaged project of files"
		}
		b, ok := sjisOf(render(toks, r, st).text)
		if !ok {
			b, _ = sjisOf([]rune("unit x;"))
		}
		j.Files[f.path] = b
	}
	return j
}

func init() {
	register(&check{id: "P20", quick: 2600, thorough: 60000, limit: 120,
		rule:   "histories of 8 to 30 (sometimes 400) parses of 3 to 6 sources (generated, damaged, token soup; all entry points, every public method, the tokenizer, programs of files that keep their paths while the contents change) in one process that is never restarted, logging on or off; each result with references and positions, or error, is compared with that of a fresh process which parses that source alone; then all earlier results are printed again; the text must stay as it was; non-trivial: histories with an error and a result",
		assume: []string{"the result of a fresh process that parses one source alone is the reference"},
		need:   []string{"generated source", "mutated source", "soup", "single method", "tokens", "project of files", "damaged project of files", "source changed in one character", "file changed in one character", "projects loaded", "logged run", "results printed again", "context without a path", "history of more than 256 runs"},
		run:    func(x *ctx) { x.histCase() }})
	register(&check{id: "P21", quick: 650, thorough: 20000, limit: 300,
		rule:   "groups of 6 to 16 goroutines, in fresh processes built with the race detector, parse at the same time: own sources, the same source, the same unit files from several programs, the same project; a logger that yields the processor at random moves the interleaving; reports of the race detector and results other than those of the sequential run are violations; non-trivial: parses that overlapped in time",
		assume: []string{"the race detector sees only races of executed accesses", "the sequential results are taken in the same process after the concurrent ones"},
		need:   []string{"same unit files", "same source", "own sources", "yielding logger", "projects loaded", "overlapping parses"},
		run:    func(x *ctx) { x.concCase() }})
}

type fmtLog struct{ n, bytes int }

func (l *fmtLog) Printf(f string, a ...interface{}) {
	l.n++
	l.bytes += len(fmt.Sprintf(f, a...))
}

func (x *ctx) histCase() {
	r := x.r
	base, done := x.scratch()
	defer done()
	var jobs []*job
	var want []string
	for k, n := 0, 3+r.Intn(4); k < n; k++ {
		j := x.mkJob(40, base, fmt.Sprintf("d%d/w", r.Intn(2)), true)
		if k > 0 && r.Intn(3) == 0 {
			if t := jobs[k-1].twin(r); t != nil {
				j = t
			}
		}
		if j.Mode != "files" && j.Mode != "tokens" {
			for i := range j.Paths {
				j.Paths[i] = []string{"", "", "-", "other.dpr", "sub/x.pas", "表.pas"}[r.Intn(6)]
			}
			if j.Paths[0] == "-" {
				x.feat("context without a path")
			}
		}
		jobs = append(jobs, j)
		x.feat(j.Kind)
		x.inputs[fmt.Sprintf("source %d", k)] = j.Mode + fmt.Sprint(" ", j.Paths) + "\n" + j.Text + jobFiles(j)
	}
	x.input("history", "fresh processes")
	for _, j := range jobs {
		j.write(base)
		c := *j
		c.Dir = filepath.Join(base, j.Dir)
		o, e, err := child(c, "one")
		if err != nil {
			x.fail("a fresh process ended with %v\n%s", err, clip(string(e), 2000))
		}
		want = append(want, string(o))
		if j.Mode == "files" && !strings.HasPrefix(string(o), "ERR ") {
			x.feat("projects loaded")
		}
	}
	type old struct {
		j     int
		again func() string
	}
	var olds []old
	hist := ""
	errs, oks := 0, 0
	runs := 8 + r.Intn(23)
	if x.k%100 == 33 {
		runs = 300 + r.Intn(100)
		x.feat("history of more than 256 runs")
	}
	for s, n := 0, runs; s < n; s++ {
		k := r.Intn(len(jobs))
		if s < len(jobs) {
			k = s
		}
		j := jobs[k]
		logged := r.Intn(4) == 0
		hist += fmt.Sprintf("%d (%v) ", k, logged)
		x.inputs["history"] = hist
		j.write(base)
		c := *j
		c.Dir = filepath.Join(base, j.Dir)
		var got string
		var again func() string
		func() {
			if logged {
				l := &fmtLog{}
				defer log.SetLogger(l)()
				defer func() { x.count("log lines", l.n) }()
				x.feat("logged run")
			}
			got, again = c.run("")
		}()
		if got != want[k] {
			x.fail("run %d of the history: source %d gives another result than alone (logging %v)\n%s", s, k, logged, diffText(want[k], got))
		}
		if strings.HasPrefix(got, "ERR ") {
			errs++
		} else {
			oks++
		}
		if again != nil && r.Intn(2) == 0 {
			olds = append(olds, old{k, again})
		}
	}
	for _, o := range olds {
		if s := o.again(); s != want[o.j] {
			x.fail("after the history an earlier result of source %d has changed\n%s", o.j, diffText(want[o.j], s))
		}
		x.feat("results printed again")
	}
	x.count("parses", len(strings.Split(hist, " "))-1)
	x.count("errors", errs)
	x.count("results", oks)
	x.eval(fmt.Sprint(x.k), errs > 0 && oks > 0)
	x.sample(fmt.Sprintf("history %s of %v", hist, x.inputs))
}

func jobFiles(j *job) string {
	s := ""
	var l []string
	for p := range j.Files {
		l = append(l, p)
	}
	sort.Strings(l)
	for _, p := range l {
		t, _ := japanese.ShiftJIS.NewDecoder().Bytes(j.Files[p])
		s += "\n--" + p + "\n" + string(t)
	}
	return s
}

// ---- P21

type group struct {
	Jobs   []*job
	Base   string
	Yield  int // 0 quiet logger, otherwise one of Yield log lines yields
	Rounds int
}

type groupResult struct {
	Conc    []string
	Seq     []string
	Overlap int
	Order   string
}

// yieldLog moves the interleaving; it has to stay free of synchronisation,
// which would hide races.
type yieldLog struct{ every int64 }

func (l yieldLog) Printf(f string, a ...interface{}) {
	t := time.Now().UnixNano()
	if (t>>4)%l.every == 0 {
		if (t>>8)&31 == 0 {
			time.Sleep(time.Microsecond * 20)
		} else {
			runtime.Gosched()
		}
	}
	if t&512 != 0 {
		_ = fmt.Sprintf(f, a...)
	}
}

func concMain() {
	var g group
	b, _ := ioutil.ReadAll(os.Stdin)
	if err := json.Unmarshal(b, &g); err != nil {
		panic(err)
	}
	if g.Yield > 0 {
		log.SetLogger(yieldLog{int64(g.Yield)})
	}
	n := len(g.Jobs)
	var res []groupResult
	for round := 0; round < g.Rounds; round++ {
		r := groupResult{Conc: make([]string, n), Seq: make([]string, n)}
		st, en := make([]time.Time, n), make([]time.Time, n)
		start := make(chan bool)
		var wg sync.WaitGroup
		for i := range g.Jobs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						r.Conc[i] = fmt.Sprint("PANIC ", e)
					}
				}()
				<-start
				st[i] = time.Now()
				r.Conc[i], _ = g.Jobs[i].run(g.Base)
				en[i] = time.Now()
			}(i)
		}
		close(start)
		wg.Wait()
		for i, j := range g.Jobs {
			func() {
				defer func() {
					if e := recover(); e != nil {
						r.Seq[i] = fmt.Sprint("PANIC ", e)
					}
				}()
				r.Seq[i], _ = j.run(g.Base)
			}()
			for k := 0; k < i; k++ {
				if st[i].Before(en[k]) && st[k].Before(en[i]) {
					r.Overlap++
				}
			}
		}
		o := make([]int, n)
		for i := range o {
			o[i] = i
		}
		sort.Slice(o, func(a, b int) bool { return en[o[a]].Before(en[o[b]]) })
		r.Order = fmt.Sprint(o)
		res = append(res, r)
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

func (x *ctx) concCase() {
	r := x.r
	base, done := x.scratch()
	defer done()
	g := &group{Base: base, Rounds: 1 + r.Intn(2), Yield: []int{0, 3, 20, 200}[r.Intn(4)]}
	if g.Yield > 0 {
		x.feat("yielding logger")
	}
	n := 6 + r.Intn(11)
	kind := r.Intn(4)
	var shared *job
	for len(g.Jobs) < n {
		switch {
		case kind == 0 && shared == nil:
			shared = x.mkJob(60, base, "shared/w", false)
			fallthrough
		case kind == 0 && r.Intn(3) > 0:
			g.Jobs = append(g.Jobs, shared)
			x.feat("same source")
		case kind == 1 && shared == nil:
			shared = x.fileJob(60, base, "shared/w", false)
			fallthrough
		case kind == 1 && r.Intn(4) > 0:
			// the same unit files used by this project and by programs of other names
			j := *shared
			j.Files = map[string][]byte{}
			for p, b := range shared.Files {
				j.Files[p] = b
			}
			if len(g.Jobs)%2 == 1 {
				j.Main = filepath.Join(filepath.Dir(shared.Main), fmt.Sprintf("other%d.dpr", len(g.Jobs)))
				j.Files[j.Main] = shared.Files[shared.Main]
			}
			g.Jobs = append(g.Jobs, &j)
			x.feat("same unit files")
		default:
			j := x.mkJob(60, base, fmt.Sprintf("own%d/w", len(g.Jobs)), false)
			g.Jobs = append(g.Jobs, j)
			x.feat("own sources")
		}
	}
	for i, j := range g.Jobs {
		j.write(base)
		x.inputs[fmt.Sprintf("source %02d", i)] = j.Mode + fmt.Sprint(" ", j.Paths) + "\n" + j.Text + jobFiles(j)
	}
	x.input("group", fmt.Sprintf("%d goroutines, yield %d, %d rounds", n, g.Yield, g.Rounds))
	o, e, err := child(g, "conc")
	if raceRe.Match(e) {
		x.fail("data race\n%s", clip(string(e), 6000))
	}
	if err != nil {
		x.fail("the process with the parsers ended with %v\n%s", err, clip(string(e), 3000))
	}
	var res []groupResult
	if err := json.Unmarshal(o, &res); err != nil {
		panic(err)
	}
	first := make([]string, n)
	for k, q := range res {
		for i := range g.Jobs {
			if k == 0 {
				first[i] = q.Seq[i]
				if g.Jobs[i].Mode == "files" && !strings.HasPrefix(q.Seq[i], "ERR ") {
					x.feat("projects loaded")
				}
			}
			if q.Conc[i] != q.Seq[i] {
				x.fail("source %02d at the same time as others (round %d) gives another result than alone\n%s", i, k, diffText(q.Seq[i], q.Conc[i]))
			}
			if q.Seq[i] != first[i] {
				x.fail("source %02d gives another result in round %d\n%s", i, k, diffText(first[i], q.Seq[i]))
			}
		}
		x.count("pairs of parses that overlapped in time", q.Overlap)
		x.count("concurrent parses", n)
		if q.Overlap > 0 {
			x.feat("overlapping parses")
		}
		x.eval(fmt.Sprint(x.k, q.Order), q.Overlap > 0)
	}
	x.sample(fmt.Sprintf("%d goroutines, yield %d: orders of completion %v", n, g.Yield, func() (l []string) {
		for _, q := range res {
			l = append(l, q.Order)
		}
		return
	}()))
}
