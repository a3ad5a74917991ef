package main

// P15 names across units, P16 loading of units, P22 source files.

import (
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"unsafe"

	"golang.org/x/text/encoding/japanese"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/parser"
)

// sjisOf encodes a text; ok is false if it has characters Shift_JIS lacks.
func sjisOf(text []rune) ([]byte, bool) {
	b, err := japanese.ShiftJIS.NewEncoder().Bytes([]byte(string(text)))
	if err != nil {
		return nil, false
	}
	back, err := japanese.ShiftJIS.NewDecoder().Bytes(b)
	return b, err == nil && string(back) == string(text)
}

// project is a rendered project in a directory of its own (the current one).
type project struct {
	pr  *gproject
	g   *Gen
	rds map[string]*rendered
	dir string
	eol int
}

var projDirs = []string{"", "", "sub/", "a/b c/", "データ/", "../up/"}

func (x *ctx) makeProject(seed int64, size, nUnits int, few bool) *project {
	return x.makeProjectAt(seed, size, nUnits, few, "")
}

// makeProjectAt puts prefix before the paths of the units in the program.
func (x *ctx) makeProjectAt(seed int64, size, nUnits int, few bool, prefix string) *project {
	g := NewGen(seed)
	g.prefix = prefix
	g.sjis, g.fewNames = true, few
	g.pickPool()
	g.size, g.maxDepth = size, 4
	g.wantCls = g.n(4)
	if seed%12 == 0 {
		g.rich, g.giants = true, 1
	}
	return &project{pr: g.genProject(3, nUnits, projDirs), g: g, rds: map[string]*rendered{}}
}

// scratch makes a fresh directory with a working directory in it and goes there.
func (x *ctx) scratch() (string, func()) {
	d, err := ioutil.TempDir(x.dir, "s")
	if err != nil {
		panic(err)
	}
	w := filepath.Join(d, "w")
	os.Mkdir(w, 0755)
	old, _ := os.Getwd()
	os.Chdir(w)
	return w, func() { os.Chdir(old); os.RemoveAll(d) }
}

func put(path string, b []byte) {
	os.MkdirAll(filepath.Dir(path), 0755)
	if err := ioutil.WriteFile(path, b, 0644); err != nil {
		panic(err)
	}
}

// putText writes a text in Shift_JIS.
func putText(path, text string) {
	b, ok := sjisOf([]rune(text))
	if !ok {
		panic("a text that Shift_JIS lacks: " + text)
	}
	put(path, b)
}

// renderAll renders every file in Shift_JIS characters.
func (p *project) renderAll(x *ctx) {
	for _, f := range p.pr.files() {
		st := randStyle(x.r)
		st.sjis = true
		st.eol = p.eol
		p.rds[f.tag] = render(f.toks, x.r, st)
	}
}

func (p *project) write(x *ctx) {
	for _, f := range p.pr.files() {
		b, ok := sjisOf(p.rds[f.tag].text)
		if !ok {
			panic("a generated file is not Shift_JIS: " + f.path)
		}
		put(f.path, b)
		x.input(f.path, string(p.rds[f.tag].text))
	}
}

// dumps prints the result of a file project, by file.
func (p *project) dumps(res *parser.Program) []string {
	d := NewDumper()
	d.computed = true
	var parts []dumpPart
	for tag, rd := range p.rds {
		d.AddSource(tag, rd.toks)
	}
	parts = append(parts, dumpPart{"P", res.Program})
	for i, u := range res.Units {
		parts = append(parts, dumpPart{p.pr.units[i].file.tag, u})
	}
	return d.Dump(parts...)
}

func (x *ctx) parseFile(path string) (*parser.Program, error) {
	res, err := parser.ParseProgram(path)
	if err == nil && (res == nil || res.Program == nil) {
		x.fail("neither a result nor an error for %s", path)
	}
	return res, err
}

func (x *ctx) loadProject(p *project) []string {
	res, err := x.parseFile(p.pr.prog.path)
	if err != nil {
		x.fail("a project of the grammar is rejected: %v", err)
	}
	if len(res.Units) != len(p.pr.units) {
		x.fail("%d units loaded, the uses clause has %d", len(res.Units), len(p.pr.units))
	}
	for i, u := range res.Units {
		if !strings.EqualFold(u.Ident.Name, p.pr.units[i].name) {
			x.fail("unit %d of the result is %s, of the uses clause %s", i, u.Ident.Name, p.pr.units[i].name)
		}
		if w := p.g.prefix + p.pr.units[i].file.path; u.Path != w {
			x.fail("unit %s has path %q, its file is %q", u.Ident.Name, u.Path, w)
		}
	}
	if res.Program.Path != p.pr.prog.path {
		x.fail("the program has path %q, its file is %q", res.Program.Path, p.pr.prog.path)
	}
	return p.dumps(res)
}

func (p *project) wants() []string {
	var out []string
	for _, f := range p.pr.files() {
		out = append(out, p.g.expand(f, f.exp, p.rds, true))
	}
	return out
}

func init() {
	register(&check{id: "P15", quick: 5000, thorough: 100000,
		rule: "generated projects of 1 to 7 (sometimes 40) unit files that compete for a few names, each name's reference in each file compared with a scope model (uses order, interface only, qualified names); the same projects with one qualified name that the unit's interface lacks put into a constant, variable, routine or type (must be an error, for a type no reference); non-trivial: a file with at least 3 references to declarations",
		need: []string{"references to declarations", "references into other units", "qualified name", "missing qualified name rejected", "missing qualified type without reference", "name of an implementation", "many units"},
		run:  func(x *ctx) { x.unitNamesCase() }})
	register(&check{id: "P16", quick: 4500, thorough: 60000,
		rule: "random dependency graphs of up to 14 (sometimes 60, rarely 270) unit files, with and without cycles of interfaces, cyclic implementations, uses orders at random, names in mixed letter case: acceptance, order and identity of the units, references into used interfaces; an inotify log of the directories shows which unit files were opened and how often; unit files named twice, of the same unit name, or of another name than their uses item must be errors; non-trivial: at least 2 units and one dependency",
		need: []string{"acyclic graph accepted", "interface cycle rejected", "implementation cycle", "self use rejected", "unit files opened", "the same unit file twice", "two unit files of the same unit name", "unit file of another name", "more than 100 units", "unit name beyond ASCII"},
		run:  func(x *ctx) { x.graphCase() }})
	register(&check{id: "P22", quick: 1500, thorough: 50000, prepare: func(x *ctx) { x.injectProbe() },
		rule: "generated programs and projects in Shift_JIS files (all line ends, Japanese names, strings and comments, directories, back slashes, absolute paths, files up to several MB with multi-byte characters at all block boundaries, up to 20 (thorough 80) MB with comments; every character of Shift_JIS including the control characters): the result is compared, with positions, with the expected tree and with that of the decoded text; file faults put in the program's or one unit's place: missing, directory, dangling link, link loop, file that opens but cannot be read, and read errors injected (strace) at each read of a file; non-trivial: file of at least 100 bytes with multi-byte characters, or a fault",
		need: []string{"files equal to their text", "multi-byte files", "fault: missing", "fault: directory", "fault: dangling link", "fault: link loop", "large file", "file of many megabytes", "all characters of Shift_JIS", "back slash in a path", "path in another directory", "bytes before the text", "bytes after the text", "damaged bytes", "file with other bytes accepted", "file with CR line ends only", "file with CRLF line ends only", "file with LF line ends only"},
		run:  func(x *ctx) { x.fileCase() }})
}

// ---- P15

func (x *ctx) unitNamesCase() {
	_, done := x.scratch()
	defer done()
	n := 1 + x.r.Intn(5)
	if x.k%20 == 3 {
		n = 7
	}
	size := 30 + x.r.Intn(150)
	if x.k%40 == 5 {
		n = 10 + x.r.Intn(30)
		size += 12 * n
		x.feat("many units")
	}
	p := x.makeProject(x.r.Int63(), size, n, x.k%40 == 5 || x.r.Intn(3) > 0)
	p.renderAll(x)
	p.write(x)
	got := x.loadProject(p)
	want := p.wants()
	for i, f := range p.pr.files() {
		rd := p.rds[f.tag]
		x.compareRefs(got[i], want[i], rd, 3)
		for _, r := range refsOf(want[i]) {
			if k := strings.IndexByte(r, '#'); k > 0 && r[:k] != f.tag {
				x.count("references into other units", 1)
			}
		}
	}
	x.feats(p.g.feats)
	if x.k%10 == 0 {
		x.sample(string(p.rds["P"].text) + "\n=> " + clip(got[0], 1200))
	}
	for i := 0; i < 3; i++ {
		x.missingName(p)
	}
}

// after returns the place after the uses clause which follows the first token
// equal to word (or the place after that token).
func after(toks []gtok, word string, from int) int {
	for i := from; i < len(toks); i++ {
		if strings.EqualFold(toks[i].text, word) && toks[i].kind == 'k' {
			i++
			if word == "program" {
				for toks[i].text != ";" {
					i++
				}
				i++
			}
			if i < len(toks) && strings.EqualFold(toks[i].text, "uses") {
				for toks[i].text != ";" {
					i++
				}
				i++
			}
			return i
		}
	}
	return -1
}

// missingName puts a qualified name that does not exist into one of the files.
func (x *ctx) missingName(p *project) {
	type site struct {
		f     *gfile
		pos   int
		units []*gunit
		kinds int
	}
	var sites []site
	sites = append(sites, site{p.pr.prog, after(p.pr.prog.toks, "program", 0), p.pr.units, 4})
	for _, u := range p.pr.units {
		i := after(u.file.toks, "interface", 0)
		if len(u.intfUses) > 0 {
			sites = append(sites, site{u.file, i, u.intfUses, 3})
		}
		j := after(u.file.toks, "implementation", i)
		if all := append(append([]*gunit{}, u.intfUses...), u.implUses...); len(all) > 0 {
			sites = append(sites, site{u.file, j, all, 4})
		}
	}
	s := sites[x.r.Intn(len(sites))]
	u := s.units[x.r.Intn(len(s.units))]
	// a name which the interface of the unit lacks
	var names []string
	for _, d := range u.implLocal.list {
		if u.exports.names[strings.ToLower(d.name)] == nil && !isNamespace(d) {
			names = append(names, d.name)
		}
	}
	name := ""
	if len(names) > 0 && x.r.Intn(4) > 0 {
		name = names[x.r.Intn(len(names))]
		x.feat("name of an implementation")
	} else {
		for try := 0; name == ""; try++ {
			name = p.g.anyName()
			if x.r.Intn(4) == 0 {
				name = "Integer"
			}
			if try > 10 {
				name = "nowhere"
			}
			if u.exports.names[strings.ToLower(name)] != nil {
				name = ""
			}
		}
	}
	id := func(s string) gtok { return gtok{s, 'i'} }
	kw := func(s string) gtok { return gtok{s, 'k'} }
	sy := func(s string) gtok { return gtok{s, 's'} }
	q := []gtok{id(u.name), sy("."), id(name)}
	var ins []gtok
	add := func(t ...gtok) { ins = append(ins, t...) }
	kind := x.r.Intn(s.kinds)
	typ := false
	at := 0
	switch kind {
	case 0:
		add(kw("const"), id("zz_q"), sy("="))
		add(q...)
		add(sy(";"))
	case 1:
		add(kw("var"), id("zz_q"), sy(":"))
		at = len(ins) + 2
		add(q...)
		add(sy(";"))
		typ = true
	case 2:
		add(kw("const"), id("zz_q"), sy("="), gtok{"1", 'n'}, sy("+"), sy("("))
		add(q...)
		add(sy("["), gtok{"2", 'n'}, sy("]"), sy(")"), sy(";"))
	case 3:
		add(kw("procedure"), id("zz_q"), sy(";"), kw("begin"))
		if x.r.Intn(2) == 0 {
			add(kw("if"), id("zz_q"), kw("then"))
		}
		add(q...)
		switch x.r.Intn(3) {
		case 0:
			add(sy(":="), gtok{"1", 'n'})
		case 1:
			add(sy("("), gtok{"1", 'n'}, sy(")"))
		case 2:
			add(sy("^"), sy(":="), gtok{"1", 'n'})
		}
		add(kw("end"), sy(";"))
	}
	toks := append(append(append([]gtok{}, s.f.toks[:s.pos]...), ins...), s.f.toks[s.pos:]...)
	st := randStyle(x.r)
	st.sjis = true
	rd := render(toks, x.r, st)
	b, ok := sjisOf(rd.text)
	if !ok {
		return
	}
	old := p.rds[s.f.tag]
	x.input(s.f.path, string(rd.text))
	put(s.f.path, b)
	done := false
	defer func() {
		b, _ := sjisOf(old.text)
		put(s.f.path, b)
		if done { // otherwise the replay has the file as it was
			x.input(s.f.path, string(old.text))
		}
		p.rds[s.f.tag] = old
	}()
	res, err := x.parseFile(p.pr.prog.path)
	x.eval(string(rd.text), true)
	if typ {
		if err != nil {
			x.fail("%s.%s used as a type: %v", u.name, name, err)
		}
		p.rds[s.f.tag] = rd
		for i, f := range p.pr.files() {
			if f == s.f {
				if r, ok := refsOf(p.dumps(res)[i])[s.pos+at]; !ok || r != "nil" {
					x.fail("the type name %s.%s refers to %q, but the interface of %s has no such name", u.name, name, r, u.name)
				}
			}
		}
		x.feat("missing qualified type without reference")
		done = true
		return
	}
	if err == nil {
		x.fail("%s.%s is accepted, but the interface of %s has no %s", u.name, name, u.name, name)
	}
	done = true
	x.feat("missing qualified name rejected")
}

// ---- P16

// opens watches directories for opened files.
type opens struct {
	fd   int
	dirs map[int]string
}

func watchOpens(dirs ...string) *opens {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		return nil
	}
	o := &opens{fd, map[int]string{}}
	for _, d := range dirs {
		wd, err := syscall.InotifyAddWatch(fd, d, syscall.IN_OPEN)
		if err != nil {
			syscall.Close(fd)
			return nil
		}
		o.dirs[wd] = d
	}
	return o
}

func (o *opens) read() (map[string]int, bool) {
	defer syscall.Close(o.fd)
	out := map[string]int{}
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(o.fd, buf)
		if n <= 0 || err != nil {
			return out, true
		}
		for i := 0; i+syscall.SizeofInotifyEvent <= n; {
			e := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[i]))
			nm := strings.TrimRight(string(buf[i+syscall.SizeofInotifyEvent:i+syscall.SizeofInotifyEvent+int(e.Len)]), "\x00")
			if e.Mask&syscall.IN_Q_OVERFLOW != 0 {
				return nil, false
			}
			if e.Mask&syscall.IN_ISDIR == 0 {
				out[filepath.Join(o.dirs[int(e.Wd)], nm)]++
			}
			i += syscall.SizeofInotifyEvent + int(e.Len)
		}
	}
}

type gnode struct {
	name       string
	path       string
	intf, impl []int
	intfLibs   []string
}

func (x *ctx) graphCase() {
	w, done := x.scratch()
	defer done()
	n := 1 + x.r.Intn(7)
	if x.k%5 == 1 {
		n = 8 + x.r.Intn(7)
	}
	if x.k%100 == 9 {
		n = 60
	}
	if x.k%250 == 19 {
		n = []int{120, 140, 270}[x.r.Intn(3)]
	}
	nodes := make([]*gnode, n)
	order := x.r.Perm(n) // a node may use those before it in this order
	rank := make([]int, n)
	for i, o := range order {
		rank[o] = i
	}
	cyclic := x.r.Intn(3) == 0
	dens := 1 + x.r.Intn(4)
	shapes := x.r.Intn(4)
	if n > 100 {
		x.feat("more than 100 units")
		dens = 1
		if shapes > 2 {
			shapes = 0 // a long chain
		}
	}
	for i := range nodes {
		nd := &gnode{name: fmt.Sprintf("%s%d", []string{"U", "Unit_", "uX", "DATA", "zeta", "Abc", "Ω", "Жук", "Ｆｏｏ", "データ"}[x.r.Intn(10)], i)}
		if multiByte.MatchString(nd.name) {
			x.feat("unit name beyond ASCII")
		}
		nd.path = []string{"", "sub/", "d2/"}[x.r.Intn(3)] + strings.ToLower(nd.name) + ".pas"
		nodes[i] = nd
	}
	for i, nd := range nodes {
		for j := range nodes {
			if rank[j] >= rank[i] {
				continue
			}
			switch {
			case shapes == 0 && rank[j] == rank[i]-1: // chain
				nd.intf = append(nd.intf, j)
			case shapes == 1 && (rank[j] == 0 || rank[i] == n-1): // diamond
				nd.intf = append(nd.intf, j)
			case shapes >= 2 && n > 100 && x.r.Intn(n) < 3:
				nd.intf = append(nd.intf, j)
			case shapes >= 2 && n <= 100 && x.r.Intn(5) < dens:
				nd.intf = append(nd.intf, j)
			}
		}
		x.r.Shuffle(len(nd.intf), func(a, b int) { nd.intf[a], nd.intf[b] = nd.intf[b], nd.intf[a] })
		for j := range nodes {
			if j != i && x.r.Intn(n+1) < 2 && !hasInt(nd.intf, j) {
				nd.impl = append(nd.impl, j)
			}
		}
		if x.r.Intn(4) == 0 {
			nd.intfLibs = append(nd.intfLibs, libNames[x.r.Intn(len(libNames))])
		}
	}
	self := false
	if cyclic {
		ring := x.r.Perm(n)
		l := 2 + x.r.Intn(n)
		if l > n || x.r.Intn(6) == 0 {
			l = n
		}
		if x.r.Intn(6) == 0 {
			l = 1
		}
		for q := 0; q < l; q++ {
			a, b := ring[q], ring[(q+1)%l]
			if hasInt(nodes[a].intf, b) {
				continue
			}
			at := x.r.Intn(len(nodes[a].intf) + 1)
			nodes[a].intf = append(append(append([]int{}, nodes[a].intf[:at]...), b), nodes[a].intf[at:]...)
			for k, v := range nodes[a].impl {
				if v == b {
					nodes[a].impl = append(nodes[a].impl[:k:k], nodes[a].impl[k+1:]...)
					break
				}
			}
		}
		self = l == 1
	}
	cyc := hasCycle(nodes, func(g *gnode) []int { return g.intf })
	recs := func(s string) string { return recase(s, x.r.Intn(5), x.r) }
	for i, nd := range nodes {
		var b strings.Builder
		fmt.Fprintf(&b, "unit %s;\ninterface\n", recs(nd.name))
		var items []string
		for _, j := range nd.intf {
			items = append(items, recs(nodes[j].name))
		}
		for _, l := range nd.intfLibs {
			items = append(items, l)
		}
		if len(items) > 0 {
			fmt.Fprintf(&b, "uses %s;\n", strings.Join(items, ", "))
		}
		fmt.Fprintf(&b, "type T%d = (e%d_a, e%d_b);\n", i, i, i)
		for _, j := range nd.intf {
			if j != i {
				fmt.Fprintf(&b, "  X%d_%d = T%d; Y%d_%d = %s.T%d; Z%d_%d = array[T%d] of Byte;\n", i, j, j, i, j, recs(nodes[j].name), j, i, j, j)
			}
		}
		fmt.Fprintf(&b, "const c%d = 1;\n", i)
		for _, j := range nd.intf {
			if j != i {
				fmt.Fprintf(&b, "  k%d_%d = c%d + %s.c%d;\n", i, j, j, recs(nodes[j].name), j)
			}
		}
		b.WriteString("implementation\n")
		items = nil
		for _, j := range nd.impl {
			items = append(items, recs(nodes[j].name))
		}
		if len(items) > 0 {
			fmt.Fprintf(&b, "uses %s;\n", strings.Join(items, ", "))
		}
		for _, j := range nd.impl {
			fmt.Fprintf(&b, "var m%d_%d: %s.T%d; n%d_%d: T%d;\nconst h%d_%d = %s.c%d * c%d;\n", i, j, recs(nodes[j].name), j, i, j, j, i, j, recs(nodes[j].name), j, j)
		}
		b.WriteString("end.\n")
		putText(nd.path, b.String())
		x.input(nd.path, b.String())
	}
	uses := x.r.Perm(n)
	var b strings.Builder
	b.WriteString("program Main;\nuses\n")
	for k, i := range uses {
		if k > 0 {
			b.WriteString(",\n")
		}
		if x.r.Intn(6) == 0 {
			fmt.Fprintf(&b, " Lib%d,", k)
		}
		pt := nodes[i].path
		if x.r.Intn(3) == 0 {
			pt = strings.ReplaceAll(pt, "/", "\\")
		}
		fmt.Fprintf(&b, "  %s in '%s'", recs(nodes[i].name), pt)
	}
	b.WriteString(";\nbegin\nend.\n")
	putText("main.dpr", b.String())
	x.input("main.dpr", b.String())
	os.MkdirAll("sub", 0755)
	os.MkdirAll("d2", 0755)
	ow := watchOpens(w, filepath.Join(w, "sub"), filepath.Join(w, "d2"))
	res, err := x.parseFile("main.dpr")
	deps := 0
	for _, nd := range nodes {
		deps += len(nd.intf) + len(nd.impl)
	}
	x.eval(b.String(), n > 1 && deps > 0)
	x.count("units", n)
	x.count("dependencies", deps)
	if ow != nil {
		if ev, ok := ow.read(); ok {
			for _, nd := range nodes {
				k := ev[filepath.Join(w, nd.path)]
				x.count("unit files opened", k)
				if k > 1 {
					x.fail("the file of unit %s was opened %d times", nd.name, k)
				}
				if k == 0 && err == nil {
					x.fail("the file of unit %s was never opened", nd.name)
				}
			}
			x.feat("event logs read")
		}
	} else {
		x.count("unit files opened", 1)
		x.feat("no inotify")
	}
	if cyc {
		if err == nil {
			x.fail("interfaces that use each other in a cycle are accepted")
		}
		if self {
			x.feat("self use rejected")
		} else {
			x.feat("interface cycle rejected")
		}
		return
	}
	if err != nil {
		x.fail("a project without cycles of interfaces is rejected: %v", err)
	}
	x.feat("acyclic graph accepted")
	if hasCycle(nodes, func(g *gnode) []int { return append(append([]int{}, g.intf...), g.impl...) }) {
		x.feat("implementation cycle")
	}
	if len(res.Units) != n {
		x.fail("%d units in the result, %d in the uses clause", len(res.Units), n)
	}
	byNode := map[int]*ast.Unit{}
	for k, i := range uses {
		u := res.Units[k]
		if !strings.EqualFold(u.Ident.Name, nodes[i].name) {
			x.fail("unit %d of the result is %s, the uses clause has %s there", k, u.Ident.Name, nodes[i].name)
		}
		for o, v := range byNode {
			if v == u {
				x.fail("units %s and %s are the same in the result", nodes[o].name, nodes[i].name)
			}
		}
		byNode[i] = u
	}
	items := func(where string, uc ast.UsesClause) {
		for _, it := range uc {
			var want *ast.Unit
			for i, nd := range nodes {
				if strings.EqualFold(nd.name, it.Ident.Name) {
					want = byNode[i]
				}
			}
			if it.Unit != want {
				x.fail("the item %s of the uses clause of %s is attached to another unit (%v)", it.Ident.Name, where, it.Unit != nil)
			}
		}
	}
	items("the program", res.Program.ProgramBlock.UsesClause)
	for i, u := range byNode {
		nd := nodes[i]
		items(nd.name+" (interface)", u.InterfaceSection.UsesClause)
		items(nd.name+" (implementation)", u.ImplementationSection.UsesClause)
		x.graphRefs(nodes, byNode, i, u)
	}
	if n < 4 {
		x.sample(b.String())
	}
	if x.r.Intn(8) == 0 {
		x.wrongNames(nodes, b.String())
	}
}

// wrongNames has a project where a unit file has the name of another unit, or is named twice: an error.
func (x *ctx) wrongNames(nodes []*gnode, main string) {
	nd := nodes[x.r.Intn(len(nodes))]
	what := ""
	switch x.r.Intn(3) {
	case 0:
		what = "the same unit file twice"
		main = strings.Replace(main, ";\nbegin", ", "+nd.name+" in '"+nd.path+"';\nbegin", 1)
	case 1:
		what = "two unit files of the same unit name"
		putText("twin.pas", "unit "+recase(nd.name, 1, x.r)+"; interface const tw = 1; implementation end.")
		it := "twin in 'twin.pas'"
		if x.r.Intn(2) == 0 {
			it = nd.name + " in 'twin.pas'"
		}
		main = strings.Replace(main, ";\nbegin", ", "+it+";\nbegin", 1)
	case 2:
		what = "unit file of another name"
		put("other.pas", []byte("unit Another; interface const tw = 1; implementation end."))
		main = strings.Replace(main, ";\nbegin", ", twin in 'other.pas';\nbegin", 1)
	}
	putText("main.dpr", main)
	x.input("main.dpr", main)
	x.feat(what)
	if _, err := x.parseFile("main.dpr"); err == nil {
		x.fail("%s: accepted", what)
	}
}

// graphRefs checks that the names of used units were known when the unit was parsed.
func (x *ctx) graphRefs(nodes []*gnode, by map[int]*ast.Unit, i int, u *ast.Unit) {
	owner := func(n interface{}) *ast.Unit {
		for _, v := range by {
			for _, s := range v.InterfaceSection.InterfaceDecls {
				if ts, ok := s.(ast.TypeSection); ok {
					for _, td := range ts {
						if interface{}(td) == n {
							return v
						}
					}
				}
			}
		}
		return nil
	}
	n := 0
	for _, s := range u.InterfaceSection.InterfaceDecls {
		ts, ok := s.(ast.TypeSection)
		if !ok {
			continue
		}
		for _, td := range ts {
			id, ok := td.Type.(*ast.TypeId)
			if !ok {
				continue
			}
			var a, b int
			fmt.Sscanf(td.Ident.Name[1:], "%d_%d", &a, &b)
			if id.Ref == nil || owner(id.Ref.Node) != by[b] {
				x.fail("in unit %s the type %s does not refer to the declaration in unit %s", nodes[i].name, td.Ident.Name, nodes[b].name)
			}
			n++
		}
	}
	x.count("references into used units", n)
}

func hasInt(l []int, v int) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func hasCycle(nodes []*gnode, next func(*gnode) []int) bool {
	st := make([]int, len(nodes))
	var visit func(int) bool
	visit = func(i int) bool {
		if st[i] == 1 {
			return true
		}
		if st[i] == 2 {
			return false
		}
		st[i] = 1
		for _, j := range next(nodes[i]) {
			if visit(j) {
				return true
			}
		}
		st[i] = 2
		return false
	}
	for i := range nodes {
		if visit(i) {
			return true
		}
	}
	return false
}

// ---- P22

var multiByte = regexp.MustCompile(`[^\x00-\x7f]`)

func (x *ctx) fileCase() {
	_, done := x.scratch()
	defer done()
	switch {
	case x.k%400 == 13 || x.k == 5:
		x.hugeFile()
	case x.k%200 == 14:
		x.allChars()
	case x.k%12 == 7 || x.k%12 == 10:
		x.rawFile()
	case x.k%12 == 1:
		x.bigFile()
	case x.k%12 == 2 && strace != "":
		x.injectFault()
	case x.k%3 == 0:
		x.faultCase()
	case x.k%3 == 1: // one file against its text
		c := x.cfg("program")
		c.style.sjis = true
		c.size += 40
		m := makeMem(x.r.Int63(), c)
		st := randStyle(x.r)
		st.sjis = true
		if x.r.Intn(3) == 0 {
			st.layout = 2
		}
		st.eol = x.r.Intn(4)
		rd := m.render(x.r, st)
		x.fileEqText("p.dpr", rd)
	default:
		p := x.makeProject(x.r.Int63(), 20+x.r.Intn(120), 1+x.r.Intn(4), false)
		if x.r.Intn(3) == 0 { // absolute paths
			wd, _ := os.Getwd()
			old := p.g.prefix
			_ = old
			abs := filepath.ToSlash(wd) + "/"
			for i, t := range p.pr.prog.toks {
				for _, u := range p.pr.units {
					if t.kind == 'q' && (t.text == "'"+u.file.path+"'" || t.text == "'"+strings.ReplaceAll(u.file.path, "/", "\\")+"'") {
						p.pr.prog.toks[i].text = "'" + abs + t.text[1:]
					}
				}
			}
			p.g.prefix = abs
			x.feat("absolute path")
		}
		p.eol = x.r.Intn(4)
		p.renderAll(x)
		p.write(x)
		for _, t := range p.rds["P"].texts {
			if strings.HasPrefix(t, "'") && strings.Contains(t, "\\") {
				x.feat("back slash in a path")
			}
			if strings.HasPrefix(t, "'") && strings.ContainsAny(t, "\\/") {
				x.feat("path in another directory")
			}
		}
		got := x.loadProject(p)
		want := p.wants()
		for i, f := range p.pr.files() {
			if got[i] != want[i] {
				x.fail("%s: %s", f.path, diffText(want[i], got[i]))
			}
			x.noteFile(p.rds[f.tag].text)
		}
	}
}

func (x *ctx) noteFile(text []rune) {
	switch s := string(text); {
	case strings.Contains(s, "\r") && !strings.Contains(s, "\n"):
		x.feat("file with CR line ends only")
	case strings.Contains(s, "\n") && strings.Count(s, "\n") == strings.Count(s, "\r\n"):
		x.feat("file with CRLF line ends only")
	case strings.Contains(s, "\n") && !strings.Contains(s, "\r"):
		x.feat("file with LF line ends only")
	}
	mb := multiByte.MatchString(string(text))
	x.eval(string(text), mb && len(text) >= 100)
	x.count("files equal to their text", 1)
	x.count("bytes read from files", len(string(text)))
	if mb {
		x.count("multi-byte files", 1)
	}
}

// fileEqText compares the parse of a file with that of its text.
func (x *ctx) fileEqText(path string, rd *rendered) {
	b, ok := sjisOf(rd.text)
	if !ok {
		return
	}
	put(path, b)
	x.only(path, string(rd.text))
	res, err := x.parseFile(path)
	o := parseMode("program", rd.text)
	if (err != nil) != (o.err != nil) {
		x.fail("from the file: error %v; from its text: error %v", err, o.err)
	}
	if err != nil {
		if strings.ReplaceAll(err.Error(), path, "p.dpr") != o.err.Error() {
			x.fail("from the file: error %v; from its text: error %v", err, o.err)
		}
		return
	}
	d := NewDumper()
	d.computed = true
	d.AddSource("P", rd.toks)
	got := d.Dump(dumpPart{"P", res.Program})[0]
	if want := dumpOne("P", rd.toks, o, true); got != want {
		x.fail("%s", diffText(want, got))
	}
	if strings.Contains(got, "?") && strings.Contains(got, "?at") {
		x.fail("a position in the file's result is wrong: %s", clip(got, 500))
	}
	x.noteFile(rd.text)
	if len(rd.text) < 1200 {
		x.sample(path + ": " + string(rd.text) + "\n=> " + clip(got, 800))
	}
}

// allChars: every character that Shift_JIS has, in strings and comments.
func (x *ctx) allChars() {
	var chars []rune
	for c := rune(0); c < 0x10000; c++ {
		if c == '\'' || c == '\\' || c == '}' || c >= 0xD800 && c < 0xE000 {
			continue
		}
		if _, ok := sjisOf([]rune{c}); ok {
			chars = append(chars, c)
		}
	}
	x.r.Shuffle(len(chars), func(i, j int) { chars[i], chars[j] = chars[j], chars[i] })
	t := []gtok{{"program", 'k'}, {"All", 'i'}, {";", 's'}, {"const", 'k'}}
	for i, n := 0, 0; i < len(chars); n++ {
		j := i + 1 + x.r.Intn(60)
		if j > len(chars) {
			j = len(chars)
		}
		t = append(t, gtok{"c" + itoa(n), 'i'}, gtok{"=", 's'}, gtok{"'" + string(chars[i:j]) + "'", 'q'}, gtok{";", 's'})
		i = j
	}
	t = append(t, gtok{"begin", 'k'}, gtok{"end", 'k'}, gtok{".", 's'})
	rd := render(t, x.r, style{layout: 1 + x.r.Intn(2), sjis: true})
	if _, ok := sjisOf(rd.text); !ok {
		x.fail("harness: not encodable")
	}
	x.fileEqText("all.dpr", rd)
	x.count("characters of Shift_JIS in one file", len(chars))
	x.feat("all characters of Shift_JIS")
}

// rawFile: bytes that are no clean Shift_JIS text, marks of other encodings and
// control characters at either end: what counts is the decoded text.
func (x *ctx) rawFile() {
	c := x.cfg("program")
	c.style.sjis = true
	m := makeMem(x.r.Int63(), c)
	st := randStyle(x.r)
	st.sjis = true
	clean, ok := sjisOf(m.render(x.r, st).text)
	if !ok {
		return
	}
	heads := []string{"\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "\x1a", "\x00", "\f", " ", "\x81\x40", "\xa0", "\x80", "#!x", "\ufeff"}
	tails := []string{"\x1a", "\x1a\x1a\x1a", "\x00\x00", "\n", "\r", "}", "'", "\x81", "\xef\xbb\xbf", " end.", "\xff", "\\"}
	noise := []string{"\x80", "\xa0", "\xff", "\xfd", "\x81", "\x81\x81", "\xef\xbb\xbf", "\x1a", "\x00", "\x85", "\x1b$B", "\xe3\x81\x82", "\x82\xa0", "\x5c", "\x7e", "\xf0\x40", "\xed\x40", "\xfa\x40", "\x87\x40"}
	b := append([]byte{}, clean...)
	how := x.r.Intn(4)
	if how == 0 || how == 3 {
		b = append([]byte(heads[x.r.Intn(len(heads))]), b...)
		x.feat("bytes before the text")
	}
	if how == 1 || how == 3 {
		b = append(b, tails[x.r.Intn(len(tails))]...)
		x.feat("bytes after the text")
	}
	if how >= 2 {
		for i := x.r.Intn(3); i >= 0; i-- {
			at := x.r.Intn(len(b) + 1)
			b = append(append(append([]byte{}, b[:at]...), noise[x.r.Intn(len(noise))]...), b[at:]...)
		}
		x.feat("damaged bytes")
	}
	dec, err := japanese.ShiftJIS.NewDecoder().Bytes(b)
	if err != nil {
		x.fail("harness: %v", err)
	}
	text := []rune(string(dec))
	if len(text) == 0 || text[0] == '\n' {
		return
	}
	put("raw.dpr", b)
	x.only("raw.dpr (bytes)", fmt.Sprintf("%q", b))
	res, err := x.parseFile("raw.dpr")
	o := parseMode("program", text)
	if (err != nil) != (o.err != nil) {
		x.fail("from the file: error %v; from its decoded text: error %v", err, o.err)
	}
	x.count("files equal to their text", 1)
	if err != nil {
		if strings.ReplaceAll(err.Error(), "raw.dpr", "p.dpr") != o.err.Error() {
			x.fail("from the file: error %v; from its decoded text: error %v", err, o.err)
		}
		x.eval(string(b), false)
		return
	}
	toks := sigToks(text)
	d := NewDumper()
	d.computed = true
	d.AddSource("P", toks)
	got := d.Dump(dumpPart{"P", res.Program})[0]
	if want := dumpOne("P", toks, o, true); got != want {
		x.fail("%s", diffText(want, got))
	}
	x.eval(string(b), true)
	x.feat("file with other bytes accepted")
	// as a unit file
	main := "program Main;\nuses U in 'u.pas';\nbegin\nend.\n"
	utext := "unit U;\ninterface\nconst c = 1;\nimplementation\nend."
	h, t := "", ""
	if x.r.Intn(2) == 0 {
		h = heads[x.r.Intn(len(heads))]
	} else {
		t = tails[x.r.Intn(len(tails))]
	}
	b = []byte(h + utext + t)
	put("main.dpr", []byte(main))
	put("u.pas", b)
	x.only("main.dpr", main)
	x.input("u.pas (bytes)", fmt.Sprintf("%q", b))
	dec, _ = japanese.ShiftJIS.NewDecoder().Bytes(b)
	_, err = x.parseFile("main.dpr")
	o = parseMode("unit", []rune(string(dec)))
	if (err != nil) != (o.err != nil) {
		x.fail("unit from the file: error %v; from its decoded text: error %v", err, o.err)
	}
}

// hugeFile: what stands after many megabytes is still read, at its place.
func (x *ctx) hugeFile() {
	n := 1 << 20 * (5 + x.r.Intn(15))
	if x.thoroughRun() && x.r.Intn(4) == 0 {
		n = 1 << 20 * (20 + x.r.Intn(60))
	}
	line := []string{"0123456789 abcdef\n", "表示 ソート 能力 abcdef\r\n", "xyz ", "能"}[x.r.Intn(4)]
	var b strings.Builder
	for b.Len() < n {
		b.WriteString(line)
	}
	fill := "{" + b.String() + "}"
	tail := "var last: Integer;\n"
	src := map[string]string{
		"p.dpr": "program P;\n" + fill + tail + "begin\n  last := 1;\nend.\n",
		"u.pas": "unit u;\ninterface\n" + fill + tail + "implementation\nend.\n",
		"q.dpr": "program Q;\nuses u in 'u.pas';\nbegin\n  last := 1;\nend.\n",
	}
	x.only("files", fmt.Sprintf("p.dpr, u.pas with %d bytes of comment made of %q; q.dpr uses u.pas", b.Len(), line))
	for _, f := range []string{"p.dpr", "u.pas", "q.dpr"} {
		s, ok := sjisOf([]rune(src[f]))
		if !ok {
			x.fail("harness: not encodable")
		}
		put(f, s)
	}
	at := func(f string, id *ast.Ident) {
		text := src[f]
		i := strings.Index(text, "last")
		before := []rune(text[:i])
		l := 1 + strings.Count(text[:i], "\n")
		c := len([]rune(text[strings.LastIndex(text[:i], "\n")+1:i])) + 1
		if p := id.Location.Start; id.Name != "last" || p.Index != len(before) || p.Line != l || p.Col != c {
			x.fail("%s: %q at %d:%d (%d), expected last at %d:%d (%d)", f, id.Name, p.Line, p.Col, p.Index, l, c, len(before))
		}
		x.eval(fmt.Sprint(f, n, line), true)
	}
	a, err := parser.ParseProgram("p.dpr")
	if err != nil {
		x.fail("p.dpr: %s", clip(err.Error(), 300))
	}
	if len(a.ProgramBlock.Block.DeclSections) != 1 || a.ProgramBlock.Block.Body == nil {
		x.fail("p.dpr: what follows the comment is missing")
	}
	at("p.dpr", a.ProgramBlock.Block.DeclSections[0].(ast.VarSection)[0].IdentList[0])
	q, err := parser.ParseProgram("q.dpr")
	if err != nil {
		x.fail("q.dpr: %s", clip(err.Error(), 300))
	}
	if len(q.Units) != 1 || len(q.Units[0].InterfaceSection.InterfaceDecls) != 1 {
		x.fail("u.pas: what follows the comment is missing")
	}
	at("u.pas", q.Units[0].InterfaceSection.InterfaceDecls[0].(ast.VarSection)[0].IdentList[0])
	x.feat("file of many megabytes")
	x.maxOf("largest file (bytes)", len(src["p.dpr"]))
}

// bigFile: multi-byte characters lie across every boundary of whatever blocks
// the file is read in.
func (x *ctx) bigFile() {
	n := 3000 + x.r.Intn(30000)
	if x.k%36 == 1 {
		n = 400000 + x.r.Intn(400000)
	}
	words := []string{"表示", "ソ", "a", "データ", "値1", "x", "ｱｲｳ", "能", "zz", "十", "―", "～"}
	var t []gtok
	add := func(kind byte, s ...string) {
		for _, w := range s {
			t = append(t, gtok{w, kind})
		}
	}
	add('k', "program")
	add('i', "Big")
	add('s', ";")
	add('k', "const")
	size := 0
	for i := 0; size < n; i++ {
		w := "c" + itoa(i)
		add('i', w)
		add('s', "=")
		var b strings.Builder
		for j, c := 0, 1+x.r.Intn(40); j < c; j++ {
			b.WriteString(words[x.r.Intn(len(words))])
		}
		s := b.String()
		if s, ok := sjisOf([]rune(s)); !ok || strings.Contains(string(s), "?") {
			continue
		}
		add('q', "'"+s+"'")
		add('s', ";")
		size += len(s) + 10
	}
	add('i', "last")
	add('s', "=")
	add('n', "1")
	add('s', ";")
	add('k', "begin", "end")
	add('s', ".")
	// drop incomplete items (a name without its string)
	var u []gtok
	for i := 0; i < len(t); i++ {
		if t[i].kind == 'i' && i+2 < len(t) && t[i+1].text == "=" && t[i+2].kind == 'i' {
			i++
			continue
		}
		u = append(u, t[i])
	}
	lay := 1
	if n < 50000 {
		lay = 2
	}
	rd := render(u, x.r, style{layout: lay, sjis: true})
	x.fileEqText("big.dpr", rd)
	x.feat("large file")
	x.maxOf("largest file (characters)", len(rd.text))
	// the same as a unit file
	p := "program Main;\nuses Big in 'big.pas';\nbegin\nend.\n"
	for i, tk := range u {
		if tk.text == "program" {
			u[i].text = "unit"
		}
	}
	v := append([]gtok{}, u[:3]...)
	v = append(v, gtok{"interface", 'k'})
	v = append(v, u[3:len(u)-3]...)
	v = append(v, gtok{"implementation", 'k'}, gtok{"end", 'k'}, gtok{".", 's'})
	rd = render(v, x.r, style{layout: lay, sjis: true})
	b, ok := sjisOf(rd.text)
	if !ok {
		return
	}
	put("big.pas", b)
	put("main.dpr", []byte(p))
	x.only("main.dpr", p)
	x.input("big.pas", clip(string(rd.text), 100000))
	res, err := x.parseFile("main.dpr")
	if err != nil {
		x.fail("a large unit file is rejected: %v", err)
	}
	o := parseMode("unit", rd.text)
	if o.err != nil {
		x.fail("the text of a large unit is rejected: %v", o.err)
	}
	d := NewDumper()
	d.AddSource("U", rd.toks)
	got := d.Dump(dumpPart{"U", res.Units[0]})[0]
	if want := dumpOne("U", rd.toks, o, false); got != want {
		x.fail("%s", diffText(want, got))
	}
	x.noteFile(rd.text)
}

var faults = []string{"missing", "directory", "dangling link", "link loop", "unreadable", "missing directory", "file as directory"}

func makeFault(kind, path string) {
	os.RemoveAll(path)
	switch kind {
	case "missing":
	case "directory":
		os.MkdirAll(path, 0755)
	case "dangling link":
		os.Symlink("no-such-file", path)
	case "link loop":
		os.Symlink(filepath.Base(path), path)
	case "unreadable": // opens, but cannot be read
		os.Symlink("/proc/self/mem", path)
	case "missing directory":
	case "file as directory":
	}
}

// faultCase: the program or one of the units cannot be read.
func (x *ctx) faultCase() {
	p := x.makeProject(x.r.Int63(), 10+x.r.Intn(30), 1+x.r.Intn(4), false)
	p.renderAll(x)
	p.write(x)
	kind := faults[x.r.Intn(len(faults))]
	who := x.r.Intn(len(p.pr.units) + 1)
	path := p.pr.prog.path
	if who > 0 {
		path = p.pr.units[who-1].file.path
	}
	start := p.pr.prog.path
	switch kind {
	case "missing directory":
		if who > 0 {
			kind = "missing"
			makeFault(kind, path)
		} else {
			start = "nodir/" + start
			path = start
		}
	case "file as directory":
		if who > 0 {
			kind = "missing"
			makeFault(kind, path)
		} else {
			start = start + "/x.dpr"
			path = start
		}
	default:
		makeFault(kind, path)
	}
	x.input("fault", kind+" in place of "+path)
	res, err := parser.ParseProgram(start)
	x.eval(fmt.Sprint(kind, who, x.k), true)
	x.feat("fault: " + kind)
	if err == nil {
		x.fail("no error although %s cannot be read (%s)", path, kind)
	}
	if res != nil {
		x.fail("a result besides the error %v", err)
	}
	if !strings.Contains(err.Error(), path) && !strings.Contains(err.Error(), filepath.Clean(path)) {
		x.fail("the error does not name the file %s (%s): %v", path, kind, err)
	}
}

// ---- read errors in the middle of a file, injected by strace

var strace string

func (x *ctx) injectProbe() {
	strace = ""
	s, err := exec.LookPath("strace")
	if err != nil {
		return
	}
	put("probe.dpr", []byte("program P;\nbegin\nend.\n"))
	self, _ := os.Executable()
	out, err := exec.Command(s, "-f", "-qq", "-o", "/dev/null", "-P", "probe.dpr", "-e", "trace=read,pread64,readv,openat", "-e", "inject=read:error=EIO:when=1", self, "parsefile", "probe.dpr").Output()
	if err == nil && strings.HasPrefix(string(out), "ERR ") && strings.Contains(string(out), "input/output error") {
		strace = s
	}
}

func (x *ctx) injectFault() {
	p := x.makeProject(x.r.Int63(), 10+x.r.Intn(30), 1+x.r.Intn(2), false)
	p.renderAll(x)
	p.write(x)
	who := x.r.Intn(len(p.pr.units) + 1)
	path := p.pr.prog.path
	if who > 0 {
		path = p.pr.units[who-1].file.path
	}
	when := 1 + x.r.Intn(2)
	// a file long enough to need several reads
	f, err := os.OpenFile(path, os.O_APPEND|os.O_WRONLY, 0644)
	if err != nil {
		panic(err)
	}
	f.WriteString("\n" + strings.Repeat("{ 0123456789 }\n", 2000))
	f.Close()
	if x.r.Intn(2) == 0 {
		when += 1 + x.r.Intn(4)
	}
	self, _ := os.Executable()
	x.input("fault", fmt.Sprintf("read %d of %s fails", when, path))
	cmd := exec.Command(strace, "-f", "-o", "trace.log", "-P", path, "-e", "trace=read,pread64,readv", "-e", fmt.Sprintf("inject=read:error=EIO:when=%d", when), self, "parsefile", p.pr.prog.path)
	out, err := cmd.Output()
	log, _ := ioutil.ReadFile("trace.log")
	if err != nil || !strings.Contains(string(log), "INJECTED") {
		x.count("injections that did not hit a read", 1)
		return
	}
	x.eval(fmt.Sprint("inject", who, when, x.k), true)
	x.feat("fault: read error in the middle")
	if !strings.HasPrefix(string(out), "ERR ") {
		x.fail("read %d of %s fails, but parsing gives no error: %s", when, path, clip(string(out), 300))
	}
	if !strings.Contains(string(out), filepath.Base(path)) {
		x.fail("the error does not name the file %s: %s", path, clip(string(out), 300))
	}
}

func parseFileMain(path string) {
	res, err := parser.ParseProgram(path)
	if err != nil {
		fmt.Println("ERR", err)
		return
	}
	fmt.Println("OK", res.Program.Ident.Name, len(res.Units))
}
