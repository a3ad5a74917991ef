package main

// P13: what is not in the grammar is rejected, and the error tells where.

import (
	"regexp"
	"strconv"
	"strings"
)

var rePlaced = regexp.MustCompile(`(?s)^.*( at ([^\n]*?):(\d+):(\d+))$`)
var reSyntax = regexp.MustCompile(`^(expects|unexpected|Unsupported|Expected|expected) `)

// wrapped draws a source of a program or unit, with some construct in the focus.
func (x *ctx) wrapped() (mode string, toks []gtok) {
	c := x.cfg("program", "unit", "expr", "expr", "stmt", "stmt", "stmt", "type", "type", "typesec", "typesec", "varsec", "constsec", "threadvarsec", "block", "block", "heading")
	c.style.sjis = true
	m := makeMem(x.r.Int63(), c)
	if len(m.f.toks) > 1500 {
		// the recognizer's work grows faster than the text
		c.noGiant = true
		m = makeMem(x.r.Int63(), c)
	}
	t := m.f.toks
	if m.trail != "" {
		t = t[:len(t)-1]
	}
	x.feats(m.g.feats)
	k := func(s string) gtok { return gtok{s, 'k'} }
	y := func(s string) gtok { return gtok{s, 's'} }
	i := func(s string) gtok { return gtok{s, 'i'} }
	cat := func(ls ...[]gtok) (out []gtok) {
		for _, l := range ls {
			out = append(out, l...)
		}
		return
	}
	head := []gtok{k("program"), i("prg"), y(";")}
	tail := []gtok{k("begin"), k("end"), y(".")}
	switch c.mode {
	case "program", "unit":
		return c.mode, t
	case "expr":
		return "program", cat(head, []gtok{k("begin"), i("zz"), y(":=")}, t, []gtok{k("end"), y(".")})
	case "stmt":
		return "program", cat(head, []gtok{k("begin")}, t, []gtok{k("end"), y(".")})
	case "type":
		return "program", cat(head, []gtok{k("var"), i("zz"), y(":")}, t, []gtok{y(";")}, tail)
	case "typesec", "varsec", "constsec", "threadvarsec":
		if x.r.Intn(3) == 0 {
			return "unit", cat([]gtok{k("unit"), i("unt"), y(";"), k("interface")}, t, []gtok{k("implementation"), k("end"), y(".")})
		}
		return "program", cat(head, t, tail)
	case "block":
		return "program", cat(head, t, []gtok{y(".")})
	case "heading":
		return "unit", cat([]gtok{k("unit"), i("unt"), y(";"), k("interface")}, t, []gtok{k("implementation"), k("end"), y(".")})
	}
	panic(c.mode)
}

func init() {
	register(&check{id: "P13", quick: 12000, thorough: 500000, limit: 120,
		rule:   "generated programs and units (all constructs), each unchanged and with tokens or parts deleted, inserted, doubled, copied, replaced, swapped, moved or cut off, in memory and as a unit file of a project; a recognizer of the grammar with sets of positions, independent of the parser, decides which of them are no sentences: these must be rejected; an error that tells a place must tell the file and exact position of a token of the source that it quotes, not before the first change and not after the furthest token the grammar lets one reach; non-trivial: changed sources",
		assume: []string{"the recognizer is a superset of the accepted language (checked by its accepting all generated sources and everything the parser accepts on the unchanged tree)"},
		need:   []string{"token deleted", "token inserted", "token replaced", "tokens swapped", "token doubled", "text cut", "part removed", "part doubled", "part copied", "no sentence: rejected", "error with place", "place at the first change", "damaged unit file"},
		run:    func(x *ctx) { x.badCase() }})
}

func (x *ctx) badCase() {
	if x.k%12 == 5 {
		x.badUnitFile()
		return
	}
	mode, toks := x.wrapped()
	path := "p.dpr"
	if mode == "unit" {
		path = "u.pas"
	}
	st := randStyle(x.r)
	rd := render(toks, x.r, st)
	g := newRecog(rd.text)
	x.only("mode", mode)
	x.input("text", string(rd.text))
	if !g.accepts(mode) {
		x.fail("harness: the recognizer rejects a generated source at token %d", g.far)
	}
	if o := parseMode(mode, rd.text); o.err != nil {
		x.fail("a source of the grammar is rejected: %v", o.err)
	}
	x.eval(string(rd.text), false)
	for v := 0; v < 6; v++ {
		mt, what := mutToks(x.r, toks, toks)
		mr := render(mt, x.r, st)
		if len(mr.text) > 0 && mr.text[0] == '\n' {
			continue
		}
		x.only("mode", mode)
		x.input("text", string(mr.text))
		o := parseMode(mode, mr.text)
		if o.err == nil && o.node == nil {
			x.fail("neither a result nor an error")
		}
		x.feat(what)
		x.judge(mode, path, toks, mr.text, o.err)
	}
}

// judge compares the verdict on a changed source with the recognizer's.
func (x *ctx) judge(mode, path string, toks []gtok, text []rune, err error) {
	g := newRecog(text)
	ok := g.accepts(mode)
	x.eval(mode+string(text), true)
	if err == nil {
		if !ok {
			at := "the end of the text"
			if g.far < len(g.toks) {
				t := g.toks[g.far].pos
				at = "token " + t.text + " at " + strconv.Itoa(t.line) + ":" + strconv.Itoa(t.col)
			}
			x.fail("accepted, but this is no sentence of the grammar (possible up to %s)", at)
		}
		x.feat("still a sentence: accepted")
		return
	}
	if !ok {
		x.feat("no sentence: rejected")
	} else {
		x.feat("a sentence for the recognizer: rejected")
	}
	msg := err.Error()
	m := rePlaced.FindStringSubmatch(msg)
	if m == nil {
		if reSyntax.MatchString(msg) {
			x.fail("a syntax error does not tell its place: %s", msg)
		}
		return
	}
	if m[2] != path {
		x.fail("the error tells file %q, it is in %q: %s", m[2], path, msg)
	}
	ord, quoted := x.place(g, text, msg, m)
	x.feat("error with place")
	if !reSyntax.MatchString(msg) || strings.HasPrefix(msg, "Expected OrdinalType") {
		return
	}
	k := 0
	for k < len(g.toks) && k < len(toks) && strings.EqualFold(g.toks[k].pos.text, toks[k].text) {
		k++
	}
	if ord < k {
		x.fail("the error is at token %d (%s), but everything before token %d is as in an accepted source: %s", ord, quoted, k, msg)
	}
	if ord > g.far {
		x.fail("the error is at token %d (%s), but the grammar is left at token %d at the latest: %s", ord, quoted, g.far, msg)
	}
	if ord == k {
		x.feat("place at the first change")
	}
	if !ok && ord == g.far {
		x.feat("place at the furthest token")
	}
}

// place tells the token at the place an error names.
func (x *ctx) place(g *recog, text []rune, msg string, m []string) (ord int, quoted string) {
	l, _ := strconv.Atoi(m[3])
	c, _ := strconv.Atoi(m[4])
	ord = -1
	for i, t := range g.toks {
		if t.pos.line == l && t.pos.col == c {
			ord, quoted = i, t.pos.text
		}
	}
	if ord < 0 {
		ln, cl := positions(text)
		if ln[len(text)] != l || cl[len(text)] != c {
			x.fail("the error tells a place where no token starts: %s", msg)
		}
		ord = len(g.toks)
	}
	if !strings.Contains(msg[:len(msg)-len(m[1])], quoted) && reSyntax.MatchString(msg) && !strings.HasPrefix(msg, "Expected OrdinalType") {
		x.fail("the error tells the place of %q, but does not quote it: %s", quoted, msg)
	}
	return
}

// badUnitFile damages one unit file of a project.
func (x *ctx) badUnitFile() {
	p := x.makeProject(x.r.Int63(), 5+x.r.Intn(40), 1+x.r.Intn(3), false)
	_, done := x.scratch()
	defer done()
	x.inputs = map[string]string{}
	p.renderAll(x)
	p.write(x)
	for v := 0; v < 3; v++ {
		f := p.pr.files()[x.r.Intn(len(p.pr.files()))]
		mt, what := mutToks(x.r, f.toks, f.toks)
		st := randStyle(x.r)
		st.sjis = true
		mr := render(mt, x.r, st)
		b, ok := sjisOf(mr.text)
		if !ok || len(mr.text) > 0 && mr.text[0] == '\n' {
			continue
		}
		put(f.path, b)
		x.input(f.path, string(mr.text))
		_, err := x.parseFile(p.pr.prog.path)
		x.feat(what)
		mode, path := "unit", p.g.prefix+f.path
		if f == p.pr.prog {
			mode, path = "program", f.path
		}
		if err != nil {
			if m := rePlaced.FindStringSubmatch(err.Error()); m != nil && m[2] != path && m[2] != "" {
				// what another file says about the changed one
				ok := false
				for _, o := range p.pr.files() {
					op := p.g.prefix + o.path
					if o == p.pr.prog {
						op = o.path
					}
					if op == m[2] && o != f {
						ot := p.rds[o.tag].text
						x.place(newRecog(ot), ot, err.Error(), m)
						ok = true
					}
				}
				if !ok {
					x.fail("the error tells file %q, which is none of the project: %v", m[2], err)
				}
				x.feat("error in another file")
				x.eval(mode+string(mr.text), true)
				b, _ := sjisOf(p.rds[f.tag].text)
				put(f.path, b)
				x.input(f.path, string(p.rds[f.tag].text))
				continue
			}
		}
		x.judge(mode, path, f.toks, mr.text, err)
		x.feat("damaged unit file")
		b, _ = sjisOf(p.rds[f.tag].text)
		put(f.path, b)
		x.input(f.path, string(p.rds[f.tag].text))
	}
}
