package main

// P04 layout, P05 letter case, P07-P12 trees of the constructs, P14 names,
// P17 forward types, P18 properties.

import (
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
)

var reLC = regexp.MustCompile(`\?(at|to)\d+:\d+\(want \d+:\d+\)`)

// projections of a dump
func structOf(s string) string { return reLC.ReplaceAllString(stripRefs(s), "") }

var reOrdRef = regexp.MustCompile(`@[A-Z0-9?]*#[0-9?]+|#([0-9]+)|\^\{([^}]*)\}`)

// refsOf lists the references of a dump by the ordinal of the using token.
func refsOf(s string) map[int]string {
	out := map[int]string{}
	last := -1
	for _, m := range reOrdRef.FindAllStringSubmatch(s, -1) {
		if m[0][0] == '@' { // a place of any file, in the computed form of a property
			last = -1
		} else if m[1] != "" {
			last, _ = strconv.Atoi(m[1])
		} else if last >= 0 {
			out[last] = m[2]
		}
	}
	return out
}

// parsed runs one rendering and returns its dump.
func (x *ctx) parsed(m *memCase, rd *rendered) (got, want string) {
	x.only("mode", m.cfg.mode)
	x.input("text", string(rd.text))
	o := parseMode(m.cfg.mode, rd.text)
	if o.err != nil {
		x.fail("a source of the grammar is rejected: %v", o.err)
	}
	if o.node == nil {
		x.fail("no result and no error")
	}
	got = dumpOne(m.f.tag, rd.toks, o, m.cfg.compute)
	want = m.g.expand(m.f, m.f.exp, map[string]*rendered{m.f.tag: rd}, m.cfg.compute)
	if m.trail != "" {
		last := rd.toks[len(rd.toks)-1]
		if o.cur == nil || o.cur.Start.Index != last.idx {
			x.fail("parsing ended on %v, not on the token after the construct (offset %d)", o.cur, last.idx)
		}
	}
	return
}

func (x *ctx) structCase(m *memCase, minToks int) {
	for v := 0; v < 2; v++ {
		rd := m.render(x.r, randStyle(x.r))
		got, want := x.parsed(m, rd)
		if g, w := structOf(got), structOf(want); g != w {
			x.fail("%s", diffText(w, g))
		}
		if v == 0 {
			x.eval(m.cfg.mode+strings.Join(rd.texts, " "), len(m.f.toks) >= minToks)
			x.count("tokens", len(m.f.toks))
			x.maxOf("largest source (tokens)", len(m.f.toks))
			if len(m.f.toks) > 25 && len(m.f.toks) < 150 {
				x.sample(m.cfg.mode + ": " + string(rd.text) + "\n=> " + clip(got, 1200))
			}
		}
	}
	x.feats(m.g.feats)
}

func (x *ctx) maxOf(name string, n int) {
	if x.res.Max == nil {
		x.res.Max = map[string]int{}
	}
	if n > x.res.Max[name] {
		x.res.Max[name] = n
	}
}

func (x *ctx) cfg(modes ...string) caseCfg {
	c := caseCfg{mode: modes[x.r.Intn(len(modes))], size: 5 + x.r.Intn(60), depth: 2 + x.r.Intn(4), wantCls: x.r.Intn(4), rich: x.r.Intn(6) == 0}
	if x.k%40 == 7 {
		c.size, c.depth, c.rich = 400, 6, true
	}
	return c
}

func structCheck(id string, quick int, rule string, need []string, tune func(x *ctx) caseCfg, minToks int) {
	register(&check{id: id, quick: quick, thorough: quick * 40, rule: rule, need: need,
		run: func(x *ctx) {
			c := tune(x)
			x.structCase(makeMem(x.r.Int63(), c), minToks)
		}})
}

const genRule = "sources drawn from a generator that emits each with the tree its grammar defines, each in two random layouts (spaces, comments, line breaks, minimal) and letter cases; the whole result is compared, and where parsing stops; "

func init() {
	structCheck("P07", 16000, genRule+"expressions of all forms, long chains, deep nesting, also inside statements, declarations and types; non-trivial: at least 4 tokens",
		[]string{"op IN", "op IS", "op AS", "op <>", "op MOD", "op SHR", "op XOR", "unary -", "unary +", "not", "set", "set range", "address", "cast", "parentheses", "nil", "call in expression", "call without arguments", "designator index", "designator deref", "designator member", "number", "string", "value constant", "call of a designator that starts with a type name"},
		func(x *ctx) caseCfg {
			c := x.cfg("expr", "expr", "expr", "expr", "stmt", "constsec", "type")
			if x.k%3 == 0 {
				c.size += 60
				c.depth += 3
			}
			return c
		}, 4)
	structCheck("P08", 10000, genRule+"statements of all forms and nestings, statement lists with empty statements, with and without last semicolon; non-trivial: at least 6 tokens",
		[]string{"if", "if else", "case", "case else", "case range", "repeat", "while", "for to", "for downto", "with", "try finally", "raise", "raise object", "raise at", "raise only at", "asm", "compound", "inherited", "goto", "assign", "call statement", "empty statement", "empty body", "labeled statement", "labeled empty statement", "no semicolon before end", "handler with variable", "handler without variable"},
		func(x *ctx) caseCfg {
			c := x.cfg("stmt", "stmt", "stmt", "block", "program")
			c.size += 40
			c.depth++
			return c
		}, 6)
	structCheck("P09", 10000, genRule+"types of all forms, constant, variable, thread variable, label and type sections; non-trivial: at least 4 tokens",
		nil, func(x *ctx) caseCfg {
			c := x.cfg("type", "type", "typesec", "typesec", "varsec", "constsec", "threadvarsec", "block")
			c.size += 10
			return c
		}, 4)
	structCheck("P10", 6000, genRule+"type sections of classes; non-trivial: at least 10 tokens",
		nil, func(x *ctx) caseCfg {
			c := x.cfg("typesec", "typesec", "typesec", "block", "unit")
			c.wantCls = 5 + x.r.Intn(5)
			c.size += 30
			return c
		}, 10)
	structCheck("P11", 8000, genRule+"routine headings, nested routines, procedural types, methods; non-trivial: at least 6 tokens",
		nil, func(x *ctx) caseCfg {
			c := x.cfg("heading", "heading", "block", "block", "block", "unit", "program")
			c.wantCls = x.r.Intn(2)
			c.size += 30
			c.depth += 2
			c.routines = true
			return c
		}, 6)
	structCheck("P12", 8000, genRule+"programs and units with all their sections; non-trivial: at least 12 tokens",
		nil, func(x *ctx) caseCfg {
			c := x.cfg("program", "unit", "unit")
			c.wantCls = x.r.Intn(2)
			c.depth = 2 + x.r.Intn(2)
			return c
		}, 12)

	register(&check{id: "P14", quick: 8000, thorough: 320000,
		rule: genRule + "blocks, programs and units over a small pool of names, so that names hide each other in all scopes; the declaration to which each name refers is compared with a scope model; non-trivial: the source has at least 3 references to declarations of its own",
		need: []string{"references to declarations", "references to predefined types", "names without declaration", "names that hide an outer declaration", "names that hide a predefined type"},
		run: func(x *ctx) {
			c := x.cfg("block", "block", "program", "unit", "unit", "stmt", "varsec", "constsec", "typesec")
			c.size += 40
			c.depth += 2
			c.fewNames = x.r.Intn(3) > 0
			m := makeMem(x.r.Int63(), c)
			x.refCase(m, 3)
		}})
	register(&check{id: "P17", quick: 8000, thorough: 320000,
		rule: genRule + "type sections with forward classes, pointers, class references, fields and parameters that name types before their declaration, names never declared; non-trivial: a name is used before its declaration or a forward class is completed",
		run: func(x *ctx) {
			c := x.cfg("typesec", "typesec", "typesec", "block", "unit", "program")
			c.wantCls = 2 + x.r.Intn(6)
			c.size += 20
			c.fewNames = x.r.Intn(2) > 0
			m := makeMem(x.r.Int63(), c)
			x.refCase(m, 1)
		}})
	register(&check{id: "P04", quick: 9000, thorough: 300000,
		rule: "one token sequence in 4 layouts (single spaces, no needless space, one token per line, random spaces, line breaks, line ends and the three comment styles): generated sources and such with tokens deleted, inserted, replaced, swapped; acceptance, tree, and for errors the message and its offending token must agree; non-trivial: at least 5 tokens",
		need: []string{"accepted", "rejected", "errors with a place"},
		run:  func(x *ctx) { x.layoutCase() }})
	register(&check{id: "P05", quick: 9000, thorough: 300000,
		rule: "one token sequence in 5 spellings (as generated, upper, lower, random per letter, random per word): generated sources and such with tokens deleted, inserted, replaced, swapped; acceptance, tree, references and errors must agree up to letter case, and names must keep their spelling; also whole projects of files, every file in a spelling of its own, compared with the expected trees and references; non-trivial: at least 5 tokens",
		need: []string{"accepted", "rejected", "projects of files in several spellings"},
		run:  func(x *ctx) { x.caseCase() }})
}

// refCase compares the references.
func (x *ctx) refCase(m *memCase, minRefs int) {
	rd := m.render(x.r, randStyle(x.r))
	got, want := x.parsed(m, rd)
	x.compareRefs(got, want, rd, minRefs)
	x.feats(m.g.feats)
	if len(m.f.toks) > 25 && len(m.f.toks) < 150 {
		x.sample(m.cfg.mode + ": " + string(rd.text) + "\n=> " + clip(got, 1500))
	}
}

func (x *ctx) compareRefs(got, want string, rd *rendered, minRefs int) {
	g, w := refsOf(got), refsOf(want)
	own := 0
	for i := range rd.toks {
		a, okA := g[i]
		b, okB := w[i]
		if a != b || okA != okB {
			t := rd.toks[i]
			show := func(s string, ok bool) string {
				if !ok {
					return "no reference field"
				}
				return s
			}
			x.fail("%q at %d:%d (token %d) refers to %s, expected %s", t.text, t.line, t.col, i, show(a, okA), show(b, okB))
		}
		if !okB {
			continue
		}
		switch {
		case b == "nil":
			x.res.Counts["names without declaration"]++
		case strings.HasPrefix(b, "embedded"):
			x.res.Counts["references to predefined types"]++
		default:
			x.res.Counts["references to declarations"]++
			own++
		}
	}
	x.eval(strings.Join(rd.texts, " "), own >= minRefs)
}

// ---- mutated token lists

// mutToks changes a token list; kinds of the changes are counted by feat.
func mutToks(r *rand.Rand, toks []gtok, other []gtok) ([]gtok, string) {
	t := append([]gtok{}, toks...)
	what := ""
	n := 1
	if r.Intn(4) == 0 {
		n = 2 + r.Intn(3)
	}
	for i := 0; i < n && len(t) > 1; i++ {
		p := r.Intn(len(t))
		switch r.Intn(9) {
		case 0:
			what = "token deleted"
			t = append(t[:p:p], t[p+1:]...)
		case 1:
			what = "token inserted"
			t = append(append(append([]gtok{}, t[:p]...), randTok(r, other)), t[p:]...)
		case 2:
			what = "token replaced"
			t[p] = randTok(r, other)
		case 3:
			what = "tokens swapped"
			q := r.Intn(len(t))
			t[p], t[q] = t[q], t[p]
		case 4:
			what = "token doubled"
			t = append(append(append([]gtok{}, t[:p]...), t[p]), t[p:]...)
		case 5:
			what = "text cut"
			t = append([]gtok{}, t[:p+1]...)
		case 6:
			what = "part removed"
			q := p + 1 + r.Intn(6)
			if q > len(t) {
				q = len(t)
			}
			t = append(t[:p:p], t[q:]...)
		case 7, 8:
			what = "part doubled"
			q := p + 1 + r.Intn(6)
			if q > len(t) {
				q = len(t)
			}
			part := append([]gtok{}, t[p:q]...)
			if r.Intn(2) == 0 { // put somewhere else
				what = "part copied"
				q = r.Intn(len(t))
			}
			t = append(append(append([]gtok{}, t[:q]...), part...), t[q:]...)
		}
	}
	return t, what
}

var extraToks = []gtok{{"begin", 'k'}, {"end", 'k'}, {";", 's'}, {"(", 's'}, {")", 's'}, {"[", 's'}, {"]", 's'}, {",", 's'}, {".", 's'}, {"..", 's'}, {":", 's'}, {":=", 's'}, {"=", 's'},
	{"if", 'k'}, {"then", 'k'}, {"else", 'k'}, {"do", 'k'}, {"of", 'k'}, {"var", 'k'}, {"type", 'k'}, {"const", 'k'}, {"class", 'k'}, {"record", 'k'}, {"procedure", 'k'}, {"function", 'k'}, {"property", 'k'},
	{"^", 's'}, {"@", 's'}, {"+", 's'}, {"-", 's'}, {"not", 'k'}, {"'s'", 'q'}, {"1", 'n'}, {"2.5", 'n'}, {"foo", 'i'}, {"Integer", 'i'}, {"string", 'k'}, {"read", 'd'}, {"virtual", 'd'}, {"external", 'd'}, {"forward", 'd'},
	{"?", 's'}, {"%", 's'}, {"#", 's'}, {"$", 's'}, {"&", 's'}, {"uses", 'k'}, {"label", 'k'}, {"case", 'k'}, {"try", 'k'}, {"on", 'd'}, {"raise", 'k'}, {"inherited", 'k'}, {"until", 'k'}, {"array", 'k'}, {"set", 'k'}, {"platform", 'd'}, {"private", 'd'}}

func randTok(r *rand.Rand, other []gtok) gtok {
	if len(other) > 0 && r.Intn(2) == 0 {
		return other[r.Intn(len(other))]
	}
	return extraToks[r.Intn(len(extraToks))]
}

// anyToks draws a token list (valid, or mutated).
func (x *ctx) anyToks() (mode string, toks []gtok, m *memCase) {
	c := x.cfg("program", "unit", "unit", "expr", "stmt", "type", "typesec", "varsec", "constsec", "threadvarsec", "block", "block", "heading")
	m = makeMem(x.r.Int63(), c)
	toks = m.f.toks
	if x.r.Intn(2) == 0 {
		what := ""
		toks, what = mutToks(x.r, toks, m.f.toks)
		x.feat(what)
		return c.mode, toks, nil
	}
	return c.mode, toks, m
}

var reSpan = regexp.MustCompile(`(\d+),(\d+) - (\d+),(\d+)`)
var rePlace = regexp.MustCompile(`(\d+)[:,](\d+)`)

// errKey replaces the places of a message by token ordinals.
func errKey(msg string, rd *rendered) (string, bool) {
	found := false
	at := func(a, b string, end bool) string {
		l, _ := strconv.Atoi(a)
		c, _ := strconv.Atoi(b)
		for i, t := range rd.toks {
			if !end && t.line == l && t.col == c {
				found = true
				return fmt.Sprintf("<token #%d>", i)
			}
			if end && t.eline == l && t.ecol == c {
				return fmt.Sprintf("<end of token #%d>", i)
			}
		}
		return "<no token>"
	}
	msg = reSpan.ReplaceAllStringFunc(msg, func(s string) string {
		p := reSpan.FindStringSubmatch(s)
		return at(p[1], p[2], false) + " - " + at(p[3], p[4], true)
	})
	msg = rePlace.ReplaceAllStringFunc(msg, func(s string) string {
		p := rePlace.FindStringSubmatch(s)
		return at(p[1], p[2], false)
	})
	return msg, found
}

type verdict struct {
	ok   bool
	dump string
	err  string
}

func (x *ctx) verdictOf(mode string, rd *rendered) verdict {
	o := parseMode(mode, rd.text)
	if o.err != nil {
		k, found := errKey(o.err.Error(), rd)
		if found {
			x.res.Counts["errors with a place"]++
		}
		return verdict{false, "", k}
	}
	if o.node == nil {
		return verdict{true, "<no result>", ""}
	}
	return verdict{true, reLC.ReplaceAllString(dumpOne("S", rd.toks, o, false), ""), ""}
}

func (x *ctx) layoutCase() {
	mode, toks, _ := x.anyToks()
	sr := x.r.Int63()
	cs := x.r.Intn(5)
	var first verdict
	var firstText string
	for v, lay := range []int{0, 1, 3, 2, 2} {
		// the spelling stays, the layout changes
		rd := renderSpelled(toks, rand.New(rand.NewSource(sr)), cs, x.sub(v), style{layout: lay})
		x.only("mode", mode)
		x.input("first text", firstText)
		x.input("text", string(rd.text))
		vd := x.verdictOf(mode, rd)
		if v == 0 {
			first, firstText = vd, string(rd.text)
			if vd.ok {
				x.count("accepted", 1)
			} else {
				x.count("rejected", 1)
			}
			if len(toks) < 80 {
				x.sample(mode + ": " + firstText + "\n=> " + clip(vd.dump+vd.err, 600))
			}
			continue
		}
		x.eval(mode+strconv.Itoa(lay)+string(rd.text), len(toks) >= 5)
		if vd.ok != first.ok {
			x.fail("accepted in one layout (%v), rejected in another (%v)", first, vd)
		}
		if vd.dump != first.dump {
			x.fail("the trees differ: %s", diffText(first.dump, vd.dump))
		}
		if vd.err != first.err {
			x.fail("the errors differ: %q and %q", first.err, vd.err)
		}
	}
}

// caseProject loads a project of files in several spellings.
func (x *ctx) caseProject() {
	_, done := x.scratch()
	defer done()
	p := x.makeProject(x.r.Int63(), 20+x.r.Intn(80), 1+x.r.Intn(4), x.r.Intn(2) == 0)
	lay := style{layout: x.r.Intn(4), sjis: true}
	for v, cs := range []int{0, 1, 2, 3, 4} {
		for i, f := range p.pr.files() {
			c := cs
			if v == 4 {
				c = x.r.Intn(5)
			}
			p.rds[f.tag] = renderSpelled(f.toks, x.sub(10*i+v), c, x.sub(100+i), lay)
		}
		p.write(x)
		got, want := x.loadProject(p), p.wants()
		for i := range want {
			if got[i] != want[i] {
				x.fail("spelling %d of the file %s: %s", v, p.pr.files()[i].path, diffText(want[i], got[i]))
			}
			x.eval(string(p.rds[p.pr.files()[i].tag].text), v > 0)
		}
	}
	x.feat("projects of files in several spellings")
}

func (x *ctx) caseCase() {
	if x.k%25 == 7 {
		x.caseProject()
		return
	}
	mode, toks, m := x.anyToks()
	lay := style{layout: x.r.Intn(4)}
	lr := x.r.Int63()
	var first verdict
	var firstText string
	for v, cs := range []int{0, 1, 2, 3, 4} {
		rd := renderSpelled(toks, x.sub(v), cs, rand.New(rand.NewSource(lr)), lay)
		x.only("mode", mode)
		x.input("first text", firstText)
		x.input("text", string(rd.text))
		vd := x.verdictOf(mode, rd)
		// spelling: an identifier in a dump whose text is not that of its token has a ?text mark
		if strings.Contains(vd.dump, "?text") {
			x.fail("an identifier does not keep the spelling of the source: %s", clip(vd.dump, 1000))
		}
		if m != nil && vd.ok {
			want := reLC.ReplaceAllString(m.g.expand(m.f, m.f.exp, map[string]*rendered{m.f.tag: rd}, false), "")
			want = strings.ReplaceAll(want, "^{"+m.f.tag+"#", "^{S#")
			if want != vd.dump {
				x.fail("%s", diffText(want, vd.dump))
			}
		}
		vd.dump, vd.err = strings.ToLower(vd.dump), strings.ToLower(vd.err)
		if v == 0 {
			first, firstText = vd, string(rd.text)
			if vd.ok {
				x.count("accepted", 1)
			} else {
				x.count("rejected", 1)
			}
			if len(toks) < 80 {
				x.sample(mode + ": " + firstText + "\n=> " + clip(vd.dump+vd.err, 600))
			}
			continue
		}
		x.eval(mode+strconv.Itoa(cs)+string(rd.text), len(toks) >= 5)
		if vd.ok != first.ok {
			x.fail("accepted in one spelling (%v), rejected in another (%v)", first, vd)
		}
		if vd.dump != first.dump {
			x.fail("the trees differ: %s", diffText(first.dump, vd.dump))
		}
		if vd.err != first.err {
			x.fail("the errors differ: %q and %q", first.err, vd.err)
		}
	}
}
