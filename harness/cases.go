package main

// Cases: one generated source with its expected result.

import (
	"fmt"
	"math/rand"
	"strings"
)

type caseCfg struct {
	mode     string
	size     int
	depth    int
	rich     bool
	wantCls  int
	noASM    bool
	style    style
	compute  bool
	fewNames bool
	routines bool
	noGiant  bool
	chainCls int
}

type memCase struct {
	cfg   caseCfg
	g     *Gen
	f     *gfile
	trail string
}

// trailers end a fragment: the parser has to stop exactly there.
var trailers = map[string][]gtok{
	"expr":         {{";", 's'}, {"then", 'k'}, {"]", 's'}, {"do", 'k'}, {"..", 's'}},
	"stmt":         {{";", 's'}, {"end", 'k'}, {"until", 'k'}},
	"type":         {{";", 's'}, {"platform", 'd'}, {")", 's'}},
	"typesec":      {{"begin", 'k'}, {"var", 'k'}, {"implementation", 'k'}, {"procedure", 'k'}},
	"varsec":       {{"begin", 'k'}, {"type", 'k'}, {"implementation", 'k'}, {"function", 'k'}},
	"constsec":     {{"begin", 'k'}, {"var", 'k'}, {"implementation", 'k'}},
	"threadvarsec": {{"begin", 'k'}, {"var", 'k'}, {"implementation", 'k'}},
	"block":        {{".", 's'}, {";", 's'}},
	"heading":      {{"begin", 'k'}, {"var", 'k'}, {"implementation", 'k'}, {"procedure", 'k'}},
}

func makeMem(seed int64, c caseCfg) *memCase {
	g := NewGen(seed)
	g.size, g.maxDepth, g.rich, g.wantCls, g.noASM = c.size, c.depth, c.rich, c.wantCls, c.noASM
	g.sjis = c.style.sjis
	g.chainCls = c.chainCls
	g.fewNames, g.routines = c.fewNames, c.routines
	if g.rich && g.p(1, 2) && !c.noGiant {
		g.giants = 1
	}
	if g.sjis || g.fewNames {
		g.pickPool()
	}
	m := &memCase{cfg: c, g: g}
	d := c.depth
	switch c.mode {
	case "program":
		m.f = g.genProgram(d)
		return m
	case "unit":
		m.f = g.genUnit(d)
		return m
	}
	g.scope = newScope(g.scope)
	s := ""
	switch c.mode {
	case "expr":
		s = g.expr(d)
	case "stmt":
		s = g.stmt(d, false)
	case "type":
		s, _ = g.typ(d)
	case "typesec":
		s = g.typeSection(d)
	case "varsec":
		s = g.varSection(d)
	case "constsec":
		s = g.constSection(d)
	case "threadvarsec":
		s = g.threadVarSection(d)
	case "block":
		s = g.block(d, false)
	case "heading":
		s = g.exportedHeading(d)
	}
	g.f.exp = s
	t := trailers[c.mode][g.n(len(trailers[c.mode]))]
	m.trail = t.text
	g.f.toks = append(g.f.toks, t)
	m.f = g.f
	return m
}

func (m *memCase) render(r *rand.Rand, st style) *rendered { return render(m.f.toks, r, st) }

// check parses a rendering and compares it with what is expected; "" = equal.
func (m *memCase) check(rd *rendered) string {
	o := parseMode(m.cfg.mode, rd.text)
	if o.err != nil {
		return "rejected: " + o.err.Error()
	}
	if o.node == nil {
		return "no result and no error"
	}
	got := dumpOne(m.f.tag, rd.toks, o, m.cfg.compute)
	want := m.g.expand(m.f, m.f.exp, map[string]*rendered{m.f.tag: rd}, m.cfg.compute)
	if got != want {
		return diffText(want, got)
	}
	if m.trail != "" {
		last := rd.toks[len(rd.toks)-1]
		if o.cur == nil || o.cur.Start.Index != last.idx {
			return fmt.Sprintf("parsing stopped at %v, not at the token after the construct (offset %d)", o.cur, last.idx)
		}
	}
	return ""
}

func diffText(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	cut := func(s string) string {
		a, b := i-120, i+160
		if a < 0 {
			a = 0
		}
		if b > len(s) {
			b = len(s)
		}
		if a > len(s) {
			a = len(s)
		}
		return strings.ToValidUTF8(s[a:b], "?")
	}
	return fmt.Sprintf("result differs\n  expected ...%s...\n  observed ...%s...", cut(want), cut(got))
}
