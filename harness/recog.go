package main

// A recognizer of programs and units, independent of the parser: it works
// with sets of end positions, never with a context, and leaves everything
// open that is not grammar. Whatever it rejects is not a sentence of the
// grammar (with the liberties that the parser takes about semicolons).

import (
	"sort"
	"strings"
)

type rtok struct {
	kind lexKind
	text string // lower case
	pos  tokPos
}

type recog struct {
	toks   []rtok
	far    int // the furthest token that was looked at
	memo   map[string]map[int][]int
	rules  map[string]rule
	labels map[string]bool
	spaces map[string]bool // names that may qualify
	banned map[string]bool
}

// rule gives the ends of all its sentences from position i on.
type rule func(i int) []int

func union(a, b []int) []int {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	var out []int
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i] < b[j]:
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func (g *recog) tok(f func(t rtok) bool) rule {
	return func(i int) []int {
		if i > g.far {
			g.far = i
		}
		if i < len(g.toks) && f(g.toks[i]) {
			return []int{i + 1}
		}
		return nil
	}
}

// w: reserved words; s: symbols; d: words that are not reserved
func (g *recog) w(words ...string) rule {
	return g.tok(func(t rtok) bool {
		if t.kind == lkReserved {
			for _, w := range words {
				if t.text == w {
					return true
				}
			}
		}
		return false
	})
}

func (g *recog) d(words ...string) rule {
	return g.tok(func(t rtok) bool {
		if t.kind == lkIdent || t.kind == lkReserved {
			for _, w := range words {
				if t.text == w {
					return true
				}
			}
		}
		return false
	})
}

func (g *recog) s(sym string) rule {
	return g.tok(func(t rtok) bool { return t.kind == lkSymbol && t.text == sym })
}

func seq(rs ...rule) rule {
	return func(i int) []int {
		cur := []int{i}
		for _, r := range rs {
			var next []int
			for _, p := range cur {
				next = union(next, r(p))
			}
			if len(next) == 0 {
				return nil
			}
			cur = next
		}
		return cur
	}
}

func alt(rs ...rule) rule {
	return func(i int) []int {
		var out []int
		for _, r := range rs {
			out = union(out, r(i))
		}
		return out
	}
}

func opt(rs ...rule) rule { return alt(func(i int) []int { return []int{i} }, seq(rs...)) }

func many(rs ...rule) rule {
	r := seq(rs...)
	return func(i int) []int {
		seen := map[int]bool{i: true}
		out := []int{i}
		work := []int{i}
		for len(work) > 0 {
			p := work[0]
			work = work[1:]
			for _, q := range r(p) {
				if !seen[q] {
					seen[q] = true
					out = append(out, q)
					work = append(work, q)
				}
			}
		}
		sort.Ints(out)
		return out
	}
}

// list: one or more r, separated
func list(r rule, sep rule) rule { return seq(r, many(sep, r)) }

// look succeeds without taking anything if the next token fits.
func look(r rule) rule {
	return func(i int) []int {
		if len(r(i)) > 0 {
			return []int{i}
		}
		return nil
	}
}

func (g *recog) eof(i int) []int {
	if i > g.far {
		g.far = i
	}
	if i == len(g.toks) {
		return []int{i}
	}
	return nil
}

func (g *recog) r(name string) rule {
	return func(i int) []int {
		m := g.memo[name]
		if m == nil {
			m = map[int][]int{}
			g.memo[name] = m
		}
		if e, ok := m[i]; ok {
			return e
		}
		m[i] = nil // no rule is left recursive
		e := g.rules[name](i)
		m[i] = e
		return e
	}
}

func newRecog(text []rune) *recog {
	g := &recog{memo: map[string]map[int][]int{}, rules: map[string]rule{}, labels: map[string]bool{}, spaces: map[string]bool{}}
	ln, cl := positions(text)
	for _, t := range refLex(text) {
		if t.kind == lkSpace || t.kind == lkComment || t.kind == lkEOF {
			continue
		}
		s := string(text[t.start:t.end])
		g.toks = append(g.toks, rtok{t.kind, strings.ToLower(s), tokPos{idx: t.start, end: t.end, line: ln[t.start], col: cl[t.start], eline: ln[t.end], ecol: cl[t.end], text: s}})
	}
	uses := false
	for i, t := range g.toks {
		prev := ""
		if i > 0 {
			prev = g.toks[i-1].text
		}
		switch t.text {
		case "uses":
			uses = true
		case ";":
			uses = false
		}
		if t.kind == lkIdent {
			if prev == "label" {
				g.labels[t.text] = true
			}
			if uses || prev == "program" || prev == "unit" {
				g.spaces[t.text] = true
			}
		}
	}
	g.grammar()
	return g
}

var (
	routineDirectives = strings.Fields("abstract cdecl dynamic export far index local message name near overload override pascal register reintroduce safecall stdcall varargs")
	methodDirectives  = strings.Fields("abstract virtual override overload reintroduce")
	visibilities      = []string{"private", "protected", "public", "published"}
)

func (g *recog) grammar() {
	w, d, s, r := g.w, g.d, g.s, g.r
	id := g.tok(func(t rtok) bool { return t.kind == lkIdent })
	num := g.tok(func(t rtok) bool { return t.kind == lkInt || t.kind == lkReal })
	str := g.tok(func(t rtok) bool { return t.kind == lkString })
	reserved := g.tok(func(t rtok) bool { return t.kind == lkReserved })
	space := g.tok(func(t rtok) bool { return t.kind == lkIdent && g.spaces[t.text] })
	label := g.tok(func(t rtok) bool { return t.kind == lkIdent && g.labels[t.text] })
	field1 := g.tok(func(t rtok) bool {
		if t.kind != lkIdent {
			return false
		}
		for _, v := range visibilities {
			if t.text == v {
				return false
			}
		}
		return true
	})
	sectionEnd := alt(look(reserved), g.eof)
	semi, comma, colon, dot := s(";"), s(","), s(":"), s(".")
	def := func(n string, e rule) { g.rules[n] = e }

	// expressions
	def("exprs", list(r("expr"), comma))
	def("expr", list(r("simple"), alt(s(">"), s("<"), s("<="), s(">="), s("="), s("<>"), w("in", "is"))))
	def("simple", seq(opt(alt(s("+"), s("-"))), list(r("term"), alt(s("+"), s("-"), w("or", "xor")))))
	def("term", list(r("factor"), alt(s("*"), s("/"), w("div", "mod", "and", "shl", "shr", "as"))))
	def("args", seq(s("("), opt(r("exprs")), s(")")))
	def("designator", seq(id, many(alt(seq(dot, id), seq(s("["), r("exprs"), s("]")), s("^")))))
	def("factor", alt(
		seq(s("@"), r("designator")),
		seq(s("["), opt(list(seq(r("expr"), opt(s(".."), r("expr"))), comma)), s("]")),
		seq(s("("), r("expr"), s(")")),
		w("nil"), seq(w("not"), r("factor")), str, num,
		seq(r("designator"), opt(r("args")))))
	def("qualid", alt(id, seq(space, dot, id)))

	// statements
	stmtBreak := alt(semi, w("end", "else", "until", "except", "finally", "finalization"))
	def("stmts", list(r("stmt"), semi))
	def("stmt", alt(r("body"), seq(label, colon, r("body"))))
	def("body", alt(
		look(stmtBreak),
		seq(w("inherited"), opt(r("designator"), opt(r("args")))),
		seq(w("goto"), id),
		r("compound"),
		seq(w("if"), r("expr"), w("then"), r("stmt"), opt(w("else"), r("stmt"))),
		seq(w("case"), r("expr"), w("of"), list(r("selector"), semi), opt(semi), opt(w("else"), r("stmts")), w("end")),
		seq(w("repeat"), r("stmts"), w("until"), r("expr")),
		seq(w("while"), r("expr"), w("do"), r("stmt")),
		seq(w("for"), r("qualid"), s(":="), r("expr"), w("to", "downto"), r("expr"), w("do"), r("stmt")),
		seq(w("with"), list(r("qualid"), comma), w("do"), r("stmt")),
		seq(w("try"), r("stmts"), alt(seq(w("finally"), r("stmts"), w("end")), seq(w("except"), r("handlers")))),
		seq(w("raise"), alt(look(stmtBreak), seq(r("expr"), opt(d("at"), r("expr"))), seq(d("at"), r("expr")))),
		r("asm"),
		seq(r("designator"), opt(alt(seq(s(":="), r("expr")), r("args"))))))
	def("compound", seq(w("begin"), r("stmts"), w("end")))
	def("selector", seq(list(seq(r("expr"), opt(s(".."), r("expr"))), comma), colon, r("stmt")))
	def("handler", seq(d("on"), alt(seq(id, colon, r("type")), seq(look(id), r("type"))), w("do"), r("stmt")))
	def("handlers", alt(
		seq(r("stmts"), w("end")),
		seq(r("handler"), many(opt(semi), r("handler")), opt(semi), opt(w("else"), r("stmts")), opt(semi), w("end"))))
	notEnd := g.tok(func(t rtok) bool { return !(t.kind == lkReserved && t.text == "end") })
	def("asm", seq(w("asm"), func(i int) []int {
		for len(notEnd(i)) > 0 {
			i++
		}
		return []int{i}
	}, w("end")))

	// types
	def("typeid", alt(id, seq(space, dot, id), w("string")))
	def("type", alt(
		seq(s("("), list(seq(id, opt(s("="), r("expr"))), comma), s(")")),
		seq(s("^"), r("typeid")),
		id, seq(space, dot, id),
		seq(alt(id, seq(look(alt(num, str)), r("expr"))), s(".."), r("expr")),
		seq(w("string"), opt(s("["), r("expr"), s("]"))),
		seq(opt(w("packed")), alt(
			seq(w("array"), opt(s("["), list(r("type"), comma), s("]")), w("of"), r("type"), opt(w("packed"))),
			seq(w("set"), w("of"), r("type")),
			seq(w("file"), w("of"), r("typeid")),
			seq(w("record"), r("fields"), w("end")))),
		seq(alt(seq(w("function"), opt(r("params")), colon, r("typeid")), seq(w("procedure"), opt(r("params")))), opt(w("of"), w("object"))),
		seq(w("class"), alt(
			look(semi),
			seq(w("of"), id), seq(w("of"), space, dot, id),
			seq(opt(r("heritage")), alt(w("end"), seq(r("sections"), w("end")))),
			seq(r("heritage"), look(semi))))))
	def("heritage", seq(s("("), list(r("typeid"), comma), s(")")))
	field := seq(list(id, comma), colon, r("type"))
	def("fields", seq(opt(list(field, semi)), opt(semi), opt(look(w("case")), r("variants"))))
	def("variants", seq(w("case"), alt(seq(id, colon, r("type")), seq(look(id), r("type"))), w("of"), opt(list(r("variant"), semi)), opt(semi)))
	def("variant", seq(list(r("expr"), comma), colon, s("("), r("fields"), s(")")))
	vis := d(visibilities...)
	methodBreak := alt(w("property", "end"), vis)
	fieldBreak := alt(w("class", "function", "procedure", "constructor", "destructor"), methodBreak)
	cfield := seq(look(field1), list(id, comma), colon, r("type"))
	def("sections", seq(opt(vis), r("members"), many(vis, r("members"))))
	def("members", seq(
		many(cfield, alt(semi, look(fieldBreak))),
		many(r("method")),
		many(r("property"), opt(semi))))
	def("method", seq(opt(w("class")), alt(r("heading"), seq(w("constructor"), id, opt(r("params"))), seq(w("destructor"), id)),
		opt(semi), many(d(methodDirectives...), alt(semi, look(methodBreak))), opt(semi)))
	def("property", seq(w("property"), id, opt(opt(r("indexes")), colon, r("typeid")),
		opt(d("index"), r("expr")), opt(d("read"), id), opt(d("write"), id), opt(d("stored"), id),
		opt(alt(seq(d("default"), r("expr")), d("nodefault"))), opt(d("implements"), r("typeid"))))

	// routines
	def("heading", alt(seq(w("function"), id, opt(r("params")), colon, r("typeid")), seq(w("procedure"), id, opt(r("params")))))
	parm := seq(opt(w("var", "const", "out")), list(id, comma), opt(colon,
		alt(seq(w("array"), w("of"), alt(w("const"), r("type"))), r("type")), opt(s("="), r("expr"))))
	def("params", seq(s("("), opt(list(parm, semi)), s(")")))
	def("indexes", seq(s("["), list(parm, semi), s("]")))
	plain := seq(d(routineDirectives...), semi)
	external := seq(d("external"), opt(str, opt(alt(seq(d("name"), str), seq(d("index"), num)))), semi)
	forward := seq(d("forward"), semi)
	def("routine", seq(r("heading"), semi, alt(
		seq(many(plain), r("block")),
		seq(many(plain), alt(external, forward), many(alt(plain, external, forward))))))
	def("exported", seq(r("heading"), semi, many(alt(plain, external, forward))))

	// sections
	port := d("platform", "deprecated", "library")
	def("const", seq(w("const"), many(id, opt(colon, r("type")), s("="), r("expr"), opt(port), semi), sectionEnd))
	typeDecl := seq(id, s("="), opt(w("type")), r("type"), opt(port))
	def("types", seq(w("type"), list(typeDecl, semi), opt(semi), sectionEnd))
	varDecl := seq(list(id, comma), colon, r("type"), opt(d("absolute"), id), opt(s("="), r("expr")), opt(port))
	def("vars", seq(w("var"), list(varDecl, semi), opt(semi), sectionEnd))
	def("threadvars", seq(w("threadvar"), many(list(id, comma), colon, r("type"), semi), sectionEnd))
	def("section", alt(seq(w("label"), id, semi), r("const"), r("types"), r("vars"), r("threadvars"), r("routine")))
	def("exports", many(w("exports"), list(seq(id, opt(d("name"), r("expr")), opt(d("index"), r("expr")), opt(d("name"), r("expr"))), comma), semi))
	def("block", seq(many(r("section"), opt(semi)), r("exports"), opt(alt(r("compound"), r("asm"))), r("exports")))
	def("uses", seq(w("uses"), list(seq(id, opt(w("in"), str)), comma), semi))
	def("program", seq(w("program"), id, semi, opt(r("uses")), r("block"), dot))
	def("unit", seq(w("unit"), id, opt(port), semi, w("interface"), opt(r("uses")),
		many(alt(r("const"), r("types"), r("vars"), r("threadvars"), r("exported"))),
		w("implementation"), opt(r("uses")), many(r("section"), opt(semi)), r("exports"), opt(semi),
		opt(w("initialization"), r("stmts"), opt(w("finalization"), r("stmts"))), w("end"), dot))
}

// accepts: the text starts with a sentence of the mode ("program" or "unit").
func (g *recog) accepts(mode string) bool {
	return len(g.r(mode)(0)) > 0
}
