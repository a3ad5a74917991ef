package main

// stmtList emits statements up to (not including) a terminator.
// Empty statements without label leave no trace in the tree.
func (g *Gen) stmtList(d int) string {
	return "{" + g.stmtListInner(d, false) + "}"
}

func (g *Gen) stmtListInner(d int, noOn bool) string {
	s := ""
	k := g.count(0, 4)
	if d <= 0 {
		k = g.n(2)
	}
	cnt := 0
	semis := func() {
		for g.p(1, 12) {
			g.sym(";")
			g.feat("empty statement")
		}
	}
	semis()
	for i := 0; i < k; i++ {
		last := i == k-1
		x := g.stmt(d-1, false)
		if cnt > 0 {
			s += ";\n    "
		}
		s += x
		cnt++
		if !last || g.p(2, 3) {
			g.sym(";")
			semis()
		} else {
			g.feat("no semicolon before end")
		}
	}
	return s
}

func (g *Gen) optStmt(d int, closed bool) string {
	if g.p(1, 12) {
		g.feat("empty body")
		return "empty"
	}
	return g.stmt(d, closed)
}

// stmt emits one nonempty (or labeled) statement. closed: an ELSE may follow
// directly, so no inner IF may be left open.
func (g *Gen) stmt(d int, closed bool) string {
	pre := ""
	if g.p(1, 8) {
		var ls []*gdecl
		for _, x := range g.visible(isLabel) {
			ls = append(ls, x)
		}
		if len(ls) > 0 {
			l := ls[g.n(len(ls))]
			_, a := g.ident(l.name)
			g.sym(":")
			pre = "label " + a + ": "
			g.feat("labeled statement")
			if g.p(1, 5) {
				g.feat("labeled empty statement")
				return pre + "empty"
			}
		}
	}
	return pre + g.plainStmt(d, closed)
}

func (g *Gen) plainStmt(d int, closed bool) string {
	if d <= 0 || !g.spend(2) {
		return g.simpleStmt(d)
	}
	if k := g.giant(12); k > 0 {
		g.feat("deep statement")
		return g.deepStmt(k, d, closed, g.n(13)-1)
	}
	switch g.n(17) {
	case 0, 1:
		g.kw("if")
		s := "(if " + g.expr(d-1)
		g.kw("then")
		withElse := closed || g.p(1, 2)
		s += " then " + g.optStmt(d-1, withElse)
		if withElse {
			g.kw("else")
			s += " else " + g.optStmt(d-1, closed)
			g.feat("if else")
		} else {
			g.feat("if")
		}
		return s + ")"
	case 2:
		return g.caseStmt(d)
	case 3:
		g.kw("repeat")
		s := "(repeat " + g.stmtList(d-1)
		g.kw("until")
		s += " until " + g.expr(d-1) + ")"
		g.feat("repeat")
		return s
	case 4:
		g.kw("while")
		s := "(while " + g.expr(d-1)
		g.kw("do")
		g.feat("while")
		return s + " do " + g.optStmt(d-1, closed) + ")"
	case 5:
		g.kw("for")
		q, _ := g.qualId(false)
		s := "(for " + q
		g.sym(":=")
		s += " := " + g.expr(d-1)
		if g.p(1, 2) {
			g.kw("to")
			s += " to "
			g.feat("for to")
		} else {
			g.kw("downto")
			s += " downto "
			g.feat("for downto")
		}
		s += g.expr(d - 1)
		g.kw("do")
		return s + " do " + g.optStmt(d-1, closed) + ")"
	case 6:
		g.kw("with")
		s := "(with ["
		for i, c := 0, g.count(1, 3); i < c; i++ {
			if i > 0 {
				g.sym(",")
				s += " "
			}
			q, _ := g.qualId(false)
			s += q
		}
		g.kw("do")
		g.feat("with")
		return s + "] do " + g.optStmt(d-1, closed) + ")"
	case 7, 8:
		return g.tryExcept(d)
	case 9:
		g.kw("try")
		s := "(tryfinally " + g.stmtList(d-1)
		g.kw("finally")
		s += " " + g.stmtList(d-1) + ")"
		g.kw("end")
		g.feat("try finally")
		return s
	case 10:
		g.kw("raise")
		s := "(raise"
		switch g.n(4) {
		case 0:
			g.feat("raise")
		case 1:
			s += " " + g.expr(d-1)
			g.feat("raise object")
		case 2:
			s += " " + g.expr(d-1)
			g.word("at")
			s += " at " + g.expr(d-1)
			g.feat("raise at")
		default:
			g.word("at")
			s += " at " + g.expr(d-1)
			g.feat("raise only at")
		}
		return s + ")"
	case 11:
		if !g.noASM {
			g.asm()
			return "(asm)"
		}
	case 12, 13:
		k := 0
		if g.rich && g.p(1, 60) {
			k = 10 + g.n(60)
		}
		s := ""
		for i := 0; i < k; i++ {
			g.kw("begin")
			s += "(begin {"
		}
		g.kw("begin")
		s += "(begin " + g.stmtList(d-1) + ")"
		g.kw("end")
		for i := 0; i < k; i++ {
			g.kw("end")
			s += "})"
		}
		g.feat("compound")
		return s
	}
	return g.simpleStmt(d)
}

func (g *Gen) asm() {
	g.kw("asm")
	for i, c := 0, g.n(12); i < c; i++ {
		switch g.n(7) {
		case 0:
			g.tok('i', g.pick([]string{"MOV", "EAX", "EBX", "PUSH", "loop1", "x"}))
		case 1:
			g.sym(g.pick([]string{",", ";", ":", "[", "]", "(", ")", "@", "+", "$", "#", "&", "."}))
		case 2:
			g.tok('n', itoa(g.n(100)))
		case 3:
			g.tok('q', "'end'")
		case 4:
			g.kw(g.pick([]string{"and", "or", "not", "shl", "begin", "asm", "if"}))
		default:
			g.tok('i', "NOP")
		}
	}
	g.kw("end")
	g.feat("asm")
}

func (g *Gen) simpleStmt(d int) string {
	switch g.n(8) {
	case 0:
		g.kw("inherited")
		g.feat("inherited")
		return "(inherited)"
	case 1:
		ls := g.visible(isLabel)
		if len(ls) > 0 && g.p(4, 5) {
			g.kw("goto")
			l := ls[g.n(len(ls))]
			_, a := g.ident(l.name)
			g.feat("goto")
			return "(goto " + a + refOf(l) + ")"
		}
		if ds := g.visible(func(d *gdecl) bool { return d.emb == "" }); len(ds) > 0 && g.p(1, 2) {
			// no label, or one that is hidden: the name refers to what is visible all the same
			g.kw("goto")
			l := ds[g.n(len(ds))]
			_, a := g.ident(l.name)
			g.feat("goto another name")
			return "(goto " + a + refOf(l) + ")"
		}
		g.kw("goto")
		nm := "nolabel" + itoa(g.n(100))
		_, a := g.ident(nm)
		return "(goto " + a + g.refTo(g.scope.lookup(nm)) + ")"
	case 2, 3, 4:
		s, _, _ := g.designator(d, true)
		g.sym(":=")
		g.feat("assign")
		return "(:= " + s + " " + g.expr(d) + ")"
	}
	s, _, _ := g.designator(d, true)
	g.feat("call statement")
	if g.p(2, 3) {
		if a := g.args(d); a != "" {
			return "(call " + s + " (" + a + "))"
		}
	}
	return "(call " + s + ")"
}

func (g *Gen) caseStmt(d int) string {
	g.kw("case")
	s := "(case " + g.expr(d-1)
	g.kw("of")
	k := g.count(1, 3)
	hasElse := g.p(1, 2)
	for i := 0; i < k; i++ {
		s += " ("
		for j, c := 0, g.count(1, 2); j < c; j++ {
			if j > 0 {
				g.sym(",")
				s += ","
			}
			s += g.constExpr(d - 2)
			if g.p(1, 4) {
				g.sym("..")
				s += ".." + g.constExpr(d-2)
				g.feat("case range")
			}
		}
		g.sym(":")
		last := i == k-1
		semi := !last || g.p(1, 2)
		s += ": " + g.optStmt(d-1, last && hasElse && !semi) + ")"
		if semi {
			g.sym(";")
		}
	}
	if hasElse {
		g.kw("else")
		s += elseText(g.stmtList(d - 1))
		g.feat("case else")
	}
	g.kw("end")
	g.feat("case")
	return s + ")"
}

func elseText(l string) string {
	if l == "{}" {
		return ""
	}
	return " else " + l
}

func (g *Gen) constExpr(d int) string { return g.expr(d) }

func (g *Gen) tryExcept(d int) string {
	g.kw("try")
	s := "(tryexcept " + g.stmtList(d-1)
	g.kw("except")
	k := g.n(4)
	if k == 0 {
		s += elseText(g.stmtList(d - 1))
		g.kw("end")
		g.feat("except without handler")
		return s + ")"
	}
	hasElse := g.p(1, 3)
	for i := 0; i < k; i++ {
		last := i == k-1
		g.word("on")
		s += " (on "
		pop := g.push()
		if g.p(2, 3) {
			nm := g.freshIn(g.scope, nil)
			o, a := g.ident(nm)
			g.sym(":")
			t := g.typeIdRef(nil)
			s += a + ": " + t
			g.declare(&gdecl{tag: g.f.tag, ord: o, kind: "ExceptionBlockHandlerDecl", name: nm})
			g.feat("handler with variable")
		} else {
			s += g.typeIdRef(func(t *gtype) bool { return t == nil || !t.str })
			g.feat("handler without variable")
		}
		g.kw("do")
		semi := !last || g.p(2, 3)
		s += " do " + g.optStmt(d-1, hasElse && last && !semi) + ")"
		pop()
		if semi {
			g.sym(";")
		}
	}
	if hasElse {
		g.kw("else")
		s += elseText(g.stmtList(d - 1))
		g.feat("except else")
	}
	g.kw("end")
	g.feat("try except")
	return s + ")"
}
