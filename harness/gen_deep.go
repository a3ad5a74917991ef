package main

// Unusual sizes: one list, chain or nesting of a source is far longer or
// deeper than the rest, around and beyond the sizes where fixed limits,
// narrow integers or quadratic shortcuts would show.

// giant draws such a size, at most once per source; den tells how often.
func (g *Gen) giant(den int) int {
	if !g.rich || g.giants <= 0 || !g.p(1, den) {
		return 0
	}
	g.giants--
	k := 0
	switch g.n(8) {
	case 0, 1:
		k = 60 + g.n(10) // around 64
	case 2:
		k = 95 + g.n(10) // around 100
	case 3:
		k = 125 + g.n(8) // around 128
	case 4, 5:
		k = 250 + g.n(12) // around 256
	case 6:
		k = 265 + g.n(300)
	default:
		k = 1000 + g.n(60) // around 1000 and 1024
	}
	g.feat("unusual size")
	if k >= 256 {
		g.feat("unusual size of 256 or more")
	}
	if k >= 1024 {
		g.feat("unusual size of 1024 or more")
	}
	return k
}

// deepFactor wraps a factor k times. kind < 0: all kinds mixed.
func (g *Gen) deepFactor(k, d, kind int) string {
	if k == 0 {
		return g.factor(d - 1)
	}
	w := kind
	if w < 0 {
		w = g.n(8)
	}
	in := func() string { return "(E (S (T " + g.deepFactor(k-1, d, kind) + ")))" }
	switch w {
	case 1:
		g.kw("not")
		return "(not " + g.deepFactor(k-1, d, kind) + ")"
	case 2:
		g.sym("[")
		s := "(set " + in() + ")"
		g.sym("]")
		return s
	case 3:
		q, _ := g.qualId(false)
		g.sym("[")
		s := "(D " + q + " [" + in() + "])"
		g.sym("]")
		return s
	case 4:
		ts := g.visible(func(x *gdecl) bool { return isTypeDecl(x) && x.name != "String" })
		if len(ts) > 0 {
			t := ts[g.n(len(ts))]
			_, a := g.ident(t.name)
			g.sym("(")
			s := "(cast (tid " + a + refOf(t) + ") " + in() + ")"
			g.sym(")")
			return s
		}
	case 5:
		q, _ := g.qualId(false)
		g.sym("^")
		g.sym("(")
		s := "(D " + q + " ^ call(" + in() + "))"
		g.sym(")")
		return s
	case 6:
		g.sym("(")
		g.sym("-")
		s := "(paren (E (S u- (T " + g.deepFactor(k-1, d, kind) + "))))"
		g.sym(")")
		return s
	case 7:
		// at the right end of a sum
		g.sym("(")
		s := "(paren (E (S " + g.term(0) + g.op("+") + "(T " + g.deepFactor(k-1, d, kind) + "))))"
		g.sym(")")
		return s
	}
	g.sym("(")
	s := "(paren " + in() + ")"
	g.sym(")")
	return s
}

// deepStmt puts a statement into k others.
func (g *Gen) deepStmt(k, d int, closed bool, kind int) string {
	if k == 0 {
		return g.plainStmt(d-1, closed)
	}
	w := kind
	if w < 0 {
		w = g.n(12)
	}
	body := func(c bool) string { return g.deepStmt(k-1, d, c, kind) }
	list := func() string {
		s := ""
		if g.p(1, 6) {
			s = g.simpleStmt(0) + ";\n    "
			g.sym(";")
		}
		s += body(false)
		if g.p(1, 2) {
			g.sym(";")
		}
		return "{" + s + "}"
	}
	switch w {
	case 1:
		g.kw("if")
		s := "(if " + g.expr(0)
		g.kw("then")
		if closed || g.p(1, 4) {
			s += " then " + body(true)
			g.kw("else")
			s += " else empty"
		} else {
			s += " then " + body(false)
		}
		return s + ")"
	case 2:
		g.kw("if")
		s := "(if " + g.expr(0)
		g.kw("then")
		s += " then " + g.simpleStmt(0)
		g.kw("else")
		return s + " else " + body(closed) + ")"
	case 3:
		g.kw("while")
		s := "(while " + g.expr(0)
		g.kw("do")
		return s + " do " + body(closed) + ")"
	case 4:
		g.kw("for")
		q, _ := g.qualId(false)
		g.sym(":=")
		s := "(for " + q + " := " + g.expr(0)
		g.kw("to")
		s += " to " + g.expr(0)
		g.kw("do")
		return s + " do " + body(closed) + ")"
	case 5:
		g.kw("with")
		q, _ := g.qualId(false)
		g.kw("do")
		return "(with [" + q + "] do " + body(closed) + ")"
	case 6:
		g.kw("repeat")
		s := "(repeat " + list()
		g.kw("until")
		return s + " until " + g.expr(0) + ")"
	case 7:
		g.kw("try")
		s := "(tryfinally " + list()
		g.kw("finally")
		s += " {})"
		g.kw("end")
		return s
	case 8:
		g.kw("try", "finally")
		s := "(tryfinally {} " + list() + ")"
		g.kw("end")
		return s
	case 9:
		g.kw("case")
		s := "(case " + g.expr(0)
		g.kw("of")
		s += " (" + g.constExpr(0)
		g.sym(":")
		s += ": " + body(false) + "))"
		g.kw("end")
		return s
	case 10:
		// handlers open scopes
		g.kw("try", "except")
		g.word("on")
		pop := g.push()
		nm := g.freshIn(g.scope, nil)
		o, a := g.ident(nm)
		g.sym(":")
		s := "(tryexcept {} (on " + a + ": " + g.typeIdRef(nil)
		g.declare(&gdecl{tag: g.f.tag, ord: o, kind: "ExceptionBlockHandlerDecl", name: nm})
		g.kw("do")
		s += " do " + body(false) + "))"
		pop()
		g.kw("end")
		return s
	case 11:
		g.kw("try")
		s := "(tryexcept " + list()
		g.kw("except")
		g.kw("end")
		return s + ")"
	}
	g.kw("begin")
	s := "(begin " + list() + ")"
	g.kw("end")
	return s
}

// deepType puts a type into k others.
func (g *Gen) deepType(k, d, kind int) string {
	if k == 0 {
		s, _ := g.typ(d - 1)
		return s
	}
	w := kind
	if w < 0 {
		w = g.n(5)
	}
	in := func() string { return g.deepType(k-1, d, kind) }
	switch w {
	case 1:
		p := g.packed()
		g.kw("array")
		g.sym("[")
		s := p + "array [" + g.ordType(0)
		g.sym("]")
		g.kw("of")
		return s + "] of " + in() + ")"
	case 2:
		p := g.packed()
		g.kw("record")
		used := map[string]bool{}
		s := p + "record ([" + g.localNames(used, 1) + "] "
		g.sym(":")
		s += in() + ")"
		if g.p(1, 2) {
			g.sym(";")
		}
		g.kw("end")
		return s + ")"
	case 3, 4:
		// variants in variants
		g.kw("record")
		n := 1
		if w == 4 {
			n += g.n(8)
		}
		s := "(record"
		for i := 0; i < n; i++ {
			g.kw("case")
			t, _ := g.typeIdNotString(isOrd)
			s += " (variant " + t + " ("
			g.kw("of")
			s += g.constExpr(0) + " ->"
			g.sym(":")
			g.sym("(")
		}
		s += " ([" + g.localNames(map[string]bool{}, 1) + "] "
		g.sym(":")
		s += in() + ")"
		for i := 0; i < n; i++ {
			s += "))"
			g.sym(")")
		}
		g.kw("end")
		return s + ")"
	}
	g.kw("array", "of")
	return "(array [] of " + in() + ")"
}
