package main

import "strings"

var relOps = []string{">", "<", "<=", ">=", "=", "<>", "IN", "IS"}
var addOps = []string{"+", "-", "OR", "XOR"}
var mulOps = []string{"*", "/", "DIV", "MOD", "AND", "SHL", "SHR", "AS"}

func (g *Gen) op(o string) string {
	if o[0] >= 'A' && o[0] <= 'Z' {
		g.kw(strings.ToLower(o))
	} else {
		g.sym(o)
	}
	g.feat("op " + o)
	return " " + o + " "
}

func (g *Gen) expr(d int) string {
	s := "(E " + g.simpleExpr(d)
	for k := g.chain(6); k > 0; k-- {
		s += g.op(g.pick(relOps))
		s += g.simpleExpr(d - 1)
	}
	return s + ")"
}

// chain draws the number of further operands at one level.
func (g *Gen) chain(den int) int {
	if g.rich && g.p(1, 200) {
		return 10 + g.n(60)
	}
	if k := g.giant(200); k > 0 {
		return k
	}
	if !g.p(1, den) {
		return 0
	}
	return 1 + g.n(2)
}

func (g *Gen) simpleExpr(d int) string {
	s := "(S "
	if g.p(1, 7) {
		o := g.pick([]string{"+", "-"})
		g.sym(o)
		s += "u" + o + " "
		g.feat("unary " + o)
	}
	s += g.term(d)
	for k := g.chain(5); k > 0; k-- {
		s += g.op(g.pick(addOps))
		s += g.term(d - 1)
	}
	return s + ")"
}

func (g *Gen) term(d int) string {
	s := "(T " + g.factor(d)
	for k := g.chain(5); k > 0; k-- {
		s += g.op(g.pick(mulOps))
		s += g.factor(d - 1)
	}
	return s + ")"
}

func (g *Gen) number() string {
	var t string
	switch g.n(6) {
	case 0:
		t = g.pick([]string{"0", "1", "007", "2147483648", "99999999999999999999", "10"})
	case 1:
		t = itoa(g.n(10)) + "." + itoa(g.n(1000))
	case 2:
		t = "-" + itoa(1+g.n(500))
	case 3:
		t = "-" + itoa(g.n(9)) + "." + itoa(g.n(10))
	default:
		t = itoa(g.n(1000))
	}
	if g.rich && g.p(1, 80) {
		t += strings.Repeat(itoa(1+g.n(9)), 10+g.n(400))
		g.feat("number of many digits")
	}
	return rawOf(g.tok('n', t))
}

func (g *Gen) strLit() (int, string) {
	var pool []string
	if g.sjis {
		pool = []string{"", "a", "ソース", "表示\\x", "能力 ' ", "日本語", "it is", "begin end;", "{ no comment }", "// no", "(* no *)", "ﾊﾝｶｸ", "\x1a", "a\x00b", "\f\t\x7f", "x\x1a\x1b"}
	} else {
		pool = []string{"", "a", "Hello, World", "日本語", "it is", "begin end;", "{ no comment }", "// no", "(* no *)", "\\n", "tab\there", "\"", "é\u0301", "END", "a.b", "#13", "two\nlines", "\U0001F600", "\x1a", "a\x00b", "\f\x7f"}
	}
	s := g.pick(pool)
	s = strings.Replace(s, "'", "", -1)
	if g.rich && g.p(1, 60) {
		s = strings.Repeat(s+"x", 300)
		if g.p(1, 8) {
			s = strings.Repeat("long ", 13200)
			g.feat("string of more than 65536 characters")
		}
	}
	s = strings.TrimRight(s, "\\")
	o := g.tok('q', "'"+s+"'")
	return o, rawOf(o)
}

// designator: qualId already chosen by the caller or here. callable tells whether '(' may follow directly.
func (g *Gen) designator(d int, stmtStart bool) (string, *gdecl, int) {
	s, decl := g.qualId(stmtStart)
	items := 0
	k := 0
	if g.p(1, 3) {
		k = 1 + g.n(3)
		if g.rich && g.p(1, 60) {
			k += 15
		}
		if n := g.giant(100); n > 0 {
			k = n
		}
	}
	for ; k > 0; k-- {
		switch g.n(3) {
		case 0:
			g.sym(".")
			_, x := g.ident(g.anyName())
			s += " ." + x
			g.feat("designator member")
		case 1:
			g.sym("[")
			s += " ["
			for i, c := 0, 1+g.chain(4); i < c; i++ {
				if i > 0 {
					g.sym(",")
					s += ", "
				}
				s += g.expr(d - 2)
			}
			g.sym("]")
			s += "]"
			g.feat("designator index")
		default:
			g.sym("^")
			s += " ^"
			g.feat("designator deref")
		}
		items++
	}
	return s, decl, items
}

func (g *Gen) args(d int) string {
	g.sym("(")
	s := ""
	for i, c := 0, g.count(0, 3); i < c; i++ {
		if i > 0 {
			g.sym(",")
			s += ", "
		}
		s += g.expr(d - 2)
	}
	g.sym(")")
	return s
}

func (g *Gen) factor(d int) string {
	if d <= 0 || !g.spend(1) {
		switch g.n(4) {
		case 0:
			return "(num " + g.number() + ")"
		case 1:
			_, s := g.strLit()
			return "(str " + s + ")"
		case 2:
			return "(val " + rawOf(g.word(g.pick([]string{"True", "False"}))) + ")"
		}
		s, _ := g.qualId(false)
		return "(D " + s + ")"
	}
	if k := g.giant(25); k > 0 {
		g.feat("deep expression")
		return g.deepFactor(k, d, g.n(9)-1)
	}
	switch g.n(16) {
	case 0, 1:
		g.feat("number")
		return "(num " + g.number() + ")"
	case 2:
		g.feat("string")
		_, s := g.strLit()
		return "(str " + s + ")"
	case 3:
		g.feat("value constant")
		return "(val " + rawOf(g.word(g.pick([]string{"True", "False", "TRUE", "false"}))) + ")"
	case 4:
		g.kw("nil")
		g.feat("nil")
		return "nil"
	case 5, 6:
		g.sym("(")
		k := 0
		if g.rich && g.p(1, 60) {
			k = 10 + g.n(100)
		}
		s := ""
		for i := 0; i < k; i++ {
			g.sym("(")
			s += "(paren (E (S (T "
		}
		s += "(paren " + g.expr(d-1) + ")"
		g.sym(")")
		for i := 0; i < k; i++ {
			g.sym(")")
			s += "))))"
		}
		g.feat("parentheses")
		return s
	case 7:
		g.kw("not")
		g.feat("not")
		return "(not " + g.factor(d-1) + ")"
	case 8:
		g.sym("[")
		s := "(set"
		for i, c := 0, g.count(0, 3); i < c; i++ {
			if i > 0 {
				g.sym(",")
			}
			s += " " + g.expr(d-2)
			if g.p(1, 3) {
				g.sym("..")
				s += ".." + g.expr(d-2)
				g.feat("set range")
			}
		}
		g.sym("]")
		g.feat("set")
		return s + ")"
	case 9:
		g.sym("@")
		s, _, _ := g.designator(d, false)
		g.feat("address")
		return "(@ " + s + ")"
	case 10, 11:
		// cast
		ts := g.visible(func(x *gdecl) bool { return isTypeDecl(x) && x.name != "String" })
		if len(ts) > 0 {
			t := ts[g.n(len(ts))]
			_, a := g.ident(t.name)
			g.sym("(")
			e := g.expr(d - 1)
			g.sym(")")
			g.feat("cast")
			return "(cast (tid " + a + refOf(t) + ") " + e + ")"
		}
	}
	s, decl, items := g.designator(d, false)
	if g.p(1, 3) && !(isTypeDecl(decl) && items == 0) {
		if a := g.args(d); a != "" {
			s += " call(" + a + ")"
		} else {
			g.feat("call without arguments")
		}
		g.feat("call in expression")
		if isTypeDecl(decl) {
			g.feat("call of a designator that starts with a type name")
		}
	}
	g.feat("designator")
	return "(D " + s + ")"
}
