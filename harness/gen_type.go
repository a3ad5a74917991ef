package main

import "strings"

var unknownType = &gtype{typeDecl: true}

// typeIdRef emits a type name and returns "(tid ...)".
func (g *Gen) typeIdRef(want func(*gtype) bool) string {
	s, _ := g.typeId(want, true)
	return s
}

// typeId emits a type name. want filters the types it may stand for (nil: any,
// also undeclared ones).
func (g *Gen) typeId(want func(*gtype) bool, undeclared bool) (string, *gtype) {
	ok := func(d *gdecl) bool { return isTypeDecl(d) && (want == nil || want(d.typ)) }
	// by unit
	if g.p(1, 6) {
		type cand struct{ ns, m *gdecl }
		var cs []cand
		for _, ns := range g.visible(func(d *gdecl) bool { return isNamespace(d) && (d.kind != "UsesClauseItem" || d.unit != nil) }) {
			for _, m := range g.namespaceMembers(ns) {
				if ok(m) {
					cs = append(cs, cand{ns, m})
				}
			}
		}
		if len(cs) > 0 {
			c := cs[g.n(len(cs))]
			_, a := g.ident(c.ns.name)
			g.sym(".")
			_, b := g.ident(c.m.name)
			g.feat("type of a unit")
			return "(tid " + a + "." + b + refOf(c.m) + ")", c.m.typ
		}
	}
	if want == nil && undeclared && g.p(1, 6) {
		// name without declaration, perhaps declared later in this section
		for try := 0; try < 5; try++ {
			nm := g.anyName()
			if g.p(1, 2) && len(g.pend) > 0 {
				nm = g.pendName()
			}
			k := strings.ToLower(nm)
			if g.selfType != "" && g.p(1, 4) {
				nm, k = g.selfType, g.selfType
			}
			if g.scope.lookup(nm) != nil || (k != g.selfType && !g.usable(k)) {
				continue
			}
			return g.undeclaredType(nm)
		}
	}
	if want == nil && undeclared && g.p(1, 20) {
		if ns := g.visible(func(d *gdecl) bool { return d.kind == "UsesClauseItem" && d.unit == nil }); len(ns) > 0 {
			_, a := g.ident(ns[g.n(len(ns))].name)
			g.sym(".")
			_, b := g.ident(g.anyName())
			g.feat("type of a unit which is not loaded")
			return "(tid " + a + "." + b + g.refTo(nil) + ")", &gtype{}
		}
	}
	own := g.visible(func(d *gdecl) bool { return ok(d) && d.emb == "" })
	if len(own) > 0 && g.p(1, 2) {
		d := own[g.n(len(own))]
		g.noteOuter(d)
		_, a := g.ident(d.name)
		g.feat("declared type name")
		return "(tid " + a + refOf(d) + ")", d.typ
	}
	var em []*gdecl
	for _, d := range g.visible(func(d *gdecl) bool { return ok(d) && d.emb != "" }) {
		em = append(em, d)
	}
	if len(em) == 0 {
		if len(own) > 0 {
			d := own[g.n(len(own))]
			g.noteOuter(d)
			_, a := g.ident(d.name)
			return "(tid " + a + refOf(d) + ")", d.typ
		}
		panic("no type satisfies the filter")
	}
	d := em[g.n(len(em))]
	var a string
	if d.name == "String" {
		o := g.tok('k', "string")
		a = "\x02" + itoa(o) + "\x03"
	} else {
		_, a = g.ident(d.name)
	}
	g.feat("predefined type name")
	return "(tid " + a + refOf(d) + ")", d.typ
}

// noteOuter remembers the outer types which a type section has used.
func (g *Gen) noteOuter(d *gdecl) {
	k := strings.ToLower(d.name)
	if g.inType > 0 && g.secScope.names[k] != d {
		g.secUsed[k] = true
	}
}

func (g *Gen) pendName() string {
	// map order must not decide: take the smallest
	best := ""
	for k := range g.pend {
		if best == "" || k < best {
			best = k
		}
	}
	return best
}

func (g *Gen) undeclaredType(nm string) (string, *gtype) {
	_, a := g.ident(nm)
	ph := g.newDecl(&gdecl{miss: true})
	if g.inType > 0 {
		k := strings.ToLower(nm)
		g.pend[k] = append(g.pend[k], ph)
		g.feat("type name before its declaration")
		return "(tid " + a + refOf(ph) + ")", unknownType
	}
	g.feat("undeclared type name")
	return "(tid " + a + refOf(ph) + ")", &gtype{typeDecl: false}
}

func isOrd(t *gtype) bool { return t != nil && t.ordinal }

// ordType emits an ordinal type.
func (g *Gen) ordType(d int) string {
	switch g.n(5) {
	case 0, 1:
		s, _ := g.subrange(d)
		return s
	case 2:
		if g.spend(2) {
			return g.enum(d)
		}
	}
	s, _ := g.typeId(isOrd, false)
	return s
}

func (g *Gen) subrange(d int) (string, *gtype) {
	var lo string
	switch g.n(3) {
	case 0:
		cs := g.visible(func(x *gdecl) bool {
			return x.kind == "ConstantDecl" || x.kind == "EnumeratedTypeElement"
		})
		if len(cs) > 0 {
			c := cs[g.n(len(cs))]
			if embeddedKind(c.name) == "" {
				_, a := g.ident(c.name)
				lo = "(E (S (T (D " + a + refOf(c) + "))))"
				g.feat("subrange of names")
				break
			}
		}
		fallthrough
	case 1:
		_, s := g.strLit()
		lo = "(E (S (T (str " + s + "))))"
		g.feat("subrange of characters")
	default:
		lo = "(E (S (T (num " + g.number() + "))))"
		g.feat("subrange of numbers")
	}
	g.sym("..")
	hi := g.expr(d - 2)
	return "(range " + lo + " .. " + hi + ")", &gtype{ordinal: true}
}

func embeddedKind(name string) string {
	for n, k := range embeddedNames {
		if strings.EqualFold(n, name) {
			return k
		}
	}
	return ""
}

func (g *Gen) enum(d int) string {
	g.sym("(")
	s := "(enum"
	for i, c := 0, g.count(1, 4); i < c; i++ {
		if i > 0 {
			g.sym(",")
		}
		nm := g.freshIn(g.scope, nil)
		o, a := g.ident(nm)
		s += " " + a
		if g.p(1, 5) {
			g.sym("=")
			rel := g.hold(nm)
			s += "=" + g.expr(d-2)
			rel()
			g.feat("enum value")
		}
		g.declare(&gdecl{tag: g.f.tag, ord: o, kind: "EnumeratedTypeElement", name: nm})
	}
	g.sym(")")
	g.feat("enum")
	return s + ")"
}

// typ emits any type (no class declarations).
func (g *Gen) typ(d int) (string, *gtype) {
	if d <= 0 || g.simpleTy || !g.spend(2) {
		return g.typeId(nil, true)
	}
	if k := g.giant(12); k > 0 {
		g.feat("deep type")
		return g.deepType(k, d, g.n(6)-1), &gtype{}
	}
	switch g.n(20) {
	case 0, 1:
		s, t := g.subrange(d)
		return s, t
	case 2, 3:
		return g.enum(d), &gtype{ordinal: true}
	case 4:
		o := g.tok('k', "string")
		g.sym("[")
		e := g.expr(d - 2)
		g.sym("]")
		g.feat("string with length")
		return "(string[] (tid \x02" + itoa(o) + "\x03" + refOf(g.scope.lookup("string")) + ") " + e + ")", &gtype{str: true}
	case 5, 6, 7:
		return g.arrayType(d), &gtype{}
	case 8:
		return g.packed() + g.setType(d), &gtype{}
	case 9:
		p := g.packed()
		g.kw("file", "of")
		s := "(" + strings.TrimPrefix(p, "(") + "file of " + g.typeIdRef(nil) + ")"
		g.feat("file")
		return s, &gtype{}
	case 10, 11, 12:
		return g.recordType(d), &gtype{}
	case 13, 14:
		g.sym("^")
		g.feat("pointer")
		return "(ptr " + g.typeIdRef(nil) + ")", &gtype{ptr: true}
	case 15:
		return g.procType(d), &gtype{}
	case 16:
		g.kw("class", "of")
		g.feat("class reference")
		s, _ := g.typeIdNotString(nil)
		return "(classref " + s + ")", &gtype{}
	}
	return g.typeId(nil, true)
}

// typeIdNotString is a type name which is an identifier.
func (g *Gen) typeIdNotString(want func(*gtype) bool) (string, *gtype) {
	return g.typeId(func(t *gtype) bool { return !t.str && (want == nil || want(t)) }, false)
}

// packed emits PACKED or nothing and returns the opening "(" with its mark.
func (g *Gen) packed() string {
	if g.p(1, 4) {
		g.kw("packed")
		g.feat("packed")
		return "(packed "
	}
	return "("
}

func (g *Gen) setType(d int) string {
	g.kw("set", "of")
	g.feat("set type")
	return "set of " + g.ordType(d-1) + ")"
}

func (g *Gen) arrayType(d int) string {
	p := g.packed()
	g.kw("array")
	s := "array ["
	if g.p(3, 4) {
		g.sym("[")
		for i, c := 0, g.count(1, 2); i < c; i++ {
			if i > 0 {
				g.sym(",")
				s += " "
			}
			s += g.ordType(d - 1)
		}
		g.sym("]")
		g.feat("array with index")
	} else {
		g.feat("dynamic array")
	}
	g.kw("of")
	t, _ := g.typ(d - 1)
	return p + s + "] of " + t + ")"
}

func (g *Gen) recordType(d int) string {
	p := g.packed()
	g.kw("record")
	s := p + "record" + g.fieldList(d-1, true)
	g.kw("end")
	g.feat("record")
	return s + ")"
}

func (g *Gen) fieldList(d int, top bool) string {
	s := ""
	names := map[string]bool{}
	k := g.count(0, 3)
	variant := d > 0 && g.p(1, 3) && g.spend(2)
	for i := 0; i < k; i++ {
		s += " ([" + g.localNames(names, 3) + "] "
		g.sym(":")
		t, _ := g.typ(d - 1)
		s += t + ")"
		if i < k-1 || variant || g.p(2, 3) {
			g.sym(";")
		}
	}
	if variant {
		g.kw("case")
		s += " (variant "
		if g.p(1, 2) {
			nm := g.memberName(names)
			_, a := g.ident(nm)
			g.sym(":")
			s += a + ": "
			g.feat("variant tag field")
		}
		t, _ := g.typeIdNotString(isOrd)
		s += t
		g.kw("of")
		for i, c := 0, g.count(1, 3); i < c; i++ {
			s += " ("
			for j, m := 0, g.count(1, 2); j < m; j++ {
				if j > 0 {
					g.sym(",")
				}
				s += g.constExpr(d-2) + " "
			}
			g.sym(":")
			g.sym("(")
			s += "->" + g.fieldList(d-1, false) + ")"
			g.sym(")")
			if i < c-1 || g.p(1, 2) {
				g.sym(";")
			}
		}
		s += ")"
		if top {
			g.feat("variant record")
		} else {
			g.feat("nested variant")
		}
	}
	return s
}

func (g *Gen) memberName(used map[string]bool) string {
	for try := 0; ; try++ {
		nm := g.anyName()
		if try > 10 {
			nm = "m" + itoa(g.n(100000))
		}
		k := strings.ToLower(nm)
		if used[k] || isNamespace(g.scope.lookup(nm)) || visibilityWord(k) {
			continue
		}
		used[k] = true
		return nm
	}
}

func visibilityWord(k string) bool {
	return k == "private" || k == "protected" || k == "public" || k == "published"
}

// localNames emits an identifier list of member names.
func (g *Gen) localNames(used map[string]bool, max int) string {
	s := ""
	for i, c := 0, g.count(1, max); i < c; i++ {
		if i > 0 {
			g.sym(",")
			s += " "
		}
		_, a := g.ident(g.memberName(used))
		s += a
	}
	return s
}

func (g *Gen) procType(d int) string {
	isFunc := g.p(1, 2)
	s := "(proctype"
	if isFunc {
		g.kw("function")
		s = "(functype"
	} else {
		g.kw("procedure")
	}
	pop := g.push()
	s += g.params(d, "(", ")", false)
	if isFunc {
		g.sym(":")
		s += " : " + g.returnType()
	}
	pop()
	if g.p(1, 3) {
		g.kw("of", "object")
		s += " ofobject"
		g.feat("of object")
	}
	g.feat("procedural type")
	return s + ")"
}

func (g *Gen) returnType() string {
	s, _ := g.typeId(nil, true)
	return s
}

// params emits an optional parameter list; the names are declared in the
// current scope, which the caller has pushed.
func (g *Gen) params(d int, open, close string, required bool) string {
	if !required && g.p(1, 3) {
		return ""
	}
	g.sym(open)
	k := g.count(0, 3)
	if required && k == 0 || open == "[" && k == 0 {
		k = 1
	}
	if k == 0 {
		g.sym(close)
		g.feat("empty parameter list")
		return ""
	}
	s := " (params"
	for i := 0; i < k; i++ {
		if i > 0 {
			g.sym(";")
		}
		s += " ("
		mode := ""
		if g.p(1, 2) {
			mode = g.pick([]string{"var", "const", "out"})
			g.kw(mode)
			s += strings.ToUpper(mode) + " "
			g.feat("parameter " + mode)
		}
		type pn struct {
			o  int
			nm string
		}
		var ns []pn
		taken := map[string]bool{}
		s += "["
		cnt := g.count(1, 3)
		for j := 0; j < cnt; j++ {
			if j > 0 {
				g.sym(",")
				s += " "
			}
			nm := g.freshIn(g.scope, taken)
			taken[strings.ToLower(nm)] = true
			o, a := g.ident(nm)
			ns = append(ns, pn{o, nm})
			s += a
		}
		s += "]"
		var names []string
		for _, x := range ns {
			names = append(names, x.nm)
		}
		rel := g.hold(names...)
		if mode == "" && !g.p(1, 8) || mode != "" && g.p(4, 5) {
			g.sym(":")
			switch {
			case open == "(" && g.p(1, 6):
				g.kw("array", "of")
				if g.p(1, 4) {
					g.kw("const")
					s += " arrayof const"
					g.feat("array of const")
				} else {
					s += " arrayof " + g.typeIdRef(nil)
					g.feat("open array")
				}
			default:
				s += " " + g.typeIdRef(nil)
			}
			if g.p(1, 5) {
				g.sym("=")
				// names of this group are not declared yet; avoid them
				s += " = " + g.constLit()
				g.feat("default parameter value")
			}
		} else {
			g.feat("untyped parameter")
		}
		s += ")"
		rel()
		// one group is one declaration node with several names
		for _, x := range ns {
			g.declare(&gdecl{tag: g.f.tag, ord: x.o, kind: "FormalParm", name: x.nm})
		}
	}
	g.sym(close)
	g.feat("parameters")
	return s + ")"
}

// constLit is a literal expression.
func (g *Gen) constLit() string {
	switch g.n(4) {
	case 0:
		return "(E (S (T (num " + g.number() + "))))"
	case 1:
		_, s := g.strLit()
		return "(E (S (T (str " + s + "))))"
	case 2:
		g.kw("nil")
		return "(E (S (T nil)))"
	}
	return "(E (S (T (val " + rawOf(g.word("True")) + "))))"
}
