package main

import (
	"sort"
	"strings"
)

var portWords = []string{"platform", "deprecated", "library"}

func (g *Gen) portability(den int) string {
	if !g.p(1, den) {
		return ""
	}
	w := g.pick(portWords)
	if w == "library" {
		g.kw(w)
	} else {
		g.word(w)
	}
	g.feat("portability directive")
	return " pd:" + w
}

// freshNames draws several names for one declaration in the current scope.
func (g *Gen) freshNames(n int) []string {
	var out []string
	taken := map[string]bool{}
	for i := 0; i < n; i++ {
		nm := g.freshIn(g.scope, taken)
		taken[strings.ToLower(nm)] = true
		out = append(out, nm)
	}
	return out
}

func (g *Gen) identList(names []string) (string, []int) {
	s := "["
	var os []int
	for i, n := range names {
		if i > 0 {
			g.sym(",")
			s += " "
		}
		o, a := g.ident(n)
		os = append(os, o)
		s += a
	}
	return s + "]", os
}

// ---- constants

func (g *Gen) constSection(d int) string {
	g.kw("const")
	s := "(const"
	for i, c := 0, g.count(1, 3); i < c; i++ {
		nm := g.freshIn(g.scope, nil)
		o, a := g.ident(nm)
		g.declare(&gdecl{tag: g.f.tag, ord: o, kind: "ConstantDecl", name: nm})
		rel := g.hold(nm)
		s += " (" + a
		if g.p(1, 3) {
			g.sym(":")
			s += " : " + g.typNoTail(d-1)
			g.feat("typed constant")
		}
		g.sym("=")
		s += " = " + g.expr(d-1)
		rel()
		s += g.portability(8)
		g.sym(";")
		s += ")"
	}
	g.feat("const section")
	return s + ")"
}

// typNoTail is a type which does not end in an expression, so '=' may follow.
func (g *Gen) typNoTail(d int) string {
	if d > 0 && g.spend(1) {
		switch g.n(8) {
		case 0:
			return g.enum(d)
		case 1:
			return g.recordType(d)
		case 2:
			g.sym("^")
			return "(ptr " + g.typeIdRef(nil) + ")"
		case 3:
			return g.procType(d)
		case 4:
			g.kw("array")
			g.sym("[")
			s := "(array [" + g.ordType(d-1) + "] of "
			g.sym("]")
			g.kw("of")
			return s + g.typNoTail(d-1) + ")"
		}
	}
	s, _ := g.typeId(nil, true)
	return s
}

// ---- variables

func (g *Gen) varSection(d int) string {
	g.kw("var")
	s := "(var"
	for i, c := 0, g.count(1, 3); i < c; i++ {
		names := g.freshNames(g.count(1, 3))
		rel := g.hold(names...)
		l, os := g.identList(names)
		g.sym(":")
		s += " (" + l + " "
		switch {
		case g.p(1, 6):
			s += g.typNoTail(d - 1)
			g.word("absolute")
			_, a := g.ident(g.anyName())
			s += " absolute " + a
			g.feat("absolute")
		case g.p(1, 4):
			s += g.typNoTail(d - 1)
			g.sym("=")
			s += " = " + g.expr(d-1)
			g.feat("initialized variable")
		default:
			t, _ := g.typ(d - 1)
			s += t
		}
		s += g.portability(10)
		rel()
		for j, n := range names {
			g.declare(&gdecl{tag: g.f.tag, ord: os[j], kind: "VarDecl", name: n})
		}
		g.sym(";")
		s += ")"
	}
	g.feat("var section")
	return s + ")"
}

func (g *Gen) threadVarSection(d int) string {
	g.kw("threadvar")
	s := "(threadvar"
	for i, c := 0, g.count(1, 2); i < c; i++ {
		names := g.freshNames(g.count(1, 2))
		rel := g.hold(names...)
		l, os := g.identList(names)
		g.sym(":")
		t, _ := g.typ(d - 1)
		s += " (" + l + " " + t + ")"
		rel()
		for j, n := range names {
			g.declare(&gdecl{tag: g.f.tag, ord: os[j], kind: "ThreadVarDecl", name: n})
		}
		g.sym(";")
	}
	g.feat("threadvar section")
	return s + ")"
}

func (g *Gen) labelSection() string {
	g.kw("label")
	nm := g.freshIn(g.scope, nil)
	o, a := g.ident(nm)
	g.sym(";")
	g.declare(&gdecl{tag: g.f.tag, ord: o, kind: "LabelDeclSection", name: nm})
	g.feat("label section")
	return "(label " + a + ")"
}

// ---- types

func (g *Gen) typeSection(d int) string {
	g.kw("type")
	s := "(type"
	oldPend, oldScope, oldUsed, oldRes, oldFwd := g.pend, g.secScope, g.secUsed, g.secRes, g.fwd
	g.pend, g.secScope, g.secUsed, g.secRes, g.fwd = map[string][]*gdecl{}, g.scope, map[string]bool{}, map[string][]*gdecl{}, nil
	g.inType++
	c := g.count(1, 4)
	for i := 0; i < c || g.chainCls > 0; i++ {
		if g.wantCls > 0 && g.p(g.wantCls, 12) && len(g.fwd) < 4 {
			nm := g.typeName(true)
			o, a := g.ident(nm)
			g.sym("=")
			g.kw("class")
			s += " (" + a + " (forwardclass actual)" + g.declareType(nm, o, &gtype{typeDecl: true, forward: true}) + ")"
			g.sym(";")
			g.fwd = append(g.fwd, nm)
			g.feat("forward class")
		}
		s += g.typeDecl(d, "")
		if len(g.fwd) > 0 && g.p(1, 3) {
			s += g.completeForward(d)
		}
	}
	for len(g.fwd) > 0 {
		s += g.completeForward(d)
	}
	g.inType--
	var ks []string
	for k := range g.secRes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x := g.scope.names[k]
		for _, ph := range g.secRes[k] {
			ph.miss, ph.tag, ph.ord, ph.kind = false, x.tag, x.ord, x.kind
			g.feat("type name resolved at the end of the section")
		}
	}
	g.pend, g.secScope, g.secUsed, g.secRes, g.fwd = oldPend, oldScope, oldUsed, oldRes, oldFwd
	g.feat("type section")
	return s + ")"
}

func (g *Gen) completeForward(d int) string {
	i := g.n(len(g.fwd))
	nm := g.fwd[i]
	g.fwd = append(append([]string{}, g.fwd[:i]...), g.fwd[i+1:]...)
	return g.typeDecl(d, nm)
}

// typeName draws the name of a new type of the section.
func (g *Gen) typeName(fwd bool) string {
	if len(g.pend) > 0 && g.p(1, 2) {
		var ks []string
		for k := range g.pend {
			if g.scope.names[k] == nil && g.held[k] == 0 && !isNamespace(g.scope.lookup(k)) {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		if len(ks) > 0 {
			return ks[g.n(len(ks))]
		}
	}
	return g.freshIn(g.scope, g.secUsed)
}

// declareType declares a type and notes the references waiting for it.
func (g *Gen) declareType(nm string, o int, t *gtype) string {
	k := strings.ToLower(nm)
	g.declare(&gdecl{tag: g.f.tag, ord: o, kind: "TypeDecl", name: nm, typ: t})
	if l := g.pend[k]; len(l) > 0 {
		g.secRes[k] = append(g.secRes[k], l...)
	}
	delete(g.pend, k)
	return ""
}

func (g *Gen) typeDecl(d int, forward string) string {
	nm := forward
	if nm == "" {
		nm = g.typeName(false)
	}
	k := strings.ToLower(nm)
	o, a := g.ident(nm)
	g.sym("=")
	oldSelf := g.selfType
	var body string
	var t *gtype
	cls := forward != "" || g.chainCls > 0 || (g.wantCls > 0 && g.p(g.wantCls, 10) && g.spend(3))
	if forward == "" {
		g.selfType = k
		if g.p(1, 15) && !cls {
			g.kw("type")
			g.feat("type of a type")
		}
	}
	if cls {
		body, t = g.classType(d)
	} else {
		body, t = g.typ(d)
	}
	g.selfType = oldSelf
	s := " (" + a + " " + body
	g.declareType(nm, o, t)
	if !cls || strings.EqualFold(g.f.toks[len(g.f.toks)-1].text, "end") {
		s += g.portability(10)
	}
	g.sym(";")
	return s + ")"
}

// ---- classes

func (g *Gen) externType() string {
	g.extSeq++
	nm := "TExtern" + itoa(g.extSeq)
	_, a := g.ident(nm)
	return "(tid " + a + g.refTo(nil) + ")"
}

func (c *gclass) lineage() []*gclass {
	var out []*gclass
	for ; c != nil; c = c.parent {
		out = append(out, c)
	}
	return out
}

// member finds what a name means inside the class c (own ones of any
// visibility, inherited ones which are not private).
func (c *gclass) member(name string) *gmember {
	for _, x := range c.lineage() {
		for _, m := range x.members {
			if strings.EqualFold(m.name, name) && (x == c || m.vis != "PRIVATE") {
				return m
			}
		}
	}
	return nil
}

func (c *gclass) property(name string) *gmember {
	for _, x := range c.lineage() {
		for _, m := range x.members {
			if m.prop != nil && strings.EqualFold(m.name, name) {
				return m
			}
		}
	}
	return nil
}

func (p *gprop) computed() gprop {
	r := *p
	if p.parent == nil {
		return r
	}
	q := p.parent.computed()
	or := func(a *string, b string) {
		if *a == "" {
			*a = b
		}
	}
	or(&r.iface, q.iface)
	or(&r.index, q.index)
	or(&r.read, q.read)
	or(&r.write, q.write)
	or(&r.stored, q.stored)
	or(&r.deflt, q.deflt)
	or(&r.impl, q.impl)
	return r
}

func (g *Gen) classType(d int) (string, *gtype) {
	cls := &gclass{}
	g.classes = append(g.classes, cls)
	g.kw("class")
	s := "(class"
	g.feat("class")
	heritage := g.p(2, 3) || g.chainCls > 0
	if heritage {
		g.sym("(")
		s += " (heritage"
		isClass := func(t *gtype) bool { return t != nil && t.class != nil }
		if g.chainCls > 0 && len(g.classes) > 0 {
			// the latest class that can be named
			for i := len(g.classes) - 2; i >= 0; i-- {
				last := g.classes[i]
				isClass = func(t *gtype) bool { return t != nil && t.class == last }
				if len(g.visible(func(x *gdecl) bool { return isTypeDecl(x) && isClass(x.typ) })) > 0 {
					break
				}
			}
		}
		cs := g.visible(func(x *gdecl) bool { return isTypeDecl(x) && isClass(x.typ) })
		if len(cs) > 0 && (g.chainCls > 0 || g.p(5, 6)) {
			t, ty := g.typeId(isClass, false)
			s += " " + t
			cls.parent = ty.class
			g.feat("class with ancestor")
		} else {
			s += " " + g.externType()
			g.feat("class with unknown ancestor")
		}
		for g.p(1, 6) {
			g.sym(",")
			s += " " + g.externType()
			g.feat("class with interfaces")
		}
		g.sym(")")
		s += ")"
		if g.p(1, 8) {
			g.feat("class without body")
			if g.chainCls > 0 {
				g.chainCls--
			}
			return s + ")", &gtype{typeDecl: true, class: cls}
		}
	}
	used := map[string]bool{}
	k := g.count(0, 3)
	if g.chainCls > 0 {
		g.chainCls--
		k = g.n(2) * g.n(2)
	}
	if k == 0 && !heritage {
		k = 1
	}
	for i := 0; i < k; i++ {
		vis := g.pick([]string{"private", "protected", "public", "published"})
		if i == 0 && g.p(1, 2) {
			vis = "default"
		} else {
			g.word(vis)
			vis = strings.ToUpper(vis)
		}
		g.feat("section " + vis)
		s += g.classSection(d, cls, used, vis, i == k-1)
	}
	g.classEnd[len(g.f.toks)] = true
	g.kw("end")
	return s + ")", &gtype{typeDecl: true, class: cls}
}

func (g *Gen) classSection(d int, cls *gclass, used map[string]bool, vis string, last bool) string {
	s := "\n   (" + vis
	nf, nm, np := g.count(0, 2), g.n(3), g.n(4)
	if vis == "default" && nf+nm+np == 0 {
		nf = 1
	}
	add := func(m *gmember) { m.vis = vis; cls.members = append(cls.members, m) }
	var fields []*gmember
	for i := 0; i < nf; i++ {
		var names []string
		for j, c := 0, g.count(1, 3); j < c; j++ {
			names = append(names, g.memberName(used))
		}
		l, os := g.identList(names)
		g.sym(":")
		t, _ := g.typ(d - 2)
		s += " (field " + l + " " + t + ")"
		if i < nf-1 || nm+np > 0 || !last || g.p(2, 3) {
			g.sym(";")
		}
		for j, n := range names {
			fields = append(fields, &gmember{name: n, decl: g.newDecl(&gdecl{tag: g.f.tag, ord: os[j], kind: "ClassField", name: n})})
		}
		g.feat("class field")
	}
	for _, m := range fields {
		add(m)
	}
	for i := 0; i < nm; i++ {
		n := g.memberName(used)
		x, o := g.method(d, n)
		s += x
		add(&gmember{name: n, decl: g.newDecl(&gdecl{tag: g.f.tag, ord: o, kind: "ClassMethod", name: n})})
	}
	var props []*gmember
	for i := 0; i < np; i++ {
		x, m := g.propertyDecl(d, cls, used, vis)
		s += x
		props = append(props, m)
	}
	for _, m := range props {
		add(m)
	}
	return s + ")"
}

var methodDirs = []string{"abstract", "virtual", "override", "overload", "reintroduce"}

func (g *Gen) method(d int, name string) (string, int) {
	s := " (method "
	pop := g.push()
	defer pop()
	var o int
	var a string
	k := g.n(6)
	if g.p(1, 5) {
		g.kw("class")
		s += "class "
		g.feat("class method")
		if k < 2 {
			g.feat("class constructor or destructor")
		}
	}
	switch k {
	case 0:
		g.kw("constructor")
		o, a = g.ident(name)
		s += "constructor " + a + g.params(d, "(", ")", false)
		g.feat("constructor")
	case 1:
		g.kw("destructor")
		o, a = g.ident(name)
		s += "destructor " + a
		g.feat("destructor")
	default:
		if g.p(1, 2) {
			g.kw("function")
			o, a = g.ident(name)
			s += "function " + a + g.params(d, "(", ")", false)
			g.sym(":")
			s += " : " + g.returnType()
		} else {
			g.kw("procedure")
			o, a = g.ident(name)
			s += "procedure " + a + g.params(d, "(", ")", false)
		}
		g.feat("method")
	}
	g.sym(";")
	if g.p(1, 3) {
		s += " dir["
		for i, c := 0, 1+g.n(3); i < c; i++ {
			w := g.pick(methodDirs)
			g.word(w)
			g.sym(";")
			if i > 0 {
				s += " "
			}
			s += strings.ToUpper(w)
		}
		s += "]"
		g.feat("method directive")
	}
	return s + ")", o
}

// accessor emits the name of a field or method which the class can see, or "".
func (g *Gen) accessor(cls *gclass) string {
	// the nearest visible member of each name
	var cs []*gmember
	seen := map[string]bool{}
	for _, x := range cls.lineage() {
		for _, m := range x.members {
			k := strings.ToLower(m.name)
			if seen[k] || (x != cls && m.vis == "PRIVATE") {
				continue
			}
			seen[k] = true
			if m.prop == nil && k != "true" && k != "false" {
				cs = append(cs, m)
			}
		}
	}
	if len(cs) == 0 {
		return ""
	}
	m := cs[g.n(len(cs))]
	own := false
	for _, x := range cls.members {
		if x == m {
			own = true
		}
	}
	if own {
		g.feat("own accessor")
	} else {
		g.feat("inherited accessor")
	}
	o, a := g.ident(m.name)
	g.accSites = append(g.accSites, accSite{g.f, o, cls})
	return a + refOf(m.decl)
}

// accSite is a place where a class names one of its members.
type accSite struct {
	f   *gfile
	ord int
	cls *gclass
}

func (c *gclass) hasAccessor() bool {
	for _, x := range c.lineage() {
		for _, m := range x.members {
			if m.prop == nil && (x == c || m.vis != "PRIVATE") {
				if r := c.member(m.name); r != nil && r.prop == nil {
					return true
				}
			}
		}
	}
	return false
}

func (g *Gen) propertyDecl(d int, cls *gclass, used map[string]bool, vis string) (string, *gmember) {
	g.kw("property")
	var name string
	var inh *gmember
	if cls.parent != nil && g.p(1, 2) {
		var cs []*gmember
		for _, x := range cls.parent.lineage() {
			for _, m := range x.members {
				if m.prop != nil && !used[strings.ToLower(m.name)] && cls.parent.property(m.name) == m && m.vis != "PRIVATE" {
					cs = append(cs, m)
				}
			}
		}
		if len(cs) > 0 {
			inh = cs[g.n(len(cs))]
			name = inh.name
			used[strings.ToLower(name)] = true
		}
	}
	for name == "" {
		name = g.memberName(used)
		if cls.parent != nil && cls.parent.property(name) != nil {
			name = "" // nearest inherited property is private or was not chosen
		}
	}
	o, a := g.ident(name)
	p := &gprop{}
	g.feat("property")
	if inh == nil || g.p(1, 3) {
		s := ""
		pop := g.push()
		if g.p(1, 4) {
			s += g.params(d, "[", "]", true)
			g.feat("array property")
		}
		g.sym(":")
		s += " : " + g.typeIdRef(nil)
		pop()
		p.iface = s
	}
	if g.p(1, 5) {
		g.word("index")
		p.index = g.expr(d - 2)
	}
	has := cls.hasAccessor()
	if has && g.p(2, 3) {
		g.word("read")
		p.read = g.accessor(cls)
	}
	if has && g.p(1, 2) {
		g.word("write")
		p.write = g.accessor(cls)
	}
	if g.p(1, 4) {
		g.word("stored")
		if has && g.p(1, 2) {
			p.stored = g.accessor(cls)
		} else {
			w := g.pick([]string{"true", "false"})
			g.word(w)
			p.stored = w
		}
	}
	switch g.n(5) {
	case 0:
		g.word("default")
		p.deflt = " default " + g.expr(d-2)
	case 1:
		g.word("nodefault")
		p.deflt = " nodefault true"
	}
	if g.p(1, 8) {
		g.word("implements")
		p.impl = g.externType()
		g.feat("implements")
	}
	g.sym(";")
	s := " (property " + a + p.text()
	if inh != nil {
		q := inh.prop.computed()
		if (q.iface != "" && p.iface == "") || (q.index != "" && p.index == "") || (q.read != "" && p.read == "") || (q.write != "" && p.write == "") {
			p.parent = inh.prop
			s += " parent^{" + inh.decl.tag + "#" + itoa(inh.decl.ord) + "}"
			g.feat("property with inherited part")
			for i, c := range cls.lineage() {
				for _, m := range c.members {
					if m == inh && i > 16 {
						g.feat("property inherited from more than 16 classes above")
					}
				}
			}
		} else {
			g.feat("property redeclared in full")
		}
	}
	p.decl = g.newDecl(&gdecl{tag: g.f.tag, ord: o, kind: "ClassProperty", name: name})
	// the computed form is read in other files too: make its places absolute
	abs := func(t *string) { *t = absolute(*t, g.f.tag) }
	abs(&p.iface)
	abs(&p.index)
	abs(&p.read)
	abs(&p.write)
	abs(&p.stored)
	abs(&p.deflt)
	abs(&p.impl)
	c := p.computed()
	s += "\x0e =>" + c.text() + "\x0f)"
	return s, &gmember{name: name, decl: p.decl, prop: p}
}

func (p *gprop) text() string {
	s := p.iface
	if p.index != "" {
		s += " index " + p.index
	}
	if p.read != "" {
		s += " read " + p.read
	}
	if p.write != "" {
		s += " write " + p.write
	}
	if p.stored != "" {
		s += " stored " + p.stored
	}
	s += p.deflt
	if p.impl != "" {
		s += " implements " + p.impl
	}
	return s
}

// absolute turns the place holders of identifiers and raw texts into ones which name their file.
func absolute(s, tag string) string {
	s = strings.NewReplacer("\x02", "\x0b"+tag+":", "\x03", "\x0c", "\x04", "\x10"+tag+":", "\x05", "\x11").Replace(s)
	return s
}

// ---- routines

var routineDirs = []string{"cdecl", "register", "pascal", "stdcall", "safecall", "overload", "far", "near", "export", "local", "varargs", "reintroduce", "override", "dynamic", "abstract"}

func (g *Gen) heading(d int, name string) (string, int) {
	var s string
	var o int
	var a string
	rel := g.hold(name)
	if g.p(1, 2) {
		g.kw("function")
		o, a = g.ident(name)
		s = "function " + a + g.params(d, "(", ")", false)
		g.sym(":")
		s += " : " + g.returnType()
		g.feat("function")
	} else {
		g.kw("procedure")
		o, a = g.ident(name)
		s = "procedure " + a + g.params(d, "(", ")", false)
		g.feat("procedure")
	}
	rel()
	g.sym(";")
	return s, o
}

func (g *Gen) externalOpts() string {
	g.word("external")
	s := ""
	switch g.n(4) {
	case 0:
	case 1:
		o, _ := g.strLit()
		s = " ext(" + rawOf(o) + ")"
	case 2:
		o, _ := g.strLit()
		g.word("name")
		o2, _ := g.strLit()
		s = " ext(" + rawOf(o) + " name " + rawOf(o2) + ")"
	default:
		o, _ := g.strLit()
		g.word("index")
		o2 := g.tok('n', g.pick([]string{"0", "1", itoa(g.n(5000)), itoa(g.n(5000)), "65536", "2147483648", "4294967295", "9223372036854775807"}))
		s = " ext(" + rawOf(o) + " index " + rawOf(o2) + ")"
	}
	g.sym(";")
	g.feat("external")
	return s
}

func (g *Gen) dirs(min int) []string {
	var ds []string
	for k := g.n(3) * g.n(2); k > 0 || min > 0; k, min = k-1, min-1 {
		w := g.pick(routineDirs)
		g.word(w)
		g.sym(";")
		ds = append(ds, strings.ToUpper(w))
		g.feat("routine directive")
	}
	return ds
}

func dirText(ds []string, ext string) string {
	s := ""
	if len(ds) > 0 {
		s = " dir[" + strings.Join(ds, " ") + "]"
	}
	return s + ext
}

// routine emits a routine declaration in the current scope.
func (g *Gen) routine(d int) string {
	var name string
	if g.p(1, 5) {
		// once more: after forward, or as an overload
		var cs []string
		for _, x := range g.scope.list {
			if x.kind == "FunctionDecl" && g.scope.names[strings.ToLower(x.name)] == x && g.usable(strings.ToLower(x.name)) {
				cs = append(cs, x.name)
			}
		}
		if len(cs) > 0 {
			name = cs[g.n(len(cs))]
			g.feat("routine declared again")
		}
	}
	if name == "" && g.unit != nil && g.unit.phase == 2 && g.scope == g.unit.implLocal && g.p(1, 2) {
		var cs []string
		for _, x := range g.unit.exports.list {
			k := strings.ToLower(x.name)
			if x.kind == "ExportedHeading" && g.scope.names[k] == nil && g.usable(k) {
				cs = append(cs, x.name)
			}
		}
		if len(cs) > 0 {
			name = cs[g.n(len(cs))]
			g.feat("routine of the interface implemented")
		}
	}
	if name == "" {
		name = g.freshIn(g.scope, nil)
	}
	outer := g.scope
	pop := g.push()
	h, o := g.heading(d, name)
	decl := g.declare(&gdecl{tag: g.f.tag, ord: o, kind: "FunctionDecl", name: name})
	ds := g.dirs(0)
	ext := ""
	body := true
	if g.spine == 0 {
		if g.spine = g.giant(8); g.spine > 300 {
			g.spine = 300
		}
		if g.spine > 0 {
			g.feat("deeply nested routines")
		}
	}
	form := g.n(8)
	if g.spine > 0 {
		form = 7
	}
	switch form {
	case 0:
		g.word("forward")
		g.sym(";")
		ds = append(ds, "FORWARD")
		body = false
		g.feat("forward routine")
	case 1:
		ext = g.externalOpts()
		ds = append(ds, "EXTERNAL")
		body = false
	}
	if !body {
		ds = append(ds, g.dirs(0)...)
	}
	s := "(routine " + h + dirText(ds, ext) + " "
	if body {
		s += g.block(d-1, true)
		g.sym(";")
	} else {
		s += "(block\n  nobody)"
	}
	pop()
	outer.put(decl)
	return s + ")"
}

func (g *Gen) exportedHeading(d int) string {
	name := ""
	if g.p(1, 8) {
		for _, x := range g.scope.list {
			if x.kind == "ExportedHeading" && g.usable(strings.ToLower(x.name)) {
				name = x.name
				g.feat("overloaded heading")
			}
		}
	}
	again := name != ""
	if name == "" {
		name = g.freshIn(g.scope, nil)
	}
	pop := g.push()
	h, o := g.heading(d, name)
	ds := g.dirs(0)
	ext := ""
	if g.p(1, 8) {
		ext = g.externalOpts()
		ds = append(ds, "EXTERNAL")
		ds = append(ds, g.dirs(0)...)
	}
	pop()
	decl := g.newDecl(&gdecl{tag: g.f.tag, ord: o, kind: "ExportedHeading", name: name})
	if !again {
		g.scope.put(decl)
	}
	g.feat("exported heading")
	return "(heading " + h + dirText(ds, ext) + ")"
}

// ---- blocks

func (g *Gen) exportsStmt(d int) string {
	g.kw("exports")
	s := "(exports"
	for i, c := 0, g.count(1, 3); i < c; i++ {
		if i > 0 {
			g.sym(",")
		}
		from, a := g.ident(g.anyName())
		s += " (" + a
		nm, ix := "", ""
		do := func(w string) {
			g.word(w)
			e := g.expr(d - 2)
			if w == "name" {
				nm = " name " + e
			} else {
				ix = " index " + e
			}
		}
		switch g.n(5) {
		case 0:
			do("name")
		case 1:
			do("index")
		case 2:
			do("name")
			do("index")
		case 3:
			do("index")
			do("name")
		}
		s += nm + ix + ")"
		g.exportToks = append(g.exportToks, [2]int{from, len(g.f.toks)})
	}
	g.sym(";")
	g.feat("exports")
	return s + ")"
}

// sameExport: both tokens belong to one item of an exports statement (the tree
// does not tell the order of its name and its index).
func (g *Gen) sameExport(a, b int) bool {
	for _, r := range g.exportToks {
		if a >= r[0] && a < r[1] && b >= r[0] && b < r[1] {
			return true
		}
	}
	return false
}

// declSections emits declaration sections; routines only if allowed.
func (g *Gen) declSections(d, min, max int) string {
	s := ""
	for i, c := 0, g.count(min, max); i < c; i++ {
		s += "\n  " + g.declSection(d)
	}
	return s
}

func (g *Gen) declSection(d int) string {
	if g.routines && d > 0 && g.p(1, 2) && g.spend(4) {
		return g.routine(d)
	}
	switch g.n(12) {
	case 0, 1:
		return g.constSection(d)
	case 2, 3, 4:
		return g.typeSection(d)
	case 5, 6:
		return g.varSection(d)
	case 7:
		return g.threadVarSection(d)
	case 8:
		return g.labelSection()
	}
	if d > 0 && g.spend(4) {
		return g.routine(d)
	}
	return g.varSection(d)
}

func (g *Gen) block(d int, routine bool) string {
	s := "(block"
	max := 2
	if !routine {
		max = 5
	}
	if routine && g.spine > 0 {
		g.spine--
		s += "\n  " + g.routine(d)
	}
	if d > 0 {
		s += g.declSections(d, 0, max)
	}
	for g.p(1, 12) {
		s += " " + g.exportsStmt(d)
	}
	s += "\n  "
	if routine && !g.noASM && g.p(1, 12) {
		g.asm()
		s += "(asm)"
		g.feat("assembler routine")
	} else {
		g.kw("begin")
		s += "(begin " + g.stmtList(d) + ")"
		g.kw("end")
	}
	for g.p(1, 15) {
		s += " (after " + g.exportsStmt(d) + ")"
		g.feat("exports after the body")
	}
	return s + ")"
}
