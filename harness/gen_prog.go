package main

import (
	"fmt"
	"strings"
)

var unitNames = []string{"UnitA", "UnitB", "uMain", "UTools", "Unit_1", "U2", "UData", "uForms", "UBase", "UExtra", "Ωmega", "Жук", "Ｆｏｏ"}
var libNames = []string{"Windows", "SysUtils", "Classes", "Forms"}

// usesItem is one item of a uses clause.
type usesItem struct {
	name string
	path string
	unit *gunit
}

func (g *Gen) usesClause(items []usesItem) (string, []*gdecl) {
	g.kw("uses")
	s := " (uses"
	var ds []*gdecl
	for i, it := range items {
		if i > 0 {
			g.sym(",")
		}
		o, a := g.ident(it.name)
		s += " (" + a
		if it.path != "" {
			g.kw("in")
			p := g.tok('q', "'"+it.path+"'")
			s += " in " + rawOf(p)
			g.feat("uses in path")
		}
		if it.unit != nil {
			s += " unit^{" + strings.ToLower(it.unit.name) + "}"
		}
		s += ")"
		ds = append(ds, g.newDecl(&gdecl{tag: g.f.tag, ord: o, kind: "UsesClauseItem", name: it.name, unit: it.unit}))
	}
	g.sym(";")
	g.feat("uses")
	return s + ")", ds
}

// libs draws names of units which are not loaded.
func (g *Gen) libs(max int, taken map[string]bool) []usesItem {
	var out []usesItem
	for i, c := 0, g.n(max+1); i < c; i++ {
		n := g.pick(libNames)
		if taken[n] {
			continue
		}
		taken[n] = true
		out = append(out, usesItem{name: n})
	}
	return out
}

// genProgram makes an in-memory program (no unit files).
func (g *Gen) genProgram(d int) *gfile {
	g.f = &gfile{tag: "P", path: "p.dpr"}
	g.kw("program")
	o, a := g.ident("Prog1")
	g.sym(";")
	s := "(program " + a
	if g.p(1, 3) {
		if items := g.libs(3, map[string]bool{}); len(items) > 0 {
			u, ds := g.usesClause(items)
			s += u
			g.scope = newScope(g.scope)
			for _, x := range ds {
				g.scope.put(x)
			}
			g.program = g.newDecl(&gdecl{tag: "P", ord: o, kind: "Program", name: "Prog1"})
			g.scope = newScope(g.scope)
			g.scope.put(g.program)
			g.progTop = g.scope
		}
	}
	if g.progTop == nil {
		g.scope = newScope(g.scope)
		g.progTop = g.scope
	}
	s += " " + g.block(d, false)
	g.sym(".")
	g.f.exp = s + ")"
	return g.f
}

func (g *Gen) unitHead(name string) string {
	g.kw("unit")
	o, a := g.ident(name)
	s := "(unit " + a + g.portability(8)
	g.sym(";")
	g.kw("interface")
	if g.unit != nil {
		g.unit.self = g.newDecl(&gdecl{tag: g.f.tag, ord: o, kind: "Unit", name: name})
	}
	return s + "\n (interface"
}

func (g *Gen) interfaceDecls(d int) string {
	s := ""
	for i, c := 0, g.count(0, 4); i < c; i++ {
		s += "\n  "
		switch g.n(9) {
		case 0, 1:
			s += g.constSection(d)
		case 2, 3, 4:
			s += g.typeSection(d)
		case 5:
			s += g.varSection(d)
		case 6:
			s += g.threadVarSection(d)
		default:
			s += g.exportedHeading(d)
		}
	}
	return s
}

func (g *Gen) unitTail(d int) string {
	s := ")"
	if g.p(1, 2) {
		g.kw("initialization")
		st := g.stmtList(d)
		s += "\n (init " + st
		if g.p(1, 2) {
			g.kw("finalization")
			f := g.stmtList(d)
			if f != "{}" {
				s += " (final " + f + ")"
			}
			g.feat("finalization")
		}
		s += ")"
		g.feat("initialization")
	}
	g.kw("end")
	g.sym(".")
	return s + ")"
}

func (g *Gen) implBody(d int) string {
	s := g.declSections(d, 0, 4)
	for g.p(1, 10) {
		s += " " + g.exportsStmt(d)
	}
	return s
}

// genUnit makes an in-memory unit.
func (g *Gen) genUnit(d int) *gfile {
	g.f = &gfile{tag: "U", path: "u.pas"}
	s := g.unitHead(g.pick(unitNames))
	taken := map[string]bool{}
	g.scope = newScope(g.scope)
	if g.p(1, 3) {
		if items := g.libs(2, taken); len(items) > 0 {
			u, ds := g.usesClause(items)
			s += u
			for _, x := range ds {
				g.scope.put(x)
			}
		}
	}
	s += g.interfaceDecls(d)
	g.kw("implementation")
	s += ")\n (implementation"
	intf := g.scope
	g.scope = newScope(g.scope)
	if g.p(1, 3) {
		if items := g.libs(2, taken); len(items) > 0 {
			u, ds := g.usesClause(items)
			s += u
			for _, x := range ds {
				g.scope.put(x)
			}
		}
	}
	g.holdInterface(intf, g.scope)
	s += g.implBody(d)
	s += g.unitTail(d)
	g.f.exp = s
	return g.f
}

// holdInterface: what the implementation must not declare again (anything of
// the interface but routines) gets reserved there.
func (g *Gen) holdInterface(intf, impl *gscope) {
	g.implOf = impl
	g.intfOf = intf
}

// ---- several files

type gproject struct {
	prog  *gfile
	units []*gunit
}

func (p *gproject) files() []*gfile {
	out := []*gfile{p.prog}
	for _, u := range p.units {
		out = append(out, u.file)
	}
	return out
}

func view(s *gscope, parent *gscope) *gscope {
	return &gscope{parent: parent, names: s.names, list: s.list, foreign: true}
}

// genProject makes a program with nUnits unit files. dirs are the directories
// the files go to (relative, with '/').
func (g *Gen) genProject(d, nUnits int, dirs []string) *gproject {
	pr := &gproject{}
	base := g.scope
	perm := g.r.Perm(len(unitNames))
	for i := 0; i < nUnits; i++ {
		name := fmt.Sprintf("%s%d", unitNames[perm[i%len(perm)]], i)
		dir := dirs[g.n(len(dirs))]
		u := &gunit{name: name, file: &gfile{tag: fmt.Sprintf("U%d", i), path: dir + strings.ToLower(name) + ".pas"}}
		pr.units = append(pr.units, u)
	}
	// interface dependencies go from later to earlier in a random order
	order := g.r.Perm(nUnits)
	budget := g.size
	share := budget / (2*nUnits + 1)
	for pos, ui := range order {
		u := pr.units[ui]
		g.f, g.unit, g.scope = u.file, u, base
		g.size = share
		u.phase = 1
		s := g.unitHead(u.name)
		var cand []*gunit
		for _, vi := range order[:pos] {
			if g.p(1, 2) {
				cand = append(cand, pr.units[vi])
			}
		}
		g.r.Shuffle(len(cand), func(i, j int) { cand[i], cand[j] = cand[j], cand[i] })
		taken := map[string]bool{}
		items := g.mixLibs(cand, taken)
		u.intfUses = cand
		if len(items) > 0 {
			us, ds := g.usesClause(items)
			s += us
			sc := newScope(g.scope)
			for _, x := range ds {
				sc.put(x)
			}
			g.scope = sc
			for _, v := range cand {
				g.scope = view(v.exports, g.scope)
			}
		}
		local := newScope(g.scope)
		local.put(u.self)
		g.scope = local
		u.exports = local // own name qualifies what is declared so far
		s += g.interfaceDecls(d)
		ex := newScope(nil)
		for _, x := range local.list {
			if x != u.self && local.names[strings.ToLower(x.name)] == x {
				ex.put(x)
			}
		}
		u.exports = ex
		u.local = local
		u.text = s
		u.taken = taken
	}
	for _, ui := range order {
		u := pr.units[ui]
		g.f, g.unit, g.scope = u.file, u, u.local
		g.size = share
		u.phase = 2
		g.kw("implementation")
		s := u.text + ")\n (implementation"
		var cand []*gunit
		for _, v := range pr.units {
			if v != u && !contains(u.intfUses, v) && g.p(1, 3) {
				cand = append(cand, v)
			}
		}
		g.r.Shuffle(len(cand), func(i, j int) { cand[i], cand[j] = cand[j], cand[i] })
		items := g.mixLibs(cand, u.taken)
		g.ambig = map[string]bool{}
		if len(items) > 0 {
			us, ds := g.usesClause(items)
			s += us
			// the units of the implementation are searched after everything else,
			// so they go to the far end; names declared on both sides are left alone
			far := (*gscope)(nil)
			for _, v := range cand {
				far = view(v.exports, far)
			}
			for _, v := range cand {
				for k := range v.exports.names {
					if u.local.lookup(k) != nil {
						g.ambig[k] = true
					}
				}
			}
			g.scope = rebase(u.local, far)
			sc := newScope(g.scope)
			for _, x := range ds {
				sc.put(x)
			}
			g.scope = sc
			u.implUses = cand
		}
		u.implLocal = newScope(g.scope)
		g.scope = u.implLocal
		g.implOf, g.intfOf = u.implLocal, u.exports
		s += g.implBody(d)
		s += g.unitTail(d)
		g.implOf, g.intfOf = nil, nil
		u.file.exp = s
		u.phase = 3
		g.ambig = map[string]bool{}
	}
	// the program
	g.unit = nil
	g.size = share + budget%(2*nUnits+1)
	g.f = &gfile{tag: "P", path: "prog.dpr"}
	pr.prog = g.f
	g.scope = base
	g.kw("program")
	o, a := g.ident("Prog1")
	g.sym(";")
	s := "(program " + a
	var items []usesItem
	taken := map[string]bool{}
	for _, u := range pr.units {
		if g.p(1, 8) {
			items = append(items, g.libs(1, taken)...)
		}
		p := u.file.path
		if g.p(1, 2) {
			p = strings.ReplaceAll(p, "/", "\\")
		}
		items = append(items, usesItem{name: u.name, path: g.prefix + p, unit: u})
	}
	items = append(items, g.libs(1, taken)...)
	us, ds := g.usesClause(items)
	s += us
	sc := newScope(g.scope)
	for _, x := range ds {
		if x.unit == nil {
			sc.put(x)
		}
	}
	g.scope = sc
	for _, u := range pr.units {
		g.scope = view(u.exports, g.scope)
	}
	sc = newScope(g.scope)
	for _, x := range ds {
		if x.unit != nil {
			sc.put(x)
		}
	}
	g.program = g.newDecl(&gdecl{tag: "P", ord: o, kind: "Program", name: "Prog1"})
	g.scope = newScope(sc)
	g.scope.put(g.program)
	g.progTop = g.scope
	s += " " + g.block(d, false)
	g.sym(".")
	pr.prog.exp = s + ")"
	return pr
}

// rebase copies a chain of scopes so that it ends in base.
func rebase(s, base *gscope) *gscope {
	if s == nil {
		return base
	}
	return &gscope{parent: rebase(s.parent, base), names: s.names, list: s.list, foreign: s.foreign}
}

func contains(l []*gunit, u *gunit) bool {
	for _, x := range l {
		if x == u {
			return true
		}
	}
	return false
}

func (g *Gen) mixLibs(us []*gunit, taken map[string]bool) []usesItem {
	var items []usesItem
	for _, u := range us {
		if g.p(1, 6) {
			items = append(items, g.libs(1, taken)...)
		}
		items = append(items, usesItem{name: u.name, unit: u})
	}
	if g.p(1, 6) {
		items = append(items, g.libs(1, taken)...)
	}
	return items
}
