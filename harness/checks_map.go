package main

// P24: declaration maps and parser contexts as nested name tables.

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
	"github.com/akm/tparser/runes"
)

type mapNode struct {
	id     int
	idents []*astcore.Ident
}

func (n *mapNode) Children() astcore.Nodes { return astcore.Nodes{} }
func (n *mapNode) ToDeclarations() astcore.Decls {
	return astcore.NewDeclarations(n.idents, n)
}

type ment struct {
	ident *astcore.Ident
	node  interface{}
}

// mm is the model of one name table: own entries first (nil = none of its
// own), then the tables of search in order.
type mm struct {
	what   string
	real   astcore.DeclMap // nil: only reached through a context
	own    map[string]ment
	search []*mm
	frozen bool // predefined types: nothing is declared there
	ctx    parser.Context
	scopes []func() // open scopes of a context
	backup []*mm
}

func (m *mm) get(name string) (ment, bool) {
	if m.own != nil {
		if e, ok := m.own[name]; ok {
			return e, true
		}
	}
	for _, s := range m.search {
		if e, ok := s.get(name); ok {
			return e, true
		}
	}
	return ment{}, false
}

func (m *mm) target() *mm {
	if m.own != nil {
		return m
	}
	return m.search[0].target()
}

var mapNames = []string{"foo", "Bar", "x", "X1", "integer", "String", "値", "データ", "éa", "Ωmega", "tfoo", "Result", "a_b", "ZZZ", "boolean", "q9"}

func foldCase(r *rand.Rand, s string) string {
	switch r.Intn(4) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	case 2:
		return s
	}
	out := ""
	for _, c := range s {
		if r.Intn(2) == 0 {
			out += strings.ToUpper(string(c))
		} else {
			out += strings.ToLower(string(c))
		}
	}
	return out
}

func declText(d *astcore.Decl) string {
	if d == nil {
		return "nothing"
	}
	if n, ok := d.Node.(*mapNode); ok {
		return fmt.Sprintf("%s of node %d", d.Ident.Name, n.id)
	}
	return fmt.Sprintf("%s of %T", d.Ident.Name, d.Node)
}

func init() {
	register(&check{id: "P24", quick: 40000, thorough: 2000000,
		rule: "random histories of creating, declaring (one or several names), overwriting, entering and leaving scopes, cloning and importing units on plain, chained and composite maps and program, unit and stackable contexts that share parts (up to 10, sometimes 150 of them); after every operation all names are looked up through all of them (random letter case) and compared with a model; every letter of any script that has two cases, in a name declared in one case and asked in the other; non-trivial: histories with at least 12 operations",
		need: []string{"declare", "declare refused", "overwrite", "enter scope", "leave scope", "hidden name", "found in an outer map", "predefined type hidden", "import units", "clone", "several names declared", "list of names searched", "many maps", "letters of all scripts"},
		run:  func(x *ctx) { x.mapCase() }})
}

// letterSweep: names which differ by the case of one letter, of any script, are one name.
func (x *ctx) letterSweep() {
	for _, p := range letterPairs {
		up, lo := "a"+string(p[0])+"1", "A"+string(p[1])+"1"
		x.inputs["names"] = up + " " + lo
		for i := 0; i < 2; i++ {
			m := astcore.NewDeclMap()
			c := astcore.NewCompositeDeclMap(astcore.NewDeclMap(), astcore.NewChainedDeclMap(m))
			id := &astcore.Ident{Name: up, Location: &astcore.Location{Path: "p", Start: &runes.Position{}, End: &runes.Position{}}}
			n := &mapNode{idents: []*astcore.Ident{id}}
			if err := m.Set(n); err != nil {
				x.fail("%q cannot be declared: %v", up, err)
			}
			for _, q := range []astcore.DeclMap{m, c} {
				if d := q.Get(lo); d == nil || d.Ident != id {
					x.fail("%q is declared, %q is not found", up, lo)
				}
			}
			if m.Set(&mapNode{idents: []*astcore.Ident{{Name: lo, Location: id.Location}}}) == nil {
				x.fail("%q is declared, and %q as well", up, lo)
			}
			x.eval(up, true)
			up, lo = lo, up
		}
		x.res.Feats["letters of all scripts"]++
	}
}

func (x *ctx) mapCase() {
	r := x.r
	if x.k == 0 {
		x.letterSweep()
	}
	var log []string
	note := func(f string, a ...interface{}) {
		log = append(log, fmt.Sprintf(f, a...))
		x.inputs["history"] = strings.Join(log, "\n")
	}
	names := map[string]bool{}
	var pool []string
	maxTables, ops := 11, 8+r.Intn(40)
	if x.k%100 == 50 {
		// many maps, one within another
		maxTables, ops = 150, 300+r.Intn(300)
		x.feat("many maps")
	}
	for len(pool) < 7 {
		n := mapNames[r.Intn(len(mapNames))]
		if r.Intn(12) == 0 {
			n = "x" + string(letterPairs[r.Intn(len(letterPairs))][0]) + string(letterPairs[r.Intn(len(letterPairs))][1])
		}
		if l := strings.ToLower(n); !names[l] {
			names[l] = true
			pool = append(pool, l)
		}
	}
	base := &mm{what: "predefined types", real: ast.EmbeddedTypeDeclMap, own: map[string]ment{}, frozen: true}
	for _, n := range pool {
		if d := ast.EmbeddedTypeDeclMap.Get(n); d != nil {
			base.own[n] = ment{d.Ident, d.Node}
		}
	}
	tables := []*mm{base}
	var ids int
	newNode := func(k int) *mapNode {
		ids++
		n := &mapNode{id: ids}
		for len(n.idents) < k {
			n.idents = append(n.idents, &astcore.Ident{Name: foldCase(r, pool[r.Intn(len(pool))]),
				Location: &astcore.Location{Path: "p", Start: &runes.Position{Index: ids, Line: ids, Col: 1}, End: &runes.Position{Index: ids, Line: ids, Col: 2}}})
		}
		return n
	}
	pick := func() *mm {
		if maxTables > 11 && r.Intn(2) == 0 {
			return tables[len(tables)-1]
		}
		return tables[r.Intn(len(tables))]
	}
	nameOf := func(m *mm) string {
		for i, t := range tables {
			if t == m {
				return fmt.Sprintf("%s %d", m.what, i)
			}
		}
		return m.what
	}
	verify := func(after string) {
		for _, t := range tables {
			for _, n := range pool {
				as := foldCase(r, n)
				got := t.real.Get(as)
				e, ok := t.get(n)
				switch {
				case !ok && got != nil:
					x.fail("after %s: %s has %s under %q, it should have nothing", after, nameOf(t), declText(got), as)
				case ok && got == nil:
					x.fail("after %s: %s has nothing under %q, it should have %q of %v", after, nameOf(t), as, e.ident.Name, e.node)
				case ok && (got.Ident != e.ident || got.Node != e.node):
					x.fail("after %s: %s has %s under %q, it should have %q of %v", after, nameOf(t), declText(got), as, e.ident.Name, e.node)
				}
				if ok {
					if t.own == nil || len(t.search) > 0 {
						if _, own := t.target().own[n]; !own {
							x.feat("found in an outer map")
						} else {
							for _, s := range t.search {
								if _, o := s.get(n); o && s != t.target() {
									x.feat("hidden name")
								}
							}
						}
					}
				}
				x.res.Evals++
			}
		}
		x.count("lookups", len(tables)*len(pool))
	}
	for i := 0; i < ops; i++ {
		after := ""
		switch op := r.Intn(20); {
		case op < 3 && len(tables) < maxTables:
			var m *mm
			switch r.Intn(6) {
			case 0:
				m = &mm{what: "plain map", real: astcore.NewDeclMap(), own: map[string]ment{}}
			case 1, 2:
				p := pick()
				m = &mm{what: "chained map", real: astcore.NewChainedDeclMap(p.real), own: map[string]ment{}, search: []*mm{p}}
				after = "of " + nameOf(p)
			case 3:
				m = &mm{what: "composite map"}
				var l []astcore.DeclMap
				for k := 1 + r.Intn(3); len(l) < k; {
					p := pick()
					if len(l) == 0 && p.target().frozen {
						p = &mm{what: "plain map", real: astcore.NewDeclMap(), own: map[string]ment{}}
						tables = append(tables, p)
					}
					l = append(l, p.real)
					m.search = append(m.search, p)
					after += " " + nameOf(p)
				}
				if r.Intn(3) == 0 {
					// the list in the opposite order
					for a, b := 0, len(l)-1; a < b; a, b = a+1, b-1 {
						m.search[a], m.search[b] = m.search[b], m.search[a]
					}
					l = astcore.DeclMaps(l).Reverse()
					if m.search[0].target().frozen {
						continue
					}
				}
				m.real = astcore.NewCompositeDeclMap(l...)
			case 4:
				p := pick()
				switch r.Intn(4) {
				case 0:
					c := parser.NewProgramContext("p.dpr")
					s := &mm{own: map[string]ment{}, search: []*mm{base}}
					m = &mm{what: "program context", ctx: c, real: c, search: []*mm{s}}
				case 1:
					c := parser.NewUnitContext(parser.NewProgramContext("p.dpr"), "u.pas")
					s := &mm{own: map[string]ment{}, search: []*mm{base}}
					m = &mm{what: "unit context", ctx: c, real: c, search: []*mm{s}}
				case 2:
					if p.target().frozen {
						continue
					}
					c := parser.NewProgramContext(p.real, "q.dpr")
					m = &mm{what: "program context", ctx: c, real: c, search: []*mm{p}}
				case 3:
					if p.target().frozen {
						continue
					}
					c := parser.NewUnitContext(parser.NewProgramContext("p.dpr"), "u.pas", p.real)
					m = &mm{what: "unit context", ctx: c, real: c, search: []*mm{p}}
				}
				after = "of " + nameOf(p)
			case 5:
				var cs []*mm
				for _, t := range tables {
					if t.ctx != nil {
						cs = append(cs, t)
					}
				}
				if len(cs) == 0 {
					continue
				}
				p := cs[r.Intn(len(cs))]
				c := parser.NewStackableContext(p.ctx)
				s := &mm{own: map[string]ment{}}
				m = &mm{what: "stackable context", ctx: c, real: c, search: []*mm{s, p}}
				after = "of " + nameOf(p)
				if c.GetPath() != p.ctx.GetPath() {
					x.fail("path %q of a context within one of path %q", c.GetPath(), p.ctx.GetPath())
				}
			}
			tables = append(tables, m)
			after = "creating " + nameOf(m) + " " + after
		case op < 9:
			t := pick()
			g := t.target()
			if g.frozen {
				continue
			}
			k := 1
			if r.Intn(3) == 0 {
				k = 2 + r.Intn(3)
			}
			n := newNode(k)
			err := t.real.Set(n)
			after = fmt.Sprintf("declaring %v in %s (error: %v)", astcore.IdentList(n.idents).Names(), nameOf(t), err)
			bad := ""
			tmp := map[string]ment{}
			for _, id := range n.idents {
				l := strings.ToLower(id.Name)
				if _, ok := g.own[l]; ok {
					bad = id.Name
					break
				}
				if _, ok := tmp[l]; ok {
					bad = id.Name
					break
				}
				tmp[l] = ment{id, n}
			}
			if bad == "" && err != nil {
				note("%s", after)
				x.fail("%s fails, but none of the names is in that map", after)
			}
			if bad != "" && err == nil {
				note("%s", after)
				x.fail("%s succeeds, but %q is there already", after, bad)
			}
			if err != nil {
				if !strings.Contains(strings.ToLower(err.Error()), strings.ToLower(bad)) {
					x.fail("%s does not name %q", after, bad)
				}
				x.feat("declare refused")
				// names before the refused one may or may not have been declared
				for l, e := range tmp {
					if d := t.real.Get(l); d != nil && d.Ident == e.ident {
						g.own[l] = e
					}
				}
			} else {
				x.feat("declare")
				if k > 1 {
					x.feat("several names declared")
				}
				for l, e := range tmp {
					g.own[l] = e
					if _, ok := base.own[l]; ok {
						x.feat("predefined type hidden")
					}
				}
			}
		case op < 11:
			t := pick()
			g := t.target()
			if g.frozen {
				continue
			}
			n := newNode(1)
			as := foldCase(r, n.idents[0].Name)
			d := astcore.NewDeclaration(n.idents[0], n)
			t.real.Overwrite(as, d)
			g.own[strings.ToLower(as)] = ment{d.Ident, n}
			after = fmt.Sprintf("overwriting %q in %s", as, nameOf(t))
			x.feat("overwrite")
		case op < 15:
			var cs []*mm
			for _, t := range tables {
				if t.ctx != nil {
					cs = append(cs, t)
				}
			}
			if len(cs) == 0 {
				continue
			}
			c := cs[r.Intn(len(cs))]
			if len(c.scopes) > 0 && r.Intn(5) < 2 {
				l := len(c.scopes) - 1
				c.scopes[l]()
				c.search[0] = c.backup[l]
				c.scopes, c.backup = c.scopes[:l], c.backup[:l]
				after = "leaving the scope of " + nameOf(c)
				x.feat("leave scope")
			} else {
				c.scopes = append(c.scopes, c.ctx.StackDeclMap())
				c.backup = append(c.backup, c.search[0])
				c.search[0] = &mm{own: map[string]ment{}, search: []*mm{c.search[0]}}
				after = "entering a scope of " + nameOf(c)
				x.feat("enter scope")
				x.maxOf("deepest scopes", len(c.scopes))
			}
		case op < 16 && len(tables) < 11:
			t := pick()
			if t.ctx == nil || t.what == "stackable context" {
				continue
			}
			c := t.ctx.Clone()
			if c.GetPath() != t.ctx.GetPath() {
				x.fail("path %q of the clone of a context with path %q", c.GetPath(), t.ctx.GetPath())
			}
			m := &mm{what: "program context", ctx: c, real: c, search: []*mm{t.search[0]}}
			if _, ok := c.(*parser.UnitContext); ok {
				m.what = "unit context"
			}
			tables = append(tables, m)
			after = "cloning " + nameOf(t)
			x.feat("clone")
		case op < 18 && len(tables) < 10:
			// units imported into a unit context
			pc := parser.NewProgramContext("p.dpr")
			var us ast.UsesClause
			uc := parser.NewUnitContext(pc, "u.pas")
			var ms []*mm
			for k := 0; k < 1+r.Intn(4); k++ {
				id := &astcore.Ident{Name: fmt.Sprintf("Unit%d", k), Location: &astcore.Location{Path: "p"}}
				it := &ast.UsesClauseItem{Ident: &astcore.Ident{Name: foldCase(r, id.Name), Location: id.Location}}
				us = append(us, it)
				if r.Intn(5) == 0 {
					continue // a unit which is not loaded
				}
				p := pick()
				pc.AddUnit(&ast.Unit{Ident: id, DeclMap: p.real})
				ms = append([]*mm{p}, ms...)
				after += " " + nameOf(p)
			}
			local := uc.ImportUnitDecls(us)
			lm := &mm{what: "local map", real: local, own: map[string]ment{}}
			tables = append(tables, lm)
			s := append([]*mm{lm}, ms...)
			s = append(s, &mm{own: map[string]ment{}, search: []*mm{base}})
			m := &mm{what: "unit context", ctx: uc, real: uc, search: []*mm{{search: s}}}
			tables = append(tables, m)
			for _, it := range us {
				u := pc.Units.ByName(foldCase(r, it.Ident.Name))
				if u != it.Unit {
					x.fail("uses item %s has unit %v, the program has %v", it.Ident.Name, it.Unit, u)
				}
			}
			after = "importing units" + after
			x.feat("import units")
		default:
			n := newNode(1 + r.Intn(6))
			l := astcore.IdentList(n.idents)
			ds := n.ToDeclarations()
			for _, p := range pool {
				as := foldCase(r, p)
				var want *astcore.Ident
				for _, id := range n.idents {
					if strings.ToLower(id.Name) == p {
						want = id
						break
					}
				}
				if got := l.Find(as); got != want {
					x.fail("looking up %q in the names %v gave %v", as, l.Names(), got)
				}
				d := ds.Find(as)
				if (d == nil) != (want == nil) || d != nil && (d.Ident != want || d.Node != n) {
					x.fail("looking up %q in the declarations %v gave %s", as, l.Names(), declText(d))
				}
			}
			x.feat("list of names searched")
			continue
		}
		note("%s", after)
		verify(after)
	}
	x.eval(fmt.Sprint(x.k), len(log) >= 12)
	x.count("operations", len(log))
	x.sample(strings.Join(log, "\n"))
}
