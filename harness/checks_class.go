package main

// P18: property accessors and inherited properties.

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
)

func init() {
	register(&check{id: "P18", quick: 4500, thorough: 280000,
		rule: "generated type sections, units and projects of unit files with chains of classes (rarely of up to 260; ancestors named directly, by aliases, after forward declarations, in other sections and units) whose members compete for a few names in all visibilities: accessors, linked inherited properties and their effective specifiers are compared with a member model; the same sources with one accessor replaced by a name that is no member there (unknown, private in an ancestor, of another class) must be rejected with an error naming it; each class is asked for members and properties by name, with and without private ones and ancestors; non-trivial: the source has a property accessor or an inherited property",
		need: []string{"own accessor", "inherited accessor", "property with inherited part", "property redeclared in full", "unknown accessor rejected", "private member of an ancestor rejected", "member of another class rejected", "project of unit files", "member asked and found", "member asked and hidden", "property asked and found", "property of an ancestor not asked for", "parent class asked", "long chain of classes", "property inherited from more than 16 classes above"},
		run: func(x *ctx) {
			if x.k%6 == 5 {
				x.classProject()
				return
			}
			c := x.cfg("typesec", "typesec", "typesec", "unit", "block")
			c.wantCls = 6 + x.r.Intn(6)
			c.size += 40
			c.compute = true
			c.fewNames = x.r.Intn(3) > 0
			if x.k%120 == 40 {
				c.mode, c.noGiant, c.fewNames = "typesec", true, true
				c.chainCls = []int{40, 70, 130, 260}[x.r.Intn(4)]
				c.size = 4 * c.chainCls
				x.feat("long chain of classes")
			}
			m := makeMem(x.r.Int63(), c)
			for try := 0; try < 20 && len(m.g.accSites) == 0; try++ {
				m = makeMem(x.r.Int63(), c)
			}
			rd := m.render(x.r, randStyle(x.r))
			got, want := x.parsed(m, rd)
			x.compareProps(got, want)
			x.askClasses(m, rd)
			x.eval(strings.Join(rd.texts, " "), len(m.g.accSites) > 0 || m.g.feats["property with inherited part"] > 0)
			x.feats(m.g.feats)
			x.count("accessors", len(m.g.accSites))
			if len(m.f.toks) < 150 {
				x.sample(string(rd.text) + "\n=> " + clip(got, 1500))
			}
			for i := 0; i < 2 && len(m.g.accSites) > 0; i++ {
				x.badAccessor(m)
			}
		}})
}

// askClasses asks each class of the result for its members, properties and parent by name.
func (x *ctx) askClasses(m *memCase, rd *rendered) {
	o := parseMode(m.cfg.mode, rd.text)
	if o.err != nil {
		return
	}
	ordOf := map[int]int{}
	for i, t := range rd.toks {
		ordOf[t.idx] = i
	}
	ord := func(i *astcore.Ident) int {
		if i == nil || i.Location == nil || i.Location.Start == nil {
			return -1
		}
		if v, ok := ordOf[i.Location.Start.Index]; ok {
			return v
		}
		return -1
	}
	byOrd := map[int]*gclass{}
	for _, c := range m.g.classes {
		for _, mb := range c.members {
			byOrd[mb.decl.ord] = c
		}
	}
	real := map[*gclass]*ast.CustomClassType{}
	var list []*gclass
	_ = astcore.WalkDown(o.node.(ast.Node), func(n ast.Node) error {
		if c, ok := n.(*ast.CustomClassType); ok {
			for _, s := range c.Members {
				var id *astcore.Ident
				switch {
				case len(s.ClassFieldList) > 0:
					id = s.ClassFieldList[0].IdentList[0]
				case len(s.ClassMethodList) > 0:
					id = s.ClassMethodList[0].Heading.GetIdent()
				case len(s.ClassPropertyList) > 0:
					id = s.ClassPropertyList[0].Ident
				default:
					continue
				}
				if g := byOrd[ord(id)]; g != nil {
					real[g] = c
					list = append(list, g)
				}
				break
			}
		}
		return nil
	})
	for i, g := range list {
		if len(list) > 30 && i < len(list)-5 && x.r.Intn(len(list)) > 15 {
			continue // long chains: some of them
		}
		c := real[g]
		names := map[string]bool{"nowhere": true}
		var order []string
		add := func(n string) {
			if !names[strings.ToLower(n)] {
				names[strings.ToLower(n)] = true
				order = append(order, n)
			}
		}
		for _, l := range g.lineage() {
			for _, mb := range l.members {
				add(mb.name)
			}
		}
		for _, n := range m.g.pools {
			add(n)
		}
		x.r.Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
		if len(order) > 60 || len(list) > 30 && len(order) > 40 {
			order = order[:40]
		}
		order = append(order, "nowhere")
		for _, n := range order {
			asked := recase(n, x.r.Intn(5), x.r)
			for _, priv := range []bool{true, false} {
				want := -1
				kind := ""
			search:
				for _, l := range g.lineage() {
					for _, mb := range l.members {
						if strings.EqualFold(mb.name, n) && (mb.vis != "PRIVATE" || l == g && priv) {
							want, kind = mb.decl.ord, mb.decl.kind
							break search
						}
					}
				}
				d := c.FindMemberDecl(asked, priv)
				got, node := -1, ""
				if d != nil {
					got = ord(d.Ident)
					node = strings.TrimPrefix(fmt.Sprintf("%T", d.Node), "*ast.")
				}
				if got != want || d == nil && want >= 0 || d != nil && want < 0 || want >= 0 && node != kind {
					x.fail("the class with the members %s, asked for %s (private ones: %v), gives %s at token %d, expected %s at token %d", memberNames(g), asked, priv, node, got, kind, want)
				}
				if want >= 0 {
					x.feat("member asked and found")
				} else if g.member(n) != nil || hasMember(g, n) {
					x.feat("member asked and hidden")
				}
			}
			for _, up := range []bool{true, false} {
				var w *gmember
				for i, l := range g.lineage() {
					if i > 0 && !up {
						if l2 := g.property(n); l2 != nil && w == nil {
							x.feat("property of an ancestor not asked for")
						}
						break
					}
					for _, mb := range l.members {
						if w == nil && mb.prop != nil && strings.EqualFold(mb.name, n) {
							w = mb
						}
					}
				}
				p := c.FindProperty(asked, up)
				got, want := -1, -1
				if p != nil {
					got = ord(p.Ident)
				}
				if w != nil {
					want = w.decl.ord
					x.feat("property asked and found")
				}
				if got != want || (p == nil) != (w == nil) {
					x.fail("the class with the members %s, asked for the property %s (of ancestors: %v), gives the one at token %d, expected token %d", memberNames(g), asked, up, got, want)
				}
			}
		}
		if pc := c.GetParentClass(); g.parent == nil && pc != nil || g.parent != nil && real[g.parent] != nil && pc != real[g.parent] {
			x.fail("the class with the members %s has the wrong parent class", memberNames(g))
		} else if pc != nil {
			x.feat("parent class asked")
		}
	}
}

func hasMember(g *gclass, n string) bool {
	for _, l := range g.lineage() {
		for _, mb := range l.members {
			if strings.EqualFold(mb.name, n) {
				return true
			}
		}
	}
	return false
}

func memberNames(g *gclass) string {
	var out []string
	for _, l := range g.lineage() {
		s := ""
		for _, mb := range l.members {
			s += " " + mb.vis + ":" + mb.name
		}
		out = append(out, strings.TrimSpace(s))
	}
	return "(" + strings.Join(out, " | ") + ")"
}

var reProp = regexp.MustCompile(`\(property [^\n]*`)

// compareProps compares the classes of two dumps.
func (x *ctx) compareProps(got, want string) {
	g, w := reLC.ReplaceAllString(got, ""), reLC.ReplaceAllString(want, "")
	a, b := reProp.FindAllString(g, -1), reProp.FindAllString(w, -1)
	for i := range b {
		if i >= len(a) || a[i] != b[i] {
			o := ""
			if i < len(a) {
				o = a[i]
			}
			x.fail("%s", diffText(b[i], o))
		}
	}
	if g != w {
		x.fail("%s", diffText(w, g))
	}
}

// badName draws a name which the class of the site has not as a member.
func (x *ctx) badName(g *Gen, s accSite) (string, string) {
	type cand struct{ name, why string }
	var cs []cand
	for _, c := range s.cls.lineage()[1:] {
		for _, m := range c.members {
			if s.cls.member(m.name) == nil {
				cs = append(cs, cand{m.name, "private member of an ancestor rejected"}, cand{m.name, "private member of an ancestor rejected"})
			}
		}
	}
	for _, c := range g.classes {
		for _, m := range c.members {
			if s.cls.member(m.name) == nil && !hasClass(s.cls.lineage(), c) {
				cs = append(cs, cand{m.name, "member of another class rejected"})
			}
		}
	}
	for _, n := range append([]string{"nowhere", "Integer", "FNo"}, g.pools...) {
		if s.cls.member(n) == nil {
			cs = append(cs, cand{n, "unknown accessor rejected"})
		}
	}
	if len(cs) == 0 {
		return "", ""
	}
	c := cs[x.r.Intn(len(cs))]
	if k := strings.ToLower(c.name); k == "true" || k == "false" {
		return "", ""
	}
	return c.name, c.why
}

func hasClass(l []*gclass, c *gclass) bool {
	for _, x := range l {
		if x == c {
			return true
		}
	}
	return false
}

func (x *ctx) badAccessor(m *memCase) {
	s := m.g.accSites[x.r.Intn(len(m.g.accSites))]
	name, why := x.badName(m.g, s)
	if name == "" {
		return
	}
	toks := append([]gtok{}, s.f.toks...)
	toks[s.ord].text = name
	rd := render(toks, x.r, randStyle(x.r))
	x.only("mode", m.cfg.mode)
	x.input("text", string(rd.text))
	x.input("accessor", rd.texts[s.ord])
	o := parseMode(m.cfg.mode, rd.text)
	x.eval(string(rd.text), true)
	if o.err == nil {
		x.fail("the accessor %s is accepted, but it is no member of the class (%s)", rd.texts[s.ord], why)
	}
	if !strings.Contains(strings.ToLower(o.err.Error()), strings.ToLower(rd.texts[s.ord])) {
		x.fail("the error does not name the unknown member %s: %v", rd.texts[s.ord], o.err)
	}
	x.feat(why)
}

func (x *ctx) classProject() {
	_, done := x.scratch()
	defer done()
	g := NewGen(x.r.Int63())
	g.sjis, g.fewNames = true, x.r.Intn(3) > 0
	g.pickPool()
	g.size, g.maxDepth, g.wantCls = 100+x.r.Intn(200), 4, 6+x.r.Intn(6)
	p := &project{pr: g.genProject(3, 1+x.r.Intn(4), []string{""}), g: g, rds: map[string]*rendered{}}
	p.renderAll(x)
	p.write(x)
	got := x.loadProject(p)
	for i, w := range p.wants() {
		x.compareProps(got[i], w)
	}
	x.eval(string(p.rds["P"].text)+string(p.rds["U0"].text), len(g.accSites) > 0)
	x.feats(g.feats)
	x.feat("project of unit files")
	x.count("accessors", len(g.accSites))
	if len(g.accSites) == 0 {
		return
	}
	s := g.accSites[x.r.Intn(len(g.accSites))]
	name, why := x.badName(g, s)
	if name == "" {
		return
	}
	toks := append([]gtok{}, s.f.toks...)
	toks[s.ord].text = name
	rd := render(toks, x.r, style{layout: 0, sjis: true})
	b, ok := sjisOf(rd.text)
	if !ok {
		return
	}
	put(s.f.path, b)
	x.input(s.f.path, string(rd.text))
	x.input("accessor", name)
	if _, err := x.parseFile(p.pr.prog.path); err == nil {
		x.fail("the accessor %s is accepted, but it is no member of the class (%s)", name, why)
	}
	x.eval(string(rd.text), true)
	x.feat(why)
}
