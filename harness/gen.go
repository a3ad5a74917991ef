package main

// Generator of Object Pascal sources with their expected result.
//
// A source is generated as a list of tokens; spelling (letter case) and layout
// (spaces, line breaks, comments) are chosen later by the renderer.  While it
// emits tokens the generator builds the form which the Dumper is expected to
// print, with place holders for everything that depends on the rendering:
//   \x02 N \x03     identifier: text of token N and "#N"
//   \x04 N \x05     raw text of token N
//   \x06 D \x07     reference to declaration D

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"unicode"
)

type gtok struct {
	text string
	kind byte // k reserved word, d other case-insensitive word, i identifier, s symbol, n number, q string
}

type gfile struct {
	tag  string
	path string
	toks []gtok
	exp  string // expected dump
}

type gdecl struct {
	id   int
	tag  string
	ord  int
	kind string // kind of the declaring node
	emb  string // predefined type
	name string
	low  string // name in lower case
	typ  *gtype // for types
	unit *gunit // for uses items
	miss bool   // stands for "no declaration"
}

// gtype is what a type name finally stands for.
type gtype struct {
	ordinal, real, str, ptr, variant bool
	class                            *gclass
	forward                          bool
	typeDecl                         bool
}

type gclass struct {
	parent  *gclass
	members []*gmember
}

type gmember struct {
	name string
	vis  string
	decl *gdecl
	prop *gprop
}

type gprop struct {
	iface, index, read, write, stored, deflt, impl string // expected texts; "" = absent
	parent                                         *gprop
	decl                                           *gdecl
}

type gscope struct {
	parent *gscope
	names  map[string]*gdecl
	list   []*gdecl
	// read-only view (units, predefined): own declarations are refused
	foreign bool
}

func newScope(parent *gscope) *gscope {
	return &gscope{parent: parent, names: map[string]*gdecl{}}
}

func (s *gscope) put(d *gdecl) {
	k := strings.ToLower(d.name)
	s.names[k] = d
	s.list = append(s.list, d)
}

func (s *gscope) lookup(name string) *gdecl {
	return s.find(strings.ToLower(name))
}

func (s *gscope) find(k string) *gdecl {
	for c := s; c != nil; c = c.parent {
		if d := c.names[k]; d != nil {
			return d
		}
	}
	return nil
}

type gunit struct {
	name      string
	file      *gfile
	self      *gdecl // the Unit declaration
	exports   *gscope
	implLocal *gscope
	intfUses  []*gunit
	implUses  []*gunit
	local     *gscope
	text      string
	taken     map[string]bool
	phase     int // 0 none, 1 interface, 2 implementation, 3 done
}

type Gen struct {
	r     *rand.Rand
	f     *gfile
	decls []*gdecl
	scope *gscope
	size  int // remaining budget of constructs
	feats map[string]int

	pools      []string
	held       map[string]int  // names chosen but not declared yet: neither declared nor used
	ambig      map[string]bool // names whose meaning the language leaves open here
	implOf     *gscope         // scope of the implementation and of its interface
	intfOf     *gscope
	prefix     string // of unit paths in the program
	secScope   *gscope
	selfType   string              // name of the type being declared
	secUsed    map[string]bool     // names of outer types used in the running type section
	secRes     map[string][]*gdecl // references waiting for the end of the type section
	fwd        []string            // forward classes of the section waiting for their class
	extSeq     int
	classEnd   map[int]bool        // tokens: END of a class
	pend       map[string][]*gdecl // names used in the running type section before their declaration
	inType     int
	loopD      int
	program    *gdecl  // the program itself, if visible as a namespace
	unit       *gunit  // unit being generated
	progTop    *gscope // top scope of the program
	noRefs     bool    // fragments without any scope
	exportToks [][2]int
	fewNames   bool // names collide all the time
	routines   bool // many routines
	rich       bool // unusual sizes
	giants     int  // how many very unusual ones are left
	chainCls   int  // classes of a chain still to come
	spine      int  // routines still to be nested
	simpleTy   bool // only plain types
	maxDepth   int
	nameSeq    int
	noASM      bool
	sjis       bool
	wantCls    int // class related weight
	accSites   []accSite
	classes    []*gclass
}

func NewGen(seed int64) *Gen {
	g := &Gen{r: rand.New(rand.NewSource(seed)), feats: map[string]int{}, pend: map[string][]*gdecl{}, held: map[string]int{}, ambig: map[string]bool{}, secUsed: map[string]bool{}, classEnd: map[int]bool{}, size: 60, maxDepth: 5}
	g.f = &gfile{tag: "P"}
	g.scope = g.embeddedScope()
	g.pickPool()
	return g
}

var embeddedNames = map[string]string{
	"Real48": "r", "Real": "r", "Single": "r", "Double": "r", "Extended": "r", "Currency": "r", "Comp": "r",
	"Integer": "o", "Cardinal": "o", "ShortInt": "o", "SmallInt": "o", "LongInt": "o", "Int64": "o", "Byte": "o", "Word": "o", "LongWord": "o",
	"Char": "o", "AnsiChar": "o", "WideChar": "o", "Boolean": "o",
	"String": "s", "AnsiString": "s", "WideString": "s",
	"Pointer": "p", "PChar": "p", "PAnsiChar": "p", "PWideChar": "p",
	"Variant": "v", "OleVariant": "v",
}
var embeddedOrder = []string{"Integer", "Cardinal", "ShortInt", "SmallInt", "LongInt", "Int64", "Byte", "Word", "LongWord", "Char", "AnsiChar", "WideChar", "Boolean",
	"Real48", "Real", "Single", "Double", "Extended", "Currency", "Comp", "AnsiString", "WideString", "Pointer", "PChar", "PAnsiChar", "PWideChar", "Variant", "OleVariant", "String"}
var ordEmb = embeddedOrder[:13]

func (g *Gen) embeddedScope() *gscope {
	s := newScope(nil)
	s.foreign = true
	for _, n := range embeddedOrder {
		k := embeddedNames[n]
		s.put(g.newDecl(&gdecl{kind: "TypeDecl", emb: n, name: n, ord: -1,
			typ: &gtype{typeDecl: true, ordinal: k == "o", real: k == "r", str: k == "s", ptr: k == "p", variant: k == "v"}}))
	}
	return s
}

func (g *Gen) newDecl(d *gdecl) *gdecl {
	d.id = len(g.decls)
	g.decls = append(g.decls, d)
	return d
}

func (g *Gen) feat(s string) { g.feats[s]++ }

func (g *Gen) n(k int) int            { return g.r.Intn(k) }
func (g *Gen) p(num, den int) bool    { return g.r.Intn(den) < num }
func (g *Gen) pick(s []string) string { return s[g.r.Intn(len(s))] }

// count draws a small list length, rarely a long one.
func (g *Gen) count(min, max int) int {
	c := min + g.n(max-min+1)
	if g.rich && g.p(1, 40) {
		c += 20 + g.n(120)
	}
	if k := g.giant(60); k > 0 {
		c = k
	}
	return c
}

// ---- tokens

func (g *Gen) tok(kind byte, text string) int {
	g.f.toks = append(g.f.toks, gtok{text, kind})
	return len(g.f.toks) - 1
}
func (g *Gen) kw(words ...string) {
	for _, w := range words {
		g.tok('k', w)
	}
}
func (g *Gen) word(w string) int { return g.tok('d', w) }
func (g *Gen) sym(s string)      { g.tok('s', s) }

func (g *Gen) ident(name string) (int, string) {
	o := g.tok('i', name)
	return o, fmt.Sprintf("\x02%d\x03", o)
}

func rawOf(o int) string    { return fmt.Sprintf("\x04%d\x05", o) }
func refOf(d *gdecl) string { return fmt.Sprintf("\x06%d\x07", d.id) }
func (g *Gen) refTo(d *gdecl) string {
	if d == nil {
		d = g.newDecl(&gdecl{miss: true})
	}
	return refOf(d)
}

// ---- names

var asciiNames = []string{"a", "b", "c", "x", "y", "foo", "Bar", "Baz", "count", "Value", "tmp", "i", "j", "_p", "x1", "x_2", "Item", "List", "Self", "Result", "Data", "Owner", "FName", "Total", "R2D2", "beginX", "endpoint", "iff", "ofs", "toDo", "doIt", "nilly", "ins", "asmX", "strings", "varX", "sets"}
var trickyNames = []string{"Name", "Index", "Message", "Local", "Far", "Near", "Register", "Read", "Write", "Stored", "Default", "Platform", "Deprecated", "Package", "Contains", "Requires", "Resident", "Assembler", "Export", "Virtual", "Dynamic", "Implements", "NoDefault", "ReadOnly", "WriteOnly", "DispId", "Automated"}
var uniNames = []string{"データ", "値", "café", "наимено", "x値2", "ｆｏｏ", "ßeta", "ñandú"}
var sjisNames = []string{"データ", "値", "表示", "ソート", "x値2", "能力", "十", "ア", "漢字かな", "Имя", "Ωδη", "Ｆｏｏ", "эЮя", "ａＢ"}

// letterPairs are the letters of all scripts that have exactly two cases.
var letterPairs = func() [][2]rune {
	var out [][2]rune
	for u := rune(0x80); u <= unicode.MaxRune; u++ {
		l := unicode.ToLower(u)
		if l != u && unicode.IsLetter(u) && unicode.IsLetter(l) && unicode.ToUpper(l) == u && unicode.SimpleFold(u) == l && unicode.SimpleFold(l) == u {
			out = append(out, [2]rune{u, l})
		}
	}
	return out
}()

func (g *Gen) uniName() string {
	if g.p(1, 2) {
		return g.pick(uniNames)
	}
	s := ""
	for i := 1 + g.n(4); i > 0; i-- {
		s += string(letterPairs[g.n(len(letterPairs))][g.n(2)])
	}
	return g.pick([]string{"", "x", "T_"}) + s
}

// pickPool chooses the few names all declarations of this source compete for.
func (g *Gen) pickPool() {
	k := 4 + g.n(14)
	if g.fewNames {
		k = 2 + g.n(3)
	}
	g.pools = nil
	for i := 0; i < k; i++ {
		switch {
		case g.p(1, 14):
			g.pools = append(g.pools, g.pick(trickyNames))
		case g.p(1, 14):
			if g.sjis {
				g.pools = append(g.pools, g.pick(sjisNames))
			} else {
				g.pools = append(g.pools, g.uniName())
			}
		case g.p(1, 25):
			g.pools = append(g.pools, g.pick(embeddedOrder[:28]))
		case g.p(1, 40):
			g.pools = append(g.pools, g.pick(asciiNames)+strings.Repeat(g.pick([]string{"x", "long_name_", "Abc"}), 5+g.n(60)*(1+g.n(2)*g.n(2))))
		default:
			g.pools = append(g.pools, g.pick(asciiNames))
		}
	}
}

func (g *Gen) anyName() string { return g.pick(g.pools) }

// freshIn draws a name the given scope does not declare itself.
func (g *Gen) freshIn(s *gscope, extra map[string]bool) string {
	for try := 0; try < 12; try++ {
		nm := g.anyName()
		k := strings.ToLower(nm)
		if s.names[k] != nil || extra[k] || g.reservedHere(k) {
			continue
		}
		return nm
	}
	for {
		g.nameSeq++
		nm := fmt.Sprintf("%s%d", g.pick([]string{"v", "Z", "nm_", "Q"}), g.nameSeq)
		k := strings.ToLower(nm)
		if s.names[k] == nil && !extra[k] && !g.reservedHere(k) {
			return nm
		}
	}
}

// reservedHere tells names which must not be redeclared at this place to keep
// the expected meaning beyond doubt: names of units and of the program, and
// names still waiting for their declaration in the running type section.
func (g *Gen) reservedHere(k string) bool {
	if _, ok := g.pend[k]; ok {
		return true
	}
	if g.implOf != nil && g.scope == g.implOf && g.intfOf.names[k] != nil {
		return true
	}
	if d := g.scope.lookup(k); d != nil && (d.kind == "UsesClauseItem" || d.kind == "Unit" || d.kind == "Program") {
		return true
	}
	return g.held[k] > 0 || g.selfType == k || (g.inType > 0 && g.secUsed[k])
}

// visible lists the declarations a name search finds from here.
func (g *Gen) visible(ok func(*gdecl) bool) []*gdecl {
	var out []*gdecl
	for c := g.scope; c != nil; c = c.parent {
		for _, d := range c.list {
			if !ok(d) {
				continue
			}
			if d.low == "" {
				d.low = strings.ToLower(d.name)
			}
			if g.usable(d.low) && g.scope.find(d.low) == d {
				out = append(out, d)
			}
		}
	}
	return out
}

func (g *Gen) declare(d *gdecl) *gdecl {
	g.newDecl(d)
	if o := g.scope.parent.lookup(d.name); o != nil && o.emb == "" {
		g.feat("names that hide an outer declaration")
	} else if o != nil {
		g.feat("names that hide a predefined type")
	}
	g.scope.put(d)
	return d
}

func (g *Gen) push() func() {
	old := g.scope
	g.scope = newScope(old)
	return func() { g.scope = old }
}

// usable: the name's meaning is beyond doubt here.
func (g *Gen) usable(k string) bool {
	return g.held[k] == 0 && !g.ambig[k] && g.selfType != k
}

// hold keeps names from being used or declared until released.
func (g *Gen) hold(names ...string) func() {
	for _, n := range names {
		g.held[strings.ToLower(n)]++
	}
	return func() {
		for _, n := range names {
			g.held[strings.ToLower(n)]--
		}
	}
}

func (g *Gen) spend(k int) bool {
	if g.size <= 0 {
		return false
	}
	g.size -= k
	return true
}

func itoa(i int) string { return strconv.Itoa(i) }

// ---- identifiers with references

func isLabel(d *gdecl) bool { return d != nil && d.kind == "LabelDeclSection" }
func isNamespace(d *gdecl) bool {
	return d != nil && (d.kind == "UsesClauseItem" || d.kind == "Unit" || d.kind == "Program")
}
func isTypeDecl(d *gdecl) bool { return d != nil && d.kind == "TypeDecl" }

// namespaceScope returns what a namespace makes available by qualification.
func (g *Gen) namespaceMembers(d *gdecl) []*gdecl {
	var scs []*gscope
	switch d.kind {
	case "UsesClauseItem":
		if d.unit == nil {
			return nil
		}
		scs = []*gscope{d.unit.exports}
		if d.unit == g.unit && g.unit.phase == 2 {
			scs = []*gscope{g.unit.implLocal, d.unit.exports}
		}
	case "Unit":
		if g.unit.phase == 2 {
			scs = []*gscope{g.unit.implLocal, g.unit.exports}
		} else {
			scs = []*gscope{g.unit.exports}
		}
	case "Program":
		scs = []*gscope{g.progTop}
	}
	var out []*gdecl
	seen := map[string]bool{}
	for _, s := range scs {
		for _, x := range s.list {
			k := strings.ToLower(x.name)
			if seen[k] || s.names[k] != x || isNamespace(x) || g.held[k] > 0 {
				continue
			}
			seen[k] = true
			out = append(out, x)
		}
	}
	return out
}

func (g *Gen) namespaces() []*gdecl {
	return g.visible(func(d *gdecl) bool { return isNamespace(d) && len(g.namespaceMembers(d)) > 0 })
}

// qualId emits a qualified or plain identifier and returns its form and what it refers to.
// stmtStart: a label must not come first.
func (g *Gen) qualId(stmtStart bool) (string, *gdecl) {
	if g.p(1, 5) {
		if ns := g.namespaces(); len(ns) > 0 {
			d := ns[g.n(len(ns))]
			ms := g.namespaceMembers(d)
			m := ms[g.n(len(ms))]
			_, a := g.ident(d.name)
			g.sym(".")
			_, b := g.ident(m.name)
			g.feat("qualified name")
			return a + refOf(d) + "." + b + refOf(m), nil // qualified names are never casts
		}
	}
	name := ""
	if g.p(4, 5) {
		typ := g.p(1, 10) // also predefined types
		vs := g.visible(func(d *gdecl) bool {
			return !isNamespace(d) && !(stmtStart && isLabel(d)) && (d.emb == "" || (typ && d.emb != "String"))
		})
		if len(vs) > 0 {
			// prefer names which several scopes declare
			name = vs[g.n(len(vs))].name
		}
	}
	if name == "" {
		for try := 0; ; try++ {
			name = g.anyName()
			if try > 10 {
				name = "undeclared" + itoa(g.n(1000))
			}
			d := g.scope.lookup(name)
			if isNamespace(d) || (stmtStart && isLabel(d)) || !g.usable(strings.ToLower(name)) {
				continue
			}
			break
		}
	}
	d := g.scope.lookup(name)
	_, a := g.ident(name)
	if d == nil {
		g.feat("undeclared name")
	} else {
		g.feat("ref " + d.kind)
	}
	return a + g.refTo(d), d
}
