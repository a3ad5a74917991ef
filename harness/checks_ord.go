package main

// P25: ordinal types, and what a type name finally stands for.

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
)

// tkind is what a type is: o ordinal, r real, s string, p pointer, v variant, x anything else, ? not declared
type tname struct {
	name string
	kind byte
	unit string
	deep int // number of aliases down to the base
}

type tscope struct {
	up    *tscope
	names map[string]*tname
	order []string
}

func (s *tscope) find(n string) *tname {
	for ; s != nil; s = s.up {
		if t := s.names[strings.ToLower(n)]; t != nil {
			return t
		}
	}
	return nil
}

func (s *tscope) put(t *tname) {
	s.names[strings.ToLower(t.name)] = t
	s.order = append(s.order, t.name)
}

type ordGen struct {
	r     *rand.Rand
	sc    *tscope
	seq   int
	unit  string
	units map[string]*tscope
	uses  []string
}

func (g *ordGen) push() func() {
	old := g.sc
	g.sc = &tscope{up: old, names: map[string]*tname{}}
	return func() { g.sc = old }
}

// base draws a type expression which is not a mere name.
func (g *ordGen) base() (string, byte) {
	g.seq++
	n := g.seq
	switch g.r.Intn(19) {
	case 0:
		return "1..10", 'o'
	case 1:
		return "'a'..'z'", 'o'
	case 2:
		return "-5..5", 'o'
	case 3, 4:
		return fmt.Sprintf("(q%da, q%db)", n, n), 'o'
	case 5:
		return fmt.Sprintf("(q%da = 1, q%db = 4)", n, n), 'o'
	case 6:
		return "string[10]", 's'
	case 7:
		return "string", 's'
	case 8:
		return "^Integer", 'p'
	case 9:
		return "array[0..1] of Byte", 'x'
	case 10:
		return "set of Word", 'x'
	case 11:
		return "record a: Integer end", 'x'
	case 12:
		return "class a: Integer; end", 'x'
	case 13:
		return "procedure(a: Integer)", 'x'
	case 14:
		return "function: Integer", 'x'
	case 15:
		return "file of Byte", 'x'
	case 16:
		return "array of Integer", 'x'
	case 17:
		return "^Boolean", 'p'
	}
	return "file of Word", 'x'
}

func (g *ordGen) all() []*tname {
	var out []*tname
	seen := map[string]bool{}
	for s := g.sc; s != nil; s = s.up {
		for _, n := range s.order {
			k := strings.ToLower(n)
			if !seen[k] {
				seen[k] = true
				out = append(out, s.names[k])
			}
		}
	}
	return out
}

// ref draws a visible type name, possibly qualified by its unit.
func (g *ordGen) ref(ok func(*tname) bool) (string, *tname) {
	var own, emb, cs []*tname
	for _, t := range g.all() {
		if ok(t) {
			if t.unit == "" && t.deep == 0 && predefKind(t.name) != 0 {
				emb = append(emb, t)
			} else {
				own = append(own, t)
			}
		}
	}
	cs = own
	if len(cs) == 0 || (len(emb) > 0 && g.r.Intn(4) == 0) {
		cs = emb
	}
	if len(g.uses) > 0 && g.r.Intn(3) == 0 { // qualified, maybe hidden
		u := g.uses[g.r.Intn(len(g.uses))]
		var qs []*tname
		for _, n := range g.units[u].order {
			if t := g.units[u].names[strings.ToLower(n)]; ok(t) {
				qs = append(qs, t)
			}
		}
		if len(qs) > 0 {
			t := qs[g.r.Intn(len(qs))]
			return recase(u, g.r.Intn(5), g.r) + "." + recase(t.name, g.r.Intn(5), g.r), t
		}
	}
	if len(cs) == 0 {
		return "", nil
	}
	t := cs[g.r.Intn(len(cs))]
	return recase(t.name, g.r.Intn(5), g.r), t
}

func predefKind(n string) byte {
	for k, v := range embeddedNames {
		if strings.EqualFold(k, n) {
			return v[0]
		}
	}
	return 0
}

// section declares some types; names may hide outer and predefined ones.
func (g *ordGen) section(max int) string {
	var b strings.Builder
	b.WriteString("type\n")
	for i, c := 0, 1+g.r.Intn(max); i < c; i++ {
		g.seq++
		name := fmt.Sprintf("T%d", g.seq)
		if g.r.Intn(4) == 0 {
			name = []string{"Integer", "Byte", "Real", "Char", "Pointer", "Variant", "AnsiString", "Double", "Boolean", "TX", "TY", "TZ"}[g.r.Intn(12)]
			if g.sc.names[strings.ToLower(name)] != nil {
				continue
			}
		}
		typ := ""
		if g.r.Intn(4) == 0 {
			typ = "type "
		}
		if g.r.Intn(3) > 0 {
			// an alias of a name which the section does not declare later
			ref, t := g.ref(func(*tname) bool { return true })
			if t == nil || strings.EqualFold(t.name, name) {
				continue
			}
			// within a section a hidden name may still mean the outer type: use a section of its own
			fmt.Fprintf(&b, "  %s = %s%s;\n", name, typ, ref)
			g.sc.put(&tname{name, t.kind, g.unit, t.deep + 1})
		} else {
			s, k := g.base()
			if strings.HasPrefix(s, "class") {
				typ = ""
			}
			fmt.Fprintf(&b, "  %s = %s%s;\n", name, typ, s)
			g.sc.put(&tname{name, k, g.unit, 0})
		}
		b.WriteString("type\n") // each declaration ends its section
	}
	s := strings.TrimSuffix(b.String(), "type\n")
	if s == "" {
		return ""
	}
	return s
}

// site puts a type into a place that asks for an ordinal type.
func (g *ordGen) site(t string) (string, string) {
	g.seq++
	n := g.seq
	switch g.r.Intn(10) {
	case 0:
		return fmt.Sprintf("type S%d = array[%s] of Byte;\n", n, t), "array index"
	case 1:
		return fmt.Sprintf("var s%d: array[0..3, %s, 1..2] of Byte;\n", n, t), "array index"
	case 2:
		return fmt.Sprintf("var s%d: array[%s, 0..7] of array[0..1] of Byte;\n", n, t), "array index"
	case 3:
		return fmt.Sprintf("type S%d = set of %s;\n", n, t), "set base"
	case 4:
		return fmt.Sprintf("var s%d: packed set of %s;\n", n, t), "set base"
	case 5:
		return fmt.Sprintf("type S%d = record a: Word; case %s of 1: (b: Word) end;\n", n, t), "tag"
	case 6:
		return fmt.Sprintf("var s%d: record case tag: %s of 1, 2: (b: Word; c: set of %s); end;\n", n, t, t), "tag"
	case 7:
		return fmt.Sprintf("const s%d: array[%s] of Word = 1;\n", n, t), "array index"
	case 8:
		return fmt.Sprintf("type S%d = record f: array[%s] of Word; end;\n", n, t), "array index"
	}
	return fmt.Sprintf("threadvar s%d: set of %s;\n", n, t), "set base"
}

var anonOrd = []string{"1..2", "'a'..'b'", "-3..-1", "0..0"}
var anonBad = []string{"string", "string[5]", "^Word", "array[0..1] of Word", "set of Word", "record a: Word end", "procedure", "function: Word", "file of Word", "class a: Word; end", "array of Word"}

func init() {
	register(&check{id: "P25", quick: 12000, thorough: 200000,
		rule: "random programs, nested routines and projects of unit files declaring types of all forms and chains of aliases to them (also [type] aliases, names that hide predefined ones, qualified names), each visible name and anonymous type put where an ordinal type is required: accepted if and only if the model says ordinal, and the predicates of each named type must agree with the model; non-trivial: a name reached by an alias",
		need: []string{"array index accepted", "set base accepted", "tag accepted", "array index rejected", "set base rejected", "tag rejected", "anonymous accepted", "anonymous rejected", "undeclared rejected", "predicates asked", "aliases at least 5 deep", "aliases at least 70 deep", "undeclared asked", "across units"},
		run:  func(x *ctx) { x.ordCase() }})
}

func (x *ctx) ordCase() {
	g := &ordGen{r: x.r, units: map[string]*tscope{}}
	emb := &tscope{names: map[string]*tname{}}
	for _, n := range embeddedOrder {
		emb.put(&tname{n, embeddedNames[n][0], "", 0})
	}
	files := map[string]string{}
	var unitNames []string
	nu := 0
	if x.k%4 == 0 {
		nu = 1 + x.r.Intn(3)
	}
	for i := 0; i < nu; i++ {
		g.unit = fmt.Sprintf("Un%d", i)
		g.sc = emb
		g.uses = nil
		text := "unit " + g.unit + ";\ninterface\n"
		for _, v := range unitNames {
			if x.r.Intn(2) == 0 {
				g.uses = append(g.uses, v)
			}
		}
		if len(g.uses) > 0 {
			text += "uses " + strings.Join(g.uses, ", ") + ";\n"
			for _, v := range g.uses {
				g.sc = &tscope{up: g.sc, names: g.units[v].names, order: g.units[v].order}
			}
		}
		g.push()
		own := g.sc
		for j := 0; j < 2; j++ {
			text += g.section(4)
		}
		text += "implementation\nend.\n"
		g.units[g.unit] = own
		unitNames = append(unitNames, g.unit)
		files["un"+itoa(i)+".pas"] = text
	}
	g.unit = ""
	g.sc = emb
	g.uses = nil
	head := "program Main;\n"
	if nu > 0 {
		head += "uses "
		for i, v := range unitNames {
			if i > 0 {
				head += ", "
			}
			head += v + " in 'un" + itoa(i) + ".pas'"
			g.uses = append(g.uses, v)
			g.sc = &tscope{up: g.sc, names: g.units[v].names, order: g.units[v].order}
		}
		head += ";\n"
	}
	// nested routines with types; the probes go into the innermost block or into one on the way
	depth := x.r.Intn(4)
	tail := ""
	body := head
	g.push()
	for d := 0; ; d++ {
		for j := 0; j < 1+x.r.Intn(3); j++ {
			body += g.section(5)
		}
		if x.k%5 == 2 && d == 0 { // a long chain of aliases
			s, k := g.base()
			body += "type\n  Ch0 = " + s + ";\n"
			g.sc.put(&tname{"Ch0", k, "", 0})
			l := 4 + x.r.Intn(12)
			if x.k%100 == 22 {
				l = []int{70, 130, 260}[x.r.Intn(3)]
				x.feat("aliases at least 70 deep")
			}
			for c := 1; c <= l; c++ {
				body += fmt.Sprintf("type Ch%d = %sCh%d;\n", c, []string{"", "type "}[x.r.Intn(2)], c-1)
				g.sc.put(&tname{"Ch" + itoa(c), k, "", c})
			}
		}
		if d == depth {
			break
		}
		body += fmt.Sprintf("procedure proc%d;\n", d)
		tail = "begin end;\n" + tail
		g.push()
	}
	end := tail + "begin\nend.\n"
	if nu > 0 {
		_, done := x.scratch()
		defer done()
		for n, t := range files {
			put(n, []byte(t))
			x.feat("across units")
		}
	}
	parse := func(text string) (*ast.Program, error) {
		x.only("main.dpr", text)
		for n, t := range files {
			x.input(n, t)
		}
		if nu > 0 {
			put("main.dpr", []byte(text))
			r, err := parser.ParseProgram("main.dpr")
			if err != nil {
				return nil, err
			}
			return r.Program, nil
		}
		o := parseMode("program", []rune(text))
		if o.err != nil {
			return nil, o.err
		}
		return o.node.(*ast.Program), nil
	}
	// predicates, and all ordinal names in places for ordinal types
	probe := ""
	want := map[string]*tname{}
	names := g.all()
	for i, t := range names {
		v := fmt.Sprintf("vq%d", i)
		want[v] = t
		probe += fmt.Sprintf("var %s: %s;\n", v, recase(t.name, x.r.Intn(5), x.r))
	}
	for _, u := range g.uses {
		for _, n := range g.units[u].order {
			v := fmt.Sprintf("vu%d", len(want))
			want[v] = g.units[u].names[strings.ToLower(n)]
			probe += fmt.Sprintf("var %s: %s.%s;\n", v, u, n)
		}
	}
	nowhere := &tname{"TNowhere", 'x', "", 0}
	for i := 0; i < 2; i++ {
		v := fmt.Sprintf("vn%d", i)
		want[v] = nowhere
		probe += fmt.Sprintf("var %s: TNowhere;\n", v)
		x.feat("undeclared asked")
	}
	var kinds []string
	for i := 0; i < 8; i++ {
		ref, t := g.ref(func(t *tname) bool { return t.kind == 'o' })
		if t == nil {
			break
		}
		s, k := g.site(ref)
		probe += s
		kinds = append(kinds, k+" accepted")
		x.eval(body+s, t.deep > 0)
		if t.deep >= 5 {
			x.feat("aliases at least 5 deep")
		}
	}
	for i := 0; i < 2; i++ {
		a := anonOrd[x.r.Intn(len(anonOrd))]
		if x.r.Intn(3) == 0 {
			g.seq++
			a = fmt.Sprintf("(e%da, e%db)", g.seq, g.seq)
			// not where the site names the type twice
			probe += fmt.Sprintf("type A%d = set of %s;\n", g.seq, a)
		} else {
			s, k := g.site(a)
			for k == "tag" { // a tag is a name
				s, k = g.site(a)
			}
			probe += s
		}
		kinds = append(kinds, "anonymous accepted")
	}
	prog, err := parse(body + probe + end)
	if err != nil {
		x.fail("ordinal types in places for ordinal types are rejected: %v", err)
	}
	for _, k := range kinds {
		x.feat(k)
	}
	asked := 0
	if err := astcore.WalkDown(prog, func(n ast.Node) error {
		vd, ok := n.(*ast.VarDecl)
		if !ok || len(vd.IdentList) != 1 || want[vd.IdentList[0].Name] == nil {
			return nil
		}
		t := want[vd.IdentList[0].Name]
		id, ok := vd.Type.(*ast.TypeId)
		if !ok {
			x.fail("the type of %s: %s is a %T", vd.IdentList[0].Name, t.name, vd.Type)
		}
		for _, q := range []struct {
			what string
			got  bool
			want bool
		}{{"ordinal", id.IsOrdinalType(), t.kind == 'o'}, {"real", id.IsRealType(), t.kind == 'r'}, {"a string", id.IsStringType(), t.kind == 's'},
			{"a pointer", id.IsPointerType(), t.kind == 'p'}, {"a variant", id.IsVariantType(), t.kind == 'v'}, {"simple", id.IsSimpleType(), t.kind == 'o' || t.kind == 'r'}} {
			if q.got != q.want {
				x.fail("is the type of %s: %s %s? The answer is %v, but the name stands for a type of kind %c", vd.IdentList[0].Name, t.name, q.what, q.got, t.kind)
			}
		}
		asked++
		x.eval(body+t.name, t.deep > 0)
		return nil
	}); err != nil {
		x.fail("walk: %v", err)
	}
	if asked != len(want) {
		x.fail("only %d of %d variables found in the result", asked, len(want))
	}
	x.count("predicates asked", asked*6)
	if len(body) < 700 {
		x.sample(body + probe + end)
	}
	// others are rejected
	for i := 0; i < 5; i++ {
		ref, t := g.ref(func(t *tname) bool { return t.kind != 'o' })
		if t == nil {
			break
		}
		s, k := g.site(ref)
		if _, err := parse(body + s + end); err == nil {
			x.fail("%s, a type of kind %c, is accepted as %s: %s", ref, t.kind, k, s)
		}
		x.feat(k + " rejected")
		x.eval(body+s, t.deep > 0)
	}
	s, k := g.site(anonBad[x.r.Intn(len(anonBad))])
	if _, err := parse(body + s + end); err == nil {
		x.fail("a type which is not ordinal is accepted as %s: %s", k, s)
	}
	x.feat("anonymous rejected")
	s, k = g.site("TNowhere")
	if _, err := parse(body + s + end); err == nil {
		x.fail("a name without declaration is accepted as %s: %s", k, s)
	}
	x.feat("undeclared rejected")
}
