package main

// P26 the constructors of package ast; P27 token tests and string helpers.

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/ext"
	"github.com/akm/tparser/runes"
	"github.com/akm/tparser/token"
)

func init() {
	register(&check{id: "P26", quick: 5000, thorough: 60000,
		rule: "generated programs, units, sections, headings, types, statements and expressions are parsed, and each node of the result for which package ast has a constructor is built again from its parts, bottom up, with the parts given in all the ways the constructor takes (node, identifier by pointer or value, token, wrapped or bare level of an expression); the copy must equal the parsed node, parts given as nodes must be taken over as they are and stay unchanged, wrong arguments must panic; nodes of the types the parser does not make (object, interface) are made from the parts of parsed ones and must show these; non-trivial: at least 5 nodes built",
		need: []string{"expression from expression", "expression from simple expression", "expression from term", "expression from factor", "expression from qualified name", "expression from identifier reference", "expression from identifier", "type name of a unit", "predefined type", "fixed string", "parameter by name, type and mode", "parameter by parameter", "array parameter", "parameter with default", "identifier list of values", "identifier list of pointers", "unit reference with path", "unit reference without path", "case label with range", "case label", "absolute name", "external with index", "external with name", "set element", "pointer type", "class reference", "wrong arguments panic", "identifier from token", "object and interface nodes", "interface properties"},
		run:  func(x *ctx) { x.buildCase() }})
	register(&check{id: "P27", quick: 40000, thorough: 600000,
		rule: "(a) each token of generated, damaged and random texts is asked with the tests of package token (class, symbol, word, directive, portability directive, value, and random nestings of some, every and not): the answer is that of an independent reading of the token's text; copies of tokens are equal and independent; texts and lengths agree with the source; (b) random sequences of operations on the list and set types of package ext against lists and sets of the model, receivers must not change except by Add, Remove and Sort; non-trivial: at least 5 questions",
		need: []string{"a directive", "not a directive", "a portability directive", "a reserved word", "a symbol", "nested tests: true", "nested tests: false", "sets equal", "sets differ", "lists equal", "lists differ", "excluded", "not a word of the list: panic"},
		run: func(x *ctx) {
			if x.k%2 == 0 {
				x.predCase()
			} else {
				x.extCase()
			}
		}})
}

type builder struct {
	x *ctx
	r *rand.Rand
	n int
}

// panics reports whether f panics.
func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

func (b *builder) same(what string, want, got interface{}) {
	b.n++
	if !reflect.DeepEqual(want, got) {
		b.x.fail("%s built from its parts is %s, parsed it is %s", what, short(got), short(want))
	}
}

func short(v interface{}) string {
	s := fmt.Sprintf("%#v", v)
	if n, ok := v.(ast.Node); ok {
		d := func() (s string) {
			defer func() {
				if recover() != nil {
					s = ""
				}
			}()
			var names []string
			astcore.WalkDown(n, func(m ast.Node) error {
				t := strings.TrimPrefix(fmt.Sprintf("%T", m), "*ast.")
				if i, ok := m.(*ast.Ident); ok {
					t = i.Name
				}
				names = append(names, t)
				return nil
			})
			return strings.Join(names, " ")
		}()
		if d != "" {
			s += " (" + d + ")"
		}
	}
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func (b *builder) ident(i *ast.Ident) interface{} {
	if i == nil {
		return i
	}
	if b.r.Intn(2) == 0 {
		return *i
	}
	return i
}

func (b *builder) typeId(t *ast.TypeId) *ast.TypeId {
	if t == nil {
		return nil
	}
	var args []interface{}
	var first interface{} = b.ident(t.Ident)
	if t.UnitId != nil {
		first = b.ident(t.UnitId)
		args = append(args, b.ident(t.Ident))
		b.x.feat("type name of a unit")
	}
	if t.Ref != nil || b.r.Intn(4) == 0 {
		args = append(args, t.Ref)
	}
	r := ast.NewTypeId(first, args...)
	b.same("type name", t, r)
	if r.Ref != t.Ref {
		b.x.fail("a type name built with a declaration refers to another one")
	}
	// predefined types by kind
	kind := predefKind(t.Ident.Name)
	for _, k := range []struct {
		kind byte
		emb  ast.EmbeddedTypeKind
		make []func(*ast.Ident) *ast.TypeId
	}{{'r', ast.EtkReal, []func(*ast.Ident) *ast.TypeId{ast.NewRealType}}, {'o', ast.EtkOrdIdent, []func(*ast.Ident) *ast.TypeId{ast.NewOrdIdent}},
		{'s', ast.EtkStringType, []func(*ast.Ident) *ast.TypeId{ast.NewStringType}}, {'p', ast.EtkPointerType, []func(*ast.Ident) *ast.TypeId{ast.NewPointerType, ast.NewEmbeddedPointerType}},
		{'v', ast.EtkVariantType, []func(*ast.Ident) *ast.TypeId{ast.NewVariantType}}} {
		var want *astcore.Decl
		if kind == k.kind {
			want = ast.EmbeddedTypeDeclMap.Get(t.Ident.Name)
			if want == nil {
				b.x.fail("%s is not predefined", t.Ident.Name)
			}
			b.x.feat("predefined type")
		}
		if d := ast.EmbeddedTypeDecl(k.emb, t.Ident.Name); d != want {
			b.x.fail("the predefined type %s of kind %c is %v, expected %v", t.Ident.Name, k.kind, d, want)
		}
		for _, f := range k.make {
			g := f(t.Ident)
			if g.Ref != want || g.Ident != t.Ident || g.UnitId != nil {
				b.x.fail("%s built as type of kind %c is %s, expected a reference to %v", t.Ident.Name, k.kind, short(g), want)
			}
			if kind == k.kind && t.Ref == want && t.UnitId == nil {
				b.same("predefined type", t, g)
			}
		}
	}
	return r
}

// expression: levels may be left out when they add nothing.
func (b *builder) expr(e *ast.Expression) *ast.Expression {
	if e == nil {
		return nil
	}
	b.x.feat("expression from expression")
	if ast.NewExpression(e) != e || ast.NewConstExpr(e) != e {
		b.x.fail("an expression given as such is not taken over")
	}
	mk := ast.NewExpression
	if b.r.Intn(2) == 0 {
		mk = func(v interface{}) *ast.Expression { return ast.NewConstExpr(v) }
	}
	s := e.SimpleExpression
	var r *ast.Expression
	if s.UnaryOp == nil && s.AddOpTerms == nil && b.r.Intn(3) > 0 {
		b.bare(s.Term, func(what string, v interface{}) {
			b.x.feat("expression from " + what)
			r = mk(v)
		})
	} else {
		b.x.feat("expression from simple expression")
		n := b.simple(s)
		r = mk(n)
		if r.SimpleExpression != n {
			b.x.fail("a simple expression given as such is not taken over")
		}
	}
	if e.RelOpSimpleExpressions != nil {
		if r.RelOpSimpleExpressions != nil {
			b.x.fail("a built expression has relations of its own")
		}
		r.RelOpSimpleExpressions = ast.RelOpSimpleExpressions{}
		for _, q := range e.RelOpSimpleExpressions {
			r.RelOpSimpleExpressions = append(r.RelOpSimpleExpressions, &ast.RelOpSimpleExpression{RelOp: q.RelOp, SimpleExpression: b.simple(q.SimpleExpression)})
		}
	}
	b.same("expression", e, r)
	return r
}

func (b *builder) simple(s *ast.SimpleExpression) *ast.SimpleExpression {
	if s == nil {
		return nil
	}
	if ast.NewSimpleExpression(s) != s {
		b.x.fail("a simple expression given as such is not taken over")
	}
	var r *ast.SimpleExpression
	if b.r.Intn(2) == 0 {
		t := b.term(s.Term)
		r = ast.NewSimpleExpression(t)
		if r.Term != t {
			b.x.fail("a term given as such is not taken over")
		}
	} else {
		b.bare(s.Term, func(what string, v interface{}) { r = ast.NewSimpleExpression(v) })
	}
	if r.UnaryOp != nil || r.AddOpTerms != nil {
		b.x.fail("a built simple expression has operators of its own")
	}
	r.UnaryOp = s.UnaryOp
	for _, q := range s.AddOpTerms {
		r.AddOpTerms = append(r.AddOpTerms, &ast.AddOpTerm{AddOp: q.AddOp, Term: b.term(q.Term)})
	}
	if s.AddOpTerms != nil && r.AddOpTerms == nil {
		r.AddOpTerms = ast.AddOpTerms{}
	}
	b.same("simple expression", s, r)
	return r
}

func (b *builder) term(t *ast.Term) *ast.Term {
	if ast.NewTerm(t) != t {
		b.x.fail("a term given as such is not taken over")
	}
	var r *ast.Term
	b.barer(t.Factor, func(what string, v interface{}) { r = ast.NewTerm(v) })
	if r.MulOpFactors != nil {
		b.x.fail("a built term has operators of its own")
	}
	for _, q := range t.MulOpFactors {
		r.MulOpFactors = append(r.MulOpFactors, &ast.MulOpFactor{MulOp: q.MulOp, Factor: b.factor(q.Factor)})
	}
	if t.MulOpFactors != nil && r.MulOpFactors == nil {
		r.MulOpFactors = ast.MulOpFactors{}
	}
	b.same("term", t, r)
	return r
}

// bare calls f with the term, or with its only factor, or what that consists of.
func (b *builder) bare(t *ast.Term, f func(string, interface{})) {
	if t.MulOpFactors != nil || b.r.Intn(4) == 0 {
		f("term", b.term(t))
		return
	}
	b.barer(t.Factor, f)
}

func (b *builder) barer(fc ast.Factor, f func(string, interface{})) {
	d, ok := fc.(*ast.DesignatorFactor)
	if !ok || d.ExprList != nil || d.Designator.Items != nil || b.r.Intn(4) == 0 {
		f("factor", b.factor(fc))
		return
	}
	q := b.qualId(d.Designator.QualId)
	if q.NamespaceId != nil || b.r.Intn(4) == 0 {
		f("qualified name", q)
		return
	}
	if q.Ident.Ref != nil || b.r.Intn(3) == 0 {
		b.refArg(q.Ident, f)
		return
	}
	f("identifier", b.ident(q.Ident.Ident))
}

func (b *builder) refArg(i *ast.IdentRef, f func(string, interface{})) {
	if b.r.Intn(2) == 0 {
		f("identifier reference", *i)
	} else {
		f("identifier reference", i)
	}
}

func (b *builder) identRef(i *ast.IdentRef) *ast.IdentRef {
	if i == nil {
		return nil
	}
	r := astcore.NewIdentRef(i.Ident, i.Ref)
	b.same("identifier reference", i, r)
	if r.Ref != i.Ref || r.Ident != i.Ident {
		b.x.fail("an identifier reference does not keep what it is made of")
	}
	return r
}

func (b *builder) qualId(q *ast.QualId) *ast.QualId {
	if q == nil {
		return nil
	}
	r := ast.NewQualId(b.identRef(q.NamespaceId), b.identRef(q.Ident))
	b.same("qualified name", q, r)
	return r
}

func (b *builder) designator(d *ast.Designator) *ast.Designator {
	if d == nil {
		return nil
	}
	if ast.NewDesignator(d) != d {
		b.x.fail("a designator given as such is not taken over")
	}
	q := b.qualId(d.QualId)
	var r *ast.Designator
	switch {
	case q.NamespaceId != nil || b.r.Intn(3) == 0:
		r = ast.NewDesignator(q)
	case q.Ident.Ref != nil || b.r.Intn(2) == 0:
		b.refArg(q.Ident, func(_ string, v interface{}) { r = ast.NewDesignator(v) })
	default:
		r = ast.NewDesignator(b.ident(q.Ident.Ident))
	}
	if r.Items != nil {
		b.x.fail("a built designator has items of its own")
	}
	if d.Items != nil {
		r.Items = ast.DesignatorItems{}
	}
	for _, i := range d.Items {
		switch v := i.(type) {
		case *ast.DesignatorItemIdent:
			if ast.NewDesignatorItemIdent(v) != v {
				b.x.fail("a designator item given as such is not taken over")
			}
			n := ast.NewDesignatorItemIdent(v.Ident)
			if n.Ident != v.Ident {
				b.x.fail("a designator item does not keep its identifier")
			}
			r.Items = append(r.Items, n)
		case ast.DesignatorItemExprList:
			r.Items = append(r.Items, ast.DesignatorItemExprList(b.exprs(ast.ExprList(v))))
		default:
			r.Items = append(r.Items, i)
		}
	}
	b.same("designator", d, r)
	return r
}

func (b *builder) exprs(l ast.ExprList) ast.ExprList {
	if l == nil {
		return nil
	}
	r := ast.ExprList{}
	for _, e := range l {
		r = append(r, b.expr(e))
	}
	return r
}

func (b *builder) factor(f ast.Factor) ast.Factor {
	var r ast.Factor
	switch v := f.(type) {
	case *ast.DesignatorFactor:
		if ast.NewDesignatorFactor(v) != v {
			b.x.fail("a designator factor given as such is not taken over")
		}
		d := ast.NewDesignatorFactor(b.designator(v.Designator))
		if d.ExprList != nil {
			b.x.fail("a built designator factor has arguments of its own")
		}
		d.ExprList = b.exprs(v.ExprList)
		r = d
	case *ast.NumberFactor:
		r = ast.NewNumber(v.Value)
	case *ast.StringFactor:
		r = ast.NewString(v.Value)
	case *ast.ValueFactor:
		r = ast.NewValueFactor(v.Value)
	case *ast.Nil:
		r = ast.NewNil()
	case *ast.Address:
		r = &ast.Address{Designator: b.designator(v.Designator)}
	case *ast.Parentheses:
		r = &ast.Parentheses{Expression: b.expr(v.Expression)}
	case *ast.Not:
		r = &ast.Not{Factor: b.factor(v.Factor)}
	case *ast.SetConstructor:
		s := &ast.SetConstructor{}
		if v.SetElements != nil {
			s.SetElements = []*ast.SetElement{}
		}
		for _, e := range v.SetElements {
			n := ast.NewSetElement(b.expr(e.Expression))
			if n.SubRangeEnd != nil {
				b.x.fail("a built set element has an end of its own")
			}
			n.SubRangeEnd = b.expr(e.SubRangeEnd)
			s.SetElements = append(s.SetElements, n)
			b.x.feat("set element")
		}
		r = s
	default:
		return f
	}
	b.same("factor", f, r)
	return r
}

func (b *builder) identList(l ast.IdentList) ast.IdentList {
	var arg []interface{}
	if len(l) == 0 {
		return l
	}
	for _, i := range l {
		arg = append(arg, b.ident(i))
	}
	r := astcore.NewIdentList(arg...)
	b.x.feat("identifier list of values")
	b.same("identifier list", l, r)
	ptrs := append([]*ast.Ident{}, l...)
	for _, g := range []ast.IdentList{astcore.NewIdentList(l), astcore.NewIdentList(ptrs), astcore.NewIdentList(arg)} {
		b.same("identifier list", l, g)
	}
	b.x.feat("identifier list of pointers")
	for i, p := range astcore.NewIdentList(ptrs) {
		if p != l[i] {
			b.x.fail("an identifier list does not keep the identifiers it is made of")
		}
	}
	return r
}

func (b *builder) paramType(p *ast.ParameterType) *ast.ParameterType {
	if p == nil {
		return nil
	}
	var arg interface{}
	if p.Type != nil {
		arg = p.Type
		if t, ok := p.Type.(*ast.TypeId); ok {
			arg = b.typeId(t)
			if t.UnitId == nil && t.Ref == nil && b.r.Intn(2) == 0 {
				arg = b.ident(t.Ident)
			}
		}
	}
	var r *ast.ParameterType
	if p.IsArray {
		r = ast.NewArrayParameterType(arg)
		b.x.feat("array parameter")
	} else {
		r = ast.NewParameterType(arg)
	}
	b.same("parameter type", p, r)
	if !p.IsArray && ast.NewParameterType(p) != p {
		b.x.fail("a parameter type given as such is not taken over")
	}
	b.same("parameter type", p, ast.NewParameterType(*p))
	return r
}

func (b *builder) parm(p *ast.FormalParm) {
	names := interface{}(b.identList(p.IdentList))
	if len(p.IdentList) == 1 && b.r.Intn(2) == 0 {
		names = b.ident(p.IdentList[0])
	}
	var typ interface{}
	pt := b.paramType(p.Type)
	if pt != nil {
		typ = pt
		if id, ok := pt.Type.(*ast.TypeId); ok && !pt.IsArray && b.r.Intn(2) == 0 {
			typ = id
		}
	}
	var r *ast.FormalParm
	switch {
	case p.ConstExpr != nil:
		var dflt interface{} = b.expr(p.ConstExpr)
		if b.r.Intn(2) == 0 {
			dflt = *b.expr(p.ConstExpr)
		}
		q := ast.NewParameter(names, typ, dflt)
		b.same("parameter", p.Parameter, q)
		r = ast.NewFormalParm(q)
		r.Opt = p.Opt
		b.x.feat("parameter with default")
	case p.Opt != nil:
		var o interface{} = p.Opt
		switch b.r.Intn(3) {
		case 0:
			o = *p.Opt
		case 1:
			o = string(*p.Opt)
		}
		r = ast.NewFormalParm(names, typ, o)
		b.x.feat("parameter by name, type and mode")
	case b.r.Intn(2) == 0:
		r = ast.NewFormalParm(names, typ)
	default:
		q := ast.NewParameter(names, typ)
		if b.r.Intn(2) == 0 {
			r = ast.NewFormalParm(q)
		} else {
			r = ast.NewFormalParm(*q)
		}
		b.x.feat("parameter by parameter")
	}
	b.same("parameter", p, r)
}

var wrongArgs = []struct {
	what string
	f    func(i *ast.Ident)
}{
	{"NewExpression(7)", func(i *ast.Ident) { ast.NewExpression(7) }},
	{"NewDesignator(nil)", func(i *ast.Ident) { ast.NewDesignator(nil) }},
	{"NewDesignator(3.5)", func(i *ast.Ident) { ast.NewDesignator(3.5) }},
	{"NewDesignatorItemIdent(1)", func(i *ast.Ident) { ast.NewDesignatorItemIdent(1) }},
	{"NewIdentFrom(1)", func(i *ast.Ident) { astcore.NewIdentFrom(1) }},
	{"NewIdentFrom(nil)", func(i *ast.Ident) { astcore.NewIdentFrom(nil) }},
	{"NewIdentList()", func(i *ast.Ident) { astcore.NewIdentList() }},
	{"NewIdentList(1, 2)", func(i *ast.Ident) { astcore.NewIdentList(1, 2) }},
	{"NewIdentList(1)", func(i *ast.Ident) { astcore.NewIdentList(1) }},
	{"NewTypeId of three names", func(i *ast.Ident) { ast.NewTypeId(i, i, i) }},
	{"NewTypeId(1)", func(i *ast.Ident) { ast.NewTypeId(1) }},
	{"NewFormalParm(ident)", func(i *ast.Ident) { ast.NewFormalParm(i) }},
	{"NewFormalParm with mode IN", func(i *ast.Ident) { ast.NewFormalParm(i, i, "IN") }},
	{"NewFormalParm of four", func(i *ast.Ident) { ast.NewFormalParm(i, i, "VAR", 1) }},
	{"NewParameter of four", func(i *ast.Ident) { ast.NewParameter(i, i, ast.NewNumber("1"), ast.NewNumber("1")) }},
	{"NewUnitRef(1)", func(i *ast.Ident) { ast.NewUnitRef(1) }},
	{"NewUnitRef of two paths", func(i *ast.Ident) { ast.NewUnitRef(i, "'a'", "'b'") }},
	{"NewExternalOptions of three", func(i *ast.Ident) { ast.NewExternalOptions("'a'", "'b'", 1) }},
	{"NewExternalOptions(1.5)", func(i *ast.Ident) { ast.NewExternalOptions("'a'", 1.5) }},
	{"NewCaseLabel of three", func(i *ast.Ident) {
		e := ast.NewExpression(i)
		ast.NewCaseLabel(e, e, e)
	}},
}

// shows: the parts of a node are exactly these, in this order.
func (b *builder) shows(n ast.Node, parts ...ast.Node) {
	b.n++
	c := n.Children()
	if len(c) != len(parts) {
		b.x.fail("a %T shows %d parts, expected %d", n, len(c), len(parts))
	}
	for i := range c {
		if !reflect.DeepEqual(c[i], parts[i]) {
			b.x.fail("part %d of a %T is %s, expected %s", i, n, short(c[i]), short(parts[i]))
		}
	}
}

func (x *ctx) buildCase() {
	c := x.cfg("program", "unit", "expr", "stmt", "type", "typesec", "varsec", "constsec", "block", "heading", "expr")
	c.size = 8 + x.r.Intn(60)
	c.noGiant = true
	m := makeMem(x.sub(1).Int63(), c)
	rd := m.render(x.sub(2), style{layout: x.k % 3, cases: x.k % 5})
	x.only("source", string(rd.text))
	o := parseMode(c.mode, rd.text)
	if o.err != nil {
		x.fail("a source of the grammar is rejected: %v", o.err)
	}
	before := dumpOne("P", rd.toks, o, false)
	b := &builder{x: x, r: x.r}
	root, ok := o.node.(ast.Node)
	if !ok {
		return
	}
	var any *ast.Ident
	visit := func(v interface{}) {
		switch n := v.(type) {
		case *ast.Ident:
			any = n
			if i := astcore.NewIdentFrom(n); i != n {
				x.fail("an identifier given as such is not taken over")
			}
			b.same("identifier", n, astcore.NewIdentFrom(*n))
			if n.Location != nil && n.Location.Start != nil {
				t := token.NewToken(token.Identifier, &rd.text, n.Location.Start, n.Location.End)
				for _, i := range []*ast.Ident{astcore.NewIdentFrom(t), astcore.NewIdentFrom(*t), ast.NewUnitId(t), ast.NewDesignator(t).QualId.Ident.Ident, ast.NewDesignator(*t).QualId.Ident.Ident, ast.NewDesignatorItemIdent(t).Ident} {
					if i.Name != n.Name || !reflect.DeepEqual(i.Location.Start, n.Location.Start) || !reflect.DeepEqual(i.Location.End, n.Location.End) {
						x.fail("the identifier of the token %q is %q at %v, expected %v", t.RawString(), i.Name, i.Location, n.Location)
					}
				}
				x.feat("identifier from token")
			}
		case *ast.Expression:
			b.expr(n)
		case *ast.Designator:
			b.designator(n)
		case *ast.QualId:
			b.qualId(n)
		case *ast.TypeId:
			b.typeId(n)
		case *ast.FixedStringType:
			if t, ok := n.StringType.(*ast.TypeId); ok {
				b.same("fixed string", n, ast.NewFixedStringType(t.Ident, b.expr(n.Length)))
				x.feat("fixed string")
			}
		case *ast.CustomPointerType:
			b.same("pointer type", n, ast.NewCustomPointerType(b.typeId(n.TypeId)))
			x.feat("pointer type")
		case *ast.CustomClassRefType:
			b.same("class reference", n, ast.NewCustomClassRefType(b.typeId(n.TypeId)))
			x.feat("class reference")
		case *ast.FormalParm:
			b.parm(n)
		case *ast.UsesClauseItem:
			var r *ast.UsesClauseItem
			if n.Path != nil {
				r = ast.NewUnitRef(b.ident(n.Ident), *n.Path)
				x.feat("unit reference with path")
			} else {
				r = ast.NewUnitRef(b.ident(n.Ident))
				x.feat("unit reference without path")
			}
			r.Unit = n.Unit
			b.same("unit reference", n, r)
			path := []string{"'u.pas'", "'..\\a\\u.pas'", "'ソ.pas'", "''"}[x.r.Intn(4)]
			for _, i := range []interface{}{n.Ident, *n.Ident} {
				r = ast.NewUnitRef(i, path)
				if r.Path == nil || *r.Path != path || r.Unit != nil || !reflect.DeepEqual(r.Ident, n.Ident) || r.UnquotedPath() != strings.Trim(path, "'") {
					x.fail("a unit reference built from %s and %s is %s", n.Name, path, short(r))
				}
			}
			x.feat("unit reference with path")
		case *ast.CaseLabel:
			if n.ExtraConstExpr != nil {
				b.same("case label", n, ast.NewCaseLabel(b.expr(n.ConstExpr), b.expr(n.ExtraConstExpr)))
				x.feat("case label with range")
			} else {
				b.same("case label", n, ast.NewCaseLabel(b.expr(n.ConstExpr)))
				x.feat("case label")
			}
		case *ast.VarDeclAbsoluteIdent:
			i := ast.Ident(*n)
			b.same("absolute name", n, ast.NewVarDeclAbsoluteIdent(b.ident(&i)))
			x.feat("absolute name")
		case *ast.VarDecl:
			b.identList(n.IdentList)
		case *ast.CustomClassType:
			// the node types which the parser does not make yet hold and show their parts like those it makes
			var parts []ast.Node
			if n.Heritage != nil {
				parts = append(parts, n.Heritage)
			}
			if n.Members != nil {
				parts = append(parts, n.Members)
			}
			b.shows(&ast.CustomObjectType{Heritage: n.Heritage, Members: n.Members}, parts...)
			h := ast.InterfaceHeritage(n.Heritage)
			g := &ast.InterfaceGuid{ConstExpr: ast.NewConstExpr(ast.NewString("'{0}'"))}
			if h != nil {
				b.shows(&ast.CustomInterfaceType{Heritage: h, Guid: g}, h, g)
				var ids []ast.Node
				for _, t := range h {
					ids = append(ids, t)
				}
				b.shows(h, ids...)
			}
			b.shows(&ast.CustomInterfaceType{Guid: g}, g)
			b.shows(&ast.CustomInterfaceType{})
			b.shows(&ast.CustomInterfaceType{Members: ast.InterfaceMemberList{}}, ast.InterfaceMemberList{})
			b.shows(g, g.ConstExpr)
			x.feat("object and interface nodes")
		case *ast.ClassMethod:
			if h, ok := n.Heading.(ast.InterfaceMethodHeading); ok {
				b.shows(&ast.InterfaceMethod{Heading: h}, h)
			}
		case *ast.ClassProperty:
			p := &ast.InterfaceProperty{Ident: n.Ident, Interface: n.Interface, Read: n.Read, Write: n.Write}
			parts := []ast.Node{n.Ident}
			if n.Interface != nil {
				parts = append(parts, n.Interface)
			}
			if n.Read != nil {
				parts = append(parts, n.Read)
			}
			if n.Write != nil {
				parts = append(parts, n.Write)
			}
			b.shows(p, parts...)
			b.shows(ast.Nodes(parts), parts...)
			x.feat("interface properties")
		}
	}
	var list []interface{}
	ownedNodes(root, func(nd reflect.Value, path string) { list = append(list, nd.Interface()) })
	for _, v := range list {
		visit(v)
	}
	// external clauses are no nodes
	for _, e := range externals(root) {
		var args []interface{}
		switch {
		case e.Name != nil:
			args = append(args, []interface{}{*e.Name, e.Name}[x.r.Intn(2)])
			x.feat("external with name")
		case e.Index != nil:
			args = append(args, []interface{}{*e.Index, e.Index}[x.r.Intn(2)])
			x.feat("external with index")
		}
		b.same("external clause", e, ast.NewExternalOptions(e.LibraryName, args...))
	}
	if after := dumpOne("P", rd.toks, o, false); after != before {
		x.fail("the parse result changed while nodes were built from its parts\n%s", diffText(before, after))
	}
	if any != nil {
		for _, w := range wrongArgs {
			if !panics(func() { w.f(any) }) {
				x.fail("%s builds a node", w.what)
			}
		}
		x.feat("wrong arguments panic")
	}
	x.count("nodes built", b.n)
	x.eval(string(rd.text), b.n >= 5)
	if len(rd.text) < 300 {
		x.sample(string(rd.text))
	}
}

func externals(root interface{}) []*ast.ExternalOptions {
	var out []*ast.ExternalOptions
	ownedNodes(root, func(nd reflect.Value, path string) {
		e := reflect.Indirect(nd)
		if e.Kind() != reflect.Struct {
			return
		}
		for i := 0; i < e.NumField(); i++ {
			if e.Type().Field(i).PkgPath != "" {
				continue
			}
			if o, ok := e.Field(i).Interface().(*ast.ExternalOptions); ok && o != nil {
				out = append(out, o)
			}
		}
	})
	return out
}

var apiDirectives = strings.Fields("abstract cdecl dynamic export external far forward index local message name near overload override pascal register reintroduce safecall stdcall varargs")
var apiPortability = strings.Fields("platform deprecated library")

func hasWord(l []string, w string) bool {
	for _, s := range l {
		if s == w {
			return true
		}
	}
	return false
}

type qtest struct {
	p    token.Predicator
	want bool
	desc string
}

// question draws a test and says what it has to answer for the token t whose text is raw.
func (x *ctx) question(t *token.Token, k lexKind, raw string, depth int) qtest {
	up := strings.ToUpper(raw)
	low := strings.ToLower(raw)
	value := raw
	if k == lkReserved {
		value = up
	}
	n := 12
	if depth == 0 {
		n = 9
	}
	switch c := x.r.Intn(n); c {
	case 0:
		types := []token.Type{token.EOF, token.Space, token.Comment, token.SpecialSymbol, token.Identifier, token.ReservedWord, token.NumeralInt, token.NumeralReal, token.CharacterString}
		typ := types[x.r.Intn(len(types))]
		var p token.Predicator = typ
		if x.r.Intn(2) == 0 {
			p = token.TokenType(typ)
		}
		if p.Name() != typ.String() || typ.Name() != typ.String() {
			x.fail("a test for %v is called %q", typ, p.Name())
		}
		return qtest{p, kindOf[typ] == k, "class " + typ.String()}
	case 1:
		s := []string{".", ",", ";", "(", ")", "..", ":=", "<=", ">=", "<>", "=", raw, raw}[x.r.Intn(13)]
		if k == lkSymbol && s == raw {
			x.feat("a symbol")
		}
		p := token.Symbol([]rune(s)...)
		if x.r.Intn(2) == 0 {
			p = token.SpecialSymbol.HasText(s)
		}
		return qtest{p, k == lkSymbol && raw == s, "symbol " + s}
	case 2:
		ws := []string{"BEGIN", "END", "OF", "PROCEDURE", "TYPE", "VAR", "IF"}
		w := ws[x.r.Intn(len(ws))]
		if k == lkReserved && x.r.Intn(2) == 0 {
			w = up
			x.feat("a reserved word")
		}
		return qtest{token.ReservedWord.HasKeyword(w), k == lkReserved && up == w, "reserved word " + w}
	case 3:
		want := hasWord(apiDirectives, low)
		x.feat(map[bool]string{true: "a directive", false: "not a directive"}[want])
		return qtest{token.Directive, want, "directive"}
	case 4:
		want := hasWord(apiPortability, low)
		if want {
			x.feat("a portability directive")
		}
		return qtest{token.PortabilityDirective, want, "portability directive"}
	case 5:
		var ws []string
		for i := 1 + x.r.Intn(4); i > 0; i-- {
			ws = append(ws, strings.ToUpper(apiDirectives[x.r.Intn(len(apiDirectives))]))
		}
		if hasWord(apiDirectives, low) && x.r.Intn(2) == 0 {
			ws = append(ws, up)
		}
		return qtest{token.Directives(ws...), hasWord(ws, up), "directives " + strings.Join(ws, " ")}
	case 6:
		var ws []string
		for i := 1 + x.r.Intn(2); i > 0; i-- {
			ws = append(ws, strings.ToUpper(apiPortability[x.r.Intn(3)]))
		}
		return qtest{token.PortabilityDirectives(ws...), hasWord(ws, up), "portability directives " + strings.Join(ws, " ")}
	case 7:
		v := []string{value, raw, up, "x"}[x.r.Intn(4)]
		return qtest{token.Value(v), v == value, "value " + v}
	case 8:
		v := []string{up, "X", "ABSOLUTE", "READ"}[x.r.Intn(4)]
		if x.r.Intn(2) == 0 {
			return qtest{token.PredicatorBy("by "+v, func(s string) bool { return s == v }), v == strings.ToUpper(value), "by " + v}
		}
		return qtest{token.UpperCase(v), v == strings.ToUpper(value), "upper case " + v}
	case 9:
		q := x.question(t, k, raw, depth-1)
		return qtest{token.Not(q.p), !q.want, "not(" + q.desc + ")"}
	default:
		var ps []token.Predicator
		some, every := false, true
		var ds []string
		for i := x.r.Intn(4); i >= 0; i-- {
			q := x.question(t, k, raw, depth-1)
			ps = append(ps, q.p)
			ds = append(ds, q.desc)
			some = some || q.want
			every = every && q.want
		}
		if x.r.Intn(8) == 0 {
			ps, ds, some, every = nil, nil, false, true
		}
		d := "(" + strings.Join(ds, ", ") + ")"
		if c == 10 {
			return qtest{token.Some(ps...), some, "some" + d}
		}
		return qtest{token.Every(ps...), every, "every" + d}
	}
}

func (x *ctx) predCase() {
	kind, _, text := x.lexText(0)
	if x.r.Intn(2) == 0 { // words in all spellings
		kind = "words"
		var ws []string
		all := append(append(append([]string{}, apiDirectives...), apiPortability...), "absolute", "assembler", "virtual", "read", "write", "begin", "end", "of", "type", "names", "indexed", "fars", "ne", "librar", "platforms")
		for i := 3 + x.r.Intn(10); i > 0; i-- {
			ws = append(ws, recase(all[x.r.Intn(len(all))], x.r.Intn(5), x.r))
		}
		text = []rune(strings.Join(ws, " "))
	}
	x.only("text", string(text))
	ref := refLex(text)
	tk := token.NewTokenizer(&text, token.LoadSpace|token.LoadComment)
	asked := 0
	for i, rt := range ref {
		t := tk.GetNext()
		raw := string(text[rt.start:rt.end])
		if t == nil || t.Start.Index != rt.start || t.End.Index != rt.end || kindOf[t.Type] != rt.kind {
			return // the business of P01 to P03
		}
		if rt.kind == lkUnknown {
			continue
		}
		if t.RawString() != raw || string(t.Raw()) != raw || t.Len() != rt.end-rt.start {
			x.fail("token %d: text %q, length %d, expected %q", i, t.RawString(), t.Len(), raw)
		}
		value := raw
		if rt.kind == lkReserved {
			value = strings.ToUpper(raw)
		}
		if t.Value() != value {
			x.fail("token %d, %q: the value is %q, expected %q", i, raw, t.Value(), value)
		}
		for _, n := range []int{1, 5, 20, 50} {
			want := value
			if rt.end-rt.start >= n {
				want = string(text[rt.start:rt.start+n]) + "..."
			}
			if g := t.ValueAbbr(n); g != want {
				x.fail("token %d, %q cut to %d: %q, expected %q", i, raw, n, g, want)
			}
		}
		c := t.Clone()
		if !reflect.DeepEqual(c, t) || c.RawString() != raw {
			x.fail("token %d, %q: its copy differs", i, raw)
		}
		c.Start.Index, c.Start.Line, c.End.Col, c.Type = 0, 77, 99, token.EOF
		c.End.Index = 0
		if t.RawString() != raw || t.Start.Index != rt.start || t.End.Index != rt.end || kindOf[t.Type] != rt.kind {
			x.fail("token %d, %q changed with its copy", i, raw)
		}
		if asked < 60 {
			for j := 0; j < 4; j++ {
				q := x.question(t, rt.kind, raw, 3)
				if got := t.Is(q.p); got != q.want || q.p.Predicate(t) != q.want {
					x.fail("token %d, %q: %s is %v, expected %v", i, raw, q.desc, got, q.want)
				}
				if q.p.Name() == "" {
					x.fail("%s has no name", q.desc)
				}
				if strings.ContainsAny(q.desc, "(") {
					x.feat("nested tests: " + strconv.FormatBool(q.want))
				}
				asked++
			}
		}
	}
	if x.k%64 == 0 {
		for _, w := range []string{"ABSOLUTE", "FOO", "cdecl", "PLATFORM", ""} {
			if !panics(func() { token.Directives(w) }) {
				x.fail("a test for the directive %q can be built", w)
			}
			if !panics(func() { token.Directives("CDECL", w) }) {
				x.fail("a test for the directives CDECL and %q can be built", w)
			}
			if w != "PLATFORM" && !panics(func() { token.PortabilityDirectives("LIBRARY", w) }) {
				x.fail("a test for the portability directive %q can be built", w)
			}
		}
		if !panics(func() { token.ReservedWord.HasKeyword("FOO") }) {
			x.fail("a test for the reserved word FOO can be built")
		}
		x.feat("not a word of the list: panic")
		if !runes.Equal([]rune("aé"), []rune("aé")) || runes.Equal([]rune("a"), []rune("ab")) || runes.Equal([]rune("ab"), []rune("a")) || runes.Equal([]rune("ab"), []rune("ac")) || !runes.Equal(nil, []rune{}) {
			x.fail("runes.Equal is wrong")
		}
	}
	x.count("questions", asked)
	x.eval(string(text), asked >= 5)
	if len(text) < 200 {
		x.sample(kind + ": " + string(text))
	}
}

func (x *ctx) extCase() {
	r := x.r
	word := func() string {
		return []string{"", "a", "A", "b", "ab", "é", "z", "10", "9", "日", "B", "aa"}[r.Intn(12)]
	}
	words := func(n int) []string {
		out := []string{}
		for i := r.Intn(n); i > 0; i-- {
			out = append(out, word())
		}
		return out
	}
	if r.Intn(50) == 0 {
		// long lists and large sets
		small := word
		scale := 1
		if r.Intn(8) == 0 {
			scale = 20
		}
		word = func() string {
			if r.Intn(3) == 0 {
				return small()
			}
			return "w" + strconv.Itoa(r.Intn(700*scale*scale))
		}
		words = func(n int) []string {
			out := []string{}
			for i := r.Intn(n * 120 * scale); i > 0; i-- {
				out = append(out, word())
			}
			return out
		}
		x.feat("long lists and large sets")
	}
	var log []string
	say := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
	bad := func(f string, a ...interface{}) {
		x.only("operations", strings.Join(log, "\n"))
		x.fail(f, a...)
	}
	eq := func(a, b []string) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	sorted := func(a []string) []string {
		b := append([]string{}, a...)
		sort.Strings(b)
		return b
	}
	uniq := func(a []string) map[string]bool {
		m := map[string]bool{}
		for _, s := range a {
			m[s] = true
		}
		return m
	}
	keys := func(m map[string]bool) []string {
		var b []string
		for k := range m {
			b = append(b, k)
		}
		return sorted(b)
	}
	init := words(6)
	list := ext.Strings(append([]string{}, init...))
	set := ext.NewStringSet(init...)
	mset := uniq(init)
	say("start %q", init)
	ops := 0
	for i := 4 + r.Intn(12); i > 0; i-- {
		ops++
		w := word()
		model := append([]string{}, list...)
		switch r.Intn(16) {
		case 0:
			say("Add %q", w)
			set.Add(w)
			mset[w] = true
		case 1:
			say("Remove %q", w)
			set.Remove(w)
			delete(mset, w)
		case 2:
			other := words(6)
			if r.Intn(2) == 0 {
				other = keys(mset)
				r.Shuffle(len(other), func(i, j int) { other[i], other[j] = other[j], other[i] })
			}
			if r.Intn(4) == 0 && len(other) > 0 {
				other = append(other, other[0])
			}
			if len(other) > 0 && r.Intn(4) == 0 {
				other[r.Intn(len(other))] = word()
			}
			say("Equal %q", other)
			o := ext.NewStringSet(other...)
			want := eq(keys(uniq(other)), keys(mset))
			if set.Equal(o) != want || o.Equal(set) != want {
				bad("the sets %q and %q: equal is %v, expected %v", keys(mset), other, set.Equal(o), want)
			}
			x.feat(map[bool]string{true: "sets equal", false: "sets differ"}[want])
		case 3:
			say("Include %q", w)
			if set.Include(w) != mset[w] {
				bad("%q in the set %q: %v", w, keys(mset), set.Include(w))
			}
		case 4:
			say("Set")
			if g := list.Set(); !eq(g.Slice(), keys(uniq(model))) {
				bad("the set of %q is %q", model, g.Slice())
			}
		case 5:
			say("Sort")
			g := list.Sort()
			if !eq(g, sorted(model)) {
				bad("%q sorted is %q", model, g)
			}
			list = g
			model = sorted(model)
		case 6:
			other := append([]string{}, model...)
			if r.Intn(2) == 0 {
				other = words(6)
			} else if len(other) > 0 && r.Intn(2) == 0 {
				j := r.Intn(len(other))
				other[j] = word()
			} else if r.Intn(3) == 0 {
				other = append(other, w)
			}
			say("Equal %q", other)
			want := eq(model, other)
			if list.Equal(other) != want || ext.Strings(other).Equal(list) != want {
				bad("the lists %q and %q: equal is %v, expected %v", model, other, list.Equal(other), want)
			}
			x.feat(map[bool]string{true: "lists equal", false: "lists differ"}[want])
		case 7:
			say("Include %q", w)
			if list.Include(w) != uniq(model)[w] {
				bad("%q in the list %q: %v", w, model, list.Include(w))
			}
		case 8:
			say("Select")
			f := func(s string) bool { return s < w }
			want := []string{}
			for _, s := range model {
				if f(s) {
					want = append(want, s)
				}
			}
			if g := list.Select(f); !eq(g, want) {
				bad("those of %q below %q: %q, expected %q", model, w, g, want)
			}
		case 9:
			say("Interfaces")
			g := list.Interfaces()
			for j := range model {
				if len(g) != len(model) || g[j] != model[j] {
					bad("%q as values: %q", model, g)
				}
			}
		case 10:
			ex := words(5)
			say("Exclude %q", ex)
			want := []string{}
			for _, s := range model {
				if !uniq(ex)[s] {
					want = append(want, s)
				}
			}
			if g := list.Exclude(ex...); !eq(g, want) {
				bad("%q without %q: %q, expected %q", model, ex, g, want)
			}
			if len(want) < len(model) {
				x.feat("excluded")
			}
		case 11:
			say("Join %q", w)
			want := ""
			for j, s := range model {
				if j > 0 {
					want += w
				}
				want += s
			}
			if g := list.Join(w); g != want {
				bad("%q joined with %q: %q", model, w, g)
			}
		case 12:
			say("Map and ToUpper")
			want, up := []string{}, []string{}
			for _, s := range model {
				want = append(want, s+w)
				up = append(up, strings.ToUpper(s))
			}
			if g := list.Map(func(s string) string { return s + w }); !eq(g, want) {
				bad("%q mapped: %q, expected %q", model, g, want)
			}
			if g := list.ToUpper(); !eq(g, up) {
				bad("%q in upper case: %q", model, g)
			}
		case 13:
			say("Reverse")
			want := []string{}
			for j := len(model) - 1; j >= 0; j-- {
				want = append(want, model[j])
			}
			if g := list.Reverse(); !eq(g, want) {
				bad("%q reversed: %q", model, g)
			}
		case 14:
			say("ExtractStrings, ExtractStringSets")
			args := []interface{}{}
			wantS, wantSets, wantRest, wantRest2 := []string{}, 0, []interface{}{}, []interface{}{}
			for j := r.Intn(6); j > 0; j-- {
				switch r.Intn(5) {
				case 0:
					v := word()
					args, wantS, wantRest2 = append(args, v), append(wantS, v), append(wantRest2, v)
				case 1:
					v := words(3)
					args, wantS, wantRest2 = append(args, v), append(wantS, v...), append(wantRest2, v)
				case 2:
					v := ext.Strings(words(3))
					args, wantS, wantRest2 = append(args, v), append(wantS, v...), append(wantRest2, v)
				case 3:
					v := ext.NewStringSet(words(3)...)
					args, wantRest = append(args, v), append(wantRest, v)
					wantSets++
				default:
					v := r.Intn(9)
					args, wantRest, wantRest2 = append(args, v), append(wantRest, v), append(wantRest2, v)
				}
			}
			g, rest := ext.ExtractStrings(args...)
			if !eq(g, wantS) || !reflect.DeepEqual(rest, wantRest) {
				bad("the strings of %v: %q and %v, expected %q and %v", args, g, rest, wantS, wantRest)
			}
			gs, rest2 := ext.ExtractStringSets(args...)
			if len(gs) != wantSets || !reflect.DeepEqual(rest2, wantRest2) {
				bad("the sets of %v: %v and %v", args, gs, rest2)
			}
		default:
			p := ext.StringPtr(w)
			if (p == nil) != (w == "") || p != nil && *p != w {
				bad("the pointer to %q is wrong", w)
			}
			if bt, bf := ext.BoolPtr(true), ext.BoolPtr(false); !*bt || *bf {
				bad("the pointer to a truth value is wrong")
			}
		}
		if !eq(list, model) {
			bad("the list is %q after this, expected %q", list, model)
		}
		if !eq(set.Slice(), keys(mset)) || len(set) != len(mset) {
			bad("the set is %q after this, expected %q", set.Slice(), keys(mset))
		}
		for k := range mset {
			if !set.Include(k) {
				bad("%q is not in the set any more", k)
			}
		}
	}
	x.count("operations", ops)
	x.eval(strings.Join(log, "\n"), ops >= 5)
}
