package main

// Canonical textual form of the parser's result.
//
// The dumper observes the public result tree only.  It prints
//   identifiers as   name#N        N = ordinal of the source token the identifier's location points to
//   references as    ^{...}        what the identifier resolves to (declaring token, node kind)
// The generator prints the form it expects in the same syntax, so one string
// comparison decides structure, spelling, locations and name resolution; the
// strip* functions project a form onto the aspect a property speaks about.

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
)

type identSite struct {
	tag string
	ord string
}

type srcIndex struct {
	tag   string
	byIdx map[int]int // rune index of token start -> token ordinal
	toks  []tokPos
}

type tokPos struct {
	idx, end    int
	line, col   int
	eline, ecol int
	text        string
}

type Dumper struct {
	src    map[string]*srcIndex
	cur    *srcIndex
	idents map[*astcore.Ident]identSite
	nodes  map[interface{}]bool
	b      strings.Builder
	pass   int
	// posErrs collects identifiers whose location is not exactly a token of the source
	posErrs []string
	nIdents int
	// computed: print the effective specifiers of properties too
	computed bool
	absolute bool
	nRefs    int
}

func NewDumper() *Dumper {
	return &Dumper{src: map[string]*srcIndex{}, idents: map[*astcore.Ident]identSite{}, nodes: map[interface{}]bool{}}
}

func (d *Dumper) AddSource(tag string, toks []tokPos) {
	m := map[int]int{}
	for i, t := range toks {
		m[t.idx] = i
	}
	d.src[tag] = &srcIndex{tag: tag, byIdx: m, toks: toks}
}

type dumpPart struct {
	tag  string
	node interface{}
}

// Dump prints the parts, resolving references among them.
func (d *Dumper) Dump(parts ...dumpPart) []string {
	for d.pass = 1; d.pass <= 2; d.pass++ {
		res := make([]string, len(parts))
		for i, p := range parts {
			d.b.Reset()
			d.cur = d.src[p.tag]
			if d.cur == nil {
				d.cur = &srcIndex{tag: p.tag}
			}
			if d.pass == 1 {
				d.posErrs = nil
			}
			d.any(p.node)
			res[i] = d.b.String()
		}
		if d.pass == 2 {
			return res
		}
	}
	return nil
}

func (d *Dumper) w(f string, a ...interface{}) {
	if len(a) == 0 {
		d.b.WriteString(f)
		return
	}
	fmt.Fprintf(&d.b, f, a...)
}

func (d *Dumper) ordOf(i *astcore.Ident) string {
	if i.Location == nil || i.Location.Start == nil || i.Location.End == nil {
		return "?noloc"
	}
	s, e := i.Location.Start, i.Location.End
	o, ok := d.cur.byIdx[s.Index]
	if !ok {
		return fmt.Sprintf("?idx%d", s.Index)
	}
	t := d.cur.toks[o]
	if t.end != e.Index {
		return fmt.Sprintf("%d?end%d", o, e.Index)
	}
	if t.line != s.Line || t.col != s.Col {
		return fmt.Sprintf("%d?at%d:%d(want %d:%d)", o, s.Line, s.Col, t.line, t.col)
	}
	if t.eline != e.Line || t.ecol != e.Col {
		return fmt.Sprintf("%d?to%d:%d(want %d:%d)", o, e.Line, e.Col, t.eline, t.ecol)
	}
	if t.text != i.Name {
		return fmt.Sprintf("%d?text%q", o, t.text)
	}
	return fmt.Sprintf("%d", o)
}

func (d *Dumper) ident(i *astcore.Ident) {
	if i == nil {
		d.w("<nil>")
		return
	}
	o := d.ordOf(i)
	if d.absolute {
		site, ok := d.idents[i]
		if !ok {
			site = identSite{"?", "?"}
		}
		d.w("%s@%s#%s", i.Name, site.tag, site.ord)
		return
	}
	if d.pass == 1 {
		d.idents[i] = identSite{d.cur.tag, o}
		d.nIdents++
	}
	d.w("%s#%s", i.Name, o)
}

// decl registers a declaring node.
func (d *Dumper) decl(n interface{}) {
	if d.pass == 1 {
		d.nodes[n] = true
	}
}

func typeName(n interface{}) string {
	s := fmt.Sprintf("%T", n)
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func (d *Dumper) ref(r *astcore.Decl) {
	d.nRefs++
	d.w("^{%s}", d.refString(r))
}

func (d *Dumper) refString(r *astcore.Decl) string {
	if r == nil {
		return "nil"
	}
	kind := typeName(r.Node)
	if td, ok := r.Node.(*ast.TypeDecl); ok {
		if e, ok := td.Type.(*ast.TypeEmbedded); ok {
			return "embedded " + e.Ident.Name
		}
	}
	site, ok := d.idents[r.Ident]
	if !ok {
		name := "?"
		if r.Ident != nil {
			name = r.Ident.Name
		}
		return fmt.Sprintf("?unknown-ident %s:%s", name, kind)
	}
	s := fmt.Sprintf("%s#%s:%s", site.tag, site.ord, kind)
	switch r.Node.(type) {
	case *ast.Unit, *ast.Program:
	default:
		if !d.nodes[r.Node] {
			s += "!detached"
		}
	}
	return s
}

func (d *Dumper) list(l []*astcore.Ident) {
	d.w("[")
	for i, x := range l {
		if i > 0 {
			d.w(" ")
		}
		d.ident(x)
	}
	d.w("]")
}

func isNil(n interface{}) bool { return n == nil || fmt.Sprintf("%v", n) == "<nil>" }

func (d *Dumper) pdir(p *ast.PortabilityDirective) {
	if p != nil {
		d.w(" pd:%s", strings.ToLower(string(*p)))
	}
}

func (d *Dumper) uses(u ast.UsesClause) {
	if len(u) == 0 {
		return
	}
	d.w(" (uses")
	for _, it := range u {
		d.decl(it)
		d.w(" (")
		d.ident(it.Ident)
		if it.Path != nil {
			d.w(" in %s", *it.Path)
		}
		if it.Unit != nil {
			d.w(" unit^{%s}", strings.ToLower(it.Unit.Ident.Name))
		}
		d.w(")")
	}
	d.w(")")
}

func (d *Dumper) any(n interface{}) {
	switch v := n.(type) {
	case nil:
		d.w("<nil>")
	case *ast.Program:
		d.w("(program ")
		d.ident(v.Ident)
		if v.ProgramBlock == nil {
			d.w(" <nil>)")
			return
		}
		d.uses(v.ProgramBlock.UsesClause)
		d.w(" ")
		d.block(v.ProgramBlock.Block)
		d.w(")")
	case *ast.Unit:
		d.w("(unit ")
		d.ident(v.Ident)
		d.pdir(v.PortabilityDirective)
		d.w("\n (interface")
		if s := v.InterfaceSection; s != nil {
			d.uses(s.UsesClause)
			for _, x := range s.InterfaceDecls {
				d.w("\n  ")
				d.section(x)
			}
		}
		d.w(")\n (implementation")
		if s := v.ImplementationSection; s != nil {
			d.uses(s.UsesClause)
			for _, x := range s.DeclSections {
				d.w("\n  ")
				d.section(x)
			}
			for _, x := range s.ExportsStmts {
				d.w(" ")
				d.exports(x)
			}
		}
		d.w(")")
		if s := v.InitSection; s != nil {
			d.w("\n (init ")
			d.stmts(s.InitializationStmts)
			if len(s.FinalizationStmts) > 0 {
				d.w(" (final ")
				d.stmts(s.FinalizationStmts)
				d.w(")")
			}
			d.w(")")
		}
		d.w(")")
	case *ast.Expression:
		d.expr(v)
	case *ast.Statement:
		d.stmt(v)
	case *ast.Block:
		d.block(v)
	case ast.TypeSection, ast.VarSection, ast.ConstSection, ast.ThreadVarSection, *ast.LabelDeclSection, *ast.FunctionDecl, *ast.ExportedHeading:
		d.section(v)
	case ast.Type:
		d.typ(v)
	default:
		d.w("?%T", n)
	}
}

func (d *Dumper) block(b *ast.Block) {
	if b == nil {
		d.w("<nilblock>")
		return
	}
	d.w("(block")
	for _, x := range b.DeclSections {
		d.w("\n  ")
		d.section(x)
	}
	for _, x := range b.ExportsStmts1 {
		d.w(" ")
		d.exports(x)
	}
	d.w("\n  ")
	switch v := b.Body.(type) {
	case nil:
		d.w("nobody")
	case *ast.CompoundStmt:
		d.w("(begin ")
		d.stmts(v.StmtList)
		d.w(")")
	case *ast.AssemblerStatement:
		d.w("(asm)")
	default:
		d.w("?%T", v)
	}
	for _, x := range b.ExportsStmts2 {
		d.w(" (after ")
		d.exports(x)
		d.w(")")
	}
	d.w(")")
}

func (d *Dumper) exports(s *ast.ExportsStmt) {
	d.w("(exports")
	for _, i := range s.ExportsItems {
		d.w(" (")
		d.ident(i.Ident)
		if i.Name != nil {
			d.w(" name ")
			d.expr(i.Name)
		}
		if i.Index != nil {
			d.w(" index ")
			d.expr(i.Index)
		}
		d.w(")")
	}
	d.w(")")
}

func (d *Dumper) section(n interface{}) {
	switch v := n.(type) {
	case ast.TypeSection:
		d.w("(type")
		for _, x := range v {
			d.decl(x)
			d.w(" (")
			d.ident(x.Ident)
			d.w(" ")
			d.typ(x.Type)
			d.pdir(x.PortabilityDirective)
			d.w(")")
		}
		d.w(")")
	case ast.VarSection:
		d.w("(var")
		for _, x := range v {
			d.decl(x)
			d.w(" (")
			d.list(x.IdentList)
			d.w(" ")
			d.typ(x.Type)
			if x.Absolute != nil {
				switch a := x.Absolute.(type) {
				case *ast.VarDeclAbsoluteIdent:
					d.w(" absolute ")
					d.ident((*astcore.Ident)(a))
				case *ast.VarDeclAbsoluteConstExpr:
					d.w(" absolute ")
					d.expr((*ast.ConstExpr)(a))
				default:
					d.w(" absolute ?%T", a)
				}
			}
			if x.ConstExpr != nil {
				d.w(" = ")
				d.expr(x.ConstExpr)
			}
			d.pdir(x.PortabilityDirective)
			d.w(")")
		}
		d.w(")")
	case ast.ThreadVarSection:
		d.w("(threadvar")
		for _, x := range v {
			d.decl(x)
			d.w(" (")
			d.list(x.IdentList)
			d.w(" ")
			d.typ(x.Type)
			d.w(")")
		}
		d.w(")")
	case ast.ConstSection:
		d.w("(const")
		for _, x := range v {
			d.decl(x)
			d.w(" (")
			d.ident(x.Ident)
			if x.Type != nil {
				d.w(" : ")
				d.typ(x.Type)
			}
			d.w(" = ")
			d.expr(x.ConstExpr)
			d.pdir(x.PortabilityDirective)
			d.w(")")
		}
		d.w(")")
	case *ast.LabelDeclSection:
		d.decl(v)
		d.w("(label ")
		d.ident(v.LabelId)
		d.w(")")
	case *ast.FunctionDecl:
		d.decl(v)
		d.w("(routine ")
		d.heading(v.FunctionHeading)
		d.directives(v.Directives, v.ExternalOptions)
		d.pdir(v.PortabilityDirective)
		d.w(" ")
		d.block(v.Block)
		d.w(")")
	case *ast.ExportedHeading:
		d.decl(v)
		d.w("(heading ")
		d.heading(v.FunctionHeading)
		d.directives(v.Directives, v.ExternalOptions)
		d.w(")")
	default:
		d.w("?section %T", n)
	}
}

func (d *Dumper) directives(l []ast.Directive, o *ast.ExternalOptions) {
	if len(l) > 0 {
		d.w(" dir[")
		for i, x := range l {
			if i > 0 {
				d.w(" ")
			}
			d.w("%s", string(x))
		}
		d.w("]")
	}
	if o != nil {
		d.w(" ext(%s", o.LibraryName)
		if o.Name != nil {
			d.w(" name %s", *o.Name)
		}
		if o.Index != nil {
			d.w(" index %d", *o.Index)
		}
		d.w(")")
	}
}

func (d *Dumper) heading(h *ast.FunctionHeading) {
	if h == nil {
		d.w("<nilheading>")
		return
	}
	switch h.Type {
	case ast.FtFunction:
		d.w("function ")
	case ast.FtProcedure:
		d.w("procedure ")
	default:
		d.w("?%d ", h.Type)
	}
	d.ident(h.Ident)
	d.params(h.FormalParameters)
	if h.ReturnType != nil {
		d.w(" : ")
		d.typ(h.ReturnType)
	}
}

func (d *Dumper) params(ps ast.FormalParameters) {
	if len(ps) == 0 {
		return
	}
	d.w(" (params")
	for _, p := range ps {
		d.decl(p)
		d.w(" (")
		if p.Opt != nil {
			d.w("%s ", string(*p.Opt))
		}
		d.list(p.IdentList)
		if p.Type != nil {
			d.w(" ")
			if p.Type.IsArray {
				d.w("arrayof ")
				if p.Type.Type == nil {
					d.w("const")
				} else {
					d.typ(p.Type.Type)
				}
			} else {
				d.typ(p.Type.Type)
			}
		}
		if p.ConstExpr != nil {
			d.w(" = ")
			d.expr(p.ConstExpr)
		}
		d.w(")")
	}
	d.w(")")
}

func (d *Dumper) typeId(t *ast.TypeId) {
	if t == nil {
		d.w("<niltypeid>")
		return
	}
	d.w("(tid ")
	if t.UnitId != nil {
		d.ident(t.UnitId)
		d.w(".")
	}
	d.ident(t.Ident)
	d.ref(t.Ref)
	d.w(")")
}

func packed(b bool) string {
	if b {
		return "packed "
	}
	return ""
}

func (d *Dumper) typ(t interface{}) {
	switch v := t.(type) {
	case nil:
		d.w("<niltype>")
	case *ast.TypeId:
		d.typeId(v)
	case ast.EnumeratedType:
		d.w("(enum")
		for _, e := range v {
			d.decl(e)
			d.w(" ")
			d.ident(e.Ident)
			if e.ConstExpr != nil {
				d.w("=")
				d.expr(e.ConstExpr)
			}
		}
		d.w(")")
	case *ast.SubrangeType:
		d.w("(range ")
		d.expr(v.Low)
		d.w(" .. ")
		d.expr(v.High)
		d.w(")")
	case *ast.FixedStringType:
		d.w("(string[] ")
		d.typ(v.StringType)
		d.w(" ")
		d.expr(v.Length)
		d.w(")")
	case *ast.ArrayType:
		d.w("(%sarray [", packed(v.Packed))
		for i, x := range v.IndexTypes {
			if i > 0 {
				d.w(" ")
			}
			d.typ(x)
		}
		d.w("] of ")
		d.typ(v.BaseType)
		d.w(")")
	case *ast.SetType:
		d.w("(%sset of ", packed(v.Packed))
		d.typ(v.OrdinalType)
		d.w(")")
	case *ast.FileType:
		d.w("(%sfile of ", packed(v.Packed))
		d.typ(v.TypeId)
		d.w(")")
	case *ast.RecType:
		d.w("(%srecord", packed(v.Packed))
		d.fields(v.FieldList)
		d.w(")")
	case *ast.CustomPointerType:
		d.w("(ptr ")
		d.typeId(v.TypeId)
		d.w(")")
	case *ast.ProcedureType:
		if v.FunctionType == ast.FtFunction {
			d.w("(functype")
		} else {
			d.w("(proctype")
		}
		d.params(v.FormalParameters)
		if v.ReturnType != nil {
			d.w(" : ")
			d.typ(v.ReturnType)
		}
		if v.OfObject {
			d.w(" ofobject")
		}
		d.w(")")
	case *ast.ForwardDeclaredClassType:
		d.w("(forwardclass")
		if v.Actual != nil {
			d.w(" actual")
			if d.pass == 2 && !d.nodes[v.Actual] {
				d.w("!detached")
			}
		}
		d.w(")")
	case *ast.CustomClassRefType:
		d.w("(classref ")
		d.typeId(v.TypeId)
		d.w(")")
	case *ast.CustomClassType:
		d.decl(v)
		d.class(v)
	default:
		d.w("?type %T", t)
	}
}

func (d *Dumper) fields(f *ast.FieldList) {
	if f == nil {
		d.w(" <nilfields>")
		return
	}
	for _, x := range f.FieldDecls {
		d.decl(x)
		d.w(" (")
		d.list(x.IdentList)
		d.w(" ")
		d.typ(x.Type)
		d.w(")")
	}
	if s := f.VariantSection; s != nil {
		d.w(" (variant ")
		if s.Ident != nil {
			d.ident(s.Ident)
			d.w(": ")
		}
		d.typ(s.TypeId)
		for _, r := range s.RecVariants {
			d.w(" (")
			for _, e := range r.ConstExprs {
				d.expr(e)
				d.w(" ")
			}
			d.w("->")
			d.fields(r.FieldList)
			d.w(")")
		}
		d.w(")")
	}
}

func (d *Dumper) class(c *ast.CustomClassType) {
	d.w("(class")
	if len(c.Heritage) > 0 {
		d.w(" (heritage")
		for _, h := range c.Heritage {
			d.w(" ")
			d.typeId(h)
		}
		d.w(")")
	}
	for _, s := range c.Members {
		d.w("\n   (%s", string(s.Visibility))
		for _, f := range s.ClassFieldList {
			d.decl(f)
			d.w(" (field ")
			d.list(f.IdentList)
			d.w(" ")
			d.typ(f.Type)
			d.w(")")
		}
		for _, m := range s.ClassMethodList {
			d.decl(m)
			d.w(" (method ")
			if m.ClassMethod {
				d.w("class ")
			}
			switch h := m.Heading.(type) {
			case *ast.FunctionHeading:
				d.heading(h)
			case *ast.ConstructorHeading:
				d.w("constructor ")
				d.ident(h.Ident)
				d.params(h.FormalParameters)
			case *ast.DestructorHeading:
				d.w("destructor ")
				d.ident(h.Ident)
			default:
				d.w("?%T", h)
			}
			if len(m.Directives) > 0 {
				d.w(" dir[")
				for i, x := range m.Directives {
					if i > 0 {
						d.w(" ")
					}
					d.w("%s", string(x))
				}
				d.w("]")
			}
			d.w(")")
		}
		for _, p := range s.ClassPropertyList {
			d.decl(p)
			d.property(p)
		}
		d.w(")")
	}
	d.w(")")
}

func (d *Dumper) property(p *ast.ClassProperty) {
	d.w(" (property ")
	d.ident(p.Ident)
	d.specifiers(p)
	if p.PortabilityDirective != "" {
		d.w(" pd:%s", strings.ToLower(string(p.PortabilityDirective)))
	}
	if p.Parent != nil {
		site := d.idents[p.Parent.Ident]
		d.w(" parent^{%s#%s", site.tag, site.ord)
		if d.pass == 2 && !d.nodes[p.Parent] {
			d.w("!detached")
		}
		d.w("}")
	}
	if d.computed {
		d.w(" =>")
		if d.pass == 2 {
			d.absolute = true
			d.specifiers(p.ComputedProperty())
			d.absolute = false
		}
	}
	d.w(")")
}

func (d *Dumper) specifiers(p *ast.ClassProperty) {
	if p.Interface != nil {
		d.params(p.Interface.Parameters)
		d.w(" : ")
		d.typeId(p.Interface.Type)
	}
	if p.Index != nil {
		d.w(" index ")
		d.expr(p.Index)
	}
	if p.Read != nil {
		d.w(" read ")
		d.identRef(p.Read)
	}
	if p.Write != nil {
		d.w(" write ")
		d.identRef(p.Write)
	}
	if p.Stored != nil {
		d.w(" stored ")
		if p.Stored.Constant != nil {
			d.w("%v", *p.Stored.Constant)
		}
		if p.Stored.IdentRef != nil {
			d.identRef(p.Stored.IdentRef)
		}
	}
	if p.Default != nil {
		if p.Default.Value != nil {
			d.w(" default ")
			d.expr(p.Default.Value)
		}
		if p.Default.NoDefault != nil {
			d.w(" nodefault %v", *p.Default.NoDefault)
		}
	}
	if p.Implements != nil {
		d.w(" implements ")
		d.typeId(p.Implements)
	}
}

func (d *Dumper) identRef(r *astcore.IdentRef) {
	if r == nil {
		d.w("<nilref>")
		return
	}
	d.ident(r.Ident)
	d.ref(r.Ref)
}

func (d *Dumper) qualId(q *ast.QualId) {
	if q == nil {
		d.w("<nilqual>")
		return
	}
	if q.NamespaceId != nil {
		d.identRef(q.NamespaceId)
		d.w(".")
	}
	d.identRef(q.Ident)
}

func (d *Dumper) designator(x *ast.Designator) {
	if x == nil {
		d.w("<nildesig>")
		return
	}
	d.qualId(x.QualId)
	for _, it := range x.Items {
		switch v := it.(type) {
		case *ast.DesignatorItemIdent:
			d.w(" .")
			d.ident(v.Ident)
		case ast.DesignatorItemExprList:
			d.w(" [")
			for i, e := range v {
				if i > 0 {
					d.w(", ")
				}
				d.expr(e)
			}
			d.w("]")
		case *ast.DesignatorItemDereference:
			d.w(" ^")
		default:
			d.w(" ?%T", it)
		}
	}
}

func (d *Dumper) expr(e *ast.Expression) {
	if e == nil {
		d.w("<nilexpr>")
		return
	}
	d.w("(E ")
	d.simple(e.SimpleExpression)
	for _, r := range e.RelOpSimpleExpressions {
		d.w(" %s ", r.RelOp)
		d.simple(r.SimpleExpression)
	}
	d.w(")")
}

func (d *Dumper) simple(s *ast.SimpleExpression) {
	if s == nil {
		d.w("<nilsimple>")
		return
	}
	d.w("(S ")
	if s.UnaryOp != nil {
		d.w("u%s ", *s.UnaryOp)
	}
	d.term(s.Term)
	for _, a := range s.AddOpTerms {
		d.w(" %s ", a.AddOp)
		d.term(a.Term)
	}
	d.w(")")
}

func (d *Dumper) term(t *ast.Term) {
	if t == nil {
		d.w("<nilterm>")
		return
	}
	d.w("(T ")
	d.factor(t.Factor)
	for _, m := range t.MulOpFactors {
		d.w(" %s ", m.MulOp)
		d.factor(m.Factor)
	}
	d.w(")")
}

func (d *Dumper) exprList(l ast.ExprList) {
	for i, e := range l {
		if i > 0 {
			d.w(", ")
		}
		d.expr(e)
	}
}

func (d *Dumper) factor(f ast.Factor) {
	switch v := f.(type) {
	case nil:
		d.w("<nilfactor>")
	case *ast.DesignatorFactor:
		d.w("(D ")
		d.designator(v.Designator)
		if len(v.ExprList) > 0 {
			d.w(" call(")
			d.exprList(v.ExprList)
			d.w(")")
		}
		d.w(")")
	case *ast.Address:
		d.w("(@ ")
		d.designator(v.Designator)
		d.w(")")
	case *ast.NumberFactor:
		d.w("(num %s)", v.Value)
	case *ast.StringFactor:
		d.w("(str %s)", v.Value)
	case *ast.ValueFactor:
		d.w("(val %s)", v.Value)
	case *ast.Nil:
		d.w("nil")
	case *ast.Parentheses:
		d.w("(paren ")
		d.expr(v.Expression)
		d.w(")")
	case *ast.Not:
		d.w("(not ")
		d.factor(v.Factor)
		d.w(")")
	case *ast.SetConstructor:
		d.w("(set")
		for _, e := range v.SetElements {
			d.w(" ")
			d.expr(e.Expression)
			if e.SubRangeEnd != nil {
				d.w("..")
				d.expr(e.SubRangeEnd)
			}
		}
		d.w(")")
	case *ast.TypeCast:
		d.w("(cast ")
		d.typeId(v.TypeId)
		d.w(" ")
		d.expr(v.Expression)
		d.w(")")
	default:
		d.w("?factor %T", f)
	}
}

func (d *Dumper) stmts(l ast.StmtList) {
	d.w("{")
	for i, s := range l {
		if i > 0 {
			d.w(";\n    ")
		}
		d.stmt(s)
	}
	d.w("}")
}

func (d *Dumper) stmt(s *ast.Statement) {
	if s == nil {
		d.w("<nilstmt>")
		return
	}
	if s.LabelId != nil {
		d.w("label ")
		d.ident(s.LabelId)
		d.w(": ")
	}
	switch v := s.Body.(type) {
	case nil:
		d.w("empty")
	case *ast.CallStatement:
		d.w("(call ")
		d.designator(v.Designator)
		if len(v.ExprList) > 0 {
			d.w(" (")
			d.exprList(v.ExprList)
			d.w(")")
		}
		d.w(")")
	case *ast.AssignStatement:
		d.w("(:= ")
		d.designator(v.Designator)
		d.w(" ")
		d.expr(v.Expression)
		d.w(")")
	case *ast.InheritedStatement:
		d.w("(inherited)")
	case *ast.GotoStatement:
		d.w("(goto ")
		d.ident(v.LabelId)
		d.ref(v.Ref)
		d.w(")")
	case *ast.CompoundStmt:
		d.w("(begin ")
		d.stmts(v.StmtList)
		d.w(")")
	case *ast.IfStmt:
		d.w("(if ")
		d.expr(v.Condition)
		d.w(" then ")
		d.stmt(v.Then)
		if v.Else != nil {
			d.w(" else ")
			d.stmt(v.Else)
		}
		d.w(")")
	case *ast.CaseStmt:
		d.w("(case ")
		d.expr(v.Expression)
		for _, c := range v.Selectors {
			d.w(" (")
			for i, l := range c.Labels {
				if i > 0 {
					d.w(",")
				}
				d.expr(l.ConstExpr)
				if l.ExtraConstExpr != nil {
					d.w("..")
					d.expr(l.ExtraConstExpr)
				}
			}
			d.w(": ")
			d.stmt(c.Statement)
			d.w(")")
		}
		if len(v.Else) > 0 {
			d.w(" else ")
			d.stmts(v.Else)
		}
		d.w(")")
	case *ast.RepeatStmt:
		d.w("(repeat ")
		d.stmts(v.StmtList)
		d.w(" until ")
		d.expr(v.Condition)
		d.w(")")
	case *ast.WhileStmt:
		d.w("(while ")
		d.expr(v.Condition)
		d.w(" do ")
		d.stmt(v.Statement)
		d.w(")")
	case *ast.ForStmt:
		d.w("(for ")
		d.qualId(v.QualId)
		d.w(" := ")
		d.expr(v.Initial)
		if v.Down {
			d.w(" downto ")
		} else {
			d.w(" to ")
		}
		d.expr(v.Terminal)
		d.w(" do ")
		d.stmt(v.Statement)
		d.w(")")
	case *ast.WithStmt:
		d.w("(with [")
		for i, q := range v.Objects {
			if i > 0 {
				d.w(" ")
			}
			d.qualId(q)
		}
		d.w("] do ")
		d.stmt(v.Statement)
		d.w(")")
	case *ast.TryExceptStmt:
		d.w("(tryexcept ")
		d.stmts(v.Statements)
		if b := v.ExceptionBlock; b != nil {
			for _, h := range b.Handlers {
				d.w(" (on ")
				if h.Decl != nil {
					d.decl(h.Decl)
					if h.Decl.Ident != nil {
						d.ident(h.Decl.Ident)
						d.w(": ")
					}
					d.typ(h.Decl.Type)
				}
				d.w(" do ")
				d.stmt(h.Statement)
				d.w(")")
			}
			if len(b.Else) > 0 {
				d.w(" else ")
				d.stmts(b.Else)
			}
		}
		d.w(")")
	case *ast.TryFinallyStmt:
		d.w("(tryfinally ")
		d.stmts(v.Statements1)
		d.w(" ")
		d.stmts(v.Statements2)
		d.w(")")
	case *ast.RaiseStmt:
		d.w("(raise")
		if v.Object != nil {
			d.w(" ")
			d.expr(v.Object)
		}
		if v.Address != nil {
			d.w(" at ")
			d.expr(v.Address)
		}
		d.w(")")
	case *ast.AssemblerStatement:
		d.w("(asm)")
	default:
		d.w("?stmt %T", v)
	}
}

var (
	reOrd = regexp.MustCompile(`#[0-9?][^ \])}^.:=]*`)
	reRef = regexp.MustCompile(`\^\{[^}]*\}`)
)

// structure without locations and references
func stripAll(s string) string  { return reOrd.ReplaceAllString(reRef.ReplaceAllString(s, ""), "") }
func stripRefs(s string) string { return reRef.ReplaceAllString(s, "") }
