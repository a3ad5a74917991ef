package main

// P06: every call returns a result or an error, with bounded work.

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
)

// knownMethods are the public methods of the parser which take nothing (or
// whether the construct is required) and return a result and an error. The list is
// fixed: a helper that a later change adds may rely on its caller.
var knownMethods = []string{
	"ParseArrayType", "ParseAssemblerStatement", "ParseBlock", "ParseCaseLabel", "ParseCaseLabels", "ParseCaseSelector",
	"ParseCaseSelectors", "ParseCaseStmt", "ParseClassField", "ParseClassFieldList", "ParseClassHeritage", "ParseClassMethod",
	"ParseClassMethodList", "ParseClassType", "ParseClassTypeOrClassRefType", "ParseCompoundStmt", "ParseConstExpr", "ParseConstSection",
	"ParseConstSubrageType", "ParseConstantDecl", "ParseConstructorHeading", "ParseCustomPointerType", "ParseDeclSection", "ParseDeclSections",
	"ParseDesignator", "ParseDesignatorStatement", "ParseDestructorHeading", "ParseEnumeratedType", "ParseEnumeratedTypeElement", "ParseExceptionBlock",
	"ParseExceptionBlockHandler", "ParseExceptionBlockHandlers", "ParseExportedHeading", "ParseExportsStmt", "ParseExportsStmts", "ParseExpression",
	"ParseExternalOptions", "ParseFactor", "ParseFileType", "ParseForStmt", "ParseFunctionDirectives", "ParseFunctionHeading",
	"ParseGotoStatement", "ParseIfStmt", "ParseInheritedStmt", "ParseLabelDeclSection", "ParseOrdIdent", "ParseProcedureDeclSection",
	"ParseProcedureType", "ParsePropertyInterface", "ParseQualId", "ParseQualIds", "ParseRaiseStmt", "ParseRealType",
	"ParseRecType", "ParseRecVariant", "ParseRepeatStmt", "ParseSetConstructor", "ParseSetElement", "ParseSetType",
	"ParseSimpleExpression", "ParseStatement", "ParseStringOfStringType", "ParseStringType", "ParseStrucType", "ParseTerm",
	"ParseThreadVarDecl", "ParseThreadVarSection", "ParseTryStmt", "ParseType", "ParseTypeAsOrdinalType", "ParseTypeDecl",
	"ParseTypeForIdentifier", "ParseTypeId", "ParseTypeSection", "ParseUsesClause", "ParseVarDecl", "ParseVarSection",
	"ParseVariantType", "ParseWhileStmt", "ParseWithStmt",
}

// entryMethods are those of them which the parser has, in that form.
func entryMethods() []string {
	t := reflect.TypeOf(&parser.Parser{})
	errT := reflect.TypeOf((*error)(nil)).Elem()
	var out []string
	for _, n := range knownMethods {
		m, ok := t.MethodByName(n)
		if !ok || m.Type.NumOut() < 1 || m.Type.Out(m.Type.NumOut()-1) != errT {
			continue
		}
		if m.Type.NumIn() == 1 || (m.Type.NumIn() == 2 && m.Type.In(1).Kind() == reflect.Bool) {
			out = append(out, m.Name)
		}
	}
	return out
}

func callMethod(name string, text []rune) (node interface{}, err error) {
	return callMethodAt(name, text, "p.dpr")
}

func callMethodAt(name string, text []rune, path string) (node interface{}, err error) {
	p := parser.NewParser(parser.NewProgramContext(pathArg(path)...))
	p.SetText(&text)
	p.NextToken()
	m := reflect.ValueOf(p).MethodByName(name)
	var args []reflect.Value
	if m.Type().NumIn() == 1 {
		args = []reflect.Value{reflect.ValueOf(true)}
	}
	out := m.Call(args)
	if e, ok := out[len(out)-1].Interface().(error); ok {
		err = e
	}
	return out[0].Interface(), err
}

// use does with a result what a user may do: walk it, print it, ask it.
func (x *ctx) use(mode string, text []rune, o outcome) {
	n := 0
	if nd, ok := o.node.(ast.Node); ok {
		if err := astcore.WalkDown(nd, func(ast.Node) error { n++; return nil }); err != nil {
			x.fail("walking gives an error that the visitor did not: %v", err)
		}
	}
	dumpOne("S", sigToks(text), o, true)
	x.count("nodes walked", n)
}

func (x *ctx) total(kind, mode string, text []rune) {
	x.only("mode", mode)
	x.input("text", string(text))
	o := parseMode(mode, text)
	x.res.Feats[kind]++
	switch {
	case o.err != nil:
		x.count("errors", 1)
		if o.err.Error() == "" {
			x.fail("an error without text")
		}
	case o.node == nil:
		x.fail("neither a result nor an error")
	default:
		x.count("results", 1)
		x.use(mode, text, o)
	}
	x.eval(mode+string(text), len(text) > 0)
	if len(text) < 200 {
		x.sample(fmt.Sprintf("%s, %s: %q => %s", kind, mode, string(text), clip(o.String(), 200)))
	}
}

var methodNames = entryMethods()

func init() {
	nf := len(families)
	nb := len(bigFamilies)
	register(&check{id: "P06", quick: nb + nf + 9000, thorough: nb + nf + 400000, limit: 45,
		rule: "hostile texts at all entry points (token soup, noise, generated sources, such with characters or tokens damaged, cut at every token, with any one token replaced), each call trapped for panics, watched for CPU time and memory, its result walked, printed and asked; all other public Parse methods under the same texts (panics only); " + fmt.Sprint(nf) + " families of sources repeating or nesting one construct n and 8n times, of which allocations and CPU time are compared, and " + fmt.Sprint(nb) + " such families without nesting at tens of thousands up to millions of repetitions; non-trivial: not the empty text",
		need: []string{"results", "errors", "nodes walked", "cut at a token", "one token replaced", "soup", "noise", "mutated source", "generated source", "families measured", "families measured at large sizes", "calls of other methods"},
		run: func(x *ctx) {
			if x.k < nb {
				x.measureBig(bigFamilies[x.k])
				return
			}
			if x.k < nb+nf {
				x.measure(families[x.k-nb])
				return
			}
			switch x.k % 6 {
			case 0: // cut at every token
				mode, text, _, rd := validText(x.r, 30)
				x.feat("cut at a token")
				for i, t := range rd.toks {
					if i > 60 {
						break
					}
					x.total("cut at a token", mode, text[:t.idx])
				}
			case 1: // one token replaced, inserted or deleted
				mode, toks, m := x.anyToks()
				if m == nil {
					m = makeMem(x.r.Int63(), caseCfg{mode: mode, size: 20, depth: 3})
					toks = m.f.toks
				}
				for i := 0; i < 15; i++ {
					t, _ := mutToks(x.r, toks, m.f.toks)
					rd := render(t, x.r, randStyle(x.r))
					x.total("one token replaced", mode, rd.text)
				}
			case 2: // other public methods
				_, _, text := rawText(x.r, 25)
				for i := 0; i < 20; i++ {
					name := methodNames[x.r.Intn(len(methodNames))]
					x.only("method", name)
					x.input("text", string(text))
					callMethod(name, append([]rune{}, text...))
					x.count("calls of other methods", 1)
					x.eval(name+string(text), len(text) > 0)
				}
			case 3: // classes and types which name each other
				x.total("tangled types", "typesec", []rune(tangled(x)))
			default:
				for i := 0; i < 6; i++ {
					kind, mode, text := rawText(x.r, 40)
					x.total(kind, mode, text)
				}
			}
		}})
}

// tangled draws a type section whose names refer to each other in any way, also to themselves.
func tangled(x *ctx) string {
	var b strings.Builder
	names := []string{"A", "B", "C", "D"}
	b.WriteString("type ")
	pick := func() string { return names[x.r.Intn(len(names))] }
	perm := x.r.Perm(len(names))
	for _, i := range perm {
		n := names[i]
		if x.r.Intn(4) == 0 {
			b.WriteString(n + " = class; ")
		}
		switch x.r.Intn(9) {
		case 0, 1, 2:
			b.WriteString(n + " = class(" + pick() + ") " + []string{"private ", "public ", "protected ", ""}[x.r.Intn(4)] + "x: " + pick() + "; public property p: " + pick() + " read x write x; property q" + []string{"", ": Integer read y"}[x.r.Intn(2)] + "; end; ")
		case 3:
			b.WriteString(n + " = class of " + pick() + "; ")
		case 4:
			b.WriteString(n + " = " + pick() + "; ")
		case 5:
			b.WriteString(n + " = type " + pick() + "; ")
		case 6:
			b.WriteString(n + " = ^" + pick() + "; ")
		case 7:
			b.WriteString(n + " = array[" + []string{"0..1", pick(), "Byte"}[x.r.Intn(3)] + "] of " + pick() + "; ")
		case 8:
			b.WriteString(n + " = record a: " + pick() + "; case " + []string{"t: ", ""}[x.r.Intn(2)] + []string{pick(), "Byte"}[x.r.Intn(2)] + " of 1: (b: " + pick() + ") end; ")
		}
	}
	if x.r.Intn(2) == 0 {
		b.WriteString("Z = set of " + pick() + "; ")
	}
	b.WriteString("begin")
	return b.String()
}

// measure compares the work on a source with that on one 8 times as large.
// Each level of nesting may cost work in proportion to the levels around it
// (looking up a name passes them), so that 64 times is the bound there.
func (x *ctx) measure(f family) {
	run := func(n int) (mallocs, bytes, cpu int64) {
		text := []rune(f.text(n))
		x.only("family", fmt.Sprintf("%s, n = %d", f.name, n))
		x.input("mode", f.mode)
		x.input("text", clip(string(text), 4000))
		var a, b runtime.MemStats
		runtime.GC()
		runtime.ReadMemStats(&a)
		c := cpuMillis()
		o := parseMode(f.mode, text)
		cpu = cpuMillis() - c
		runtime.ReadMemStats(&b)
		if o.err == nil && o.node == nil {
			x.fail("neither a result nor an error")
		}
		x.eval(fmt.Sprint(f.name, n), true)
		x.maxOf("largest source (characters)", len(text))
		return int64(b.Mallocs - a.Mallocs), int64(b.TotalAlloc - a.TotalAlloc), cpu
	}
	limit := int64(20)
	if f.scoped {
		limit = 120
	}
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	run(2)
	x.growth(f, limit, run, 4, 32)
	x.growth(f, limit, run, f.max/16, f.max/2)
	x.growth(f, limit, run, f.max/8, f.max)
	x.count("families measured", 1)
	x.feat("family " + f.name)
}

func (x *ctx) growth(f family, limit int64, run func(int) (int64, int64, int64), n1, n2 int) {
	if n1 < 1 {
		n1 = 1
	}
	m1, b1, c1 := run(n1)
	m2, b2, c2 := run(n2)
	if m2 > limit*m1+5000 || b2 > limit*b1+1<<20 {
		x.fail("%s: %d times the text takes %d allocations (%d bytes) instead of %d (%d bytes)", f.name, n2/n1, m2, b2, m1, b1)
	}
	if c2 > 4000 && c2 > 12*limit*(c1+20) {
		x.fail("%s: %d times the text takes %d ms of CPU time instead of %d ms", f.name, n2/n1, c2, c1)
	}
}

// measureBig compares the CPU time on a source of very many repetitions with that on an eighth of it.
func (x *ctx) measureBig(f family) {
	run := func(n int) int64 {
		text := []rune(f.text(n))
		x.only("family", fmt.Sprintf("%s, n = %d", f.name, n))
		x.input("mode", f.mode)
		x.input("text", clip(string(text[:min(int64(len(text)), 4000)]), 4000))
		runtime.GC()
		c := cpuMillis()
		o := parseMode(f.mode, text)
		c = cpuMillis() - c
		if o.err == nil && o.node == nil {
			x.fail("neither a result nor an error")
		}
		x.eval(fmt.Sprint(f.name, n), true)
		x.maxOf("largest source (characters)", len(text))
		return c
	}
	over := func(c1, c2 int64) bool { return c2 > 3000 && c2 > 18*(c1+30) }
	c1, c2 := run(f.max/8), run(f.max)
	if over(c1, c2) { // once more, in case that the machine was busy
		c1, c2 = max(c1, run(f.max/8)), min(c2, run(f.max))
		if over(c1, c2) {
			x.fail("%s: 8 times the text takes %d ms of CPU time instead of %d ms", f.name, c2, c1)
		}
	}
	x.count("families measured at large sizes", 1)
	x.feat("large " + f.name)
}

func min(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func max(a, b int64) int64 {
	if a < b {
		return b
	}
	return a
}
