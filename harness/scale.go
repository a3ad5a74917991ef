package main

// Families of sources which repeat one construct n times, for the measurement of work.

import (
	"fmt"
	"strings"
)

type family struct {
	name string
	mode string
	max  int // largest n (nesting is limited)
	text func(n int) string
	// each level opens a scope, which lookups pass
	scoped bool
}

func rep(s string, n int) string { return strings.Repeat(s, n) }

func numbered(n int, f string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(strings.ReplaceAll(f, "$", fmt.Sprint(i)))
	}
	return b.String()
}

var families = []family{
	// nesting
	{"parentheses", "expr", 2000, func(n int) string { return rep("(", n) + "a" + rep(")", n) }, false},
	{"not", "expr", 2000, func(n int) string { return rep("not ", n) + "a" }, false},
	{"nested calls", "expr", 2000, func(n int) string { return rep("f(", n) + "a" + rep(")", n) }, false},
	{"nested casts", "expr", 2000, func(n int) string { return rep("Integer(", n) + "a" + rep(")", n) }, false},
	{"nested sets", "expr", 2000, func(n int) string { return rep("[", n) + "a" + rep("]", n) }, false},
	{"nested indexes", "expr", 2000, func(n int) string { return rep("a[", n) + "1" + rep("]", n) }, false},
	{"nested set ranges", "expr", 1000, func(n int) string { return rep("[a..", n) + "1" + rep("]", n) }, false},
	{"begin", "stmt", 2000, func(n int) string { return rep("begin ", n) + rep(" end", n) }, false},
	{"if", "stmt", 2000, func(n int) string { return rep("if a then ", n) + "b" }, false},
	{"if else", "stmt", 2000, func(n int) string { return rep("if a then b else ", n) + "b" }, false},
	{"if in if with else", "stmt", 1000, func(n int) string { return rep("if a then ", n) + "b" + rep(" else c", n) }, false},
	{"case", "stmt", 1000, func(n int) string { return rep("case a of 1: ", n) + "b" + rep(" end", n) }, false},
	{"case else", "stmt", 1000, func(n int) string { return rep("case a of 1: c else ", n) + "b" + rep(" end", n) }, false},
	{"repeat", "stmt", 1000, func(n int) string { return rep("repeat ", n) + "b" + rep(" until a", n) }, false},
	{"while", "stmt", 2000, func(n int) string { return rep("while a do ", n) + "b" }, false},
	{"for", "stmt", 2000, func(n int) string { return rep("for i := 1 to 2 do ", n) + "b" }, false},
	{"with", "stmt", 2000, func(n int) string { return rep("with a do ", n) + "b" }, false},
	{"try finally", "stmt", 1000, func(n int) string { return rep("try ", n) + "b" + rep(" finally c end", n) }, false},
	{"try in finally", "stmt", 1000, func(n int) string { return rep("try b finally ", n) + "b" + rep(" end", n) }, false},
	{"handlers", "stmt", 600, func(n int) string { return rep("try b except on e: TFoo do ", n) + "b" + rep(" end", n) }, true},
	{"handlers without variable", "stmt", 600, func(n int) string { return rep("try b except on TFoo do ", n) + "b" + rep(" end", n) }, true},
	{"pointers", "type", 2000, func(n int) string { return rep("array of ", n) + "Integer;" }, false},
	{"array indexes", "type", 1000, func(n int) string { return rep("array[0..1] of ", n) + "Integer;" }, false},
	{"arrays by type", "type", 1000, func(n int) string { return rep("array[Byte] of ", n) + "Integer;" }, false},
	{"records", "type", 1000, func(n int) string { return rep("record a: ", n) + "Integer" + rep(" end", n) + ";" }, false},
	{"variants", "type", 600, func(n int) string {
		return rep("record case Integer of 1: (a: ", n) + "Integer" + rep(") end", n) + ";"
	}, false},
	{"variants in variants", "type", 600, func(n int) string {
		return "record " + rep("case Integer of 1: (", n) + "x: Integer" + rep(")", n) + " end;"
	}, false},
	{"procedural types", "type", 1000, func(n int) string { return "procedure(x: Integer" + numbered(n, "; p$: Integer") + ");" }, false},
	{"procedural types in parameters", "type", 500, func(n int) string { return rep("procedure(a: ", n) + "Integer" + rep(")", n) + ";" }, true},
	{"function types in later parameters", "type", 500, func(n int) string {
		return rep("function(var x; a: ", n) + "Integer" + rep("; b: Byte): Word", n) + ";"
	}, true},
	{"procedural types of objects", "type", 500, func(n int) string {
		return rep("procedure(const a: array of ", n) + "Integer" + rep(") of object", n) + ";"
	}, true},
	{"records of procedural types", "type", 400, func(n int) string {
		return rep("record a: procedure(b: ", n) + "Integer" + rep(") end", n) + ";"
	}, true},
	{"classes in fields", "type", 400, func(n int) string { return rep("class a: ", n) + "Integer" + rep("; end", n) + ";" }, false},
	{"methods in fields", "type", 400, func(n int) string { return rep("class procedure m(a: ", n) + "Integer" + rep("); end", n) + ";" }, true},
	{"packed arrays", "type", 1000, func(n int) string { return rep("packed array[1..2] of ", n) + "Integer;" }, false},
	{"enumerations in indexes", "type", 500, func(n int) string { return numbered(n, "array[(v$, w$)] of ") + "Integer;" }, false},
	{"arrays in sets of records", "type", 500, func(n int) string { return rep("array of record a: ", n) + "set of Byte" + rep("; end", n) + ";" }, false},
	{"parameter headings", "heading", 500, func(n int) string {
		return "procedure p(x: " + rep("procedure(a: ", n) + "Integer" + rep(")", n) + ");"
	}, true},
	{"default values", "heading", 1000, func(n int) string { return "procedure p(x: Integer = " + rep("(", n) + "1" + rep(")", n) + ");" }, false},
	{"subranges", "type", 1000, func(n int) string { return "1.." + rep("f(", n) + "2" + rep(")", n) + ";" }, false},
	{"subranges of names", "type", 1000, func(n int) string { return "a.." + rep("f(", n) + "2" + rep(")", n) + ";" }, false},
	{"string lengths", "type", 1000, func(n int) string { return "string[" + rep("(", n) + "2" + rep(")", n) + "];" }, false},
	{"enumeration values", "type", 1000, func(n int) string { return "(a = " + rep("f(", n) + "2" + rep(")", n) + ");" }, false},
	{"casts in indexes", "expr", 1000, func(n int) string { return rep("a[Integer(", n) + "1" + rep(")]", n) }, false},
	{"casts in arguments", "expr", 1000, func(n int) string { return rep("f(1, Byte(", n) + "1" + rep("), 2)", n) }, false},
	{"sets in parentheses", "expr", 1000, func(n int) string { return rep("([a, ", n) + "1" + rep("])", n) }, false},
	{"nested assignments' indexes", "stmt", 1000, func(n int) string { return rep("a[", n) + "1" + rep("]", n) + " := 1" }, false},
	{"arguments of a call statement", "stmt", 1000, func(n int) string { return rep("f(a, ", n) + "1" + rep(")", n) }, false},
	{"labels in front", "block", 400, func(n int) string {
		return numbered(n, "label l$; ") + "begin " + numbered(n, "l$: begin ") + rep("end ", n) + "end;"
	}, false},
	{"raise in handlers", "stmt", 500, func(n int) string { return rep("try raise a at b except ", n) + "c" + rep(" end", n) }, false},
	{"mixed statements", "stmt", 400, func(n int) string {
		return rep("if a then repeat case b of 1: while c do try ", n) + "d" + rep(" finally end; end until e else f", n)
	}, false},
	{"array properties", "typesec", 300, func(n int) string {
		return "type t = class f: Integer; property p[a: " + rep("procedure(b: ", n) + "Integer" + rep(")", n) + "]: Integer read f; end;"
	}, true},
	{"property values", "typesec", 1000, func(n int) string {
		return "type t = class f: Integer; property p: Integer index " + rep("(", n) + "1" + rep(")", n) + " read f default " + rep("(", n) + "1" + rep(")", n) + "; end;"
	}, false},
	{"exports values", "block", 1000, func(n int) string { return "exports p index " + rep("(", n) + "1" + rep(")", n) + "; begin end;" }, false},
	{"long constant", "constsec", 1000, func(n int) string { return "const a = " + rep("1 + ", n) + "1;" }, false},
	{"array constants", "constsec", 1000, func(n int) string { return "const a: T = " + rep("(", n) + "1" + rep(")", n) + ";" }, false},
	{"nested routines", "block", 300, func(n int) string { return numbered(n, "procedure p$; ") + rep("begin end; ", n) + "begin end;" }, true},
	// repetition
	{"sum", "expr", 8000, func(n int) string { return "a" + rep(" + b", n) }, false},
	{"product", "expr", 8000, func(n int) string { return "a" + rep(" * b", n) }, false},
	{"comparison", "expr", 8000, func(n int) string { return "a" + rep(" = b", n) }, false},
	{"arguments", "expr", 8000, func(n int) string { return "f(a" + rep(", b", n) + ")" }, false},
	{"set elements", "expr", 8000, func(n int) string { return "[a" + rep(", b..c", n) + "]" }, false},
	{"members", "expr", 8000, func(n int) string { return "a" + rep(".b", n) }, false},
	{"dereferences", "expr", 8000, func(n int) string { return "a" + rep("^", n) }, false},
	{"statements", "block", 8000, func(n int) string { return "begin " + rep("a := b; ", n) + "end;" }, false},
	{"empty statements", "block", 8000, func(n int) string { return "begin " + rep(";", n) + "end;" }, false},
	{"calls", "block", 8000, func(n int) string { return "begin " + rep("a(1); ", n) + "end;" }, false},
	{"if statements", "block", 8000, func(n int) string { return "begin " + rep("if a then b else c; ", n) + "end;" }, false},
	{"selectors", "stmt", 4000, func(n int) string { return "case a of " + rep("1, 2..3: b; ", n) + "end" }, false},
	{"labels of a selector", "stmt", 4000, func(n int) string { return "case a of 1" + rep(", 2", n) + ": b; end" }, false},
	{"handlers in a row", "stmt", 4000, func(n int) string { return "try b except " + rep("on e: T do b; ", n) + "end" }, false},
	{"with objects", "stmt", 4000, func(n int) string { return "with a" + rep(", b", n) + " do c" }, false},
	{"asm", "stmt", 4000, func(n int) string { return "asm " + rep("mov a, b ", n) + "end" }, false},
	{"comments", "expr", 8000, func(n int) string { return "a" + rep(" {x} (*y*) // z\n", n) + " + b" }, false},
	{"long comment", "expr", 50000, func(n int) string { return "a {" + rep("x\n", n) + "} + b" }, false},
	{"long string", "expr", 50000, func(n int) string { return "a + '" + rep("x", n) + "'" }, false},
	{"long name", "expr", 50000, func(n int) string { return "a + " + rep("x", n) }, false},
	{"long number", "expr", 50000, func(n int) string { return "a + " + rep("1", n) }, false},
	{"blanks", "expr", 50000, func(n int) string { return "a " + rep(" \n", n) + " + b" }, false},
	{"variables", "varsec", 4000, func(n int) string { return "var " + numbered(n, "v$: Integer; ") }, false},
	{"names of a variable", "varsec", 4000, func(n int) string { return "var x" + numbered(n, ", v$") + ": Integer; " }, false},
	{"thread variables", "threadvarsec", 4000, func(n int) string { return "threadvar " + numbered(n, "v$: Integer; ") }, false},
	{"constants", "constsec", 4000, func(n int) string { return "const " + numbered(n, "c$ = $; ") }, false},
	{"typed constants", "constsec", 4000, func(n int) string { return "const " + numbered(n, "c$: Integer = $; ") }, false},
	{"aliases", "typesec", 3000, func(n int) string { return "type " + numbered(n, "t$ = Integer; ") }, false},
	{"pointer types", "typesec", 3000, func(n int) string { return "type " + numbered(n, "t$ = ^u$; ") }, false},
	{"record types", "typesec", 2000, func(n int) string { return "type " + numbered(n, "t$ = record a, b: Integer end; ") }, false},
	{"classes", "typesec", 2000, func(n int) string {
		return "type " + numbered(n, "t$ = class f: Integer; procedure p; property q: Integer read f; end; ")
	}, false},
	{"forward classes", "typesec", 1000, func(n int) string { return "type " + numbered(n, "t$ = class; ") + numbered(n, "t$ = class end; ") }, false},
	{"fields", "type", 4000, func(n int) string { return "record " + numbered(n, "f$: Integer; ") + "end;" }, false},
	{"methods", "typesec", 4000, func(n int) string { return "type t = class " + numbered(n, "procedure f$(a: Integer); ") + "end;" }, false},
	{"properties", "typesec", 1000, func(n int) string {
		return "type t = class f: Integer; public " + numbered(n, "property p$: Integer read f; ") + "end;"
	}, false},
	{"sections of a class", "typesec", 2000, func(n int) string {
		return "type t = class " + numbered(n, "private a$: Integer; public b$: Integer; ") + "end;"
	}, false},
	{"enumeration", "type", 4000, func(n int) string { return "(x" + numbered(n, ", v$") + ");" }, false},
	{"dimensions", "type", 4000, func(n int) string { return "array[Byte" + rep(", 0..1", n) + "] of Integer;" }, false},
	{"variants in a row", "type", 2000, func(n int) string { return "record case Integer of " + numbered(n, "$: (f$: Integer); ") + "end;" }, false},
	{"parameters", "heading", 4000, func(n int) string { return "procedure p(x: Integer" + numbered(n, "; var v$: Integer") + ");" }, false},
	{"names of a parameter", "heading", 4000, func(n int) string { return "procedure p(x" + numbered(n, ", v$") + ": Integer);" }, false},
	{"routines", "block", 2000, func(n int) string {
		return numbered(n, "procedure p$(a: Integer); var b: Integer; begin b := a end; ") + "begin end;"
	}, false},
	{"forward routines", "block", 2000, func(n int) string { return numbered(n, "procedure p$; forward; ") + "begin end;" }, false},
	{"sections", "block", 2000, func(n int) string { return numbered(n, "const c$ = 1; type t$ = Integer; var v$: t$; ") + "begin end;" }, false},
	{"labels", "block", 2000, func(n int) string {
		return numbered(n, "label l$; ") + "begin " + numbered(n, "l$: a; goto l$; ") + "end;"
	}, false},
	{"exports", "block", 2000, func(n int) string { return "exports p" + numbered(n, ", p$") + "; begin end;" }, false},
	{"uses", "program", 2000, func(n int) string { return "program p; uses x" + numbered(n, ", u$") + "; begin end." }, false},
	{"uses of a unit", "unit", 2000, func(n int) string { return "unit p; interface uses x" + numbered(n, ", u$") + "; implementation end." }, false},
	{"interface routines", "unit", 2000, func(n int) string {
		return "unit p; interface " + numbered(n, "procedure p$; ") + "implementation " + numbered(n, "procedure p$; begin end; ") + " end."
	}, false},
	{"initialization", "unit", 4000, func(n int) string {
		return "unit p; interface implementation initialization " + rep("a; ", n) + "finalization " + rep("b; ", n) + "end."
	}, false},
	// failing at the end
	{"open parentheses", "expr", 2000, func(n int) string { return rep("(", n) }, false},
	{"open calls", "expr", 2000, func(n int) string { return rep("f(", n) + "a" }, false},
	{"open begins", "stmt", 2000, func(n int) string { return rep("begin ", n) }, false},
	{"open records", "type", 1000, func(n int) string { return rep("record a: ", n) }, false},
	{"open handlers", "stmt", 600, func(n int) string { return rep("try b except on e: T do ", n) }, true},
	{"unterminated comment", "expr", 50000, func(n int) string { return "a {" + rep("x ", n) }, false},
	{"unterminated string", "expr", 50000, func(n int) string { return "a '" + rep("x ", n) }, false},
	{"illegal runes", "expr", 8000, func(n int) string { return "a + b " + rep("? ", n) }, false},
	{"quotes", "expr", 8000, func(n int) string { return "a + " + rep("'' ", n) }, false},
}

// bigFamilies are those which repeat without nesting: they are measured at sizes at which
// looking through all that was read before would dominate.
var bigFamilies = func() []family {
	var r []family
	on := false
	for _, f := range families {
		on = on || f.name == "sum"
		if on && !f.scoped && !strings.HasPrefix(f.name, "open ") {
			f.max = 64000
			r = append(r, f)
		}
	}
	return append(r,
		family{"blanks and comments in turn", "expr", 10000000, func(n int) string { return "a" + rep(" {}", n) + "+ b" }, false},
		family{"line comments", "stmt", 3000000, func(n int) string { return "a := b " + rep("//\n\t", n) + "+ b" }, false},
		family{"comments of the other kind", "program", 3000000, func(n int) string { return "program p;" + rep("(**)\n", n) + "begin end." }, false},
		family{"variables and their uses", "block", 40000, func(n int) string {
			return "var " + numbered(n, "v$: Integer; ") + "begin " + numbered(n, "v$ := V$ + 1; ") + "end;"
		}, false},
		family{"types and their uses", "block", 40000, func(n int) string {
			return "type " + numbered(n, "t$ = 1..2; ") + "var " + numbered(n, "v$: t$; ") + "begin end;"
		}, false},
		family{"routines and calls", "block", 20000, func(n int) string {
			return numbered(n, "procedure p$; begin end; ") + "begin " + numbered(n, "P$; ") + "end;"
		}, false},
		family{"fields and their uses", "block", 40000, func(n int) string {
			return "var r: record " + numbered(n, "f$: Integer; ") + "end; begin " + numbered(n, "r.f$ := 1; ") + "end;"
		}, false},
		family{"enumeration elements and their uses", "block", 40000, func(n int) string {
			return "type e = (x" + numbered(n, ", v$") + "); const " + numbered(n, "c$ = v$; ") + "begin end;"
		}, false},
		family{"forward classes and references", "typesec", 20000, func(n int) string {
			return "type " + numbered(n, "t$ = class; ") + numbered(n, "p$ = class of t$; ") + numbered(n, "t$ = class end; ")
		}, false},
		family{"classes of ancestors", "typesec", 20000, func(n int) string {
			return "type a = class x: Integer; end; " + numbered(n, "t$ = class(a) property x; end; ")
		}, false},
	)
}()
