package main

// P19: one name, one declaration per scope.

import (
	"fmt"
	"strings"
)

type declKind struct {
	name string
	text string // N the name, # a number that makes other names unique
	cls  string // what may share its name: "r" routines, "f" forward class, "c" class
	only string // scopes in which it may stand: "" any, "b" not in an interface
}

var declKinds = []declKind{
	{"constant", "const N = 1;", "", ""},
	{"second constant of a section", "const k# = 2; N = 1;", "", ""},
	{"typed constant", "const N: Integer = 1;", "", ""},
	{"constant array", "const N: array[0..1] of Integer = 1;", "", ""},
	{"variable", "var N: Integer;", "", ""},
	{"first variable of a list", "var N, a#: Integer;", "", ""},
	{"last variable of a list", "var a#, b#, N: Integer;", "", ""},
	{"second variable of a section", "var a#: Word; N: string;", "", ""},
	{"variable with value", "var N: Integer = 3;", "", ""},
	{"absolute variable", "var N: Integer absolute q#;", "", ""},
	{"thread variable", "threadvar N: Integer;", "", ""},
	{"alias", "type N = Integer;", "", ""},
	{"second type of a section", "type t# = Word; N = type Byte;", "", ""},
	{"subrange type", "type N = 1..3;", "", ""},
	{"record type", "type N = record a: Integer; end;", "", ""},
	{"pointer type", "type N = ^Integer;", "", ""},
	{"procedural type", "type N = procedure(a: Integer);", "", ""},
	{"class type", "type N = class x: Integer; end;", "c", ""},
	{"class without body", "type N = class(TObject);", "c", ""},
	{"class reference", "type N = class of TObject;", "", ""},
	{"forward class", "type N = class;", "f", ""},
	{"enumerated type", "type N = (e#, f#);", "", ""},
	{"element of an enumerated type", "type en# = (z#, N);", "", ""},
	{"only element of an enumerated type", "type en# = (N);", "", ""},
	{"element with value", "type en# = (z#, N = 5, y#);", "", ""},
	{"element in a variable's type", "var q#: (z#, N);", "", ""},
	{"element in a set type", "type st# = set of (N, z#);", "", ""},
	{"element in a record field", "type rc# = record fld: (z#, N); end;", "", ""},
	{"element in an index type", "var ar#: array[(z#, N)] of Byte;", "", ""},
	{"element in a typed constant", "const q#: (z#, N) = 1;", "", ""},
	{"element in a thread variable", "threadvar q#: (N, z#);", "", ""},
	{"element in a class field", "type cl# = class fld: (z#, N); end;", "", ""},
	{"element in a variant part", "type rc# = record case Integer of 1: (fld: (z#, N)); end;", "", ""},
	{"element in a nested record", "type rc# = record a: record b: array of set of (z#, N); end; end;", "", ""},
	{"element in an alias of its own", "type en# = type (z#, N);", "", ""},
	{"procedure", "procedure N; begin end;", "r", ""},
	{"procedure with parameters", "procedure N(a: Integer; var b, c: string); begin end;", "r", ""},
	{"function", "function N: Integer; begin end;", "r", ""},
	{"forward procedure", "procedure N; forward;", "r", "b"},
	{"overloaded procedure", "procedure N(a: Integer); overload; begin end;", "r", ""},
	{"external procedure", "procedure N; external 'x.dll';", "r", "b"},
	{"label", "label N;", "", "b"},
}

var dupScopes = []string{"program", "routine", "nested routine", "interface", "implementation", "unit file interface", "unit file implementation", "program with units"}

func (k declKind) fill(n int, name string, heading bool) string {
	t := strings.ReplaceAll(k.text, "#", fmt.Sprintf("_%d", n))
	if heading {
		t = strings.ReplaceAll(t, " begin end;", "")
	}
	return strings.ReplaceAll(t, "N", name) + "\n"
}

// fillers are declarations between the two, of other names.
func (x *ctx) fillers(n int, heading bool) string {
	s := ""
	c := x.r.Intn(4)
	if x.r.Intn(150) == 0 {
		c = []int{60, 130, 270, 1030}[x.r.Intn(4)]
		x.feat("many other declarations")
	}
	for i := 0; i < c; i++ {
		k := declKinds[x.r.Intn(len(declKinds))]
		if heading && k.only == "b" || k.cls == "f" {
			continue
		}
		s += k.fill(n*10000+i, fmt.Sprintf("other%d_%d", n, i), heading)
	}
	return s
}

func init() {
	np := len(declKinds) * len(declKinds) * len(dupScopes)
	register(&check{id: "P19", quick: np + 6000, thorough: np*6 + 60000,
		rule: fmt.Sprintf("all ordered pairs of %d kinds of declarations of one name in each of %d kinds of scopes (in different letter case, with other declarations around and between), and random cases of parameters, enumerations, uses clauses, and of one name in different scopes: accepted or rejected as the rule says, an error has to name the name; non-trivial: every case", len(declKinds), len(dupScopes)),
		need: []string{"pairs rejected", "pairs accepted", "scopes: accepted", "lists: rejected", "one of the pair alone accepted", "many other declarations"},
		run: func(x *ctx) {
			if k := x.k % (np + 6000); k < np {
				i := k % len(declKinds)
				j := k / len(declKinds) % len(declKinds)
				x.pairCase(declKinds[i], declKinds[j], dupScopes[k/len(declKinds)/len(declKinds)])
				return
			}
			if x.r.Intn(2) == 0 {
				x.dupLists()
			} else {
				x.dupScopesCase()
			}
		}})
}

var dupNames = []string{"Foo", "data", "Index", "値", "x", "Some_Long_Name1", "Message", "TFoo", "Byte"}

// wrapScope puts declarations into a scope and parses; "" = accepted.
func (x *ctx) wrapScope(scope, decls string) string {
	before := x.fillers(3, strings.HasSuffix(scope, "interface"))
	x.inputs = map[string]string{}
	in := func(mode, text string) string {
		x.only("mode", mode)
		x.input("text", text)
		o := parseMode(mode, []rune(text))
		if o.err != nil {
			return o.err.Error()
		}
		return ""
	}
	file := func(unit, prog string) string {
		_, done := x.scratch()
		defer done()
		b, _ := sjisOf([]rune(unit))
		put("un.pas", b)
		b, _ = sjisOf([]rune(prog))
		put("main.dpr", b)
		x.only("un.pas", unit)
		x.input("main.dpr", prog)
		if _, err := x.parseFile("main.dpr"); err != nil {
			return err.Error()
		}
		return ""
	}
	switch scope {
	case "program":
		return in("program", "program P9;\n"+before+decls+"begin\nend.\n")
	case "routine":
		return in("program", "program P9;\nprocedure R9(p9: Integer);\n"+before+decls+"begin\nend;\nbegin\nend.\n")
	case "nested routine":
		return in("program", "program P9;\n"+before+"function R9: Integer;\nprocedure R8;\n"+decls+"begin\nend;\nbegin\nend;\nbegin\nend.\n")
	case "interface":
		return in("unit", "unit U9;\ninterface\n"+before+decls+"implementation\nend.\n")
	case "implementation":
		return in("unit", "unit U9;\ninterface\nimplementation\n"+before+decls+"end.\n")
	case "unit file interface":
		return file("unit Un;\ninterface\n"+before+decls+"implementation\nend.\n", "program Main9;\nuses Un in 'un.pas';\nbegin\nend.\n")
	case "unit file implementation":
		return file("unit Un;\ninterface\nimplementation\n"+before+decls+"end.\n", "program Main9;\nuses Un in 'un.pas';\nbegin\nend.\n")
	case "program with units":
		return file("unit Un;\ninterface\nvar uv9: Integer;\nimplementation\nend.\n", "program Main9;\nuses Un in 'un.pas';\n"+before+decls+"begin\nend.\n")
	}
	panic(scope)
}

func (x *ctx) pairCase(a, b declKind, scope string) {
	heading := strings.HasSuffix(scope, "interface")
	if heading && (a.only == "b" || b.only == "b") {
		x.count("pairs that cannot stand there", 1)
		return
	}
	name := dupNames[x.r.Intn(len(dupNames))]
	n1, n2 := recase(name, x.r.Intn(5), x.r), recase(name, x.r.Intn(5), x.r)
	t1, t2 := a.fill(1, n1, heading), b.fill(2, n2, heading)
	mid := x.fillers(4, heading)
	ok := a.cls == "r" && b.cls == "r" || a.cls == "f" && b.cls == "c"
	if a.cls == "f" && b.cls == "c" {
		// the forward class and its class may stand in one section or in two of the same block
		if x.r.Intn(2) == 0 {
			mid, t2 = "", strings.TrimPrefix(t2, "type ")
		}
	}
	err := x.wrapScope(scope, t1+mid+t2)
	x.eval(scope+t1+mid+t2, true)
	what := fmt.Sprintf("%s and %s named %s, %s in one %s", a.name, b.name, n1, n2, scope)
	if ok {
		if err != "" {
			x.fail("%s: rejected: %s", what, err)
		}
		x.count("pairs accepted", 1)
		return
	}
	if err == "" {
		x.fail("%s: accepted", what)
	}
	if !strings.Contains(strings.ToLower(err), strings.ToLower(name)) {
		x.fail("%s: the error does not name it: %s", what, err)
	}
	x.count("pairs rejected", 1)
	x.feat("scope " + scope)
	if x.k%500 == 0 {
		x.sample(t1 + mid + t2 + "=> " + err)
	}
	// the same with two names is accepted
	err = x.wrapScope(scope, t1+mid+b.fill(2, "unlike_it", heading))
	if a.cls == "f" {
		return // stays without its class
	}
	if err != "" {
		x.fail("%s and %s of two names in one %s are rejected: %s", a.name, b.name, scope, err)
	}
	x.count("one of the pair alone accepted", 1)
}

// dupLists: names twice in one list or parameter list.
func (x *ctx) dupLists() {
	name := dupNames[x.r.Intn(len(dupNames))]
	n := func() string { return recase(name, x.r.Intn(5), x.r) }
	pl := func() string { // a parameter list with the name twice
		mode := func() string { return []string{"", "var ", "const ", "out "}[x.r.Intn(4)] }
		typ := []string{"Integer", "string", "array of Byte", "TFoo9"}
		groups := []string{}
		mk := func(s string) string { return mode() + s + ": " + typ[x.r.Intn(4)] }
		switch x.r.Intn(3) {
		case 0:
			groups = []string{mk(n() + ", " + n())}
		case 1:
			groups = []string{mk(n()), mk(n())}
		case 2:
			groups = []string{mk("a1, " + n() + ", b1"), mk("c1"), mk("d1, " + n())}
		}
		if x.r.Intn(2) == 0 {
			groups = append([]string{mk("e1, e2")}, groups...)
		}
		if x.r.Intn(2) == 0 {
			groups = append(groups, mk("g1"))
		}
		return strings.Join(groups, "; ")
	}
	text, what := "", ""
	switch x.r.Intn(11) {
	case 0:
		what, text = "parameters of a procedure", "procedure R9("+pl()+"); begin end;"
	case 1:
		what, text = "parameters of a function", "function R9("+pl()+"): Integer; begin end;"
	case 2:
		what, text = "parameters of a procedural type", "type T9 = procedure("+pl()+");"
	case 3:
		what, text = "parameters of a method", "type T9 = class x: Integer; procedure M9("+pl()+"); end;"
	case 4:
		what, text = "parameters of a constructor", "type T9 = class constructor M9("+pl()+"); end;"
	case 5:
		what, text = "parameters of an array property", "type T9 = class f: Integer; property Q9["+pl()+"]: Integer read f; end;"
	case 6:
		what, text = "elements of an enumerated type", "type T9 = (a1, "+n()+", b1, "+n()+");"
	case 7:
		what, text = "variables of a list", "var a1, "+n()+", "+n()+", b1: Integer;"
	case 8:
		what = "parameter and local declaration"
		k := declKinds[x.r.Intn(len(declKinds))]
		if k.cls == "f" {
			return
		}
		text = "procedure R9(a1: Integer; " + n() + ", b1: string);\n" + x.fillers(1, false) + k.fill(2, n(), false) + "begin end;"
	case 9:
		what, text = "elements of two enumerated types", "type T9 = (a1, "+n()+"); T8 = ("+n()+", b1);"
	case 10:
		what, text = "uses clause", ""
		p := "program P9;\nuses Aa, " + n() + ", Bb, " + n() + ";\nbegin\nend.\n"
		x.only("mode", "program")
		x.input("text", p)
		o := parseMode("program", []rune(p))
		x.eval(p, true)
		if o.err == nil {
			x.fail("a unit named twice in a uses clause is accepted")
		}
		if !strings.Contains(strings.ToLower(o.err.Error()), strings.ToLower(name)) {
			x.fail("a unit named twice in a uses clause: the error does not name it: %v", o.err)
		}
		x.feat("lists: rejected")
		return
	}
	scope := []string{"program", "routine", "nested routine", "implementation", "unit file implementation"}[x.r.Intn(5)]
	err := x.wrapScope(scope, text+"\n")
	x.eval(text, true)
	if err == "" {
		x.fail("%s: a name twice is accepted", what)
	}
	if !strings.Contains(strings.ToLower(err), strings.ToLower(name)) {
		x.fail("%s: the error does not name it: %s", what, err)
	}
	x.feat("lists: rejected")
	x.feat(what)
}

// dupScopesCase: the same name in different scopes is accepted.
func (x *ctx) dupScopesCase() {
	name := dupNames[x.r.Intn(len(dupNames))]
	n := func() string { return recase(name, x.r.Intn(5), x.r) }
	any := func(i int) string {
		for {
			k := declKinds[x.r.Intn(len(declKinds))]
			if k.cls != "f" {
				return k.fill(i, n(), false)
			}
		}
	}
	var b strings.Builder
	// an outer declaration, and scopes that use the name again
	if x.r.Intn(3) > 0 {
		b.WriteString(any(1))
	}
	for i, c := 0, 1+x.r.Intn(5); i < c; i++ {
		switch x.r.Intn(10) {
		case 0:
			fmt.Fprintf(&b, "procedure R%d(%s: Integer); begin end;\n", 10+i, n())
		case 1:
			fmt.Fprintf(&b, "procedure R%d;\n%sbegin end;\n", 10+i, any(20+i))
		case 2:
			fmt.Fprintf(&b, "procedure R%d;\n%sprocedure S%d;\n%sbegin end;\nbegin end;\n", 10+i, any(20+i), i, any(30+i))
		case 3:
			fmt.Fprintf(&b, "type Rec%d = record %s: Integer; sub: record %s: string end; end;\n", i, n(), n())
		case 4:
			fmt.Fprintf(&b, "type Cls%d = class %s: Integer; end;\n", i, n())
		case 5:
			fmt.Fprintf(&b, "type Cls%d = class procedure m%d(%s: Integer); procedure k%d(%s: Integer); end;\n", i, i, n(), i, n())
		case 6:
			fmt.Fprintf(&b, "type Pt%d = procedure(%s: Integer);\n", i, n())
		case 7:
			fmt.Fprintf(&b, "procedure R%d(p: Integer);\nprocedure S%d(%s: Integer);\nbegin end;\n%sbegin end;\n", 10+i, i, n(), any(40+i))
		case 8:
			fmt.Fprintf(&b, "procedure R%d; begin try except on %s: TErr do a := 1; on %s: TErr2 do try except on %s: TErr do ; end end end;\n", 10+i, n(), n(), n())
		case 9:
			fmt.Fprintf(&b, "type Cl%d = class f: Integer; property %s: Integer read f; property arr%d[%s: Integer]: Integer read f; end;\n", i, n(), i, n())
		}
	}
	scope := dupScopes[x.r.Intn(len(dupScopes))]
	if strings.HasSuffix(scope, "interface") {
		scope = "implementation"
	}
	err := x.wrapScope(scope, b.String())
	x.eval(b.String(), true)
	if err != "" {
		x.fail("one name in different scopes of a %s is rejected: %s", scope, err)
	}
	x.feat("scopes: accepted")
	if x.k%200 == 0 {
		x.sample(b.String())
	}
}
