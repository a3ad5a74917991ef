package main

import (
	"fmt"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/parser"
	"github.com/akm/tparser/token"
)

// outcome is what one parse of an in-memory text gave.
type outcome struct {
	node interface{}
	err  error
	cur  *token.Token // token on which parsing ended (fragments)
}

// parseMode drives one public entry point of the parser over text.
func parseMode(mode string, text []rune) outcome { return parseModeAt(mode, text, "p.dpr", "u.pas") }

// pathArg is the argument of a context for a path, none for "-".
func pathArg(p string) []interface{} {
	if p == "-" {
		return nil
	}
	return []interface{}{p}
}

// parseModeAt parses with given paths of the program and the unit.
func parseModeAt(mode string, text []rune, prog, unit string) outcome {
	switch mode {
	case "program":
		p := parser.NewProgramParser(parser.NewProgramContext(pathArg(prog)...))
		p.SetText(&text)
		p.NextToken()
		n, err := p.ParseProgram()
		return wrap(n, n == nil, err, p.CurrentToken())
	case "unit":
		p := parser.NewUnitParser(parser.NewUnitContext(parser.NewProgramContext(pathArg(prog)...), pathArg(unit)...))
		p.SetText(&text)
		p.NextToken()
		n, err := p.ParseUnit()
		return wrap(n, n == nil, err, p.CurrentToken())
	}
	p := parser.NewParser(parser.NewProgramContext(pathArg(prog)...))
	p.SetText(&text)
	p.NextToken()
	switch mode {
	case "expr":
		n, err := p.ParseExpression()
		return wrap(n, n == nil, err, p.CurrentToken())
	case "stmt":
		n, err := p.ParseStatement()
		return wrap(n, n == nil, err, p.CurrentToken())
	case "type":
		n, err := p.ParseType()
		return wrap(n, n == nil, err, p.CurrentToken())
	case "typesec":
		n, err := p.ParseTypeSection(true)
		return wrap(n, n == nil, err, p.CurrentToken())
	case "varsec":
		n, err := p.ParseVarSection(true)
		return wrap(n, n == nil, err, p.CurrentToken())
	case "constsec":
		n, err := p.ParseConstSection(true)
		return wrap(n, n == nil, err, p.CurrentToken())
	case "threadvarsec":
		n, err := p.ParseThreadVarSection(true)
		return wrap(n, n == nil, err, p.CurrentToken())
	case "block":
		n, err := p.ParseBlock()
		return wrap(n, n == nil, err, p.CurrentToken())
	case "heading":
		n, err := p.ParseExportedHeading()
		return wrap(n, n == nil, err, p.CurrentToken())
	}
	panic("unknown mode " + mode)
}

func wrap(n interface{}, isNil bool, err error, cur *token.Token) outcome {
	if isNil {
		n = nil
	}
	return outcome{n, err, cur}
}

var allModes = []string{"program", "unit", "expr", "stmt", "type", "typesec", "varsec", "constsec", "threadvarsec", "block", "heading"}

var _ = ast.Program{}

// dumpOne prints the result of an in-memory parse.
func dumpOne(tag string, toks []tokPos, o outcome, computed bool) string {
	d := NewDumper()
	d.computed = computed
	d.AddSource(tag, toks)
	return d.Dump(dumpPart{tag, o.node})[0]
}

// result is the canonical text of an outcome.
func (o outcome) String() string {
	if o.err != nil {
		return "ERR " + o.err.Error()
	}
	if o.node == nil {
		return "NIL"
	}
	return fmt.Sprintf("%T", o.node)
}
