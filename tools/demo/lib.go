package main

import (
	"fmt"
	"os"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/log"
	"github.com/akm/tparser/parser"
)

type nolog struct{}

func (nolog) Printf(string, ...interface{}) {}

func init() { log.SetLogger(nolog{}) }

func frag(text string) *parser.Parser {
	log.SetLogger(nolog{})
	r := []rune(text)
	p := parser.NewParser(parser.NewProgramContext("p.dpr"))
	p.SetText(&r)
	p.NextToken()
	return p
}

func program(text string) (*ast.Program, error) {
	log.SetLogger(nolog{})
	r := []rune(text)
	p := parser.NewProgramParser(parser.NewProgramContext("p.dpr"))
	p.SetText(&r)
	p.NextToken()
	return p.ParseProgram()
}

func unit(text string) (*ast.Unit, error) {
	log.SetLogger(nolog{})
	r := []rune(text)
	p := parser.NewUnitParser(parser.NewUnitContext(parser.NewProgramContext("p.dpr"), "u.pas"))
	p.SetText(&r)
	p.NextToken()
	return p.ParseUnit()
}

func file(path, text string) {
	if err := os.WriteFile(path, []byte(text), 0644); err != nil {
		panic(err)
	}
}

func must(ok bool, f string, a ...interface{}) {
	if !ok {
		fmt.Printf("BROKEN: "+f+"\n", a...)
		os.Exit(1)
	}
}
