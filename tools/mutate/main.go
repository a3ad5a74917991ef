// mutate DIR: prints one JSON object per possible mutation of the non-test sources of a Go tree:
// {"file","line","op","from","to","old","new"} where bytes from..to are replaced.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Op   string `json:"op"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Old  string `json:"old"`
	New  string `json:"new"`
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		if fi.IsDir() && (fi.Name() == "asttest" || fi.Name() == "parsertest" || fi.Name() == ".git" || fi.Name() == "cmd") {
			return filepath.SkipDir
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, _ := os.ReadFile(p)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return nil
		}
		off := func(x token.Pos) int { return fs.Position(x).Offset }
		put := func(n ast.Node, op string, from, to int, repl string) {
			enc.Encode(mut{rel, fs.Position(n.Pos()).Line, op, from, to, string(src[from:to]), repl})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		cond := func(e ast.Expr) {
			if e == nil {
				return
			}
			a, b := off(e.Pos()), off(e.End())
			put(e, "negate", a, b, "!("+text(e)+")")
			put(e, "true", a, b, "(true || ("+text(e)+"))")
			put(e, "false", a, b, "(false && ("+text(e)+"))")
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.ImportSpec, *ast.TypeSpec:
				return false
			case *ast.IfStmt:
				// error propagation is left alone
				if be, ok := v.Cond.(*ast.BinaryExpr); ok {
					if id, ok := be.X.(*ast.Ident); ok && id.Name == "err" {
						if v.Init == nil {
							return true
						}
						return true
					}
				}
				cond(v.Cond)
			case *ast.ForStmt:
				if v.Cond != nil {
					put(v.Cond, "false", off(v.Cond.Pos()), off(v.Cond.End()), "(false && ("+text(v.Cond)+"))")
				}
			case *ast.BinaryExpr:
				swap := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}}
				if id, ok := v.X.(*ast.Ident); ok && id.Name == "err" {
					return true
				}
				for _, s := range swap[v.Op] {
					o := off(v.OpPos)
					put(v, "op", o, o+len(v.Op.String()), s)
				}
				if v.Op == token.LAND || v.Op == token.LOR {
					put(v, "left only", off(v.Pos()), off(v.End()), text(v.X))
					put(v, "right only", off(v.Pos()), off(v.End()), text(v.Y))
				}
			case *ast.BasicLit:
				if v.Kind == token.INT {
					put(v, "int", off(v.Pos()), off(v.End()), "("+v.Value+"+1)")
				}
				if v.Kind == token.STRING && len(v.Value) > 2 && !strings.ContainsAny(v.Value, "%") {
					put(v, "string", off(v.Pos()), off(v.End()), v.Value[:len(v.Value)-1]+"Q"+v.Value[len(v.Value)-1:])
				}
				if v.Kind == token.CHAR {
					put(v, "char", off(v.Pos()), off(v.End()), "'\\x01'")
				}
			case *ast.BlockStmt:
				for _, s := range v.List {
					stmt(s, off, text, put)
				}
			case *ast.CaseClause:
				for _, s := range v.Body {
					stmt(s, off, text, put)
				}
				for i, e := range v.List {
					if len(v.List) > 1 {
						a, b := off(e.Pos()), off(e.End())
						if i+1 < len(v.List) {
							b = off(v.List[i+1].Pos())
						} else {
							a = off(v.List[i-1].End())
						}
						put(e, "drop case value", a, b, "")
					}
				}
				if v.List != nil {
					put(v, "drop case", off(v.Pos()), off(v.End()), "")
				}
			case *ast.CompositeLit:
				for i, e := range v.Elts {
					if len(v.Elts) > 80 && i%3 != 0 {
						continue
					}
					a, b := off(e.Pos()), off(e.End())
					if i+1 < len(v.Elts) {
						b = off(v.Elts[i+1].Pos())
					} else if i > 0 {
						a = off(v.Elts[i-1].End())
					}
					put(e, "drop element", a, b, "")
				}
				if len(v.Elts) == 2 || len(v.Elts) == 3 {
					if _, ok := v.Elts[0].(*ast.KeyValueExpr); !ok {
						put(v, "swap elements", off(v.Elts[0].Pos()), off(v.Elts[1].End()), text(v.Elts[1])+", "+text(v.Elts[0]))
					}
				}
			case *ast.CallExpr:
				for i, e := range v.Args {
					a, b := off(e.Pos()), off(e.End())
					if i+1 < len(v.Args) {
						b = off(v.Args[i+1].Pos())
						put(v, "swap arguments", off(e.Pos()), off(v.Args[i+1].End()), text(v.Args[i+1])+", "+text(e))
					} else if i > 0 {
						a = off(v.Args[i-1].End())
					}
					put(v, "drop argument", a, b, "")
				}
				if len(v.Args) == 1 {
					put(v, "argument for call", off(v.Pos()), off(v.End()), text(v.Args[0]))
				}
				if se, ok := v.Fun.(*ast.SelectorExpr); ok && len(v.Args) == 0 {
					put(v, "receiver for call", off(v.Pos()), off(v.End()), text(se.X))
				}
			case *ast.ReturnStmt:
				for _, e := range v.Results {
					t := text(e)
					switch t {
					case "true":
						put(v, "return", off(e.Pos()), off(e.End()), "false")
					case "false":
						put(v, "return", off(e.Pos()), off(e.End()), "true")
					case "nil", "err":
					default:
						if len(v.Results) == 1 {
							put(v, "return nil", off(e.Pos()), off(e.End()), "nil")
							put(v, "return false", off(e.Pos()), off(e.End()), "false")
							put(v, "return true", off(e.Pos()), off(e.End()), "true")
						}
					}
				}
			case *ast.UnaryExpr:
				if v.Op == token.NOT {
					put(v, "drop not", off(v.Pos()), off(v.End()), text(v.X))
				}
			case *ast.BranchStmt:
				switch v.Tok {
				case token.BREAK:
					put(v, "branch", off(v.Pos()), off(v.End()), "continue")
				case token.CONTINUE:
					put(v, "branch", off(v.Pos()), off(v.End()), "break")
				}
			}
			return true
		})
		return nil
	})
}

func stmt(s ast.Stmt, off func(token.Pos) int, text func(ast.Node) string, put func(ast.Node, string, int, int, string)) {
	switch v := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.BranchStmt:
		if t := text(s); !strings.HasPrefix(t, "if err ") {
			put(s, "drop statement", off(s.Pos()), off(s.End()), "")
		}
	case *ast.AssignStmt:
		if v.Tok == token.ASSIGN {
			put(s, "drop statement", off(s.Pos()), off(s.End()), "")
		}
	case *ast.ReturnStmt:
		put(s, "drop statement", off(s.Pos()), off(s.End()), "")
	}
}
