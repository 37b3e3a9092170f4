// mutate lists small syntactic changes of Go files: "mutate FILE..." prints one JSON object per change with the file,
// the byte range, the replacement and a description. Used by tools/mutants.py for trials of the monitors.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Desc  string `json:"desc"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			emit := func(start, end token.Pos, repl string) {
				enc.Encode(mut{file, fset.Position(start).Line, fd.Name.Name, off(start), off(end), repl,
					fmt.Sprintf("%q -> %q", string(src[off(start):off(end)]), repl)})
			}
			node := func(n ast.Node, repl string) { emit(n.Pos(), n.End(), repl) }
			bins := map[token.Token][]token.Token{
				token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL},
				token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS, token.GTR}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR, token.LSS},
				token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
				token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.REM: {token.QUO}, token.AND: {token.OR}, token.OR: {token.AND},
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch e := n.(type) {
				case *ast.BinaryExpr:
					for _, t := range bins[e.Op] {
						emit(e.OpPos, e.OpPos+token.Pos(len(e.Op.String())), t.String())
					}
					if e.Op == token.ADD || e.Op == token.SUB {
						node(e, text(e.X))
					}
				case *ast.UnaryExpr:
					if e.Op == token.SUB || e.Op == token.NOT {
						node(e, text(e.X))
					}
				case *ast.BasicLit:
					switch e.Kind {
					case token.INT:
						if v, err := strconv.ParseInt(e.Value, 0, 64); err == nil {
							node(e, fmt.Sprint(v+1))
							if v > 0 {
								node(e, fmt.Sprint(v-1))
							}
						}
					case token.FLOAT:
						if v, err := strconv.ParseFloat(e.Value, 64); err == nil {
							node(e, fmt.Sprint(v*1.05+1e-300))
						}
					case token.STRING:
						if len(e.Value) > 2 && e.Value[0] == '"' {
							node(e, `"~`+e.Value[1:])
						}
					}
				case *ast.SelectorExpr:
					swap := map[string]string{"X": "Y", "Y": "Z", "Z": "X", "Min": "Max", "Max": "Min", "Sin": "Cos", "Cos": "Sin",
						"Floor": "Ceil", "Ceil": "Floor", "Add": "Sub", "Sub": "Add", "MinElem": "MaxElem", "MaxElem": "MinElem", "True": "False",
						"AbsElem": "", "Abs": ""}
					if r, ok := swap[e.Sel.Name]; ok && r != "" {
						node(e.Sel, r)
						if e.Sel.Name == "Y" {
							node(e.Sel, "X")
						}
					}
				case *ast.Ident:
					if e.Name == "true" {
						node(e, "false")
					} else if e.Name == "false" {
						node(e, "true")
					}
				case *ast.CallExpr:
					t := text(e.Fun)
					if (strings.HasSuffix(t, "math.Abs") || strings.HasSuffix(t, "AbsElem") || t == "clamp" || t == "normalize" || t == "r3.Unit" || t == "r2.Unit") && len(e.Args) > 0 {
						node(e, "("+text(e.Args[0])+")")
					}
					if (t == "math.Max" || t == "math.Min") && len(e.Args) == 2 {
						node(e, "("+text(e.Args[0])+")")
						node(e, "("+text(e.Args[1])+")")
					}
				case *ast.IfStmt:
					node(e.Cond, "false && ("+text(e.Cond)+")")
					node(e.Cond, "true || ("+text(e.Cond)+")")
				case *ast.ForStmt:
				case *ast.BranchStmt:
					if e.Label == nil && e.Tok == token.CONTINUE {
						node(e, "break")
					}
				case *ast.AssignStmt:
					if e.Tok == token.ASSIGN || (e.Tok != token.DEFINE) {
						node(e, ";")
					}
				case *ast.ExprStmt:
					node(e, ";")
				case *ast.IncDecStmt:
					if e.Tok == token.INC {
						emit(e.TokPos, e.TokPos+2, "+= 2")
					}
				}
				return true
			})
		}
	}
}
