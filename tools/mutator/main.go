// mutator lists small mutants of Go files as JSON lines: file, offsets,
// replacement, line and what it is.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type mutant struct {
	File       string
	Start, End int
	Repl       string
	Line       int
	Desc       string
	Func       string
}

func main() {
	var enc = json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		var src, err = os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		var fs = token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		var off = func(p token.Pos) int { return fs.Position(p).Offset }
		var text = func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range af.Decls {
			var fd, ok = d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			var put = func(n ast.Node, repl, desc string) {
				enc.Encode(mutant{filepath.Base(f), off(n.Pos()), off(n.End()), repl, fs.Position(n.Pos()).Line, desc, fd.Name.Name})
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch v := n.(type) {
				case *ast.IfStmt:
					put(v.Cond, "false && ("+text(v.Cond)+")", "never: if "+text(v.Cond))
					put(v.Cond, "true || ("+text(v.Cond)+")", "always: if "+text(v.Cond))
				case *ast.BinaryExpr:
					switch v.Op {
					case token.LAND, token.LOR:
						put(v, text(v.X), "only left of: "+text(v))
						put(v, text(v.Y), "only right of: "+text(v))
					case token.LSS:
						put(v, text(v.X)+" <= "+text(v.Y), "<= in: "+text(v))
					case token.LEQ:
						put(v, text(v.X)+" < "+text(v.Y), "< in: "+text(v))
					case token.GTR:
						put(v, text(v.X)+" >= "+text(v.Y), ">= in: "+text(v))
					case token.GEQ:
						put(v, text(v.X)+" > "+text(v.Y), "> in: "+text(v))
					case token.EQL:
						put(v, text(v.X)+" != "+text(v.Y), "!= in: "+text(v))
					case token.NEQ:
						put(v, text(v.X)+" == "+text(v.Y), "== in: "+text(v))
					case token.OR, token.AND, token.AND_NOT:
						put(v, text(v.X), "only left of: "+text(v))
						if v.Op != token.AND_NOT {
							put(v, text(v.Y), "only right of: "+text(v))
						}
					case token.ADD:
						put(v, text(v.X), "only left of: "+text(v))
					}
				case *ast.ExprStmt:
					put(v, "", "without: "+text(v))
				case *ast.AssignStmt:
					if v.Tok != token.DEFINE {
						var r = ""
						for i, e := range v.Rhs {
							if i > 0 {
								r += ";"
							}
							r += "_ = " + text(e)
						}
						if len(v.Lhs) == len(v.Rhs) {
							put(v, r, "without: "+text(v))
						}
					}
				case *ast.IncDecStmt, *ast.DeferStmt:
					put(v, "", "without: "+text(v))
				case *ast.BranchStmt:
					put(v, "", "without: "+text(v))
					if v.Tok == token.CONTINUE && v.Label == nil {
						put(v, "break", "break instead of continue")
					}
				case *ast.Ident:
					if v.Name == "true" {
						put(v, "false", "false instead of true")
					} else if v.Name == "false" {
						put(v, "true", "true instead of false")
					}
				case *ast.BasicLit:
					if v.Kind == token.INT {
						var k, err = strconv.Atoi(v.Value)
						if err == nil {
							put(v, fmt.Sprint(k+1), fmt.Sprintf("%d instead of %d", k+1, k))
							if k > 0 {
								put(v, fmt.Sprint(k-1), fmt.Sprintf("%d instead of %d", k-1, k))
							}
						}
					}
				case *ast.UnaryExpr:
					if v.Op == token.NOT {
						put(v, text(v.X), "without !: "+text(v))
					}
				case *ast.ReturnStmt:
					if len(v.Results) > 0 && false {
						put(v, "", "")
					}
				}
				return true
			})
		}
	}
}
