// Prints one JSON line per mutant of the given Go files: a byte range and its replacement.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File       string
	Start, End int
	New        string
	Line       int
	Func       string
	Kind       string
}

var swaps = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		fn := ""
		put := func(a, b token.Pos, n, kind string) {
			enc.Encode(mutant{file, off(a), off(b), n, fs.Position(a).Line, fn, kind})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[x.Op] {
						put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op "+x.Op.String()+" -> "+s)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.Atoi(x.Value); err == nil {
							put(x.Pos(), x.End(), fmt.Sprint(v+1), "int+1")
							if v > 0 {
								put(x.Pos(), x.End(), fmt.Sprint(v-1), "int-1")
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						put(x.Pos(), x.End(), "false", "true->false")
					} else if x.Name == "false" {
						put(x.Pos(), x.End(), "true", "false->true")
					}
				case *ast.IfStmt:
					put(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate "+text(x.Cond))
					if x.Init == nil {
						put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never "+text(x.Cond))
					} else {
						put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never "+text(x.Cond))
					}
					put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always "+text(x.Cond))
				case *ast.ExprStmt:
					put(x.Pos(), x.End(), "", "delete "+text(x))
				case *ast.DeferStmt:
					put(x.Pos(), x.End(), "", "delete "+text(x))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						blank := ""
						for i, l := range x.Lhs {
							if i > 0 {
								blank += ", "
							}
							_ = l
							blank += "_"
						}
						if x.Tok == token.ASSIGN {
							put(x.Pos(), x.Rhs[0].Pos(), blank+" = ", "no assignment "+text(x))
						} else {
							put(x.Pos(), x.End(), "_ = "+text(x.Rhs[0]), "no assignment "+text(x))
							put(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), "=", "assign "+text(x))
						}
					}
				case *ast.IncDecStmt:
					put(x.Pos(), x.End(), "", "delete "+text(x))
				case *ast.BranchStmt:
					if x.Tok == token.BREAK && x.Label == nil {
						put(x.Pos(), x.End(), "continue", "break->continue")
					} else if x.Tok == token.CONTINUE && x.Label == nil {
						put(x.Pos(), x.End(), "break", "continue->break")
						put(x.Pos(), x.End(), "", "delete continue")
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && (id.Name == "err") {
							put(r.Pos(), r.End(), "nil", "return nil error")
						}
					}
					if len(x.Results) == 0 {
						put(x.Pos(), x.End(), "", "delete return")
					}
				case *ast.ForStmt:
					if x.Cond != nil {
						put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "loop never "+text(x.Cond))
					}
				case *ast.RangeStmt:
					put(x.Body.Lbrace+1, x.Body.Lbrace+1, " break; ", "range never "+text(x.X))
				case *ast.GoStmt:
					put(x.Pos(), x.Call.Pos(), "", "synchronous go")
				case *ast.CallExpr:
					// drop View()/copies
					if s, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 0 {
						switch s.Sel.Name {
						case "View", "ShallowCopy", "Copy", "DetachedView", "ResetIndexView":
							put(s.X.End(), x.End(), "", "no "+s.Sel.Name)
						}
					}
					if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) >= 2 {
						put(x.Pos(), x.End(), text(x.Args[0]), "no append "+text(x))
					}
				case *ast.SliceExpr:
					if x.Max != nil {
						put(x.High.End(), x.Max.End(), "", "two-index slice")
						break
					}
				}
				return true
			})
		}
	}
}
