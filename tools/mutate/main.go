// Command mutate lists small changes of the non-test files of a repository as JSON lines: {file, off, end, new, fn, what}.
// It is a development tool: tools/mutrun.py applies the changes in scratch copies and asks the checks.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Fn   string `json:"fn"`
	Line int    `json:"line"`
	What string `json:"what"`
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		t, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		text := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
		put := func(pos, end token.Pos, s, what string) {
			p := fs.Position(pos)
			enc.Encode(mut{f, p.Offset, fs.Position(end).Offset, s, fn, p.Line, what})
		}
		for _, d := range t.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{
						token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.OR: {"&"}, token.AND: {"|"},
					}[x.Op]
					for _, a := range alt {
						put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, fmt.Sprintf("%s -> %s in %s", x.Op, a, text(x)))
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						put(x.Pos(), x.End(), text(x.X), "only left of "+text(x))
						put(x.Pos(), x.End(), text(x.Y), "only right of "+text(x))
					}
				case *ast.IfStmt:
					if x.Init == nil {
						put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never if "+text(x.Cond))
						put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always if "+text(x.Cond))
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err == nil {
							put(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), x.Value+"+1")
							if v > 0 {
								put(x.Pos(), x.End(), strconv.FormatInt(v-1, 10), x.Value+"-1")
							}
						}
					}
					if x.Kind == token.CHAR {
						v, _, _, err := strconv.UnquoteChar(strings.Trim(x.Value, "'"), '\'')
						if err == nil {
							put(x.Pos(), x.End(), strconv.QuoteRune(v+1), x.Value+"+1")
						}
					}
					if x.Kind == token.STRING && len(x.Value) > 2 {
						return true
					}
				case *ast.ExprStmt:
					put(x.Pos(), x.End(), "", "drop "+text(x))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						// keep the variables in use
						put(x.Pos(), x.End(), "", "drop "+text(x))
					}
				case *ast.IncDecStmt:
					put(x.Pos(), x.End(), "", "drop "+text(x))
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
							put(r.Pos(), r.End(), map[string]string{"true": "false", "false": "true"}[id.Name], "return the opposite of "+id.Name)
						}
					}
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE && x.Label == nil {
						put(x.Pos(), x.End(), "break", "continue -> break")
					} else if x.Tok == token.BREAK {
						put(x.Pos(), x.End(), "", "drop break")
					}
				case *ast.CaseClause:
					if len(x.List) > 1 {
						for i := range x.List {
							if i == 0 {
								put(x.List[0].Pos(), x.List[1].Pos(), "", "drop case "+text(x.List[0]))
							} else {
								put(x.List[i-1].End(), x.List[i].End(), "", "drop case "+text(x.List[i]))
							}
						}
					} else if len(x.List) == 1 && len(x.Body) > 0 {
						put(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty case "+text(x.List[0]))
					}
				case *ast.KeyValueExpr:
					if id, ok := x.Key.(*ast.Ident); ok {
						put(x.Pos(), x.End(), "/*-*/", "drop member "+id.Name)
					}
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
						if s, ok := x.Args[0].(*ast.SliceExpr); ok {
							put(x.Pos(), x.End(), "append("+text(s.X)+", "+text(x.Args[1])+map[bool]string{true: "...", false: ""}[x.Ellipsis.IsValid()]+")", "append without cutting "+text(x))
						}
					}
				}
				return true
			})
		}
	}
}
