// Command mutate lists small changes to Go source files, one JSON object per
// line: the file, the byte range that is replaced, and what it is replaced with.
// tools/mutate.py applies them one by one and runs the checks on each.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Lo   int    `json:"lo"`
	Hi   int    `json:"hi"`
	New  string `json:"new"`
	Kind string `json:"kind"`
}

var ops = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
	token.LAND: {"||"}, token.LOR: {"&&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		put := func(kind string, lo, hi token.Pos, s string) {
			enc.Encode(mutant{name, fs.Position(lo).Line, off(lo), off(hi), s, kind})
		}
		stmts := func(list []ast.Stmt) {
			for i, s := range list {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
					put("delete", s.Pos(), s.End(), "")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						put("delete", s.Pos(), s.End(), "")
					}
				case *ast.IfStmt:
					if x.Init == nil && x.Else == nil {
						put("delete", s.Pos(), s.End(), "")
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 0 {
						put("delete", s.Pos(), s.End(), "")
					}
				}
				if g, ok := s.(*ast.GoStmt); ok {
					put("sync", g.Pos(), g.End(), text(g.Call))
				}
				if d, ok := s.(*ast.DeferStmt); ok {
					put("undefer", d.Pos(), d.End(), text(d.Call))
				}
				if i+1 < len(list) {
					n := list[i+1]
					put("swap", s.Pos(), n.End(), text(n)+"\n"+text(s))
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				return x.Tok != token.IMPORT
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.BinaryExpr:
				for _, o := range ops[x.Op] {
					put("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o)
				}
			case *ast.AssignStmt:
				if x.Tok == token.ADD_ASSIGN {
					put("op", x.TokPos, x.TokPos+2, "-=")
					put("op", x.TokPos, x.TokPos+2, "=")
				}
				if len(x.Lhs) == 2 && len(x.Rhs) == 2 {
					put("args", x.Rhs[0].Pos(), x.Rhs[1].End(), text(x.Rhs[1])+", "+text(x.Rhs[0]))
				}
			case *ast.IncDecStmt:
				if x.Tok == token.INC {
					put("op", x.TokPos, x.TokPos+2, "--")
				} else {
					put("op", x.TokPos, x.TokPos+2, "++")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					k, _ := strconv.Atoi(x.Value)
					put("const", x.Pos(), x.End(), fmt.Sprint(k+1))
					if k > 0 {
						put("const", x.Pos(), x.End(), fmt.Sprint(k-1))
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					put("bool", x.Pos(), x.End(), "false")
				}
				if x.Name == "false" {
					put("bool", x.Pos(), x.End(), "true")
				}
			case *ast.IfStmt:
				put("cond", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
				if x.Init == nil {
					put("cond", x.Cond.Pos(), x.Cond.End(), "true || "+text(x.Cond))
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					put("cond", x.Pos(), x.End(), text(x.X))
				}
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok == token.BREAK {
					put("branch", x.Pos(), x.End(), "continue")
				}
				if x.Label == nil && x.Tok == token.CONTINUE {
					put("branch", x.Pos(), x.End(), "break")
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := x.Args[i], x.Args[i+1]
					put("args", a.Pos(), b.End(), text(b)+", "+text(a))
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					put("slice", x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1")
				}
				if x.High != nil {
					put("slice", x.High.Pos(), x.High.End(), "("+text(x.High)+")-1")
				}
			case *ast.IndexExpr:
				put("index", x.Index.Pos(), x.Index.End(), "0")
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
						continue
					}
					put("result", r.Pos(), r.End(), "nil")
					put("result", r.Pos(), r.End(), "0")
				}
			}
			return true
		})
	}
}
