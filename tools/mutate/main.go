// Command mutate writes one file per small change of a Go source file:
//
//	mutate FILE.go OUTDIR
//
// Each OUTDIR/N.go is FILE.go with one change; OUTDIR/index.txt names them.
// Used to look for changes that neither the tests nor the checks see.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
)

var (
	fset *token.FileSet
	file *ast.File
	dir  string
	n    int
	idx  *os.File
)

func emit(pos token.Pos, what string) {
	var b bytes.Buffer
	if err := format.Node(&b, fset, file); err != nil {
		return
	}
	os.WriteFile(filepath.Join(dir, fmt.Sprintf("%d.go", n)), b.Bytes(), 0o644)
	fmt.Fprintf(idx, "%d\t%s\t%s\n", n, fset.Position(pos), what)
	n++
}

var swaps = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS, token.GEQ}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR, token.LEQ},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD}, token.QUO: {token.MUL}, token.REM: {token.QUO},
	token.AND: {token.OR}, token.OR: {token.AND}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
	token.ADD_ASSIGN: {token.SUB_ASSIGN, token.ASSIGN}, token.SUB_ASSIGN: {token.ADD_ASSIGN},
}

func blocks(list *[]ast.Stmt) {
	for i, s := range *list {
		old := *list
		skip := false
		switch t := s.(type) {
		case *ast.AssignStmt:
			skip = t.Tok == token.DEFINE
		case *ast.DeclStmt:
			skip = true
		}
		if !skip {
			x := append(append([]ast.Stmt{}, old[:i]...), &ast.EmptyStmt{Implicit: false})
			*list = append(x, old[i+1:]...)
			emit(s.Pos(), fmt.Sprintf("delete %T", s))
			*list = old
		}
		// exchange with the next statement
		if i+1 < len(old) {
			x := append([]ast.Stmt{}, old...)
			x[i], x[i+1] = x[i+1], x[i]
			*list = x
			emit(s.Pos(), "exchange with next")
			*list = old
		}
	}
}

func main() {
	fset = token.NewFileSet()
	var err error
	file, err = parser.ParseFile(fset, os.Args[1], nil, 0)
	if err != nil {
		panic(err)
	}
	dir = os.Args[2]
	os.MkdirAll(dir, 0o755)
	idx, _ = os.Create(filepath.Join(dir, "index.txt"))
	ast.Inspect(file, func(nd ast.Node) bool {
		switch t := nd.(type) {
		case *ast.ImportSpec, *ast.GenDecl:
			if g, ok := t.(*ast.GenDecl); ok && (g.Tok == token.CONST || g.Tok == token.VAR) {
				return true
			}
			return false
		case *ast.BinaryExpr:
			o := t.Op
			for _, s := range swaps[o] {
				t.Op = s
				emit(t.OpPos, o.String()+" -> "+s.String())
			}
			t.Op = o
			if o == token.LAND || o == token.LOR {
				x, y := t.X, t.Y
				t.X = ast.NewIdent(strconv.FormatBool(o == token.LAND))
				emit(t.OpPos, "drop left operand of "+o.String())
				t.X, t.Y = x, ast.NewIdent(strconv.FormatBool(o == token.LAND))
				emit(t.OpPos, "drop right operand of "+o.String())
				t.Y = y
			}
		case *ast.AssignStmt:
			o := t.Tok
			for _, s := range swaps[o] {
				t.Tok = s
				emit(t.TokPos, o.String()+" -> "+s.String())
			}
			t.Tok = o
		case *ast.IncDecStmt:
			if t.Tok == token.INC {
				t.Tok = token.DEC
				emit(t.TokPos, "++ -> --")
				t.Tok = token.INC
			} else {
				t.Tok = token.INC
				emit(t.TokPos, "-- -> ++")
				t.Tok = token.DEC
			}
		case *ast.BasicLit:
			if t.Kind == token.INT {
				v, err := strconv.Atoi(t.Value)
				if err == nil {
					o := t.Value
					for _, w := range []int{v + 1, v - 1, v * 2} {
						if w == v {
							continue
						}
						t.Value = strconv.Itoa(w)
						emit(t.Pos(), o+" -> "+t.Value)
					}
					t.Value = o
				}
			}
		case *ast.Ident:
			if t.Name == "true" || t.Name == "false" {
				o := t.Name
				t.Name = strconv.FormatBool(o != "true")
				emit(t.Pos(), o+" -> "+t.Name)
				t.Name = o
			}
		case *ast.SelectorExpr:
			pairs := map[string]string{"left": "right", "right": "left", "Left": "Right", "Right": "Left", "Next": "Prev", "Prev": "Next", "Front": "Back", "Back": "Front", "Low": "High", "High": "Low", "width": "height", "height": "width", "mid": "right"}
			if p, ok := pairs[t.Sel.Name]; ok {
				o := t.Sel.Name
				t.Sel.Name = p
				emit(t.Pos(), o+" -> "+p)
				t.Sel.Name = o
			}
		case *ast.UnaryExpr:
			if t.Op == token.NOT {
				x := t.X
				t.X = &ast.ParenExpr{X: &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x}}}
				emit(t.Pos(), "drop !")
				t.X = x
			}
		case *ast.IfStmt:
			c := t.Cond
			for _, v := range []string{"true", "false"} {
				t.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: c}, Op: map[string]token.Token{"true": token.LOR, "false": token.LAND}[v], Y: ast.NewIdent(v)}
				emit(c.Pos(), "condition "+v)
			}
			t.Cond = c
		case *ast.ForStmt:
			if t.Cond != nil {
				c := t.Cond
				t.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: c}, Op: token.LAND, Y: ast.NewIdent("false")}
				emit(c.Pos(), "loop never")
				t.Cond = c
			}
		case *ast.BranchStmt:
			o := t.Tok
			if o == token.BREAK || o == token.CONTINUE {
				t.Tok = map[token.Token]token.Token{token.BREAK: token.CONTINUE, token.CONTINUE: token.BREAK}[o]
				emit(t.Pos(), o.String()+" -> "+t.Tok.String())
				t.Tok = o
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(t.Args); i++ {
				if reflect.TypeOf(t.Args[i]) == reflect.TypeOf(t.Args[i+1]) {
					t.Args[i], t.Args[i+1] = t.Args[i+1], t.Args[i]
					emit(t.Pos(), fmt.Sprintf("exchange arguments %d and %d", i, i+1))
					t.Args[i], t.Args[i+1] = t.Args[i+1], t.Args[i]
				}
			}
		case *ast.BlockStmt:
			blocks(&t.List)
		case *ast.CaseClause:
			blocks(&t.Body)
		}
		return true
	})
}
