// mutate FILE OUTDIR writes small one-place changes of a Go file, one file per change, and a
// line "NAME<TAB>LINE<TAB>DESCRIPTION" for each to standard output. It is a development aid;
// no check uses it.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

var (
	fset = token.NewFileSet()
	file *ast.File
	out  string
	n    int
)

func emit(pos token.Pos, desc string) {
	var b bytes.Buffer
	if err := printer.Fprint(&b, fset, file); err != nil {
		return
	}
	name := fmt.Sprintf("m%03d.go", n)
	n++
	_ = os.WriteFile(filepath.Join(out, name), b.Bytes(), 0o644)
	fmt.Printf("%s\t%d\t%s\n", name, fset.Position(pos).Line, desc)
}

func text(x ast.Node) string {
	var b bytes.Buffer
	_ = printer.Fprint(&b, fset, x)
	s := b.String()
	if len(s) > 70 {
		s = s[:70]
	}
	return string(bytes.ReplaceAll([]byte(s), []byte("\n"), []byte(" ")))
}

var swaps = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD}, token.REM: {token.ADD}, token.OR: {token.AND},
}

func block(list *[]ast.Stmt) {
	for i := range *list {
		s := (*list)[i]
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt, *ast.GoStmt:
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE {
				continue
			}
		case *ast.BranchStmt:
		case *ast.IfStmt:
		case *ast.RangeStmt, *ast.ForStmt:
		default:
			continue
		}
		old := append([]ast.Stmt{}, *list...)
		var use []ast.Stmt
		if a, ok := s.(*ast.AssignStmt); ok { // keep variables used
			for _, r := range a.Rhs {
				_ = r
			}
		}
		*list = append(append(append([]ast.Stmt{}, old[:i]...), use...), old[i+1:]...)
		emit(s.Pos(), "delete "+text(s))
		*list = old
		if i+1 < len(old) {
			_, a := old[i+1].(*ast.ReturnStmt)
			if !a {
				sw := append([]ast.Stmt{}, old...)
				sw[i], sw[i+1] = sw[i+1], sw[i]
				*list = sw
				emit(s.Pos(), "swap with next: "+text(s))
				*list = old
			}
		}
	}
}

func main() {
	var err error
	file, err = parser.ParseFile(fset, os.Args[1], nil, parser.SkipObjectResolution)
	if err != nil {
		panic(err)
	}
	out = os.Args[2]
	ast.Inspect(file, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			op := x.Op
			for _, o := range swaps[op] {
				d := text(x)
				x.Op = o
				emit(x.OpPos, d+"  ->  "+o.String())
			}
			x.Op = op
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err == nil {
					old := x.Value
					x.Value = strconv.FormatInt(v+1, 10)
					emit(x.Pos(), old+" -> "+x.Value)
					if v > 0 {
						x.Value = strconv.FormatInt(v-1, 10)
						emit(x.Pos(), old+" -> "+x.Value)
					}
					x.Value = old
				}
			}
		case *ast.IfStmt:
			old := x.Cond
			d := text(old)
			for _, v := range []string{"true", "false"} {
				x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: old}, Op: map[string]token.Token{"true": token.LOR, "false": token.LAND}[v], Y: ast.NewIdent(v)}
				emit(x.Pos(), "if "+d+"  ->  "+v)
			}
			x.Cond = old
		case *ast.ReturnStmt:
			for i, r := range x.Results {
				if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
					old := id.Name
					id.Name = map[string]string{"true": "false", "false": "true"}[old]
					emit(x.Pos(), "return "+old+" flipped")
					id.Name = old
				} else if i == len(x.Results)-1 {
					old := x.Results[i]
					if _, isLit := old.(*ast.BasicLit); !isLit {
						x.Results[i] = ast.NewIdent("nil")
						emit(x.Pos(), "return "+text(old)+" -> nil")
						x.Results[i] = old
					}
				}
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(x.Args); i++ {
				x.Args[i], x.Args[i+1] = x.Args[i+1], x.Args[i]
				emit(x.Pos(), "swap arguments: "+text(x))
				x.Args[i], x.Args[i+1] = x.Args[i+1], x.Args[i]
			}
			if len(x.Args) == 1 && len(os.Args) > 3 {
				if s, ok := x.Args[0].(*ast.UnaryExpr); ok && s.Op == token.AND {
					_ = s
				}
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				old := x.Low
				x.Low = nil
				emit(x.Pos(), "drop lower bound "+text(old))
				x.Low = old
			}
			if x.High != nil && x.Max == nil {
				old := x.High
				x.High = nil
				emit(x.Pos(), "drop upper bound "+text(old))
				x.High = old
			}
		case *ast.BlockStmt:
			block(&x.List)
		case *ast.CaseClause:
			block(&x.Body)
			if len(x.List) > 1 {
				old := x.List
				for i := range old {
					x.List = append(append([]ast.Expr{}, old[:i]...), old[i+1:]...)
					emit(x.Pos(), "drop case "+text(old[i]))
				}
				x.List = old
			}
		}
		return true
	})
}
