// mutgen lists single-point mutants of one Go source file as JSON lines
// {"id","line","kind","from","to","edits":[[start,end,"text"],...]}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

var src []byte
var fset *token.FileSet
var out []map[string]interface{}

func off(p token.Pos) int { return fset.Position(p).Offset }
func text(n ast.Node) string {
	return string(src[off(n.Pos()):off(n.End())])
}

type edit = []interface{}

func add(n ast.Node, kind, fn string, es ...edit) {
	out = append(out, map[string]interface{}{"id": len(out), "line": fset.Position(n.Pos()).Line, "kind": kind, "func": fn, "edits": es,
		"from": short(text(n))})
}
func short(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 100 {
		s = s[:100]
	}
	return s
}
func rep(n ast.Node, s string) edit { return edit{off(n.Pos()), off(n.End()), s} }

var swaps = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.SHL: {">>"}, token.AND: {"|"},
}

func lockCall(s ast.Stmt) (recv, name string, deferred bool) {
	var c *ast.CallExpr
	switch x := s.(type) {
	case *ast.ExprStmt:
		c, _ = x.X.(*ast.CallExpr)
	case *ast.DeferStmt:
		c, deferred = x.Call, true
	}
	if c == nil {
		return
	}
	if se, ok := c.Fun.(*ast.SelectorExpr); ok {
		switch se.Sel.Name {
		case "Lock", "Unlock", "RLock", "RUnlock":
			return text(se.X), se.Sel.Name, deferred
		}
	}
	return
}

func block(list []ast.Stmt, fn string) {
	for i, s := range list {
		r, name, _ := lockCall(s)
		if name == "Lock" || name == "RLock" {
			// pair drop, and early release
			for j := i + 1; j < len(list); j++ {
				r2, n2, d2 := lockCall(list[j])
				if r2 == r && strings.HasSuffix(n2, "Unlock") {
					add(s, "droplock", fn, rep(s, ""), rep(list[j], ""))
					if d2 {
						add(s, "shrinklock", fn, rep(list[j], text(list[j].(*ast.DeferStmt).Call)))
						if j+1 < len(list)-1 {
							// release after the next statement
							add(s, "shrinklock2", fn, rep(list[j], ""), rep(list[j+1], text(list[j+1])+"\n"+text(list[j].(*ast.DeferStmt).Call)))
						}
					}
					if name == "Lock" {
						add(s, "rlock", fn, rep(s, strings.Replace(text(s), ".Lock(", ".RLock(", 1)), rep(list[j], strings.Replace(text(list[j]), ".Unlock(", ".RUnlock(", 1)))
					}
					break
				}
			}
			continue
		}
		if strings.HasSuffix(name, "Unlock") {
			continue
		}
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
			if strings.HasPrefix(text(s), "log.") {
				continue
			}
			add(s, "delstmt", fn, rep(s, ""))
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				add(s, "delstmt", fn, rep(s, ""))
			}
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.BREAK {
				add(s, "branch", fn, rep(s, "continue"))
			}
			if x.Tok == token.CONTINUE {
				add(s, "branch", fn, rep(s, ""))
				if x.Label == nil {
					add(s, "branch", fn, rep(s, "break"))
				}
			}
		case *ast.ReturnStmt:
			if n := len(x.Results); n > 0 {
				last := x.Results[n-1]
				t := text(last)
				if n > 1 && t != "nil" && (strings.Contains(strings.ToLower(t), "err")) {
					add(s, "dropErr", fn, rep(last, "nil"))
				}
				for _, e := range x.Results {
					switch text(e) {
					case "true":
						add(s, "ret", fn, rep(e, "false"))
					case "false":
						add(s, "ret", fn, rep(e, "true"))
					}
				}
			}
		}
		// swap adjacent statements
		if i+1 < len(list) {
			a, aok := s.(*ast.ExprStmt)
			b, bok := list[i+1].(*ast.ExprStmt)
			_, _ = a, b
			as, asok := s.(*ast.AssignStmt)
			bs, bsok := list[i+1].(*ast.AssignStmt)
			okA := aok || (asok && as.Tok != token.DEFINE)
			okB := bok || (bsok && bs.Tok != token.DEFINE)
			if okA && okB {
				_, n2, _ := lockCall(list[i+1])
				if n2 == "" {
					add(s, "swap", fn, rep(s, text(list[i+1])), rep(list[i+1], text(s)))
				}
			}
		}
	}
}

func main() {
	fset = token.NewFileSet()
	src, _ = os.ReadFile(os.Args[1])
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		fn := fd.Name.Name
		if fd.Recv != nil {
			fn = strings.Trim(text(fd.Recv.List[0].Type), "*") + "." + fn
		}
		if fd.Name.Name == "String" || strings.HasSuffix(fn, "Print") || strings.HasSuffix(fn, "printData") {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				block(x.List, fn)
			case *ast.CaseClause:
				block(x.Body, fn)
			case *ast.CommClause:
				block(x.Body, fn)
			case *ast.IfStmt:
				add(x.Cond, "neg", fn, rep(x.Cond, "!("+text(x.Cond)+")"))
				add(x.Cond, "iffalse", fn, rep(x.Cond, "("+text(x.Cond)+") && false"))
				if x.Else == nil {
					add(x.Cond, "iftrue", fn, rep(x.Cond, "("+text(x.Cond)+") || true"))
				}
			case *ast.ForStmt:
			case *ast.BinaryExpr:
				for _, s := range swaps[x.Op] {
					if lit, ok := x.X.(*ast.BasicLit); ok && lit.Kind == token.STRING {
						continue
					}
					add(x, "op"+x.Op.String()+s, fn, edit{off(x.OpPos), off(x.OpPos) + len(x.Op.String()), s})
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					add(x, "dropL", fn, rep(x, text(x.Y)))
					add(x, "dropR", fn, rep(x, text(x.X)))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						add(x, "int+1", fn, rep(x, fmt.Sprint(v+1)))
						if v > 0 {
							add(x, "int-1", fn, rep(x, fmt.Sprint(v-1)))
						}
					}
				}
			case *ast.CallExpr:
				if len(x.Args) == 1 {
					t := text(x.Fun)
					if strings.Contains(strings.ToLower(t), "copy") || strings.Contains(t, "Clone") || strings.Contains(t, "clone") {
						add(x, "nocopy", fn, rep(x, text(x.Args[0])))
					}
				}
				if len(x.Args) == 0 {
					if se, ok := x.Fun.(*ast.SelectorExpr); ok && (strings.Contains(strings.ToLower(se.Sel.Name), "clone") || strings.Contains(strings.ToLower(se.Sel.Name), "copy")) {
						add(x, "nocopy", fn, rep(x, text(se.X)))
					}
				}
				if t := text(x.Fun); t == "append" && len(x.Args) == 2 && x.Ellipsis.IsValid() {
					if a := text(x.Args[0]); strings.Contains(a, "nil") || strings.HasSuffix(a, "{}") {
						add(x, "nocopy", fn, rep(x, text(x.Args[1])))
					}
				}
				for i := 0; i+1 < len(x.Args); i++ {
					if text(x.Args[i]) != text(x.Args[i+1]) && text(x.Fun) != "append" && !strings.HasPrefix(text(x.Fun), "log.") && !strings.HasPrefix(text(x.Fun), "fmt.") {
						add(x, "swaparg", fn, rep(x.Args[i], text(x.Args[i+1])), rep(x.Args[i+1], text(x.Args[i])))
					}
				}
			}
			return true
		})
	}
	j := json.NewEncoder(os.Stdout)
	for _, m := range out {
		j.Encode(m)
	}
}
