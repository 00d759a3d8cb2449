// mutate FILE...: lists small changes to the functions of Go files as JSON lines, for testing the checks
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"regexp"
	"strconv"
)

type mut struct {
	File, Func, Desc, New string
	Start, End, Line      int
}

var noise = regexp.MustCompile(`(?i)^(\w+\.)*(log|logger|logrus)\b|\.(Debugf|Infof|Warnf|Errorf|Debug|Info|Warn|Error|Inc|Dec|Observe|ObserveDuration|WithLabelValues|WithFields|WithField)\(|^fmt\.Print`)

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			continue
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			continue
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			if fd.Recv != nil {
				t := fd.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					name = "(*" + text(s.X) + ")." + name
				} else {
					name = text(t) + "." + name
				}
			}
			emit := func(s, e token.Pos, n, desc string) {
				enc.Encode(mut{f, name, desc, n, off(s), off(e), fset.Position(s).Line})
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ExprStmt:
					if noise.MatchString(text(x)) {
						return false
					}
					if _, ok := x.X.(*ast.CallExpr); ok {
						emit(x.Pos(), x.End(), "", "drop "+text(x.X))
					}
				case *ast.IfStmt:
					c := text(x.Cond)
					emit(x.Cond.Pos(), x.Cond.End(), "!("+c+")", "negate "+c)
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+c+")", "never "+c)
					if _, ok := x.Cond.(*ast.BinaryExpr); ok {
						emit(x.Cond.Pos(), x.Cond.End(), "true || ("+c+")", "always "+c)
					}
				case *ast.BinaryExpr:
					alt := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.LAND: "||", token.LOR: "&&", token.SUB: "+", token.MUL: "/"}
					if a, ok := alt[x.Op]; ok && !(x.Op == token.EQL || x.Op == token.NEQ) {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, x.Op.String()+" to "+a+" in "+text(x))
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x.Pos(), x.End(), text(x.X), "only left of "+text(x))
						emit(x.Pos(), x.End(), text(x.Y), "only right of "+text(x))
					}
				case *ast.AssignStmt:
					if x.Tok == token.DEFINE || noise.MatchString(text(x)) {
						return true
					}
					if len(x.Lhs) == 1 {
						r := ""
						if id, ok := x.Lhs[0].(*ast.Ident); ok {
							r = "_ = " + id.Name
						}
						emit(x.Pos(), x.End(), r, "drop "+text(x))
					}
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "", "drop "+text(x))
				case *ast.DeferStmt:
					emit(x.Pos(), x.End(), "", "drop "+text(x))
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.BREAK {
						emit(x.Pos(), x.End(), "", "drop break")
					}
					if x.Label == nil && x.Tok == token.CONTINUE {
						emit(x.Pos(), x.End(), "break", "continue to break")
						emit(x.Pos(), x.End(), "", "drop continue")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.Atoi(x.Value); err == nil {
							emit(x.Pos(), x.End(), strconv.Itoa(v+1), x.Value+" to "+strconv.Itoa(v+1))
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false", "true to false")
					} else if x.Name == "false" {
						emit(x.Pos(), x.End(), "true", "false to true")
					}
				case *ast.CallExpr:
					if noise.MatchString(text(x)) {
						return false
					}
				}
				return true
			})
		}
	}
}
