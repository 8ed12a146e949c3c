// Mutate lists and applies small changes of Go source files.
//
//	mutate list ROOT FILE...      prints JSON lines of mutants
//	mutate apply ROOT < MUTANT    writes the changed file of the mutant
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type Mutant struct {
	File     string
	Line     int
	Func     string
	Op       string
	From, To int
	Text     string
	Old      string
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
	token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

func main() {
	switch os.Args[1] {
	case "list":
		var enc = json.NewEncoder(os.Stdout)
		for _, f := range os.Args[3:] {
			for _, m := range list(os.Args[2], f) {
				enc.Encode(m)
			}
		}
	case "apply":
		var m Mutant
		if err := json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&m); err != nil {
			panic(err)
		}
		var p = filepath.Join(os.Args[2], m.File)
		src, err := os.ReadFile(p)
		if err != nil {
			panic(err)
		}
		if string(src[m.From:m.To]) != m.Old {
			panic("source differs")
		}
		os.WriteFile(p, []byte(string(src[:m.From])+m.Text+string(src[m.To:])), 0o644)
	}
}

func list(root, name string) (res []Mutant) {
	src, err := os.ReadFile(filepath.Join(root, name))
	if err != nil {
		panic(err)
	}
	var fset = token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, 0)
	if err != nil {
		panic(err)
	}
	var fn string
	var add = func(op string, from, to token.Pos, text string) {
		var a, b = fset.Position(from), fset.Position(to)
		res = append(res, Mutant{name, a.Line, fn, op, a.Offset, b.Offset, text, string(src[a.Offset:b.Offset])})
	}
	var str = func(n ast.Node) string {
		return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
	}
	var stmts = func(list []ast.Stmt) {
		for _, s := range list {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt:
				add("delete", s.Pos(), s.End(), "")
			case *ast.DeferStmt:
				add("delete", s.Pos(), s.End(), "")
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					var l []string
					for _, r := range s.Rhs {
						l = append(l, str(r))
					}
					add("delete", s.Pos(), s.End(), "_ = func() { "+strings.Repeat("_, ", len(s.Lhs)-1)+"_ = "+strings.Join(l, ", ")+" }")
				}
			case *ast.ReturnStmt:
				if len(list) == 1 || true {
					// early return is dropped, if it is not the last statement of the function
				}
			case *ast.BranchStmt:
				if s.Tok == token.BREAK {
					add("branch", s.Pos(), s.End(), "continue")
				} else if s.Tok == token.CONTINUE {
					add("branch", s.Pos(), s.End(), "break")
				}
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		fn = ""
		if ok {
			fn = fd.Name.Name
			if fd.Recv != nil {
				var t = str(fd.Recv.List[0].Type)
				fn = strings.TrimPrefix(t, "*") + "." + fn
			}
		} else if gd, ok := d.(*ast.GenDecl); ok && (gd.Tok == token.IMPORT || gd.Tok == token.TYPE) {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BinaryExpr:
				for _, t := range swaps[n.Op] {
					if (n.Op == token.ADD || n.Op == token.OR) && strings.Contains(str(n), "\"") {
						continue
					}
					add("swap "+n.Op.String()+" "+t, n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					add("left", n.Pos(), n.End(), str(n.X))
					add("right", n.Pos(), n.End(), str(n.Y))
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					add("not", n.Pos(), n.End(), str(n.X))
				}
				if n.Op == token.SUB {
					add("neg", n.Pos(), n.End(), str(n.X))
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						add("int+1", n.Pos(), n.End(), fmt.Sprint(v+1))
						if v > 0 {
							add("int-1", n.Pos(), n.End(), fmt.Sprint(v-1))
						}
					}
				}
				if n.Kind == token.CHAR {
					add("char", n.Pos(), n.End(), "'~'")
				}
				if n.Kind == token.STRING && len(n.Value) > 2 {
					add("str", n.Pos(), n.End(), `"~"`)
				}
			case *ast.Ident:
				if n.Name == "true" {
					add("bool", n.Pos(), n.End(), "false")
				} else if n.Name == "false" {
					add("bool", n.Pos(), n.End(), "true")
				}
			case *ast.IfStmt:
				add("if false", n.Cond.Pos(), n.Cond.End(), "false && ("+str(n.Cond)+")")
				add("if true", n.Cond.Pos(), n.Cond.End(), "true || ("+str(n.Cond)+")")
				if n.Else != nil {
					if b, ok := n.Else.(*ast.BlockStmt); ok {
						add("no else", b.Pos(), b.End(), "{}")
					}
				}
			case *ast.ForStmt:
				if n.Cond != nil {
					add("no loop", n.Cond.Pos(), n.Cond.End(), "false && ("+str(n.Cond)+")")
				}
			case *ast.RangeStmt:
				add("one pass", n.Body.Rbrace, n.Body.Rbrace, "\nbreak\n")
			case *ast.SliceExpr:
				if n.Low != nil {
					add("low", n.Low.Pos(), n.Low.End(), "("+str(n.Low)+")+1")
				}
				if n.High != nil {
					add("high", n.High.Pos(), n.High.End(), "("+str(n.High)+")-1")
				}
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						add("no err", r.Pos(), r.End(), "nil")
					}
				}
			}
			return true
		})
	}
	return
}
