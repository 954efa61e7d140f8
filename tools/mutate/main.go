package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"strconv"
	"strings"
)

type edit struct {
	pos, end   int
	repl, what string
}

// usage: mut FILE SEED N OUTDIR : writes OUTDIR/k.go and k.txt
func main() {
	file := os.Args[1]
	seed, _ := strconv.Atoi(os.Args[2])
	n, _ := strconv.Atoi(os.Args[3])
	out := os.Args[4]
	src, _ := os.ReadFile(file)
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var es []edit
	add := func(a, b token.Pos, r, w string) { es = append(es, edit{off(a), off(b), r, w}) }
	ast.Inspect(f, func(x ast.Node) bool {
		switch v := x.(type) {
		case *ast.GenDecl:
			if v.Tok == token.IMPORT || v.Tok == token.TYPE {
				return false
			}
		case *ast.BinaryExpr:
			m := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.OR: {"&"}, token.AND: {"|"}, token.AND_NOT: {"&"}, token.REM: {"+"}}
			for _, r := range m[v.Op] {
				add(v.OpPos, v.OpPos+token.Pos(len(v.Op.String())), r, v.Op.String()+" to "+r)
			}
		case *ast.BasicLit:
			if v.Kind == token.INT || v.Kind == token.FLOAT {
				add(v.Pos(), v.End(), "("+v.Value+"+1)", v.Value+"+1")
				if v.Value != "0" {
					add(v.Pos(), v.End(), "0", v.Value+" to 0")
				}
			}
			if v.Kind == token.STRING && len(v.Value) > 2 {
				add(v.Pos(), v.End(), v.Value[:len(v.Value)-1]+"x"+v.Value[len(v.Value)-1:], v.Value+" x")
			}
		case *ast.IfStmt:
			add(v.Cond.Pos(), v.Cond.End(), "!("+string(src[off(v.Cond.Pos()):off(v.Cond.End())])+")", "negated if")
			add(v.Cond.Pos(), v.Cond.End(), "true || ("+string(src[off(v.Cond.Pos()):off(v.Cond.End())])+")", "if true")
			add(v.Cond.Pos(), v.Cond.End(), "false && ("+string(src[off(v.Cond.Pos()):off(v.Cond.End())])+")", "if false")
		case *ast.ExprStmt:
			add(v.Pos(), v.End(), "", "dropped stmt")
		case *ast.AssignStmt:
			if v.Tok != token.DEFINE {
				l, r := string(src[off(v.Lhs[0].Pos()):off(v.Lhs[len(v.Lhs)-1].End())]), string(src[off(v.Rhs[0].Pos()):off(v.Rhs[len(v.Rhs)-1].End())])
				if len(v.Lhs) == 1 && len(v.Rhs) == 1 {
					add(v.Pos(), v.End(), "_ = "+r, "dropped assignment")
					if v.Tok == token.ADD_ASSIGN {
						add(v.Pos(), v.End(), l+" -= "+r, "-=")
						add(v.Pos(), v.End(), l+" = "+r, "= for +=")
					}
					if v.Tok == token.MUL_ASSIGN {
						add(v.Pos(), v.End(), l+" = "+r, "= for *=")
					}
				}
			}
		case *ast.IncDecStmt:
			if v.Tok == token.INC {
				add(v.TokPos, v.TokPos+2, "--", "-- for ++")
			}
		case *ast.BranchStmt:
			if v.Tok == token.CONTINUE {
				add(v.Pos(), v.End(), "break", "break for continue")
			}
			if v.Tok == token.BREAK {
				add(v.Pos(), v.End(), "", "dropped break")
			}
		case *ast.CallExpr:
			s := string(src[off(v.Fun.Pos()):off(v.Fun.End())])
			for _, p := range [][2]string{{"math.Max", "math.Min"}, {"math.Min", "math.Max"}, {"math.Sin", "math.Cos"}, {"math.Ceil", "math.Floor"}, {"math.Floor", "math.Ceil"}, {"mutils.MaxI", "mutils.MinI"}, {"mutils.MinI", "mutils.MaxI"}, {"math.Abs", ""}} {
				if s == p[0] {
					add(v.Fun.Pos(), v.Fun.End(), p[1], s+" to "+p[1])
				}
			}
			if len(v.Args) == 2 {
				a, b := string(src[off(v.Args[0].Pos()):off(v.Args[0].End())]), string(src[off(v.Args[1].Pos()):off(v.Args[1].End())])
				add(v.Args[0].Pos(), v.Args[1].End(), b+", "+a, "swapped args of "+s)
			}
		case *ast.SelectorExpr:
			for _, p := range [][2]string{{"X", "Y"}, {"Y", "X"}} {
				if v.Sel.Name == p[0] {
					add(v.Sel.Pos(), v.Sel.End(), p[1], p[0]+" to "+p[1])
				}
			}
		}
		return true
	})
	rand.New(rand.NewSource(int64(seed))).Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	if len(es) > n {
		es = es[:n]
	}
	for k, e := range es {
		res := string(src[:e.pos]) + e.repl + string(src[e.end:])
		line := 1 + strings.Count(string(src[:e.pos]), "\n")
		ls := strings.Split(string(src), "\n")
		os.WriteFile(fmt.Sprintf("%s/%d.go", out, k), []byte(res), 0644)
		os.WriteFile(fmt.Sprintf("%s/%d.txt", out, k), []byte(fmt.Sprintf("%s:%d %s | %s", file, line, e.what, strings.TrimSpace(ls[line-1]))), 0644)
	}
	fmt.Println(len(es))
}
