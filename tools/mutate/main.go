// mutate lists small changes to the functions of a Go module, as JSON lines.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type mutant struct {
	File, Func, Kind, Old, New string
	Line, From, To             int
}

var (
	fset = token.NewFileSet()
	src  []byte
	file string
	fn   string
	out  []mutant
)

func text(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
func off(p token.Pos) int    { return fset.Position(p).Offset }

func add(kind string, from, to token.Pos, s string) {
	a, b := off(from), off(to)
	if string(src[a:b]) == s {
		return
	}
	out = append(out, mutant{file, fn, kind, string(src[a:b]), s, fset.Position(from).Line, a, b})
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
	token.AND: {"|"}, token.OR: {"&"}, token.AND_NOT: {"&"},
}
var assigns = map[token.Token]string{
	token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.AND_NOT_ASSIGN: "|=", token.OR_ASSIGN: "&=",
}
var names = map[string]string{
	"X": "Y", "Y": "X", "Width": "Height", "Height": "Width", "Left": "Right", "Right": "Left", "Top": "Bottom", "Bottom": "Top",
	"Fg": "Bg", "Bg": "Fg", "Foreground": "Background", "Background": "Foreground",
	"HasPrefix": "HasSuffix", "TrimLeft": "TrimRight", "TrimSuffix": "TrimPrefix",
	"Min": "Max", "Max": "Min", "First": "Last", "Last": "First", "Floor": "Ceil", "Round": "Floor", "Ceil": "Floor",
	"Vertical": "Horizontal", "Horizontal": "Vertical", "Begin": "End", "End": "Begin",
}

func visit(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.IfStmt:
		add("negate", n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")")
		if n.Else == nil {
			add("never", n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && 0 == len(\"x\")")
			add("always", n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || 1 == len(\"x\")")
		}
	case *ast.BinaryExpr:
		for _, s := range swaps[n.Op] {
			add("op", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s)
		}
		if n.Op == token.LAND || n.Op == token.LOR {
			add("left", n.Pos(), n.End(), text(n.X))
			add("right", n.Pos(), n.End(), text(n.Y))
		}
	case *ast.AssignStmt:
		if s, ok := assigns[n.Tok]; ok {
			add("assign", n.TokPos, n.TokPos+token.Pos(len(n.Tok.String())), s)
			add("assign", n.TokPos, n.TokPos+token.Pos(len(n.Tok.String())), "=")
		}
		if n.Tok != token.DEFINE {
			add("drop", n.Pos(), n.End(), "")
		}
	case *ast.ExprStmt:
		add("drop", n.Pos(), n.End(), "")
	case *ast.DeferStmt:
		add("drop", n.Pos(), n.End(), "")
		add("nodefer", n.Pos(), n.Call.Pos(), "")
	case *ast.IncDecStmt:
		add("drop", n.Pos(), n.End(), "")
	case *ast.BranchStmt:
		if n.Label == nil {
			switch n.Tok {
			case token.BREAK:
				add("branch", n.Pos(), n.End(), "continue")
			case token.CONTINUE:
				add("branch", n.Pos(), n.End(), "break")
			}
		}
		add("drop", n.Pos(), n.End(), "")
	case *ast.ReturnStmt:
		add("drop", n.Pos(), n.End(), "")
	case *ast.BasicLit:
		if n.Kind == token.INT {
			if v, err := strconv.Atoi(n.Value); err == nil {
				add("int", n.Pos(), n.End(), strconv.Itoa(v+1))
				if v > 0 {
					add("int", n.Pos(), n.End(), strconv.Itoa(v-1))
				}
			}
		}
		if n.Kind == token.CHAR {
			add("char", n.Pos(), n.End(), "'~'")
		}
		if n.Kind == token.STRING && len(n.Value) > 2 && len(n.Value) < 12 {
			add("string", n.Pos(), n.End(), `"~"`)
		}
	case *ast.Ident:
		switch n.Name {
		case "true":
			add("bool", n.Pos(), n.End(), "false")
		case "false":
			add("bool", n.Pos(), n.End(), "true")
		}
	case *ast.UnaryExpr:
		if n.Op == token.NOT {
			add("not", n.Pos(), n.X.Pos(), "")
		}
		if n.Op == token.SUB {
			add("neg", n.Pos(), n.X.Pos(), "")
		}
	case *ast.SelectorExpr:
		if s, ok := names[n.Sel.Name]; ok {
			add("name", n.Sel.Pos(), n.Sel.End(), s)
		}
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "min" || id.Name == "max") {
			add("minmax", id.Pos(), id.End(), map[string]string{"min": "max", "max": "min"}[id.Name])
			for _, a := range n.Args {
				add("clamp", n.Pos(), n.End(), text(a))
			}
		}
		if sel, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 1 {
			_ = sel
			add("nocall", n.Pos(), n.End(), text(n.Args[0]))
		}
	case *ast.CaseClause:
		if len(n.List) > 1 {
			for i, e := range n.List {
				to := e.End()
				from := e.Pos()
				if i+1 < len(n.List) {
					to = n.List[i+1].Pos()
				} else {
					from = n.List[i-1].End()
				}
				add("case", from, to, "")
			}
		}
	case *ast.SliceExpr:
		if n.Low != nil {
			add("slice", n.Low.Pos(), n.Low.End(), text(n.Low)+"+1")
		}
		if n.High != nil {
			add("slice", n.High.Pos(), n.High.End(), text(n.High)+"-1")
		}
	case *ast.SelectStmt, *ast.FuncLit:
	case *ast.CommClause:
	}
	return true
}

func main() {
	root := os.Args[1]
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		rel, _ := filepath.Rel(root, p)
		if i.IsDir() && (strings.HasPrefix(i.Name(), ".") && i.Name() != "." || i.Name() == "examples" || i.Name() == "example") {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.HasSuffix(p, "_windows.go") || strings.HasSuffix(p, "_other.go") {
			return nil
		}
		src, _ = os.ReadFile(p)
		file = rel
		f, err := parser.ParseFile(fset, p, src, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return nil
		}
		pkg := filepath.Dir(rel)
		if pkg == "." {
			pkg = "bento"
		} else {
			pkg = "bento/" + pkg
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body == nil {
					continue
				}
				fn = pkg + "." + d.Name.Name
				if d.Recv != nil {
					t := text(d.Recv.List[0].Type)
					t = strings.Split(t, "[")[0]
					if strings.HasPrefix(t, "*") {
						fn = "(*" + pkg + "." + t[1:] + ")." + d.Name.Name
					} else {
						fn = "(" + pkg + "." + t + ")." + d.Name.Name
					}
				}
				ast.Inspect(d.Body, visit)
			case *ast.GenDecl:
				if d.Tok == token.VAR {
					fn = pkg + ".init"
					ast.Inspect(d, visit)
				}
			}
		}
		return nil
	})
	sort.SliceStable(out, func(i, j int) bool { return out[i].File < out[j].File || out[i].File == out[j].File && out[i].From < out[j].From })
	for _, m := range out {
		b, _ := json.Marshal(m)
		fmt.Println(string(b))
	}
}
