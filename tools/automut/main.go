//go:build ignore

// automut prints one JSON object per small syntactic change of the given Go
// files: {"file","start","end","new","op","line"}; offsets are in bytes.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Op    string `json:"op"`
	Line  int    `json:"line"`
	Fn    string `json:"fn"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		put := func(n ast.Node, nw, op string) {
			enc.Encode(mut{f, off(n.Pos()), off(n.End()), nw, op, fs.Position(n.Pos()).Line, fn})
		}
		isLog := func(s string) bool {
			for _, x := range []string{"appLogger", ".log().", ".l.", "log.", "fmt.Print", "fmt.Fprint"} {
				if strings.Contains(s, x) && !strings.Contains(s, "=") {
					return true
				}
			}
			return strings.HasPrefix(s, "hclog.") || strings.HasPrefix(s, "l.") || strings.HasPrefix(s, "log(")
		}
		errish := func(e ast.Expr) bool {
			t := text(e)
			return t == "err" || strings.HasPrefix(t, "Err") || strings.Contains(t, ".Err") || strings.HasPrefix(t, "status.")
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ExprStmt:
					if !isLog(text(x)) {
						put(x, "{}", "drop call")
					} else {
						return false
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						put(x, "{}", "drop assign")
					}
				case *ast.DeferStmt:
					put(x, "{}", "drop defer")
				case *ast.GoStmt:
					put(x, text(x.Call), "no go")
				case *ast.IfStmt:
					put(x.Cond, "!("+text(x.Cond)+")", "negate")
					if text(x.Cond) != "err != nil" {
						put(x.Cond, "true || ("+text(x.Cond)+")", "always")
					}
					put(x.Cond, "false && ("+text(x.Cond)+")", "never")
				case *ast.BinaryExpr:
					ops := map[token.Token][]string{token.LAND: {"||"}, token.LOR: {"&&"}, token.EQL: nil, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"}}
					for _, o := range ops[x.Op] {
						put(x, text(x.X)+" "+o+" "+text(x.Y), x.Op.String()+"→"+o)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						put(x, text(x.X), "left only")
						put(x, text(x.Y), "right only")
					}
				case *ast.ReturnStmt:
					if k := len(x.Results); k > 0 && errish(x.Results[k-1]) {
						put(x.Results[k-1], "nil", "swallow")
					}
				case *ast.BranchStmt:
					if x.Label == nil {
						switch x.Tok {
						case token.CONTINUE:
							put(x, "break", "continue→break")
						case token.BREAK:
							put(x, "{}", "drop break")
						}
					}
				case *ast.BasicLit:
					if x.Kind == token.INT && !strings.HasPrefix(fn, "New") {
						put(x, "("+x.Value+"+1)", "+1")
						if x.Value != "0" {
							put(x, "("+x.Value+"-1)", "-1")
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						put(x, "false", "true→false")
					} else if x.Name == "false" {
						put(x, "true", "false→true")
					}
				case *ast.CaseClause:
					if len(x.List) > 0 && len(x.Body) > 0 {
						enc.Encode(mut{f, off(x.Body[0].Pos()), off(x.Body[len(x.Body)-1].End()), "{}", "empty case", fs.Position(x.Pos()).Line, fn})
					}
				}
				return true
			})
		}
	}
}
