// mutate lists small changes of a Go file: offset, length, replacement.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File, Func, Desc string
	Line, Off, Len   int
	Text             string
}

// guards lists rare-ish states per receiver type: with "-guards" the mutants are
// statements and conditions that go wrong only there.
var guards = map[string][]string{
	"spanScreen": {"$.autoWrap", "$.topMargin > 0", "$.bottomMargin < $.size.Y-1", "$.cursorPos.X == $.size.X-1",
		"$.cursorPos.Y == $.size.Y-1", "$.cursorPos.Y > $.bottomMargin", "$.cursorPos.Y < $.topMargin", "$.savedCursorPos.Y > 0",
		"$.cursorPos.Y < len($.lines) && len($.lines[$.cursorPos.Y].spans) > 3", "$.style != NewStyle()", "$.textMode == TextReadModeRune",
		"$.size.X < $.size.Y", "$.topMargin == $.bottomMargin", "$.cursorPos == $.savedCursorPos"},
	"gridScreen": {"$.autoWrap", "$.topMargin > 0", "$.bottomMargin < $.size.Y-1", "$.cursorPos.X == $.size.X-1",
		"$.cursorPos.Y == $.size.Y-1", "$.cursorPos.Y > $.bottomMargin", "$.cursorPos.Y < $.topMargin", "$.savedCursorPos.Y > 0",
		"$.size.X < $.size.Y"},
	"terminal": {"$.onAltScreen", "$.screen().AutoWrap()", "$.screen().TopMargin() > 0", "$.screen().CursorPos().X == $.screen().Size().X-1",
		"$.screen().CursorPos().Y > $.screen().BottomMargin()", "$.viewFlags[VFAppKeypad]", "$.viewFlags[VFReportFocus]", "!$.viewFlags[VFShowCursor]",
		"len($.keyboardMain.stack) > 1", "len($.keyboardAlt.stack) > 0", "$.viewInts[VIMouseMode] == MMPressReleaseMove", "$.viewInts[VIMouseEncoding] == MEUTF8"},
	"TTYFrontend":    {"!$.focused", "!$.attached", "$.region.X > 0", "$.region.Y > 0"},
	"GraphemeReader": {"$.start > 0", "$.end == len($.data)", "$.end-$.start == 1"},
	"Style":          {"$.TestMode(ModeInvisible)", "$.TestMode(ModeOverline)"},
	"keyboardMode":   {"len($.stack) > 2", "$.flags > 15"},
}

func main() {
	var out []mut
	useGuards := os.Args[1] == "-guards"
	if useGuards {
		os.Args = os.Args[1:]
	}
	for _, file := range os.Args[1:] {
		src, _ := os.ReadFile(file)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		pos := func(p token.Pos) int { return fs.Position(p).Offset }
		str := func(n ast.Node) string { return string(src[pos(n.Pos()):pos(n.End())]) }
		add := func(off, n int, text, desc string) {
			line := 1
			for _, b := range src[:off] {
				if b == '\n' {
					line++
				}
			}
			out = append(out, mut{file, fn, desc, line, off, n, text})
		}
		var ps []string
		if useGuards {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || fd.Recv == nil || len(fd.Recv.List) != 1 || len(fd.Recv.List[0].Names) != 1 {
					continue
				}
				fn = fd.Name.Name
				ps = nil
				for _, g := range guards[strings.TrimPrefix(str(fd.Recv.List[0].Type), "*")] {
					ps = append(ps, strings.ReplaceAll(g, "$", fd.Recv.List[0].Names[0].Name))
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					for _, p := range ps {
						switch n := n.(type) {
						case *ast.IfStmt:
							if n.Init == nil {
								add(pos(n.Cond.Pos()), len(str(n.Cond)), "("+str(n.Cond)+") && !("+p+")", "if "+str(n.Cond)+" not when "+p)
								add(pos(n.Cond.Pos()), len(str(n.Cond)), "("+str(n.Cond)+") || "+p, "if "+str(n.Cond)+" or when "+p)
							}
						case *ast.ExprStmt, *ast.IncDecStmt:
							add(pos(n.Pos()), len(str(n)), "if !("+p+") { "+str(n)+" }", "drop "+str(n)+" when "+p)
						case *ast.AssignStmt:
							if n.Tok != token.DEFINE {
								add(pos(n.Pos()), len(str(n)), "if !("+p+") { "+str(n)+" }", "drop "+str(n)+" when "+p)
							}
						}
					}
					return true
				})
			}
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				return n.Tok != token.IMPORT && n.Tok != token.CONST
			case *ast.FuncDecl:
				fn = n.Name.Name
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{
					token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.MUL: {"+"},
				}[n.Op]
				for _, a := range alt {
					add(pos(n.OpPos), len(n.Op.String()), a, str(n)+": "+n.Op.String()+" becomes "+a)
				}
			case *ast.IfStmt:
				add(pos(n.Cond.Pos()), len(str(n.Cond)), "false && ("+str(n.Cond)+")", "if "+str(n.Cond)+" never")
				add(pos(n.Cond.Pos()), len(str(n.Cond)), "true || ("+str(n.Cond)+")", "if "+str(n.Cond)+" always")
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						add(pos(n.Pos()), len(n.Value), fmt.Sprint(v+1), n.Value+" becomes "+fmt.Sprint(v+1))
						if v > 0 {
							add(pos(n.Pos()), len(n.Value), fmt.Sprint(v-1), n.Value+" becomes "+fmt.Sprint(v-1))
						}
					}
				}
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
				add(pos(n.Pos()), len(str(n)), "{}", "drop "+str(n))
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					add(pos(n.Pos()), len(str(n)), "{}", "drop "+str(n))
				}
				if n.Tok == token.ADD_ASSIGN {
					add(pos(n.TokPos), 2, "-=", str(n)+" becomes -=")
				}
				if n.Tok == token.SUB_ASSIGN {
					add(pos(n.TokPos), 2, "+=", str(n)+" becomes +=")
				}
			case *ast.BranchStmt:
				if n.Label == nil && n.Tok == token.CONTINUE {
					add(pos(n.Pos()), len(str(n)), "break", "continue becomes break")
				}
				if n.Label == nil && n.Tok == token.BREAK {
					add(pos(n.Pos()), len(str(n)), "{}", "drop break")
				}
			case *ast.Ident:
				if n.Name == "true" {
					add(pos(n.Pos()), 4, "false", "true becomes false")
				}
				if n.Name == "false" {
					add(pos(n.Pos()), 5, "true", "false becomes true")
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "min" || id.Name == "max") {
					o := map[string]string{"min": "max", "max": "min"}[id.Name]
					add(pos(id.Pos()), 3, o, str(n)+" becomes "+o)
				}
			}
			return true
		})
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
}
