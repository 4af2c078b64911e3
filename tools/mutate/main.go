// Command mutate lists small changes to Go files: mutate [-seed n] files...
// prints one JSON object per line, {"id","file","line","op","from","to","start","end"},
// of which [start,end) is what of the file is to be replaced with "to".
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mutant struct {
	ID    string `json:"id"`
	File  string `json:"file"`
	Line  int    `json:"line"`
	Op    string `json:"op"`
	From  string `json:"from"`
	To    string `json:"to"`
	Start int    `json:"start"`
	End   int    `json:"end"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		n := 0
		seen := map[string]bool{}
		add := func(op string, from, to token.Pos, text string) {
			a, b := fset.Position(from).Offset, fset.Position(to).Offset
			k := fmt.Sprint(a, b, text)
			if string(src[a:b]) == text || seen[k] {
				return
			}
			seen[k] = true
			n++
			enc.Encode(mutant{fmt.Sprintf("%s-%d", strings.TrimSuffix(filepath.Base(file), ".go"), n), file, fset.Position(from).Line, op, string(src[a:b]), text, a, b})
		}
		text := func(n ast.Node) string {
			return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
		}
		lists := func(list []ast.Stmt) {
			for i, s := range list {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
					add("delete statement", s.Pos(), s.End(), "")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						add("delete statement", s.Pos(), s.End(), "")
					}
				case *ast.IfStmt:
					add("delete if", s.Pos(), s.End(), "")
				case *ast.ForStmt, *ast.RangeStmt:
					add("delete loop", s.Pos(), s.End(), "")
				}
				if i+1 < len(list) {
					// swap neighbours
					a, b := list[i], list[i+1]
					_, ok1 := a.(*ast.ExprStmt)
					_, ok2 := b.(*ast.ExprStmt)
					if ok1 && ok2 {
						add("swap statements", a.Pos(), b.End(), text(b)+"\n"+text(a))
					}
				}
			}
		}
		ast.Inspect(f, func(nd ast.Node) bool {
			switch x := nd.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BlockStmt:
				lists(x.List)
			case *ast.CaseClause:
				lists(x.Body)
				for _, e := range x.List {
					if len(x.List) > 1 {
						add("other case", e.Pos(), e.End(), `"\x00"`)
					}
				}
				if len(x.List) > 0 {
					add("empty case", x.Colon+1, x.End(), "")
				}
			case *ast.IfStmt:
				c := text(x.Cond)
				add("negate", x.Cond.Pos(), x.Cond.End(), "!("+c+")")
				add("never", x.Cond.Pos(), x.Cond.End(), "false && ("+c+")")
				add("always", x.Cond.Pos(), x.Cond.End(), "true || ("+c+")")
			case *ast.BinaryExpr:
				swap := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!=", "<=", ">="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}}
				for _, t := range swap[x.Op] {
					add("operator", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					add("left only", x.Pos(), x.End(), text(x.X))
					add("right only", x.Pos(), x.End(), text(x.Y))
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT || x.Op == token.SUB {
					add("drop operator", x.OpPos, x.OpPos+1, "")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						add("number", x.Pos(), x.End(), fmt.Sprint(v+1))
						add("number", x.Pos(), x.End(), fmt.Sprint(v-1))
					}
				} else if x.Kind == token.STRING && len(x.Value) > 2 && x.Value[0] == '"' {
					add("longer text", x.End()-1, x.End()-1, "x")
					add("empty text", x.Pos(), x.End(), `""`)
					if v, err := strconv.Unquote(x.Value); err == nil && len(v) > 1 {
						add("shorter text", x.Pos(), x.End(), strconv.Quote(v[:len(v)-1]))
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					add("boolean", x.Pos(), x.End(), "false")
				} else if x.Name == "false" {
					add("boolean", x.Pos(), x.End(), "true")
				}
			case *ast.ReturnStmt:
				if k := len(x.Results); k > 0 {
					last := x.Results[k-1]
					if id, ok := last.(*ast.Ident); ok && strings.HasPrefix(id.Name, "err") {
						add("no error", last.Pos(), last.End(), "nil")
					}
				}
			case *ast.CompositeLit:
				for _, e := range x.Elts {
					end := e.End()
					o := fset.Position(end).Offset
					if o < len(src) && src[o] == ',' {
						end++
					}
					add("delete element", e.Pos(), end, "")
				}
				for i := 0; i+1 < len(x.Elts); i++ {
					a, b := x.Elts[i], x.Elts[i+1]
					if _, ok := a.(*ast.KeyValueExpr); !ok && len(x.Elts) < 60 {
						add("swap elements", a.Pos(), b.End(), text(b)+", "+text(a))
					}
				}
			case *ast.StructType:
				for i, fl := range x.Fields.List {
					if fl.Tag != nil {
						v := fl.Tag.Value
						if strings.Contains(v, ",omitempty") {
							add("no omitempty", fl.Tag.Pos(), fl.Tag.End(), strings.Replace(v, ",omitempty", "", 1))
						} else if strings.HasSuffix(v, "\"`") && !strings.Contains(v, "xml:\"-\"") {
							add("omitempty", fl.Tag.Pos(), fl.Tag.End(), strings.TrimSuffix(v, "\"`")+",omitempty\"`")
						}
						add("other name", fl.Tag.Pos(), fl.Tag.End(), strings.Replace(strings.Replace(v, ",omitempty", "X,omitempty", 1), "\"`", "X\"`", 1))
						if i+1 < len(x.Fields.List) && x.Fields.List[i+1].Tag != nil {
							g := x.Fields.List[i+1]
							add("swap fields", fl.Pos(), g.Tag.End(), text(g.Names[0])+" "+text(g.Type)+" "+g.Tag.Value+"\n"+text(fl.Names[0])+" "+text(fl.Type)+" "+fl.Tag.Value)
						}
					}
				}
			case *ast.BranchStmt:
				if x.Label == nil && (x.Tok == token.BREAK || x.Tok == token.CONTINUE) {
					add("delete branch", x.Pos(), x.End(), "")
				}
			case *ast.RangeStmt:
				add("first only", x.Body.Rbrace, x.Body.Rbrace+1, "break }")
			case *ast.CallExpr:
				if len(x.Args) == 1 {
					if s, ok := x.Fun.(*ast.SelectorExpr); ok && strings.HasPrefix(s.Sel.Name, "Trim") {
						add("argument", x.Pos(), x.End(), text(x.Args[0]))
					}
				}
			}
			return true
		})
	}
}
