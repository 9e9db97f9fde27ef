// Command mutate lists small source mutations of Go files as JSON lines
// {"file","start","end","new","op","line"}. It is a development aid: the checks
// never run it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Op    string `json:"op"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		emit := func(s, e token.Pos, repl, op string) {
			enc.Encode(mut{file, off(s), off(e), repl, op, fs.Position(s).Line, fn})
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				if gd, ok := d.(*ast.GenDecl); ok && (gd.Tok == token.CONST || gd.Tok == token.VAR) {
					fn = "decl"
					for _, s := range gd.Specs {
						for _, v := range s.(*ast.ValueSpec).Values {
							lits(v, emit, text)
						}
					}
				}
				continue
			}
			fn = fd.Name.Name
			walk(fd.Body, emit, text)
		}
	}
}

func lits(n ast.Node, emit func(s, e token.Pos, r, op string), text func(ast.Node) string) {
	ast.Inspect(n, func(n ast.Node) bool {
		if l, ok := n.(*ast.BasicLit); ok {
			lit(l, emit)
		}
		return true
	})
}

func lit(l *ast.BasicLit, emit func(s, e token.Pos, r, op string)) {
	switch l.Kind {
	case token.INT:
		if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
			emit(l.Pos(), l.End(), fmt.Sprint(v+1), "int+1")
			if v > 0 {
				emit(l.Pos(), l.End(), fmt.Sprint(v-1), "int-1")
			}
		}
	case token.STRING:
		if v, err := strconv.Unquote(l.Value); err == nil {
			if v == "" {
				emit(l.Pos(), l.End(), `"zz"`, "str")
			} else {
				emit(l.Pos(), l.End(), strconv.Quote(v+"z"), "str")
			}
		}
	}
}

func walk(body ast.Node, emit func(s, e token.Pos, r, op string), text func(ast.Node) string) {
	stmts := func(list []ast.Stmt) {
		for i, s := range list {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt:
				emit(s.Pos(), s.End(), "", "del "+strings.SplitN(text(s), "\n", 2)[0])
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					emit(s.Pos(), s.End(), "", "del "+strings.SplitN(text(s), "\n", 2)[0])
				}
			case *ast.ReturnStmt:
				if i == len(list)-1 && len(s.Results) == 0 {
					emit(s.Pos(), s.End(), "", "del return")
				}
			case *ast.IfStmt:
				if s.Else == nil && s.Init == nil {
					emit(s.Pos(), s.End(), "_ = "+text(s.Cond), "drop if "+text(s.Cond))
				}
			case *ast.ForStmt, *ast.RangeStmt:
				emit(s.Pos(), s.End(), "", "del loop")
			}
			if i+1 < len(list) {
				a, b := s, list[i+1]
				if simple(a) && simple(b) {
					emit(a.Pos(), b.End(), text(b)+"\n"+text(a), "swap stmts")
				}
			}
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.BinaryExpr:
			for _, s := range swaps[n.Op] {
				emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, n.Op.String()+" -> "+s)
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				emit(n.Pos(), n.End(), text(n.X), "drop right of "+n.Op.String())
				emit(n.Pos(), n.End(), text(n.Y), "drop left of "+n.Op.String())
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				emit(n.Pos(), n.End(), text(n.X), "drop !")
			}
			if n.Op == token.SUB {
				emit(n.Pos(), n.End(), text(n.X), "drop -")
			}
		case *ast.IfStmt:
			if _, ok := n.Cond.(*ast.BinaryExpr); !ok {
				emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate")
			}
		case *ast.ForStmt:
			if n.Cond != nil {
				if _, ok := n.Cond.(*ast.BinaryExpr); !ok {
					emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate")
				}
			}
		case *ast.BranchStmt:
			if n.Label == nil && n.Tok == token.BREAK {
				emit(n.Pos(), n.End(), "continue", "break->continue")
			}
			if n.Label == nil && n.Tok == token.CONTINUE {
				emit(n.Pos(), n.End(), "break", "continue->break")
			}
		case *ast.BasicLit:
			lit(n, emit)
		case *ast.Ident:
			if n.Name == "true" {
				emit(n.Pos(), n.End(), "false", "true->false")
			}
			if n.Name == "false" {
				emit(n.Pos(), n.End(), "true", "false->true")
			}
		case *ast.ReturnStmt:
			if len(n.Results) > 0 {
				l := n.Results[len(n.Results)-1]
				if id, ok := l.(*ast.Ident); !ok || id.Name != "nil" {
					emit(l.Pos(), l.End(), "nil", "return nil for "+text(l))
				}
			}
		case *ast.IncDecStmt:
			r := "--"
			if n.Tok == token.DEC {
				r = "++"
			}
			emit(n.TokPos, n.TokPos+2, r, "inc<->dec")
		case *ast.AssignStmt:
			if n.Tok == token.ADD_ASSIGN {
				emit(n.TokPos, n.TokPos+2, "-=", "+=->-=")
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(n.Args); i++ {
				emit(n.Args[i].Pos(), n.Args[i+1].End(), text(n.Args[i+1])+", "+text(n.Args[i]), "swap args of "+strings.SplitN(text(n.Fun), "\n", 2)[0])
			}
			if s, ok := n.Fun.(*ast.SelectorExpr); ok {
				if alt, ok := renames[s.Sel.Name]; ok {
					emit(s.Sel.Pos(), s.Sel.End(), alt, s.Sel.Name+" -> "+alt)
				}
				if len(n.Args) == 1 && unwrap[s.Sel.Name] {
					emit(n.Pos(), n.End(), text(n.Args[0]), "unwrap "+s.Sel.Name)
				}
			}
		case *ast.CompositeLit:
			for _, el := range n.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					// blank the field
					end := kv.End()
					emit(kv.Pos(), end, "/**/", "drop "+text(kv.Key)) // trailing comma handled by caller
				}
			}
		case *ast.SliceExpr:
			if n.Low != nil && n.High == nil {
				emit(n.Pos(), n.End(), text(n.X)+"[:"+text(n.Low)+"]", "slice side")
			}
		case *ast.SelectorExpr:
			if alt, ok := renames[n.Sel.Name]; ok {
				_ = alt
			}
		}
		return true
	})
}

var renames = map[string]string{
	"Lock": "RLock", "Unlock": "RUnlock", "RLock": "Lock", "RUnlock": "Unlock",
	"HasPrefix": "HasSuffix", "TrimPrefix": "TrimSuffix", "TrimSuffix": "TrimPrefix",
	"Contains": "HasPrefix", "EqualFold": "Contains", "Before": "After", "After": "Before",
	"PutUint32": "PutUint16", "Load": "Swap",
	"BigEndian": "LittleEndian", "Index": "LastIndex", "LastIndex": "Index", "Is": "As",
	"PathEscape": "QueryEscape", "QueryEscape": "PathEscape", "Add": "Set", "Set": "Add",
}

var unwrap = map[string]bool{"TrimSpace": true, "ToLower": true, "PathEscape": true, "QueryEscape": true, "Clone": true, "Trim": true}

func simple(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
		return true
	case *ast.AssignStmt:
		return s.Tok != token.DEFINE || true
	}
	return false
}
