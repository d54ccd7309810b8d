// mutate lists or applies small changes to Go source files (a development
// tool for finding gaps in the checks; no check uses it).
//
//	mutate list FILE...          one line per change: id file:line description
//	mutate apply ROOT ID FILE... applies a change in place
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"strconv"
	"strings"
)

type edit struct {
	file     string
	line     int
	from, to int
	text     string
	desc     string
}

func edits(path string) []edit {
	src, err := ioutil.ReadFile(path)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, 0)
	if err != nil {
		panic(err)
	}
	var out []edit
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(a, b token.Pos, text string) {
		old := string(src[off(a):off(b)])
		d := strings.Replace(old, "\n", " ", -1)
		if len(d) > 60 {
			d = d[:60] + ".."
		}
		t := text
		if len(t) > 60 {
			t = t[:60] + ".."
		}
		out = append(out, edit{path, fs.Position(a).Line, off(a), off(b), text, d + "  =>  " + strings.Replace(t, "\n", " ", -1)})
	}
	str := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	isDebug := func(n ast.Node) bool { return strings.Contains(str(n), "pdebug.") }
	simple := func(b *ast.BlockStmt) bool {
		if len(b.List) == 0 {
			return false
		}
		switch b.List[len(b.List)-1].(type) {
		case *ast.ReturnStmt, *ast.BranchStmt:
			return true
		}
		return false
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.IfStmt:
			if strings.Contains(str(x.Cond), "pdebug") {
				return false
			}
			add(x.Cond.Pos(), x.Cond.End(), "false && ("+str(x.Cond)+")")
			if !simple(x.Body) {
				add(x.Cond.Pos(), x.Cond.End(), "true || ("+str(x.Cond)+")")
			}
		case *ast.DeferStmt:
			if isDebug(x) {
				return false
			}
			add(x.Pos(), x.End(), "")
		case *ast.ExprStmt:
			if isDebug(x) {
				return false
			}
			add(x.Pos(), x.End(), "")
		case *ast.IncDecStmt:
			add(x.Pos(), x.End(), "")
		case *ast.AssignStmt:
			if isDebug(x) {
				return false
			}
			if x.Tok != token.DEFINE {
				var blanks []string
				for range x.Lhs {
					blanks = append(blanks, "_")
				}
				if x.Tok == token.ASSIGN {
					add(x.Lhs[0].Pos(), x.Lhs[len(x.Lhs)-1].End(), strings.Join(blanks, ", "))
				} else {
					add(x.Pos(), x.End(), "")
				}
			}
		case *ast.BinaryExpr:
			alts := map[token.Token][]string{
				token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
				token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"},
			}
			for _, a := range alts[x.Op] {
				if x.Op == token.ADD && strings.Contains(str(x), `"`) {
					continue
				}
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a)
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x.Pos(), x.End(), "("+str(x.X)+")")
				add(x.Pos(), x.End(), "("+str(x.Y)+")")
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x.Pos(), x.End(), strconv.FormatInt(v+1, 10))
					if v > 0 {
						add(x.Pos(), x.End(), strconv.FormatInt(v-1, 10))
					}
				}
			case token.CHAR:
				if v, _, _, err := strconv.UnquoteChar(x.Value[1:len(x.Value)-1], '\''); err == nil {
					add(x.Pos(), x.End(), strconv.QuoteRune(v+1))
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), x.End(), "false")
			} else if x.Name == "false" {
				add(x.Pos(), x.End(), "true")
			}
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.BREAK {
				add(x.Pos(), x.End(), "")
			}
			if x.Label == nil && x.Tok == token.CONTINUE {
				add(x.Pos(), x.End(), "break")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.Pos(), x.End(), str(x.X))
			}
		case *ast.CaseClause:
			if len(x.List) > 1 {
				for i := range x.List {
					if i > 0 {
						add(x.List[i-1].End(), x.List[i].End(), "")
					} else {
						add(x.List[0].Pos(), x.List[1].Pos(), "")
					}
				}
			}
		case *ast.GenDecl:
			return x.Tok != token.IMPORT
		}
		return true
	})
	return out
}

func main() {
	switch os.Args[1] {
	case "list":
		for _, f := range os.Args[2:] {
			for i, e := range edits(f) {
				fmt.Printf("%s#%d:%d %s\n", f, i, e.line, e.desc)
			}
		}
	case "apply":
		id := os.Args[2]
		p := strings.Split(strings.Split(id, ":")[0], "#")
		k, _ := strconv.Atoi(p[1])
		e := edits(p[0])[k]
		src, _ := ioutil.ReadFile(p[0])
		out := string(src[:e.from]) + e.text + string(src[e.to:])
		if err := ioutil.WriteFile(p[0], []byte(out), 0644); err != nil {
			panic(err)
		}
	}
}
