// Command mutate is a development tool: it edits functions of the repository, one
// place at a time, and lists the edits on which the given checks stay quiet
// (mode mutate) or raise an alarm (mode refactor). No check uses it.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	File string
	Src  []byte
	Desc string
	Fn   string
}

var fset *token.FileSet

func text(n any) string {
	var b bytes.Buffer
	printer.Fprint(&b, fset, n)
	return b.String()
}

func main() {
	repo := flag.String("repo", "/repo", "")
	an := flag.String("an", "/tmp/an", "")
	pkg := flag.String("pkg", "", "package, relative")
	props := flag.String("props", "", "")
	mode := flag.String("mode", "mutate", "")
	fnf := flag.String("fn", "", "only functions whose name contains this")
	filef := flag.String("file", "", "only files whose name contains this")
	only := flag.String("only", "", "only edits whose description contains this")
	workers := flag.Int("j", 8, "")
	limit := flag.Int("max", 100000, "")
	list := flag.Bool("list", false, "")
	flag.Parse()
	cfg := &packages.Config{Dir: *repo, Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps,
		Env: append(os.Environ(), "GOFLAGS=-mod=vendor", "GOPROXY=off")}
	pkgs, err := packages.Load(cfg, "./"+*pkg)
	if err != nil {
		panic(err)
	}
	edits := []edit{}
	for _, p := range pkgs {
		fset = p.Fset
		for _, f := range p.Syntax {
			name := fset.Position(f.Pos()).Filename
			if strings.HasSuffix(name, "_test.go") || strings.Contains(name, "test_helper") || !strings.Contains(filepath.Base(name), *filef) {
				continue
			}
			src, _ := os.ReadFile(name)
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || !strings.Contains(fd.Name.Name, *fnf) {
					continue
				}
				g := &gen{p: p, file: name, src: src, fd: fd, f: f}
				if *mode == "mutate" {
					g.mutate()
				} else {
					g.refactor()
				}
				edits = append(edits, g.out...)
			}
		}
	}
	es := []edit{}
	for _, e := range edits {
		if strings.Contains(e.Desc, *only) {
			es = append(es, e)
		}
	}
	edits = es
	if len(edits) > *limit {
		// spread
		step := float64(len(edits)) / float64(*limit)
		pick := []edit{}
		for i := 0; i < *limit; i++ {
			pick = append(pick, edits[int(float64(i)*step)])
		}
		edits = pick
	}
	if *list {
		for _, e := range edits {
			fmt.Println(e.Fn, e.Desc)
		}
		return
	}
	type res struct {
		e    edit
		out  string
		kind string
	}
	results := make([]res, len(edits))
	ch := make(chan int)
	var wg sync.WaitGroup
	tmp, _ := os.MkdirTemp("", "mut")
	defer os.RemoveAll(tmp)
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			dir := filepath.Join(tmp, fmt.Sprint(w))
			os.MkdirAll(dir, 0o755)
			for i := range ch {
				e := edits[i]
				nf := filepath.Join(dir, "x.go")
				os.WriteFile(nf, e.Src, 0o644)
				cmd := exec.Command("timeout", "300", *an, "-repo", *repo, "-overlay", e.File+"="+nf, "-property", *props, "-verif", dir)
				b, err := cmd.CombinedOutput()
				o := string(b)
				k := "quiet"
				if err != nil {
					k = "alarm"
				}
				if strings.Contains(o, "type-check") && strings.Contains(o, "cannot be loaded") {
					k = "invalid"
				}
				results[i] = res{e, o, k}
			}
		}(w)
	}
	for i := range edits {
		ch <- i
	}
	close(ch)
	wg.Wait()
	n := map[string]int{}
	for _, r := range results {
		n[r.kind]++
		if *mode == "mutate" && r.kind == "quiet" {
			fmt.Printf("SURVIVES %s: %s: %s\n", filepath.Base(r.e.File), r.e.Fn, r.e.Desc)
		}
		if *mode == "refactor" && r.kind == "alarm" {
			first := ""
			for _, l := range strings.Split(r.out, "\n") {
				if strings.HasPrefix(l, "  [") || strings.Contains(l, "undecided") {
					first = l
					break
				}
			}
			if first == "" {
				first = r.out
			}
			if len(first) > 700 {
				first = first[:700]
			}
			fmt.Printf("ALARM %s: %s: %s\n      %s\n", filepath.Base(r.e.File), r.e.Fn, r.e.Desc, first)
		}
	}
	fmt.Println(n)
}

type gen struct {
	p    *packages.Package
	file string
	src  []byte
	f    *ast.File
	fd   *ast.FuncDecl
	out  []edit
}

func (g *gen) off(p token.Pos) int { return fset.Position(p).Offset }

func (g *gen) get(n ast.Node) string { return string(g.src[g.off(n.Pos()):g.off(n.End())]) }

type rep struct {
	lo, hi token.Pos
	s      string
}

func (g *gen) add(desc string, reps ...rep) {
	sort.Slice(reps, func(i, j int) bool { return reps[i].lo < reps[j].lo })
	var b bytes.Buffer
	at := 0
	for _, r := range reps {
		b.Write(g.src[at:g.off(r.lo)])
		b.WriteString(r.s)
		at = g.off(r.hi)
	}
	b.Write(g.src[at:])
	line := fset.Position(reps[0].lo).Line
	g.out = append(g.out, edit{g.file, b.Bytes(), fmt.Sprintf("line %d: %s", line, desc), g.fd.Name.Name})
}

func (g *gen) sub(desc string, n ast.Node, s string) {
	g.add(desc, rep{n.Pos(), n.End(), s})
}

func cut(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 90 {
		s = s[:90]
	}
	return s
}

func (g *gen) mutate() {
	info := g.p.TypesInfo
	ast.Inspect(g.fd.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.IfStmt:
			g.sub("negate "+cut(g.get(x.Cond)), x.Cond, "!("+g.get(x.Cond)+")")
			g.sub("never "+cut(g.get(x.Cond)), x.Cond, "false && ("+g.get(x.Cond)+")")
			g.sub("always "+cut(g.get(x.Cond)), x.Cond, "true || ("+g.get(x.Cond)+")")
		case *ast.BinaryExpr:
			alt := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}}
			for _, a := range alt[x.Op] {
				g.add(fmt.Sprintf("%s for %s in %s", a, x.Op, cut(g.get(x))), rep{x.OpPos, x.OpPos + token.Pos(len(x.Op.String())), a})
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				g.sub("literal "+x.Value+" + 1", x, x.Value+"+1")
			}
			if x.Kind == token.STRING {
				if x.Value == `""` {
					g.sub("literal "+x.Value, x, `"x"`)
				} else {
					g.sub("literal "+cut(x.Value), x, `(`+x.Value+`+"x")`)
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				g.sub("false for true", x, "false")
			}
			if x.Name == "false" {
				g.sub("true for false", x, "true")
			}
			if v, ok := info.Uses[x].(*types.Var); ok && !v.IsField() {
				// another variable of the same type
				n := 0
				sc := g.p.Types.Scope().Innermost(x.Pos())
				seen := map[string]bool{}
				for s := sc; s != nil && s != g.p.Types.Scope(); s = s.Parent() {
					for _, nm := range s.Names() {
						o, ok := s.Lookup(nm).(*types.Var)
						if !ok || o == v || seen[nm] || nm == "_" || o.Pos() > x.Pos() || !types.Identical(o.Type(), v.Type()) || nm == "err" || n >= 2 {
							continue
						}
						seen[nm] = true
						n++
						g.sub(nm+" for "+x.Name, x, nm)
					}
				}
			}
		case *ast.SelectorExpr:
			// another method or field of the same type
			sel := info.Selections[x]
			if sel == nil {
				return true
			}
			n := 0
			if sel.Kind() == types.FieldVal {
				if pt, ok := sel.Recv().Underlying().(*types.Pointer); ok {
					if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
						for i := 0; i < st.NumFields(); i++ {
							f := st.Field(i)
							if f != sel.Obj() && types.Identical(f.Type(), sel.Obj().Type()) && n < 2 {
								n++
								g.sub(f.Name()+" for "+x.Sel.Name, x.Sel, f.Name())
							}
						}
					}
				}
			} else if it, ok := sel.Recv().Underlying().(*types.Interface); ok {
				for i := 0; i < it.NumMethods(); i++ {
					m := it.Method(i)
					if m.Name() != x.Sel.Name && types.Identical(m.Type(), sel.Obj().Type()) && n < 2 {
						n++
						g.sub(m.Name()+" for "+x.Sel.Name, x.Sel, m.Name())
					}
				}
			}
		case *ast.BlockStmt:
			for _, st := range x.List {
				g.dropStmt(st)
			}
		case *ast.CaseClause:
			for _, st := range x.Body {
				g.dropStmt(st)
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(x.Args); i++ {
				a, b := info.Types[x.Args[i]].Type, info.Types[x.Args[i+1]].Type
				if a != nil && b != nil && types.Identical(a, b) && g.get(x.Args[i]) != g.get(x.Args[i+1]) {
					g.add("swap arguments of "+cut(g.get(x)), rep{x.Args[i].Pos(), x.Args[i].End(), g.get(x.Args[i+1])}, rep{x.Args[i+1].Pos(), x.Args[i+1].End(), g.get(x.Args[i])})
				}
			}
			// drop a link of a chain
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				if in, ok := s.X.(*ast.CallExpr); ok && strings.HasPrefix(s.Sel.Name, "With") {
					g.sub("drop ."+s.Sel.Name+"()", x, g.get(in))
				}
			}
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
				g.sub("no append "+cut(g.get(x)), x, g.get(x.Args[0]))
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				g.sub("drop ! of "+cut(g.get(x)), x, g.get(x.X))
			}
		}
		return true
	})
}

func (g *gen) dropStmt(st ast.Stmt) {
	switch s := st.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
		g.sub("drop "+cut(g.get(st)), st, "")
	case *ast.BranchStmt:
		g.sub("drop "+cut(g.get(st)), st, "")
		if s.Tok == token.BREAK {
			g.sub("continue for break", st, "continue")
		}
		if s.Tok == token.CONTINUE {
			g.sub("break for continue", st, "break")
		}
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			g.sub("drop "+cut(g.get(st)), st, "")
		} else {
			// a definition whose value is not used
			l := []string{}
			for _, e := range s.Lhs {
				l = append(l, g.get(e))
			}
			_ = l
		}
	case *ast.IfStmt:
		g.sub("drop "+cut(g.get(st)), st, "")
	case *ast.RangeStmt:
		g.sub("drop loop "+cut(g.get(st)), st, "")
	}
}

func (g *gen) insertImportless() {}

func (g *gen) refactor() {
	g.shapes()
	info := g.p.TypesInfo
	body := g.fd.Body
	// a statement that does nothing
	g.add("no-op", rep{body.Lbrace + 1, body.Lbrace + 1, "\n\tverifNoOp := 0\n\t_ = verifNoOp\n"})
	// the body in a helper
	{
		recv := ""
		call := "verifHelper" + g.fd.Name.Name
		if g.fd.Recv != nil && len(g.fd.Recv.List) == 1 && len(g.fd.Recv.List[0].Names) == 1 {
			recv = g.get(g.fd.Recv)
			call = g.fd.Recv.List[0].Names[0].Name + "." + call
		}
		args := []string{}
		ok := true
		for _, f := range g.fd.Type.Params.List {
			if len(f.Names) == 0 {
				ok = false
			}
			if _, v := f.Type.(*ast.Ellipsis); v {
				ok = false
			}
			for _, n := range f.Names {
				if n.Name == "_" {
					ok = false
				}
				args = append(args, n.Name)
			}
		}
		if ok {
			res := ""
			ret := ""
			if g.fd.Type.Results != nil {
				res = g.get(g.fd.Type.Results)
				ret = "return "
			}
			params := g.get(g.fd.Type.Params)
			g.add("body in a helper",
				rep{body.Lbrace, body.Lbrace, "{\n\t" + ret + call + "(" + strings.Join(args, ", ") + ")\n}\n\nfunc " + recv + " verifHelper" + g.fd.Name.Name + params + " " + res + " "})
		}
	}
	g.extract(body.List)
	stmts := func(list []ast.Stmt) {
		for i, st := range list {
			switch s := st.(type) {
			case *ast.ReturnStmt:
				if len(s.Results) >= 1 {
					names := []string{}
					rhs := []string{}
					ok := true
					for k, r := range s.Results {
						tv := info.Types[r]
						if tv.IsNil() {
							names = append(names, "nil")
							continue
						}
						if tup, isT := tv.Type.(*types.Tuple); isT {
							for q := 0; q < tup.Len(); q++ {
								names = append(names, fmt.Sprintf("vr%d", q))
							}
							rhs = []string{g.get(r)}
							break
						}
						names = append(names, fmt.Sprintf("vr%d", k))
						rhs = append(rhs, g.get(r))
						if tv.Value != nil {
							ok = false
						}
					}
					if ok && len(rhs) > 0 {
						lhs := []string{}
						for _, n := range names {
							if n != "nil" {
								lhs = append(lhs, n)
							}
						}
						g.sub("variables for results", st, strings.Join(lhs, ", ")+" := "+strings.Join(rhs, ", ")+"\nreturn "+strings.Join(names, ", "))
					}
				}
			case *ast.IfStmt:
				if s.Init == nil {
					g.sub("condition in a variable: "+cut(g.get(s.Cond)), st, "verifCond := "+g.get(s.Cond)+"\nif verifCond "+strings.TrimPrefix(g.get(st), "if "+g.get(s.Cond)))
				}
				if s.Else != nil {
					if eb, ok := s.Else.(*ast.BlockStmt); ok && s.Init == nil {
						g.sub("invert if/else "+cut(g.get(s.Cond)), st, "if !("+g.get(s.Cond)+") "+g.get(eb)+" else "+g.get(s.Body))
					}
				}
				if s.Else == nil && s.Init == nil {
					// nested conditions
					if be, ok := s.Cond.(*ast.BinaryExpr); ok && be.Op == token.LAND {
						g.sub("nested if "+cut(g.get(s.Cond)), st, "if "+g.get(be.X)+" {\nif "+g.get(be.Y)+" "+g.get(s.Body)+"\n}")
					}
					if be, ok := s.Cond.(*ast.BinaryExpr); ok && be.Op == token.LOR && endsInReturn(s.Body) {
						g.sub("two ifs for || "+cut(g.get(s.Cond)), st, "if "+g.get(be.X)+" "+g.get(s.Body)+"\nif "+g.get(be.Y)+" "+g.get(s.Body))
					}
					if endsInReturn(s.Body) && i+1 < len(list) {
						rest := string(g.src[g.off(list[i+1].Pos()):g.off(list[len(list)-1].End())])
						if endsInReturnL(list) {
							g.add("else for early return "+cut(g.get(s.Cond)), rep{st.Pos(), list[len(list)-1].End(), g.get(st) + " else {\n" + rest + "\n}"})
							g.add("inverted early return "+cut(g.get(s.Cond)), rep{st.Pos(), list[len(list)-1].End(), "if !(" + g.get(s.Cond) + ") {\n" + rest + "\n}\n" + strings.TrimSuffix(strings.TrimPrefix(g.get(s.Body), "{"), "}")})
						}
						// a switch for a chain
						if i+1 < len(list) {
							if s2, ok := list[i+1].(*ast.IfStmt); ok && s2.Init == nil && s2.Else == nil {
								b1 := strings.TrimSuffix(strings.TrimPrefix(g.get(s.Body), "{"), "}")
								b2 := strings.TrimSuffix(strings.TrimPrefix(g.get(s2.Body), "{"), "}")
								if !hasBreak(s.Body) && !hasBreak(s2.Body) {
									g.add("switch for a chain "+cut(g.get(s.Cond)), rep{st.Pos(), s2.End(), "switch {\ncase " + g.get(s.Cond) + ":\n" + b1 + "\ncase " + g.get(s2.Cond) + ":\n" + b2 + "\n}"})
								}
							}
						}
					}
				}
			case *ast.RangeStmt:
				xt := info.Types[s.X].Type
				if _, ok := xt.Underlying().(*types.Slice); ok && s.Tok == token.DEFINE && !assigns(s.Body, s.Key) {
					idx := "verifIdx"
					if k, ok := s.Key.(*ast.Ident); ok && k.Name != "_" {
						idx = k.Name
					}
					val := ""
					if v, ok := s.Value.(*ast.Ident); ok && v.Name != "_" {
						val = v.Name + " := verifList[" + idx + "]\n"
					}
					g.sub("index loop for range "+cut(g.get(s.X)), st, "verifList := "+g.get(s.X)+"\nfor "+idx+" := 0; "+idx+" < len(verifList); "+idx+"++ {\n"+val+strings.TrimPrefix(g.get(s.Body), "{"))
				}
				if len(s.Body.List) > 0 && s.Tok == token.DEFINE {
					// a condition around the rest for a continue
					if is, ok := s.Body.List[0].(*ast.IfStmt); ok && is.Init == nil && is.Else == nil && len(is.Body.List) == 1 && len(s.Body.List) > 1 {
						if br, ok := is.Body.List[0].(*ast.BranchStmt); ok && br.Tok == token.CONTINUE {
							rest := string(g.src[g.off(s.Body.List[1].Pos()):g.off(s.Body.List[len(s.Body.List)-1].End())])
							g.add("no continue", rep{is.Pos(), s.Body.List[len(s.Body.List)-1].End(), "if !(" + g.get(is.Cond) + ") {\n" + rest + "\n}"})
						}
					}
					g.helperLoop(s)
					g.rewrites(s, list, i, xt)
				}
			case *ast.AssignStmt:
				if s.Tok == token.DEFINE && len(s.Lhs) == 1 && len(s.Rhs) == 1 {
					if cl, ok := s.Rhs[0].(*ast.CompositeLit); ok && len(cl.Elts) == 0 {
						if _, ok := info.Types[cl].Type.Underlying().(*types.Slice); ok {
							g.sub("make for literal", cl, "make("+g.get(cl.Type)+", 0)")
						}
					}
					g.sub("var for :=", st, "var "+g.get(s.Lhs[0])+" = "+g.get(s.Rhs[0]))
					// swap with the next definition when independent
					if i+1 < len(list) {
						if s2, ok := list[i+1].(*ast.AssignStmt); ok && s2.Tok == token.DEFINE && len(s2.Lhs) == 1 && !mentions(s2, s.Lhs[0]) && !mentions(s, s2.Lhs[0]) && pureish(info, s.Rhs[0]) && pureish(info, s2.Rhs[0]) {
							g.add("swap "+cut(g.get(st))+" / "+cut(g.get(s2)), rep{st.Pos(), st.End(), g.get(s2)}, rep{s2.Pos(), s2.End(), g.get(st)})
						}
					}
					// inline a variable used once
					if id, ok := s.Lhs[0].(*ast.Ident); ok && pureish(info, s.Rhs[0]) {
						if u := uses(g.fd.Body, info, info.Defs[id]); len(u) == 1 && i+1 < len(list) && u[0].Pos() >= list[i+1].Pos() && u[0].End() <= list[i+1].End() && !inLoop(list[i+1], u[0]) {
							if _, isBlock := list[i+1].(*ast.IfStmt); !isBlock {
								g.add("inline "+id.Name, rep{st.Pos(), st.End(), ""}, rep{u[0].Pos(), u[0].End(), g.get(s.Rhs[0])})
							}
						}
					}
				}
				if s.Tok == token.DEFINE && len(s.Lhs) == 2 && len(s.Rhs) == 1 && i+1 < len(list) {
					if is, ok := list[i+1].(*ast.IfStmt); ok && is.Init == nil && is.Else == nil && endsInReturn(is.Body) {
						_ = is
					}
				}
			case *ast.ForStmt:
				if s.Cond == nil && s.Init == nil && s.Post == nil {
					g.sub("for true", st, "for true "+strings.TrimPrefix(strings.TrimPrefix(g.get(st), "for"), " ")+"\n")
				}
			}
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.BinaryExpr:
			switch x.Op {
			case token.EQL, token.NEQ:
				g.sub("swap operands "+cut(g.get(x)), x, g.get(x.Y)+" "+x.Op.String()+" "+g.get(x.X))
			case token.LSS:
				g.sub("swap operands "+cut(g.get(x)), x, g.get(x.Y)+" > "+g.get(x.X))
			case token.GTR:
				g.sub("swap operands "+cut(g.get(x)), x, g.get(x.Y)+" < "+g.get(x.X))
			case token.LEQ:
				g.sub("swap operands "+cut(g.get(x)), x, g.get(x.Y)+" >= "+g.get(x.X))
			case token.GEQ:
				g.sub("swap operands "+cut(g.get(x)), x, g.get(x.Y)+" <= "+g.get(x.X))
			}
		case *ast.CallExpr:
			if t := g.get(x); strings.HasPrefix(t, "strings.Join([]string{") {
				if cl, ok := x.Args[0].(*ast.CompositeLit); ok && g.get(x.Args[1]) == `""` {
					l := []string{}
					for _, e := range cl.Elts {
						l = append(l, g.get(e))
					}
					g.sub("+ for Join", x, strings.Join(l, " + "))
				}
			}
		}
		return true
	})
	// rename a private function, method
	if !ast.IsExported(g.fd.Name.Name) {
		g.rename(info.Defs[g.fd.Name], g.fd.Name.Name+"Renamed")
	}
}

// helperLoop moves the body of a loop, when it has no jump, in a closure.
func (g *gen) helperLoop(s *ast.RangeStmt) {
	ok := true
	ast.Inspect(s.Body, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.ReturnStmt, *ast.BranchStmt:
			ok = false
		}
		return true
	})
	if ok {
		g.sub("closure for the body of a loop", s.Body, "{\nfunc() "+g.get(s.Body)+"()\n}")
	}
}

func (g *gen) rename(o types.Object, nn string) {
	if o == nil {
		return
	}
	// only when all the uses are in one file
	reps := []rep{}
	for _, m := range []map[*ast.Ident]types.Object{g.p.TypesInfo.Defs, g.p.TypesInfo.Uses} {
		for id, x := range m {
			if x == o {
				if fset.Position(id.Pos()).Filename != g.file {
					return
				}
				reps = append(reps, rep{id.Pos(), id.End(), nn})
			}
		}
	}
	g.add("rename "+o.Name(), reps...)
}

// typed gives the text of a type in the file, if it can be written there.
func (g *gen) typed(t types.Type) (string, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == g.p.Types {
			return ""
		}
		for _, f := range g.p.Syntax {
			if fset.Position(f.Pos()).Filename != g.file {
				continue
			}
			for _, im := range f.Imports {
				if strings.Trim(im.Path.Value, `"`) == p.Path() {
					if im.Name != nil {
						return im.Name.Name
					}
					return p.Name()
				}
			}
		}
		ok = false
		return p.Name()
	})
	return s, ok && !strings.Contains(s, "invalid type")
}

// free are the variables of the function that a part of it uses, without the receiver.
func (g *gen) free(l []ast.Stmt) (vars []*types.Var, self, ok bool) {
	seen := map[*types.Var]bool{}
	ok = true
	recv := types.Object(nil)
	if g.fd.Recv != nil && len(g.fd.Recv.List) == 1 && len(g.fd.Recv.List[0].Names) == 1 {
		recv = g.p.TypesInfo.Defs[g.fd.Recv.List[0].Names[0]]
	}
	for _, st := range l {
		ast.Inspect(st, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit, *ast.LabeledStmt, *ast.DeferStmt:
				ok = false
			case *ast.Ident:
				v, is := g.p.TypesInfo.Uses[x].(*types.Var)
				if !is || v.IsField() || v.Pos() < g.fd.Pos() || v.Pos() > g.fd.End() || v.Pos() >= l[0].Pos() || seen[v] {
					return true
				}
				seen[v] = true
				if v == recv {
					self = true
					return true
				}
				vars = append(vars, v)
			}
			return true
		})
	}
	return
}

// written are the variables of a list that a part of the function assigns.
func (g *gen) written(l []ast.Stmt, vars []*types.Var) []*types.Var {
	out := []*types.Var{}
	for _, v := range vars {
		is := false
		for _, st := range l {
			ast.Inspect(st, func(n ast.Node) bool {
				lhs := []ast.Expr{}
				switch x := n.(type) {
				case *ast.AssignStmt:
					lhs = x.Lhs
				case *ast.IncDecStmt:
					lhs = []ast.Expr{x.X}
				case *ast.RangeStmt:
					lhs = []ast.Expr{x.Key, x.Value}
				}
				for _, e := range lhs {
					if id, ok := e.(*ast.Ident); ok && (g.p.TypesInfo.Uses[id] == v) {
						is = true
					}
				}
				return true
			})
		}
		if is {
			out = append(out, v)
		}
	}
	return out
}

// extract moves parts of the function in helpers.
func (g *gen) extract(list []ast.Stmt) {
	res := g.fd.Type.Results
	if res != nil {
		for _, f := range res.List {
			if len(f.Names) > 0 {
				return
			}
		}
	}
	head := func(name string, vars []*types.Var, self bool) (decl, call string, ok bool) {
		ps, as := []string{}, []string{}
		for _, v := range vars {
			t, ok := g.typed(v.Type())
			if !ok {
				return "", "", false
			}
			ps = append(ps, v.Name()+" "+t)
			as = append(as, v.Name())
		}
		recv, call := "", name
		if g.fd.Recv != nil && self {
			recv = g.get(g.fd.Recv)
			call = g.fd.Recv.List[0].Names[0].Name + "." + call
		}
		return "func " + recv + " " + name + "(" + strings.Join(ps, ", ") + ")", call + "(" + strings.Join(as, ", ") + ")", true
	}
	after := g.fd.End()
	if endsInReturnL(list) && res != nil {
		for k := 1; k+1 < len(list); k++ {
			tail := list[k:]
			vars, self, ok := g.free(tail)
			if !ok {
				continue
			}
			d, c, ok := head("verifTail", vars, self)
			if !ok {
				continue
			}
			text := string(g.src[g.off(tail[0].Pos()):g.off(tail[len(tail)-1].End())])
			g.add(fmt.Sprintf("tail from statement %d in a helper", k), rep{tail[0].Pos(), tail[len(tail)-1].End(), "return " + c}, rep{after, after, "\n\n" + d + " " + g.results(res) + " {\n" + text + "\n}\n"})
		}
	}
	var each func(l []ast.Stmt)
	each = func(l []ast.Stmt) {
		for _, st := range l {
			var body *ast.BlockStmt
			switch s := st.(type) {
			case *ast.RangeStmt:
				body = s.Body
			case *ast.ForStmt:
				body = s.Body
			case *ast.IfStmt:
				if res != nil && s.Init == nil && endsInReturn(s.Body) && len(s.Body.List) > 1 {
					vars, self, ok := g.free(s.Body.List)
					d, c, ok2 := head("verifThen", vars, self)
					if ok && ok2 {
						g.add("then in a helper "+cut(g.get(s.Cond)), rep{s.Body.Pos(), s.Body.End(), "{\nreturn " + c + "\n}"}, rep{after, after, "\n\n" + d + " " + g.results(res) + " " + g.get(s.Body) + "\n"})
					}
				}
				each(s.Body.List)
			}
			if body == nil {
				continue
			}
			each(body.List)
			g.loopHelper([]ast.Stmt{st}, st.Pos(), st.End(), "loop", res, head, after)
			if len(body.List) > 1 {
				g.loopHelper(body.List, body.List[0].Pos(), body.List[len(body.List)-1].End(), "body", res, head, after)
			}
		}
	}
	each(list)
}

func (g *gen) results(res *ast.FieldList) string {
	if res == nil {
		return ""
	}
	return g.get(res)
}

// loopHelper moves a loop in a helper that gives what the loop computes.
func (g *gen) loopHelper(l []ast.Stmt, lo, hi token.Pos, what string, res *ast.FieldList, head func(string, []*types.Var, bool) (string, string, bool), after token.Pos) {
	whole := string(g.src[g.off(lo):g.off(hi)])
	if what == "body" {
		// a jump would leave the helper
		for _, st := range l {
			jumps := false
			ast.Inspect(st, func(n ast.Node) bool {
				switch n.(type) {
				case *ast.BranchStmt:
					jumps = true
				}
				return true
			})
			if jumps {
				return
			}
		}
	}
	vars, self, ok := g.free(l)
	if !ok {
		return
	}
	out := g.written(l, vars)
	if len(out) == 0 || len(out) > 2 {
		return
	}
	d, c, ok := head("verifLoop", vars, self)
	if !ok {
		return
	}
	names, tys := []string{}, []string{}
	for _, v := range out {
		t, _ := g.typed(v.Type())
		names = append(names, v.Name())
		tys = append(tys, t)
	}
	rets := []*ast.ReturnStmt{}
	for _, st := range l {
		ast.Inspect(st, func(n ast.Node) bool {
			if r, ok := n.(*ast.ReturnStmt); ok {
				rets = append(rets, r)
			}
			return true
		})
	}
	nm, ty := strings.Join(names, ", "), strings.Join(tys, ", ")
	if len(rets) == 0 {
		g.add(what+" in a helper "+cut(whole), rep{lo, hi, nm + " = " + c}, rep{after, after, "\n\n" + d + " (" + ty + ") {\n" + whole + "\nreturn " + nm + "\n}\n"})
		return
	}
	// failures
	reps := []rep{}
	zeros := ""
	for _, r := range rets {
		n := len(r.Results)
		if n < 2 || g.p.TypesInfo.Types[r.Results[n-1]].Type.String() != "error" {
			return
		}
		z := []string{}
		for _, e := range r.Results[:n-1] {
			tv := g.p.TypesInfo.Types[e]
			if !tv.IsNil() && tv.Value == nil {
				return
			}
			z = append(z, g.get(e))
		}
		if zeros != "" && zeros != strings.Join(z, ", ") {
			return
		}
		zeros = strings.Join(z, ", ")
		reps = append(reps, rep{r.Pos(), r.End(), "return " + nm + ", " + g.get(r.Results[n-1])})
	}
	text := whole
	base := g.off(lo)
	for i := len(reps) - 1; i >= 0; i-- {
		text = text[:g.off(reps[i].lo)-base] + reps[i].s + text[g.off(reps[i].hi)-base:]
	}
	vn := []string{}
	set := ""
	for i, n := range names {
		vn = append(vn, fmt.Sprintf("verif%d", i))
		set += fmt.Sprintf("%s = verif%d\n", n, i)
	}
	g.add(what+" with failures in a helper "+cut(whole), rep{lo, hi, strings.Join(vn, ", ") + ", verifErr := " + c + "\nif verifErr != nil {\nreturn " + zeros + ", verifErr\n}\n" + set}, rep{after, after, "\n\n" + d + " (" + ty + ", error) {\n" + text + "\nreturn " + nm + ", nil\n}\n"})
}

// shapes writes the statements and the conditions in other ways.
func (g *gen) shapes() {
	info := g.p.TypesInfo
	var lists func(n ast.Node)
	stmts := func(l []ast.Stmt) {
		for i, st := range l {
			var es []ast.Expr
			switch x := st.(type) {
			case *ast.AssignStmt:
				es = x.Rhs
			case *ast.ReturnStmt:
				es = x.Results
			case *ast.ExprStmt:
				es = []ast.Expr{x.X}
			}
			if len(es) == 1 {
				if c, ok := es[0].(*ast.CallExpr); ok {
					// the calls of a builder, one by one
					var setters []*ast.CallExpr
					var root *ast.CallExpr
					for at := c; ; {
						sel, ok := at.Fun.(*ast.SelectorExpr)
						if !ok {
							break
						}
						if sel.Sel.Name == "Create" {
							root = at
							break
						}
						in, ok := sel.X.(*ast.CallExpr)
						if !ok {
							break
						}
						if at != c {
							setters = append([]*ast.CallExpr{at}, setters...)
						}
						at = in
					}
					if sel, ok := c.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "Now" && root != nil && len(setters) > 0 {
						part := func(x *ast.CallExpr) string {
							sel := x.Fun.(*ast.SelectorExpr)
							return "." + string(g.src[g.off(sel.Sel.Pos()):g.off(x.End())])
						}
						chain, rev, steps := "", "", "verifBuilder := "+g.get(root)+"\n"
						for _, x := range setters {
							chain += part(x)
							rev = part(x) + rev
							steps += "verifBuilder" + part(x) + "\n"
						}
						g.add("builder step by step "+cut(chain), rep{st.Pos(), st.Pos(), steps}, rep{c.Pos(), c.End(), "verifBuilder.Now()"})
						if len(setters) > 1 {
							g.sub("setters in another order "+cut(chain), c, g.get(root)+rev+".Now()")
						}
						g.add("builder with its parts in a variable "+cut(chain), rep{st.Pos(), st.Pos(), "verifBuilder := " + g.get(root) + chain + "\n"}, rep{c.Pos(), c.End(), "verifBuilder.Now()"})
					}
					for _, a := range c.Args {
						if in, ok := a.(*ast.CallExpr); ok && !c.Ellipsis.IsValid() {
							if tv := info.Types[in]; tv.Type != nil && !tv.IsType() && tv.Value == nil {
								if _, ok := tv.Type.(*types.Tuple); !ok {
									g.add("temporary for "+cut(g.get(in)), rep{st.Pos(), st.Pos(), "verifTmp := " + g.get(in) + "\n"}, rep{in.Pos(), in.End(), "verifTmp"})
								}
							}
						}
					}
				}
			}
			// an object given back by its address
			if as, ok := st.(*ast.AssignStmt); ok && as.Tok == token.DEFINE && len(as.Lhs) == 1 && i+2 == len(l) {
				if r, ok := l[i+1].(*ast.ReturnStmt); ok && len(r.Results) == 1 {
					if u, ok := r.Results[0].(*ast.UnaryExpr); ok && u.Op == token.AND && g.get(u.X) == g.get(as.Lhs[0]) {
						if _, ok := as.Rhs[0].(*ast.CompositeLit); ok {
							g.add("address of a literal", rep{as.Pos(), as.End(), ""}, rep{u.Pos(), u.End(), "&" + g.get(as.Rhs[0])})
							g.add("pointer first", rep{as.Rhs[0].Pos(), as.Rhs[0].Pos(), "&"}, rep{u.Pos(), u.End(), g.get(u.X)})
						}
					}
				}
			}
			// the error in the statement of the condition
			if as, ok := st.(*ast.AssignStmt); ok && as.Tok == token.DEFINE && len(as.Lhs) == 1 && i+1 < len(l) {
				if is, ok := l[i+1].(*ast.IfStmt); ok && is.Init == nil && is.Else == nil {
					id := as.Lhs[0].(*ast.Ident)
					o := info.Defs[id]
					later := false
					for _, r := range l[i+2:] {
						later = later || len(uses(r, info, o)) > 0
					}
					if o != nil && !later {
						g.add("condition with a statement "+cut(g.get(as)), rep{as.Pos(), is.Cond.Pos(), "if " + g.get(as) + "; "})
					}
				}
			}
		}
	}
	lists = func(n ast.Node) {
		ast.Inspect(n, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			}
			return true
		})
	}
	lists(g.fd.Body)
	after := g.fd.End()
	ast.Inspect(g.fd.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.IfStmt:
			if x.Init != nil {
				break
			}
			vars, _, ok := g.free([]ast.Stmt{&ast.ExprStmt{X: x.Cond}})
			if !ok {
				break
			}
			recv := types.Object(nil)
			if g.fd.Recv != nil && len(g.fd.Recv.List[0].Names) > 0 {
				recv = info.Defs[g.fd.Recv.List[0].Names[0]]
			}
			ps, as := []string{}, []string{}
			if recv != nil {
				ps = append(ps, recv.Name()+" "+g.get(g.fd.Recv.List[0].Type))
				as = append(as, recv.Name())
			}
			for _, v := range vars {
				t, k := g.typed(v.Type())
				ok = ok && k
				ps = append(ps, v.Name()+" "+t)
				as = append(as, v.Name())
			}
			if ok {
				g.add("condition in a helper "+cut(g.get(x.Cond)), rep{x.Cond.Pos(), x.Cond.End(), "verifCond(" + strings.Join(as, ", ") + ")"}, rep{after, after, "\n\nfunc verifCond(" + strings.Join(ps, ", ") + ") bool {\nreturn " + g.get(x.Cond) + "\n}\n"})
			}
		case *ast.BinaryExpr:
			l, r := g.get(x.X), g.get(x.Y)
			isLen := strings.HasPrefix(l, "len(")
			switch {
			case isLen && r == "0" && x.Op == token.LEQ:
				g.sub("form of "+cut(g.get(x)), x, l+" == 0")
				g.sub("form of "+cut(g.get(x)), x, l+" < 1")
			case isLen && r == "0" && x.Op == token.GTR:
				g.sub("form of "+cut(g.get(x)), x, l+" != 0")
				g.sub("form of "+cut(g.get(x)), x, l+" >= 1")
			case x.Op == token.LSS && isInteger(info.TypeOf(x.X)):
				g.sub("form of "+cut(g.get(x)), x, "!("+l+" >= "+r+")")
				g.sub("form of "+cut(g.get(x)), x, l+"+1 <= "+r)
			case x.Op == token.LAND:
				g.sub("form of "+cut(g.get(x)), x, "!(!("+l+") || !("+r+"))")
			case x.Op == token.LOR:
				g.sub("form of "+cut(g.get(x)), x, "!(!("+l+") && !("+r+"))")
			}
		case *ast.CallExpr:
			if g.get(x.Fun) == "fmt.Sprintf" && len(x.Args) > 1 {
				f := g.get(x.Args[0])
				if f == "\""+strings.Repeat("%s", len(x.Args)-1)+"\"" {
					parts := []string{}
					for _, a := range x.Args[1:] {
						if b, ok := info.TypeOf(a).(*types.Basic); !ok || b.Info()&types.IsString == 0 {
							return true
						}
						parts = append(parts, g.get(a))
					}
					g.sub("+ for Sprintf "+cut(g.get(x)), x, "("+strings.Join(parts, " + ")+")")
				}
			}
		}
		return true
	})
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// rewrites of a loop over a list.
func (g *gen) rewrites(s *ast.RangeStmt, list []ast.Stmt, i int, xt types.Type) {
	if _, ok := xt.Underlying().(*types.Slice); !ok {
		return
	}
	jump := func(n ast.Node, tok token.Token) bool {
		found := false
		ast.Inspect(n, func(n ast.Node) bool {
			if b, ok := n.(*ast.BranchStmt); ok && b.Tok == tok {
				found = true
			}
			return true
		})
		return found
	}
	body := strings.TrimSuffix(strings.TrimPrefix(g.get(s.Body), "{"), "}")
	idx, val := "verifIdx", ""
	if k, ok := s.Key.(*ast.Ident); ok && k.Name != "_" {
		idx = k.Name
	}
	if v, ok := s.Value.(*ast.Ident); ok && v.Name != "_" {
		val = v.Name + " := verifList[" + idx + "]\n"
	}
	if !jump(s.Body, token.CONTINUE) && !assigns(s.Body, s.Key) {
		g.sub("while loop "+cut(g.get(s.X)), s, "verifList := "+g.get(s.X)+"\n"+idx+" := 0\nfor "+idx+" < len(verifList) {\n"+val+body+"\n"+idx+"++\n}")
		g.sub("endless loop "+cut(g.get(s.X)), s, "verifList := "+g.get(s.X)+"\n"+idx+" := 0\nfor {\nif "+idx+" >= len(verifList) {\nbreak\n}\n"+val+body+"\n"+idx+"++\n}")
		if idx == "verifIdx" {
			g.sub("consumed list "+cut(g.get(s.X)), s, "for verifList := "+g.get(s.X)+"; len(verifList) > 0; verifList = verifList[1:] {\n"+strings.Replace(val, "verifList["+idx+"]", "verifList[0]", 1)+body+"\n}")
		}
	}
	if len(s.Body.List) == 1 {
		if is, ok := s.Body.List[0].(*ast.IfStmt); ok && is.Init == nil && is.Else == nil {
			inner := strings.TrimSuffix(strings.TrimPrefix(g.get(is.Body), "{"), "}")
			g.sub("guard for condition "+cut(g.get(is.Cond)), is, "if !("+g.get(is.Cond)+") {\ncontinue\n}\n"+inner)
			if len(is.Body.List) == 1 && i+2 == len(list) {
				r1, ok1 := is.Body.List[0].(*ast.ReturnStmt)
				r2, ok2 := list[i+1].(*ast.ReturnStmt)
				if ok1 && ok2 && len(r1.Results) == 1 && len(r2.Results) == 1 {
					a, b := g.get(r1.Results[0]), g.get(r2.Results[0])
					if (a == "true" || a == "false") && (b == "true" || b == "false") {
						lo, hi := s.Pos(), r2.End()
						g.add("flag and break", rep{lo, hi, "verifOut := " + b + "\n" + string(g.src[g.off(s.Pos()):g.off(r1.Pos())]) + "verifOut = " + a + "\nbreak\n}\n}\nreturn verifOut"})
						g.add("flag without break", rep{lo, hi, "verifOut := " + b + "\n" + string(g.src[g.off(s.Pos()):g.off(r1.Pos())]) + "verifOut = " + a + "\n}\n}\nreturn verifOut"})
						g.add("backwards", rep{s.Pos(), s.End(), "verifList := " + g.get(s.X) + "\nfor " + idx + " := len(verifList) - 1; " + idx + " >= 0; " + idx + "-- {\n" + val + body + "\n}"})
					}
				}
			}
		}
	}
}

func endsInReturn(b *ast.BlockStmt) bool { return endsInReturnL(b.List) }

func endsInReturnL(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	_, ok := l[len(l)-1].(*ast.ReturnStmt)
	return ok
}

func hasBreak(n ast.Node) bool {
	h := false
	ast.Inspect(n, func(x ast.Node) bool {
		if b, ok := x.(*ast.BranchStmt); ok && b.Tok == token.BREAK {
			h = true
		}
		return true
	})
	return h
}

func assigns(n ast.Node, key ast.Expr) bool {
	id, ok := key.(*ast.Ident)
	if !ok {
		return false
	}
	h := false
	ast.Inspect(n, func(x ast.Node) bool {
		if a, ok := x.(*ast.AssignStmt); ok {
			for _, l := range a.Lhs {
				if i, ok := l.(*ast.Ident); ok && i.Name == id.Name {
					h = true
				}
			}
		}
		return true
	})
	return h
}

func mentions(n ast.Node, id ast.Expr) bool {
	i, ok := id.(*ast.Ident)
	if !ok {
		return true
	}
	h := false
	ast.Inspect(n, func(x ast.Node) bool {
		if k, ok := x.(*ast.Ident); ok && k.Name == i.Name {
			h = true
		}
		return true
	})
	return h
}

func inLoop(n ast.Node, at ast.Node) bool {
	h := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch f := x.(type) {
		case *ast.RangeStmt:
			if at.Pos() >= f.Body.Pos() && at.End() <= f.End() {
				h = true
			}
		case *ast.ForStmt:
			h = true
		}
		return true
	})
	return h
}

// pureish: accessors and constants; single result, no builder step.
func pureish(info *types.Info, e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(x ast.Node) bool {
		if c, is := x.(*ast.CallExpr); is {
			if len(c.Args) > 0 {
				ok = false
			}
			if s, is := c.Fun.(*ast.SelectorExpr); is && (s.Sel.Name == "Create" || s.Sel.Name == "Now") {
				ok = false
			}
		}
		return true
	})
	return ok
}

func uses(n ast.Node, info *types.Info, o types.Object) []*ast.Ident {
	out := []*ast.Ident{}
	ast.Inspect(n, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok && info.Uses[id] == o && o != nil {
			out = append(out, id)
		}
		return true
	})
	return out
}
