package main

import (
	"embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sx"
)

//go:embed specs/*.txt specs/*.grammar
var specFiles embed.FS

// definition is the definition of a function of the repository, written in terms
// of the exported interfaces.
type definition struct {
	Prop    string
	Target  string // rel/pkg:Type.Method, rel/pkg:Interface.Method or rel/pkg:func
	Fn      *ssa.Function
	Impls   []*ssa.Function
	Object  bool   // the first parameter of the definition is the receiver
	Self    string // factory that gives the constants of the receiver
	Type    types.Type
	Free    bool     // not an obligation, only opaque
	Handles string   // the name of the table entry that it defines
	View    []string // the parts given to the builder of the object it reads
	Chance  bool     // each call gives another value
	Refuse  bool     // it tells when the function fails, not what it gives; a failure of a callee is not judged
}

type definitions struct {
	p      *Program
	list   []*definition
	byFn   map[*ssa.Function]*definition // definition or implementation
	byName map[string]*definition
	probs  []string

	open     bool // every function is looked into
	inlining bool // the private helpers are looked into
	anyInt   bool // the carried integers are of one class
	rec      map[*definition]bool
}

// recursive tells if a definition, or an implementation of it, calls itself.
// sets tells that a definition only writes parts of the receiver.
func (d *definition) sets() bool {
	out := false
	if d.Fn != nil && len(d.Fn.Blocks) == 1 {
		eachInstr(d.Fn, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && len(g.Blocks) == 0 && strings.HasPrefix(g.Name(), "set_") {
					out = true
				}
			}
		})
	}
	return out
}

func (ds *definitions) recursive(d *definition) bool {
	if r, ok := ds.rec[d]; ok {
		return r
	}
	if ds.rec == nil {
		ds.rec = map[*definition]bool{}
	}
	out := false
	for _, fn := range append([]*ssa.Function{d.Fn}, d.Impls...) {
		seen := map[*ssa.Function]bool{}
		st := []*ssa.Function{fn}
		for len(st) > 0 {
			f := st[len(st)-1]
			st = st[:len(st)-1]
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					g := ci.Common().StaticCallee()
					if g == nil {
						continue
					}
					if g == fn {
						out = true
					}
					if !seen[g] && g.Pkg == fn.Pkg {
						seen[g] = true
						st = append(st, g)
					}
				}
			}
		}
	}
	ds.rec[d] = out
	return out
}

type depImporter map[string]*types.Package

func (d depImporter) Import(path string) (*types.Package, error) {
	if p := d[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("package %s is not a dependency of the repository", path)
}

// definitionsOf loads the definitions written for the given properties.
func (p *Program) definitionsOf() (*definitions, error) {
	if p.defs != nil {
		return p.defs, nil
	}
	imp := depImporter{}
	packages.Visit(p.Pkgs, nil, func(x *packages.Package) { imp[x.PkgPath] = x.Types })
	ds := &definitions{p: p, byFn: map[*ssa.Function]*definition{}, byName: map[string]*definition{}}
	ents, err := specFiles.ReadDir("specs")
	if err != nil {
		return nil, err
	}
	for _, en := range ents {
		if !strings.HasSuffix(en.Name(), ".go.txt") {
			continue
		}
		src, err := specFiles.ReadFile("specs/" + en.Name())
		if err != nil {
			return nil, err
		}
		f, err := parser.ParseFile(p.SSA.Fset, "spec/"+en.Name(), src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
		}
		path := modPath + "/zz_spec/" + strings.TrimSuffix(en.Name(), ".go.txt")
		var terr error
		cfg := types.Config{Importer: imp, Error: func(e error) {
			if terr == nil {
				terr = e
			}
		}}
		pkg, _ := cfg.Check(path, p.SSA.Fset, []*ast.File{f}, info)
		if terr != nil {
			ds.probs = append(ds.probs, fmt.Sprintf("%s: the exported interface no longer has what the definition uses: %s", en.Name(), terr))
			ds.byName["!"+en.Name()] = nil
			for _, c := range f.Decls {
				if fd, ok := c.(*ast.FuncDecl); ok {
					if d := parseDirectives(fd); d != nil {
						d.Free = true
						ds.list = append(ds.list, d)
					}
				}
			}
			continue
		}
		sp := p.SSA.CreatePackage(pkg, []*ast.File{f}, info, false)
		sp.Build()
		for _, c := range f.Decls {
			fd, ok := c.(*ast.FuncDecl)
			if !ok {
				continue
			}
			d := parseDirectives(fd)
			if d == nil {
				continue
			}
			d.Fn = sp.Func(fd.Name.Name)
			ds.list = append(ds.list, d)
		}
	}
	for _, d := range ds.list {
		if d.Fn == nil || d.Handles != "" || d.View != nil {
			continue
		}
		d.Impls = ds.resolve(d)
		if len(d.Impls) == 0 {
			if token.IsExported(d.Target[strings.LastIndexAny(d.Target, ".:")+1:]) {
				ds.probs = append(ds.probs, d.Target+": not found")
			}
			// a helper that no longer exists: its definition is inlined
			continue
		}
		if d.Refuse {
			continue
		}
		ds.byFn[d.Fn] = d
		for _, fn := range d.Impls {
			ds.byFn[fn] = d
		}
	}
	ds.writers()
	p.defs = ds
	return ds, nil
}

func parseDirectives(fd *ast.FuncDecl) *definition {
	if fd.Doc == nil {
		return nil
	}
	var d *definition
	for _, c := range fd.Doc.List {
		w := strings.Fields(strings.TrimPrefix(c.Text, "//"))
		if len(w) == 0 {
			continue
		}
		switch w[0] {
		case "is":
			d = &definition{Prop: w[1], Target: w[2]}
		case "opaque":
			d = &definition{Prop: "-", Target: w[1]}
		case "handles":
			d = &definition{Prop: w[1], Target: w[2], Handles: w[3]}
		case "view":
			d = &definition{Prop: w[1], Target: w[2], View: append([]string{}, w[3:]...)}
		case "refuses":
			d = &definition{Prop: w[1], Target: w[2], Refuse: true}
		case "chance":
			d.Chance = true
		case "self":
			d.Self = w[1]
		}
	}
	return d
}

// resolve finds the implementations of a definition.
func (ds *definitions) resolve(d *definition) []*ssa.Function {
	p := ds.p
	i := strings.LastIndexByte(d.Target, ':')
	pkg := p.ByRel[d.Target[:i]]
	if pkg == nil {
		return nil
	}
	name := d.Target[i+1:]
	sig := d.Fn.Signature
	j := strings.IndexByte(name, '.')
	if j < 0 {
		fn := pkg.Func(name)
		if fn == nil || !sameParams(fn.Signature, sig, 0) {
			fn = nil
			if !token.IsExported(name) {
				n := 0
				for _, m := range sortedMembers(pkg) {
					if f, ok := pkg.Members[m].(*ssa.Function); ok && f.Synthetic == "" && sameParams(f.Signature, sig, 0) && !token.IsExported(m) && ds.byFn[f] == nil {
						fn = f
						n++
					}
				}
				if n != 1 {
					return nil
				}
			}
		}
		if fn == nil {
			return nil
		}
		return []*ssa.Function{fn}
	}
	tn, mn := name[:j], name[j+1:]
	t, ok := pkg.Members[tn].(*ssa.Type)
	if !ok {
		return nil
	}
	recvs := []types.Type{}
	if it, ok := t.Type().Underlying().(*types.Interface); ok {
		for _, n := range p.implementers(pkg, it) {
			recvs = append(recvs, types.NewPointer(n))
		}
	} else {
		recvs = append(recvs, types.NewPointer(t.Type()))
	}
	out := []*ssa.Function{}
	for _, r := range recvs {
		ms := p.SSA.MethodSets.MethodSet(r)
		var found *ssa.Function
		for k := 0; k < ms.Len(); k++ {
			if ms.At(k).Obj().Name() == mn {
				found = p.SSA.MethodValue(ms.At(k))
			}
		}
		if found != nil && ds.fits(d, found) {
			out = append(out, found)
			continue
		}
		if token.IsExported(mn) {
			continue
		}
		// renamed: the only method with the same signature
		var alt *ssa.Function
		n := 0
		for k := 0; k < ms.Len(); k++ {
			f := p.SSA.MethodValue(ms.At(k))
			if f == nil || token.IsExported(f.Name()) || ds.byFn[f] != nil || !ds.fits(d, f) || ds.named(d, f) {
				continue
			}
			alt = f
			n++
		}
		if n == 1 {
			out = append(out, alt)
		}
	}
	return out
}

// named tells if another definition is about a function of that name.
func (ds *definitions) named(d *definition, f *ssa.Function) bool {
	for _, o := range ds.list {
		if o != d && strings.HasSuffix(o.Target, "."+f.Name()) && o.Target[:strings.LastIndexByte(o.Target, '.')] == d.Target[:strings.LastIndexByte(d.Target, '.')] {
			return true
		}
	}
	return false
}

func (ds *definitions) fits(d *definition, f *ssa.Function) bool {
	if d.Refuse {
		r := f.Signature.Results()
		return r.Len() == 2 && isErrorType(r.At(1).Type()) && f.Signature.Params().Len() == d.Fn.Signature.Params().Len()
	}
	if sameParams(f.Signature, d.Fn.Signature, 0) {
		return true
	}
	if d.Fn.Signature.Params().Len() > 0 && sameParams(f.Signature, d.Fn.Signature, 1) {
		d.Object = true
		return true
	}
	return false
}

// sameParams compares two signatures; skip is the number of parameters that stand for the receiver.
func sameParams(a, b *types.Signature, skip int) bool {
	if a.Params().Len() != b.Params().Len()-skip || a.Results().Len() != b.Results().Len() {
		return false
	}
	for i := 0; i < a.Params().Len(); i++ {
		if !types.Identical(a.Params().At(i).Type(), b.Params().At(i+skip).Type()) {
			return false
		}
	}
	for i := 0; i < a.Results().Len(); i++ {
		if !types.Identical(a.Results().At(i).Type(), b.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

// service tells that the instances of an interface are interchangeable.
func service(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	nm := n.Obj().Name()
	if strings.HasSuffix(nm, "Adapter") || strings.HasSuffix(nm, "Application") || strings.HasSuffix(nm, "Manager") {
		return true
	}
	return it.NumMethods() > 0 && ifaceMethods(n)["Create"] != nil && ifaceMethods(n)["Now"] != nil
}

func (ds *definitions) engine(self *sx.Term) *sx.Engine {
	p := ds.p
	e := p.engine()
	e.MaxPaths = 60000
	if ds.open && ds.inlining {
		e.MaxPaths = 400
	}
	e.Record = true
	e.AnyInt = ds.anyInt
	e.Svc = service
	e.Getter = p.givenBack
	e.Inline = func(root, caller, callee *ssa.Function) bool {
		return callee.Pkg != nil && p.inRepo(callee.Pkg.Pkg)
	}
	e.Opaque = func(fn *ssa.Function) (string, int, bool) {
		d := ds.byFn[fn]
		if d == nil || (ds.open || d.sets()) && !ds.recursive(d) && !d.Chance {
			return "", 0, false
		}
		if ds.inlining && !token.IsExported(d.Target[strings.LastIndexAny(d.Target, ".:")+1:]) && !ds.recursive(d) && !d.Chance {
			return "", 0, false
		}
		drop := 0
		if d.Fn != fn && fn.Signature.Recv() != nil && !d.Object {
			drop = 1
		}
		return d.Target, drop, true
	}
	e.Chance = func(fn *ssa.Function) bool { d := ds.byFn[fn]; return d != nil && d.Chance }
	e.Special = func(fn *ssa.Function, args []*sx.Term, s *sx.State) ([]*sx.Term, bool) {
		name := fn.Name()
		if strings.HasPrefix(name, "make_") && len(fn.Blocks) == 0 {
			ts := []*sx.Term{}
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				ts = append(ts, sx.T("field", fn.Signature.Params().At(i).Name(), args[i]).Typed(fn.Signature.Params().At(i).Type()))
			}
			if o := ds.make(fn, args, s); o != nil {
				return []*sx.Term{o}, true
			}
			return []*sx.Term{sx.T("made", name, ts...)}, true
		}
		if strings.HasPrefix(name, "var_") && len(fn.Blocks) == 0 {
			if g := ds.global(fn); g != nil {
				return []*sx.Term{s.Load(sx.T("global", g.String()).Typed(g.Type()), g.Type().Underlying().(*types.Pointer).Elem())}, true
			}
			return nil, false
		}
		if self == nil || self.Typ == nil {
			return nil, false
		}
		if name == "self" {
			return []*sx.Term{self}, true
		}
		if strings.HasPrefix(name, "self_") {
			ty := fn.Signature.Results().At(0).Type()
			f := fieldLike(self.Typ, strings.TrimPrefix(name, "self_"), ty)
			if f == "" {
				return nil, false
			}
			return []*sx.Term{s.Load(sx.T("addr", f, self), ty)}, true
		}
		if strings.HasPrefix(name, "set_") {
			ty := fn.Signature.Params().At(0).Type()
			f := fieldLike(self.Typ, strings.TrimPrefix(name, "set_"), ty)
			if f == "" {
				return nil, false
			}
			a := sx.T("addr", f, self)
			s.Trace = append(s.Trace, sx.Event{Kind: "write", Addr: a, Term: args[0], In: fn})
			s.Mem[a] = args[0]
			return nil, true
		}
		return nil, false
	}
	return e
}

// global finds the package variable that a definition reads: by its name, else by its type.
func (ds *definitions) global(fn *ssa.Function) *ssa.Global {
	rel := ""
	for _, d := range ds.list {
		if d.Fn != nil && d.Fn.Pkg == fn.Pkg && strings.Contains(d.Target, ":") {
			rel = d.Target[:strings.LastIndexByte(d.Target, ':')]
			break
		}
	}
	pkg := ds.p.ByRel[rel]
	if pkg == nil {
		return nil
	}
	var found *ssa.Global
	n := 0
	for _, m := range sortedMembers(pkg) {
		g, ok := pkg.Members[m].(*ssa.Global)
		if !ok || !types.Identical(g.Type().Underlying().(*types.Pointer).Elem(), fn.Signature.Results().At(0).Type()) {
			continue
		}
		if m == strings.TrimPrefix(fn.Name(), "var_") {
			return g
		}
		found = g
		n++
	}
	if n == 1 {
		return found
	}
	return nil
}

// make allocates the object of a private type that a definition makes.
func (ds *definitions) make(fn *ssa.Function, args []*sx.Term, s *sx.State) *sx.Term {
	n, ok := types.Unalias(fn.Signature.Results().At(0).Type()).(*types.Named)
	if !ok {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	pkg := ds.p.SSA.Package(n.Obj().Pkg())
	if pkg == nil {
		return nil
	}
	var impl *types.Named
	c := 0
	for _, x := range ds.p.implementers(pkg, it) {
		if x.Obj().Name() == strings.TrimPrefix(fn.Name(), "make_") {
			impl, c = x, 1
			break
		}
		impl = x
		c++
	}
	if c != 1 {
		return nil
	}
	st, ok := impl.Underlying().(*types.Struct)
	if !ok || st.NumFields() != len(args) {
		return nil
	}
	ptr := types.NewPointer(impl)
	fields := []string{}
	seen := map[string]bool{}
	for i := range args {
		v := fn.Signature.Params().At(i)
		f := fieldLike(ptr, v.Name(), v.Type())
		if f == "" || seen[f] {
			return nil
		}
		seen[f] = true
		fields = append(fields, f)
	}
	o := s.New(impl)
	for i, f := range fields {
		s.Mem[sx.T("addr", f, o)] = args[i]
	}
	return o
}

// fieldLike finds a field by its name, else the only one of the type.
func fieldLike(t types.Type, name string, ty types.Type) string {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	alt := ""
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == name {
			return name
		}
		if types.Identical(f.Type(), ty) {
			alt = f.Name()
			n++
		}
	}
	if n == 1 {
		return alt
	}
	return ""
}

// selfState builds the receiver of an implementation.
func (ds *definitions) selfState(d *definition, impl *ssa.Function) (*sx.Term, *sx.State, error) {
	st := sx.NewState()
	if impl.Signature.Recv() == nil {
		return nil, st, nil
	}
	rt := impl.Signature.Recv().Type()
	self := sx.T("self", types.TypeString(rt, nil))
	if self.Typ == nil {
		self.Typ = rt
	}
	if d.Self == "" {
		return self, st, nil
	}
	rel := d.Target[:strings.LastIndexByte(d.Target, ':')]
	fac := ds.p.ByRel[rel].Func(d.Self)
	if fac == nil {
		return nil, nil, fmt.Errorf("factory %s not found", d.Self)
	}
	e := ds.p.engine()
	e.Inline = func(root, caller, callee *ssa.Function) bool {
		return callee.Pkg == root.Pkg
	}
	outs, err := e.Run(fac, sx.Params(fac), sx.NewState())
	if err != nil {
		return nil, nil, err
	}
	if len(outs) != 1 || outs[0].Kind != "return" {
		return nil, nil, fmt.Errorf("factory %s has %d exits", d.Self, len(outs))
	}
	obj := outs[0].Res[0]
	fst := outs[0].S
	if obj.Op == "new" && obj.Typ != nil && !types.Identical(obj.Typ, rt) {
		// a builder: what it builds has the constants
		if o, s := ds.p.completed(obj, fst); o != nil && o.Typ != nil && types.Identical(o.Typ, rt) {
			obj, fst = o, s
		}
	}
	src, ok := obj.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil, nil, fmt.Errorf("factory %s does not give an object", d.Self)
	}
	sst, ok := src.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil, nil, fmt.Errorf("factory %s does not give an object", d.Self)
	}
	have := map[string]types.Type{}
	if pst, ok := rt.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
		for i := 0; i < pst.NumFields(); i++ {
			have[pst.Field(i).Name()] = pst.Field(i).Type()
		}
	}
	for i := 0; i < sst.NumFields(); i++ {
		f := sst.Field(i)
		b, ok := f.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsBoolean != 0 || have[f.Name()] == nil || !types.Identical(have[f.Name()], f.Type()) {
			continue
		}
		v := fst.Load(sx.T("addr", f.Name(), obj), f.Type())
		if v.Op == "const" || v.Op == "param" {
			st.Mem[sx.T("addr", f.Name(), self)] = v
		}
	}
	return self, st, nil
}

// ruleDefinitions judges the definitions of a property.
func ruleDefinitions(c *Ctx, prop string) {
	ds, err := c.P.definitionsOf()
	if err != nil {
		c.Bad("definition", prop, "", "undecided: %s", err)
		return
	}
	n := 0
	for _, d := range ds.list {
		if d.Prop != prop || d.Handles != "" || d.View != nil {
			continue
		}
		n++
		if d.Fn == nil {
			c.Bad("definition", d.Target, "", "undecided: its definition does not type-check: %s", strings.Join(ds.probs, "; "))
			continue
		}
		if len(d.Impls) == 0 {
			if token.IsExported(d.Target[strings.LastIndexAny(d.Target, ".:")+1:]) {
				c.Bad("definition", d.Target, "", "not found, or its signature changed")
			} else {
				c.Ok("definition", d.Target) // gone: its definition is inlined in the ones that use it
			}
			continue
		}
		for _, impl := range d.Impls {
			ds.compare(c, d, impl)
		}
	}
}

type side struct {
	outs  []sx.Outcome
	recs  []sx.LoopRec
	eng   *sx.Engine
	self  *sx.Term
	built bool // Now of a builder

	refusal bool // only its failures are compared
}

// without drops the writes to the fields of an object.
func without(l []string, self *sx.Term) []string {
	out := []string{}
	for _, x := range l {
		if self != nil && strings.HasPrefix(x, "write &"+self.String()+".") {
			continue
		}
		out = append(out, x)
	}
	return out
}

func (ds *definitions) run(d *definition, fn *ssa.Function, args []*sx.Term, self *sx.Term, st *sx.State, ord func(*sx.Term, int) int) (*side, error) {
	e := ds.engine(self)
	e.Ord = ord
	outs, err := e.Run(fn, args, st)
	if err != nil {
		return nil, err
	}
	return &side{outs, e.Recs, e, self, strings.HasSuffix(d.Target, "Builder.Now"), false}, nil
}

func (ds *definitions) compare(c *Ctx, d *definition, impl *ssa.Function) {
	c.Saw(impl)
	msg := ds.judge(c, d, impl)
	if msg != "" && ds.anyway(func() bool { return ds.judge(c, d, impl) == "" }) {
		msg = ""
	}
	c.Check(msg == "", "definition", d.Target, c.P.fnWhere(impl), "%s", msg)
}

// anyway tries to compare again: a function may be cut in helpers in another way (the helpers
// that are not recursive are looked into), and count with integers of another type.
func (ds *definitions) anyway(same func() bool) bool {
	if ds.inlining || ds.anyInt {
		return false
	}
	open := ds.open
	defer func() { ds.inlining, ds.anyInt, ds.open = false, false, open }()
	for _, m := range [][2]bool{{true, false}, {false, true}, {true, true}} {
		if ds.inlining, ds.anyInt = m[0], m[1]; same() {
			return true
		}
	}
	if open {
		return false
	}
	ds.inlining, ds.anyInt, ds.open = true, true, true
	return same()
}

// judge compares an implementation with its definition: "" when they agree.
func (ds *definitions) judge(c *Ctx, d *definition, impl *ssa.Function) string {
	self, st, err := ds.selfState(d, impl)
	if err != nil {
		return "undecided: " + err.Error()
	}
	ps := sx.Params(d.Fn)
	if d.Object {
		ps[0] = self
	}
	iargs := ps
	if impl.Signature.Recv() != nil && !d.Object {
		iargs = append([]*sx.Term{self}, ps...)
	}
	a, err := ds.run(d, impl, iargs, self, st, nil)
	if err != nil {
		return "undecided: " + err.Error()
	}
	b, err := ds.run(d, d.Fn, ps, self, st, nil)
	if err != nil {
		return "undecided: the definition: " + err.Error()
	}
	for f := range a.eng.Analysed {
		c.Saw(f)
	}
	if debugRefine == d.Target && !ds.inlining {
		for _, s := range []*side{a, b} {
			for _, o := range s.outs {
				res := []string{}
				for _, r := range o.Res {
					res = append(res, o.S.Freeze(r).String())
				}
				fmt.Println("  ", o.Kind, strings.Join(res, " | "), "WHEN", litsString(o.S.F.Lits))
			}
			for _, r := range s.recs {
				fmt.Println("   LOOP", r.Key)
				for _, k := range r.Conts {
					fmt.Println("     CONT", litsString(k.F.Lits))
					for lv, u := range k.Ups {
						fmt.Println("        ", lv, ":=", u)
					}
				}
			}
			fmt.Println("------")
		}
	}
	c.paths += len(a.outs)
	if d.Refuse {
		keep := []sx.Outcome{}
		for _, o := range a.outs {
			if o.Kind == "return" && calleeError(o.Res[1]) {
				continue
			}
			if o.Kind == "return" {
				o.Res = o.Res[1:]
			}
			keep = append(keep, o)
		}
		a.outs, a.refusal = keep, true
	}
	msg := ds.same(a, b, d.Fn.Signature.Results())
	if msg != "" {
		// the carried values of one type that start from the same value may be numbered differently
		count := map[*sx.Term]int{}
		shapes := []*sx.Term{}
		for _, s := range []*side{a, b} {
			for _, r := range s.recs {
				for _, k := range r.Conts {
					for lv := range k.Ups {
						sh := sx.Shape(lv.Args[0])
						if sh.Args[0].Op == "mem" || lv.Args[0].Aux == "mem" {
							continue
						}
						n, ok := count[sh]
						if !ok {
							shapes = append(shapes, sh)
						}
						if i := atoi(lv.Aux) + 1; i > n {
							n = i
						}
						count[sh] = n
					}
				}
			}
		}
		sort.Slice(shapes, func(i, j int) bool { return shapes[i].ID < shapes[j].ID })
		tries := 0
		var try func(i int, perm map[*sx.Term][]int) bool
		try = func(i int, perm map[*sx.Term][]int) bool {
			if i == len(shapes) {
				tries++
				if tries == 1 || tries > 300 {
					return false // the identity was tried
				}
				b2, err := ds.run(d, d.Fn, ps, self, st, func(c *sx.Term, k int) int {
					if p := perm[c]; k < len(p) {
						return p[k]
					}
					return k
				})
				return err == nil && ds.same(a, b2, d.Fn.Signature.Results()) == ""
			}
			n := count[shapes[i]]
			if n < 2 || n > 4 {
				return try(i+1, perm)
			}
			return permute(n, func(p []int) bool {
				perm[shapes[i]] = p
				return try(i+1, perm)
			})
		}
		if try(0, map[*sx.Term][]int{}) {
			msg = ""
		}
	}
	return msg
}

var debugRefine string

// joint conjoins the facts of two paths: nil when they exclude each other.
func joint(f1 *sx.State, fa1 []sx.Forall, f2 *sx.Facts, fa2 []sx.Forall) *sx.State {
	st := f1.Clone()
	for _, l := range f2.Lits {
		if !st.F.Assume(l.Atom, l.Val) {
			return nil
		}
	}
	// a fact may decide one that was assumed before it
	for _, l := range st.F.Lits {
		if !st.F.Assume(l.Atom, l.Val) {
			return nil
		}
	}
	// what is used is not nil
	if !st.F.Live(f1.F.Alive) || !st.F.Live(f2.Alive) {
		return nil
	}
	all := append(append([]sx.Forall{}, fa1...), fa2...)
	if !possible(st, all) {
		return nil
	}
	// no iteration is possible: there is none
	for _, x := range all {
		ok := len(x.Cases) == 0
		for _, cs := range x.Cases {
			if with(st, cs) != nil {
				ok = true
				break
			}
		}
		if !ok && !st.F.Assume(sx.Lt(sx.Int(0), x.N), false) {
			return nil
		}
	}
	for _, x := range fa1 {
		for _, y := range fa2 {
			if x.N != y.N || x.J != y.J || overlap(st, x, y) {
				continue
			}
			// the two loops agree on no iteration: there is none
			if !st.F.Assume(sx.Lt(sx.Int(0), x.N), false) {
				return nil
			}
		}
	}
	return st
}

// unlikely tells that two paths agree but for a value that is nil on the first
// while the second uses it.
func unlikely(f1 *sx.State, f2 *sx.Facts) bool {
	st := f1.Clone()
	for _, l := range f2.Lits {
		if !st.F.Assume(l.Atom, l.Val) {
			return false
		}
	}
	return !st.F.Live(f2.Alive)
}

// mentioned tells if a fact is about an iteration.
func mentioned(st *sx.State, j *sx.Term) bool {
	for _, l := range st.F.Lits {
		if l.Atom.Contains(j) {
			return true
		}
	}
	return false
}

// possible tells if the facts agree with the loops that ran to their end: when there
// is a fact about an iteration, that iteration is one of the cases of the loop.
func possible(st *sx.State, fas []sx.Forall) bool {
	for i, fa := range fas {
		if !mentioned(st, fa.J) {
			continue
		}
		rest := fas[i+1:]
		for k, cs := range fa.Cases {
			s2 := with(st, cs)
			if s2 == nil {
				continue
			}
			next := rest
			if k < len(fa.Sub) && len(fa.Sub[k]) > 0 {
				next = append(append([]sx.Forall{}, fa.Sub[k]...), rest...)
			}
			if possible(s2, next) {
				return true
			}
		}
		return false
	}
	return true
}

// overlap tells if an iteration may be a case of both loops.
func overlap(st *sx.State, x, y sx.Forall) bool {
	for i, cs := range x.Cases {
		s2 := with(st, cs)
		if s2 == nil {
			continue
		}
		for k, cs2 := range y.Cases {
			s3 := with(s2, cs2)
			if s3 == nil {
				continue
			}
			subs := []sx.Forall{}
			var sx1, sy1 []sx.Forall
			if i < len(x.Sub) {
				sx1 = x.Sub[i]
			}
			if k < len(y.Sub) {
				sy1 = y.Sub[k]
			}
			subs = append(append(subs, sx1...), sy1...)
			if !possible(s3, subs) {
				continue
			}
			ok := true
			for _, a := range sx1 {
				for _, b := range sy1 {
					if a.N == b.N && a.J == b.J && !overlap(s3, a, b) && s3.F.Eval(sx.Lt(sx.Int(0), a.N)) == 1 {
						ok = false
					}
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}

func with(st *sx.State, ls []sx.Lit) *sx.State {
	s := st.Clone()
	for _, l := range ls {
		if !s.F.Assume(l.Atom, l.Val) {
			return nil
		}
	}
	return s
}

func consistent(st *sx.State, ls []sx.Lit) bool { return with(st, ls) != nil }

// sameValue tells if two values are equal under the facts.
func sameValue(st *sx.State, x, y *sx.Term) bool {
	if x == y {
		return true
	}
	switch st.F.Eval(sx.Eq(x, y)) {
	case 1:
		return true
	case 0:
		return false
	}
	if x.Op == "nil" && st.F.Eval(sx.IsNil(y)) == 1 || y.Op == "nil" && st.F.Eval(sx.IsNil(x)) == 1 {
		return true
	}
	// what is not in a map is the zero of its type
	for _, t := range []**sx.Term{&x, &y} {
		if l := *t; l.Op == "lookup" && l.Typ != nil && st.F.Eval(sx.T("lookupok", "", l.Args...)) == 0 {
			*t = sx.Zero(l.Typ)
			return sameValue(st, x, y)
		}
	}
	if isBoolTerm(x) || isBoolTerm(y) {
		for _, v := range []bool{true, false} {
			s := st.Clone()
			if s.F.Assume(x, v) && s.F.Assume(y, !v) {
				return false
			}
		}
		return true
	}
	// a value known to equal a constant
	cx, ox := st.F.ConstOf(x)
	cy, oy := st.F.ConstOf(y)
	if ox && oy && cx == cy {
		return true
	}
	// what is appended may be empty
	if x.Op == "concat" || y.Op == "concat" {
		if nx, ny := nonEmpty(st, x), nonEmpty(st, y); nx != x || ny != y {
			return sameValue(st, nx, ny)
		}
	}
	// componentwise
	if x.Op == y.Op && x.Aux == y.Aux && len(x.Args) == len(y.Args) && len(x.Args) > 0 {
		for i := range x.Args {
			if !sameValue(st, x.Args[i], y.Args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// nonEmpty drops what is known to be empty from what is appended.
func nonEmpty(st *sx.State, t *sx.Term) *sx.Term {
	if t.Op != "concat" {
		return t
	}
	out := sx.T("list", "")
	for _, a := range t.Args {
		if st.F.Eval(sx.IsNil(a)) == 1 || st.F.Eval(sx.Eq(sx.LenOf(a), sx.Int(0))) == 1 {
			continue
		}
		out = sx.Concat(out, a)
	}
	return out
}

func isBoolTerm(t *sx.Term) bool {
	if t == sx.True || t == sx.False {
		return true
	}
	if t.Typ != nil {
		b, ok := t.Typ.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsBoolean != 0
	}
	switch t.Op {
	case "not", "eq", "lt", "isnil", "and", "or", "lookupok", "isa":
		return true
	}
	return false
}

// writerTargets are the functions whose definition writes the receiver.
var writerTargets = map[string]bool{}

func (ds *definitions) writers() {
	writes := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, d := range ds.list {
			if d.Fn == nil || writes[d.Fn] {
				continue
			}
			for _, b := range d.Fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil && (writes[g] || strings.HasPrefix(g.Name(), "set_") && len(g.Blocks) == 0) {
							writes[d.Fn] = true
						}
					}
				}
			}
			if writes[d.Fn] {
				ch = true
				writerTargets[d.Target] = true
			}
		}
	}
}

// libraryWriters are the functions of libraries that are called for what they write.
var libraryWriters = map[string]bool{
	"Write": true, "WriteString": true, "WriteByte": true, "Reset": true, "XORKeyStream": true, "ReadFull": true, "Read": true,
	"UnmarshalFrom": true, "UnmarshalBinary": true, "Unmarshal": true, "CryptBlocks": true, "PutUint64": true, "PutUint32": true,
}

func effects(o sx.Outcome) []string {
	return effectsOf(o.S, o.S.Trace)
}

func effectsOf(s *sx.State, tr []sx.Event) []string {
	out := map[string]bool{}
	for _, ev := range tr {
		switch ev.Kind {
		case "write", "mapwrite":
			as := []string{}
			for _, a := range ev.Args {
				as = append(as, exact(s.Freeze(a)))
			}
			v := ""
			if ev.Term != nil {
				v = exact(s.Freeze(ev.Term))
			}
			out[ev.Kind+" "+exact(ev.Addr)+" ["+strings.Join(as, ",")+"] "+v] = true
		case "call":
			lib := libraryWriters[ev.Callee[strings.LastIndexByte(ev.Callee, '.')+1:]] && !strings.Contains(ev.Callee, modPath)
			if !lib && !writerTargets[ev.Callee] {
				continue
			}
			as := []string{}
			for _, a := range ev.Args {
				as = append(as, exact(s.Freeze(a)))
			}
			out["calls "+ev.Callee+"("+strings.Join(as, ", ")+")"] = true
		}
	}
	l := []string{}
	for k := range out {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// exact is a text that only equal terms have; the identity is left out of messages.
func exact(t *sx.Term) string { return fmt.Sprintf("%s\x00%p\x01", t, t) }

var identities = regexp.MustCompile("\x00[^\x01]*\x01")

// same compares what two functions do on every pair of compatible paths.
func (ds *definitions) same(a, b *side, sig *types.Tuple) string {
	type val struct{ r []*sx.Term }
	fa := make([]val, len(a.outs))
	fb := make([]val, len(b.outs))
	for i, o := range a.outs {
		for _, r := range o.Res {
			fa[i].r = append(fa[i].r, o.S.Freeze(r))
		}
	}
	for i, o := range b.outs {
		for _, r := range o.Res {
			fb[i].r = append(fb[i].r, o.S.Freeze(r))
		}
	}
	rel := map[*sx.Term]bool{}
	note := func(t *sx.Term) {
		t.Walk(func(x *sx.Term) bool {
			if x.Op == "lv" {
				rel[canon(x)] = true
			}
			return true
		})
	}
	pairs := 0
	for i, oa := range a.outs {
		met := false
		for k, ob := range b.outs {
			st := joint(oa.S, oa.S.Foralls, ob.S.F, ob.S.Foralls)
			if st == nil {
				// the definition has nothing to say about what it does not allow
				met = met || unlikely(oa.S, ob.S.F)
				continue
			}
			met = true
			pairs++
			facts := st.F.Lits
			if a.refusal {
				facts = ob.S.F.Lits
			}
			for _, l := range facts {
				note(l.Atom)
			}
			for _, r := range fa[i].r {
				note(r)
			}
			for _, r := range fb[k].r {
				note(r)
			}
			when := litsString(st.F.Lits)
			if oa.Kind != ob.Kind {
				return fmt.Sprintf("it ends with a %s where its definition ends with a %s, when %s", oa.Kind, ob.Kind, when)
			}
			if oa.Kind != "return" {
				continue
			}
			n := len(fa[i].r)
			if n > 0 && sig.Len() == n && isErrorType(sig.At(n-1).Type()) {
				ea, eb := st.F.Eval(sx.IsNil(fa[i].r[n-1])), st.F.Eval(sx.IsNil(fb[k].r[n-1]))
				if ea == 0 && eb == 0 {
					continue
				}
				if ea != eb {
					return fmt.Sprintf("it %s where its definition %s, when %s", failWord(ea), failWord(eb), when)
				}
				if ea == -1 && fa[i].r[n-1] != fb[k].r[n-1] && !sameValue(st, fa[i].r[n-1], fb[k].r[n-1]) {
					return fmt.Sprintf("the error is %s where its definition gives %s, when %s", sym(fa[i].r[n-1]), sym(fb[k].r[n-1]), when)
				}
				n--
			}
			for x := 0; x < n; x++ {
				if fb[k].r[x].Op == "made" {
					if m := sameObject(st, oa, oa.Res[x], fb[k].r[x]); m != "" {
						return fmt.Sprintf("%s, when %s", m, when)
					}
					continue
				}
				if vx, vy := fa[i].r[x], fb[k].r[x]; vx != vy && isFunc(oa.Res[x]) && isFunc(ob.Res[x]) {
					if m := ds.sameFunc(a, b, oa, ob, oa.Res[x], ob.Res[x]); m != "" {
						return fmt.Sprintf("the function returned differs: %s", m)
					}
					continue
				}
				if !sameValue(st, fa[i].r[x], fb[k].r[x]) {
					return fmt.Sprintf("the result %d is %s where its definition gives %s, when %s", x, sym(fa[i].r[x]), sym(fb[k].r[x]), when)
				}
			}
			if a.refusal {
				continue
			}
			ea, eb := effects(oa), effects(ob)
			if a.built {
				// what a builder remembers of its own parts is not seen
				ea, eb = without(ea, a.self), without(eb, b.self)
			}
			if strings.Join(ea, "\n") != strings.Join(eb, "\n") {
				return fmt.Sprintf("it writes {%s} where its definition writes {%s}, when %s", short(identities.ReplaceAllString(strings.Join(ea, "; "), "")), short(identities.ReplaceAllString(strings.Join(eb, "; "), "")), when)
			}
		}
		if !met {
			return fmt.Sprintf("undecided: no exit of the definition corresponds to the one reached when %s", litsString(oa.S.F.Lits))
		}
	}
	if pairs == 0 {
		return "undecided: no exit"
	}
	// the loops whose carried values matter
	for ch := true; ch; {
		ch = false
		n0 := len(rel)
		for _, recs := range [][]sx.LoopRec{a.recs, b.recs} {
			for _, r := range recs {
				for _, k := range r.Conts {
					for lv, u := range k.Ups {
						if rel[canon(lv)] {
							note(u)
							for _, l := range k.F.Lits {
								note(l.Atom)
							}
						}
					}
				}
			}
		}
		ch = len(rel) != n0
	}
	keys := map[*sx.Term]bool{}
	for lv := range rel {
		keys[lv.Args[0].Args[0]] = true
	}
	for key := range keys {
		if m := sameLoop(key, a.recs, b.recs, rel); m != "" {
			return m
		}
	}
	return ""
}

func isFunc(t *sx.Term) bool { return (t.Op == "closure" || t.Op == "func") && sx.FuncOf(t) != nil }

// sameFunc compares two function values made on two paths.
func (ds *definitions) sameFunc(a, b *side, oa, ob sx.Outcome, x, y *sx.Term) string {
	fx, fy := sx.FuncOf(x), sx.FuncOf(y)
	if fx == nil || fy == nil || len(fx.Blocks) == 0 || len(fy.Blocks) == 0 {
		return "undecided: " + sym(x) + " and " + sym(y)
	}
	ps := []*sx.Term{}
	for i := 0; i < fy.Signature.Params().Len(); i++ {
		ps = append(ps, sx.T("param", fmt.Sprintf("%d:fn", i)).Typed(fy.Signature.Params().At(i).Type()))
	}
	run := func(s *side, v *sx.Term, o sx.Outcome) (*side, error) {
		e := ds.engine(s.self)
		e.Opaque, e.Ord = s.eng.Opaque, s.eng.Ord
		st := o.S.Clone()
		st.Trace = nil
		outs, err := e.RunValue(v, ps, st)
		if err != nil {
			return nil, err
		}
		return &side{outs, e.Recs, e, s.self, false, false}, nil
	}
	ra, err := run(a, x, oa)
	if err != nil {
		return "undecided: " + err.Error()
	}
	rb, err := run(b, y, ob)
	if err != nil {
		return "undecided: the definition: " + err.Error()
	}
	return ds.same(ra, rb, fy.Signature.Results())
}

// sameObject compares the fields of an object with the ones its definition gives.
func sameObject(st *sx.State, o sx.Outcome, obj, made *sx.Term) string {
	if obj.Op != "new" || obj.Typ == nil {
		return "the result is " + sym(obj) + " where its definition makes a new object"
	}
	for _, f := range made.Args {
		name := fieldLike(obj.Typ, f.Aux, f.Typ)
		if name == "" {
			return "undecided: the object made has no field for its " + f.Aux
		}
		v := o.S.Freeze(o.S.Load(sx.T("addr", name, obj), f.Typ))
		if !sameValue(st, v, f.Args[0]) {
			return fmt.Sprintf("the %s of the object is %s where its definition gives %s", f.Aux, sym(v), sym(f.Args[0]))
		}
	}
	return ""
}

func failWord(e int) string {
	switch e {
	case 0:
		return "fails"
	case 1:
		return "succeeds"
	}
	return "may fail"
}

func sameLoop(key *sx.Term, ra, rb []sx.LoopRec, rel map[*sx.Term]bool) string {
	sel := func(rs []sx.LoopRec) []sx.LoopRec {
		out := []sx.LoopRec{}
		for _, r := range rs {
			if canon(r.Key) == key {
				out = append(out, r)
			}
		}
		return out
	}
	la, lb := sel(ra), sel(rb)
	if len(la) == 0 || len(lb) == 0 {
		return "a loop over " + sym(key) + " has no counterpart in its definition"
	}
	state := func(f *sx.Facts) *sx.State {
		s := sx.NewState()
		s.F = f
		return s
	}
	for _, x := range la {
		for _, y := range lb {
			for _, cx := range x.Conts {
				met := false
				for _, cy := range y.Conts {
					st := joint(state(cx.F), cx.Foralls, cy.F, cy.Foralls)
					if st == nil {
						continue
					}
					met = true
					seen := map[*sx.Term]bool{}
					both := []*sx.Term{}
					for _, ups := range []map[*sx.Term]*sx.Term{cx.Ups, cy.Ups} {
						for lv := range ups {
							if rel[canon(lv)] && !seen[lv] {
								seen[lv] = true
								both = append(both, lv)
							}
						}
					}
					for _, lv := range both {
						ux, okx := cx.Ups[lv]
						uy, oky := cy.Ups[lv]
						if !okx {
							ux = lv
						}
						if !oky {
							uy = lv
						}
						if !sameValue(st, ux, uy) {
							return fmt.Sprintf("an iteration carries %s where its definition carries %s, when %s", sym(ux), sym(uy), litsString(st.F.Lits))
						}
					}
				}
				_ = met
				for _, ey := range y.Exits {
					if st := joint(state(cx.F), cx.Foralls, ey.F, ey.Foralls); st != nil {
						return fmt.Sprintf("the loop goes on where its definition leaves it, when %s", litsString(st.F.Lits))
					}
				}
			}
			for _, ex := range x.Exits {
				for _, cy := range y.Conts {
					if st := joint(state(ex.F), ex.Foralls, cy.F, cy.Foralls); st != nil {
						return fmt.Sprintf("the loop is left where its definition goes on, when %s", litsString(st.F.Lits))
					}
				}
			}
		}
	}
	return ""
}

func atoi(s string) int {
	n := 0
	for _, r := range s {
		n = n*10 + int(r-'0')
	}
	return n
}

// permute calls f on the permutations of n until it returns true; the first is the identity.
func permute(n int, f func([]int) bool) bool {
	p := make([]int, n)
	used := make([]bool, n)
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == n {
			return f(append([]int{}, p...))
		}
		for i := 0; i < n; i++ {
			if used[i] {
				continue
			}
			used[i] = true
			p[k] = i
			if rec(k + 1) {
				return true
			}
			used[i] = false
		}
		return false
	}
	return rec(0)
}

var canonMemo = map[*sx.Term]*sx.Term{}

// canon forgets how the iterations are named.
func canon(t *sx.Term) *sx.Term {
	if len(t.Args) == 0 {
		return t
	}
	if c, ok := canonMemo[t]; ok {
		return c
	}
	n := make([]*sx.Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		n[i] = canon(a)
		ch = ch || n[i] != a
	}
	c := t
	if t.Op == "iter" {
		c = sx.T("iter", "*", n...)
	} else if ch {
		c = sx.T(t.Op, t.Aux, n...)
	}
	canonMemo[t] = c
	return c
}
