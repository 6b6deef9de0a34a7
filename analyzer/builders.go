package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sx"
)

// setter is one way of supplying a part to a builder.
type setter struct {
	Name   string
	Fn     *ssa.Function
	Params []*types.Var
}

// builderUnit is a builder interface and the type that implements it.
type builderUnit struct {
	Key     string // rel/pkg.Iface
	Rel     string
	Iface   *types.Named
	Impl    *types.Named
	Ptr     types.Type
	Setters []*setter
	Create  *ssa.Function
	Now     *ssa.Function
	Product *types.Named // interface built
}

func (p *Program) method(t types.Type, pkg *types.Package, name string) *ssa.Function {
	return p.SSA.LookupMethod(t, pkg, name)
}

// implementers lists the source types of the package that implement the interface.
func (p *Program) implementers(pkg *ssa.Package, it *types.Interface) []*types.Named {
	out := []*types.Named{}
	for _, name := range sortedMembers(pkg) {
		t, ok := pkg.Members[name].(*ssa.Type)
		if !ok {
			continue
		}
		n, ok := t.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, isI := n.Underlying().(*types.Interface); isI {
			continue
		}
		if types.Implements(types.NewPointer(n), it) {
			out = append(out, n)
		}
	}
	return out
}

func sortedMembers(pkg *ssa.Package) []string {
	out := []string{}
	for n := range pkg.Members {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func (p *Program) rels() []string {
	out := []string{}
	for r := range p.ByRel {
		out = append(out, r)
	}
	sort.Strings(out)
	return out
}

// builders enumerates the builder interfaces of the repository.
func (p *Program) builders() ([]*builderUnit, []string) {
	e := p.engine()
	_ = e
	out := []*builderUnit{}
	problems := []string{}
	for _, rel := range p.rels() {
		pkg := p.ByRel[rel]
		for _, name := range sortedMembers(pkg) {
			t, ok := pkg.Members[name].(*ssa.Type)
			if !ok {
				continue
			}
			n, ok := t.Type().(*types.Named)
			if !ok {
				continue
			}
			it, ok := n.Underlying().(*types.Interface)
			if !ok {
				continue
			}
			has := map[string]*types.Func{}
			for i := 0; i < it.NumMethods(); i++ {
				has[it.Method(i).Name()] = it.Method(i)
			}
			if has["Create"] == nil || has["Now"] == nil {
				continue
			}
			key := rel + "." + name
			impl := p.implementers(pkg, it)
			if len(impl) == 0 {
				if unimplemented[key] != "" {
					continue
				}
				problems = append(problems, fmt.Sprintf("%s: no implementation", key))
				continue
			}
			for _, im := range impl {
				u := &builderUnit{Key: key, Rel: rel, Iface: n, Impl: im, Ptr: types.NewPointer(im)}
				u.Create = p.method(u.Ptr, pkg.Pkg, "Create")
				u.Now = p.method(u.Ptr, pkg.Pkg, "Now")
				sig := has["Now"].Type().(*types.Signature)
				if sig.Results().Len() > 0 {
					u.Product, _ = sig.Results().At(0).Type().(*types.Named)
				}
				for _, mn := range sortedNames(has) {
					if mn == "Create" || mn == "Now" {
						continue
					}
					s := &setter{Name: mn, Fn: p.method(u.Ptr, pkg.Pkg, mn)}
					ms := has[mn].Type().(*types.Signature)
					for i := 0; i < ms.Params().Len(); i++ {
						s.Params = append(s.Params, ms.Params().At(i))
					}
					u.Setters = append(u.Setters, s)
				}
				out = append(out, u)
			}
		}
	}
	return out, problems
}

func sortedNames(m map[string]*types.Func) []string {
	out := []string{}
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// interfaces declared without an implementation in the repository
var unimplemented = map[string]string{
	"domain/identities.AssetsBuilder": "declared for later use, nothing implements it",
}

// supply is the abstract value given to a setter parameter.
type flavour int

const (
	fullV  flavour = iota // non nil, non empty
	emptyV                // non nil and empty (lists, maps, strings), zero for numbers
	anyV                  // no assumption
)

func symFor(s *setter, i int) *sx.Term {
	return sx.Sym("$"+s.Name+fmt.Sprint(i), s.Params[i].Type())
}

func assumeFlavour(st *sx.State, t *sx.Term, ty types.Type, f flavour) bool {
	switch u := ty.Underlying().(type) {
	case *types.Interface, *types.Pointer, *types.Signature:
		if f == fullV {
			return st.F.Assume(sx.IsNil(t), false)
		}
		if f == emptyV {
			return st.F.Assume(sx.IsNil(t), true)
		}
	case *types.Slice, *types.Map:
		if f == fullV {
			return st.F.Assume(sx.IsNil(t), false) && st.F.Assume(sx.Lt(sx.Int(0), sx.LenOf(t)), true)
		}
		if f == emptyV {
			return st.F.Assume(sx.IsNil(t), false) && st.F.Assume(sx.Lt(sx.Int(0), sx.LenOf(t)), false)
		}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if f == fullV {
				return st.F.Assume(sx.Lt(sx.Int(0), sx.LenOf(t)), true)
			}
			if f == emptyV {
				return st.F.Assume(sx.Lt(sx.Int(0), sx.LenOf(t)), false)
			}
		}
		if u.Info()&types.IsInteger != 0 {
			if f == fullV {
				return st.F.Assume(sx.Eq(t, sx.Int(0)), false)
			}
			if f == emptyV {
				return st.F.Assume(sx.Eq(t, sx.Int(0)), true)
			}
		}
	}
	return true
}

type buildRun struct {
	State   *sx.State
	Builder *sx.Term
	Outs    []sx.Outcome
}

// start yields the states after Create.
func (p *Program) startBuilder(u *builderUnit) (*sx.State, *sx.Term, error) {
	e := p.engine()
	outs, err := e.Run(u.Create, sx.Params(u.Create), sx.NewState())
	if err != nil {
		return nil, nil, err
	}
	if len(outs) != 1 || outs[0].Kind != "return" {
		return nil, nil, fmt.Errorf("%s.Create has %d exits", u.Key, len(outs))
	}
	return outs[0].S, outs[0].Res[0], nil
}

// build composes Create, the given setters (in order) and Now.
func (p *Program) build(u *builderUnit, calls []call) ([]built, error) {
	st, b, err := p.startBuilder(u)
	if err != nil {
		return nil, err
	}
	states := []*sx.State{st}
	for _, c := range calls {
		var next []*sx.State
		for _, s := range states {
			args := []*sx.Term{b}
			s = s.Clone()
			ok := true
			for i := range c.s.Params {
				t := symFor(c.s, i)
				args = append(args, t)
				ok = ok && assumeFlavour(s, t, c.s.Params[i].Type(), c.f)
			}
			if !ok {
				continue
			}
			outs, err := p.engine().Run(c.s.Fn, args, s)
			if err != nil {
				return nil, err
			}
			for _, o := range outs {
				if o.Kind == "return" {
					next = append(next, o.S)
				}
			}
		}
		states = next
	}
	res := []built{}
	for _, s := range states {
		n0 := len(s.F.Lits)
		outs, err := p.engine().Run(u.Now, []*sx.Term{b}, s)
		if err != nil {
			return nil, err
		}
		for _, o := range outs {
			res = append(res, classify(o, n0, b))
		}
	}
	return res, nil
}

// completed is what a given builder makes once it has all its parts, when there is only
// one way for that to succeed.
func (p *Program) completed(b *sx.Term, st *sx.State) (*sx.Term, *sx.State) {
	us, _ := p.builders()
	for _, u := range us {
		if !types.Identical(types.NewPointer(u.Impl), b.Typ) {
			continue
		}
		outs, err := p.engine().Run(u.Create, []*sx.Term{b}, st.Clone())
		if err != nil || len(outs) != 1 || outs[0].Kind != "return" {
			return nil, nil
		}
		b, st = outs[0].Res[0], outs[0].S
		for _, s := range u.Setters {
			args := []*sx.Term{b}
			for i := range s.Params {
				t := symFor(s, i)
				args = append(args, t)
				if !assumeFlavour(st, t, s.Params[i].Type(), fullV) {
					return nil, nil
				}
			}
			outs, err := p.engine().Run(s.Fn, args, st)
			if err != nil || len(outs) != 1 || outs[0].Kind != "return" {
				return nil, nil
			}
			st = outs[0].S
		}
		outs, err = p.engine().Run(u.Now, []*sx.Term{b}, st)
		if err != nil {
			return nil, nil
		}
		var obj *sx.Term
		for _, o := range outs {
			if r := classify(o, 0, b); r.Kind == "success" {
				if obj != nil {
					return nil, nil
				}
				obj, st = r.Obj, o.S
			}
		}
		if obj == nil {
			return nil, nil
		}
		return obj, st
	}
	return nil, nil
}

type call struct {
	s *setter
	f flavour
}

type built struct {
	O    sx.Outcome
	Kind string // success, failure, delegated, panic, undecided
	Obj  *sx.Term
	Lits []sx.Lit
	B    *sx.Term
}

func classify(o sx.Outcome, n0 int, b *sx.Term) built {
	r := built{O: o, Lits: o.S.F.Delta(n0), B: b}
	if o.Kind != "return" {
		r.Kind = "panic"
		return r
	}
	if len(o.Res) != 2 {
		r.Kind = "undecided"
		return r
	}
	en := o.S.F.Eval(sx.IsNil(o.Res[1]))
	on := o.S.F.Eval(sx.IsNil(o.Res[0]))
	switch {
	case en == 1 && on == 0:
		r.Kind = "success"
		r.Obj = o.Res[0]
	case en == 0 && on == 1:
		r.Kind = "failure"
	case en == 0:
		r.Kind = "failure"
	case en == -1:
		r.Kind = "delegated"
	case en == 1 && on == 1:
		r.Kind = "nilnil"
	default:
		r.Kind = "maybe-nil"
		r.Obj = o.Res[0]
	}
	return r
}

func kinds(bs []built) string {
	m := map[string]int{}
	for _, b := range bs {
		m[b.Kind]++
	}
	ks := []string{}
	for _, k := range sx.SortedKeys(m) {
		ks = append(ks, fmt.Sprintf("%s:%d", k, m[k]))
	}
	return strings.Join(ks, ",")
}

// describe prints what is known of every builder; used to write the table.
func (p *Program) describeBuilders() {
	us, probs := p.builders()
	for _, pr := range probs {
		fmt.Println("PROBLEM", pr)
	}
	for _, u := range us {
		acc := []string{}
		if u.Product != nil {
			if it, ok := u.Product.Underlying().(*types.Interface); ok {
				for i := 0; i < it.NumMethods(); i++ {
					acc = append(acc, it.Method(i).Name())
				}
			}
		}
		fmt.Println(u.Key, u.Impl.Obj().Name(), "->", strings.Join(acc, ","))
		all := []call{}
		for _, s := range u.Setters {
			all = append(all, call{s, fullV})
		}
		r, err := p.build(u, all)
		fmt.Println("   ALL", kinds(r), err)
		for i, s := range u.Setters {
			c := append(append([]call{}, all[:i]...), all[i+1:]...)
			r, err := p.build(u, c)
			ty := ""
			for _, pp := range s.Params {
				ty += " " + types.TypeString(pp.Type(), types.RelativeTo(u.Iface.Obj().Pkg()))
			}
			c2 := append([]call{}, all...)
			c2[i].f = emptyV
			r2, err2 := p.build(u, c2)
			r3, _ := p.build(u, []call{all[i]})
			fmt.Println("   ", s.Name, ty, "| missing:", kinds(r), err, "| empty:", kinds(r2), err2, "| only:", kinds(r3))
		}
	}
	fmt.Println(len(us))
}
