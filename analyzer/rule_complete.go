package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// complete judges that what the constructors make is complete.
type complete struct {
	p     *Program
	memo  map[ssa.Value]string
	sites map[*ssa.Function][]*ssa.CallCommon
}

// nilness tells why a value may be nil: "" when it never is.
func (k *complete) nilness(v ssa.Value, d int) string {
	if w, ok := k.memo[v]; ok {
		return w
	}
	k.memo[v] = "" // by induction
	w := k.nilness0(v, d)
	if w == "" {
		delete(k.memo, v)
	} else {
		k.memo[v] = w
	}
	return w
}

func (k *complete) nilness0(v ssa.Value, d int) string {
	if d > 40 {
		return "its origin is too far"
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return "nothing is given for it"
		}
		return ""
	case *ssa.Alloc, *ssa.MakeClosure, *ssa.Function, *ssa.MakeMap, *ssa.MakeSlice, *ssa.FieldAddr, *ssa.Global:
		return ""
	case *ssa.MakeInterface:
		return k.nilness(x.X, d+1)
	case *ssa.ChangeInterface:
		return k.nilness(x.X, d+1)
	case *ssa.ChangeType:
		return k.nilness(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w := k.nilness(e, d+1); w != "" {
				return w
			}
		}
		return ""
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return "it is computed"
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			return "" // a field of a service, judged where it is given
		case *ssa.FreeVar:
			return ""
		case *ssa.Global:
			n := 0
			for _, st := range k.p.storesTo(a) {
				n++
				if w := k.nilness(st, d+1); w != "" {
					return w
				}
			}
			if n == 0 {
				return "the variable " + a.Name() + " is never given a value"
			}
			return ""
		case *ssa.Alloc:
			n := 0
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a {
					n++
					if w := k.nilness(st.Val, d+1); w != "" {
						return w
					}
				}
			}
			if n == 0 {
				return "it is never given a value"
			}
			return ""
		}
		return ""
	case *ssa.Field:
		return ""
	case *ssa.Parameter:
		fn := x.Parent()
		idx := -1
		for i, p := range fn.Params {
			if p == x {
				idx = i
			}
		}
		if token.IsExported(fn.Name()) || fn.Signature.Recv() != nil {
			return "" // the caller's
		}
		for _, s := range k.sites[fn] {
			if idx < len(s.Args) {
				if w := k.nilness(s.Args[idx], d+1); w != "" {
					return w
				}
			}
		}
		return ""
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return k.result(c, x.Index, d)
		}
	case *ssa.Call:
		return k.result(x, 0, d)
	}
	return ""
}

func (k *complete) result(c *ssa.Call, i, d int) string {
	f := c.Call.StaticCallee()
	if f == nil || f.Pkg == nil || !k.p.inRepo(f.Pkg.Pkg) {
		return ""
	}
	return k.returns(f, i, d)
}

func (k *complete) returns(f *ssa.Function, i, d int) string {
	res := ""
	eachInstr(f, func(in ssa.Instruction) {
		r, ok := in.(*ssa.Return)
		if !ok || i >= len(r.Results) || res != "" {
			return
		}
		if n := len(r.Results); n > 1 && isErrorType(f.Signature.Results().At(n-1).Type()) {
			if e, ok := r.Results[n-1].(*ssa.Const); !ok || !e.IsNil() {
				return // a failure
			}
		}
		if w := k.nilness(r.Results[i], d+1); w != "" {
			res = f.Name() + " may give nothing: " + w
		}
	})
	return res
}

// ruleComplete: every service can be made, and is made with all its collaborators.
func ruleComplete(c *Ctx) {
	k := &complete{p: c.P, memo: map[ssa.Value]string{}, sites: map[*ssa.Function][]*ssa.CallCommon{}}
	for _, fn := range c.P.Funcs {
		eachInstr(fn, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil && !c.P.testHelper(fn) {
					k.sites[f] = append(k.sites[f], ci.Common())
				}
			}
		})
	}
	// the collaborators that are given later
	set := map[*types.Var]bool{}
	for _, fn := range c.P.Funcs {
		eachInstr(fn, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			if _, fresh := fa.X.(*ssa.Alloc); fresh {
				return
			}
			f := fieldVar(fa.X.Type(), fa.Field)
			if f == nil || !service(f.Type()) {
				return
			}
			w := k.nilness(st.Val, 0)
			c.Check(w == "", "collaborator", short(fn.String())+": "+f.Name(), c.P.where(st.Pos()), "it loses its %s: %s", f.Name(), w)
			set[f] = w == ""
		})
	}
	made := map[*types.TypeName]bool{}
	for _, fn := range c.P.Funcs {
		if c.P.testHelper(fn) {
			continue
		}
		// 1. what an exported constructor gives
		sig := fn.Signature
		if fn.Parent() == nil && sig.Recv() == nil && token.IsExported(fn.Name()) && sig.Results().Len() > 0 {
			if n, ok := types.Unalias(sig.Results().At(0).Type()).(*types.Named); ok && types.IsInterface(n) && c.P.inRepo(n.Obj().Pkg()) {
				made[n.Obj()] = true
				c.Saw(fn)
				w := k.returns(fn, 0, 0)
				c.Check(w == "", "constructor", short(fn.String()), c.P.fnWhere(fn), "%s", w)
			}
		}
		// 2. every collaborator of an object is given when it is made
		eachInstr(fn, func(in ssa.Instruction) {
			al, ok := in.(*ssa.Alloc)
			if !ok {
				return
			}
			n := derefNamed(al.Type())
			if n == nil || !c.P.inRepo(n.Obj().Pkg()) {
				return
			}
			st, ok := n.Underlying().(*types.Struct)
			if !ok {
				return
			}
			given := map[int][]ssa.Value{}
			whole := false
			for _, r := range *al.Referrers() {
				switch y := r.(type) {
				case *ssa.FieldAddr:
					for _, rr := range *y.Referrers() {
						if s, ok := rr.(*ssa.Store); ok && s.Addr == y {
							given[y.Field] = append(given[y.Field], s.Val)
						}
					}
				case *ssa.Store:
					if y.Addr == al {
						whole = true
					}
				}
			}
			if whole {
				return
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if !service(f.Type()) {
					continue
				}
				c.Saw(fn)
				what := short(fn.String()) + ": " + n.Obj().Name() + "." + f.Name()
				if len(given[i]) == 0 {
					c.Check(set[f], "collaborator", what, c.P.where(al.Pos()), "it is made without its %s, and nothing gives it later", f.Name())
					continue
				}
				w := ""
				for _, v := range given[i] {
					if x := k.nilness(v, 0); x != "" {
						w = x
					}
				}
				c.Check(w == "", "collaborator", what, c.P.where(al.Pos()), "it may be made without its %s: %s", f.Name(), w)
			}
		})
	}
	// 3. every service that is implemented can be obtained
	for _, rel := range c.P.rels() {
		pkg := c.P.ByRel[rel]
		for _, name := range sortedMembers(pkg) {
			tn, ok := pkg.Members[name].(*ssa.Type)
			if !ok || !token.IsExported(name) {
				continue
			}
			it, ok := tn.Type().Underlying().(*types.Interface)
			if !ok || !service(tn.Type()) {
				continue
			}
			impl := c.P.implementers(pkg, it)
			if len(impl) == 0 {
				continue
			}
			c.Check(made[tn.Object().(*types.TypeName)] || k.reached(pkg, tn.Type(), made), "obtainable", rel+"."+name, c.P.where(tn.Pos()), "it is implemented, but nothing gives one")
		}
	}
}

// reached tells if a builder of the package gives a service.
func (k *complete) reached(pkg *ssa.Package, t types.Type, made map[*types.TypeName]bool) bool {
	for _, name := range sortedMembers(pkg) {
		tn, ok := pkg.Members[name].(*ssa.Type)
		if !ok || !token.IsExported(name) {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok || !made[n.Obj()] {
			continue
		}
		if now := ifaceMethods(n)["Now"]; now != nil {
			if r := now.Type().(*types.Signature).Results(); r.Len() > 0 && types.Identical(r.At(0).Type(), t) {
				return true
			}
		}
	}
	return false
}
