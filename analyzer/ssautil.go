package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// origin is where a value comes from.
type origin struct {
	Kind string // alloc, make, const, global, param, freevar, field, call, closure, other
	V    ssa.Value
	Path []string // fields and elements crossed to reach the value, outermost last
}

// passing are the functions whose results are being followed.
var passing = map[*ssa.Function]bool{}

// passedOn gives the arguments of which a result of a call is one, when it is one of them
// or is allocated by the function; nil otherwise.
func passedOn(c *ssa.Call, idx int) []ssa.Value {
	f := c.Call.StaticCallee()
	if f == nil || f.Pkg == nil || len(f.Blocks) == 0 || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || passing[f] {
		return nil
	}
	passing[f] = true
	defer delete(passing, f)
	out := []ssa.Value{}
	ok := true
	eachInstr(f, func(in ssa.Instruction) {
		r, is := in.(*ssa.Return)
		if !is || !ok || idx >= len(r.Results) {
			return
		}
		for _, o := range originsOf(r.Results[idx]) {
			switch o.Kind {
			case "make", "const":
			case "alloc":
				ok = ok && len(o.Path) == 0
			case "param":
				at := -1
				for i, q := range f.Params {
					if q == o.V && len(o.Path) == 0 {
						at = i
					}
				}
				if at < 0 || at >= len(c.Call.Args) {
					ok = false
					return
				}
				out = append(out, c.Call.Args[at])
			default:
				ok = false
			}
		}
	})
	if !ok || len(out) == 0 {
		return nil
	}
	return out
}

// originsOf follows a value back to where it comes from, without leaving the
// function. Pointers to local variables are looked through.
func originsOf(v ssa.Value) []origin {
	out := []origin{}
	seen := map[ssa.Value]bool{}
	var w func(v ssa.Value, path []string)
	w = func(v ssa.Value, path []string) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Alloc:
			out = append(out, origin{"alloc", x, path})
		case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
			out = append(out, origin{"make", x, path})
		case *ssa.MakeClosure, *ssa.Function, *ssa.Builtin:
			out = append(out, origin{"closure", x, path})
		case *ssa.Const:
			out = append(out, origin{"const", x, path})
		case *ssa.Global:
			out = append(out, origin{"global", x, path})
		case *ssa.Parameter:
			out = append(out, origin{"param", x, path})
		case *ssa.FreeVar:
			out = append(out, origin{"freevar", x, path})
		case *ssa.Phi:
			for _, e := range x.Edges {
				w(e, path)
			}
		case *ssa.FieldAddr:
			w(x.X, append([]string{fieldName(x.X.Type(), x.Field)}, path...))
		case *ssa.Field:
			w(x.X, append([]string{fieldName(x.X.Type(), x.Field)}, path...))
		case *ssa.IndexAddr:
			w(x.X, append([]string{"[]"}, path...))
		case *ssa.Index:
			w(x.X, append([]string{"[]"}, path...))
		case *ssa.Lookup:
			w(x.X, append([]string{"[]"}, path...))
		case *ssa.Slice:
			w(x.X, path)
		case *ssa.ChangeInterface:
			w(x.X, path)
		case *ssa.ChangeType:
			w(x.X, path)
		case *ssa.MakeInterface:
			w(x.X, path)
		case *ssa.Convert:
			w(x.X, path)
		case *ssa.TypeAssert:
			w(x.X, path)
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				if as := passedOn(c, x.Index); as != nil {
					for _, a := range as {
						w(a, path)
					}
					return
				}
			}
			w(x.Tuple, path)
		case *ssa.UnOp:
			if x.Op != token.MUL {
				out = append(out, origin{"other", x, path})
				return
			}
			// loads of a local variable: the values stored in it
			if al, ok := x.X.(*ssa.Alloc); ok {
				n := 0
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == al {
						n++
						w(st.Val, path)
					}
				}
				if n == 0 {
					out = append(out, origin{"alloc", al, path})
				}
				return
			}
			w(x.X, append([]string{"*"}, path...))
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				w(x.Call.Args[0], path)
				return
			}
			if as := passedOn(x, 0); as != nil {
				for _, a := range as {
					w(a, path)
				}
				return
			}
			out = append(out, origin{"call", x, path})
		case *ssa.Next:
			w(x.Iter, append([]string{"[]"}, path...))
		case *ssa.Range:
			w(x.X, path)
		default:
			out = append(out, origin{"other", v, path})
		}
	}
	w(v, nil)
	return out
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || i >= st.NumFields() {
		return "?"
	}
	return st.Field(i).Name()
}

// derefNamed gives the named type behind a pointer.
func derefNamed(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

// isBuilderIface tells if a type is a builder interface of the repository.
func (p *Program) isBuilderIface(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || !p.inRepo(n.Obj().Pkg()) {
		return false
	}
	m := ifaceMethods(n)
	return m["Create"] != nil && m["Now"] != nil
}

func relOf(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath), "/")
}

func top(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// calleeName names what a call calls: an interface method or a function.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		t := types.Unalias(c.Value.Type())
		if n, ok := t.(*types.Named); ok {
			return short(n.String()) + "." + c.Method.Name()
		}
		return "interface." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return short(f.String())
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return "dynamic"
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func eachInstr(fn *ssa.Function, f func(ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f(in)
		}
	}
}

// recvName names the receiver type of a method, "" for functions.
func recvName(fn *ssa.Function) string {
	fn = top(fn)
	if fn.Signature.Recv() == nil {
		return ""
	}
	if n := derefNamed(fn.Signature.Recv().Type()); n != nil {
		return n.Obj().Name()
	}
	return ""
}
