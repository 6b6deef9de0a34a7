package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sx"
)

// write is a write to memory that a function did not allocate.
type write struct {
	Fn    *ssa.Function
	In    ssa.Instruction
	Kind  string
	Org   origin
	Owner *types.Named // type of the outermost object written
	Field string
}

// writesOf lists the writes of a function to memory it did not allocate.
func (p *Program) writesOf(fn *ssa.Function) []write {
	out := []write{}
	add := func(in ssa.Instruction, kind string, v ssa.Value) {
		for _, o := range originsOf(v) {
			switch o.Kind {
			case "make", "const", "closure":
				continue
			case "alloc":
				// a local variable or object; writing through a pointer stored in it is not local
				through := false
				for _, s := range o.Path {
					if s == "*" {
						through = true
					}
				}
				if !through {
					continue
				}
			case "call":
				// the result of an allocation function of the same package is fresh
				if c, ok := o.V.(*ssa.Call); ok && kind != "append" && freshCall(c, 0) {
					continue
				}
			}
			w := write{Fn: fn, In: in, Kind: kind, Org: o}
			w.Owner = derefNamed(o.V.Type())
			for _, s := range o.Path {
				if s != "*" {
					w.Field = s
					break
				}
			}
			out = append(out, w)
		}
	}
	eachInstr(fn, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			if _, ok := x.Addr.(*ssa.Alloc); ok {
				return
			}
			add(in, "store", x.Addr)
		case *ssa.MapUpdate:
			add(in, "mapwrite", x.Map)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "copy", "delete", "clear":
					add(in, b.Name(), x.Call.Args[0])
				case "append":
					add(in, "append", x.Call.Args[0])
				}
				return
			}
			n := calleeName(&x.Call)
			if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") || n == "slices.Reverse" || strings.HasPrefix(n, "slices.Delete") || strings.HasPrefix(n, "slices.Insert") || strings.HasPrefix(n, "slices.Compact") {
				if n != "sort.Search" && n != "sort.SearchInts" {
					add(in, n, x.Call.Args[0])
				}
			}
		}
	})
	return out
}

// freshCall tells that a call returns memory allocated by the callee.
func freshCall(c *ssa.Call, d int) bool {
	if d > 4 {
		return false
	}
	f := c.Call.StaticCallee()
	if f == nil {
		return false
	}
	if len(f.Blocks) == 0 || f.Pkg == nil {
		return false
	}
	if !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
		// standard functions that return a new value
		switch f.Pkg.Pkg.Path() {
		case "strings", "bytes", "strconv", "encoding/hex", "crypto/sha512", "math/big", "encoding/base64", "fmt", "errors":
			return true
		}
		return false
	}
	ok := true
	n := 0
	eachInstr(f, func(in ssa.Instruction) {
		if r, isR := in.(*ssa.Return); isR && len(r.Results) > 0 {
			for _, o := range originsOf(r.Results[0]) {
				n++
				switch o.Kind {
				case "make", "const":
				case "alloc":
					if len(o.Path) > 0 {
						ok = false
					}
				case "call":
					cc, isC := o.V.(*ssa.Call)
					if !isC || !freshCall(cc, d+1) {
						ok = false
					}
				default:
					ok = false
				}
			}
		}
	})
	return ok && n > 0
}

func (p *Program) dumpWrites() {
	type row struct{ k, s string }
	rows := []row{}
	for _, fn := range p.Funcs {
		for _, w := range p.writesOf(fn) {
			ow := "-"
			if w.Owner != nil {
				ow = w.Owner.Obj().Name()
			}
			rows = append(rows, row{relOf(fn) + " " + recvName(fn) + " " + fn.Name(), fmt.Sprintf("%s %s %s %s.%s %v", w.Kind, w.Org.Kind, w.Org.V.Name(), ow, w.Field, w.Org.Path)})
		}
	}
	sort.Slice(rows, func(i, j int) bool { return rows[i].k < rows[j].k })
	for _, r := range rows {
		fmt.Fprintln(os.Stdout, r.k, "|", r.s)
	}
}

// stateFields lists the fields that methods may write after construction, with the reason.
var stateFields = map[string]string{
	"domain/languages/lexers/asts/mistakes.adapter.currentScript":  "reset at the beginning of every conversion (rule adapter-state)",
	"domain/languages/lexers/asts/paths.adapter.currentTokenStack": "reset at the beginning of every conversion (rule adapter-state)",
	"domain/languages/lexers/asts/paths.adapter.dependencies":      "reset at the beginning of every conversion (rule adapter-state)",
	"domain/languages/lexers/asts/tokens.adapter.recursiveTokens":  "reset at the beginning of every conversion (rule adapter-state)",
	"domain/languages/lexers/asts/tokens.adapter.canContainPrefix": "restored at the end of every conversion (rule adapter-state)",
	"domain/languages/lexers/roots.adapter.tokenRoots":             "reset at the beginning of every conversion (rule adapter-state)",
	"domain/hashtree.block.list":                                   "a block under construction, not shared",
	"domain/hashtree.leaves.list":                                  "leaves under construction, merged while the tree is ordered",
}

// appendExceptions lists appends to a list of the caller that are harmless.
var appendExceptions = map[string]string{
	"domain/languages/lexers/asts/mistakes []string": "the names of the parents: the list is only read by the mistake that ends the conversion",
}

func relType(n *types.Named) string {
	if n == nil || n.Obj().Pkg() == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(n.Obj().Pkg().Path(), modPath), "/") + "." + n.Obj().Name()
}

// callersOf lists the static call sites of a function.
func (p *Program) callersOf(fn *ssa.Function) []*ssa.CallCommon {
	if p.callers == nil {
		p.callers = map[*ssa.Function][]*ssa.CallCommon{}
		for _, f := range p.Funcs {
			eachInstr(f, func(in ssa.Instruction) {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						p.callers[g] = append(p.callers[g], ci.Common())
					}
				}
			})
		}
	}
	return p.callers[fn]
}

// implTypes gives the types that implement a builder interface.
func (p *Program) builderTypes() map[*types.Named]bool {
	if p.btypes == nil {
		p.btypes = map[*types.Named]bool{}
		us, _ := p.builders()
		for _, u := range us {
			p.btypes[u.Impl] = true
		}
	}
	return p.btypes
}

// judgeWrite tells why a write is acceptable, "" when it is not.
func (p *Program) judgeWrite(fn *ssa.Function, kind string, o origin, d int) (string, bool) {
	owner := derefNamed(o.V.Type())
	if o.Kind == "freevar" {
		// a closure writes a variable of its parent: judge the binding
		fv := o.V.(*ssa.FreeVar)
		idx := -1
		for i, v := range fn.FreeVars {
			if v == fv {
				idx = i
			}
		}
		ok, n := true, 0
		why := ""
		if fn.Parent() != nil {
			eachInstr(fn.Parent(), func(in ssa.Instruction) {
				mc, isM := in.(*ssa.MakeClosure)
				if !isM || mc.Fn != fn || idx < 0 {
					return
				}
				for _, bo := range bindingOrigins(mc.Bindings[idx]) {
					n++
					path := append(append([]string{}, bo.Path...), o.Path...)
					if len(path) > 0 && path[0] == "*" {
						path = path[1:]
					}
					w, good := p.judgeWrite(fn.Parent(), kind, origin{bo.Kind, bo.V, path}, d+1)
					ok = ok && good
					why = w
				}
			})
		}
		return why, ok && n > 0
	}
	field := ""
	for _, s := range o.Path {
		if s != "*" {
			field = s
			break
		}
	}
	if owner != nil {
		key := relType(owner) + "." + field
		if r := stateFields[key]; r != "" {
			return key + ": " + r, true
		}
		// constructor time: the receiver of a builder
		if o.Kind == "param" && p.builderTypes()[owner] && len(o.Path) == 1 {
			if top(fn).Signature.Recv() != nil && len(top(fn).Params) > 0 && top(fn).Params[0] == o.V {
				return "builder", true
			}
		}
	}
	switch o.Kind {
	case "make", "const", "closure":
		return "fresh", true
	case "alloc":
		for _, s := range o.Path {
			if s == "*" {
				return "", false
			}
		}
		return "fresh", true
	case "call":
		if c, ok := o.V.(*ssa.Call); ok && freshCall(c, 0) && len(o.Path) == 0 {
			return "fresh", true
		}
	case "param":
		if kind == "append" && owner == nil {
			k := relOf(fn) + " " + types.TypeString(o.V.Type(), nil)
			if r := appendExceptions[k]; r != "" {
				return k + ": " + r, true
			}
		}
		if d > 4 || fn.Signature.Recv() != nil && len(fn.Params) > 0 && fn.Params[0] == o.V {
			return "", false
		}
		idx := -1
		for i, q := range fn.Params {
			if q == o.V {
				idx = i
			}
		}
		cs := p.callersOf(fn)
		if idx < 0 || len(cs) == 0 || fn.Object() == nil || fn.Object().Exported() {
			return "", false
		}
		for _, c := range cs {
			for _, ao := range originsOf(c.Args[idx]) {
				var caller *ssa.Function
				if in, ok := ao.V.(ssa.Instruction); ok {
					caller = in.Parent()
				} else {
					caller = ao.V.Parent()
				}
				if ao.Kind == "alloc" && !strings.Contains(strings.Join(ao.Path, ""), "*") {
					continue
				}
				if caller == nil {
					if ao.Kind == "const" {
						continue
					}
					return "", false
				}
				if _, ok := p.judgeWrite(caller, kind, origin{ao.Kind, ao.V, append(append([]string{}, ao.Path...), o.Path...)}, d+1); !ok {
					return "", false
				}
			}
		}
		return "helper", true
	}
	return "", false
}

// bindingOrigins gives the origins of what is captured by a closure.
func bindingOrigins(v ssa.Value) []origin {
	if al, ok := v.(*ssa.Alloc); ok {
		out := []origin{}
		for _, r := range *al.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == al {
				out = append(out, originsOf(st.Val)...)
			}
		}
		return out
	}
	return originsOf(v)
}

// ruleEffects judges every write of the repository.
func ruleEffects(c *Ctx) {
	for _, fn := range c.P.Funcs {
		if strings.HasSuffix(fn.Name(), "_test") {
			continue
		}
		c.Saw(fn)
		ws := c.P.writesOf(fn)
		if len(ws) == 0 {
			c.Ok("no-effect", short(fn.String()))
			continue
		}
		for _, w := range ws {
			why, ok := c.P.judgeWrite(fn, w.Kind, w.Org, 0)
			if ok && w.Kind == "append" && w.Owner != nil && !storedBack(w) {
				ok = false // the list of the field would be shared with what is made of the result
			}
			ow := ""
			if w.Owner != nil {
				ow = w.Owner.Obj().Name() + "."
			}
			if strings.Contains(why, ": ") {
				c.Except(why)
			}
			c.Check(ok, "effect", short(fn.String())+" "+w.Kind+" "+ow+w.Field, c.P.where(w.In.Pos()), "memory that the function neither allocated nor owns as a builder is changed (%s %s, through %v)", w.Org.Kind, w.Org.V.Name(), w.Org.Path)
		}
	}
}

// storedBack tells whether the result of an append to the list of a field becomes the list of that field.
func storedBack(w write) bool {
	v, ok := w.In.(ssa.Value)
	if !ok {
		return false
	}
	seen := map[ssa.Value]bool{}
	var to func(v ssa.Value) bool
	to = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Phi:
				if to(x) {
					return true
				}
			case *ssa.ChangeType:
				if to(x) {
					return true
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && x.Call.Args[0] == v && to(x) {
					return true
				}
			case *ssa.Store:
				if f, ok := x.Addr.(*ssa.FieldAddr); ok && x.Val == v && fieldName(f.X.Type(), f.Field) == w.Field {
					return true
				}
			}
		}
		return false
	}
	return to(v)
}

// ruleGlobals: no package level variable changes after the initialization.
func ruleGlobals(c *Ctx) {
	n := 0
	for _, fn := range c.P.Funcs {
		for _, w := range c.P.writesOf(fn) {
			if w.Org.Kind == "global" && fn.Name() != "init" {
				c.Bad("global-state", short(fn.String())+" "+w.Org.V.Name(), c.P.where(w.In.Pos()), "a package level variable is changed by a function")
			}
		}
		// stores directly in the variable
		eachInstr(fn, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if g, ok := st.Addr.(*ssa.Global); ok && fn.Name() != "init" {
					c.Bad("global-state", short(fn.String())+" "+g.Name(), c.P.where(in.Pos()), "a package level variable is changed by a function")
				}
			}
		})
		n++
		c.Ok("global-state", short(fn.String()))
	}
}

// ruleCreate judges that Create gives an empty builder and that a setter only changes its builder.
func ruleCreate(c *Ctx) {
	for _, sp := range c.P.builderSpecs(c) {
		partFields := map[string]bool{}
		for _, pt := range sp.Parts {
			e := c.P.engine()
			args := []*sx.Term{sx.Sym("$builder", sp.Ptr)}
			for i := range pt.Params {
				args = append(args, symFor(pt.setter, i))
			}
			cons := sp.Key + "." + pt.Name
			outs, err := e.Run(pt.Fn, args, sx.NewState())
			if err != nil {
				c.Bad("setter", cons, c.P.fnWhere(pt.Fn), "undecided: %s", err)
				continue
			}
			c.paths += len(outs)
			bad := ""
			for _, o := range outs {
				if o.Kind != "return" || len(o.Res) != 1 || o.Res[0] != args[0] {
					bad = "it does not return its builder"
				}
				wrote := 0
				for _, ev := range o.S.Trace {
					switch ev.Kind {
					case "write":
						if ev.Addr.Op == "addr" && ev.Addr.Args[0] == args[0] {
							partFields[ev.Addr.Aux] = true
							wrote++
							continue
						}
						bad = "it writes " + ev.Addr.String()
					case "mapwrite":
						bad = "it writes " + ev.Addr.String()
					}
				}
				if wrote == 0 && bad == "" {
					bad = "it records nothing"
				}
			}
			if len(outs) == 0 {
				bad = "it has no exit"
			}
			c.Check(bad == "", "setter", cons, c.P.fnWhere(pt.Fn), "%s", bad)
		}
		// Create
		cons := sp.Key + ".Create"
		self := sx.Sym("$builder", sp.Ptr)
		outs, err := c.P.engine().Run(sp.Create, []*sx.Term{self}, sx.NewState())
		if err != nil {
			c.Bad("create", cons, c.P.fnWhere(sp.Create), "undecided: %s", err)
			continue
		}
		bad := ""
		if len(outs) == 0 {
			bad = "it has no exit"
		}
		for _, o := range outs {
			if o.Kind != "return" || len(o.Res) != 1 || o.Res[0].Op != "new" {
				bad = "it does not return a new builder"
				continue
			}
			for _, ev := range o.S.Trace {
				if ev.Kind == "write" || ev.Kind == "mapwrite" {
					bad = "it writes " + ev.Addr.String()
				}
			}
			b := o.Res[0]
			st, ok := derefNamed(b.Typ).Underlying().(*types.Struct)
			if !ok {
				bad = "the builder is not a structure"
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				v := o.S.Freeze(o.S.Load(sx.T("addr", f.Name(), b), f.Type()))
				own := sx.FieldOf(self, f.Name())
				if partFields[f.Name()] {
					if v.Contains(self) {
						bad = fmt.Sprintf("the part %s of the new builder is %s", f.Name(), v)
					}
					continue
				}
				if v == own {
					continue
				}
				if isZeroTerm(v) && isDependency(f.Type()) {
					bad = fmt.Sprintf("the dependency %s is lost", f.Name())
				} else if !isZeroTerm(v) && v.Contains(self) {
					bad = fmt.Sprintf("the field %s of the new builder is %s", f.Name(), v)
				}
			}
		}
		c.Check(bad == "", "create", cons, c.P.fnWhere(sp.Create), "%s", bad)
	}
}

// isDependency tells that a field holds a collaborator.
func isDependency(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Signature:
		return true
	}
	return false
}

func isZeroTerm(v *sx.Term) bool {
	switch v.Op {
	case "nil", "zero":
		return true
	case "list":
		return len(v.Args) == 0
	case "mapval":
		return v.Args[0].Op == "mapempty"
	case "const":
		return v.Aux == "0" || v.Aux == `""` || v.Aux == "false" || v.Aux == "0.0"
	}
	return false
}

// ruleBuilderUse judges that no builder is filled or run before it was created anew.
func ruleBuilderUse(c *Ctx) {
	for _, fn := range c.P.Funcs {
		eachInstr(fn, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			cc := ci.Common()
			if !cc.IsInvoke() || !c.P.isBuilderIface(cc.Value.Type()) || cc.Method.Name() == "Create" {
				return
			}
			c.Saw(fn)
			cons := short(fn.String()) + " " + short(types.TypeString(cc.Value.Type(), nil)) + "." + cc.Method.Name()
			bad := c.P.staleBuilder(cc.Value, map[ssa.Value]bool{}, 0)
			c.Check(bad == "", "fresh-builder", cons, c.P.where(in.Pos()), "the builder was not created anew: %s", bad)
		})
	}
}

// staleBuilder follows a builder back to its creation; "" when it is always fresh.
func (p *Program) staleBuilder(v ssa.Value, seen map[ssa.Value]bool, d int) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	for _, o := range originsOf(v) {
		switch o.Kind {
		case "call":
			call, ok := o.V.(*ssa.Call)
			if !ok || len(o.Path) > 0 {
				return "it comes from " + o.V.String()
			}
			cc := &call.Call
			if cc.IsInvoke() {
				if cc.Method.Name() == "Create" {
					continue
				}
				if p.isBuilderIface(cc.Value.Type()) {
					if s := p.staleBuilder(cc.Value, seen, d); s != "" {
						return s
					}
					continue
				}
				return "it comes from " + calleeName(cc)
			}
			f := cc.StaticCallee()
			if f == nil || len(f.Blocks) == 0 {
				return "it comes from " + calleeName(cc)
			}
			if freshCall(call, 0) {
				continue
			}
			if d > 4 {
				return "it comes from " + calleeName(cc)
			}
			s := ""
			eachInstr(f, func(in ssa.Instruction) {
				if r, ok := in.(*ssa.Return); ok && s == "" {
					for _, x := range r.Results {
						if p.isBuilderIface(x.Type()) {
							s = p.staleBuilder(x, seen, d+1)
						}
					}
				}
			})
			if s != "" {
				return s
			}
		case "param":
			pa := o.V.(*ssa.Parameter)
			fn := pa.Parent()
			if len(o.Path) > 0 {
				return "it is the field " + strings.Join(o.Path, ".") + " of " + fn.Name()
			}
			idx := -1
			for i, q := range fn.Params {
				if q == pa {
					idx = i
				}
			}
			cs := p.callersOf(fn)
			if len(cs) == 0 || d > 4 {
				return "it is a parameter of " + fn.Name()
			}
			for _, c := range cs {
				if s := p.staleBuilder(c.Args[idx], seen, d+1); s != "" {
					return s
				}
			}
		case "alloc":
			if len(o.Path) > 0 {
				return "it is held by a local object"
			}
		case "freevar":
			fv := o.V.(*ssa.FreeVar)
			fn := fv.Parent()
			if len(o.Path) > 1 || fn.Parent() == nil {
				return "it is captured"
			}
			s := ""
			eachInstr(fn.Parent(), func(in ssa.Instruction) {
				mc, ok := in.(*ssa.MakeClosure)
				if !ok || mc.Fn != fn {
					return
				}
				for i, x := range fn.FreeVars {
					if x == fv {
						for _, bo := range bindingOrigins(mc.Bindings[i]) {
							if s == "" {
								if val, ok := bo.V.(ssa.Value); ok && len(bo.Path) == 0 {
									s = p.staleBuilder(val, seen, d+1)
								} else {
									s = "it is captured"
								}
							}
						}
					}
				}
			})
			if s != "" {
				return s
			}
		default:
			return "it comes from " + o.Kind + " " + o.V.Name()
		}
	}
	return ""
}
