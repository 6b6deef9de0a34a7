package sx

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The evaluation takes the content of a local object when the object is put somewhere. That
// is wrong when the same object is written later and what was put is still there: such an
// instruction cannot be evaluated.

// aliased finds the instructions of a function that put somewhere an object that the function
// writes afterwards, and those that overwrite a list that is still used.
func aliased(fn *ssa.Function) map[ssa.Instruction]string {
	out := map[ssa.Instruction]string{}
	appends := map[ssa.Value][]*ssa.Call{}
	var bases []ssa.Value
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Alloc:
				if x.Comment == "varargs" {
					continue
				}
				sharedObject(x, out)
			case *ssa.MakeSlice:
				sharedObject(x, out)
			case *ssa.Call:
				if f, ok := x.Call.Value.(*ssa.Builtin); ok && f.Name() == "append" && len(x.Call.Args) == 2 {
					overwriting(x, out)
					if a := x.Call.Args[0]; !exactList(a) {
						if appends[a] == nil {
							bases = append(bases, a)
						}
						appends[a] = append(appends[a], x)
					}
				}
			}
		}
	}
	for _, base := range bases {
		sharedTail(base, appends[base], out)
	}
	return out
}

// after tells if an instruction can be reached from another one without making the object again.
func after(from, to, made ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == to {
				return true
			}
			if b.Instrs[i] == made {
				return false
			}
		}
		for _, n := range b.Succs {
			if !seen[n] {
				seen[n] = true
				if walk(n, 0) {
					return true
				}
			}
		}
		return false
	}
	b := from.Block()
	for i, in := range b.Instrs {
		if in == from {
			return walk(b, i+1)
		}
	}
	return false
}

func sharedObject(made ssa.Instruction, out map[ssa.Instruction]string) {
	v := made.(ssa.Value)
	derived := map[ssa.Value]bool{v: true}
	refs := map[ssa.Value]bool{} // those that can be kept: pointers to the object and slices of it
	refs[v] = true
	var puts, writes []ssa.Instruction
	list := map[ssa.Instruction]bool{}
	work := []ssa.Value{v}
	add := func(x ssa.Value, ref bool) {
		if ref {
			refs[x] = true
		}
		if !derived[x] {
			derived[x] = true
			work = append(work, x)
		}
	}
	put := func(in ssa.Instruction, x ssa.Value) {
		puts = append(puts, in)
		_, isSlice := x.Type().Underlying().(*types.Slice)
		list[in] = isSlice
	}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x.Referrers() == nil {
			continue
		}
		for _, in := range *x.Referrers() {
			switch r := in.(type) {
			case *ssa.FieldAddr:
				add(r, false)
			case *ssa.IndexAddr:
				if r.X == x {
					add(r, false)
				}
			case *ssa.Slice:
				if r.X == x {
					add(r, true)
				}
			case *ssa.ChangeType:
				add(r, refs[x])
			case *ssa.Phi:
				add(r, refs[x])
			case *ssa.MakeInterface:
				add(r, refs[x])
			case *ssa.Store:
				if r.Addr == x {
					writes = append(writes, r)
				}
				if r.Val == x && refs[x] {
					if kept(r.Addr) {
						put(r, x)
					}
				}
			case *ssa.MapUpdate:
				if r.Value == x && refs[x] {
					put(r, x)
				}
			case *ssa.Call:
				c := r.Common()
				if f, ok := c.Value.(*ssa.Builtin); ok {
					if f.Name() == "copy" && c.Args[0] == x {
						writes = append(writes, r)
					}
					continue
				}
				if c.IsInvoke() {
					if refs[x] && c.Method.Pkg() != nil && Repo != nil && Repo(c.Method.Pkg()) && strings.HasPrefix(c.Method.Name(), "With") {
						put(r, x)
					}
					if strings.HasSuffix(c.Method.Name(), "XORKeyStream") && len(c.Args) > 0 && c.Args[0] == x {
						writes = append(writes, r)
					}
					continue
				}
				f := c.StaticCallee()
				if f == nil || f.Pkg == nil {
					continue
				}
				if Repo != nil && Repo(f.Pkg.Pkg) {
					if refs[x] && strings.HasPrefix(f.Name(), "create") && f.Signature.Recv() == nil {
						put(r, x)
					}
					continue
				}
				if strings.HasPrefix(f.Name(), "Put") || strings.HasPrefix(f.Name(), "Read") || f.Name() == "Unmarshal" || f.Name() == "Encode" || f.Name() == "Decode" {
					writes = append(writes, r)
				}
			}
		}
	}
	for _, p := range puts {
		for _, w := range writes {
			if !after(p, w, made) || p == w {
				continue
			}
			if !list[p] && !after(w, p, made) {
				continue // a pointer that is put once: the object is followed
			}
			out[p] = "what is put here is the memory of " + name(v) + ", which is written again afterwards"
		}
	}
}

func name(v ssa.Value) string {
	if a, ok := v.(*ssa.Alloc); ok && a.Comment != "" {
		return a.Comment
	}
	return v.Name()
}

// kept tells if what is stored at an address is kept: it is an element of a list that is appended, or a part of an object.
func kept(addr ssa.Value) bool {
	switch a := addr.(type) {
	case *ssa.IndexAddr:
		al, ok := a.X.(*ssa.Alloc)
		if !ok || al.Comment != "varargs" {
			return true
		}
		for _, r := range *al.Referrers() {
			if s, ok := r.(*ssa.Slice); ok && s.Referrers() != nil {
				for _, u := range *s.Referrers() {
					if c, ok := u.(*ssa.Call); ok {
						if f, ok := c.Call.Value.(*ssa.Builtin); ok && f.Name() == "append" {
							return true
						}
					}
				}
			}
		}
		return false
	case *ssa.FieldAddr:
		return true
	}
	return false
}

// overwriting looks at append(list[:n], …) when the list is used afterwards.
func overwriting(x *ssa.Call, out map[ssa.Instruction]string) {
	s, ok := x.Call.Args[0].(*ssa.Slice)
	if !ok || s.High == nil || s.Max != nil {
		return
	}
	if _, ok := s.X.Type().Underlying().(*types.Slice); !ok {
		return
	}
	if len(constantLists(x.Call.Args[1])) > 0 {
		return
	}
	made, _ := s.X.(ssa.Instruction)
	if s.X.Referrers() == nil {
		return
	}
	for _, in := range *s.X.Referrers() {
		if in == s {
			continue
		}
		if c, ok := in.(*ssa.Call); ok {
			if f, ok := c.Call.Value.(*ssa.Builtin); ok && (f.Name() == "len" || f.Name() == "cap") {
				continue
			}
		}
		if _, ok := in.(*ssa.DebugRef); ok {
			continue
		}
		if after(x, in, made) {
			out[x] = "it overwrites a list that is used afterwards"
		}
	}
}

// exactList tells if a list is known to have no room after its end: appending to it makes another list.
func exactList(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeSlice:
		return x.Cap == x.Len
	case *ssa.Slice:
		if x.Max != nil {
			return true
		}
		al, ok := x.X.(*ssa.Alloc)
		return ok && x.High == nil && al.Comment != ""
	}
	return false
}

// sharedTail looks at several lists made by appending to the same list: they may share the memory after its end.
func sharedTail(base ssa.Value, calls []*ssa.Call, out map[ssa.Instruction]string) {
	made, _ := base.(ssa.Instruction)
	for _, a := range calls {
		for _, b := range calls {
			if !after(a, b, made) {
				continue
			}
			if a == b {
				// the same list is continued at each iteration, and what is made is kept
				if keptValue(a, map[ssa.Value]bool{}) {
					out[a] = "the lists that are made here at each iteration may share their memory"
				}
				continue
			}
			if a.Referrers() == nil {
				continue
			}
			for _, u := range *a.Referrers() {
				if _, ok := u.(*ssa.DebugRef); !ok && after(b, u, a) {
					out[b] = "it may overwrite the end of another list made from the same one, which is used afterwards"
				}
			}
		}
	}
}

// keptValue tells if a value is put in a list, an object or a builder.
func keptValue(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, in := range *v.Referrers() {
		switch r := in.(type) {
		case *ssa.Store:
			if r.Val == v && kept(r.Addr) {
				return true
			}
		case *ssa.MapUpdate:
			if r.Value == v {
				return true
			}
		case *ssa.ChangeType:
			if keptValue(r, seen) {
				return true
			}
		case *ssa.MakeInterface:
			if keptValue(r, seen) {
				return true
			}
		case *ssa.Call:
			if c := r.Common(); c.IsInvoke() && strings.HasPrefix(c.Method.Name(), "With") {
				return true
			} else if f := c.StaticCallee(); f != nil && strings.HasPrefix(f.Name(), "create") {
				return true
			}
		}
	}
	return false
}

func constantLists(v ssa.Value) []*ssa.Const {
	if k, ok := v.(*ssa.Const); ok && k.Value == nil {
		return []*ssa.Const{k}
	}
	return nil
}

// hazard stops the evaluation at an instruction that cannot be evaluated.
func (e *Engine) hazard(in ssa.Instruction) {
	fn := in.Parent()
	if e.hazards == nil {
		e.hazards = map[*ssa.Function]map[ssa.Instruction]string{}
	}
	m, ok := e.hazards[fn]
	if !ok {
		m = aliased(fn)
		e.hazards[fn] = m
	}
	if why := m[in]; why != "" {
		giveUp("%s in %s", why, fn)
	}
}
