package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ruleMapOrder: what a walk over a map computes does not depend on the order
// of the walk. The body of the loop may fill maps under the key of the
// iteration, append to a list which is sorted before anything else is done
// with it, count, and stop with a failure.
func ruleMapOrder(c *Ctx) {
	for _, fn := range c.P.Funcs {
		eachInstr(fn, func(in ssa.Instruction) {
			r, ok := in.(*ssa.Range)
			if !ok {
				return
			}
			if _, ok := r.X.Type().Underlying().(*types.Map); !ok {
				return
			}
			c.Saw(fn)
			judgeMapWalk(c, fn, r)
		})
	}
}

type mapWalk struct {
	c      *Ctx
	fn     *ssa.Function
	r      *ssa.Range
	next   *ssa.Next
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	key    ssa.Value
	bad    int
}

func judgeMapWalk(c *Ctx, fn *ssa.Function, r *ssa.Range) {
	w := &mapWalk{c: c, fn: fn, r: r, body: map[*ssa.BasicBlock]bool{}}
	for _, ref := range *r.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			w.next = n
		}
	}
	if w.next == nil {
		return
	}
	w.header = w.next.Block()
	for _, ref := range *w.next.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok && e.Index == 1 {
			w.key = e
		}
	}
	// the body: what the header dominates and that is reached when there is a next element
	iff, ok := w.header.Instrs[len(w.header.Instrs)-1].(*ssa.If)
	if !ok {
		w.fail(r.Pos(), "the walk is not a loop over the whole map")
		return
	}
	_ = iff
	first := w.header.Succs[0]
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if w.body[b] || b == w.header || !first.Dominates(b) {
			return
		}
		w.body[b] = true
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(first)
	// blocks which do not lead back to the header are exits: what they do is judged too
	w.judge()
	if w.bad == 0 {
		c.Ok("map-order", fn.String())
	}
}

func (w *mapWalk) fail(pos token.Pos, format string, a ...any) {
	w.bad++
	if !pos.IsValid() {
		pos = w.r.Pos()
	}
	if !pos.IsValid() {
		pos = w.fn.Pos()
	}
	w.c.Bad("map-order", short(w.fn.String()), w.c.P.where(pos), "the result depends on the order in which the map is walked: "+format, a...)
}

// variant tells that a value may differ between iterations.
func (w *mapWalk) variant(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	return in.Block() == w.header || w.body[in.Block()]
}

func (w *mapWalk) judge() {
	// what is carried from an iteration to the next
	for _, in := range w.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		if !w.carried(ph) {
			w.fail(ph.Pos(), "%s is carried from an iteration to the next one", nameOf(ph))
		}
	}
	for b := range w.body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if !w.variant(rootMap(x.Map)) && !w.isKey(x.Key) && !isConstVal(x.Value) {
					w.fail(x.Pos(), "a map is written under a key which is not the one of the iteration, the last one wins")
				}
			case *ssa.Store:
				for _, o := range originsOf(x.Addr) {
					if o.Kind == "alloc" && w.variant(o.V) {
						continue
					}
					if isConstVal(x.Val) {
						continue
					}
					w.fail(x.Pos(), "a variable outside of the loop is written")
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer:
				w.fail(in.Pos(), "the iterations have effects one after the other")
			case *ssa.Return:
				w.judgeReturn(x)
			case *ssa.Call:
				w.judgeCall(x)
			}
		}
		// what is left behind by a break
		for _, s := range b.Succs {
			if w.body[s] || s == w.header {
				continue
			}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, p := range s.Preds {
					if p == b && w.variant(ph.Edges[i]) {
						w.fail(ph.Pos(), "the loop stops at an element that satisfies it, and keeps %s", nameOf(ph))
					}
				}
			}
		}
	}
	// values of the body used outside of the loop without going through a phi
	for b := range w.body {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, ref := range *v.Referrers() {
				if ref.Block() == w.header || w.body[ref.Block()] {
					continue
				}
				if _, isPhi := ref.(*ssa.Phi); isPhi {
					continue // judged above
				}
				w.fail(v.Pos(), "a value of the last iteration is used after the loop")
			}
		}
	}
}

func nameOf(ph *ssa.Phi) string {
	if ph.Comment != "" {
		return ph.Comment
	}
	return "a value"
}

func isConstVal(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

func rootMap(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			return x
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func (w *mapWalk) isKey(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v == w.key && w.key != nil
		}
	}
}

// carried tells that the final value of a header phi does not depend on the order.
func (w *mapWalk) carried(ph *ssa.Phi) bool {
	appended := false
	consts := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var edge func(v ssa.Value) bool
	edge = func(v ssa.Value) bool {
		if v == ph || seen[v] {
			return true
		}
		seen[v] = true
		if k, ok := v.(*ssa.Const); ok {
			consts[constText(k)] = true
			return true
		}
		if !w.variant(v) {
			consts[v.Name()] = true
			return true
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !edge(e) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			// a sum, a count, a disjunction …
			switch x.Op {
			case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
				b, ok := x.Type().Underlying().(*types.Basic)
				if !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
					return false
				}
				l, r := reaches(x.X, ph), reaches(x.Y, ph)
				return l != r
			}
			return false
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && reaches(x.Call.Args[0], ph) {
				if len(x.Call.Args) > 1 && reaches(x.Call.Args[1], ph) {
					return false
				}
				appended = true
				return true
			}
			return false
		}
		return false
	}
	for i, p := range w.header.Preds {
		if !w.body[p] {
			continue
		}
		if !edge(ph.Edges[i]) {
			return false
		}
	}
	if appended {
		return w.sorted(ph, w.fn, map[ssa.Value]bool{})
	}
	return len(consts) <= 1
}

func constText(k *ssa.Const) string {
	if k.Value == nil {
		return "nil"
	}
	if k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value)
	}
	return k.Value.String()
}

// reaches tells that a value is a phi, or the phi after other steps of the loop.
func reaches(v ssa.Value, ph *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var f func(v ssa.Value) bool
	f = func(v ssa.Value) bool {
		if v == ph {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if f(e) {
					return true
				}
			}
		case *ssa.BinOp:
			return f(x.X) || f(x.Y)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return f(x.Call.Args[0])
			}
		case *ssa.Slice:
			return f(x.X)
		case *ssa.Convert:
			return f(x.X)
		case *ssa.ChangeType:
			return f(x.X)
		}
		return false
	}
	return f(v)
}

var sorters = map[string]bool{
	"sort.Strings": true, "sort.Ints": true, "sort.Float64s": true, "sort.Sort": true, "sort.Stable": true,
	"sort.Slice": true, "sort.SliceStable": true, "slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true,
}

// sorted tells that a list in an arbitrary order is sorted before it is used.
func (w *mapWalk) sorted(v ssa.Value, fn *ssa.Function, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	// the calls that sort it
	var sorts []ssa.Instruction
	var uses []ssa.Instruction
	vals := []ssa.Value{v}
	for i := 0; i < len(vals); i++ {
		x := vals[i]
		if x.Referrers() == nil {
			continue
		}
		for _, ref := range *x.Referrers() {
			switch y := ref.(type) {
			case *ssa.Call:
				name := calleeName(&y.Call)
				if i := strings.IndexByte(name, '['); i > 0 {
					name = name[:i]
				}
				if sorters[name] {
					sorts = append(sorts, y)
					continue
				}
				if b, ok := y.Call.Value.(*ssa.Builtin); ok {
					if b.Name() == "len" || b.Name() == "cap" {
						continue
					}
					if fn == w.fn && w.body[y.Block()] && b.Name() == "append" {
						continue
					}
				}
				uses = append(uses, y)
			case *ssa.ChangeType, *ssa.MakeInterface, *ssa.Convert:
				vals = append(vals, y.(ssa.Value))
			case *ssa.Phi:
				if fn == w.fn && (w.body[y.Block()] || y.Block() == w.header) {
					continue
				}
				vals = append(vals, y)
			case *ssa.DebugRef:
			default:
				uses = append(uses, ref)
			}
		}
	}
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if s.Block() != u.Block() && s.Block().Dominates(u.Block()) || s.Block() == u.Block() && before(s, u) {
				ok = true
			}
		}
		if ok {
			continue
		}
		// given unsorted to a helper: it has to sort it
		if call, isCall := u.(*ssa.Call); isCall {
			f := call.Call.StaticCallee()
			if f == nil || f.Pkg == nil || !w.c.P.inRepo(f.Pkg.Pkg) || len(f.Blocks) == 0 {
				return false
			}
			for i, a := range call.Call.Args {
				for _, x := range vals {
					if a == x && !w.sorted(f.Params[i], f, seen) {
						return false
					}
				}
			}
			continue
		}
		// given back unsorted: the callers have to sort it
		if ret, isRet := u.(*ssa.Return); isRet {
			idx := -1
			for i, r := range ret.Results {
				for _, x := range vals {
					if r == x {
						idx = i
					}
				}
			}
			calls := w.c.P.directCallers(fn)
			if len(calls) == 0 || idx < 0 {
				return false
			}
			for _, cc := range calls {
				var res ssa.Value = cc
				if len(ret.Results) > 1 {
					res = nil
					for _, r := range *cc.Referrers() {
						if e, isE := r.(*ssa.Extract); isE && e.Index == idx {
							res = e
						}
					}
					if res == nil {
						continue
					}
				}
				if !w.sorted(res, cc.Parent(), seen) {
					return false
				}
			}
			continue
		}
		return false
	}
	return true
}

func before(a, b ssa.Instruction) bool {
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// directCallers gives the direct calls of an unexported function; none when it
// is exported, is a value, or implements a method of an interface.
func (p *Program) directCallers(fn *ssa.Function) []*ssa.Call {
	if token.IsExported(fn.Name()) {
		return nil
	}
	out := []*ssa.Call{}
	for _, f := range p.Funcs {
		ok := true
		eachInstr(f, func(in ssa.Instruction) {
			if cl, is := in.(*ssa.Call); is && cl.Call.StaticCallee() == fn {
				out = append(out, cl)
				return
			}
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(fn) {
					ok = false
				}
			}
		})
		if !ok {
			return nil
		}
	}
	return out
}

// judgeReturn: a return inside of the walk gives a failure, or what does not
// depend on the element at which it happens.
func (w *mapWalk) judgeReturn(r *ssa.Return) {
	n := len(r.Results)
	if n > 0 && isErrorType(r.Results[n-1].Type()) {
		if k, ok := r.Results[n-1].(*ssa.Const); !ok || k.Value != nil {
			if !ok {
				return // a failure, whichever the element; its text is not part of the result
			}
		}
	}
	for _, v := range r.Results {
		if w.variant(v) {
			w.fail(r.Pos(), "the first element that satisfies the loop is returned")
			return
		}
	}
}

// judgeCall: a call inside of the walk does not change what is outside of it.
func (w *mapWalk) judgeCall(x *ssa.Call) {
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete":
			if !w.variant(x.Call.Args[0]) && !w.isKey(x.Call.Args[1]) {
				w.fail(x.Pos(), "an entry is deleted under a key which is not the one of the iteration")
			}
		case "copy":
			w.fail(x.Pos(), "the list of an outer variable is written")
		}
		return
	}
	if !x.Call.IsInvoke() {
		if f := x.Call.StaticCallee(); f != nil && f.Pkg != nil && !w.c.P.inRepo(f.Pkg.Pkg) && f.Signature.Recv() != nil {
			// methods of library objects: a strings.Builder, a bytes.Buffer or a hash that is filled
			if p, ok := f.Signature.Recv().Type().(*types.Pointer); ok && !w.variant(x.Call.Args[0]) {
				_ = p
				if strings.HasPrefix(f.Name(), "Write") {
					w.fail(x.Pos(), "the elements are written one after the other (%s)", calleeName(&x.Call))
				}
			}
		}
		return
	}
	if strings.HasPrefix(x.Call.Method.Name(), "Write") && !w.c.P.inRepo(x.Call.Method.Pkg()) && !w.variant(x.Call.Value) {
		w.fail(x.Pos(), "the elements are written one after the other (%s)", calleeName(&x.Call))
	}
	// a part given to a builder that is not created by the iteration: the last one wins
	if w.c.P.isBuilderIface(x.Call.Value.Type()) && x.Call.Method.Name() != "Create" && x.Call.Method.Name() != "Now" {
		for _, o := range originsOf(x.Call.Value) {
			if !(w.variant(o.V) && o.Kind == "call") {
				w.fail(x.Pos(), "a part is given to a builder that is shared by the iterations (%s)", calleeName(&x.Call))
			}
		}
	}
}

// chance, time, environment and scheduling

var chancePkgs = map[string]string{
	"math/rand": "chance", "math/rand/v2": "chance", "crypto/rand": "chance",
	"github.com/google/uuid": "", "os": "", "time": "", "runtime": "", "net": "the network", "net/http": "the network", "os/exec": "another program", "os/user": "the user", "hash/maphash": "chance", "unsafe": "addresses",
}

var chanceFuncs = map[string]string{
	"time.Now": "the time", "time.Since": "the time", "time.Until": "the time", "time.After": "the time", "time.Tick": "the time",
	"os.Getenv": "the environment", "os.LookupEnv": "the environment", "os.Environ": "the environment", "os.Hostname": "the machine",
	"os.Getpid": "the process", "os.Getwd": "the working directory", "os.Getuid": "the user", "os.UserHomeDir": "the user", "os.TempDir": "the environment",
	"os.Executable": "the process", "runtime.NumCPU": "the machine", "runtime.NumGoroutine": "the scheduling", "runtime.GOMAXPROCS": "the machine", "runtime.Caller": "the position of the code",
	"github.com/google/uuid.New": "chance", "github.com/google/uuid.NewUUID": "the time", "github.com/google/uuid.NewRandom": "chance", "github.com/google/uuid.NewString": "chance",
}

const cryptoPkgs = "domain/cryptography"

// ruleChance: nothing but the cryptography draws on chance, time, environment or scheduling.
func ruleChance(c *Ctx) {
	for _, fn := range c.P.Funcs {
		c.Saw(fn)
		crypto := strings.HasPrefix(relOf(fn), cryptoPkgs)
		clean := true
		bad := func(in ssa.Instruction, format string, a ...any) {
			clean = false
			pos := in.Pos()
			if !pos.IsValid() {
				pos = fn.Pos()
			}
			c.Bad("no-chance", short(fn.String()), c.P.where(pos), format, a...)
		}
		eachInstr(fn, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Go:
				bad(in, "a goroutine is started: what follows depends on the scheduling")
			case *ssa.Select:
				bad(in, "a select chooses among what is ready: the result depends on the scheduling")
			case ssa.CallInstruction:
				cc := x.Common()
				if cc.IsInvoke() {
					if cc.Method.Pkg() != nil && cc.Method.Pkg().Path() == "reflect" {
						return
					}
					return
				}
				f := cc.StaticCallee()
				if f == nil || f.Pkg == nil {
					return
				}
				pkg := f.Pkg.Pkg.Path()
				name := pkg + "." + f.Name()
				if why, ok := chanceFuncs[name]; ok && f.Signature.Recv() == nil {
					bad(in, "the call of %s makes the result depend on %s", name, why)
					return
				}
				if why := chancePkgs[pkg]; why != "" && !crypto {
					bad(in, "the call of %s makes the result depend on %s", name, why)
				}
				if pkg == "reflect" && (f.Name() == "MapKeys" || f.Name() == "MapRange" || f.Name() == "Pointer" || f.Name() == "UnsafePointer") {
					bad(in, "the call of reflect.%s makes the result depend on the order of a map or on an address", f.Name())
				}
				if pkg == "fmt" && strings.HasPrefix(f.Name(), "S") || pkg == "fmt" && f.Name() == "Errorf" {
					for _, a := range cc.Args {
						judgePrinted(a, func(t types.Type) {
							bad(in, "a value of type %s is printed as an address", short(t.String()))
						})
					}
				}
			}
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" && !crypto {
					bad(in, "the random reader is used outside of the cryptography")
				}
			}
		})
		if clean {
			c.Ok("no-chance", fn.String())
		}
	}
}

// judgePrinted calls f for the variadic arguments that are printed as addresses.
func judgePrinted(arg ssa.Value, f func(types.Type)) {
	sl, ok := arg.(*ssa.Slice)
	if !ok {
		return
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return
	}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, rr := range *ia.Referrers() {
			st, ok := rr.(*ssa.Store)
			if !ok {
				continue
			}
			mi, ok := st.Val.(*ssa.MakeInterface)
			if !ok {
				continue
			}
			t := mi.X.Type()
			if hasText(t) {
				continue
			}
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				if _, isStruct := u.Elem().Underlying().(*types.Struct); !isStruct {
					f(t)
				}
			case *types.Signature, *types.Chan:
				f(t)
			case *types.Basic:
				if u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr {
					f(t)
				}
			}
		}
	}
}

func hasText(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for _, n := range []string{"String", "Error", "Format", "GoString"} {
		if ms.Lookup(nil, n) != nil {
			return true
		}
	}
	return false
}
