package sx

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is something a path did that is visible to the rules.
type Event struct {
	Kind   string // call, write, mapwrite, assert, panic
	Callee string
	Fn     *ssa.Function
	Term   *Term // call term
	Addr   *Term // written address
	Args   []*Term
	Pos    token.Pos
	In     *ssa.Function
	Loop   int
	Instr  ssa.Instruction
	Typ    types.Type // box: the static type of the value
}

// Forall records that a loop ran to its end, each iteration taking one of the cases.
type Forall struct {
	N, J  *Term
	Cases [][]Lit
	Sub   [][]Forall // the loops that ran to their end in each of the cases
}

// State is the abstract state of a path.
type State struct {
	Mem     map[*Term]*Term
	F       *Facts
	Trace   []Event
	Foralls []Forall
	keys    []*Term // loops entered
	sorted  map[*Term]*Term
	seq     int
	loop    int
	in      *Term // the loop the state is in
}

func (s *State) clone() *State {
	n := &State{Mem: make(map[*Term]*Term, len(s.Mem)), F: s.F.clone(), seq: s.seq, loop: s.loop, in: s.in, keys: s.keys[:len(s.keys):len(s.keys)], sorted: s.sorted}
	for k, v := range s.Mem {
		n.Mem[k] = v
	}
	n.Trace = append([]Event{}, s.Trace...)
	n.Foralls = append([]Forall{}, s.Foralls...)
	return n
}

// Repo tells if a package is one of the repository.
var Repo func(*types.Package) bool

// NewState creates an empty state.
func NewState() *State { return &State{Mem: map[*Term]*Term{}, F: newFacts()} }

// Clone copies a state.
func (s *State) Clone() *State { return s.clone() }

// Outcome is one exit of a function.
type Outcome struct {
	S    *State
	Kind string // return, panic, continue, exit
	Res  []*Term
	Pos  token.Pos

	fr     *frame
	target *ssa.BasicBlock
	prev   *ssa.BasicBlock
}

// Err reports that the analysis gave up.
type Err struct{ Msg string }

func (e *Err) Error() string { return e.Msg }

func giveUp(format string, a ...any) { panic(&Err{fmt.Sprintf(format, a...)}) }

// Engine holds the configuration of the analysis.
type Engine struct {
	hazards   map[*ssa.Function]map[ssa.Instruction]string
	Boxes     bool // record the types of the values that become an interface{}
	Prog      *ssa.Program
	Inline    func(root, caller, callee *ssa.Function) bool
	InRepo    func(*types.Package) bool
	Chance    func(*ssa.Function) bool // each call of an opaque function gives another value
	MaxPaths  int
	MaxDepth  int
	NoDevirt  bool
	paths     int
	root      *ssa.Function
	loopCache map[*ssa.Function]*loopInfo
	builderIf map[types.Type]bool
	// Analysed counts the functions whose body was traversed.
	Analysed  map[*ssa.Function]bool
	LoopsSeen map[*ssa.BasicBlock]bool
	// Svc tells that the objects of a type are interchangeable: their receiver is dropped.
	Svc      func(types.Type) bool
	bindings []*Term
	// Opaque gives a stable name to the functions that are judged on their own.
	Opaque func(fn *ssa.Function) (name string, drop int, ok bool)
	// Special gives a meaning to a function without a body.
	Special func(fn *ssa.Function, args []*Term, s *State) (res []*Term, ok bool)
	// OnUse judges an instruction that panics on some operands; the verdicts are kept in Uses.
	OnUse func(s *State, fn *ssa.Function, in ssa.Instruction, ops ...*Term) any
	Uses  []any
	// Getter names the setter whose value a method of a built object gives back.
	Getter func(builder, method string) string
	// AnyInt puts the carried integers of every type in one class.
	AnyInt bool
	// Ord renumbers the carried values of the same class.
	Ord func(class *Term, i int) int
	// Record keeps what the loops do in Recs.
	Record bool
	Recs   []LoopRec
	// LoopReports gives access to the iterations of each loop entered.
	OnLoop func(fn *ssa.Function, hdr *ssa.BasicBlock, N, J *Term, conts []Outcome, pre *State)
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	defers []deferred
	depth  int
	stack  []*ssa.Function
	loops  []*loop
	cur    map[*ssa.BasicBlock]*Term // the iteration of the loops entered
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	pos  token.Pos
	in   ssa.Instruction
}

// at gives the frame the iteration of a loop.
func (f *frame) at(h *ssa.BasicBlock, j *Term) {
	n := map[*ssa.BasicBlock]*Term{}
	for k, v := range f.cur {
		n[k] = v
	}
	if j == nil {
		delete(n, h)
	} else {
		n[h] = j
	}
	f.cur = n
}

func (f *frame) clone() *frame {
	n := &frame{fn: f.fn, env: make(map[ssa.Value]*Term, len(f.env)+4), depth: f.depth, stack: f.stack, loops: f.loops, cur: f.cur}
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred{}, f.defers...)
	return n
}

// Run analyses fn from the state with the given arguments.
func (e *Engine) Run(fn *ssa.Function, args []*Term, s *State) (outs []Outcome, err error) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(*Err); ok {
				err = fmt.Errorf("%s: %s", fn.String(), x.Msg)
				return
			}
			panic(r)
		}
	}()
	e.paths = 0
	e.root = fn
	if e.loopCache == nil {
		e.loopCache = map[*ssa.Function]*loopInfo{}
	}
	if e.builderIf == nil {
		e.builderIf = map[types.Type]bool{}
	}
	if e.Analysed == nil {
		e.Analysed = map[*ssa.Function]bool{}
	}
	if e.LoopsSeen == nil {
		e.LoopsSeen = map[*ssa.BasicBlock]bool{}
	}
	outs = e.callFn(fn, args, e.bindings, s.clone(), 0, nil)
	return outs, nil
}

// FuncOf gives the function of a function value.
func FuncOf(t *Term) *ssa.Function { return closureFns[t] }

// RunValue runs a function value.
func (e *Engine) RunValue(t *Term, args []*Term, s *State) ([]Outcome, error) {
	e.bindings = t.Args
	defer func() { e.bindings = nil }()
	return e.Run(closureFns[t], args, s)
}

// Params builds symbolic parameters.
func Params(fn *ssa.Function) []*Term {
	out := []*Term{}
	for i, p := range fn.Params {
		out = append(out, T("param", strconv.Itoa(i)+":"+p.Name()).typed(p.Type()))
	}
	return out
}

func (e *Engine) callFn(fn *ssa.Function, args []*Term, bindings []*Term, s *State, depth int, stack []*ssa.Function) []Outcome {
	if len(fn.Blocks) == 0 {
		giveUp("no body for %s", fn)
	}
	e.Analysed[fn] = true
	fr := &frame{fn: fn, env: map[ssa.Value]*Term{}, depth: depth, stack: append(append([]*ssa.Function{}, stack...), fn)}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = bindings[i]
	}
	return e.run(fr, fn.Blocks[0], 0, nil, s)
}

func (s *State) fresh(op, aux string, ty types.Type) *Term {
	s.seq++
	return T(op, aux+"#"+strconv.Itoa(s.seq)).typed(ty)
}

func isFresh(t *Term) bool {
	switch t.Op {
	case "new", "bld", "mkmap", "mkslice", "hasher":
		return true
	}
	return false
}

// root of an address
func rootOf(a *Term) *Term {
	for a.Op == "addr" || a.Op == "iaddr" || a.Op == "content" || a.Op == "with" || a.Op == "sbuf" {
		a = a.Args[0]
	}
	return a
}

func typeName(t types.Type) string { return types.TypeString(t, nil) }

func zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsFloat != 0:
			return Const("0.0")
		}
		return Nil
	case *types.Struct, *types.Array:
		return T("zero", typeName(t)).typed(t)
	}
	return Nil
}

// Zero gives the zero of a type.
func Zero(t types.Type) *Term { return zero(t) }

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return BoolT(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		return Const(c.Value.ExactString())
	case constant.Float:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return Int(i)
			}
		}
		return T("const", "f"+c.Value.ExactString())
	}
	return T("const", c.Value.ExactString())
}

func (e *Engine) val(fr *frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Function:
		t := T("func", x.String())
		closureFns[t] = x
		return t
	case *ssa.Global:
		return T("global", x.String()).typed(x.Type())
	case *ssa.Builtin:
		return T("builtin", x.Name())
	}
	t, ok := fr.env[v]
	if !ok {
		giveUp("unbound value %s in %s", v.Name(), fr.fn)
	}
	return t
}

// use resolves the content of fresh slices when they escape.
func use(s *State, t *Term) *Term {
	switch t.Op {
	case "mkslice":
		if c, ok := s.Mem[T("content", "", t)]; ok {
			return c
		}
	case "aslice":
		return s.loadArray(t.Args[0])
	}
	if s.sorted != nil {
		if c, ok := s.sorted[t]; ok {
			return c
		}
	}
	return t
}

// sortInPlace records that a list was sorted.
func (s *State) sortInPlace(raw, t *Term) {
	v := T("sorted", "", t).typed(t.Typ)
	if raw.Op == "mkslice" {
		s.Mem[T("content", "", raw)] = v
		return
	}
	if raw.Op == "aslice" {
		s.Mem[T("content", "", raw.Args[0])] = v
		return
	}
	s.alias(t, v)
}

// alias records the content that a list has from now on.
func (s *State) alias(t, v *Term) {
	n := map[*Term]*Term{}
	for k, x := range s.sorted {
		n[k] = x
	}
	n[t] = v
	s.sorted = n
}

// arrayOf gives the array type behind an allocated array.
func arrayOf(t *Term) *types.Array {
	if t.Op != "new" || t.Typ == nil {
		return nil
	}
	p, ok := t.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	a, _ := p.Elem().Underlying().(*types.Array)
	return a
}

// fillable tells if the elements of a fresh object are tracked.
func fillable(t *Term) bool { return t.Op == "mkslice" || arrayOf(t) != nil }

func (s *State) loadArray(base *Term) *Term {
	arr := arrayOf(base)
	if c, ok := s.Mem[T("content", "", base)]; ok {
		return c
	}
	if v, ok := s.Mem[base]; ok {
		return v
	}
	if arr == nil || arr.Len() > 256 {
		return base
	}
	els := []*Term{}
	any := false
	for i := int64(0); i < arr.Len(); i++ {
		v, ok := s.Mem[T("iaddr", "", base, Int(i))]
		if !ok {
			v = zero(arr.Elem())
		} else {
			any = true
		}
		els = append(els, v)
	}
	if !any {
		return zero(base.Typ.Underlying().(*types.Pointer).Elem())
	}
	return T("list", "", els...).typed(base.Typ.Underlying().(*types.Pointer).Elem())
}

// Load reads an address.
func (s *State) Load(addr *Term, ty types.Type) *Term {
	if v, ok := s.Mem[addr]; ok {
		return v
	}
	switch addr.Op {
	case "new":
		if arrayOf(addr) != nil {
			return s.loadArray(addr)
		}
		if st, ok := ty.Underlying().(*types.Struct); ok {
			any := false
			names := []string{}
			vals := []*Term{}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				a := T("addr", f.Name(), addr)
				if _, ok := s.Mem[a]; ok {
					any = true
				}
				names = append(names, f.Name())
				vals = append(vals, s.Load(a, f.Type()))
			}
			if !any {
				return zero(ty)
			}
			return T("struct", strings.Join(names, ","), vals...).typed(ty)
		}
		return zero(ty)
	case "addr":
		base := addr.Args[0]
		if v, ok := s.Mem[base]; ok {
			if v.Op == "zero" {
				return zero(ty)
			}
			return FieldOf(v, addr.Aux).typed(ty)
		}
		if base.Op == "new" {
			return zero(ty)
		}
		if base.Op == "addr" {
			b := s.Load(base, nil2struct(base, ty))
			if b.Op == "zero" {
				return zero(ty)
			}
			return FieldOf(strip(b), addr.Aux).typed(ty)
		}
		return FieldOf(strip(base), addr.Aux).typed(ty)
	case "iaddr":
		base, idx := use(s, addr.Args[0]), addr.Args[1]
		if arrayOf(base) != nil {
			base = s.loadArray(base)
			if base.Op == "zero" {
				return zero(ty)
			}
		}
		return indexOf(base, idx).typed(ty)
	}
	if addr.Op == "global" {
		return T("gval", addr.Aux).typed(ty)
	}
	return T("deref", "", addr).typed(ty)
}

func nil2struct(_ *Term, _ types.Type) types.Type { return types.NewStruct(nil, nil) }

func strip(t *Term) *Term {
	if t.Op == "deref" {
		return t.Args[0]
	}
	return t
}

func indexOf(base, idx *Term) *Term {
	if i, ok := idx.IntOf(); ok && base.Op == "list" && i >= 0 && int(i) < len(base.Args) {
		return base.Args[i]
	}
	if base.Op == "map1" && idx.Op == "iter" && len(idx.Args) > 0 && LenOf(base) == idx.Args[0] {
		// element of a mapped list: the body applied to the iteration
		return Subst(base.Args[1], base.Args[2], idx)
	}
	if base.Op == "slice" && len(base.Args) == 3 && base.Args[0].Op != "addr" {
		// an element of a part is an element of the whole
		return indexOf(base.Args[0], plus(base.Args[1], idx))
	}
	return T("index", "", base, idx)
}

func (e *Engine) store(s *State, fr *frame, addr, v *Term, ty types.Type, pos token.Pos, in ssa.Instruction) {
	v = use(s, v)
	r := rootOf(addr)
	if !isFresh(r) {
		s.Trace = append(s.Trace, Event{Kind: "write", Addr: addr, Term: v, Pos: pos, In: fr.fn, Loop: s.loop, Instr: in})
	}
	if addr.Op == "new" || addr.Op == "addr" {
		if st, ok := ty.Underlying().(*types.Struct); ok && (v.Op == "struct" || v.Op == "zero") {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				var fv *Term
				if v.Op == "zero" {
					fv = zero(f.Type())
				} else {
					fv = FieldOf(v, f.Name())
				}
				s.Mem[T("addr", f.Name(), addr)] = fv
			}
			delete(s.Mem, addr)
			return
		}
	}
	s.Mem[addr] = v
}

func (e *Engine) run(fr *frame, b *ssa.BasicBlock, idx int, prev *ssa.BasicBlock, s *State) []Outcome {
	for {
		if idx == 0 && prev != nil {
			// phis were set by jump
		}
		for ; idx < len(b.Instrs); idx++ {
			in := b.Instrs[idx]
			e.hazard(in)
			switch x := in.(type) {
			case *ssa.Phi:
				// handled on jump
			case *ssa.DebugRef:
			case *ssa.Return:
				res := make([]*Term, len(x.Results))
				for i, r := range x.Results {
					res[i] = use(s, e.val(fr, r))
				}
				e.paths++
				if e.paths > e.MaxPaths {
					giveUp("more than %d paths", e.MaxPaths)
				}
				return []Outcome{{S: s, Kind: "return", Res: res, Pos: x.Pos(), fr: fr}}
			case *ssa.Panic:
				return []Outcome{{S: s, Kind: "panic", Res: []*Term{e.val(fr, x.X)}, Pos: x.Pos(), fr: fr}}
			case *ssa.Jump:
				return e.jump(fr, b, b.Succs[0], s)
			case *ssa.If:
				c := e.val(fr, x.Cond)
				var outs []Outcome
				switch s.F.Eval(c) {
				case 1:
					return e.jump(fr, b, b.Succs[0], s)
				case 0:
					return e.jump(fr, b, b.Succs[1], s)
				}
				s2 := s.clone()
				if s.F.Assume(c, true) {
					outs = append(outs, e.jump(fr.clone(), b, b.Succs[0], s)...)
				}
				if s2.F.Assume(c, false) {
					outs = append(outs, e.jump(fr, b, b.Succs[1], s2)...)
				}
				return outs
			case *ssa.Defer:
				d := deferred{call: &x.Call, pos: x.Pos(), in: x}
				if !x.Call.IsInvoke() {
					d.fn = e.val(fr, x.Call.Value)
				} else {
					d.fn = e.val(fr, x.Call.Value)
				}
				for _, a := range x.Call.Args {
					d.args = append(d.args, e.val(fr, a))
				}
				fr.defers = append(fr.defers, d)
			case *ssa.RunDefers:
				if len(fr.defers) == 0 {
					continue
				}
				outs := []Outcome{{S: s, Kind: "return", fr: fr}}
				for len(fr.defers) > 0 {
					d := fr.defers[len(fr.defers)-1]
					fr.defers = fr.defers[:len(fr.defers)-1]
					var next []Outcome
					for _, o := range outs {
						if o.Kind != "return" {
							next = append(next, o)
							continue
						}
						rs := e.call(fr, d.in, d.call, d.fn, d.args, o.S, d.pos)
						next = append(next, rs...)
					}
					outs = next
				}
				var fin []Outcome
				for _, o := range outs {
					if o.Kind != "return" {
						fin = append(fin, o)
						continue
					}
					fin = append(fin, e.run(fr.clone(), b, idx+1, prev, o.S)...)
				}
				return fin
			case *ssa.Call:
				args := make([]*Term, len(x.Call.Args))
				for i, a := range x.Call.Args {
					args[i] = e.val(fr, a)
				}
				fnT := e.val(fr, x.Call.Value)
				outs := e.call(fr, x, &x.Call, fnT, args, s, x.Pos())
				if len(outs) == 1 && outs[0].Kind == "return" {
					s = outs[0].S
					fr.env[x] = pack(outs[0].Res)
					continue
				}
				var fin []Outcome
				for _, o := range outs {
					if o.Kind != "return" {
						fin = append(fin, o)
						continue
					}
					f2 := fr.clone()
					f2.env[x] = pack(o.Res)
					fin = append(fin, e.run(f2, b, idx+1, prev, o.S)...)
				}
				return fin
			case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
				giveUp("concurrency instruction in %s", fr.fn)
			default:
				e.step(fr, in, s)
			}
		}
		giveUp("block without terminator in %s", fr.fn)
	}
}

// boxed records the type under which a value becomes an interface{}.
func (e *Engine) boxed(s *State, to, from types.Type, v *Term) {
	if e.Boxes {
		if i, ok := to.Underlying().(*types.Interface); ok && i.Empty() {
			s.Trace = append(s.Trace, Event{Kind: "box", Term: v, Typ: from})
		}
	}
}

func pack(res []*Term) *Term {
	if len(res) == 0 {
		return T("tuple", "")
	}
	if len(res) == 1 {
		return res[0]
	}
	return T("tuple", "", res...)
}

func (e *Engine) jump(fr *frame, from, to *ssa.BasicBlock, s *State) []Outcome {
	// leaving or repeating an active loop?
	if n := len(fr.loops); n > 0 {
		l := fr.loops[n-1]
		if to == l.header {
			return []Outcome{{S: s, Kind: "continue", fr: fr, target: to, prev: from}}
		}
		if !l.body[to] {
			return []Outcome{{S: s, Kind: "exit", fr: fr, target: to, prev: from}}
		}
	}
	li := e.loopsOf(fr.fn)
	if l, ok := li.byHeader[to]; ok {
		return e.enterLoop(fr, l, from, s)
	}
	e.bindPhis(fr, from, to)
	return e.run(fr, to, 0, from, s)
}

func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

func (e *Engine) bindPhis(fr *frame, from, to *ssa.BasicBlock) {
	pi := predIndex(from, to)
	vals := map[*ssa.Phi]*Term{}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[p] = e.val(fr, p.Edges[pi])
	}
	for p, v := range vals {
		fr.env[p] = v
	}
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// intBits gives the width of an integer type; int and uint count as 64.
func intBits(t types.Type) int {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isByteSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (e *Engine) use(s *State, fr *frame, in ssa.Instruction, ops ...*Term) {
	if e.OnUse == nil {
		return
	}
	if v := e.OnUse(s, fr.fn, in, ops...); v != nil {
		e.Uses = append(e.Uses, v)
	}
}

func (e *Engine) step(fr *frame, in ssa.Instruction, s *State) {
	switch x := in.(type) {
	case *ssa.Alloc:
		ty := x.Type().Underlying().(*types.Pointer).Elem()
		fr.env[x] = s.fresh("new", typeName(ty), x.Type())
	case *ssa.BinOp:
		if x.Op == token.QUO || x.Op == token.REM {
			e.use(s, fr, x, use(s, e.val(fr, x.Y)))
		}
		fr.env[x] = e.binop(x.Op, use(s, e.val(fr, x.X)), use(s, e.val(fr, x.Y)), x.X.Type()).typed(x.Type())
	case *ssa.UnOp:
		a := e.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			e.use(s, fr, x, a)
			fr.env[x] = s.Load(a, x.Type())
		case token.NOT:
			fr.env[x] = Not(a)
		case token.SUB:
			if v, ok := a.IntOf(); ok {
				fr.env[x] = Int(-v)
			} else {
				fr.env[x] = T("neg", "", a).typed(x.Type())
			}
		default:
			fr.env[x] = T("unop", x.Op.String(), a).typed(x.Type())
		}
	case *ssa.ChangeInterface:
		fr.env[x] = e.val(fr, x.X)
		e.boxed(s, x.Type(), x.X.Type(), fr.env[x])
	case *ssa.ChangeType:
		fr.env[x] = e.val(fr, x.X)
	case *ssa.MakeInterface:
		fr.env[x] = e.val(fr, x.X)
		e.boxed(s, x.Type(), x.X.Type(), fr.env[x])
	case *ssa.Convert:
		a := use(s, e.val(fr, x.X))
		from, to := x.X.Type(), x.Type()
		switch {
		case isInt(from) && isInt(to):
			if _, isC := a.IntOf(); !isC && intBits(to) < intBits(from) {
				fr.env[x] = T("trunc", typeName(to), a).typed(to)
			} else {
				fr.env[x] = a
			}
		case isString(from) && isByteSlice(to):
			if a.Op == "convstring" {
				fr.env[x] = a.Args[0]
			} else if a == Str("") {
				fr.env[x] = T("list", "").typed(to)
			} else {
				fr.env[x] = T("convbytes", "", a).typed(to)
			}
		case isByteSlice(from) && isString(to):
			if a.Op == "convbytes" {
				fr.env[x] = a.Args[0]
			} else if a.Op == "list" && len(a.Args) == 0 {
				fr.env[x] = Str("")
			} else {
				fr.env[x] = T("convstring", "", a).typed(to)
			}
		case isString(from) && isString(to):
			fr.env[x] = a
		case isInt(to) && a.Op == "conv" && len(a.Args) == 1 && a.Args[0].Op == "len" && a.Aux == "float64":
			fr.env[x] = a.Args[0] // a length is exact as a float
		default:
			fr.env[x] = T("conv", typeName(to), a).typed(to)
		}
	case *ssa.Extract:
		a := e.val(fr, x.Tuple)
		if a.Op == "tuple" {
			fr.env[x] = a.Args[x.Index]
		} else {
			fr.env[x] = T("ext", strconv.Itoa(x.Index), a).typed(x.Type())
		}
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		v := e.val(fr, x.X)
		if v.Op == "zero" {
			fr.env[x] = zero(x.Type())
		} else {
			fr.env[x] = FieldOf(strip(v), st.Field(x.Field).Name()).typed(x.Type())
		}
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		e.use(s, fr, x, e.val(fr, x.X))
		fr.env[x] = T("addr", st.Field(x.Field).Name(), e.val(fr, x.X)).typed(x.Type())
	case *ssa.Index:
		e.use(s, fr, x, use(s, e.val(fr, x.X)), use(s, e.val(fr, x.Index)))
		fr.env[x] = indexOf(use(s, e.val(fr, x.X)), e.val(fr, x.Index)).typed(x.Type())
		s.Trace = append(s.Trace, Event{Kind: "index", Term: e.val(fr, x.X), Args: []*Term{e.val(fr, x.Index)}, Pos: x.Pos(), In: fr.fn, Loop: s.loop, Instr: x})
	case *ssa.IndexAddr:
		base := e.val(fr, x.X)
		e.use(s, fr, x, use(s, base), use(s, e.val(fr, x.Index)))
		fr.env[x] = T("iaddr", "", base, e.val(fr, x.Index)).typed(x.Type())
		s.Trace = append(s.Trace, Event{Kind: "index", Term: base, Args: []*Term{e.val(fr, x.Index)}, Pos: x.Pos(), In: fr.fn, Loop: s.loop, Instr: x})
	case *ssa.Lookup:
		m := e.val(fr, x.X)
		k := use(s, e.val(fr, x.Index))
		if isString(x.X.Type()) {
			e.use(s, fr, x, use(s, m), k)
			fr.env[x] = T("index", "", m, k).typed(x.Type())
			return
		}
		c := s.mapContent(m)
		v, ok := lookup(c, k, x.X.Type().Underlying().(*types.Map).Elem())
		if x.CommaOk {
			fr.env[x] = T("tuple", "", v, ok)
		} else {
			fr.env[x] = v
		}
	case *ssa.MakeMap:
		m := s.fresh("mkmap", typeName(x.Type()), x.Type())
		s.Mem[T("content", "", m)] = T("mapempty", "")
		fr.env[x] = m
	case *ssa.MapUpdate:
		m := e.val(fr, x.Map)
		k, v := use(s, e.val(fr, x.Key)), use(s, e.val(fr, x.Value))
		e.use(s, fr, x, m)
		if !isFresh(m) {
			s.Trace = append(s.Trace, Event{Kind: "mapwrite", Addr: m, Args: []*Term{k, v}, Pos: x.Pos(), In: fr.fn, Loop: s.loop, Instr: x})
		}
		s.Mem[T("content", "", m)] = T("mapset", "", s.mapContent(m), k, v)
	case *ssa.MakeSlice:
		n := e.val(fr, x.Len)
		if v, ok := n.IntOf(); ok && v == 0 {
			fr.env[x] = T("list", "")
			return
		}
		s.seq++
		fr.env[x] = T("mkslice", typeName(x.Type())+"#"+strconv.Itoa(s.seq), n).typed(x.Type())
	case *ssa.MakeClosure:
		b := []*Term{}
		for _, v := range x.Bindings {
			b = append(b, e.val(fr, v))
		}
		t := T("closure", x.Fn.String(), b...).typed(x.Type())
		fr.env[x] = t
		closureFns[t] = x.Fn.(*ssa.Function)
	case *ssa.Slice:
		fr.env[x] = e.slice(fr, x, s)
	case *ssa.Store:
		ty := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		e.store(s, fr, e.val(fr, x.Addr), e.val(fr, x.Val), ty, x.Pos(), x)
	case *ssa.TypeAssert:
		a := e.val(fr, x.X)
		v := a
		ok := T("isa", typeName(x.AssertedType), a)
		if a.Op == "new" && a.Typ != nil {
			if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
				ok = BoolT(types.Implements(a.Typ, it))
			} else {
				ok = BoolT(types.Identical(a.Typ, x.AssertedType))
			}
		}
		if isString(x.AssertedType) && (a.Typ == nil || !isString(a.Typ)) {
			if _, isC := a.StrOf(); !isC {
				v = T("astext", "", a).typed(types.Typ[types.String])
			}
		}
		if x.CommaOk {
			fr.env[x] = T("tuple", "", v, ok)
		} else {
			e.use(s, fr, x, a)
			s.F.alive(a)
			s.Trace = append(s.Trace, Event{Kind: "assert", Callee: typeName(x.AssertedType), Term: a, Pos: x.Pos(), In: fr.fn, Loop: s.loop, Instr: x})
			fr.env[x] = v
		}
	case *ssa.Range:
		fr.env[x] = T("range", "", e.val(fr, x.X))
	case *ssa.Next:
		r := e.val(fr, x.Iter)
		m := r.Args[0]
		j := fr.cur[x.Block()]
		if x.IsString {
			if j == nil {
				fr.env[x] = T("tuple", "", T("nextok", "runes", m), T("runepos", "", m), T("rune", "", m))
				return
			}
			fr.env[x] = T("tuple", "", Lt(j, T("runecount", "", m)), T("runepos", "", m, j).typed(types.Typ[types.Int]), T("rune", "", m, j).typed(types.Typ[types.Rune]))
			return
		}
		mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		c := s.mapContent(m)
		if j == nil {
			k := T("mapkey", "", c).typed(mt.Key())
			v, _ := lookup(c, k, mt.Elem())
			fr.env[x] = T("tuple", "", T("nextok", "", c), k, v)
			return
		}
		k := T("mapkey", "", c, j).typed(mt.Key())
		v, _ := lookup(c, k, mt.Elem())
		fr.env[x] = T("tuple", "", Lt(j, LenOf(c)), k, v)
	default:
		giveUp("unsupported instruction %T in %s", in, fr.fn)
	}
}

var closureFns = map[*Term]*ssa.Function{}

func (s *State) mapContent(m *Term) *Term {
	if c, ok := s.Mem[T("content", "", m)]; ok {
		return c
	}
	if m.Op == "nil" {
		return T("mapempty", "")
	}
	return m
}

func lookup(c, k *Term, elem types.Type) (*Term, *Term) {
	switch c.Op {
	case "mapempty":
		return zero(elem), False
	case "mapset":
		if c.Args[1] == k {
			return c.Args[2], True
		}
		if c.Args[1].Op == "const" && k.Op == "const" {
			return lookup(c.Args[0], k, elem)
		}
	}
	return T("lookup", "", c, k).typed(elem), T("lookupok", "", c, k)
}

func (e *Engine) slice(fr *frame, x *ssa.Slice, s *State) *Term {
	base := e.val(fr, x.X)
	if al, ok := x.X.(*ssa.Alloc); ok && al.Comment == "makeslice" && x.Low == nil && x.High != nil {
		if n, ok := e.val(fr, x.High).IntOf(); ok {
			if n == 0 {
				return T("list", "").typed(x.Type())
			}
			s.seq++
			return T("mkslice", typeName(x.Type())+"#"+strconv.Itoa(s.seq), Int(n)).typed(x.Type())
		}
	}
	if al, ok := x.X.(*ssa.Alloc); ok && al.Comment != "slicelit" && al.Comment != "varargs" && al.Comment != "makeslice" && x.Low == nil && x.High == nil && arrayOf(base) != nil {
		return T("aslice", "", base).typed(x.Type())
	}
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if arr, ok := p.Elem().Underlying().(*types.Array); ok && x.Low == nil && x.High == nil && base.Op == "new" {
			if v, ok := s.Mem[base]; ok {
				return T("slice", "", v, Int(0), T("none", ""))
			}
			if arr.Len() > 256 {
				return T("slice", "", base, Int(0), T("none", ""))
			}
			els := []*Term{}
			for i := int64(0); i < arr.Len(); i++ {
				v, ok := s.Mem[T("iaddr", "", base, Int(i))]
				if !ok {
					v = zero(arr.Elem())
				}
				els = append(els, v)
			}
			return T("list", "", els...).typed(x.Type())
		}
		if _, ok := p.Elem().Underlying().(*types.Array); ok {
			base = s.Load(base, p.Elem())
		}
	}
	base = use(s, base)
	lo := Int(0)
	hi := T("none", "")
	if x.Low != nil {
		lo = e.val(fr, x.Low)
	}
	if x.High != nil {
		hi = e.val(fr, x.High)
		if hi == LenOf(base) {
			hi = T("none", "")
		}
	}
	e.use(s, fr, x, base, lo, hi)
	s.Trace = append(s.Trace, Event{Kind: "slice", Term: base, Args: []*Term{lo, hi}, Pos: x.Pos(), In: fr.fn, Loop: s.loop, Instr: x})
	if v, ok := lo.IntOf(); ok && v == 0 && hi.Op == "none" {
		return base
	}
	if base.Op == "slice" && len(base.Args) == 3 {
		// a part of a part
		from := base.Args[1]
		if hi.Op == "none" {
			hi = base.Args[2]
		} else {
			hi = plus(from, hi)
		}
		base, lo = base.Args[0], plus(from, lo)
	}
	return T("slice", "", base, lo, hi).typed(x.Type())
}

func plus(a, b *Term) *Term {
	if v, ok := b.IntOf(); ok {
		return Add(a, v)
	}
	if v, ok := a.IntOf(); ok {
		return Add(b, v)
	}
	a, b = ordered(a, b)
	return T("bin", "+", a, b)
}

func (e *Engine) binop(op token.Token, a, b *Term, ty types.Type) *Term {
	switch op {
	case token.EQL:
		return eqT(a, b)
	case token.NEQ:
		return Not(eqT(a, b))
	case token.LSS:
		return ltT(a, b)
	case token.GTR:
		return ltT(b, a)
	case token.LEQ:
		return Not(ltT(b, a))
	case token.GEQ:
		return Not(ltT(a, b))
	case token.ADD:
		if isString(ty) {
			return StrCat(a, b)
		}
		if v, ok := b.IntOf(); ok && isInt(ty) {
			return Add(a, v)
		}
		if v, ok := a.IntOf(); ok && isInt(ty) {
			return Add(b, v)
		}
		a, b = ordered(a, b)
		return T("bin", "+", a, b)
	case token.SUB:
		if v, ok := b.IntOf(); ok && isInt(ty) {
			return Add(a, -v)
		}
		if a == b {
			return Int(0)
		}
	case token.MUL, token.AND, token.OR, token.XOR:
		if x, ok := a.IntOf(); ok {
			if y, ok := b.IntOf(); ok {
				switch op {
				case token.MUL:
					return Int(x * y)
				case token.AND:
					return Int(x & y)
				case token.OR:
					return Int(x | y)
				case token.XOR:
					return Int(x ^ y)
				}
			}
		}
		a, b = ordered(a, b)
	}
	return T("bin", op.String(), a, b)
}

// comparisons against zero of x-y style and compare functions
func eqT(a, b *Term) *Term {
	if a.Op == "cmp" {
		if v, ok := b.IntOf(); ok && v == 0 {
			return Eq(a.Args[0], a.Args[1])
		}
	}
	if b.Op == "cmp" {
		if v, ok := a.IntOf(); ok && v == 0 {
			return Eq(b.Args[0], b.Args[1])
		}
	}
	if a.Op == "convstring" && b.Op == "convstring" {
		return Eq(a.Args[0], b.Args[0])
	}
	return Eq(a, b)
}

func ltT(a, b *Term) *Term { return Lt(a, b) }

// IsBuilder tells if an interface follows the builder idiom (Create and Now).
func (e *Engine) IsBuilder(t types.Type) bool {
	if v, ok := e.builderIf[t]; ok {
		return v
	}
	r := false
	if it, ok := t.Underlying().(*types.Interface); ok {
		hasC, hasN := false, false
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			if m.Name() == "Create" {
				hasC = true
			}
			if m.Name() == "Now" {
				hasN = true
			}
		}
		r = hasC && hasN
	}
	e.builderIf[t] = r
	return r
}

func results(sig *types.Signature, t *Term) []*Term {
	n := sig.Results().Len()
	if n == 0 {
		return nil
	}
	if n == 1 {
		return []*Term{t.typed(sig.Results().At(0).Type())}
	}
	out := []*Term{}
	for i := 0; i < n; i++ {
		out = append(out, T("ext", strconv.Itoa(i), t).typed(sig.Results().At(i).Type()))
	}
	return out
}

func (e *Engine) call(fr *frame, in ssa.Instruction, c *ssa.CallCommon, fnT *Term, args []*Term, s *State, pos token.Pos) []Outcome {
	ret := func(res ...*Term) []Outcome {
		return []Outcome{{S: s, Kind: "return", Res: res, fr: fr}}
	}
	raw := append([]*Term{}, args...)
	for i := range args {
		args[i] = use(s, args[i])
	}
	ev := func(callee string, fn *ssa.Function, t *Term, a []*Term) {
		s.Trace = append(s.Trace, Event{Kind: "call", Callee: callee, Fn: fn, Term: t, Args: a, Pos: pos, In: fr.fn, Loop: s.loop, Instr: in})
	}
	if _, static := c.Value.(*ssa.Function); !static {
		if _, blt := c.Value.(*ssa.Builtin); !blt {
			e.use(s, fr, in, fnT)
		}
	}
	if c.IsInvoke() {
		recv := fnT
		m := c.Method
		if e.Svc != nil && recv.Op != "bld" && e.Svc(c.Value.Type()) {
			recv = T("svc", typeName(types.Unalias(c.Value.Type())))
		}
		if (recv.Op == "new" || recv.Op == "self") && recv.Typ != nil && !e.NoDevirt {
			fn := e.Prog.LookupMethod(recv.Typ, m.Pkg(), m.Name())
			if fn != nil {
				if r, ok := e.opaque(fr, fn, append([]*Term{recv}, args...), s, pos, in); ok {
					return ret(r...)
				}
			}
			if fn != nil && len(fn.Blocks) > 0 && e.mayInline(fr, fn) {
				return e.inline(fr, fn, append([]*Term{recv}, args...), nil, s)
			}
		}
		if recv.Op == "hasher" {
			a := T("sbuf", "", recv)
			cur, ok := s.Mem[a]
			if !ok {
				cur = Str("")
			}
			switch m.Name() {
			case "Write":
				s.Mem[a] = StrCat(cur, toStr(args[0]))
				return ret(LenOf(args[0]), Nil)
			case "Sum":
				return ret(Concat(args[0], T("digest", recv.Aux[:strings.LastIndexByte(recv.Aux, '#')], cur)))
			case "Reset":
				s.Mem[a] = Str("")
				return ret()
			}
		}
		iface := typeName(c.Value.Type())
		if nt, ok := types.Unalias(c.Value.Type()).(*types.Named); ok {
			iface = typeName(nt)
		}
		if e.IsBuilder(c.Value.Type()) {
			return e.builderCall(fr, in, iface, recv, m, args, s, pos)
		}
		name := iface + "." + m.Name()
		if m.Pkg() == nil || m.Name() == "Error" && iface == "error" {
			name = "error.Error"
		}
		if e.Opaque != nil {
			for i := range args {
				args[i] = s.Freeze(args[i])
			}
		}
		s.F.alive(recv)
		if name == "crypto/cipher.Stream.XORKeyStream" && e.cipher(recv, raw, args, s) {
			return ret()
		}
		if name == "crypto/cipher.Block.BlockSize" && recv.Op == "ext" && recv.Args[0].Op == "call" && recv.Args[0].Aux == "crypto/aes.NewCipher" {
			return ret(Int(16))
		}
		if v := e.given(recv, m.Name(), args, s); v != nil {
			return ret(v)
		}
		t := T("call", name, append([]*Term{recv}, args...)...)
		ev(name, nil, t, append([]*Term{recv}, args...))
		return ret(results(m.Type().(*types.Signature), t)...)
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return e.builtin(fr, in, f, c, raw, args, s, pos, ret)
	case *ssa.Function:
		if r, ok := e.model(fr, f, raw, args, s, pos, in); ok {
			return ret(r...)
		}
		if e.Special != nil && len(f.Blocks) == 0 {
			if r, ok := e.Special(f, args, s); ok {
				return ret(r...)
			}
		}
		if r, ok := e.opaque(fr, f, args, s, pos, in); ok {
			return ret(r...)
		}
		if len(f.Blocks) > 0 && e.mayInline(fr, f) {
			return e.inline(fr, f, args, nil, s)
		}
		if rs := f.Signature.Results(); rs.Len() == 1 && typeName(rs.At(0).Type()) == "hash.Hash" && f.Pkg != nil && Repo != nil && !Repo(f.Pkg.Pkg) {
			return ret(s.fresh("hasher", f.String(), rs.At(0).Type()))
		}
		if f.Signature.Results().Len() == 0 && f.Pkg != nil && Repo != nil && !Repo(f.Pkg.Pkg) && f.Pkg.Pkg.Path() != "log" && f.Name() != "init" && in != nil {
			// it is called for what it changes
			giveUp("what %s changes is not known, in %s", f, fr.fn)
		}
		given := append([]*Term{}, args...)
		if e.Opaque != nil {
			for i := range args {
				args[i] = s.Freeze(args[i])
			}
		}
		name := f.String()
		if n, ok := sameStd[name]; ok {
			name = n
		}
		if name == "strings.ReplaceAll" {
			name, args = "strings.Replace", append(args[:3:3], Int(-1))
		}
		if name == "encoding/json.Unmarshal" && len(args) == 2 && args[1].Op == "ptr" && (args[1].Args[0].Op == "nil" || LenOf(args[1].Args[0]) == Int(0)) {
			// an empty list or a nil one is filled alike
			args = []*Term{args[0], T("ptr", args[1].Aux, Nil).typed(args[1].Typ)}
		}
		t := T("call", name, args...)
		ev(name, f, t, args)
		if f.Pkg != nil && Repo != nil && !Repo(f.Pkg.Pkg) {
			// a library fills what it is given the address of
			for i, a := range given {
				if a.Op != "new" || a.Typ == nil {
					continue
				}
				el := a.Typ.Underlying().(*types.Pointer).Elem()
				switch el.Underlying().(type) {
				case *types.Slice, *types.Basic, *types.Map:
					s.Mem[a] = T("outof", strconv.Itoa(i), t).typed(el)
				}
			}
		}
		return ret(results(f.Signature, t)...)
	}
	if fnT.Op == "func" {
		if f := closureFns[fnT]; f != nil {
			if r, ok := e.opaque(fr, f, args, s, pos, in); ok {
				return ret(r...)
			}
			if len(f.Blocks) > 0 && e.mayInline(fr, f) {
				return e.inline(fr, f, args, nil, s)
			}
		}
	}
	if fnT.Op == "closure" {
		if fn := closureFns[fnT]; fn != nil && len(fn.Blocks) > 0 && len(fr.stack) < e.MaxDepth+4 && !inStack(fr, fn) {
			return e.inline(fr, fn, args, fnT.Args, s)
		}
	}
	t := T("dyncall", "", append([]*Term{fnT}, args...)...)
	ev("dyncall", nil, t, append([]*Term{fnT}, args...))
	return ret(results(c.Signature(), t)...)
}

func (e *Engine) opaque(fr *frame, fn *ssa.Function, args []*Term, s *State, pos token.Pos, in ssa.Instruction) ([]*Term, bool) {
	if e.Opaque == nil {
		return nil, false
	}
	name, drop, ok := e.Opaque(fn)
	if !ok {
		return nil, false
	}
	a := make([]*Term, 0, len(args))
	for _, x := range args[drop:] {
		a = append(a, s.Freeze(x))
	}
	t := T("call", name, a...)
	if e.Chance != nil && e.Chance(fn) {
		n := int64(0)
		for _, ev := range s.Trace {
			if ev.Callee == name {
				n++
			}
		}
		t = T("call", name, append(a[:len(a):len(a)], Int(n))...)
	}
	s.Trace = append(s.Trace, Event{Kind: "call", Callee: name, Fn: fn, Term: t, Args: a, Pos: pos, In: fr.fn, Loop: s.loop, Instr: in})
	return results(fn.Signature, t), true
}

func inStack(fr *frame, fn *ssa.Function) bool {
	for _, f := range fr.stack {
		if f == fn {
			return true
		}
	}
	return false
}

func (e *Engine) mayInline(fr *frame, fn *ssa.Function) bool {
	if inStack(fr, fn) || len(fr.stack) > e.MaxDepth {
		return false
	}
	return e.Inline != nil && e.Inline(e.root, fr.fn, fn)
}

func (e *Engine) inline(fr *frame, fn *ssa.Function, args, bind []*Term, s *State) []Outcome {
	outs := e.callFn(fn, args, bind, s, fr.depth+1, fr.stack)
	return outs
}

// builderCall models the builder idiom: Create gives a fresh builder, a setter
// records its argument in it and returns it, Now yields a value identified by
// everything recorded.
func (e *Engine) builderCall(fr *frame, in ssa.Instruction, iface string, recv *Term, m *types.Func, args []*Term, s *State, pos token.Pos) []Outcome {
	ret := func(res ...*Term) []Outcome {
		return []Outcome{{S: s, Kind: "return", Res: res, fr: fr}}
	}
	sig := m.Type().(*types.Signature)
	switch m.Name() {
	case "Create":
		b := s.fresh("bld", iface, sig.Results().At(0).Type())
		s.Mem[T("content", "base", b)] = recv
		s.Trace = append(s.Trace, Event{Kind: "call", Callee: iface + ".Create", Term: b, Args: []*Term{recv}, Pos: pos, In: fr.fn, Loop: s.loop, Instr: in})
		return ret(b)
	case "Now":
		t := s.Built(iface, recv)
		s.Trace = append(s.Trace, Event{Kind: "call", Callee: iface + ".Now", Term: t, Args: []*Term{recv}, Pos: pos, In: fr.fn, Loop: s.loop, Instr: in})
		return ret(results(sig, t)...)
	}
	if sig.Results().Len() != 1 {
		t := T("call", iface+"."+m.Name(), append([]*Term{recv}, args...)...)
		s.Trace = append(s.Trace, Event{Kind: "call", Callee: iface + "." + m.Name(), Term: t, Args: append([]*Term{recv}, args...), Pos: pos, In: fr.fn, Loop: s.loop, Instr: in})
		return ret(results(sig, t)...)
	}
	s.Mem[T("with", m.Name(), recv)] = T("args", "", args...)
	s.Trace = append(s.Trace, Event{Kind: "call", Callee: iface + "." + m.Name(), Term: recv, Args: append([]*Term{recv}, args...), Pos: pos, In: fr.fn, Loop: s.loop, Instr: in})
	return ret(recv)
}

// New is a fresh object of a type.
func (s *State) New(ty types.Type) *Term {
	return s.fresh("new", typeName(ty), types.NewPointer(ty))
}

// cipher gives a meaning to the bytes that a stream of keys fills, when they are all of a
// list of the function, or when a list that a library made is filled in place.
func (e *Engine) cipher(recv *Term, raw, args []*Term, s *State) bool {
	if len(raw) != 2 {
		return false
	}
	v := T("xored", "", recv, s.Freeze(args[1])).typed(args[1].Typ)
	if raw[0].Op == "mkslice" {
		if LenOf(raw[0]) != LenOf(args[1]) {
			return false
		}
		s.Mem[T("content", "", raw[0])] = v
		return true
	}
	x := args[0]
	if x == args[1] && x.Op == "slice" && x.Args[0].Op == "ext" && x.Args[0].Args[0].Op == "call" {
		s.alias(x, v)
		return true
	}
	return false
}

// given finds the value supplied to the builder of an object that a method gives back.
func (e *Engine) given(recv *Term, m string, args []*Term, s *State) *Term {
	if e.Getter == nil || len(args) > 0 || recv.Op != "ext" || recv.Aux != "0" || recv.Args[0].Op != "built" {
		return nil
	}
	b := recv.Args[0]
	if s.F.Eval(Eq(T("ext", "1", b), Nil)) != 1 {
		return nil
	}
	w := e.Getter(b.Aux, m)
	for _, x := range b.Args {
		if w != "" && x.Op == "set" && x.Aux == w && len(x.Args) == 1 && x.Args[0].Op == "args" && len(x.Args[0].Args) == 1 {
			return x.Args[0].Args[0]
		}
	}
	return nil
}

// Built is the value number of what a builder builds.
func (s *State) Built(iface string, recv *Term) *Term {
	withs := []*Term{}
	for a, v := range s.Mem {
		if a.Op == "with" && a.Args[0] == recv {
			withs = append(withs, T("set", a.Aux, s.Freeze(v)))
		}
	}
	sort.Slice(withs, func(i, j int) bool { return withs[i].Aux < withs[j].Aux })
	base := recv
	op := "builtstale"
	if b, ok := s.Mem[T("content", "base", recv)]; ok {
		base = b
		op = "built"
	}
	return T(op, iface, append([]*Term{base}, withs...)...)
}

// copied finds the struct that the fields of an object are all copied from.
func copied(fvs []*Term) *Term {
	var src *Term
	for _, fv := range fvs {
		v := fv.Args[0]
		if v.Op != "field" || v.Aux != fv.Aux || src != nil && src != v.Args[0] {
			return nil
		}
		src = v.Args[0]
	}
	return src
}

// Freeze replaces the fresh objects inside a value by their content.
func (s *State) Freeze(t *Term) *Term {
	memo := map[*Term]*Term{}
	var r func(x *Term, d int) *Term
	r = func(x *Term, d int) *Term {
		if d > 12 {
			return x
		}
		if y, ok := memo[x]; ok {
			return y
		}
		y := x
		switch x.Op {
		case "new":
			if x.Typ != nil {
				el := x.Typ.Underlying().(*types.Pointer).Elem()
				memo[x] = x
				if st, ok := el.Underlying().(*types.Struct); ok {
					args := []*Term{}
					for i := 0; i < st.NumFields(); i++ {
						f := st.Field(i)
						v := s.Load(T("addr", f.Name(), x), f.Type())
						args = append(args, T("fv", f.Name(), r(v, d+1)))
					}
					if src := copied(args); src != nil {
						y = T("ptr", typeName(el), src).typed(x.Typ)
					} else {
						y = T("obj", typeName(el), args...).typed(x.Typ)
					}
				} else if arrayOf(x) != nil {
					y = T("ptr", typeName(el), r(s.loadArray(x), d+1)).typed(x.Typ)
				} else {
					y = T("ptr", typeName(el), r(s.Load(x, el), d+1)).typed(x.Typ)
				}
			}
		case "addr":
			if p, ok := x.Typ.(*types.Pointer); ok && !isFresh(rootOf(x)) {
				if n, ok := p.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && Repo != nil && !Repo(n.Obj().Pkg()) {
					y = T("ptr", typeName(n), s.Load(x, n)).typed(x.Typ)
				}
			}
		case "hasher":
			if i := strings.LastIndexByte(x.Aux, '#'); i >= 0 {
				if b, ok := s.Mem[T("sbuf", "", x)]; !ok || b == Str("") {
					y = T("hasher", x.Aux[:i])
				}
			}
		case "mkslice":
			if c, ok := s.Mem[T("content", "", x)]; ok {
				y = r(c, d+1)
			} else {
				cells := []*Term{}
				for a, v := range s.Mem {
					if a.Op == "iaddr" && a.Args[0] == x {
						cells = append(cells, T("cell", "", a.Args[1], v))
					}
				}
				if len(cells) > 0 {
					memo[x] = T("filled", "", x.Args...)
					for i, c := range cells {
						cells[i] = T("cell", "", r(c.Args[0], d+1), r(c.Args[1], d+1))
					}
					sort.Slice(cells, func(i, j int) bool { return cells[i].String() < cells[j].String() })
					y = T("cells", "", append([]*Term{r(x.Args[0], d+1)}, cells...)...)
					if n, ok := x.Args[0].IntOf(); ok && int(n) == len(cells) {
						// every element is given: it is a list
						els := make([]*Term, n)
						for _, c := range cells {
							if i, ok := c.Args[0].IntOf(); ok && i >= 0 && i < n {
								els[i] = c.Args[1]
							} else {
								els = nil
								break
							}
						}
						if els != nil {
							y = T("list", "", els...).typed(x.Typ)
						}
					}
				}
			}
		case "mkmap":
			if c, ok := s.Mem[T("content", "", x)]; ok && c != x {
				y = T("mapval", "", r(c, d+1))
			}
		case "bld":
			y = s.builderSnap(x)
		case "lv":
			return x // its class was frozen when the loop was met
		default:
			if len(x.Args) > 0 {
				n := make([]*Term, len(x.Args))
				ch := false
				for i, a := range x.Args {
					n[i] = r(a, d)
					ch = ch || n[i] != a
				}
				if ch {
					y = rebuild(x, n)
				}
			}
		}
		memo[x] = y
		return y
	}
	return r(t, 0)
}

func (s *State) builderSnap(x *Term) *Term { return x }

func (e *Engine) builtin(fr *frame, in ssa.Instruction, f *ssa.Builtin, c *ssa.CallCommon, raw, args []*Term, s *State, pos token.Pos, ret func(...*Term) []Outcome) []Outcome {
	switch f.Name() {
	case "len":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			return ret(LenOf(s.mapContent(args[0])).typed(types.Typ[types.Int]))
		}
		return ret(LenOf(args[0]))
	case "cap":
		return ret(T("cap", "", args[0]))
	case "append":
		base := args[0]
		s.Trace = append(s.Trace, Event{Kind: "append", Term: base, Args: args, Pos: pos, In: fr.fn, Loop: s.loop, Instr: in})
		if len(args) < 2 {
			return ret(base)
		}
		y := args[1]
		if isString(c.Args[1].Type()) {
			y = T("convbytes", "", y)
		}
		return ret(Concat(s.Freeze2(base), y).typed(c.Args[0].Type()))
	case "copy":
		s.Trace = append(s.Trace, Event{Kind: "copy", Term: args[0], Args: args, Pos: pos, In: fr.fn, Loop: s.loop, Instr: in})
		if b := dstOf(raw[0]); b != nil && (LenOf(b) == LenOf(args[1]) || s.F.Eval(Eq(LenOf(args[1]), LenOf(b))) == 1) {
			s.Mem[T("content", "", b)] = args[1]
		} else if b != nil {
			s.Mem[T("content", "", b)] = T("copied", "", b, args[1])
		} else if args[0].Op == "mkslice" && LenOf(args[0]) == LenOf(args[1]) {
			s.Mem[T("content", "", args[0])] = T("concat", "", args[1])
			s.Mem[T("content", "", args[0])] = args[1]
		} else if !isFresh(rootOf(args[0])) {
			s.Trace = append(s.Trace, Event{Kind: "write", Addr: T("iaddr", "", args[0], T("sym", "*")), Term: args[1], Pos: pos, In: fr.fn, Loop: s.loop, Instr: in})
		}
		return ret(T("copyn", "", args...))
	case "delete":
		m := args[0]
		if !isFresh(m) {
			s.Trace = append(s.Trace, Event{Kind: "mapwrite", Addr: m, Args: args[1:], Pos: pos, In: fr.fn, Loop: s.loop, Instr: in})
		}
		s.Mem[T("content", "", m)] = T("mapdel", "", s.mapContent(m), args[1])
		return ret()
	case "print", "println", "close":
		return ret()
	case "ssa:wrapnilchk":
		return ret(args[0])
	case "min", "max":
		return ret(T("call", f.Name(), args...))
	}
	giveUp("builtin %s in %s", f.Name(), fr.fn)
	return nil
}

// Freeze2 resolves a slice value.
func (s *State) Freeze2(t *Term) *Term { return use(s, t) }

// model gives the meaning of the standard functions the rules reason about.
func (e *Engine) model(fr *frame, f *ssa.Function, raw, args []*Term, s *State, pos token.Pos, in ssa.Instruction) ([]*Term, bool) {
	name := f.String()
	switch name {
	case "errors.New", "fmt.Errorf":
		return []*Term{T("errnew", name, args...)}, true
	case "strconv.Itoa":
		return []*Term{T("fmt", "%d", args[0]).typed(types.Typ[types.String])}, true
	case "strconv.FormatInt", "strconv.FormatUint":
		if args[1] == Int(10) {
			return []*Term{T("fmt", "%d", args[0]).typed(types.Typ[types.String])}, true
		}
	case "fmt.Sprint":
		if args[0].Op == "list" && len(args[0].Args) == 1 {
			if t, ok := formatted("%v", args[0].Args[0]); ok {
				return []*Term{t}, true
			}
		}
	case "fmt.Sprintf":
		if f, ok := args[0].StrOf(); ok && (args[1].Op == "list" || args[1].Op == "nil") {
			if t, ok := sprintf(f, args[1].Args); ok {
				return []*Term{t}, true
			}
		}
	case "strings.Join":
		if v, ok := args[1].StrOf(); ok && v == "" {
			return []*Term{JoinEmpty(args[0])}, true
		}
		if args[0].Op == "list" {
			out := Str("")
			for i, a := range args[0].Args {
				if i > 0 {
					out = StrCat(out, args[1])
				}
				out = StrCat(out, a)
			}
			return []*Term{out}, true
		}
		return nil, false
	case "bytes.Join":
		if args[1].Op == "nil" || LenOf(args[1]) == Int(0) {
			return []*Term{bytesJoin(args[0])}, true
		}
		return nil, false
	case "(time.Time).After":
		return []*Term{T("call", "(time.Time).Before", args[1], args[0]).typed(types.Typ[types.Bool])}, true
	case "bytes.Equal":
		return []*Term{Eq(args[0], args[1])}, true
	case "bytes.Compare", "strings.Compare":
		return []*Term{T("cmp", "", args[0], args[1])}, true
	case "strings.EqualFold":
		return nil, false
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		a := T("sbuf", "", args[0])
		cur, ok := s.Mem[a]
		if !ok {
			cur = Str("")
		}
		s.Mem[a] = StrCat(cur, args[1])
		return []*Term{LenOf(args[1]), Nil}, true
	case "(*bytes.Buffer).Write":
		a := T("sbuf", "", args[0])
		cur, ok := s.Mem[a]
		if !ok {
			cur = Str("")
		}
		s.Mem[a] = StrCat(cur, T("convstring", "", args[1]))
		return []*Term{LenOf(args[1]), Nil}, true
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		if cur, ok := s.Mem[T("sbuf", "", args[0])]; ok {
			return []*Term{cur}, true
		}
		if args[0].Op == "new" {
			return []*Term{Str("")}, true
		}
	case "crypto/sha512.New", "crypto/sha256.New", "crypto/sha1.New", "crypto/md5.New", "crypto/sha512.New384":
		h := s.fresh("hasher", name, f.Signature.Results().At(0).Type())
		return []*Term{h}, true
	case "crypto/sha512.Sum512", "crypto/sha256.Sum256", "crypto/sha1.Sum", "crypto/md5.Sum":
		algo := map[string]string{"crypto/sha512.Sum512": "crypto/sha512.New", "crypto/sha256.Sum256": "crypto/sha256.New", "crypto/sha1.Sum": "crypto/sha1.New", "crypto/md5.Sum": "crypto/md5.New"}[name]
		return []*Term{T("digest", algo, toStr(args[0]))}, true
	case "(encoding/binary.bigEndian).PutUint64", "(encoding/binary.littleEndian).PutUint64":
		if d := dstOf(raw[1]); d != nil && LenOf(d) == Int(8) {
			s.Mem[T("content", "", d)] = T("u64", name[17:20], args[2])
			return nil, true
		}
	case "(encoding/binary.bigEndian).AppendUint64", "(encoding/binary.littleEndian).AppendUint64":
		return []*Term{Concat(args[1], T("u64", name[17:20], args[2]))}, true
	case "strings.Replace", "strings.TrimPrefix":
		// what follows a prefix that is there
		if f, ok := args[0], true; name == "strings.TrimPrefix" || args[2] == Str("") && args[3] == Int(1) {
			atom := T("call", "strings.HasPrefix", f, args[1])
			if e.Opaque != nil {
				atom = T("call", "strings.HasPrefix", s.Freeze(f), s.Freeze(args[1]))
			}
			ok = s.F.Eval(atom) == 1
			if n := LenOf(args[1]); ok && n == Int(0) {
				return []*Term{f}, true
			} else if ok {
				return []*Term{T("slice", "", f, n, T("none", "")).typed(f.Typ)}, true
			}
		}
	case "sort.Strings":
		s.Trace = append(s.Trace, Event{Kind: "call", Callee: name, Fn: f, Term: T("call", name, args...), Args: args, Pos: pos, In: fr.fn, Loop: s.loop, Instr: in})
		s.sortInPlace(raw[0], args[0])
		return []*Term{}, true
	}
	return nil, false
}

// sameStd lists the functions of the standard library that another one is a name of.
var sameStd = map[string]string{
	"os.ReadFile":  "io/ioutil.ReadFile",
	"os.WriteFile": "io/ioutil.WriteFile",
	"io.ReadAll":   "io/ioutil.ReadAll",
}

// dstOf gives the object whose elements a slice covers entirely.
func dstOf(t *Term) *Term {
	switch t.Op {
	case "mkslice":
		return t
	case "aslice":
		return t.Args[0]
	}
	return nil
}

// sprintf gives the text built by a constant format.
func sprintf(f string, args []*Term) (*Term, bool) {
	out := Str("")
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = StrCat(out, Str(f[i:i+1]))
			continue
		}
		i++
		if i >= len(f) {
			return nil, false
		}
		if f[i] == '%' {
			out = StrCat(out, Str("%"))
			continue
		}
		switch f[i] {
		case 's', 'd', 'v', 'x', 'X', 't', 'q':
		default:
			return nil, false
		}
		if n >= len(args) {
			return nil, false
		}
		t, ok := formatted("%"+f[i:i+1], args[n])
		if !ok {
			return nil, false
		}
		out = StrCat(out, t)
		n++
	}
	return out, n == len(args)
}

func formatted(verb string, a *Term) (*Term, bool) {
	if a.Typ == nil {
		if s, ok := a.StrOf(); ok && (verb == "%s" || verb == "%v") {
			return Str(s), true
		}
		return T("fmt", verb, a).typed(types.Typ[types.String]), true
	}
	if _, named := types.Unalias(a.Typ).(*types.Named); !named {
		if isString(a.Typ) && (verb == "%s" || verb == "%v") {
			return a, true
		}
		if isInt(a.Typ) && verb == "%v" {
			verb = "%d"
		}
	}
	return T("fmt", verb, a).typed(types.Typ[types.String]), true
}

// toStr sees bytes as a string.
func toStr(t *Term) *Term {
	switch t.Op {
	case "nil":
		return Str("")
	case "list":
		if len(t.Args) == 0 {
			return Str("")
		}
	case "convbytes":
		return t.Args[0]
	case "concat":
		out := Str("")
		for _, a := range t.Args {
			out = StrCat(out, toStr(a))
		}
		return out
	case "flatmap":
		return T("strmap", "", t.Args[0], toStr(t.Args[1]), t.Args[2])
	}
	return T("convstring", "", t)
}

func bytesJoin(l *Term) *Term {
	if l.Op == "list" {
		out := T("list", "")
		for _, a := range l.Args {
			out = Concat(out, a)
		}
		return out
	}
	return T("bytesjoin", "", l)
}

// MapContent gives what a map holds.
func (s *State) MapContent(m *Term) *Term { return s.mapContent(m) }
