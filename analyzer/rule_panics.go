package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sx"
)

// verdict is what is known of an instruction that panics on some operands.
type verdict struct {
	in   ssa.Instruction
	fn   *ssa.Function
	kind string
	msg  string
}

// zone is the difference-bound domain of a path: x - y <= c.
type zone struct {
	ids map[*sx.Term]int
	ts  []*sx.Term
	es  []zedge
}

type zedge struct {
	from, to int // to <= from + c
	c        int64
}

func (z *zone) node(t *sx.Term) (int, int64) {
	if v, ok := t.IntOf(); ok {
		return 0, v
	}
	var off int64
	if t.Op == "add" {
		fmt.Sscan(t.Aux, &off)
		t = t.Args[0]
	}
	if i, ok := z.ids[t]; ok {
		return i, off
	}
	i := len(z.ts)
	z.ids[t] = i
	z.ts = append(z.ts, t)
	return i, off
}

// le adds a <= b + c.
func (z *zone) le(a, b *sx.Term, c int64) {
	i, x := z.node(a)
	j, y := z.node(b)
	z.es = append(z.es, zedge{j, i, c + y - x})
}

func isInteger(t *sx.Term) bool {
	if _, ok := t.IntOf(); ok {
		return true
	}
	switch t.Op {
	case "len", "iter", "add", "runecount":
		return true
	}
	if t.Typ == nil {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// zoneOf builds the domain from the facts of a path.
func zoneOf(st *sx.State, about ...*sx.Term) *zone {
	z := &zone{ids: map[*sx.Term]int{}, ts: []*sx.Term{nil}}
	for _, l := range st.F.Lits {
		a := l.Atom
		switch a.Op {
		case "lt":
			if l.Val {
				z.le(a.Args[0], a.Args[1], -1)
			} else {
				z.le(a.Args[1], a.Args[0], 0)
			}
		case "eq":
			if l.Val && (isInteger(a.Args[0]) || isInteger(a.Args[1])) {
				z.le(a.Args[0], a.Args[1], 0)
				z.le(a.Args[1], a.Args[0], 0)
			}
		}
	}
	for _, t := range about {
		z.node(t)
	}
	zero := sx.Int(0)
	for i := 1; i < len(z.ts); i++ {
		t := z.ts[i]
		if lo, hi := st.F.Ival(t); lo != math.MinInt64 || hi != math.MaxInt64 {
			if lo != math.MinInt64 {
				z.le(zero, t, -lo)
			}
			if hi != math.MaxInt64 {
				z.le(t, zero, hi)
			}
		}
		switch t.Op {
		case "iter":
			if len(t.Args) > 0 {
				z.le(t, t.Args[0], -1)
			}
		case "len":
			x := t.Args[0]
			if x.Op == "slice" && x.Args[2].Op == "none" {
				// len(x[lo:]) = len(x) - lo
				if lo, ok := x.Args[1].IntOf(); ok {
					z.le(t, sx.LenOf(x.Args[0]), -lo)
					z.le(sx.LenOf(x.Args[0]), t, lo)
				} else {
					z.le(t, sx.LenOf(x.Args[0]), 0)
				}
			}
			if x.Op == "concat" {
				for _, a := range x.Args {
					z.le(sx.LenOf(a), t, 0)
				}
			}
		}
	}
	return z
}

// prove tells if a <= b + c follows.
func (z *zone) prove(a, b *sx.Term, c int64) bool {
	i, x := z.node(a)
	j, y := z.node(b)
	want := c + y - x
	const inf = math.MaxInt64 / 4
	d := make([]int64, len(z.ts))
	for k := range d {
		d[k] = inf
	}
	d[j] = 0
	for n := 0; n <= len(z.ts); n++ {
		ch := false
		for _, e := range z.es {
			if d[e.from] < inf && d[e.from]+e.c < d[e.to] {
				d[e.to] = d[e.from] + e.c
				ch = true
			}
		}
		if !ch {
			return d[i] <= want
		}
	}
	return true // the path is impossible
}

// panics judges the instructions that panic on some operands.
type panics struct {
	p     *Program
	parts map[string]map[string]*part // product -> accessor -> part
	specs map[string]*builderSpec     // product -> its builder
	may   map[*ssa.Function]bool
	seen  map[string]*verdict
}

// say gives the verdict of an instruction; what is said of it is said once.
func (pa *panics) say(in ssa.Instruction, fn *ssa.Function, kind, why string, msg func() string) *verdict {
	k := fmt.Sprintf("%p %s", in, why)
	if why != "" {
		k += msg()
	}
	if v := pa.seen[k]; v != nil {
		return v
	}
	v := &verdict{in: in, fn: fn, kind: kind}
	if why != "" {
		v.msg = msg()
	}
	pa.seen[k] = v
	return v
}

func newPanics(c *Ctx) *panics {
	pa := &panics{p: c.P, parts: map[string]map[string]*part{}, specs: map[string]*builderSpec{}, may: c.P.mayNil(), seen: map[string]*verdict{}}
	for _, sp := range c.P.builderSpecs(c) {
		if sp.Product == nil {
			continue
		}
		add := func(n *types.Named, pt *part) {
			k := types.TypeString(n, nil)
			if pa.parts[k] == nil {
				pa.parts[k] = map[string]*part{}
			}
			pa.specs[k] = sp
			if pt.Accessor != "" {
				pa.parts[k][pt.Accessor] = pt
			}
		}
		for _, pt := range sp.Parts {
			n := sp.Product
			if pt.Via != "" {
				if m := ifaceMethods(sp.Product)[pt.Via]; m != nil {
					n, _ = m.Type().(*types.Signature).Results().At(0).Type().(*types.Named)
				}
			}
			if n != nil {
				add(n, pt)
			}
		}
	}
	return pa
}

// partOf finds the part that a call of an accessor gives.
func (pa *panics) partOf(t *sx.Term) (*part, string) {
	if t.Op != "call" || len(t.Args) != 1 {
		return nil, ""
	}
	i := strings.LastIndexByte(t.Aux, '.')
	if i < 0 {
		return nil, ""
	}
	return pa.parts[t.Aux[:i]][t.Aux[i+1:]], t.Aux[:i]
}

// given tells if the facts of the path imply that a part was given.
func (pa *panics) given(st *sx.State, t *sx.Term, pt *part, iface string) bool {
	pred := func(nm string) int {
		if nm == "" {
			return -1
		}
		return st.F.Eval(sx.T("call", iface+"."+nm, t.Args[0]))
	}
	if pt.Class == mandatory || pred(pt.Has) == 1 || pred(pt.Is) == 1 {
		return true
	}
	if pt.Class == variant {
		// the others are excluded
		sp := pa.specs[iface]
		for _, o := range sp.Variants {
			if o == pt {
				continue
			}
			nm := o.Is
			if len(o.Params) == 0 {
				nm = o.Accessor
			}
			if pred(nm) != 0 {
				return false
			}
		}
		return len(sp.Variants) > 1
	}
	return false
}

// nonNil tells why a value may be nil: "" when it is not.
func (pa *panics) nonNil(st *sx.State, t *sx.Term) string {
	switch st.F.Eval(sx.IsNil(t)) {
	case 0:
		return ""
	case 1:
		return "it is nil"
	}
	switch t.Op {
	case "nil":
		return "it is nil"
	case "ext":
		c := t.Args[0]
		switch c.Op {
		case "call", "dyncall", "built", "builtstale":
		default:
			return ""
		}
		for _, l := range st.F.Lits {
			if l.Val && l.Atom.Op == "isnil" && l.Atom.Args[0].Op == "ext" && l.Atom.Args[0].Args[0] == c && l.Atom.Args[0] != t {
				return ""
			}
		}
		return "its error was not tested"
	case "call":
		if pt, iface := pa.partOf(t); pt != nil && !pa.given(st, t, pt, iface) {
			return "the part " + pt.Name + " is optional, and nothing tells that it was given"
		}
	case "lookup":
		if st.F.Eval(sx.T("lookupok", "", t.Args...)) != 1 {
			return "the key may be absent from the map"
		}
	case "lv", "end", "phi":
		return "undecided: it is carried by a loop"
	}
	return ""
}

// minLen gives the length a list is known to have.
func (pa *panics) minLen(st *sx.State, t *sx.Term) int64 {
	if pt, iface := pa.partOf(t); pt != nil && acceptsEmpty[pa.specs[iface].Key+"."+pt.Name] == "" && pa.given(st, t, pt, iface) {
		return 1
	}
	return 0
}

func (pa *panics) judge(st *sx.State, fn *ssa.Function, in ssa.Instruction, ops ...*sx.Term) any {
	if fn.Pkg == nil && fn.Parent() == nil || fn.Pkg != nil && !pa.p.inRepo(fn.Pkg.Pkg) {
		return nil
	}
	within := func(i, n *sx.Term, strict bool) bool {
		c := int64(0)
		if strict {
			c = -1
		}
		z := zoneOf(st, i, n)
		if n.Op == "len" {
			if m := pa.minLen(st, n.Args[0]); m > 0 {
				z.le(sx.Int(0), n, -m)
			}
		}
		return z.prove(sx.Int(0), i, 0) && z.prove(i, n, c)
	}
	fine := func(kind string) any { return pa.say(in, fn, kind, "", nil) }
	nilUse := func(what string, t *sx.Term) any {
		m := pa.nonNil(st, t)
		if m == "" {
			return fine("nil")
		}
		return pa.say(in, fn, "nil", m, func() string { return fmt.Sprintf("%s%s may be nil: %s", what, clip(t), m) })
	}
	switch x := in.(type) {
	case *ssa.Index, *ssa.IndexAddr, *ssa.Lookup:
		base, i := ops[0], ops[1]
		n := sx.LenOf(base)
		if ia, ok := x.(*ssa.IndexAddr); ok {
			if pt, ok := ia.X.Type().Underlying().(*types.Pointer); ok {
				if arr, ok := pt.Elem().Underlying().(*types.Array); ok {
					n = sx.Int(arr.Len())
				}
			}
		}
		if st.F.Eval(sx.Lt(i, n)) == 1 && i.Op == "iter" || within(i, n, true) {
			return fine("index")
		}
		return pa.say(in, fn, "index", "out", func() string {
			return fmt.Sprintf("the index %s is not known to be below %s", clip(i), clip(n))
		})
	case *ssa.Slice:
		base, lo, hi := ops[0], ops[1], ops[2]
		n := sx.LenOf(base)
		if x.Low == nil && x.High == nil {
			return nil
		}
		if hi.Op == "none" {
			hi = n
		}
		if within(lo, hi, false) && within(hi, n, false) {
			return fine("slice")
		}
		return pa.say(in, fn, "slice", "out", func() string {
			return fmt.Sprintf("the bounds [%s:%s] are not known to be within %s", clip(lo), clip(hi), clip(n))
		})
	case *ssa.TypeAssert:
		if st.F.Eval(sx.T("isa", types.TypeString(x.AssertedType, nil), ops[0])) == 1 {
			return fine("assert")
		}
		return pa.say(in, fn, "assert", "type", func() string {
			return "the type of the value is not known to be " + short(x.AssertedType.String())
		})
	case *ssa.BinOp:
		if b, ok := x.X.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return nil
		}
		if st.F.Eval(sx.Eq(ops[0], sx.Int(0))) == 0 {
			return fine("division")
		}
		return pa.say(in, fn, "division", "zero", func() string { return "the divisor is not known to be different of 0" })
	case *ssa.MapUpdate:
		if ops[0].Op == "mkmap" {
			return fine("nil")
		}
		return nilUse("the map ", ops[0])
	case *ssa.UnOp, *ssa.FieldAddr:
		switch ops[0].Op {
		case "new", "addr", "iaddr", "global", "gval", "self":
			return nil
		}
		return nilUse("the pointer ", ops[0])
	case ssa.CallInstruction:
		switch ops[0].Op {
		case "new", "bld", "closure", "func", "svc":
			return nil
		}
		return nilUse("", ops[0])
	}
	return nil
}

func clip(t *sx.Term) string {
	s := short(t.String())
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}

// rulePanics judges every instruction that panics on some operands.
func rulePanics(c *Ctx) {
	pa := newPanics(c)
	sites := map[ssa.Instruction]map[string]string{} // site -> context -> what is wrong
	kinds := map[ssa.Instruction]*verdict{}
	collect := func(ctx string, e *sx.Engine) {
		for _, u := range e.Uses {
			v := u.(*verdict)
			if sites[v.in] == nil {
				sites[v.in] = map[string]string{}
				kinds[v.in] = v
			}
			if v.msg != "" || sites[v.in][ctx] == "" {
				sites[v.in][ctx] = v.msg
			}
		}
	}
	reached := map[*ssa.Function]bool{}
	ds, err := c.P.definitionsOf()
	if err != nil {
		c.Bad("reachable", "definitions", "", "undecided: %s", err)
		return
	}
	run := func(fn *ssa.Function) {
		e := c.P.engine()
		inl := e.Inline
		e.Inline = func(root, caller, callee *ssa.Function) bool {
			return ds.byFn[callee] == nil && inl(root, caller, callee)
		}
		e.OnUse = pa.judge
		_, err := e.Run(fn, sx.Params(fn), sx.NewState())
		if err != nil {
			c.Bad("reachable", fn.String(), c.P.fnWhere(fn), "undecided: %s", err)
			return
		}
		for f := range e.Analysed {
			reached[f] = true
			c.Saw(f)
		}
		collect(short(fn.String()), e)
	}
	var later []*ssa.Function
	for _, fn := range c.P.Funcs {
		if fn.Parent() != nil || len(fn.Blocks) == 0 {
			continue
		}
		if !token.IsExported(fn.Name()) {
			later = append(later, fn)
			continue
		}
		run(fn)
	}
	for _, fn := range later {
		if !reached[fn] {
			run(fn)
		}
	}
	ins := []ssa.Instruction{}
	for in := range sites {
		ins = append(ins, in)
	}
	sort.Slice(ins, func(i, j int) bool { return ins[i].Pos() < ins[j].Pos() })
	for _, in := range ins {
		v := kinds[in]
		msgs := []string{}
		for _, ctx := range sx.SortedKeys(sites[in]) {
			if m := sites[in][ctx]; m != "" {
				msgs = append(msgs, m+" (from "+ctx+")")
			}
		}
		c.Check(len(msgs) == 0, "no-panic: "+v.kind, short(v.fn.String()), c.P.where(in.Pos()), "%s", strings.Join(msgs, "; "))
	}
}
