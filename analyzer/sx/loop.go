package sx

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loop
}

func (e *Engine) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := e.loopCache[fn]; ok {
		return li
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l, ok := li.byHeader[h]
			if !ok {
				l = &loop{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
				li.byHeader[h] = l
			}
			st := []*ssa.BasicBlock{b}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				st = append(st, x.Preds...)
			}
		}
	}
	e.loopCache[fn] = li
	return li
}

// Loops exposes the loops of a function.
func (e *Engine) Loops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if e.loopCache == nil {
		e.loopCache = map[*ssa.Function]*loopInfo{}
	}
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for h, l := range e.loopsOf(fn).byHeader {
		out[h] = l.body
	}
	return out
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	out := []*ssa.Phi{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func (e *Engine) enterLoop(fr *frame, l *loop, from *ssa.BasicBlock, s *State) []Outcome {
	e.LoopsSeen[l.header] = true
	phis := headerPhis(l.header)
	pi := predIndex(from, l.header)
	init := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		init[p] = e.val(fr, p.Edges[pi])
	}
	lvPhi := map[*ssa.Phi]*Term{}
	// the values carried by the loop are named after their initial value, so that
	// their names do not depend on how the loop is written
	var loopKey *Term
	var seen map[*Term]int
	nameLVs := func(key *Term) {
		loopKey = key
		seen = map[*Term]int{}
		for _, p := range phis {
			c := T("lvclass", e.className(p.Type()), key, s.Freeze(use(s, init[p])))
			ord := seen[c]
			seen[c]++
			if e.Ord != nil {
				ord = e.Ord(Shape(c), ord)
			}
			lvPhi[p] = T("lv", strconv.Itoa(ord), c).typed(e.classType(p.Type()))
		}
	}
	mkKey := func(k string, n *Term) *Term {
		if s.in != nil {
			return T("loop", k, n, s.in)
		}
		return T("loop", k, n)
	}
	nameLVs(mkKey("?"+strconv.Itoa(len(s.keys)), Int(0)))
	seq0 := s.seq
	written := map[*Term]*Term{} // addr -> lv
	iv := map[*ssa.Phi]byte{}
	var N, J *Term
	bind := map[*ssa.Phi]*Term{}
	for p, t := range lvPhi {
		bind[p] = t
	}

	type pass struct {
		conts, exits, rets []Outcome
	}
	nrec, nuse := len(e.Recs), len(e.Uses)
	runBody := func() pass {
		// what was recorded in the previous passes on the body is provisional
		e.Recs = e.Recs[:nrec:nrec]
		e.Uses = e.Uses[:nuse:nuse]
		st := s.clone()
		st.loop = s.loop + 1
		st.in = loopKey
		for a, v := range written {
			st.Mem[a] = v
			if a.Op == "content" && fillable(a.Args[0]) {
				delete(st.Mem, a)
			}
		}
		f := fr.clone()
		f.loops = append(append([]*loop{}, fr.loops...), l)
		f.at(l.header, J)
		for _, p := range phis {
			f.env[p] = bind[p]
		}
		outs := e.run(f, l.header, 0, from, st)
		var ps pass
		for _, o := range outs {
			switch {
			case o.Kind == "continue" && o.target == l.header && o.fr.fn == fr.fn && len(o.fr.loops) == len(f.loops):
				ps.conts = append(ps.conts, o)
			case o.Kind == "exit" && o.fr.fn == fr.fn && len(o.fr.loops) == len(f.loops):
				ps.exits = append(ps.exits, o)
			default:
				ps.rets = append(ps.rets, o)
			}
		}
		return ps
	}
	update := func(o Outcome, p *ssa.Phi) *Term {
		return use(o.S, e.val(o.fr, p.Edges[predIndex(o.prev, l.header)]))
	}

	// 1. induction variables
	save := e.paths
	ps := runBody()
	for _, p := range phis {
		for i, o := range ps.conts {
			k := stepOf(update(o, p), lvPhi[p], isInt(p.Type()))
			if i > 0 && iv[p] != k {
				k = 0
			}
			if iv[p] = k; k == 0 {
				break
			}
		}
	}
	// 2. bound, from the condition of the header
	gen := ""
	mkJ := func(n *Term) *Term {
		for {
			t := T("iter", gen, n)
			clash := false
			for a := range s.F.truth {
				if a.Contains(t) {
					clash = true
					break
				}
			}
			if !clash {
				return t
			}
			gen += "'"
		}
	}
	if hi, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
		tmpJ := T("iter", "?", T("sym", "?"))
		for _, p := range phis {
			if iv[p] != 0 {
				bind[p] = stepped(iv[p], use(s, init[p]), tmpJ, p.Type())
			}
		}
		st := s.clone()
		for a, v := range written {
			st.Mem[a] = v
		}
		f := fr.clone()
		f.loops = nil
		f.at(l.header, nil)
		for _, p := range phis {
			f.env[p] = bind[p]
		}
		if cond := e.headerCond(f, l.header, hi, st); cond != nil {
			inBody := l.body[l.header.Succs[0]]
			c := cond
			if !inBody {
				c = Not(cond)
			}
			if n := boundOf(c, tmpJ); n != nil && !hasLV(n) && !n.Contains(tmpJ) {
				N = n
			}
		}
	}
	if n := smallConst(N); n > 0 && !rangesOverMap(l.header) {
		e.Recs, e.Uses, e.paths = e.Recs[:nrec:nrec], e.Uses[:nuse:nuse], save
		return e.unroll(fr, l, from, s, n)
	}
	if N != nil {
		J = mkJ(N)
		k := 0
		for _, o := range s.keys {
			if o.Args[0] == N {
				k++
			}
		}
		nameLVs(mkKey(strconv.Itoa(k), N))
		for _, p := range phis {
			if iv[p] != 0 {
				bind[p] = stepped(iv[p], use(s, init[p]), J, p.Type())
			} else {
				bind[p] = lvPhi[p]
			}
		}
	} else {
		k := 0
		for _, o := range s.keys {
			if o.Args[0].Op == "none" {
				k++
			}
		}
		nameLVs(mkKey(strconv.Itoa(k), T("none", "")))
		for _, p := range phis {
			bind[p] = lvPhi[p]
			iv[p] = 0
		}
	}
	s = s.clone()
	s.keys = append(s.keys, loopKey)
	// 3. memory written by the loop
	for i := 0; ; i++ {
		e.paths = save
		ps = runBody()
		ch := false
		for _, o := range ps.conts {
			addrs := make([]*Term, 0, len(o.S.Mem))
			for a := range o.S.Mem {
				addrs = append(addrs, a)
			}
			sort.Slice(addrs, func(i, j int) bool { return addrs[i].ID < addrs[j].ID })
			for _, a := range addrs {
				v := o.S.Mem[a]
				if old, ok := s.Mem[a]; ok && old == v {
					continue
				}
				r := rootOf(a)
				if isFresh(r) && seqOf(r) > seq0 {
					continue
				}
				if w, ok := written[a]; ok {
					_ = w
					continue
				}
				if a.Op == "iaddr" && J != nil && a.Args[1] == J && fillable(a.Args[0]) {
					continue // element store of a mapped slice, handled below
				}
				if ct := cellType(a); isFresh(r) && r.Op == "new" && ct != nil {
					// a local variable kept in memory is named as the others
					c := T("lvclass", e.className(ct), loopKey, s.Freeze(use(s, s.Load(a, ct))))
					ord := seen[c]
					seen[c]++
					if e.Ord != nil {
						ord = e.Ord(Shape(c), ord)
					}
					written[a] = T("lv", strconv.Itoa(ord), c).typed(e.classType(ct))
					ch = true
					continue
				}
				in, ok := s.Mem[a]
				if !ok {
					in = a
					if a.Op == "iaddr" && a.Args[0].Op == "mkslice" {
						in = T("cellof", a.Args[0].Aux[:strings.LastIndexByte(a.Args[0].Aux, '#')], s.Freeze(a.Args[0].Args[0]), a.Args[1])
					}
				}
				c := T("lvclass", "mem", loopKey, s.Freeze(in))
				n := 0
				for _, w := range written {
					if w.Args[0] == c {
						n++
					}
				}
				written[a] = T("lv", strconv.Itoa(n), c)
				ch = true
			}
		}
		if !ch {
			break
		}
		if i > 6 {
			giveUp("loop memory does not stabilise in %s", fr.fn)
		}
	}
	// slices filled element by element, differently from one kind of iteration to another:
	// they are lists that get one element by iteration
	grown := e.grownSlices(s, ps.conts, N, J, seq0, loopKey, seen)
	if e.OnLoop != nil {
		e.OnLoop(fr.fn, l.header, N, J, ps.conts, s)
	}
	if e.Record {
		rec := LoopRec{Key: loopKey, J: J}
		for i, o := range ps.conts {
			c := LoopCont{F: o.S.F.clone(), Foralls: append([]Forall{}, o.S.Foralls...), Ups: map[*Term]*Term{}}
			for _, g := range grown {
				c.Ups[g.lv] = g.ups[i]
			}
			for _, p := range phis {
				if iv[p] == 0 {
					c.Ups[lvPhi[p]] = o.S.Freeze(update(o, p))
				}
			}
			for a, lv := range written {
				v, ok := o.S.Mem[a]
				if !ok {
					v = lv
				}
				c.Ups[lv] = o.S.Freeze(v)
			}
			c.Effects = o.S.Trace[len(s.Trace):]
			rec.Conts = append(rec.Conts, c)
		}
		for _, o := range append(append([]Outcome{}, ps.rets...), ps.exits...) {
			if o.prev == l.header && N != nil {
				continue
			}
			// the path is continued after the loop: its facts are kept as they are here
			rec.Exits = append(rec.Exits, LoopCont{F: o.S.F.clone(), Foralls: append([]Forall{}, o.S.Foralls...)})
		}
		e.Recs = append(e.Recs, rec)
	}

	var outs []Outcome
	for i := range ps.rets {
		ps.rets[i].S.in = s.in
	}
	outs = append(outs, ps.rets...)
	leave := func(o Outcome) {
		f := o.fr.clone()
		f.loops = fr.loops
		o.S.loop = s.loop
		o.S.in = s.in
		outs = append(outs, e.jump(f, o.prev, o.target, o.S)...)
	}
	if N == nil {
		for _, o := range ps.exits {
			leave(o)
		}
		return outs
	}
	n0 := len(s.F.Lits)
	for _, o := range ps.exits {
		if o.prev == l.header {
			continue
		}
		leave(o)
	}
	// 4. normal exit: accumulators get their folded value
	st := s.clone()
	if len(ps.conts) == 0 {
		if !st.F.Assume(Lt(Int(0), N), false) {
			return outs
		}
	}
	cases := [][]Lit{}
	subs := [][]Forall{}
	for _, o := range ps.conts {
		cases = append(cases, o.S.F.Delta(n0))
		subs = append(subs, o.S.Foralls[len(s.Foralls):])
	}
	st.Foralls = append(st.Foralls, Forall{N: N, J: J, Cases: cases, Sub: subs})
	// the calls of one iteration of each kind stay visible
	for _, o := range ps.conts {
		st.Trace = append(st.Trace, o.S.Trace[len(s.Trace):]...)
	}
	// an accumulator that tells whether an iteration did something forks the exit
	flag := -1
	for pi, p := range phis {
		if iv[p] != 0 || (init[p] != True && init[p] != False) {
			continue
		}
		only, hit := true, false
		for _, o := range ps.conts {
			switch update(o, p) {
			case lvPhi[p]:
			case Not(init[p]):
				hit = true
			default:
				only = false
			}
		}
		if only && hit {
			if flag >= 0 {
				flag = -2
				break
			}
			flag = pi
		}
	}
	type variant struct {
		st  *State
		val *Term
	}
	vars := []variant{{st, nil}}
	if flag >= 0 {
		p := phis[flag]
		vars = nil
		rest := st.clone()
		rest.Foralls = append([]Forall{}, rest.Foralls...)
		fa := &rest.Foralls[len(rest.Foralls)-1]
		fa.Cases, fa.Sub = nil, nil
		for i, o := range ps.conts {
			if update(o, p) == lvPhi[p] {
				fa.Cases = append(fa.Cases, cases[i])
				fa.Sub = append(fa.Sub, subs[i])
				continue
			}
			w := st.clone()
			ok := true
			for _, l := range cases[i] {
				ok = ok && w.F.Assume(l.Atom, l.Val)
			}
			if ok {
				vars = append(vars, variant{w, Not(init[p])})
			}
		}
		if len(fa.Cases) > 0 || rest.F.Assume(Lt(Int(0), N), false) {
			vars = append(vars, variant{rest, init[p]})
		}
	}
	for _, va := range vars {
		st := va.st
		f := fr.clone()
		for pi, p := range phis {
			if iv[p] != 0 {
				f.env[p] = stepped(iv[p], use(s, init[p]), N, p.Type())
				continue
			}
			if pi == flag {
				f.env[p] = va.val
				continue
			}
			ups := []*Term{}
			for _, o := range ps.conts {
				ups = append(ups, o.S.Freeze(update(o, p)))
			}
			f.env[p] = fold(lvPhi[p], init[p], ups, N, J).typed(p.Type())
		}
		for a, lv := range written {
			ups := []*Term{}
			for _, o := range ps.conts {
				v, ok := o.S.Mem[a]
				if !ok {
					v = lv
				}
				ups = append(ups, o.S.Freeze(v))
			}
			in, ok := s.Mem[a]
			if ct := cellType(a); !ok && ct != nil {
				in, ok = s.Load(a, ct), true
			}
			if !ok {
				in = T("initmem", "", a)
				if a.Op == "sbuf" {
					in = Str("")
				}
				if a.Op == "content" {
					in = a.Args[0]
				}
			}
			st.Mem[a] = fold(lv, in, ups, N, J)
		}
		// slices filled element by element
		filled := map[*Term]*Term{}
		bad := map[*Term]bool{}
		for i, o := range ps.conts {
			here := map[*Term]*Term{}
			for a, v := range o.S.Mem {
				if a.Op == "iaddr" && a.Args[1] == J && fillable(a.Args[0]) && seqOf(a.Args[0]) <= seq0 {
					here[a.Args[0]] = o.S.Freeze(v)
				}
			}
			for b, v := range here {
				if i > 0 && filled[b] != v {
					bad[b] = true
				}
				filled[b] = v
			}
			for b := range filled {
				if _, ok := here[b]; !ok {
					bad[b] = true
				}
			}
		}
		for b, v := range filled {
			if bad[b] || LenOf(b) != N && st.F.Eval(Eq(LenOf(b), N)) != 1 {
				u := T("unknownfill", "", b)
				for _, g := range grown {
					if g.base == b {
						u = fold(g.lv, T("list", ""), g.ups, N, J)
					}
				}
				st.Mem[T("content", "", b)] = u
				continue
			}
			st.Mem[T("content", "", b)] = mapOver(N, v, J)
		}
		for _, p := range phis {
			f.env[p] = use(st, f.env[p])
		}
		// run the header with the final values, towards the exit
		f.loops = append(append([]*loop{}, fr.loops...), l)
		f.at(l.header, N)
		outs2 := e.run(f, l.header, 0, from, st)
		for _, o := range outs2 {
			if o.Kind == "exit" && o.prev == l.header && o.fr.fn == fr.fn {
				leave(o)
			}
		}
	}
	return outs
}

// grownSlice is a slice of which each iteration fills its own element.
type grownSlice struct {
	base, lv *Term
	ups      []*Term
}

// grownSlices gives the slices that have as many elements as the loop has iterations, of which
// each iteration fills its own, not always with the same expression.
func (e *Engine) grownSlices(s *State, conts []Outcome, N, J *Term, seq0 int, key *Term, seen map[*Term]int) []grownSlice {
	if N == nil || len(conts) < 2 {
		return nil
	}
	vals := map[*Term][]*Term{}
	for _, o := range conts {
		for a, v := range o.S.Mem {
			if a.Op == "iaddr" && a.Args[1] == J && a.Args[0].Op == "mkslice" && seqOf(a.Args[0]) <= seq0 {
				vals[a.Args[0]] = append(vals[a.Args[0]], o.S.Freeze(v))
			}
		}
	}
	bases := []*Term{}
	for b, vs := range vals {
		differ := false
		for _, v := range vs {
			differ = differ || v != vs[0]
		}
		if _, old := s.Mem[T("content", "", b)]; old {
			continue
		}
		if differ && len(vs) == len(conts) && (LenOf(b) == N || s.F.Eval(Eq(LenOf(b), N)) == 1) {
			bases = append(bases, b)
		}
	}
	sort.Slice(bases, func(i, j int) bool { return bases[i].ID < bases[j].ID })
	out := []grownSlice{}
	for _, b := range bases {
		ty := b.Aux[:strings.LastIndexByte(b.Aux, '#')]
		c := T("lvclass", ty, key, T("list", ""))
		ord := seen[c]
		seen[c]++
		if e.Ord != nil {
			ord = e.Ord(Shape(c), ord)
		}
		g := grownSlice{base: b, lv: T("lv", strconv.Itoa(ord), c)}
		for _, v := range vals[b] {
			g.ups = append(g.ups, Concat(g.lv, T("list", "", v)))
		}
		out = append(out, g)
	}
	return out
}

// unroll executes the iterations of a loop one by one.
func (e *Engine) unroll(fr *frame, l *loop, from *ssa.BasicBlock, s *State, n int) []Outcome {
	outs := []Outcome{}
	phis := headerPhis(l.header)
	type entry struct {
		fr   *frame
		from *ssa.BasicBlock
		s    *State
	}
	first := s.clone()
	first.loop = s.loop + 1
	todo := []entry{{fr, from, first}}
	for i := 0; len(todo) > 0; i++ {
		if i > n+1 {
			giveUp("a loop of %d iterations does not end in %s", n, fr.fn)
		}
		next := []entry{}
		for _, en := range todo {
			f := en.fr.clone()
			f.loops = append(append([]*loop{}, fr.loops...), l)
			f.at(l.header, nil)
			pi := predIndex(en.from, l.header)
			vals := map[*ssa.Phi]*Term{}
			for _, p := range phis {
				vals[p] = e.val(en.fr, p.Edges[pi])
			}
			for p, v := range vals {
				f.env[p] = v
			}
			for _, o := range e.run(f, l.header, 0, en.from, en.s) {
				same := o.fr != nil && o.fr.fn == fr.fn && len(o.fr.loops) == len(f.loops)
				switch {
				case o.Kind == "continue" && o.target == l.header && same:
					next = append(next, entry{o.fr, o.prev, o.S})
				case o.Kind == "exit" && same:
					g := o.fr.clone()
					g.loops = fr.loops
					o.S.loop = s.loop
					outs = append(outs, e.jump(g, o.prev, o.target, o.S)...)
				default:
					outs = append(outs, o)
				}
			}
		}
		todo = next
	}
	return outs
}

// smallConst gives the number of iterations when it is a small constant.
func smallConst(n *Term) int {
	if n == nil {
		return 0
	}
	if v, ok := n.IntOf(); ok && v > 0 && v <= 8 {
		return int(v)
	}
	return 0
}

func rangesOverMap(h *ssa.BasicBlock) bool {
	for _, in := range h.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

// className names the class of the carried values of a type.
func (e *Engine) className(t types.Type) string {
	if e.AnyInt && isInt(t) {
		return "integer"
	}
	return typeName(t)
}

func (e *Engine) classType(t types.Type) types.Type {
	if e.AnyInt && isInt(t) {
		return types.Typ[types.Int]
	}
	return t
}

// stepOf tells how an iteration changes a carried value: it counts up ('+') or down ('-'),
// or drops its first element ('s').
func stepOf(up, lv *Term, integer bool) byte {
	switch {
	case integer && up == Add(lv, 1):
		return '+'
	case integer && up == Add(lv, -1):
		return '-'
	case up.Op == "slice" && up == T("slice", "", lv, Int(1), T("none", "")):
		return 's'
	}
	return 0
}

// stepped gives a carried value after j iterations.
func stepped(kind byte, init, j *Term, ty types.Type) *Term {
	switch kind {
	case '+':
		return plus(j, init).typed(ty)
	case '-':
		return minus(init, j).typed(ty)
	}
	if j == LenOf(init) && isString(ty) {
		return Str("")
	}
	if base := init; base.Op == "slice" && len(base.Args) == 3 {
		return T("slice", "", base.Args[0], plus(base.Args[1], j), base.Args[2]).typed(ty)
	}
	return T("slice", "", init, j, T("none", "")).typed(ty)
}

// minus subtracts an iteration.
func minus(a, j *Term) *Term {
	if a == j {
		return Int(0)
	}
	if v, ok := j.IntOf(); ok {
		return Add(a, -v)
	}
	if a.Op == "add" {
		o, _ := strconv.ParseInt(a.Aux, 10, 64)
		return Add(minus(a.Args[0], j), o)
	}
	if j.Op == "add" {
		o, _ := strconv.ParseInt(j.Aux, 10, 64)
		return Add(minus(a, j.Args[0]), -o)
	}
	return T("bin", "-", a, j)
}

// cellType gives the type of a local variable, or of a field of a local structure:
// nil for the others, and for the structures themselves.
func cellType(a *Term) types.Type {
	var of func(a *Term) types.Type
	of = func(a *Term) types.Type {
		switch a.Op {
		case "new":
			if a.Typ != nil {
				if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
					return p.Elem()
				}
			}
		case "addr":
			t := of(a.Args[0])
			if t == nil {
				return nil
			}
			if st, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == a.Aux {
						return st.Field(i).Type()
					}
				}
			}
		}
		return nil
	}
	t := of(a)
	if t == nil {
		return nil
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return nil
	}
	return t
}

// Shape forgets the ordinals of the carried values in a term.
func Shape(t *Term) *Term {
	if len(t.Args) == 0 || !hasLV(t) {
		return t
	}
	n := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		n[i] = Shape(a)
	}
	if t.Op == "lv" {
		return T("lv", "*", n...)
	}
	return T(t.Op, t.Aux, n...)
}

func seqOf(t *Term) int {
	i := strings.LastIndexByte(t.Aux, '#')
	if i < 0 {
		return 0
	}
	n, _ := strconv.Atoi(t.Aux[i+1:])
	return n
}

func hasLV(t *Term) bool {
	r := false
	t.Walk(func(x *Term) bool {
		if x.Op == "lv" {
			r = true
		}
		return !r
	})
	return r
}

// headerCond evaluates the condition of a loop header.
func (e *Engine) headerCond(f *frame, h *ssa.BasicBlock, hi *ssa.If, s *State) *Term {
	for _, in := range h.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef:
		case *ssa.Call:
			args := make([]*Term, len(x.Call.Args))
			for i, a := range x.Call.Args {
				args[i] = e.val(f, a)
			}
			outs := e.call(f, x, &x.Call, e.val(f, x.Call.Value), args, s, x.Pos())
			if len(outs) != 1 || outs[0].Kind != "return" {
				return nil
			}
			s = outs[0].S
			f.env[x] = pack(outs[0].Res)
		default:
			e.step(f, in, s)
		}
	}
	return e.val(f, hi.Cond)
}

// boundOf gives the number of iterations of a loop guarded by c.
func boundOf(c, j *Term) *Term {
	// map range
	if c.Op == "nextok" {
		if c.Aux == "runes" {
			return T("runecount", "", c.Args[0])
		}
		return LenOf(c.Args[0])
	}
	split := func(x *Term) (int64, bool) {
		if x == j {
			return 0, true
		}
		if x.Op == "add" && x.Args[0] == j {
			o, _ := strconv.ParseInt(x.Aux, 10, 64)
			return o, true
		}
		return 0, false
	}
	neg := false
	if c.Op == "not" {
		neg = true
		c = c.Args[0]
	}
	switch c.Op {
	case "lt":
		if !neg {
			if o, ok := split(c.Args[0]); ok {
				return Add(c.Args[1], -o)
			}
		} else {
			// !(X < j+o)  <=>  j+o <= X
			if o, ok := split(c.Args[1]); ok {
				return Add(c.Args[0], -o+1)
			}
		}
	case "eq":
		if neg {
			if o, ok := split(c.Args[0]); ok {
				return Add(c.Args[1], -o)
			}
			if o, ok := split(c.Args[1]); ok {
				return Add(c.Args[0], -o)
			}
		}
	}
	return nil
}

// LitsTerm renders a set of literals in a canonical order.
func LitsTerm(ls []Lit) *Term {
	ts := []*Term{}
	seen := map[*Term]bool{}
	for _, l := range ls {
		t := l.Atom
		if !l.Val {
			t = Not(t)
		}
		if !seen[t] {
			seen[t] = true
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	return T("lits", "", ts...)
}

// fold gives the value a carried variable has after the loop.
func fold(lv, init *Term, ups []*Term, N, J *Term) *Term {
	if len(ups) == 0 {
		return init
	}
	for _, u := range ups[1:] {
		if u != ups[0] {
			return T("end", "", lv)
		}
	}
	u := ups[0]
	if u == lv {
		return init
	}
	rest := func(op string) *Term {
		if len(u.Args) == 2 {
			return u.Args[1]
		}
		return T(op, "", u.Args[1:]...)
	}
	switch {
	case u.Op == "concat" && u.Args[0] == lv:
		if p := rest("concat"); !p.Contains(lv) {
			if p.Op == "list" && len(p.Args) == 1 {
				return Concat(init, mapOver(N, p.Args[0], J))
			}
			b, v := bound(p, N, J)
			return Concat(init, T("flatmap", "", N, b, v))
		}
	case u.Op == "strcat" && u.Args[0] == lv:
		if p := rest("strcat"); !p.Contains(lv) {
			b, v := bound(p, N, J)
			return StrCat(init, T("strmap", "", N, b, v))
		}
	case u.Op == "add" && u.Args[0] == lv:
		if u.Aux == "1" {
			if i, ok := init.IntOf(); ok {
				return Add(N, i)
			}
		}
	case u.Op == "mapset" && u.Args[0] == lv:
		if !u.Args[1].Contains(lv) && !u.Args[2].Contains(lv) {
			b, v := bound(T("kv", "", u.Args[1], u.Args[2]), N, J)
			return T("mapfrom", "", init, N, b, v)
		}
	}
	return T("end", "", lv)
}

// LoopRec is what one entry in a loop does.
type LoopRec struct {
	Key   *Term
	J     *Term
	Conts []LoopCont
	Exits []LoopCont
}

// LoopCont is an iteration that continues with the loop, or leaves it.
type LoopCont struct {
	F       *Facts
	Foralls []Forall
	Ups     map[*Term]*Term
	Effects []Event
}

// mapOver builds the list of body over the N iterations J; the identity map of a
// list is the list itself.
func mapOver(N, body, J *Term) *Term {
	if body.Op == "index" && body.Args[1] == J && LenOf(body.Args[0]) == N {
		return body.Args[0]
	}
	b, v := bound(body, N, J)
	return T("map1", "", N, b, v)
}

// bound renames the iteration of a body to a canonical bound variable.
func bound(body, N, J *Term) (*Term, *Term) {
	for k := 0; ; k++ {
		v := T("iter", "b"+strconv.Itoa(k), N)
		if v != J && body.Contains(v) {
			continue
		}
		return Subst(body, J, v), v
	}
}
