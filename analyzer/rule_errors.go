package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// calls whose error cannot happen or is not an error of the operation
var neverFails = []string{
	"fmt.Print", "fmt.Fprint", "(*strings.Builder).", "(*bytes.Buffer).Write", "(*os.File).Close", "io.Closer.Close", "hash.Hash.Write", "crypto/sha",
}

// errDropped lists the packages where the error of a callee may be dropped: "rel callee".
var errDropped = map[string]string{
	"domain/languages/lexers/asts/results domain/languages/lexers/containers/patterns.Adapter.FromGroupToResult": "a content that does not match is not an error: there is no match",
	"domain/hashtree (*domain/hashtree.block).resizeToNextPowerOfTwo":                                            "hashing the padding cannot fail",
}

// errSwallowed lists where a failing callee leads to something else than a failure: "rel callee".
var errSwallowed = map[string]string{
	"applications/languages/parsers dynamic":                                                                                 "an event that fails is skipped: the next one is tried",
	"domain/languages/lexers/asts/tokens domain/languages/lexers/asts/results.Adapter.ToResult":                              "a rule that does not match ends the search for this rule",
	"domain/languages/lexers/containers/patterns (*domain/languages/lexers/containers/patterns.adapter).FromPatternToResult": "a pattern that does not match is skipped: the next one is tried",
	"domain/languages/lexers/roots domain/languages/lexers/roots.Node.Scan":                                                  "a node that does not contain the name is skipped: the next one is tried",
	"domain/languages/lexers/roots domain/languages/lexers/roots.Container.Scan":                                             "a container that does not contain the name is skipped: the next one is tried",
	"domain/languages/lexers/asts/paths domain/languages/lexers/containers/tokens.Tokens.Find":                               "a token that is not found is looked up by the fallback",
	"domain/languages/lexers/asts/results domain/languages/lexers/containers/patterns.Adapter.FromPatternsToResult":          "a rule that does not match ends the repetition",
}

// nilNil lists the results that may be nil without an error: "rel type".
var nilNil = map[string]string{
	"domain/languages/lexers/asts domain/languages/lexers/asts.Match":                                     "no part of this kind: the caller tests it",
	"domain/languages/lexers/asts domain/languages/lexers/asts.Result":                                    "no part of this kind: the caller tests it",
	"domain/languages/lexers/asts domain/languages/lexers/asts.RuleMatch":                                 "no part of this kind: the caller tests it",
	"domain/languages/lexers/asts domain/languages/lexers/asts.TokenMatch":                                "no part of this kind: the caller tests it",
	"domain/languages/lexers/asts/mistakes domain/languages/lexers/asts/mistakes.Mistake":                 "there is no mistake",
	"domain/languages/lexers/asts/paths domain/languages/lexers/asts/paths.Line":                          "the line is not the expected one",
	"domain/languages/lexers/asts/tokens domain/languages/lexers/asts/tokens.LineMatch":                   "no match: the caller tests it",
	"domain/languages/lexers/asts/tokens domain/languages/lexers/asts/tokens.BlockMatch":                  "no match: the caller tests it",
	"domain/languages/lexers/asts/tokens domain/languages/lexers/asts/tokens.Match":                       "no match: the caller tests it",
	"domain/languages/lexers/asts/tokens domain/languages/lexers/asts/tokens.TokenContent":                "no match: the caller tests it",
	"domain/languages/lexers/asts/tokens domain/languages/lexers/asts/tokens.Matches":                     "no match: the caller tests it",
	"domain/languages/lexers/asts/tokens domain/languages/lexers/asts/tokens.TokenResultMatches":          "no match: the caller tests it",
	"domain/languages/lexers/asts/tokens domain/languages/lexers/asts/paths.Container":                    "no container: the caller tests it",
	"domain/languages/lexers/containers/patterns domain/languages/lexers/containers/patterns.Result":      "no match: the caller tests it",
	"domain/languages/lexers/containers/tokens domain/languages/lexers/containers/tokens.TestSuite":       "the test suite is optional",
	"domain/languages/lexers/containers/tokens domain/languages/lexers/containers/tokens.TokenSpecifiers": "the specifiers are optional",
	"domain/languages/lexers/references domain/languages/lexers/references/links.Links":                   "the links are optional",
	"domain/languages/lexers/roots domain/languages/lexers/roots.Root":                                    "the root is optional",
}

func errResult(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErrorType(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// errorFlow gives the verdict on the error of a call: "" when it is handled.
func (p *Program) errorFlow(fn *ssa.Function, call *ssa.Call) (bad string, swallowed bool) {
	i := errResult(call.Call.Signature())
	if i < 0 {
		return "", false
	}
	var ev ssa.Value
	if call.Call.Signature().Results().Len() == 1 {
		ev = call
	} else {
		for _, r := range *call.Referrers() {
			if ex, ok := r.(*ssa.Extract); ok && ex.Index == i {
				ev = ex
			}
		}
	}
	if ev == nil || len(usesOf(ev)) == 0 {
		return "the error is dropped", false
	}
	// every test of the error
	tests, other := errTests(ev, map[ssa.Value]bool{})
	if len(tests) == 0 && !other {
		return "the error is never looked at", false
	}
	for _, t := range tests {
		if s := p.failureRegion(fn, t); s != "" {
			return s, true
		}
	}
	return "", false
}

func usesOf(v ssa.Value) []ssa.Instruction {
	out := []ssa.Instruction{}
	if v.Referrers() == nil {
		return out
	}
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		out = append(out, r)
	}
	return out
}

type errTest struct {
	fail *ssa.BasicBlock // block entered when the error is not nil
	from *ssa.BasicBlock
	val  ssa.Value
}

// errTests finds the comparisons of an error with nil. other is true when the
// error is returned or handed to somebody else.
func errTests(v ssa.Value, seen map[ssa.Value]bool) ([]errTest, bool) {
	out := []errTest{}
	other := false
	if seen[v] {
		return out, false
	}
	seen[v] = true
	for _, u := range usesOf(v) {
		switch x := u.(type) {
		case *ssa.BinOp:
			if x.Op != token.NEQ && x.Op != token.EQL {
				other = true
				continue
			}
			ts := condTests(x, x.Op == token.NEQ, v, map[ssa.Value]bool{})
			out = append(out, ts...)
		case *ssa.Phi:
			t, o := errTests(x, seen)
			out = append(out, t...)
			other = other || o
		case *ssa.Call:
			other = true
			if neq, ok := nilPredicate(x, v); ok {
				other = false
				out = append(out, condTests(x, neq, v, map[ssa.Value]bool{})...)
			}
		case *ssa.Store:
			// a named result or a captured variable
			other = true
			if al, ok := x.Addr.(*ssa.Alloc); ok {
				for _, r := range usesOf(al) {
					if ld, ok := r.(*ssa.UnOp); ok && ld.Op == token.MUL {
						t, _ := errTests(ld, seen)
						out = append(out, t...)
					}
				}
			}
		default:
			other = true
		}
	}
	return out, other
}

// nilPredicate tells that a call only compares v with nil, and whether it is true when v is not nil.
func nilPredicate(call *ssa.Call, v ssa.Value) (neq bool, ok bool) {
	f := call.Call.StaticCallee()
	if f == nil || len(f.Blocks) != 1 || f.Signature.Results().Len() != 1 {
		return false, false
	}
	ret, isRet := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !isRet {
		return false, false
	}
	r, flip := ret.Results[0], false
	if u, isNot := r.(*ssa.UnOp); isNot && u.Op == token.NOT {
		r, flip = u.X, true
	}
	bo, isBin := r.(*ssa.BinOp)
	if !isBin || bo.Op != token.NEQ && bo.Op != token.EQL {
		return false, false
	}
	x := bo.X
	if isNilConst(bo.X) {
		x = bo.Y
	} else if !isNilConst(bo.Y) {
		return false, false
	}
	for i, p := range f.Params {
		if x == p && i < len(call.Call.Args) && call.Call.Args[i] == v {
			return (bo.Op == token.NEQ) != flip, true
		}
	}
	return false, false
}

// condTests follows a condition to the branches it decides; neg tells that the condition true means failure.
func condTests(c ssa.Value, failOnTrue bool, v ssa.Value, seen map[ssa.Value]bool) []errTest {
	out := []errTest{}
	if seen[c] {
		return out
	}
	seen[c] = true
	for _, u := range usesOf(c) {
		switch x := u.(type) {
		case *ssa.If:
			b := x.Block()
			t := b.Succs[1]
			if failOnTrue {
				t = b.Succs[0]
			}
			out = append(out, errTest{t, b, v})
		case *ssa.UnOp:
			if x.Op == token.NOT {
				out = append(out, condTests(x, !failOnTrue, v, seen)...)
			}
		}
	}
	return out
}

// failureRegion checks that everything reachable from the failing branch, up to
// the exits of the function, ends in a failure.
func (p *Program) failureRegion(fn *ssa.Function, t errTest) string {
	// blocks only reachable through the failing edge
	region := map[*ssa.BasicBlock]bool{}
	ei := errResult(fn.Signature)
	var check func(b, from *ssa.BasicBlock, depth int) string
	check = func(b, from *ssa.BasicBlock, depth int) string {
		if region[b] {
			return ""
		}
		region[b] = true
		if b == t.from || b.Dominates(t.from) {
			return "the failure leads back to the loop"
		}
		last := b.Instrs[len(b.Instrs)-1]
		switch x := last.(type) {
		case *ssa.Return:
			if ei < 0 {
				if failsWithoutError(fn, x, from) {
					return ""
				}
				return "the failure is not reported by " + fn.Name()
			}
			r := x.Results[ei]
			return p.nonNilError(r, b, from, t, map[ssa.Value]bool{})
		case *ssa.Panic:
			return ""
		}
		for _, s := range b.Succs {
			if m := check(s, b, depth+1); m != "" {
				return m
			}
		}
		return ""
	}
	return check(t.fail, t.from, 0)
}

// failsWithoutError judges a return of a function that has no error result: a false, a nil or a zero value.
func failsWithoutError(fn *ssa.Function, r *ssa.Return, from *ssa.BasicBlock) bool {
	if len(r.Results) == 0 {
		return false
	}
	v := r.Results[0]
	if ph, ok := v.(*ssa.Phi); ok && ph.Block() == r.Block() {
		for i, pr := range ph.Block().Preds {
			if pr == from {
				v = ph.Edges[i]
			}
		}
	}
	c, ok := v.(*ssa.Const)
	if !ok {
		return false
	}
	return c.Value == nil || c.Value.ExactString() == "false" || c.Value.ExactString() == "0" || c.Value.ExactString() == `""`
}

// nonNilError judges that the error returned is not nil when the test failed.
func (p *Program) nonNilError(v ssa.Value, b, from *ssa.BasicBlock, t errTest, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	if v == t.val {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Const:
		return "the failure is replaced by a success"
	case *ssa.Phi:
		if x.Block() == b {
			for i, pr := range b.Preds {
				if pr == from {
					return p.nonNilError(x.Edges[i], b, from, t, seen)
				}
			}
		}
		for _, e := range x.Edges {
			if e == t.val {
				continue
			}
			if s := p.nonNilError(e, b, from, t, seen); s != "" {
				return s
			}
		}
		return ""
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				// the last value stored before the load, in the block or on the way
				if st := lastStore(x, al); st != nil {
					return p.nonNilError(st.Val, b, from, t, seen)
				}
				if ld, ok := t.val.(*ssa.UnOp); ok && ld.X == al {
					return ""
				}
			}
		}
		return "the error returned is not the one that happened"
	case *ssa.Call:
		n := calleeName(&x.Call)
		if n == "errors.New" || n == "fmt.Errorf" || strings.HasPrefix(n, "errors.") || strings.HasPrefix(n, "fmt.Errorf") {
			return ""
		}
		if f := x.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 && alwaysError(f, 0) {
			return ""
		}
		for _, a := range x.Call.Args {
			if a == t.val {
				return ""
			}
		}
		return "the failure is replaced by the result of " + n
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 && alwaysError(f, x.Index) {
				return ""
			}
			for _, a := range c.Call.Args {
				if a == t.val {
					return ""
				}
			}
			return "the failure is replaced by the result of " + calleeName(&c.Call)
		}
		return "the error returned is not the one that happened"
	case *ssa.MakeInterface, *ssa.ChangeInterface:
		return ""
	}
	return "the error returned is not the one that happened"
}

func lastStore(ld *ssa.UnOp, al *ssa.Alloc) *ssa.Store {
	var last *ssa.Store
	for _, in := range ld.Block().Instrs {
		if in == ld {
			break
		}
		if st, ok := in.(*ssa.Store); ok && st.Addr == al {
			last = st
		}
	}
	return last
}

// alwaysError tells that the result i of a function is never nil.
func alwaysError(f *ssa.Function, i int) bool {
	ok, n := true, 0
	eachInstr(f, func(in ssa.Instruction) {
		r, isR := in.(*ssa.Return)
		if !isR || i >= len(r.Results) {
			return
		}
		n++
		for _, o := range originsOf(r.Results[i]) {
			c, isC := o.V.(*ssa.Call)
			if !isC {
				ok = false
				continue
			}
			nm := calleeName(&c.Call)
			if nm != "errors.New" && !strings.HasPrefix(nm, "fmt.Errorf") {
				ok = false
			}
		}
	})
	return ok && n > 0
}

func ruleErrors(c *Ctx) {
	for _, fn := range c.P.Funcs {
		rel := relOf(fn)
		eachInstr(fn, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Defer, *ssa.Go:
				cc := in.(ssa.CallInstruction).Common()
				if errResult(cc.Signature()) >= 0 && !harmless(calleeName(cc)) {
					c.Bad("error-dropped", short(fn.String())+" "+calleeName(cc), c.P.where(in.Pos()), "the error of a deferred call is dropped")
				}
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); ok {
					return
				}
				if errResult(x.Call.Signature()) < 0 {
					return
				}
				n := calleeName(&x.Call)
				if harmless(n) || n == "errors.New" || strings.HasPrefix(n, "fmt.Errorf") {
					return
				}
				c.Saw(fn)
				cons := short(fn.String()) + " " + n
				bad, sw := c.P.errorFlow(fn, x)
				if bad == "" {
					c.Ok("error-kept", cons)
					return
				}
				table := errDropped
				if sw {
					table = errSwallowed
				}
				if c.errException(table, rel, &x.Call, map[*ssa.Function]bool{}) {
					c.Ok("error-kept", cons)
					return
				}
				c.Bad("error-kept", cons, c.P.where(x.Pos()), "%s", bad)
			}
		})
	}
}

// errException tells that the error of a call may be set aside: the callee is
// listed, or it is a helper that only fails when listed callees fail.
func (c *Ctx) errException(table map[string]string, rel string, cc *ssa.CallCommon, seen map[*ssa.Function]bool) bool {
	k := rel + " " + calleeName(cc)
	if r := table[k]; r != "" {
		c.Except(k + ": " + r)
		return true
	}
	f := cc.StaticCallee()
	if f == nil || len(f.Blocks) == 0 || relOf(f) != rel || seen[f] {
		return false
	}
	seen[f] = true
	ok, n := true, 0
	eachInstr(f, func(in ssa.Instruction) {
		x, isC := in.(*ssa.Call)
		if !isC || !isErrorValueCall(&x.Call) {
			return
		}
		n++
		if !c.errException(table, rel, &x.Call, seen) {
			ok = false
		}
	})
	return ok && n > 0
}

func isErrorValueCall(cc *ssa.CallCommon) bool {
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return false
	}
	return errResult(cc.Signature()) >= 0 && !harmless(calleeName(cc))
}

func harmless(n string) bool {
	for _, h := range neverFails {
		if strings.HasPrefix(n, h) {
			return true
		}
	}
	return false
}

// ruleNilNil judges that a nil result always comes with an error.
func ruleNilNil(c *Ctx) {
	for _, fn := range c.P.Funcs {
		ei := errResult(fn.Signature)
		if ei <= 0 {
			continue
		}
		rt := fn.Signature.Results().At(0).Type()
		switch rt.Underlying().(type) {
		case *types.Interface, *types.Pointer:
		default:
			continue
		}
		c.Saw(fn)
		k := relOf(fn) + " " + short(types.TypeString(rt, nil))
		bad := map[string]token.Pos{}
		eachInstr(fn, func(in ssa.Instruction) {
			r, ok := in.(*ssa.Return)
			if !ok {
				return
			}
			// other results: a value is given in one of them
			for i := 1; i < ei; i++ {
				if !isNilConst(r.Results[i]) && pointerLike(r.Results[i].Type()) && isNilConst(r.Results[0]) {
					return
				}
			}
			for _, pair := range returnPairs(r, 0, ei) {
				if isNilConst(pair[0]) && !p06NonNil(pair[1], r) {
					if testedNonNil(r.Results[0], r.Block()) {
						continue
					}
					bad["a nil value is returned without an error"] = r.Pos()
				}
			}
		})
		for m, pos := range bad {
			if r := nilNil[k]; r != "" {
				c.Except(k + ": " + r)
				c.Ok("nil-with-error", short(fn.String()))
				continue
			}
			if c.P.callersTest(fn) {
				c.Ok("nil-with-error", short(fn.String())+" (each caller compares it with nil)")
				continue
			}
			c.Bad("nil-with-error", short(fn.String()), c.P.where(pos), "%s (%s)", m, k)
		}
		if len(bad) == 0 {
			c.Ok("nil-with-error", short(fn.String()))
		}
	}
}

// callersTest tells that a function is called by its own package only, and that
// each of the calls has its result compared with nil.
func (p *Program) callersTest(f *ssa.Function) bool {
	if ast.IsExported(f.Name()) || f.Parent() != nil {
		return false
	}
	n, ok := 0, true
	for _, fn := range p.Funcs {
		eachInstr(fn, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(f) {
					if ci, isCall := in.(*ssa.Call); !isCall || ci.Call.Value != ssa.Value(f) {
						ok = false
					}
				}
			}
			ci, isCall := in.(*ssa.Call)
			if !isCall || ci.Call.StaticCallee() != f {
				return
			}
			n++
			tested := false
			for _, u := range *ci.Referrers() {
				ex, isEx := u.(*ssa.Extract)
				if !isEx || ex.Index != 0 {
					continue
				}
				for _, w := range *ex.Referrers() {
					if bo, isBin := w.(*ssa.BinOp); isBin && (isNilConst(bo.X) || isNilConst(bo.Y)) {
						tested = true
					}
				}
			}
			ok = ok && tested
		})
	}
	return ok && n > 0
}

// mayNil computes the functions whose first result may be nil without an error.
func (p *Program) mayNil() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.Funcs {
			ei := errResult(fn.Signature)
			if ei <= 0 || out[fn] || !pointerLike(fn.Signature.Results().At(0).Type()) {
				continue
			}
			eachInstr(fn, func(in ssa.Instruction) {
				r, ok := in.(*ssa.Return)
				if !ok {
					return
				}
				if testedNonNil(r.Results[0], r.Block()) || eitherNonNil(r.Results[0], r.Results[ei], r.Block()) {
					return
				}
				for _, pair := range returnPairs(r, 0, ei) {
					if isNilConst(pair[0]) && !p06NonNil(pair[1], r) {
						out[fn] = true
					}
					if p.nilSource(pair[0], r.Block(), out) != nil {
						out[fn] = true
					}
				}
			})
			if out[fn] {
				changed = true
			}
		}
	}
	return out
}

// neverNil tells that a function gives a value whenever it gives no error, each of its exits showing it.
func (p *Program) neverNil(fn *ssa.Function) bool {
	if v, ok := p.never[fn]; ok {
		return v
	}
	if p.never == nil {
		p.never = map[*ssa.Function]bool{}
	}
	p.never[fn] = true // of the calls of a function to itself
	ok := fn.Blocks != nil
	ei := errResult(fn.Signature)
	if ei <= 0 && fn.Signature.Results().Len() != 1 {
		ok = false
	}
	eachInstr(fn, func(in ssa.Instruction) {
		r, isRet := in.(*ssa.Return)
		if !isRet || !ok {
			return
		}
		if ei <= 0 {
			ok = p.neverNilValue(r.Results[0], nil)
			return
		}
		for _, pair := range returnPairs(r, 0, ei) {
			if isNilConst(pair[0]) && p06NonNil(pair[1], r) || p.neverNilValue(pair[0], pair[1]) {
				continue
			}
			ok = false
		}
	})
	p.never[fn] = ok
	if !ok {
		for f, v := range p.never {
			if v {
				delete(p.never, f)
			}
		}
	}
	return ok
}

// neverNilValue tells that a value is not nil when the error next to it is.
func (p *Program) neverNilValue(v, err ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return p.neverNilValue(x.X, err)
	case *ssa.ChangeInterface:
		return p.neverNilValue(x.X, err)
	case *ssa.Alloc:
		return true
	case *ssa.Call:
		fs := p.targets(&x.Call)
		for _, f := range fs {
			if !p.neverNil(f) {
				return false
			}
		}
		return len(fs) > 0
	case *ssa.Extract:
		call, isCall := x.Tuple.(*ssa.Call)
		if !isCall || x.Index != 0 {
			return false
		}
		other, isExt := err.(*ssa.Extract)
		if !(isExt && other.Tuple == x.Tuple) && !isNilConst(err) {
			return false
		}
		if isNilConst(err) && !p.failureLeaves(call, v) {
			return false
		}
		fs := p.targets(&call.Call)
		for _, f := range fs {
			if !p.neverNil(f) {
				return false
			}
		}
		return len(fs) > 0
	}
	return false
}

// failureLeaves tells that the value of a call is only reached where its error is nil.
func (p *Program) failureLeaves(call *ssa.Call, v ssa.Value) bool {
	i := errResult(call.Call.Signature())
	if i < 0 {
		return true
	}
	for _, r := range *call.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok && ex.Index == i {
			ts, _ := errTests(ex, map[ssa.Value]bool{})
			return len(ts) > 0
		}
	}
	return false
}

// neverNilCall judges a call of the engine by its name: it gives the index of the error next to its value, or 0.
func (p *Program) neverNilCall(name string) int {
	if v, ok := p.neverCalls[name]; ok {
		return v
	}
	if p.neverCalls == nil {
		p.neverCalls = map[string]int{}
	}
	out := 0
	if i := strings.LastIndexByte(name, ':'); i > 0 && !strings.ContainsAny(name, "( ") && p.ByRel[name[:i]] != nil {
		fs := []*ssa.Function{}
		if j := strings.IndexByte(name[i+1:], '.'); j < 0 {
			fs = append(fs, p.ByRel[name[:i]].Func(name[i+1:]))
		} else if t, ok := p.ByRel[name[:i]].Members[name[i+1:][:j]].(*ssa.Type); ok {
			if types.IsInterface(t.Type()) {
				fs = p.implementations(t.Type(), name[i+1:][j+1:])
			} else {
				fs = append(fs, p.findFunc(name))
			}
		}
		for k, fn := range fs {
			ei := 0
			if fn != nil {
				ei = errResult(fn.Signature)
			}
			if ei <= 0 || k > 0 && ei != out || !pointerLike(fn.Signature.Results().At(0).Type()) || !p.neverNil(fn) {
				out = 0
				break
			}
			out = ei
		}
	}
	p.neverCalls[name] = out
	return out
}

// nilSource finds the call that may have given a nil value, when nothing excludes it.
func (p *Program) nilSource(v ssa.Value, b *ssa.BasicBlock, may map[*ssa.Function]bool) *ssa.Call {
	ex, ok := v.(*ssa.Extract)
	if !ok || ex.Index != 0 {
		return nil
	}
	call, ok := ex.Tuple.(*ssa.Call)
	if !ok {
		return nil
	}
	for _, f := range p.targets(&call.Call) {
		if may[f] && !testedNonNil(v, b) {
			return call
		}
	}
	return nil
}

// targets gives the functions of the repository a call may reach.
func (p *Program) targets(cc *ssa.CallCommon) []*ssa.Function {
	if f := cc.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if !cc.IsInvoke() {
		return nil
	}
	return p.implementations(cc.Value.Type(), cc.Method.Name())
}

// implementations gives the methods of the repository behind an interface method.
func (p *Program) implementations(t types.Type, name string) []*ssa.Function {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	out := []*ssa.Function{}
	for _, fn := range p.Funcs {
		if fn.Name() != name || fn.Signature.Recv() == nil {
			continue
		}
		if types.Implements(fn.Signature.Recv().Type(), it) {
			out = append(out, fn)
		}
	}
	return out
}

// ruleNilUse judges that a value that may be nil is compared with nil before a method is called on it.
func ruleNilUse(c *Ctx) {
	may := c.P.mayNil()
	for _, fn := range c.P.Funcs {
		eachInstr(fn, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || !ci.Common().IsInvoke() {
				return
			}
			v := ci.Common().Value
			vs := []ssa.Value{v}
			if ph, ok := v.(*ssa.Phi); ok {
				vs = ph.Edges
			}
			for _, v := range vs {
				ex, ok := v.(*ssa.Extract)
				if !ok || ex.Index != 0 {
					continue
				}
				call, ok := ex.Tuple.(*ssa.Call)
				if !ok {
					continue
				}
				isMay := false
				for _, f := range c.P.targets(&call.Call) {
					isMay = isMay || may[f]
				}
				if !isMay {
					continue
				}
				c.Saw(fn)
				cons := short(fn.String()) + " " + calleeName(&call.Call) + " " + ci.Common().Method.Name()
				if testedNonNil(v, in.Block()) || testedNonNil(ci.Common().Value, in.Block()) {
					c.Ok("nil-tested", cons)
					continue
				}
				c.Bad("nil-tested", cons, c.P.where(in.Pos()), "the result may be nil and is used without being compared with nil")
			}
		})
	}
}

func pointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer:
		return true
	}
	return false
}

// testedNonNil tells that a value was compared with nil and is not nil in the block.
func testedNonNil(v ssa.Value, b *ssa.BasicBlock) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, u := range *v.Referrers() {
		if call, ok := u.(*ssa.Call); ok {
			if neq, is := nilPredicate(call, v); is {
				for _, t := range condTests(call, neq, v, map[ssa.Value]bool{}) {
					if t.fail.Dominates(b) && len(t.fail.Preds) == 1 {
						return true
					}
				}
			}
			continue
		}
		bo, ok := u.(*ssa.BinOp)
		if !ok || !isNilConst(bo.Y) && !isNilConst(bo.X) {
			continue
		}
		for _, t := range condTests(bo, bo.Op == token.NEQ, v, map[ssa.Value]bool{}) {
			if t.fail.Dominates(b) && len(t.fail.Preds) == 1 {
				return true
			}
		}
	}
	return false
}

// eitherNonNil tells that on each of the ways into a block one of two values is not nil.
func eitherNonNil(v, w ssa.Value, b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		ok := false
		for _, x := range []ssa.Value{v, w} {
			ok = ok || testedNonNil(x, p)
			f, isIf := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !isIf || p.Succs[0] == p.Succs[1] {
				continue
			}
			if bo, isBin := f.Cond.(*ssa.BinOp); isBin && (bo.X == x && isNilConst(bo.Y) || bo.Y == x && isNilConst(bo.X)) {
				ok = ok || bo.Op == token.NEQ && p.Succs[0] == b || bo.Op == token.EQL && p.Succs[1] == b
			}
		}
		if !ok {
			return false
		}
	}
	return len(b.Preds) > 0
}

func isErrCall(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	return ok && calleeName(&c.Call) == "errors.New"
}

// returnPairs splits the phis of a return.
func returnPairs(r *ssa.Return, i, j int) [][2]ssa.Value {
	a, b := r.Results[i], r.Results[j]
	pa, okA := a.(*ssa.Phi)
	pb, okB := b.(*ssa.Phi)
	out := [][2]ssa.Value{}
	switch {
	case okA && okB && pa.Block() == pb.Block():
		for k := range pa.Edges {
			out = append(out, [2]ssa.Value{pa.Edges[k], pb.Edges[k]})
		}
	case okA:
		for k := range pa.Edges {
			out = append(out, [2]ssa.Value{pa.Edges[k], b})
		}
	case okB:
		for k := range pb.Edges {
			out = append(out, [2]ssa.Value{a, pb.Edges[k]})
		}
	default:
		out = append(out, [2]ssa.Value{a, b})
	}
	return out
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// p06NonNil tells that an error next to a nil value is known to be an error:
// it is built there, or it was tested before the return.
func p06NonNil(v ssa.Value, r *ssa.Return) bool {
	if isNilConst(v) {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		n := calleeName(&x.Call)
		if n == "errors.New" || strings.HasPrefix(n, "fmt.Errorf") {
			return true
		}
		if f := x.Call.StaticCallee(); f != nil && alwaysError(f, 0) {
			return true
		}
	}
	ts, _ := errTests(v, map[ssa.Value]bool{})
	for _, t := range ts {
		if t.fail == r.Block() || t.fail.Dominates(r.Block()) {
			if len(t.fail.Preds) == 1 || true {
				return true
			}
		}
	}
	return false
}

var _ = fmt.Sprint
var _ = sort.Strings
