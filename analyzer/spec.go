package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sx"
)

// oracle answers the questions a specification asks about a path: the answer is
// what the path established, and both answers are explored when it did not.
type oracle struct {
	st        *sx.State
	choices   []bool
	pos       int
	dead      bool
	undecided string
}

// Is tells if a boolean value is true on the path.
func (q *oracle) Is(atom *sx.Term) bool {
	switch q.st.F.Eval(atom) {
	case 1:
		return true
	case 0:
		return false
	}
	if q.pos == len(q.choices) {
		q.choices = append(q.choices, true)
	}
	v := q.choices[q.pos]
	q.pos++
	if !q.st.F.Assume(atom, v) {
		q.dead = true
	}
	return v
}

// Any tells if an element of the list satisfies a predicate on the path.
func (q *oracle) Any(list *sx.Term, pred func(*sx.Term) *sx.Term) bool {
	n := sx.LenOf(list)
	if _, hi := q.st.F.Ival(n); hi == 0 {
		return false
	}
	// a witness
	for _, l := range q.st.F.Lits {
		var js []*sx.Term
		l.Atom.Walk(func(t *sx.Term) bool {
			if t.Op == "iter" && len(t.Args) > 0 && t.Args[0] == n {
				js = append(js, t)
			}
			return true
		})
		for _, j := range js {
			if q.st.F.Eval(pred(sx.T("index", "", list, j))) == 1 {
				return true
			}
		}
	}
	// no iteration of a complete traversal has it
	for _, fa := range q.st.Foralls {
		if fa.N != n {
			continue
		}
		at := pred(sx.T("index", "", list, fa.J))
		ok := true
		for _, cs := range fa.Cases {
			st := q.st.Clone()
			for _, l := range cs {
				st.F.Assume(l.Atom, l.Val)
			}
			if st.F.Eval(at) != 0 {
				ok = false
			}
		}
		if ok {
			return false
		}
	}
	q.undecided = "the path does not tell whether an element of " + short(list.String()) + " satisfies the condition"
	return false
}

// judge evaluates a specification on a path: it returns what is wrong.
func judge(st *sx.State, spec func(q *oracle) string) string {
	choices := []bool{}
	for n := 0; n < 4096; n++ {
		q := &oracle{st: st.Clone(), choices: append([]bool{}, choices...)}
		msg := spec(q)
		if !q.dead {
			if q.undecided != "" {
				return "undecided: " + q.undecided
			}
			if msg != "" {
				return msg
			}
		}
		// next combination
		choices = q.choices[:q.pos]
		for len(choices) > 0 && !choices[len(choices)-1] {
			choices = choices[:len(choices)-1]
		}
		if len(choices) == 0 {
			return ""
		}
		choices[len(choices)-1] = false
	}
	return "undecided: too many cases"
}

// inlineAll is an engine that looks through the functions of the repository,
// except the listed ones.
func (p *Program) inlineAll(barrier func(fn *ssa.Function) bool) *sx.Engine {
	e := p.engine()
	e.Inline = func(root, caller, callee *ssa.Function) bool {
		if callee.Pkg == nil || !p.inRepo(callee.Pkg.Pkg) {
			return false
		}
		return barrier == nil || !barrier(callee)
	}
	return e
}

// specRun analyses a function and judges each of its exits.
func (c *Ctx) specRun(e *sx.Engine, rule, name string, fn *ssa.Function, args []*sx.Term, st *sx.State, spec func(q *oracle, o sx.Outcome) string) {
	c.Saw(fn)
	if fn == nil {
		c.Bad(rule, name, "", "the function is not found")
		return
	}
	outs, err := e.Run(fn, args, st)
	if err != nil {
		c.Bad(rule, name, c.P.fnWhere(fn), "undecided: %s", err)
		return
	}
	if len(outs) == 0 {
		c.Bad(rule, name, c.P.fnWhere(fn), "undecided: no exit")
		return
	}
	for f := range e.Analysed {
		c.Saw(f)
	}
	for _, o := range outs {
		c.paths++
		if o.Kind != "return" {
			c.Bad(rule, name, c.P.where(o.Pos), "a path ends with a %s", o.Kind)
			return
		}
		if m := judge(o.S, func(q *oracle) string { return spec(q, o) }); m != "" {
			c.Bad(rule, name, c.P.fnWhere(fn), "%s, when %s", m, litsString(o.S.F.Lits))
			return
		}
	}
	c.Ok(rule, name)
}

// isFailure and isSuccess judge the results (value, error) of an outcome.
func outcomeFails(q *oracle, o sx.Outcome) (fails, known bool) {
	n := len(o.Res)
	switch q.st.F.Eval(sx.IsNil(o.Res[n-1])) {
	case 1:
		return false, true
	case 0:
		return true, true
	}
	return false, false
}

func sym(t *sx.Term) string { return short(t.String()) }

func has(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

func joinSorted(m map[string]bool) string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

var _ = fmt.Sprint
