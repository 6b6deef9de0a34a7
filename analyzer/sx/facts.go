package sx

import (
	"go/types"
	"math"
	"strconv"
)

// Lit is an assumed literal.
type Lit struct {
	Atom *Term
	Val  bool
}

func (l Lit) String() string {
	if l.Val {
		return l.Atom.String()
	}
	return "!(" + l.Atom.String() + ")"
}

type interval struct{ lo, hi int64 }

var full = interval{math.MinInt64, math.MaxInt64}

// Facts is the predicate state of a path.
type Facts struct {
	truth map[*Term]bool
	iv    map[*Term]interval
	neq   map[*Term][]*Term
	Lits  []Lit
	// Alive are the values that are used in a way that a nil one does not allow.
	Alive []*Term
}

func newFacts() *Facts {
	return &Facts{truth: map[*Term]bool{}, iv: map[*Term]interval{}, neq: map[*Term][]*Term{}}
}

func (f *Facts) clone() *Facts {
	n := newFacts()
	for k, v := range f.truth {
		n.truth[k] = v
	}
	for k, v := range f.iv {
		n.iv[k] = v
	}
	for k, v := range f.neq {
		n.neq[k] = v
	}
	n.Lits = append([]Lit{}, f.Lits...)
	n.Alive = append([]*Term{}, f.Alive...)
	return n
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (f *Facts) ival(x *Term) interval {
	if v, ok := x.IntOf(); ok {
		return interval{v, v}
	}
	if x.Op == "add" {
		o, _ := strconv.ParseInt(x.Aux, 10, 64)
		i := f.ival(x.Args[0])
		if i.lo != math.MinInt64 {
			i.lo += o
		}
		if i.hi != math.MaxInt64 {
			i.hi += o
		}
		return i
	}
	r := full
	if v, ok := f.iv[x]; ok {
		r = v
	}
	if x.Op == "len" || x.Op == "iter" || isUnsigned(x.Typ) {
		if r.lo < 0 {
			r.lo = 0
		}
	}
	if x.Op == "len" {
		if c := x.Args[0]; c.Op == "call" && c.Aux == "strings.Split" && len(c.Args) == 2 && r.lo < 1 {
			// splitting on a separator gives one part at least
			if sep, ok := c.Args[1].StrOf(); ok && sep != "" {
				r.lo = 1
			}
		}
		if b, ok := f.truth[T("isnil", "", x.Args[0])]; ok && b {
			r = interval{0, 0}
		}
	}
	return r
}

// NeverNil gives the index of the error of a function that gives a value whenever it gives no error, 0 for the others.
var NeverNil func(name string) int

// Eval decides a boolean term under the facts: 1 true, 0 false, -1 unknown.
func (f *Facts) Eval(c *Term) int {
	switch c.Op {
	case "const":
		if c == True {
			return 1
		}
		if c == False {
			return 0
		}
	case "not":
		v := f.Eval(c.Args[0])
		if v < 0 {
			return v
		}
		return 1 - v
	case "and":
		r := 1
		for _, a := range c.Args {
			v := f.Eval(a)
			if v == 0 {
				return 0
			}
			if v < 0 {
				r = -1
			}
		}
		return r
	case "or":
		r := 0
		for _, a := range c.Args {
			v := f.Eval(a)
			if v == 1 {
				return 1
			}
			if v < 0 {
				r = -1
			}
		}
		return r
	}
	if v, ok := f.truth[c]; ok {
		if v {
			return 1
		}
		return 0
	}
	switch c.Op {
	case "isnil":
		x := c.Args[0]
		l := T("len", "", x)
		if i := f.ival(l); i.lo > 0 {
			return 0
		}
		if x.Op == "concat" {
			return 0
		}
		if x.Op == "ext" && x.Args[0].Op == "call" && NeverNil != nil {
			if i := NeverNil(x.Args[0].Aux); i > 0 {
				other := "0"
				if x.Aux == "0" {
					other = strconv.Itoa(i)
				}
				if x.Aux == "0" || x.Aux == strconv.Itoa(i) {
					if v, ok := f.truth[T("isnil", "", T("ext", other, x.Args[0]))]; ok && v {
						return 0
					}
				}
			}
		}
		if x.Op == "lookup" {
			if ok, known := f.truth[T("lookupok", "", x.Args...)]; known && !ok {
				return 1
			}
		}
	case "lookupok":
		// what is not nil was found
		if n, known := f.truth[T("isnil", "", T("lookup", "", c.Args...))]; known && !n {
			return 1
		}
	case "eq":
		a, b := c.Args[0], c.Args[1]
		ia, ib := f.ival(a), f.ival(b)
		if ia.hi < ib.lo || ib.hi < ia.lo {
			return 0
		}
		if ia.lo == ia.hi && ib.lo == ib.hi && ia.lo == ib.lo {
			return 1
		}
		if b.Op == "const" {
			for _, n := range f.neq[a] {
				if n == b {
					return 0
				}
			}
			// known equal to another constant
			for k, v := range f.truth {
				if v && k.Op == "eq" && k.Args[0] == a && k.Args[1].Op == "const" && k.Args[1] != b {
					return 0
				}
			}
			if s, ok := b.StrOf(); ok {
				i := f.ival(LenOf(a))
				if int64(len(s)) < i.lo || int64(len(s)) > i.hi {
					return 0
				}
			}
		}
		if a.Op == "nil" || b.Op == "nil" {
			return -1
		}
		ab, ok1 := f.truth[T("lt", "", a, b)]
		ba, ok2 := f.truth[T("lt", "", b, a)]
		if ab || ba {
			return 0
		}
		if ok1 && ok2 {
			return 1
		}
	case "lt":
		a, b := c.Args[0], c.Args[1]
		ia, ib := f.ival(a), f.ival(b)
		if ia.hi != math.MaxInt64 && ib.lo != math.MinInt64 && ia.hi < ib.lo {
			return 1
		}
		if ia.lo != math.MinInt64 && ib.hi != math.MaxInt64 && ia.lo >= ib.hi {
			return 0
		}
		// antisymmetry
		if v, ok := f.truth[T("lt", "", b, a)]; ok && v {
			return 0
		}
		x, y := ordered(a, b)
		if v, ok := f.truth[T("eq", "", x, y)]; ok && v {
			return 0
		}
	}
	return -1
}

// Assume adds a literal; false when it contradicts the facts.
func (f *Facts) Assume(c *Term, val bool) bool {
	if c.Op == "not" {
		return f.Assume(c.Args[0], !val)
	}
	if c.Op == "and" && val || c.Op == "or" && !val {
		for _, a := range c.Args {
			if !f.Assume(a, val) {
				return false
			}
		}
		return true
	}
	switch f.Eval(c) {
	case 1:
		if !val {
			return false
		}
		if _, ok := f.truth[c]; ok || c.Op == "const" {
			return true
		}
	case 0:
		if val {
			return false
		}
		if _, ok := f.truth[c]; ok || c.Op == "const" {
			return true
		}
	}
	f.truth[c] = val
	f.Lits = append(f.Lits, Lit{c, val})
	if c.Op == "call" && len(c.Args) == 1 {
		if !f.alternatives(c, val) {
			return false
		}
	}
	switch c.Op {
	case "isnil":
		x := c.Args[0]
		if val {
			return f.narrow(T("len", "", x), interval{0, 0})
		}
	case "eq":
		a, b := c.Args[0], c.Args[1]
		if v, ok := b.IntOf(); ok {
			if val {
				return f.narrow(a, interval{v, v})
			}
			i := f.ival(a)
			if i.lo == v {
				i.lo++
			}
			if i.hi == v {
				i.hi--
			}
			f.neq[a] = append(append([]*Term{}, f.neq[a]...), b)
			return f.narrow(a, i)
		}
		if b.Op == "const" && !val {
			f.neq[a] = append(append([]*Term{}, f.neq[a]...), b)
		}
		if s, ok := b.StrOf(); ok && val {
			return f.narrow(LenOf(a), interval{int64(len(s)), int64(len(s))})
		}
	case "lt":
		a, b := c.Args[0], c.Args[1]
		ia, ib := f.ival(a), f.ival(b)
		if val {
			// a < b
			if ib.hi != math.MaxInt64 && ia.hi > ib.hi-1 {
				ia.hi = ib.hi - 1
			}
			if ia.lo != math.MinInt64 && ib.lo < ia.lo+1 {
				ib.lo = ia.lo + 1
			}
		} else {
			// a >= b
			if ib.lo != math.MinInt64 && ia.lo < ib.lo {
				ia.lo = ib.lo
			}
			if ia.hi != math.MaxInt64 && ib.hi > ia.hi {
				ib.hi = ia.hi
			}
		}
		return f.narrow(a, ia) && f.narrow(b, ib)
	}
	return true
}

// alive notes that a method of x was called: it is not nil on the paths that go on.
func (f *Facts) alive(x *Term) {
	if n := IsNil(x); n.Op == "isnil" && f.Eval(n) < 0 {
		f.truth[n] = false
		f.Alive = append(f.Alive, x)
	}
}

// Live notes that values are not nil, and tells if that is possible.
func (f *Facts) Live(xs []*Term) bool {
	for _, x := range xs {
		if f.Eval(IsNil(x)) == 1 {
			return false
		}
		f.alive(x)
	}
	return true
}

func (f *Facts) narrow(x *Term, i interval) bool {
	if x.Op == "const" {
		v, ok := x.IntOf()
		return !ok || (v >= i.lo && v <= i.hi)
	}
	if x.Op == "add" {
		o, _ := strconv.ParseInt(x.Aux, 10, 64)
		if i.lo != math.MinInt64 {
			i.lo -= o
		}
		if i.hi != math.MaxInt64 {
			i.hi -= o
		}
		return f.narrow(x.Args[0], i)
	}
	c := f.ival(x)
	if i.lo > c.lo {
		c.lo = i.lo
	}
	if i.hi < c.hi {
		c.hi = i.hi
	}
	// the values known to be different are no ends
	for again := len(f.neq[x]) > 0; again; {
		again = false
		for _, n := range f.neq[x] {
			if v, ok := n.IntOf(); ok && c.lo <= c.hi {
				if v == c.lo {
					c.lo++
					again = true
				} else if v == c.hi {
					c.hi--
					again = true
				}
			}
		}
	}
	if c.lo > c.hi {
		return false
	}
	f.iv[x] = c
	return true
}

// Ival exposes the interval of a term.
func (f *Facts) Ival(x *Term) (int64, int64) { i := f.ival(x); return i.lo, i.hi }

// Canon returns the canonical DNF key of the literals from position n.
func (f *Facts) Delta(n int) []Lit { return append([]Lit{}, f.Lits[n:]...) }

// ConstOf gives the integer constant a term is known to equal.
func (f *Facts) ConstOf(x *Term) (*Term, bool) {
	i := f.ival(x)
	if i.lo == i.hi {
		return Int(i.lo), true
	}
	return nil, false
}

// Alternatives are the predicates of which exactly one holds of a value, by the name of each of them.
var Alternatives map[string][]string

// alternatives tells if the facts leave exactly one of the alternatives to a value.
func (f *Facts) alternatives(c *Term, val bool) bool {
	all := Alternatives[c.Aux]
	if len(all) == 0 {
		return true
	}
	for _, n := range all {
		if n == c.Aux {
			continue
		}
		v, ok := f.truth[T("call", n, c.Args[0])]
		if val && ok && v {
			return false
		}
		if !val && (!ok || v) {
			return true
		}
	}
	return val
}
