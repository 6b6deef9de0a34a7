// Package sx is a path-sensitive value-flow analysis over the SSA form of the
// analysed program: it numbers values, tracks the heap cells a function writes
// and the predicates under which each exit of a function is reached. Nothing is
// executed and no solver is involved: predicates are literals over numbered
// values, with a nil/interval domain.
package sx

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Term is an interned value number.
type Term struct {
	Op   string
	Aux  string
	Args []*Term
	Typ  types.Type // first type seen, informative only
	key  string
	ID   int
}

var (
	interned = map[string]*Term{}
	termSeq  = 0
)

// T interns a term.
func T(op, aux string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('\x01')
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte('\x02')
		if a == nil {
			panic("nil term arg in " + op + " " + aux)
		}
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	if t, ok := interned[k]; ok {
		return t
	}
	termSeq++
	t := &Term{Op: op, Aux: aux, Args: args, key: k, ID: termSeq}
	interned[k] = t
	return t
}

func (t *Term) typed(ty types.Type) *Term {
	if t.Typ == nil {
		t.Typ = ty
	}
	return t
}

// String renders a term for reports.
func (t *Term) String() string {
	return render(t, 0)
}

func render(t *Term, d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 12 {
		return "…"
	}
	a := func(i int) string { return render(t.Args[i], d+1) }
	switch t.Op {
	case "const":
		return t.Aux
	case "nil":
		return "nil"
	case "param":
		return t.Aux
	case "sym":
		return t.Aux
	case "field":
		return a(0) + "." + t.Aux
	case "addr":
		return "&" + a(0) + "." + t.Aux
	case "deref":
		return "*" + a(0)
	case "new", "bld", "mkmap", "mkslice":
		return t.Op + "(" + t.Aux + ")"
	case "ext":
		return a(0) + "#" + t.Aux
	case "len":
		return "len(" + a(0) + ")"
	case "index":
		return a(0) + "[" + a(1) + "]"
	case "iter":
		return "each(" + a(0) + ")"
	case "add":
		return a(0) + "+" + t.Aux
	case "isnil":
		return a(0) + "==nil"
	case "not":
		return "!(" + a(0) + ")"
	case "bin":
		if len(t.Args) == 2 {
			return "(" + a(0) + t.Aux + a(1) + ")"
		}
	case "lt":
		return "(" + a(0) + "<" + a(1) + ")"
	case "eq":
		return "(" + a(0) + "==" + a(1) + ")"
	}
	var p []string
	for i := range t.Args {
		p = append(p, a(i))
	}
	s := t.Op
	if t.Aux != "" {
		s += ":" + t.Aux
	}
	return s + "(" + strings.Join(p, ", ") + ")"
}

// Nil is the nil value.
var Nil = T("nil", "")

// Const builds a constant.
func Const(s string) *Term { return T("const", s) }

// Str builds a string constant.
func Str(s string) *Term { return T("const", strconv.Quote(s)) }

// Int builds an integer constant.
func Int(i int64) *Term { return T("const", strconv.FormatInt(i, 10)) }

// True and False are the boolean constants.
var (
	True  = Const("true")
	False = Const("false")
)

// BoolT converts a bool to a term.
func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

// IntOf returns the integer value of a constant.
func (t *Term) IntOf() (int64, bool) {
	if t.Op != "const" {
		return 0, false
	}
	v, err := strconv.ParseInt(t.Aux, 10, 64)
	return v, err == nil
}

// StrOf returns the string value of a constant.
func (t *Term) StrOf() (string, bool) {
	if t.Op != "const" || len(t.Aux) == 0 || (t.Aux[0] != '"' && t.Aux[0] != '`') {
		return "", false
	}
	v, err := strconv.Unquote(t.Aux)
	return v, err == nil
}

// Walk visits the sub terms.
func (t *Term) Walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var w func(*Term)
	w = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.Args {
			w(a)
		}
	}
	w(t)
}

// Contains tells if t contains s.
func (t *Term) Contains(s *Term) bool {
	found := false
	t.Walk(func(x *Term) bool {
		if x == s {
			found = true
		}
		return !found
	})
	return found
}

// Add builds x+c in linear normal form.
func Add(x *Term, c int64) *Term {
	if v, ok := x.IntOf(); ok {
		return Int(v + c)
	}
	if x.Op == "add" {
		o, _ := strconv.ParseInt(x.Aux, 10, 64)
		return Add(x.Args[0], o+c)
	}
	if c == 0 {
		return x
	}
	return T("add", strconv.FormatInt(c, 10), x).typed(x.Typ)
}

// LenOf builds the length of a value.
func LenOf(x *Term) *Term {
	switch x.Op {
	case "nil":
		return Int(0)
	case "list":
		return Int(int64(len(x.Args)))
	case "const":
		if s, ok := x.StrOf(); ok {
			return Int(int64(len(s)))
		}
	case "convbytes", "convstring", "sorted":
		return LenOf(x.Args[0])
	case "map1":
		// one element per iteration
		return x.Args[0]
	case "mkslice":
		if len(x.Args) > 0 {
			return x.Args[0]
		}
	case "slice":
		lo, hi := x.Args[1], x.Args[2]
		if hi.Op == "none" && lo == LenOf(x.Args[0]) {
			return Int(0)
		}
		if hi.Op == "none" && (lo.Op == "iter" || lo.Op == "add" && lo.Args[0].Op == "iter") {
			return minus(LenOf(x.Args[0]), lo)
		}
		if hi.Op != "none" && lo.Op == "const" && lo.Aux == "0" {
			return hi
		}
		if hi.Op == "add" && hi.Args[0] == lo {
			n, _ := strconv.ParseInt(hi.Aux, 10, 64)
			return Int(n)
		}
		if hi.Op == "bin" && hi.Aux == "+" {
			for i, a := range hi.Args {
				if a == lo {
					return hi.Args[1-i]
				}
			}
		}
	}
	if a := arrayOf(x); a != nil {
		return Int(a.Len())
	}
	if x.Op == "digest" {
		switch x.Aux {
		case "crypto/sha512.New":
			return Int(64)
		case "crypto/sha256.New":
			return Int(32)
		}
	}
	if x.Op == "u64" {
		return Int(8)
	}
	if x.Typ != nil {
		if a, ok := x.Typ.Underlying().(*types.Array); ok {
			return Int(a.Len())
		}
	}
	return T("len", "", x)
}

// Concat appends lists in normal form.
func Concat(a *Term, b *Term) *Term {
	parts := []*Term{}
	var fl func(x *Term)
	fl = func(x *Term) {
		if x.Op == "concat" {
			for _, y := range x.Args {
				fl(y)
			}
			return
		}
		if x.Op == "nil" || (x.Op == "list" && len(x.Args) == 0) {
			return
		}
		if x.Op == "list" && len(parts) > 0 && parts[len(parts)-1].Op == "list" {
			p := parts[len(parts)-1]
			parts[len(parts)-1] = T("list", "", append(append([]*Term{}, p.Args...), x.Args...)...)
			return
		}
		parts = append(parts, x)
	}
	fl(a)
	fl(b)
	if len(parts) == 0 {
		return T("list", "")
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return T("concat", "", parts...)
}

// StrCat concatenates strings in normal form.
func StrCat(a, b *Term) *Term {
	parts := []*Term{}
	var fl func(x *Term)
	fl = func(x *Term) {
		if x.Op == "strcat" {
			for _, y := range x.Args {
				fl(y)
			}
			return
		}
		if s, ok := x.StrOf(); ok {
			if s == "" {
				return
			}
			if len(parts) > 0 {
				if p, ok := parts[len(parts)-1].StrOf(); ok {
					parts[len(parts)-1] = Str(p + s)
					return
				}
			}
		}
		parts = append(parts, x)
	}
	fl(a)
	fl(b)
	if len(parts) == 0 {
		return Str("")
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return T("strcat", "", parts...)
}

// JoinEmpty concatenates the strings of a list.
func JoinEmpty(l *Term) *Term {
	switch l.Op {
	case "nil":
		return Str("")
	case "list":
		out := Str("")
		for _, a := range l.Args {
			out = StrCat(out, a)
		}
		return out
	case "concat":
		out := Str("")
		for _, a := range l.Args {
			out = StrCat(out, JoinEmpty(a))
		}
		return out
	case "map1":
		return T("strmap", "", l.Args...)
	}
	return T("join", "", l)
}

// Subst replaces from by to in t.
func Subst(t, from, to *Term) *Term {
	memo := map[*Term]*Term{}
	var r func(*Term) *Term
	r = func(x *Term) *Term {
		if x == from {
			return to
		}
		if y, ok := memo[x]; ok {
			return y
		}
		if len(x.Args) == 0 {
			return x
		}
		ch := false
		n := make([]*Term, len(x.Args))
		for i, a := range x.Args {
			n[i] = r(a)
			if n[i] != a {
				ch = true
			}
		}
		y := x
		if ch {
			y = rebuild(x, n)
		}
		memo[x] = y
		return y
	}
	return r(t)
}

func rebuild(x *Term, n []*Term) *Term {
	switch x.Op {
	case "add":
		o, _ := strconv.ParseInt(x.Aux, 10, 64)
		return Add(n[0], o)
	case "len":
		return LenOf(n[0]).typed(x.Typ)
	case "concat":
		out := n[0]
		for _, a := range n[1:] {
			out = Concat(out, a)
		}
		return out
	case "strcat":
		out := n[0]
		for _, a := range n[1:] {
			out = StrCat(out, a)
		}
		return out
	case "not":
		return Not(n[0])
	case "eq":
		return Eq(n[0], n[1])
	case "lt":
		return Lt(n[0], n[1])
	case "isnil":
		return IsNil(n[0])
	case "field":
		return FieldOf(n[0], x.Aux).typed(x.Typ)
	}
	return T(x.Op, x.Aux, n...).typed(x.Typ)
}

// Not negates a boolean term.
func Not(x *Term) *Term {
	if x == True {
		return False
	}
	if x == False {
		return True
	}
	if x.Op == "not" {
		return x.Args[0]
	}
	return T("not", "", x)
}

// IsNil builds the nilness atom.
func IsNil(x *Term) *Term {
	switch x.Op {
	case "nil":
		return True
	case "new", "bld", "list", "mkmap", "mkslice", "closure", "func", "convbytes", "struct", "addr", "iaddr", "map1", "errnew", "const", "hasher", "digest", "aslice", "u64":
		return False
	}
	return T("isnil", "", x)
}

func ordered(a, b *Term) (*Term, *Term) {
	if a.ID > b.ID {
		return b, a
	}
	return a, b
}

// Eq builds the equality atom.
func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Op == "nil" {
		return IsNil(b)
	}
	if b.Op == "nil" {
		return IsNil(a)
	}
	if a.Op == "const" && b.Op == "const" {
		return BoolT(a.Aux == b.Aux)
	}
	if b == True {
		return a
	}
	if b == False {
		return Not(a)
	}
	if a == True {
		return b
	}
	if a == False {
		return Not(b)
	}
	if s, ok := b.StrOf(); ok && s == "" {
		return Eq(LenOf(a), Int(0))
	}
	if s, ok := a.StrOf(); ok && s == "" {
		return Eq(LenOf(b), Int(0))
	}
	if a.Op == "const" {
		a, b = b, a
	}
	if v, ok := b.IntOf(); ok && a.Op == "add" {
		o, _ := strconv.ParseInt(a.Aux, 10, 64)
		return Eq(a.Args[0], Int(v-o))
	}
	if v, ok := b.IntOf(); ok {
		if x, j := lessIter(a); j != nil {
			return Eq(j, Add(x, -v))
		}
	}
	if b.Op == "const" {
		return T("eq", "", a, b)
	}
	a, b = ordered(a, b)
	return T("eq", "", a, b)
}

// Lt builds a<b.
func Lt(a, b *Term) *Term {
	if a == b {
		return False
	}
	if x, ok := a.IntOf(); ok {
		if y, ok := b.IntOf(); ok {
			return BoolT(x < y)
		}
	}
	// shift constants on the constant side
	if a.Op == "add" {
		if v, ok := b.IntOf(); ok {
			o, _ := strconv.ParseInt(a.Aux, 10, 64)
			return Lt(a.Args[0], Int(v-o))
		}
	}
	if b.Op == "add" {
		if v, ok := a.IntOf(); ok {
			o, _ := strconv.ParseInt(b.Aux, 10, 64)
			return Lt(Int(v-o), b.Args[0])
		}
	}
	// an iteration on its own side: c < X-j is j < X-c
	if x, j := lessIter(b); j != nil {
		if v, ok := a.IntOf(); ok {
			return Lt(j, Add(x, -v))
		}
		if x.Op == "len" {
			return Lt(plus(a, j), x)
		}
	}
	if x, j := lessIter(a); j != nil {
		if v, ok := b.IntOf(); ok {
			return Not(Lt(j, Add(x, -v+1)))
		}
		if x.Op == "len" {
			return Lt(x, plus(b, j))
		}
	}
	return T("lt", "", a, b)
}

// lessIter takes X-j apart, where j is an iteration.
func lessIter(t *Term) (*Term, *Term) {
	if t.Op == "bin" && t.Aux == "-" && t.Args[1].Op == "iter" {
		return t.Args[0], t.Args[1]
	}
	return nil, nil
}

// FieldOf projects a field out of a struct value or an opaque pointer.
func FieldOf(base *Term, name string) *Term {
	if base.Op == "struct" {
		names := strings.Split(base.Aux, ",")
		for i, n := range names {
			if n == name {
				return base.Args[i]
			}
		}
	}
	return T("field", name, base)
}

// SortedKeys sorts the keys of a map.
func SortedKeys[V any](m map[string]V) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = fmt.Sprintf

// Sym builds a named symbol.
func Sym(name string, ty types.Type) *Term {
	t := T("sym", name)
	if t.Typ != nil && ty != nil && isUnsigned(t.Typ) != isUnsigned(ty) {
		// two things of the same name, one of which is never negative
		t = T("sym", name, T("type", ty.String()))
	}
	return t.typed(ty)
}

// Typed gives its type to a term that has none.
func (t *Term) Typed(ty types.Type) *Term { return t.typed(ty) }
