package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sx"
)

// lookup is an accessor that searches an element of a list by a name.
type lookup struct {
	Builder string   // the builder of the list
	Setter  string   // what gives the list to the builder
	Method  string   // the accessor
	Key     []string // the accessors that lead from an element to its name
}

var lookups = []lookup{
	{"domain/languages/lexers/containers/rules.Builder", "WithRules", "Find", []string{"Name"}},
	{"domain/languages/lexers/containers/patterns.Builder", "WithList", "Find", []string{"Name"}},
	{"domain/languages/lexers/containers/patterns.GroupsBuilder", "WithList", "Find", []string{"Name"}},
	{"domain/languages/lexers/containers/patterns.DiscoveriesBuilder", "WithList", "Find", []string{"Container", "Name"}},
	{"domain/languages/lexers/containers/tokens.Builder", "WithTokens", "Find", []string{"Name"}},
	{"domain/languages/lexers/containers/tokens.TokenSpecifiersBuilder", "WithTokenSpecifiers", "Find", []string{"Content", "Name"}},
	{"domain/languages/lexers/asts/paths.DependenciesBuilder", "WithDependencies", "Fetch", []string{"Name"}},
	{"domain/languages/lexers/roots.ContainersBuilder", "WithList", "Fetch", []string{"Name"}},
	{"domain/languages/lexers/roots.NodesBuilder", "WithNodes", "Fetch", nil},
	{"domain/languages/lexers/references/links.Builder", "WithLinks", "FetchByLocalToken", []string{"LocalToken"}},
}

// keyOf tells if a term is the chain of accessors applied on an element.
func keyOf(t, elem *sx.Term, chain []string) bool {
	for i := len(chain) - 1; i >= 0; i-- {
		for t.Op == "ext" && t.Aux == "0" {
			t = t.Args[0]
		}
		if t.Op != "call" || len(t.Args) != 1 || !strings.HasSuffix(t.Aux, "."+chain[i]) {
			return false
		}
		t = t.Args[0]
	}
	return t == elem
}

// found tells if a term is an element of the list whose name is the one searched.
func (l *lookup) found(st *sx.State, r, list, name *sx.Term) bool {
	switch r.Op {
	case "lookup":
		if st.F.Eval(sx.T("lookupok", "", r.Args...)) != 1 || r.Args[1] != name {
			return false
		}
		return l.indexed(r.Args[0], list)
	case "index":
		if r.Args[0] != list {
			return false
		}
		for _, li := range st.F.Lits {
			if !li.Val || li.Atom.Op != "eq" {
				continue
			}
			a, b := li.Atom.Args[0], li.Atom.Args[1]
			if a == name && keyOf(b, r, l.Key) || b == name && keyOf(a, r, l.Key) {
				return true
			}
		}
	}
	return false
}

// indexed tells if a map holds every element of the list under its name.
func (l *lookup) indexed(m, list *sx.Term) bool {
	if len(l.Key) == 0 {
		return m == list
	}
	if m.Op != "mapfrom" || m.Args[0].Op != "mapempty" || m.Args[1] != sx.LenOf(list) || m.Args[2].Op != "kv" {
		return false
	}
	e := sx.T("index", "", list, m.Args[3])
	return keyOf(m.Args[2].Args[0], e, l.Key) && m.Args[2].Args[1] == e
}

// missed tells if the path searched the whole list without success.
func (l *lookup) missed(st *sx.State, list, name *sx.Term) bool {
	for _, li := range st.F.Lits {
		if li.Atom.Op == "lookupok" && !li.Val && li.Atom.Args[1] == name && l.indexed(li.Atom.Args[0], list) {
			return true
		}
	}
	for _, fa := range st.Foralls {
		if fa.N != sx.LenOf(list) {
			continue
		}
		e := sx.T("index", "", list, fa.J)
		all := len(fa.Cases) > 0
		for _, cs := range fa.Cases {
			ok := false
			for _, li := range cs {
				if li.Val || li.Atom.Op != "eq" {
					continue
				}
				a, b := li.Atom.Args[0], li.Atom.Args[1]
				ok = ok || a == name && keyOf(b, e, l.Key) || b == name && keyOf(a, e, l.Key)
			}
			all = all && ok
		}
		if all {
			return true
		}
	}
	return false
}

// method of the object a term denotes.
func (p *Program) objMethod(o *sx.Term, name string) (*ssa.Function, error) {
	if o == nil || o.Op != "new" || o.Typ == nil {
		return nil, fmt.Errorf("the value %s is not an object of the package", o)
	}
	var pkg *types.Package
	if pt, ok := o.Typ.Underlying().(*types.Pointer); ok {
		if n, ok := pt.Elem().(*types.Named); ok {
			pkg = n.Obj().Pkg()
		}
	}
	fn := p.SSA.LookupMethod(o.Typ, pkg, name)
	if fn == nil {
		return nil, fmt.Errorf("%s has no method %s", o.Typ, name)
	}
	return fn, nil
}

// ruleLookups judges the searches by name.
func ruleLookups(c *Ctx) {
	us, _ := c.P.builders()
	for i := range lookups {
		l := &lookups[i]
		cons := l.Builder + " -> " + l.Method
		var u *builderUnit
		var set *setter
		for _, x := range us {
			if x.Key != l.Builder {
				continue
			}
			u = x
			for _, s := range x.Setters {
				if s.Name == l.Setter {
					set = s
				}
			}
		}
		if u == nil || set == nil {
			c.Bad("lookup", cons, l.Builder, "undecided: the builder or its setter %s is missing", l.Setter)
			continue
		}
		outs, err := c.P.build(u, []call{{set, fullV}})
		if err != nil {
			c.Bad("lookup", cons, c.P.fnWhere(u.Now), "undecided: %s", err)
			continue
		}
		list := symFor(set, 0)
		n := 0
		for _, o := range outs {
			if o.Kind != "success" && o.Kind != "maybe-nil" {
				continue
			}
			fn, err := c.P.objMethod(o.Obj, l.Method)
			if err != nil {
				c.Bad("lookup", cons, c.P.fnWhere(u.Now), "undecided: %s", err)
				continue
			}
			c.Saw(fn)
			c.Saw(u.Now)
			name := sx.Sym("$name", types.Typ[types.String])
			rs, err := c.P.engine().Run(fn, []*sx.Term{o.Obj, name}, o.O.S)
			if err != nil {
				c.Bad("lookup", cons, c.P.fnWhere(fn), "undecided: %s", err)
				continue
			}
			for _, r := range rs {
				n++
				c.paths++
				if r.Kind != "return" || len(r.Res) != 2 {
					c.Bad("lookup", cons, c.P.fnWhere(fn), "does not return an element or an error: %s", r.Kind)
					continue
				}
				res := r.S.Freeze(r.Res[0])
				switch r.S.F.Eval(sx.IsNil(r.Res[1])) {
				case 1:
					c.Check(l.found(r.S, res, list, name), "lookup", cons, c.P.fnWhere(fn), "returns %s, which is not known to be an element of the list with the name searched", short(res.String()))
				case 0:
					c.Check(l.missed(r.S, list, name), "lookup", cons, c.P.fnWhere(fn), "fails while an element of the list may have the name searched (%s)", short(litsString(r.S.F.Lits)))
				default:
					c.Bad("lookup", cons, c.P.fnWhere(fn), "undecided: the error %s", short(r.Res[1].String()))
				}
			}
		}
		c.Check(n >= 2, "lookup-decided", cons, c.P.fnWhere(u.Now), "no search to judge")
	}
}

// ruleViews judges what the objects derive from their parts: the object is built from
// the parts the definition names, and the accessor is evaluated on it.
func ruleViews(c *Ctx, prop string) {
	ds, err := c.P.definitionsOf()
	if err != nil {
		c.Bad("view", prop, "", "undecided: %s", err)
		return
	}
	us, _ := c.P.builders()
	for _, d := range ds.list {
		if d.Prop != prop || d.View == nil {
			continue
		}
		cons := d.Target + "(" + strings.Join(d.View, ",") + ")"
		if d.Fn == nil {
			c.Bad("view", cons, "", "undecided: its definition does not type-check: %s", strings.Join(ds.probs, "; "))
			continue
		}
		i := strings.LastIndexByte(d.Target, ':')
		var u *builderUnit
		for _, x := range us {
			if x.Key == d.Target[:i] {
				u = x
			}
		}
		if u == nil {
			c.Bad("view", cons, d.Target[:i], "undecided: the builder is missing")
			continue
		}
		where, msg := ds.view(c, d, u, strings.Split(d.Target[i+1:], "."))
		c.Check(msg == "", "view", cons, where, "%s", msg)
	}
}

// view compares an accessor of the object built with its definition.
func (ds *definitions) view(c *Ctx, d *definition, u *builderUnit, chain []string) (string, string) {
	ds.open = true
	defer func() { ds.open = false }()
	where := c.P.fnWhere(u.Now)
	undecided := func(err error) (string, string) { return where, "undecided: " + err.Error() }
	e := ds.engine(nil)
	var recs []sx.LoopRec
	run := func(fn *ssa.Function, args []*sx.Term, st *sx.State) ([]sx.Outcome, error) {
		e.Recs = nil
		outs, err := e.Run(fn, args, st)
		recs = append(recs, e.Recs...)
		return outs, err
	}
	ps := sx.Params(d.Fn)
	ours := sx.NewState()
	outs, err := run(u.Create, sx.Params(u.Create), ours)
	if err != nil || len(outs) != 1 || outs[0].Kind != "return" {
		return where, "undecided: the builder cannot be created"
	}
	b := outs[0].Res[0]
	states := []*sx.State{outs[0].S}
	k := 0
	start := sx.NewState()
	for _, nm := range d.View {
		var set *setter
		for _, s := range u.Setters {
			if s.Name == nm {
				set = s
			}
		}
		if set == nil {
			return where, "undecided: the builder has no " + nm
		}
		var args []*sx.Term
		for _, pr := range set.Params {
			if k >= len(ps) || !types.Identical(pr.Type(), d.Fn.Signature.Params().At(k).Type()) {
				return where, "undecided: the parameters of the definition are not the parts"
			}
			assumeFlavour(start, ps[k], pr.Type(), fullV)
			args = append(args, ps[k])
			k++
		}
		var next []*sx.State
		for _, s := range states {
			for i, a := range args {
				assumeFlavour(s, a, set.Params[i].Type(), fullV)
			}
			outs, err := run(set.Fn, append([]*sx.Term{b}, args...), s)
			if err != nil {
				return undecided(err)
			}
			for _, o := range outs {
				if o.Kind == "return" {
					next = append(next, o.S)
				}
			}
		}
		states = next
	}
	var objs []sx.Outcome
	for _, s := range states {
		outs, err := run(u.Now, []*sx.Term{b}, s)
		if err != nil {
			return undecided(err)
		}
		for _, o := range outs {
			if r := classify(o, 0, b); r.Kind == "success" || r.Kind == "maybe-nil" {
				objs = append(objs, o)
			}
		}
	}
	for i, nm := range chain {
		var next []sx.Outcome
		for _, o := range objs {
			fn, err := c.P.objMethod(o.Res[0], nm)
			if err != nil {
				return undecided(err)
			}
			c.Saw(fn)
			args := []*sx.Term{o.Res[0]}
			if i == len(chain)-1 {
				where = c.P.fnWhere(fn)
				args = append(args, ps[k:]...)
				o.S = o.S.Clone()
				o.S.Trace = nil
			}
			outs, err := run(fn, args, o.S)
			if err != nil {
				return undecided(err)
			}
			next = append(next, outs...)
		}
		objs = next
	}
	if len(objs) == 0 {
		return where, "undecided: the object is never built"
	}
	c.paths += len(objs)
	spec, err := ds.run(d, d.Fn, ps, nil, start, nil)
	if err != nil {
		return undecided(err)
	}
	return where, ds.same(&side{outs: objs, recs: recs, eng: e}, spec, d.Fn.Signature.Results())
}
