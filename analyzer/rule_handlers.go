package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sx"
)

// ruleHandlers compares each entry of a table of functions with its definition.
func ruleHandlers(c *Ctx, prop string) {
	ds, err := c.P.definitionsOf()
	if err != nil {
		c.Bad("handler", prop, "", "undecided: %s", err)
		return
	}
	tables := map[string]*handlers{}
	for _, d := range ds.list {
		if d.Prop != prop || d.Handles == "" {
			continue
		}
		name := d.Target + " " + d.Handles
		if d.Fn == nil {
			c.Bad("handler", name, "", "undecided: its definition does not type-check: %s", strings.Join(ds.probs, "; "))
			continue
		}
		t := tables[d.Target]
		if t == nil {
			t = ds.handlersOf(d.Target)
			tables[d.Target] = t
			for f := range t.eng.Analysed {
				c.Saw(f)
			}
		}
		if t.problem != "" {
			c.Bad("handler", name, "", "undecided: %s", t.problem)
			continue
		}
		v := t.entries[d.Handles]
		fn := (*ssa.Function)(nil)
		if v != nil {
			fn = sx.FuncOf(v)
		}
		if fn == nil {
			c.Bad("handler", name, c.P.fnWhere(t.fn), "the table has no function under this name")
			continue
		}
		c.Saw(fn)
		msg := ds.sameHandler(t, v, d)
		if msg != "" && ds.anyway(func() bool { return ds.sameHandler(t, v, d) == "" }) {
			msg = ""
		}
		c.Check(msg == "", "handler", name, c.P.fnWhere(fn), "%s", msg)
	}
}

type handlers struct {
	fn      *ssa.Function
	entries map[string]*sx.Term
	state   *sx.State
	eng     *sx.Engine
	problem string
}

// handlersOf evaluates the table of functions of a package.
func (ds *definitions) handlersOf(rel string) *handlers {
	t := &handlers{eng: ds.engine(nil)}
	pkg := ds.p.ByRel[rel]
	if pkg == nil {
		t.problem = "the package is not found"
		return t
	}
	for _, list := range []bool{false, true} {
		for _, m := range sortedMembers(pkg) {
			f, ok := pkg.Members[m].(*ssa.Function)
			if !ok || f.Signature.Results().Len() != 1 || f.Signature.Params().Len() != 1 {
				continue
			}
			mp, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Map)
			if !ok {
				continue
			}
			el := mp.Elem()
			if sl, ok := el.Underlying().(*types.Slice); ok && list {
				el = sl.Elem()
			}
			if _, ok := el.Underlying().(*types.Signature); !ok {
				continue
			}
			e := ds.engine(nil)
			outs, err := e.Run(f, sx.Params(f), sx.NewState())
			if err != nil || len(outs) != 1 || outs[0].Kind != "return" {
				continue
			}
			o := outs[0]
			entries := map[string]*sx.Term{}
			content := o.S.MapContent(o.Res[0])
			ok = true
			for content.Op == "mapset" {
				k, isStr := content.Args[1].StrOf()
				if !isStr {
					ok = false
					break
				}
				v := content.Args[2]
				if v.Op == "list" && len(v.Args) == 1 {
					v = v.Args[0]
				}
				if _, dup := entries[k]; !dup {
					entries[k] = v
				}
				content = content.Args[0]
			}
			if !ok || len(entries) == 0 {
				continue
			}
			t.fn, t.entries, t.state, t.eng = f, entries, o.S, e
			return t
		}
	}
	t.problem = "no function of the package gives a table of functions"
	return t
}

func (ds *definitions) sameHandler(t *handlers, v *sx.Term, d *definition) string {
	ps := sx.Params(d.Fn)
	st := t.state.Clone()
	st.Trace = nil
	e := ds.engine(nil)
	e.Opaque = t.eng.Opaque
	// the parameter of the table is the first one of the definition
	outs, err := e.RunValue(v, ps[1:], st)
	if err != nil {
		return "undecided: " + err.Error()
	}
	a := &side{outs: outs, recs: e.Recs, eng: e}
	st = t.state.Clone()
	st.Trace = nil
	ps[0] = sx.Params(t.fn)[0]
	e2 := ds.engine(nil)
	outs2, err := e2.Run(d.Fn, ps, st)
	if err != nil {
		return "undecided: the definition: " + err.Error()
	}
	b := &side{outs: outs2, recs: e2.Recs, eng: e2}
	return ds.same(a, b, d.Fn.Signature.Results())
}

func sortedKeys(m map[string]*sx.Term) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
