package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sx"
)

// class of a part of a builder
type class byte

const (
	mandatory class = 'M'
	optional  class = 'O'
	variant   class = 'V'
	flagged   class = 'F'
)

// classOverride lists the builders whose parts cannot be classified from the
// accessors of the product.
var classOverride = map[string]map[string]class{
	"applications/languages/lexers.Builder":                    {"WithReplacementPaths": optional},
	"applications/languages/parsers.ResultBuilder":             {"WithElement": variant, "WithList": variant},
	"domain/languages/lexers/asts.AdapterBuilder":              {"WithChannels": optional, "WithTokenNotFoundFunc": optional, "WithTokenReplacementFunc": optional},
	"domain/languages/lexers/asts/tokens.AdapterBuilder":       {"WithChannels": optional, "WithTokenNotFoundFunc": optional, "WithTokenReplacementFunc": optional},
	"domain/languages/lexers/asts/paths.AdapterBuilder":        {"WithTokenNotFoundFunc": optional, "WithTokenReplacementFunc": optional},
	"domain/languages/lexers/suites.ApplicationBuilder":        {"WithChannels": optional, "WithTokenNotFoundFunc": optional, "WithTokenReplacementFunc": optional},
	"domain/languages/lexers/asts/mistakes.PathBuilder":        {"WithRule": variant, "WithToken": variant},
	"domain/languages/lexers/asts/paths.DependenciesBuilder":   {"WithDependencies": optional},
	"domain/languages/lexers/asts/tokens.BlockMatchBuilder":    {"WithBlock": variant, "WithContainer": variant, "WithNextElement": variant},
	"domain/languages/lexers/asts/tokens.MatchBuilder":         {"WithLine": variant, "WithRule": variant, "WithSkip": variant, "WithToken": variant},
	"domain/languages/lexers/asts/tokens.SkipMatchBuilder":     {"WithRule": variant, "WithToken": variant},
	"domain/languages/lexers/cardinality.RangeBuilder":         {"WithMaximum": optional, "WithMinimum": optional},
	"domain/languages/scripts/base/parsers.AssignablesBuilder": {"WithAssignables": optional},
	"domain/languages/scripts/base/parsers.TypeBuilder":        {"WithDept": optional},
	"domain/languages/scripts/base/parsers.DirectionBuilder":   {"IsBreak": variant, "IsContinue": variant},
	"domain/languages/lexers/containers/rules.ContentBuilder":  {"WithConstant": optional, "WithPattern": optional},
}

// builders whose parts depend on each other: judged by their own rules
var irregular = map[string]string{
	"domain/languages/scripts/base/parsers.ValueBuilder": "the type and the element are alternatives of each other; see rule value-builder",
	"domain/peers.PeerBuilder":                           "the string replaces the host and the port; see rule peer-builder",
}

// a zero number is refused
var rejectsZero = map[string]bool{
	"domain/chains.BlockBuilder.WithHeight":                          true,
	"domain/genesis.UnitContentBuilder.WithAmount":                   true,
	"domain/transactions/secrets.SecretBuilder.WithAmount":           true,
	"domain/languages/lexers/cardinality.SpecificBuilder.WithAmount": true,
}

// an empty value is accepted
var acceptsEmpty = map[string]string{
	"domain/rings.RingBuilder.WithList":        "the length of a ring is bounded by the limits given to the builder",
	"domain/cryptography.Builder.WithPassword": "any password is accepted, an empty one too",
}

// accessors of the product that give a part back under another name
var accessorOf = map[string]string{
	"domain/languages/lexers/asts/tokens.RuleMatchBuilder.CanContainPrefix":     "CanHavePrefix",
	"domain/languages/lexers/suites.LineBuilder.IsSuccessful":                   "IsSuccess",
	"domain/languages/lexers/asts/tokens.MatchesBuilder.WithList":               "BlockMatches",
	"domain/languages/lexers/asts/tokens.TokenResultMatchesBuilder.WithResults": "All",
	"domain/cryptography/keys/encryption.Builder.WithPK":                        "Key",
	"domain/languages/lexers/cardinality.RangeBuilder.WithMaximum":              "Max",
	"domain/languages/lexers/cardinality.RangeBuilder.WithMinimum":              "Min",
	"applications/languages/parsers.ResultBuilder.WithElement":                  "First",
	"domain/languages/lexers/containers/patterns.ContainerBuilder.WithReverse":  "Reverse",
}

// the parts of these products are read through an intermediate accessor
var accessorVia = map[string]string{
	"domain/languages/lexers/asts/mistakes.PathBuilder":     "Container",
	"domain/languages/lexers/asts/tokens.BlockMatchBuilder": "Content",
	"domain/languages/lexers/asts/tokens.MatchBuilder":      "Content",
	"domain/languages/lexers/asts/tokens.SkipMatchBuilder":  "Content",
}

// parts that are not given back as they were supplied
var transformed = map[string]string{
	"domain/languages/lexers/asts/paths.DependenciesBuilder.WithDependencies": "listed once by name",
	"domain/languages/lexers/asts/results.Builder.WithMatches":                "wrapped in a list of matches, judged by the rule of the results",
	"domain/languages/lexers/containers/patterns.GroupBuilder.WithList":       "turned into an expression, judged by the rule of the patterns",
	"domain/languages/lexers/containers/patterns.SerieBuilder.WithList":       "turned into an expression, judged by the rule of the patterns",
	"domain/languages/lexers/containers/patterns.PatternBuilder.WithList":     "turned into an expression, judged by the rule of the patterns",
	"domain/languages/lexers/containers/rules.ContentBuilder.WithConstant":    "a content without a pattern is a constant, the empty one too",
}

// parts of a product that are not exposed by it
var notExposed = map[string]string{
	"applications/languages/lexers.Builder":                    "an application, its parts are its configuration",
	"applications/languages/parsers.ManagerBuilder":            "a manager, its parts are its configuration",
	"applications/languages/parsers.ResultBuilder":             "First and List are judged by the manager rules",
	"domain/cryptography.Builder":                              "the password is not exposed",
	"domain/languages/lexers/asts.AdapterBuilder":              "an adapter, its parts are its configuration",
	"domain/languages/lexers/asts/tokens.AdapterBuilder":       "an adapter, its parts are its configuration",
	"domain/languages/lexers/asts/paths.AdapterBuilder":        "an adapter, its parts are its configuration",
	"domain/languages/lexers/containers/tokens.AdapterBuilder": "an adapter, its parts are its configuration",
	"domain/languages/lexers/suites.ApplicationBuilder":        "an application, its parts are its configuration",
	"domain/hashtree.Builder":                                  "the blocks are hashed, see the hashtree rules",
}

const operationBuilder = "domain/languages/scripts/base/parsers.OperationBuilder"

type part struct {
	*setter
	Class    class
	Accessor string // accessor that gives the part back
	Has      string
	Is       string
	Via      string
}

type builderSpec struct {
	*builderUnit
	Parts    []*part
	Variants []*part
	Products []*types.Named
}

func ifaceMethods(n *types.Named) map[string]*types.Func {
	out := map[string]*types.Func{}
	if n == nil {
		return out
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return out
	}
	for i := 0; i < it.NumMethods(); i++ {
		out[it.Method(i).Name()] = it.Method(i)
	}
	return out
}

// specOf classifies the parts of a builder from the interface of what it builds.
func (p *Program) specOf(u *builderUnit) (*builderSpec, []string) {
	sp := &builderSpec{builderUnit: u}
	probs := []string{}
	acc := ifaceMethods(u.Product)
	via := accessorVia[u.Key]
	vacc := acc
	if via != "" {
		if m := acc[via]; m != nil {
			n, _ := m.Type().(*types.Signature).Results().At(0).Type().(*types.Named)
			vacc = ifaceMethods(n)
		}
	}
	hasVariant := false
	for _, s := range u.Setters {
		nm := strings.TrimPrefix(s.Name, "With")
		if strings.HasPrefix(s.Name, "With") && acc["Is"+nm] != nil {
			hasVariant = true
		}
	}
	used := map[string]bool{}
	for _, s := range u.Setters {
		nm := strings.TrimPrefix(s.Name, "With")
		pt := &part{setter: s}
		ov, isOv := classOverride[u.Key][s.Name]
		switch {
		case isOv:
			pt.Class = ov
		case len(s.Params) == 0:
			pt.Class = flagged
			if hasVariant && acc["Is"+strings.TrimPrefix(nm, "Is")] != nil {
				pt.Class = variant
			}
		case acc["Is"+nm] != nil:
			pt.Class = variant
		case acc["Has"+nm] != nil:
			pt.Class = optional
		default:
			pt.Class = mandatory
		}
		look := acc
		if pt.Class == variant && via != "" {
			look = vacc
			pt.Via = via
		}
		if a, ok := accessorOf[u.Key+"."+s.Name]; ok {
			pt.Accessor = a
		} else if look[nm] != nil && look[nm].Type().(*types.Signature).Params().Len() == 0 {
			pt.Accessor = nm
		}
		if look["Has"+nm] != nil {
			pt.Has = "Has" + nm
		}
		if pt.Accessor != "" && look["Has"+pt.Accessor] != nil {
			pt.Has = "Has" + pt.Accessor
		}
		if len(s.Params) > 0 && look["Is"+nm] != nil {
			pt.Is = "Is" + nm
		}
		used[pt.Accessor] = true
		sp.Parts = append(sp.Parts, pt)
		if pt.Class == variant {
			sp.Variants = append(sp.Variants, pt)
		}
	}
	// the accessor that has the same type as the part
	for _, pt := range sp.Parts {
		if transformed[sp.Key+"."+pt.Name] != "" {
			pt.Accessor = ""
			if sp.Key == "domain/languages/lexers/containers/rules.ContentBuilder" {
				pt.Is, pt.Accessor = "", ""
			}
			continue
		}
		if pt.Accessor != "" || len(pt.Params) != 1 {
			continue
		}
		look := acc
		if pt.Via != "" {
			look = vacc
		}
		cands := []string{}
		for _, nm := range sortedNames(look) {
			sg := look[nm].Type().(*types.Signature)
			if used[nm] || sg.Params().Len() != 0 || sg.Results().Len() != 1 || !types.Identical(sg.Results().At(0).Type(), pt.Params[0].Type()) {
				continue
			}
			cands = append(cands, nm)
		}
		if len(cands) == 1 {
			pt.Accessor = cands[0]
			if look["Has"+cands[0]] != nil {
				pt.Has = "Has" + cands[0]
			}
		} else if notExposed[u.Key] == "" && irregular[u.Key] == "" {
			probs = append(probs, fmt.Sprintf("%s.%s: no accessor gives the part back (candidates %v)", u.Key, pt.Name, cands))
		}
	}
	return sp, probs
}

// supply of a part
type supply byte

const (
	supMissing supply = '-'
	supFull    supply = '+'
	supEmpty   supply = '0'
)

type config map[*part]supply

func (c config) String(sp *builderSpec) string {
	out := []string{}
	for _, pt := range sp.Parts {
		switch c[pt] {
		case supFull:
			out = append(out, pt.Name)
		case supEmpty:
			out = append(out, pt.Name+"(empty)")
		}
	}
	return strings.Join(out, ",")
}

// emptyKind tells what an empty value is for a part: "" when there is none.
func emptyKind(pt *part) string {
	if len(pt.Params) != 1 {
		return ""
	}
	switch u := pt.Params[0].Type().Underlying().(type) {
	case *types.Slice, *types.Map:
		return "list"
	case *types.Interface, *types.Pointer, *types.Signature:
		if i, ok := u.(*types.Interface); ok && i.NumMethods() == 0 {
			return ""
		}
		return "nil"
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return "string"
		}
		if u.Info()&types.IsInteger != 0 {
			return "zero"
		}
	}
	return ""
}

// present tells if the builder must see the part as supplied; unspecified is true when the rules do not say.
func (sp *builderSpec) present(pt *part, s supply) (bool, bool) {
	key := sp.Key + "." + pt.Name
	switch s {
	case supMissing, 0:
		return false, false
	case supFull:
		return true, false
	}
	switch emptyKind(pt) {
	case "nil":
		return false, false
	case "list":
		if acceptsEmpty[key] != "" {
			return true, true
		}
		return false, false
	case "string":
		return false, false
	case "zero":
		if rejectsZero[key] {
			return false, false
		}
		return true, false
	}
	return true, true
}

// expectation: 1 must succeed, 0 must fail, -1 unspecified
func (sp *builderSpec) expect(c config) int {
	nv := 0
	for _, pt := range sp.Parts {
		pr, un := sp.present(pt, c[pt])
		if un {
			return -1
		}
		if pt.Class == mandatory && !pr {
			return 0
		}
		if pt.Class == variant && pr {
			nv++
		}
		if pt.Class == variant && c[pt] == supEmpty && emptyKind(pt) == "zero" && rejectsZero[sp.Key+"."+pt.Name] {
			return -1
		}
	}
	if len(sp.Variants) > 0 {
		if nv == 0 {
			return 0
		}
		if nv > 1 {
			return -1
		}
	}
	return 1
}

// configs enumerates the ways of supplying the parts that are analysed.
func (sp *builderSpec) configs(thorough bool) []config {
	out := []config{}
	seen := map[string]bool{}
	add := func(c config) {
		k := c.String(sp)
		if !seen[k] {
			seen[k] = true
			out = append(out, c)
		}
	}
	clone := func(c config) config {
		n := config{}
		for k, v := range c {
			n[k] = v
		}
		return n
	}
	// exhaustive when small
	limit := 7
	if thorough {
		limit = 9
	}
	if len(sp.Parts) <= limit {
		cs := []config{{}}
		for _, pt := range sp.Parts {
			next := []config{}
			for _, c := range cs {
				for _, s := range []supply{supMissing, supFull, supEmpty} {
					if s == supEmpty && emptyKind(pt) == "" {
						continue
					}
					n := clone(c)
					n[pt] = s
					next = append(next, n)
				}
			}
			cs = next
		}
		for _, c := range cs {
			add(c)
		}
		return out
	}
	vs := sp.Variants
	if len(vs) == 0 {
		vs = []*part{nil}
	}
	for _, v := range vs {
		base := config{}
		for _, pt := range sp.Parts {
			if pt.Class == mandatory || pt == v {
				base[pt] = supFull
			}
		}
		add(base)
		all := clone(base)
		for _, pt := range sp.Parts {
			if pt.Class == optional || pt.Class == flagged {
				all[pt] = supFull
			}
		}
		add(all)
		for _, b := range []config{base, all} {
			for _, pt := range sp.Parts {
				for _, s := range []supply{supMissing, supFull, supEmpty} {
					if s == supEmpty && emptyKind(pt) == "" || b[pt] == s {
						continue
					}
					if pt.Class == variant && pt != v && s == supFull {
						continue
					}
					n := clone(b)
					n[pt] = s
					add(n)
				}
			}
		}
	}
	add(config{})
	return out
}

func (sp *builderSpec) calls(c config) []call {
	out := []call{}
	for _, pt := range sp.Parts {
		switch c[pt] {
		case supFull:
			out = append(out, call{pt.setter, fullV})
		case supEmpty:
			out = append(out, call{pt.setter, emptyV})
		}
	}
	return out
}

// calleeError tells that the error returned is the one of a callee.
func calleeError(t *sx.Term) bool {
	switch t.Op {
	case "ext":
		switch t.Args[0].Op {
		case "call", "built", "dyncall":
			return true
		}
	case "call", "dyncall":
		return true
	}
	return false
}

// builders that may refuse complete parts, and the rule that says when
var validated = map[string]string{
	"domain/genesis.Builder":                            "no unit is created or activated before the genesis",
	"domain/genesis.UnitContentBuilder":                 "the activation is not before the creation",
	"domain/rings.RingBuilder":                          "the amount of hashes is within the limits",
	"domain/hashtree.Builder":                           "an empty list of blocks is refused",
	"domain/languages/lexers/containers/rules.Builder":  "duplicates are refused",
	"domain/languages/lexers/containers/tokens.Builder": "duplicates are refused",
}

func (p *Program) builderSpecs(c *Ctx) []*builderSpec {
	us, probs := p.builders()
	for _, pr := range probs {
		c.Bad("anchors", pr, "", "the interface of a builder is not implemented")
	}
	out := []*builderSpec{}
	for _, u := range us {
		sp, pp := p.specOf(u)
		for _, x := range pp {
			c.Bad("anchors", x, p.where(u.Iface.Obj().Pos()), "%s", x)
		}
		for _, fn := range []*ssa.Function{u.Create, u.Now} {
			c.Saw(fn)
		}
		for _, s := range u.Setters {
			c.Saw(s.Fn)
		}
		out = append(out, sp)
	}
	return out
}

// ruleBuilderOutcomes judges what every way of supplying the parts gives.
func ruleBuilderOutcomes(c *Ctx, wantFail, wantSuccess bool) {
	for _, sp := range c.P.builderSpecs(c) {
		if r := irregular[sp.Key]; r != "" {
			c.Except(sp.Key + ": " + r)
			continue
		}
		for _, cf := range sp.configs(c.Thorough) {
			ex := sp.expect(cf)
			if ex < 0 || ex == 0 && !wantFail || ex == 1 && !wantSuccess {
				continue
			}
			name := sp.Key + "{" + cf.String(sp) + "}"
			where := c.P.fnWhere(sp.Now)
			outs, err := c.P.build(sp.builderUnit, sp.calls(cf))
			if err != nil {
				c.Bad("builder-outcome", name, where, "undecided: %s", err)
				continue
			}
			c.paths += len(outs)
			if ex == 0 {
				bad := ""
				for _, o := range outs {
					if o.Kind != "failure" {
						bad = o.Kind
						break
					}
				}
				if len(outs) == 0 {
					bad = "no exit"
				}
				c.Check(bad == "", "incomplete-is-refused", name, where, "a part that is mandatory is missing or empty, yet an exit of Now is: %s", bad)
				continue
			}
			bad := ""
			succ := 0
			for _, o := range outs {
				switch o.Kind {
				case "success":
					succ++
				case "maybe-nil":
					succ++
				case "delegated":
					// the error and the value are those of a callee
				case "failure":
					if calleeError(o.O.Res[1]) {
						continue
					}
					if validated[sp.Key] != "" {
						c.Except(sp.Key + ": may refuse complete parts: " + validated[sp.Key])
						continue
					}
					bad = "a refusal when " + litsString(o.Lits)
				default:
					bad = o.Kind
				}
			}
			if bad == "" && succ == 0 {
				bad = "never a success"
			}
			c.Check(bad == "", "complete-is-built", name, where, "every mandatory part is supplied, yet: %s", bad)
		}
	}
}

func litsString(ls []sx.Lit) string {
	out := []string{}
	for _, l := range ls {
		out = append(out, short(l.String()))
	}
	return strings.Join(out, " and ")
}

// runAccessor evaluates an accessor on a product in a state.
func (p *Program) runAccessor(st *sx.State, obj *sx.Term, via, name string) ([]sx.Outcome, *ssa.Function, error) {
	call := func(st *sx.State, o *sx.Term, nm string) ([]sx.Outcome, *ssa.Function, error) {
		if o.Op != "new" || o.Typ == nil {
			return nil, nil, fmt.Errorf("the value %s is not an object of the package", o)
		}
		var pkg *types.Package
		if pt, ok := o.Typ.Underlying().(*types.Pointer); ok {
			if n, ok := pt.Elem().(*types.Named); ok {
				pkg = n.Obj().Pkg()
			}
		}
		fn := p.SSA.LookupMethod(o.Typ, pkg, nm)
		if fn == nil {
			return nil, nil, fmt.Errorf("%s has no method %s", o.Typ, nm)
		}
		outs, err := p.engine().Run(fn, []*sx.Term{o}, st)
		return outs, fn, err
	}
	if via == "" {
		return call(st, obj, name)
	}
	outs, _, err := call(st, obj, via)
	if err != nil {
		return nil, nil, err
	}
	res := []sx.Outcome{}
	var f *ssa.Function
	for _, o := range outs {
		if o.Kind != "return" || len(o.Res) == 0 {
			return nil, nil, fmt.Errorf("%s does not return", via)
		}
		r, fn, err := call(o.S, o.Res[0], name)
		if err != nil {
			return nil, nil, err
		}
		f = fn
		res = append(res, r...)
	}
	return res, f, nil
}

// givenBack finds the setter whose value a method of the product of a builder gives back.
func (p *Program) givenBack(builder, method string) string {
	key := builder + "." + method
	if r, ok := p.backs[key]; ok {
		return r
	}
	if p.backs == nil {
		p.backs = map[string]string{}
	}
	p.backs[key] = ""
	us, _ := p.builders()
	for _, u := range us {
		if u.Key != strings.TrimPrefix(builder, modPath+"/") {
			continue
		}
		sp, _ := p.specOf(u)
		for _, pt := range sp.Parts {
			if pt.Accessor == method && pt.Via == "" && len(pt.Params) == 1 && p.isGivenBack(sp, pt) {
				p.backs[key] = pt.Name
			}
		}
	}
	return p.backs[key]
}

func (p *Program) isGivenBack(sp *builderSpec, pt *part) bool {
	n := 0
	for _, cf := range sp.configs(false) {
		if cf[pt] != supFull || sp.expect(cf) != 1 {
			continue
		}
		outs, err := p.build(sp.builderUnit, sp.calls(cf))
		if err != nil {
			return false
		}
		for _, o := range outs {
			if o.Kind != "success" {
				continue
			}
			res, _, err := p.runAccessor(o.O.S, o.Obj, "", pt.Accessor)
			if err != nil {
				return false
			}
			for _, r := range res {
				if r.Kind != "return" || len(r.Res) != 1 || r.S.Freeze(r.Res[0]) != symFor(pt.setter, 0) {
					return false
				}
				n++
			}
		}
	}
	return n > 0
}

// ruleFidelity judges that what was supplied is what is read.
func ruleFidelity(c *Ctx) {
	for _, sp := range c.P.builderSpecs(c) {
		if r := irregular[sp.Key]; r != "" {
			c.Except(sp.Key + ": " + r)
			continue
		}
		if r := notExposed[sp.Key]; r != "" {
			c.Except(sp.Key + ": " + r)
			continue
		}
		for _, cf := range sp.configs(c.Thorough) {
			if sp.expect(cf) != 1 {
				continue
			}
			outs, err := c.P.build(sp.builderUnit, sp.calls(cf))
			if err != nil {
				c.Bad("fidelity", sp.Key+"{"+cf.String(sp)+"}", c.P.fnWhere(sp.Now), "undecided: %s", err)
				continue
			}
			for _, o := range outs {
				if o.Kind != "success" && o.Kind != "maybe-nil" {
					continue
				}
				c.paths++
				c.checkFidelity(sp, cf, o)
			}
		}
	}
}

func (c *Ctx) checkFidelity(sp *builderSpec, cf config, o built) {
	if sp.Key == operationBuilder && o.Obj.Op == "call" {
		// an operation that only contains an operation is that operation
		cons := sp.Key + "{" + cf.String(sp) + "} -> the operation of its element"
		ok := strings.HasSuffix(o.Obj.Aux, ".OperationElement.Operation") && len(o.Obj.Args) == 1 && o.Obj.Args[0].Op == "sym"
		suffix := false
		for _, pt := range sp.Parts {
			pr, _ := sp.present(pt, cf[pt])
			suffix = suffix || pr && pt.Name == "WithSuffix"
		}
		isOp := false
		for _, l := range o.Lits {
			if l.Val && l.Atom.Op == "call" && strings.HasSuffix(l.Atom.Aux, ".OperationElement.IsOperation") && l.Atom.Args[0] == o.Obj.Args[0] {
				isOp = true
			}
		}
		c.Check(ok && isOp && !suffix, "part", cons, c.P.fnWhere(sp.Now), "the operation is replaced by %s", short(o.Obj.String()))
		return
	}
	expectBool := func(pt *part, acc string, want bool) {
		cons := sp.Key + "{" + cf.String(sp) + "} -> " + acc
		outs, fn, err := c.P.runAccessor(o.O.S, o.Obj, pt.Via, acc)
		if err != nil {
			c.Bad("predicate", cons, c.P.fnWhere(sp.Now), "undecided: %s", err)
			return
		}
		c.Saw(fn)
		ok := len(outs) > 0
		got := ""
		for _, r := range outs {
			if r.Kind != "return" || len(r.Res) != 1 {
				ok = false
				got = r.Kind
				continue
			}
			v := r.S.F.Eval(r.Res[0])
			if want && v != 1 || !want && v != 0 {
				ok = false
				got = r.Res[0].String()
			}
		}
		c.Check(ok, "predicate", cons, c.P.fnWhere(fn), "should be %v, is %s", want, short(got))
	}
	for _, pt := range sp.Parts {
		pr, _ := sp.present(pt, cf[pt])
		if pt.Has != "" {
			expectBool(pt, pt.Has, pr)
		}
		if pt.Is != "" {
			expectBool(pt, pt.Is, pr)
		}
		if len(pt.Params) == 0 {
			a := pt.Accessor
			if a == "" {
				continue
			}
			expectBool(pt, a, pr)
			continue
		}
		if pt.Accessor == "" {
			continue
		}
		if !pr {
			c.checkAbsent(sp, cf, pt, o)
			continue
		}
		cons := sp.Key + "{" + cf.String(sp) + "} -> " + pt.Accessor
		outs, fn, err := c.P.runAccessor(o.O.S, o.Obj, pt.Via, pt.Accessor)
		if err != nil {
			c.Bad("part", cons, c.P.fnWhere(sp.Now), "undecided: %s", err)
			continue
		}
		c.Saw(fn)
		want := symFor(pt.setter, 0)
		ok := len(outs) > 0
		got := ""
		for _, r := range outs {
			if r.Kind != "return" || len(r.Res) < 1 {
				ok = false
				got = r.Kind
				continue
			}
			v := r.S.Freeze(r.Res[0])
			if v.Op == "ptr" {
				v = v.Args[0]
			}
			if v != want {
				if w, known := r.S.F.ConstOf(want); known && v == w {
					continue
				}
				ok = false
				got = v.String()
			}
		}
		c.Check(ok, "part", cons, c.P.fnWhere(fn), "should be the value given to %s, is %s", pt.Name, short(got))
	}
}

// checkAbsent judges what an object reports for a part that was not supplied: nothing.
func (c *Ctx) checkAbsent(sp *builderSpec, cf config, pt *part, o built) {
	if cf[pt] != supMissing {
		return
	}
	cons := sp.Key + "{" + cf.String(sp) + "} -> no " + pt.Accessor
	outs, fn, err := c.P.runAccessor(o.O.S, o.Obj, pt.Via, pt.Accessor)
	if err != nil {
		c.Bad("absent", cons, c.P.fnWhere(sp.Now), "undecided: %s", err)
		return
	}
	for _, r := range outs {
		if r.Kind != "return" || len(r.Res) < 1 {
			continue
		}
		v := r.S.Freeze(r.Res[0])
		c.Check(isZeroTerm(v), "absent", cons, c.P.fnWhere(fn), "nothing was given to %s, the object reports %s", pt.Name, short(v.String()))
	}
}

// alternatives are the predicates of the products of which the builders make exactly one hold.
func (p *Program) alternatives() map[string][]string {
	out := map[string][]string{}
	us, _ := p.builders()
	for _, u := range us {
		if irregular[u.Key] != "" {
			continue
		}
		sp, _ := p.specOf(u)
		names := []string{}
		for _, pt := range sp.Variants {
			n, nm := sp.Product, pt.Is
			if pt.Via != "" {
				n = nil
				if m := ifaceMethods(sp.Product)[pt.Via]; m != nil {
					n, _ = m.Type().(*types.Signature).Results().At(0).Type().(*types.Named)
				}
			}
			if nm == "" && len(pt.Params) == 0 {
				nm = pt.Accessor
			}
			if n == nil || nm == "" {
				names = nil
				break
			}
			names = append(names, types.TypeString(n, nil)+"."+nm)
		}
		if len(names) < 2 || out[names[0]] != nil {
			continue
		}
		for _, n := range names {
			out[n] = names
		}
	}
	return out
}
