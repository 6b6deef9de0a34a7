package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sx"
)

// gElem is an element of an alternative of a token.
type gElem struct {
	name, card string
	specs      []gElem
	channel    bool // a switch of the channels
}

func (e gElem) String() string {
	if e.channel {
		return "#"
	}
	s := e.name + e.card
	if len(e.specs) > 0 {
		l := []string{}
		for _, x := range e.specs {
			l = append(l, x.String())
		}
		s += " -> " + strings.Join(l, " ") + " <-"
	}
	return s
}

func (e gElem) optional() bool {
	return strings.HasPrefix(e.card, "{0,")
}

type gToken struct {
	alts, nots [][]gElem
	line       int
}

func altText(a []gElem) string {
	l := []string{}
	for _, e := range a {
		l = append(l, e.String())
	}
	return strings.Join(l, " ")
}

// grammar is a language as its resource files write it.
type grammar struct {
	dir      string
	tokens   map[string]*gToken
	channels map[string]*gToken
	rules    map[string]string // the constant between its quotes, or [patterns]card
	patterns map[string]string
	groups   map[string]string
	problems []string
}

func (g *grammar) bad(f string, a ...any) { g.problems = append(g.problems, fmt.Sprintf(f, a...)) }

var (
	gCard   = regexp.MustCompile(`^([A-Za-z_]+)(\?|\+|\*|\{[0-9 ]+\}|\{[0-9 ]+,[0-9 ]*\})?$`)
	gTestNd = regexp.MustCompile(`###\s*;`)
	gRule   = regexp.MustCompile(`(?s)^\s*(\w+)\s*:\s*("(?:[^"\\]|\\.)*"|\[[^\]]*\][^;]*)\s*;`)
	gGroup  = regexp.MustCompile(`(?s)^\s*\$(\w+)\s*:\s*("(?:[^"\\]|\\.)*")\s*;`)
	gSerie  = regexp.MustCompile(`(?s)^\s*(\w+)\s*:\s*([@$\w\s]+?)\s*;`)
	gHead   = regexp.MustCompile(`^\s*(\w+)\s*:`)
)

func normCard(s string) string {
	s = strings.ReplaceAll(s, " ", "")
	switch s {
	case "":
		return ""
	case "?":
		return "{0,1}"
	case "*":
		return "{0,}"
	case "+":
		return "{1,}"
	case "{1}", "{1,1}":
		return "{1}"
	}
	return s
}

func (g *grammar) elems(owner, s string) []gElem {
	out := []gElem{}
	s = strings.ReplaceAll(s, "#", " # ")
	s = strings.ReplaceAll(s, "->", " -> ")
	s = strings.ReplaceAll(s, "<-", " <- ")
	in := false
	for _, f := range strings.Fields(s) {
		switch f {
		case "#":
			out = append(out, gElem{channel: true})
			continue
		case "->":
			if in || len(out) == 0 {
				g.bad("%s: specifiers that belong to no element", owner)
			}
			in = true
			continue
		case "<-":
			if !in {
				g.bad("%s: specifiers that end before they begin", owner)
			}
			in = false
			continue
		}
		m := gCard.FindStringSubmatch(f)
		if m == nil {
			g.bad("%s: %q is not an element", owner, f)
			continue
		}
		e := gElem{name: m[1], card: normCard(m[2])}
		if in && len(out) > 0 {
			out[len(out)-1].specs = append(out[len(out)-1].specs, e)
			continue
		}
		out = append(out, e)
	}
	if in {
		g.bad("%s: specifiers that do not end", owner)
	}
	return out
}

func (g *grammar) readTokens(file string) map[string]*gToken {
	out := map[string]*gToken{}
	raw, err := os.ReadFile(filepath.Join(g.dir, file))
	if err != nil {
		g.bad("%s: %s", file, err)
		return out
	}
	s, line := string(raw), 1
	skip := func(n int) { line += strings.Count(s[:n], "\n"); s = s[n:] }
	for strings.TrimSpace(s) != "" {
		m := gHead.FindStringSubmatchIndex(s)
		if m == nil {
			g.bad("%s:%d: not a token", file, line)
			return out
		}
		name := s[m[2]:m[3]]
		line += strings.Count(s[:m[2]], "\n")
		s = s[m[2]:]
		t := &gToken{line: line}
		skip(strings.Index(s, ":") + 1)
		end := strings.Index(s, ";")
		suite := strings.Index(s, "+++")
		if end < 0 {
			g.bad("%s:%d: %s does not end", file, line, name)
			return out
		}
		block := s[:end]
		if suite >= 0 && suite < end {
			block = s[:suite]
			nd := gTestNd.FindStringIndex(s)
			if nd == nil {
				g.bad("%s:%d: the tests of %s do not end", file, line, name)
				return out
			}
			skip(nd[1])
		} else {
			skip(end + 1)
		}
		parts := strings.Split(block, "---")
		if len(parts) > 2 {
			g.bad("%s:%d: %s has several exclusions", file, t.line, name)
		}
		for i, p := range parts {
			for _, l := range strings.Split(p, "|") {
				a := g.elems(name, l)
				if i == 0 {
					t.alts = append(t.alts, a)
				} else {
					t.nots = append(t.nots, a)
				}
			}
		}
		if _, dup := out[name]; dup {
			g.bad("%s:%d: %s is defined twice", file, t.line, name)
		}
		out[name] = t
	}
	return out
}

func (g *grammar) readFlat(file string, res map[string]*regexp.Regexp, into map[string]map[string]string) {
	raw, err := os.ReadFile(filepath.Join(g.dir, file))
	if err != nil {
		g.bad("%s: %s", file, err)
		return
	}
	s := string(raw)
	for strings.TrimSpace(s) != "" {
		found := false
		for k, re := range res {
			m := re.FindStringSubmatch(s)
			if m == nil {
				continue
			}
			if _, dup := into[k][m[1]]; dup {
				g.bad("%s: %s is defined twice", file, m[1])
			}
			v := m[2]
			if !strings.HasPrefix(v, `"`) {
				if i := strings.Index(v, "]"); i >= 0 {
					v = strings.Join(strings.Fields(v[:i+1]), " ") + normCard(strings.TrimSpace(v[i+1:]))
				} else {
					v = strings.Join(strings.Fields(v), " ")
				}
			}
			into[k][m[1]] = v
			s, found = s[len(m[0]):], true
			break
		}
		if !found {
			g.bad("%s: not a definition: %.40q", file, strings.TrimSpace(s))
			return
		}
	}
}

func readGrammar(dir string) *grammar {
	g := &grammar{dir: dir, rules: map[string]string{}, patterns: map[string]string{}, groups: map[string]string{}}
	g.tokens = g.readTokens("tokens.alex")
	g.channels = g.readTokens("channels.alex")
	g.readFlat("rules.alex", map[string]*regexp.Regexp{"r": gRule}, map[string]map[string]string{"r": g.rules})
	g.readFlat("patterns.alex", map[string]*regexp.Regexp{"g": gGroup, "p": gSerie}, map[string]map[string]string{"g": g.groups, "p": g.patterns})
	return g
}

func upper(s string) bool { return s == strings.ToUpper(s) }

// lines writes what the root and the channels of a language can reach, one fact per line.
func (g *grammar) lines(root string, bad func(owner, f string, a ...any)) map[string]string {
	out := map[string]string{}
	var token func(kind, name string, t *gToken)
	pattern := func(owner, p string) {
		if v, ok := g.patterns[p]; ok {
			out["pattern "+p] = v
			for _, w := range strings.Fields(v) {
				w = strings.TrimPrefix(w, "@")
				if !strings.HasPrefix(w, "$") {
					if _, ok := g.patterns[w]; !ok {
						bad(owner, "the pattern %s names %s, which is no pattern", p, w)
					}
					out["pattern "+w] = g.patterns[w]
					for _, x := range strings.Fields(g.patterns[w]) {
						x = strings.TrimPrefix(x, "@")
						if strings.HasPrefix(x, "$") {
							if _, ok := g.groups[x[1:]]; !ok {
								bad(owner, "the pattern %s names the group %s, which is not defined", w, x)
							}
							out["group "+x[1:]] = g.groups[x[1:]]
						}
					}
					continue
				}
				if _, ok := g.groups[w[1:]]; !ok {
					bad(owner, "the pattern %s names the group %s, which is not defined", p, w)
				}
				out["group "+w[1:]] = g.groups[w[1:]]
			}
			return
		}
		bad(owner, "the pattern %s is not defined", p)
	}
	var elem func(owner string, e gElem)
	elem = func(owner string, e gElem) {
		if e.channel {
			return
		}
		for _, s := range e.specs {
			elem(owner, s)
		}
		if upper(e.name) {
			v, ok := g.rules[e.name]
			if !ok {
				bad(owner, "it is made of %s, which is no rule", e.name)
				return
			}
			out["rule "+e.name] = v
			if strings.HasPrefix(v, "[") {
				for _, p := range strings.Fields(v[1:strings.Index(v, "]")]) {
					pattern("rule "+e.name, p)
				}
			}
			return
		}
		t, ok := g.tokens[e.name]
		if !ok {
			bad(owner, "it is made of %s, which is no token", e.name)
			return
		}
		token("token", e.name, t)
	}
	token = func(kind, name string, t *gToken) {
		k := kind + " " + name
		if _, ok := out[k]; ok {
			return
		}
		l := []string{}
		for _, a := range t.alts {
			l = append(l, altText(a))
		}
		s := strings.Join(l, " | ")
		for i, a := range t.nots {
			s += map[bool]string{true: " --- ", false: " | "}[i == 0] + altText(a)
		}
		out[k] = s
		for _, a := range append(append([][]gElem{}, t.alts...), t.nots...) {
			if len(a) == 0 {
				bad(k, "it has an empty alternative")
			}
			sw := 0
			for _, e := range a {
				if e.channel {
					sw++
				}
				elem(k, e)
			}
		}
	}
	if t, ok := g.tokens[root]; ok {
		token("token", root, t)
	} else {
		bad("token "+root, "it is not defined")
	}
	for _, n := range sx.SortedKeys(g.channels) {
		token("channel", n, g.channels[n])
	}
	return out
}

const baseDir = "domain/languages/scripts/resources/base"

// ruleGrammar compares the grammar of the base language with its definition.
func ruleGrammar(c *Ctx) {
	g := readGrammar(filepath.Join(c.P.Dir, baseDir))
	for _, p := range g.problems {
		c.Bad("grammar", "base", baseDir, "%s", p)
	}
	found := map[string]bool{}
	have := g.lines("program", func(owner, f string, a ...any) {
		m := fmt.Sprintf(f, a...)
		if !found[owner+m] {
			found[owner+m] = true
			c.Bad("grammar-name", owner, baseDir, "%s", m)
		}
	})
	want := map[string]string{}
	raw, err := specFiles.ReadFile("specs/base.grammar")
	if err != nil {
		c.Bad("grammar", "definition", "", "undecided: %s", err)
		return
	}
	for _, l := range strings.Split(string(raw), "\n") {
		if i := strings.Index(l, " := "); i > 0 && !strings.HasPrefix(l, "//") {
			v := l[i+4:]
			v = strings.NewReplacer(`\t`, "\t", `\n`, "\n").Replace(v)
			want[l[:i]] = v
		}
	}
	for _, k := range sx.SortedKeys(want) {
		v, ok := have[k]
		switch {
		case !ok:
			c.Bad("grammar-definition", k, baseDir, "the language has no such construct, it must be: %s", want[k])
		default:
			c.Check(v == want[k], "grammar-definition", k, g.where(k), "it is %s, it must be: %s", v, want[k])
		}
	}
	for _, k := range sx.SortedKeys(have) {
		if _, ok := want[k]; !ok {
			c.Bad("grammar-definition", k, g.where(k), "the language gives a construct that its definition does not have: %s", have[k])
		}
	}
}

func (g *grammar) where(k string) string {
	f := strings.SplitN(k, " ", 2)
	switch f[0] {
	case "token":
		if t := g.tokens[f[1]]; t != nil {
			return fmt.Sprintf("%s/tokens.alex:%d", baseDir, t.line)
		}
	case "channel":
		if t := g.channels[f[1]]; t != nil {
			return fmt.Sprintf("%s/channels.alex:%d", baseDir, t.line)
		}
	case "rule":
		return baseDir + "/rules.alex"
	}
	return baseDir + "/patterns.alex"
}

// ruleReads judges each handler against the alternatives of its construct.
func ruleReads(c *Ctx, rel string) {
	g := readGrammar(filepath.Join(c.P.Dir, baseDir))
	ds, err := c.P.definitionsOf()
	if err != nil {
		c.Bad("handler-reads", rel, "", "undecided: %s", err)
		return
	}
	t := ds.handlersOf(rel)
	if t.problem != "" {
		c.Bad("handler-reads", rel, "", "undecided: %s", t.problem)
		return
	}
	c.Saw(t.fn)
	hs := map[string]*readOf{}
	for _, k := range sortedKeys(t.entries) {
		fn := sx.FuncOf(t.entries[k])
		if fn == nil {
			c.Bad("handler-reads", k, c.P.fnWhere(t.fn), "undecided: the entry is no function")
			continue
		}
		c.Saw(fn)
		h := ds.reads(t, t.entries[k], fn)
		hs[k] = h
		if h.problem != "" {
			c.Bad("handler-reads", k, c.P.fnWhere(fn), "undecided: %s", h.problem)
		}
	}
	facts := g.lines("program", func(string, string, ...any) {})
	for _, k := range sx.SortedKeys(facts) {
		if !strings.HasPrefix(k, "token ") {
			continue
		}
		name := k[6:]
		h := hs[name]
		for i, a := range g.tokens[name].alts {
			key := fmt.Sprintf("%s.%d", name, i)
			if h == nil {
				// whoever triggers it is judged below
				continue
			}
			if h.problem != "" {
				continue
			}
			m := h.judge(a)
			c.Check(m == "", "handler-reads", key, c.P.fnWhere(h.fn), "the construct %s: %s", altText(a), m)
		}
	}
	// what is given for a name is what is expected of it
	for _, k := range sx.SortedKeys(hs) {
		h := hs[k]
		for _, u := range h.uses {
			key := k + " " + u.name + " " + shortType(u.typ)
			if upper(u.name) {
				_, isRule := g.rules[u.name]
				c.Check(isRule, "handler-type", key, c.P.where(u.pos), "there is no rule %s", u.name)
				b, isB := u.typ.(*types.Basic)
				c.Check(isB && b.Kind() == types.String, "handler-type", key, c.P.where(u.pos), "the text of %s is used as %s", u.name, shortType(u.typ))
				continue
			}
			if hs[u.name] == nil {
				c.Bad("handler-type", key, c.P.where(u.pos), "nothing executes %s", u.name)
				continue
			}
			given := map[string]types.Type{}
			unknown := gives(hs, u.name, given, map[string]bool{})
			if unknown != "" {
				c.Bad("handler-type", key, c.P.where(u.pos), "undecided: what %s gives: %s", u.name, unknown)
				continue
			}
			m := ""
			for _, n := range sx.SortedKeys(given) {
				if !types.AssignableTo(given[n], u.typ) {
					m = fmt.Sprintf("%s gives %s, it is used as %s", u.name, shortType(given[n]), shortType(u.typ))
				}
			}
			c.Check(m == "", "handler-type", key, c.P.where(u.pos), "%s", m)
		}
	}
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return "" })
}

type useOf struct {
	name string
	typ  types.Type
	pos  token.Pos
}

type pathOf struct {
	exists    map[string]bool
	triggered map[string]bool
	fetched   map[string]bool
}

type readOf struct {
	fn      *ssa.Function
	problem string
	paths   []pathOf // those that succeed
	uses    []useOf
	gives   map[string]types.Type
	alias   map[string]bool
	unknown string
}

// gives collects the types that executing a name can give.
func gives(hs map[string]*readOf, name string, out map[string]types.Type, seen map[string]bool) string {
	if seen[name] {
		return ""
	}
	seen[name] = true
	if upper(name) {
		out["string"] = types.Typ[types.String]
		return ""
	}
	h := hs[name]
	if h == nil {
		return "nothing executes " + name
	}
	if h.unknown != "" {
		return h.unknown
	}
	for k, v := range h.gives {
		out[k] = v
	}
	for k := range h.alias {
		if m := gives(hs, k, out, seen); m != "" {
			return m
		}
	}
	return ""
}

// triggerOf finds the name whose execution gave a value, or an element of it.
func triggerOf(t *sx.Term) string {
	for t != nil && len(t.Args) > 0 {
		switch {
		case t.Op == "call" && strings.HasSuffix(t.Aux, "Manager.Trigger"):
			for _, a := range t.Args {
				if s, ok := a.StrOf(); ok {
					return s
				}
			}
			return ""
		case t.Op == "call" && (strings.HasSuffix(t.Aux, "parsers.Result.First") || strings.HasSuffix(t.Aux, "parsers.Result.List")):
		case t.Op == "index" || t.Op == "ext":
		default:
			return ""
		}
		t = t.Args[0]
	}
	return ""
}

func (ds *definitions) reads(t *handlers, v *sx.Term, fn *ssa.Function) *readOf {
	h := &readOf{fn: fn, gives: map[string]types.Type{}, alias: map[string]bool{}}
	st := t.state.Clone()
	st.Trace = nil
	e := ds.engine(nil)
	e.Opaque = t.eng.Opaque
	e.Boxes = true
	outs, err := e.RunValue(v, sx.Params(fn), st)
	if err != nil {
		h.problem = err.Error()
		return h
	}
	seen := map[string]bool{}
	events := func(tr []sx.Event, p *pathOf) {
		for _, ev := range tr {
			switch {
			case ev.Kind == "call" && (strings.HasSuffix(ev.Callee, "Manager.Trigger") || strings.HasSuffix(ev.Callee, "Nodes.Fetch") || strings.HasSuffix(ev.Callee, "Nodes.Scan")):
				n := ""
				for _, a := range ev.Args {
					if s, ok := a.StrOf(); ok {
						n = s
					}
				}
				if n == "" {
					h.problem = "a name that is not a constant is read"
					continue
				}
				if p != nil {
					p.triggered[n] = true
				}
			case ev.Kind == "assert":
				n := triggerOf(ev.Term)
				if n == "" {
					continue
				}
				ta, ok := ev.Instr.(*ssa.TypeAssert)
				if !ok {
					continue
				}
				k := n + " " + ta.AssertedType.String()
				if !seen[k] {
					seen[k] = true
					h.uses = append(h.uses, useOf{n, ta.AssertedType, ev.Pos})
				}
			}
		}
	}
	for _, r := range e.Recs {
		for _, cc := range r.Conts {
			events(cc.Effects, nil)
		}
	}
	for _, o := range outs {
		if o.Kind != "return" || len(o.Res) != 2 {
			continue
		}
		p := pathOf{exists: map[string]bool{}, triggered: map[string]bool{}}
		events(o.S.Trace, &p)
		if o.S.F.Eval(sx.IsNil(o.Res[1])) == 0 {
			continue
		}
		for _, l := range o.S.F.Lits {
			if l.Atom.Op == "call" && strings.HasSuffix(l.Atom.Aux, "Nodes.Exists") {
				if s, ok := l.Atom.Args[len(l.Atom.Args)-1].StrOf(); ok {
					p.exists[s] = l.Val
				}
			}
		}
		h.paths = append(h.paths, p)
		r := o.Res[0]
		var ty types.Type
		for _, ev := range o.S.Trace {
			if ev.Kind == "box" && ev.Term == r {
				ty = ev.Typ
			}
		}
		switch n := triggerOf(r); {
		case n != "" && (ty == nil || strings.HasSuffix(ty.String(), "parsers.Result")):
			h.alias[n] = true
		case ty != nil:
			h.gives[ty.String()] = ty
		default:
			h.unknown = fmt.Sprintf("%s: %s", r.Op, r)
		}
	}
	return h
}

// judge tells whether an alternative is read: all that it gives and nothing else.
func (h *readOf) judge(a []gElem) string {
	given := map[string]bool{} // true when it may be absent
	for _, e := range a {
		if e.channel {
			continue
		}
		if opt, ok := given[e.name]; !ok || opt {
			given[e.name] = e.optional()
		}
	}
	ok := false
	msg := ""
	for _, p := range h.paths {
		fits := true
		for n, v := range p.exists {
			opt, in := given[n]
			if v && !in || !v && in && !opt {
				fits = false
			}
		}
		if !fits {
			continue
		}
		ok = true
		names := []string{}
		for n := range p.triggered {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			opt, in := given[n]
			if !in {
				msg = fmt.Sprintf("its handler reads %s, which this construct does not have", n)
			} else if opt && !p.exists[n] {
				msg = fmt.Sprintf("its handler reads %s, which may be absent, without asking whether it is there", n)
			}
		}
		for _, e := range a {
			if e.channel || upper(e.name) {
				continue
			}
			if v, known := p.exists[e.name]; given[e.name] && known && !v {
				continue
			}
			if !p.triggered[e.name] {
				msg = fmt.Sprintf("its handler leaves %s out", e.name)
			}
		}
	}
	if !ok {
		return "its handler never succeeds on it"
	}
	return msg
}
