package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sx"
)

// functions that give different results for different operands
var injective = map[string]bool{
	"strconv.Itoa": true, "strconv.FormatInt": true, "strconv.FormatUint": true, "encoding/hex.EncodeToString": true,
	"(*encoding/base64.Encoding).EncodeToString": true,
	"(time.Time).UnixNano":                       true, "(time.Time).UTC": true, "(time.Time).MarshalBinary": true,
	"(github.com/satori/go.uuid.UUID).Bytes": true, "(github.com/satori/go.uuid.UUID).String": true,
}

// halves of a time: the part is identified by one of each side
var timeHalves = map[string]string{"(time.Time).Unix": "second", "(time.Time).Nanosecond": "nanosecond"}

// timeHalf gives the part whose seconds, or whose nanoseconds, a row tells.
func (p *Program) timeHalf(t *sx.Term) (*sx.Term, string) {
	for t.Op == "convbytes" || t.Op == "convstring" || t.Op == "u64" || t.Op == "conv" || t.Op == "fmt" || t.Op == "call" && strings.HasPrefix(t.Aux, "strconv.") && injective[t.Aux] {
		t = t.Args[0]
	}
	if t.Op == "call" && timeHalves[t.Aux] != "" {
		return p.encoded(t.Args[0]), timeHalves[t.Aux]
	}
	return nil, ""
}

// methods of the repository that identify their receiver
var identifying = map[string]bool{"Bytes": true, "Hash": true, "String": true}

// encoded gives the part a row of bytes identifies, nil when it does not identify one.
func (p *Program) encoded(t *sx.Term) *sx.Term {
	switch t.Op {
	case "sym":
		return t
	case "convbytes", "convstring", "u64", "deref", "ptr", "conv", "fmt":
		return p.encoded(t.Args[0])
	case "index":
		if t.Args[0].Op == "sym" {
			return t
		}
	case "bin":
		return nil
	case "ext":
		if t.Aux == "0" {
			return p.encoded(t.Args[0])
		}
	case "call":
		name := t.Aux
		if name == "(time.Time).Format" && len(t.Args) == 2 && t.Args[1].Op == "const" && strings.Contains(t.Args[1].Aux, ".999999999") && strings.Contains(t.Args[1].Aux, "2006") {
			return p.encoded(t.Args[0])
		}
		if injective[name] {
			return p.encoded(t.Args[0])
		}
		i := strings.LastIndexByte(name, '.')
		if i > 0 && strings.Contains(name, modPath) && identifying[name[i+1:]] && len(t.Args) == 1 {
			return p.encoded(t.Args[0])
		}
	}
	return nil
}

// rowsOf splits the rows of a multi-row hash.
func rowsOf(t *sx.Term) []*sx.Term {
	switch t.Op {
	case "list":
		return t.Args
	case "concat":
		out := []*sx.Term{}
		for _, a := range t.Args {
			out = append(out, rowsOf(a)...)
		}
		return out
	}
	return []*sx.Term{t}
}

// hashBarrier keeps the functions the rule reasons about opaque.
func hashBarrier(fn *ssa.Function) bool {
	return relOf(fn) == "domain/hash"
}

// products whose hash is the one of the alternative they were built from
var delegatedHash = map[string]string{
	"domain/transactions.OriginBuilder": "an origin is its genesis unit or its transaction",
}

// parts that are not content of the object
var notHashed = map[string]string{}

func ruleHashCommits(c *Ctx) {
	for _, sp := range c.P.builderSpecs(c) {
		if sp.Product == nil || !strings.HasPrefix(sp.Rel, "domain/") {
			continue
		}
		m := ifaceMethods(sp.Product)["Hash"]
		if m == nil || !isHashType(m.Type().(*types.Signature).Results().At(0).Type()) || sp.Rel == "domain/hashtree" {
			continue
		}
		for _, cf := range sp.configs(c.Thorough) {
			if sp.expect(cf) != 1 {
				continue
			}
			cons := sp.Key + "{" + cf.String(sp) + "}"
			outs, err := c.P.build(sp.builderUnit, sp.calls(cf))
			if err != nil {
				c.Bad("hash-commits", cons, c.P.fnWhere(sp.Now), "undecided: %s", err)
				continue
			}
			for _, o := range outs {
				if o.Kind != "success" && o.Kind != "maybe-nil" {
					continue
				}
				c.paths++
				hs, fn, err := c.P.runAccessor(o.O.S, o.Obj, "", "Hash")
				if err != nil {
					c.Bad("hash-commits", cons, c.P.fnWhere(sp.Now), "undecided: %s", err)
					continue
				}
				c.Saw(fn)
				for _, h := range hs {
					if h.Kind != "return" || len(h.Res) != 1 {
						c.Bad("hash-commits", cons, c.P.fnWhere(fn), "the hash is not returned")
						continue
					}
					msg := c.hashContent(sp, cf, h.S.Freeze(h.Res[0]))
					c.Check(msg == "", "hash-commits", cons, c.P.fnWhere(sp.Now), "%s", msg)
				}
			}
		}
	}
}

func isHashType(t types.Type) bool {
	n := derefNamed(t)
	return n != nil && n.Obj().Name() == "Hash" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "domain/hash")
}

func (c *Ctx) hashContent(sp *builderSpec, cf config, h *sx.Term) string {
	want := map[*sx.Term]string{}
	for _, pt := range sp.Parts {
		if pr, _ := sp.present(pt, cf[pt]); pr && notHashed[sp.Key+"."+pt.Name] == "" {
			want[symFor(pt.setter, 0)] = pt.Name
		}
	}
	if delegatedHash[sp.Key] != "" {
		p := c.P.encoded(h)
		if p == nil || want[p] == "" {
			return "the hash is not the one of the part: " + sym(h)
		}
		return ""
	}
	t := h
	if t.Op == "deref" {
		t = t.Args[0]
	}
	if t.Op == "ext" && t.Aux == "0" {
		t = t.Args[0]
	}
	if t.Op != "call" || !strings.HasSuffix(t.Aux, "domain/hash.Adapter.FromMultiBytes") || h.Op != "deref" {
		return "the hash of the object is not computed from its rows: " + sym(h)
	}
	halves := map[*sx.Term]string{}
	for _, r := range rowsOf(t.Args[1]) {
		if part, half := c.P.timeHalf(r); part != nil {
			if before := halves[part]; before != "" && before != half {
				delete(want, part)
			}
			halves[part] = half
			continue
		}
		if r.Op == "const" || r.Op == "convbytes" && r.Args[0].Op == "const" {
			continue
		}
		if r.Op == "map1" {
			p := c.P.encoded(r.Args[1])
			if p != nil && p.Op == "index" && p.Args[1] == r.Args[2] && sx.LenOf(p.Args[0]) == r.Args[0] {
				delete(want, p.Args[0])
				continue
			}
			return "the elements of the list are not all hashed: " + sym(r)
		}
		p := c.P.encoded(r)
		if p == nil {
			return "a row does not identify one part: " + sym(r)
		}
		if p.Op != "sym" {
			return "a row holds one element of a list: " + sym(r)
		}
		delete(want, p)
	}
	if len(want) > 0 {
		names := map[string]bool{}
		for _, n := range want {
			names[n] = true
		}
		return "the hash does not depend on what was given to " + joinSorted(names)
	}
	return ""
}

// ruleHashAdapter judges the conversions of the hash package.
func ruleHashAdapter(c *Ctx) {
	const rule = "hash-conversion"
	e := func() *sx.Engine { return c.P.engine() }
	find := func(n string) *ssa.Function { return c.P.findFunc("domain/hash:" + n) }
	digest := func(t *sx.Term) *sx.Term {
		s := sx.T("convstring", "", t)
		if t.Op == "convbytes" {
			s = t.Args[0]
		}
		return sx.T("digest", "crypto/sha512.New", s)
	}
	content := func(q *oracle, o sx.Outcome) *sx.Term {
		r := o.S.Freeze(o.Res[0])
		if r.Op == "ptr" {
			return r.Args[0]
		}
		return r
	}
	fromBytes := func(in *sx.Term) func(q *oracle, o sx.Outcome) string {
		return func(q *oracle, o sx.Outcome) string {
			if f, known := outcomeFails(q, o); f || !known {
				return "hashing bytes fails"
			}
			got := content(q, o)
			if q.Is(sx.Eq(sx.LenOf(in), sx.Int(64))) {
				if got != in {
					return "64 bytes are not taken as they are: " + sym(got)
				}
				return ""
			}
			if got != digest(in) {
				return "the hash is not the one of all the bytes: " + sym(got)
			}
			return ""
		}
	}
	if fn := find("adapter.FromBytes"); fn == nil {
		c.Bad(rule, "domain/hash.Adapter.FromBytes", "", "not found")
	} else {
		ps := sx.Params(fn)
		c.specRun(e(), rule, "domain/hash.Adapter.FromBytes", fn, ps, sx.NewState(), fromBytes(ps[1]))
	}
	if fn := find("adapter.FromString"); fn == nil {
		c.Bad(rule, "domain/hash.Adapter.FromString", "", "not found")
	} else {
		ps := sx.Params(fn)
		dec := sx.T("call", "encoding/hex.DecodeString", ps[1])
		val := sx.T("ext", "0", dec)
		er := sx.T("ext", "1", dec)
		c.specRun(e(), rule, "domain/hash.Adapter.FromString", fn, ps, sx.NewState(), func(q *oracle, o sx.Outcome) string {
			if !q.Is(sx.IsNil(er)) {
				if f, _ := outcomeFails(q, o); !f {
					return "a text that is not hexadecimal is accepted"
				}
				return ""
			}
			return fromBytes(val)(q, o)
		})
	}
	if fn := find("adapter.FromMultiBytes"); fn == nil {
		c.Bad(rule, "domain/hash.Adapter.FromMultiBytes", "", "not found")
	} else {
		ps := sx.Params(fn)
		in := ps[1]
		c.specRun(e(), rule, "domain/hash.Adapter.FromMultiBytes", fn, ps, sx.NewState(), func(q *oracle, o sx.Outcome) string {
			if f, known := outcomeFails(q, o); f || !known {
				return "hashing rows fails"
			}
			got := content(q, o)
			if got.Op != "digest" {
				return "the result is not a hash: " + sym(got)
			}
			m := got.Args[0]
			if m.Op != "strmap" || m.Args[0] != sx.LenOf(in) {
				return "the rows are not all hashed, in their order: " + sym(m)
			}
			row := sx.T("index", "", in, m.Args[2])
			body := m.Args[1]
			for _, end := range []string{"big", "lit"} {
				pre := sx.T("convstring", "", sx.T("u64", end, sx.LenOf(row)))
				if body == sx.StrCat(pre, sx.T("convstring", "", row)) {
					return ""
				}
			}
			return "a row is not preceded by its length, so that different rows share a hash: " + sym(body)
		})
	}
	if fn := find("Hash.Bytes"); fn == nil {
		c.Bad(rule, "domain/hash.Hash.Bytes", "", "not found")
	} else {
		ps := sx.Params(fn)
		c.specRun(e(), rule, "domain/hash.Hash.Bytes", fn, ps, sx.NewState(), func(q *oracle, o sx.Outcome) string {
			if got := o.S.Freeze(o.Res[0]); got != ps[0] {
				return "the bytes are not those of the hash: " + sym(got)
			}
			return ""
		})
	}
	if fn := find("Hash.String"); fn == nil {
		c.Bad(rule, "domain/hash.Hash.String", "", "not found")
	} else {
		ps := sx.Params(fn)
		want := []*sx.Term{
			sx.T("fmt", "%x", ps[0]),
			sx.T("call", "encoding/hex.EncodeToString", ps[0]),
		}
		c.specRun(e(), rule, "domain/hash.Hash.String", fn, ps, sx.NewState(), func(q *oracle, o sx.Outcome) string {
			got := o.S.Freeze(o.Res[0])
			if got != want[0] && got != want[1] {
				return "the text is not the hexadecimal form of the hash: " + sym(got)
			}
			return ""
		})
	}
	if fn := find("Hash.Compare"); fn == nil {
		c.Bad(rule, "domain/hash.Hash.Compare", "", "not found")
	} else {
		ps := sx.Params(fn)
		c.specRun(e(), rule, "domain/hash.Hash.Compare", fn, ps, sx.NewState(), func(q *oracle, o sx.Outcome) string {
			same := func(l sx.Lit) (*sx.Term, bool) {
				a := l.Atom
				if a.Op != "eq" || len(a.Args) != 2 || a.Args[0].Op != "index" || a.Args[1].Op != "index" {
					return nil, false
				}
				x, y := a.Args[0], a.Args[1]
				return x.Args[1], x.Args[1] == y.Args[1] && (x.Args[0] == ps[0] && y.Args[0] == ps[1] || x.Args[0] == ps[1] && y.Args[0] == ps[0])
			}
			// two hashes differ when a byte does, and are the same when none does
			for _, l := range o.S.F.Lits {
				if _, ok := same(l); ok && !l.Val {
					q.st.F.Assume(sx.Eq(ps[0], ps[1]), false)
				}
			}
			for _, fa := range o.S.Foralls {
				all := fa.N == sx.Int(64) && len(fa.Cases) > 0
				for _, cs := range fa.Cases {
					found := false
					for _, l := range cs {
						if i, ok := same(l); ok && l.Val && i == fa.J {
							found = true
						}
					}
					all = all && found
				}
				if all {
					q.st.F.Assume(sx.Eq(ps[0], ps[1]), true)
				}
			}
			eq := q.Is(sx.Eq(ps[0], ps[1]))
			got := q.Is(o.S.Freeze(o.Res[0]))
			if eq != got {
				return "the comparison is not the equality of the hashes"
			}
			return ""
		})
	}
}
