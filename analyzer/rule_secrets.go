package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// secretParams: the parameters that are secrets, by package, function or method, and position.
var secretParams = map[string]int{
	"domain/cryptography:NewEncryption":               0,
	"domain/cryptography:WithPassword":                0,
	"domain/cryptography:Encrypt":                     0,
	"domain/cryptography/keys/encryption:Encrypt":     0,
	"domain/cryptography/keys/signature:ToPrivateKey": 0,
}

// secrets is the flow of the secrets through the program.
type secrets struct {
	p      *Program
	val    map[ssa.Value]string // why it is a secret
	field  map[*types.Var]string
	global map[*ssa.Global]string
	ret    map[*ssa.Function]map[int]string
	impls  map[*types.Func][]*ssa.Function
	ch     bool
}

func isNamed(t types.Type, pkg, name string) bool {
	n := derefNamed(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// tellsNothing: what is told by a value of this type is not the secret.
func tellsNothing(t types.Type) bool {
	if isErrorType(t) || isNamed(t, "go.dedis.ch/kyber/v3", "Point") || isNamed(t, "crypto/rsa", "PublicKey") || isNamed(t, modPath+"/domain/hash", "Hash") {
		return true
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()&types.IsBoolean != 0 || b.Info()&types.IsInteger != 0 && b.Kind() != types.Byte && b.Kind() != types.Rune
	}
	return false
}

func (s *secrets) mark(v ssa.Value, why string) {
	if why == "" || v == nil || tellsNothing(v.Type()) {
		return
	}
	if _, ok := s.val[v]; !ok {
		s.val[v] = why
		s.ch = true
	}
}

func fieldVar(t types.Type, i int) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i)
	}
	return nil
}

// published: what a signature is made of is public.
func published(t types.Type) bool {
	n := derefNamed(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	for _, name := range []string{"Signature", "RingSignature"} {
		o := n.Obj().Pkg().Scope().Lookup(name)
		if o == nil {
			continue
		}
		if it, ok := o.Type().Underlying().(*types.Interface); ok && types.Implements(types.NewPointer(n), it) {
			return true
		}
	}
	return false
}

// into marks what an address leads to.
func (s *secrets) into(addr ssa.Value, why string) {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		if f := fieldVar(x.X.Type(), x.Field); f != nil && !tellsNothing(f.Type()) && !published(x.X.Type()) {
			if _, ok := s.field[f]; !ok {
				s.field[f] = why
				s.ch = true
			}
		}
	case *ssa.IndexAddr:
		s.mark(x.X, why)
		s.into(x.X, why)
	case *ssa.Slice:
		s.mark(x.X, why)
		s.into(x.X, why)
	case *ssa.Global:
		if _, ok := s.global[x]; !ok {
			s.global[x] = why
			s.ch = true
		}
	case *ssa.Alloc:
		s.mark(x, why)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			s.mark(x, why)
			s.into(x.X, why)
		}
	case *ssa.Phi:
		s.mark(x, why)
	case *ssa.MakeSlice:
		s.mark(x, why)
	}
}

func (s *secrets) of(v ssa.Value) string {
	if w := s.val[v]; w != "" {
		return w
	}
	if g, ok := v.(*ssa.Global); ok {
		return s.global[g]
	}
	if tellsNothing(v.Type()) {
		return ""
	}
	if isNamed(v.Type(), "crypto/rsa", "PrivateKey") {
		return "an rsa private key"
	}
	return ""
}

func (s *secrets) callees(cc *ssa.CallCommon) []*ssa.Function {
	if f := cc.StaticCallee(); f != nil {
		if f.Pkg != nil && s.p.inRepo(f.Pkg.Pkg) {
			return []*ssa.Function{f}
		}
		return nil
	}
	if cc.IsInvoke() && cc.Method.Pkg() != nil && s.p.inRepo(cc.Method.Pkg()) {
		if l, ok := s.impls[cc.Method]; ok {
			return l
		}
		out := []*ssa.Function{}
		it, ok := cc.Value.Type().Underlying().(*types.Interface)
		if ok {
			for _, fn := range s.p.Funcs {
				r := fn.Signature.Recv()
				if r != nil && fn.Name() == cc.Method.Name() && types.Implements(r.Type(), it) {
					out = append(out, fn)
				}
			}
		}
		s.impls[cc.Method] = out
		return out
	}
	return nil
}

func (s *secrets) call(fn *ssa.Function, in ssa.CallInstruction) {
	cc := in.Common()
	args := cc.Args
	v, _ := in.(ssa.Value)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			for _, a := range args {
				s.mark(v, s.of(a))
			}
		case "copy":
			if w := s.of(args[1]); w != "" {
				s.into(args[0], w)
			}
		}
		return
	}
	all := args
	if cc.IsInvoke() {
		all = append([]ssa.Value{cc.Value}, args...)
	}
	if cs := s.callees(cc); len(cs) > 0 {
		for _, f := range cs {
			for i, a := range all {
				if i < len(f.Params) {
					s.mark(f.Params[i], s.of(a))
				}
			}
			for i, w := range s.ret[f] {
				if f.Signature.Results().Len() == 1 {
					s.mark(v, w)
					continue
				}
				if v == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && e.Index == i {
						s.mark(e, w)
					}
				}
			}
		}
		return
	}
	if f, ok := cc.Value.(*ssa.MakeClosure); ok {
		s.bind(f)
		g := f.Fn.(*ssa.Function)
		for i, a := range args {
			s.mark(g.Params[i], s.of(a))
		}
		for _, w := range s.ret[g] {
			s.mark(v, w)
		}
		return
	}
	name := cc.Value.Name()
	if cc.IsInvoke() {
		name = cc.Method.Name()
	}
	why := ""
	for _, a := range all {
		if w := s.of(a); w != "" {
			why = w
		}
	}
	switch name {
	case "Pick":
		// a scalar that is drawn is a key or a nonce
		s.mark(v, "a random scalar")
		return
	case "XORKeyStream":
		if top(fn).Name() == "Decrypt" {
			s.into(args[0], "a decrypted text")
		}
		return
	case "EncryptOAEP", "EncryptPKCS1v15", "SignPKCS1v15", "SignPSS", "Seal", "NewCipher":
		return
	case "Sub":
		// k - e * x is the public part of a signature
		if cc.IsInvoke() && isNamed(cc.Value.Type(), "go.dedis.ch/kyber/v3", "Scalar") {
			return
		}
	case "Write":
		if cc.IsInvoke() && why != "" {
			s.mark(cc.Value, why)
		}
	}
	if why == "" || v == nil {
		return
	}
	if cc.Signature().Results().Len() > 1 {
		for _, r := range *v.Referrers() {
			if e, ok := r.(*ssa.Extract); ok {
				s.mark(e, why)
			}
		}
		return
	}
	s.mark(v, why)
}

func (s *secrets) bind(mc *ssa.MakeClosure) {
	g := mc.Fn.(*ssa.Function)
	for i, b := range mc.Bindings {
		s.mark(g.FreeVars[i], s.of(b))
		if w := s.val[g.FreeVars[i]]; w != "" {
			s.into(b, w)
		}
	}
}

func (s *secrets) step(fn *ssa.Function) {
	eachInstr(fn, func(in ssa.Instruction) {
		switch x := in.(type) {
		case ssa.CallInstruction:
			s.call(fn, x)
		case *ssa.Store:
			if w := s.of(x.Val); w != "" {
				s.into(x.Addr, w)
			}
		case *ssa.MapUpdate:
			if w := s.of(x.Value); w != "" {
				s.mark(x.Map, w)
			}
		case *ssa.Return:
			for i, r := range x.Results {
				if w := s.of(r); w != "" && s.ret[fn][i] == "" {
					if s.ret[fn] == nil {
						s.ret[fn] = map[int]string{}
					}
					s.ret[fn][i] = w
					s.ch = true
				}
			}
		case *ssa.MakeClosure:
			s.bind(x)
		case *ssa.FieldAddr:
			if f := fieldVar(x.X.Type(), x.Field); f != nil {
				s.mark(x, s.field[f])
				if isNamed(x.X.Type(), "crypto/rsa", "PrivateKey") && !tellsNothing(f.Type()) {
					s.mark(x, "a part of an rsa private key")
				}
			}
		case *ssa.Field:
			if f := fieldVar(x.X.Type(), x.Field); f != nil {
				s.mark(x, s.field[f])
				if isNamed(x.X.Type(), "crypto/rsa", "PrivateKey") && !tellsNothing(f.Type()) {
					s.mark(x, "a part of an rsa private key")
				}
			}
		case *ssa.BinOp, *ssa.UnOp, *ssa.Phi, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Slice, *ssa.Index, *ssa.IndexAddr, *ssa.Lookup, *ssa.TypeAssert, *ssa.Range, *ssa.Next, *ssa.SliceToArrayPointer:
			v := in.(ssa.Value)
			for _, op := range in.Operands(nil) {
				if *op != nil {
					s.mark(v, s.of(*op))
				}
			}
		case *ssa.Extract:
			if _, ok := x.Tuple.(*ssa.Call); !ok {
				s.mark(x, s.of(x.Tuple))
			}
		}
	})
}

// sinkOf tells if a call makes a message: an error, a log, an output.
func sinkOf(cc *ssa.CallCommon) string {
	if b, ok := cc.Value.(*ssa.Builtin); ok && (b.Name() == "print" || b.Name() == "println") {
		return "an output"
	}
	f := cc.StaticCallee()
	if f == nil || f.Pkg == nil {
		return ""
	}
	switch f.Pkg.Pkg.Path() {
	case "errors":
		if f.Name() == "New" {
			return "an error"
		}
	case "fmt":
		if f.Name() == "Errorf" {
			return "an error"
		}
		if strings.HasPrefix(f.Name(), "Print") || strings.HasPrefix(f.Name(), "Fprint") {
			return "an output"
		}
	case "log":
		return "the log"
	case "os", "io/ioutil":
		if strings.HasPrefix(f.Name(), "Write") {
			return "a file"
		}
	}
	return ""
}

// ruleSecrets: no secret reaches a message, and what must be random is drawn from the cryptographic source.
func ruleSecrets(c *Ctx) {
	s := &secrets{p: c.P, val: map[ssa.Value]string{}, field: map[*types.Var]string{}, global: map[*ssa.Global]string{}, ret: map[*ssa.Function]map[int]string{}, impls: map[*types.Func][]*ssa.Function{}}
	seeds := map[string]bool{}
	for _, fn := range c.P.Funcs {
		for k, i := range secretParams {
			if relOf(fn)+":"+fn.Name() != k || fn.Parent() != nil {
				continue
			}
			if fn.Signature.Recv() != nil {
				i++
			}
			if i < len(fn.Params) {
				seeds[k] = true
				s.mark(fn.Params[i], "the "+fn.Params[i].Name()+" given to "+fn.Name())
			}
		}
		// an encoded private key
		if rel := relOf(fn); rel == "domain/cryptography/keys/encryption" && fn.Signature.Recv() != nil && strings.HasPrefix(fn.Name(), "From") && fn.Signature.Results().Len() == 2 {
			if n := derefNamed(fn.Signature.Results().At(0).Type()); n != nil && n.Obj().Name() == "PrivateKey" {
				seeds[rel+":"+fn.Name()] = true
				s.mark(fn.Params[1], "an encoded private key")
			}
		}
	}
	for s.ch = true; s.ch; {
		s.ch = false
		for _, fn := range c.P.Funcs {
			s.step(fn)
		}
	}
	for k := range secretParams {
		c.Check(seeds[k], "secret", k, "", "the secret it is given is not found: its flow cannot be followed")
	}
	for _, fn := range c.P.Funcs {
		c.Saw(fn)
		eachInstr(fn, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				if p, ok := in.(*ssa.Panic); ok && s.of(p.X) != "" {
					c.Bad("no-leak", short(fn.String()), c.P.where(in.Pos()), "%s is told by a panic", s.of(p.X))
				}
				return
			}
			cc := ci.Common()
			what := sinkOf(cc)
			if what == "" {
				return
			}
			leak := ""
			for _, a := range cc.Args {
				if w := s.of(a); w != "" {
					leak = w
				}
			}
			c.Check(leak == "", "no-leak", short(fn.String()), c.P.where(in.Pos()), "%s is told by %s", leak, what)
		})
	}
	r := &randoms{p: c.P}
	fns := append([]*ssa.Function{}, c.P.Funcs...)
	for _, rel := range c.P.rels() {
		// what the package variables start with: the group and the stream that it draws from
		if f := c.P.ByRel[rel].Func("init"); f != nil {
			fns = append(fns, f)
		}
	}
	for _, fn := range fns {
		if fn.Signature.Recv() != nil && fn.Name() == "RandomStream" {
			eachInstr(fn, func(in ssa.Instruction) {
				if ret, ok := in.(*ssa.Return); ok && len(ret.Results) > 0 {
					why := r.random(ret.Results[0], "stream", 0)
					c.Check(why == "", "random", short(fn.String()), c.P.where(in.Pos()), "what must be drawn at random does not come from the cryptographic source: %s", why)
				}
			})
		}
		eachInstr(fn, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			cc := ci.Common()
			var arg ssa.Value
			kind := ""
			if cc.IsInvoke() {
				if cc.Method.Name() == "Pick" && len(cc.Args) == 1 {
					arg, kind = cc.Args[0], "stream"
				}
				if cc.Method.Name() == "Seal" && len(cc.Args) == 4 {
					arg, kind = cc.Args[1], "bytes"
				}
			} else if f := cc.StaticCallee(); f != nil && f.Pkg != nil {
				switch f.Pkg.Pkg.Path() {
				case "crypto/rsa":
					switch f.Name() {
					case "GenerateKey", "GenerateMultiPrimeKey", "EncryptPKCS1v15", "SignPKCS1v15", "SignPSS":
						arg, kind = cc.Args[0], "reader"
					case "EncryptOAEP":
						arg, kind = cc.Args[1], "reader"
					}
				case "crypto/cipher":
					switch f.Name() {
					case "NewCFBEncrypter", "NewCTR", "NewOFB", "NewCBCEncrypter":
						arg, kind = cc.Args[1], "bytes"
					}
				default:
					if n := len(cc.Args); strings.HasPrefix(f.Pkg.Pkg.Path(), "go.dedis.ch/kyber/") && strings.HasSuffix(f.Name(), "WithRand") && n > 0 {
						if k, ok := cc.Args[n-1].(*ssa.Const); !ok || !k.IsNil() {
							arg, kind = cc.Args[n-1], "stream"
						}
					}
				}
			}
			if kind == "" {
				return
			}
			if f := top(fn); kind == "bytes" && f.Name() == "Decrypt" {
				return
			}
			why := r.random(arg, kind, 0)
			c.Check(why == "", "random", short(fn.String())+" "+cc.Value.Name(), c.P.where(in.Pos()), "what must be drawn at random does not come from the cryptographic source: %s", why)
		})
	}
}

// randoms judges where what must be random comes from.
type randoms struct{ p *Program }

func (r *randoms) random(v ssa.Value, kind string, d int) string {
	if d > 12 {
		return "its origin is too far"
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w := r.random(e, kind, d+1); w != "" {
				return w
			}
		}
		return ""
	case *ssa.MakeInterface:
		return r.random(x.X, kind, d+1)
	case *ssa.ChangeInterface:
		return r.random(x.X, kind, d+1)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		if g, ok := x.X.(*ssa.Global); ok && g.Pkg != nil {
			if g.Pkg.Pkg.Path() == "crypto/rand" && g.Name() == "Reader" {
				return ""
			}
			if r.p.inRepo(g.Pkg.Pkg) {
				// a package variable: what it is given
				n, bad := 0, ""
				for _, st := range r.p.storesTo(g) {
					n++
					if w := r.random(st, kind, d+1); w != "" {
						bad = w
					}
				}
				if n > 0 {
					return bad
				}
			}
			return "it is " + g.String()
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			n, bad := 0, ""
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
					n++
					if w := r.random(st.Val, kind, d+1); w != "" {
						bad = w
					}
				}
			}
			if n > 0 {
				return bad
			}
		}
	case *ssa.Parameter:
		fn := x.Parent()
		idx := -1
		for i, p := range fn.Params {
			if p == x {
				idx = i
			}
		}
		sites := r.p.callSites(fn)
		if len(sites) == 0 {
			return "it is given by the caller of " + fn.Name()
		}
		for _, s := range sites {
			if w := r.random(s.Args[idx], kind, d+1); w != "" {
				return w
			}
		}
		return ""
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return r.result(call, x.Index, kind, d)
		}
	case *ssa.Call:
		return r.result(x, 0, kind, d)
	case *ssa.Slice:
		if kind == "bytes" {
			return r.filled(v)
		}
	case *ssa.MakeSlice:
		if kind == "bytes" {
			return r.filled(v)
		}
	}
	return "it is " + v.String()
}

func (r *randoms) result(call *ssa.Call, i int, kind string, d int) string {
	cc := &call.Call
	if cc.IsInvoke() {
		if cc.Method.Name() == "RandomStream" {
			return ""
		}
		return "it is the result of " + cc.Method.Name()
	}
	f := cc.StaticCallee()
	if f == nil || f.Pkg == nil {
		return "it is " + call.String()
	}
	if f.Pkg.Pkg.Path() == "go.dedis.ch/kyber/v3/util/random" && f.Name() == "New" && len(cc.Args) == 1 {
		if k, ok := cc.Args[0].(*ssa.Const); ok && k.IsNil() {
			return ""
		}
		return "its stream is made of given readers"
	}
	if f.Name() == "RandomStream" && !r.p.inRepo(f.Pkg.Pkg) {
		return ""
	}
	if !r.p.inRepo(f.Pkg.Pkg) {
		return "it is the result of " + f.String()
	}
	n, bad := 0, ""
	eachInstr(f, func(in ssa.Instruction) {
		if ret, ok := in.(*ssa.Return); ok && i < len(ret.Results) {
			if k, ok := ret.Results[i].(*ssa.Const); ok && k.IsNil() && len(ret.Results) > 1 {
				return // a failure
			}
			n++
			if w := r.random(ret.Results[i], kind, d+1); w != "" {
				bad = w
			}
		}
	})
	if n == 0 {
		return "it is the result of " + f.Name()
	}
	return bad
}

func sliceRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
			continue
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				v = x.X
				continue
			}
		}
		return v
	}
}

func sameWindow(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Slice)
	y, ok2 := b.(*ssa.Slice)
	if !ok1 || !ok2 || x.X != y.X {
		return false
	}
	eq := func(p, q ssa.Value) bool {
		if p == q {
			return true
		}
		k, ok1 := p.(*ssa.Const)
		l, ok2 := q.(*ssa.Const)
		return ok1 && ok2 && k.Value != nil && l.Value != nil && k.Value.ExactString() == l.Value.ExactString()
	}
	return eq(x.Low, y.Low) && eq(x.High, y.High)
}

// filled tells if bytes are filled by the random reader before they are used.
func (r *randoms) filled(v ssa.Value) string {
	fn := v.Parent()
	root := sliceRoot(v)
	ok := false
	eachInstr(fn, func(in ssa.Instruction) {
		call, isC := in.(*ssa.Call)
		if !isC || call.Call.IsInvoke() {
			return
		}
		f := call.Call.StaticCallee()
		if f == nil || f.Pkg == nil {
			return
		}
		name := f.Pkg.Pkg.Path() + "." + f.Name()
		var dst ssa.Value
		switch name {
		case "io.ReadFull":
			if r.random(call.Call.Args[0], "reader", 0) == "" {
				dst = call.Call.Args[1]
			}
		case "crypto/rand.Read":
			dst = call.Call.Args[0]
		default:
			if r.p.inRepo(f.Pkg.Pkg) {
				for i, a := range call.Call.Args {
					if i < len(f.Params) && (a == v || sameWindow(a, v)) && r.filled(f.Params[i]) == "" {
						ok = true
					}
				}
			}
		}
		if dst != nil && sliceRoot(dst) == root && (sameWindow(dst, v) || dst == root) {
			ok = true
		}
	})
	if !ok {
		return "the bytes are not filled by the random reader"
	}
	return ""
}

// storesTo lists what a package variable is given.
func (p *Program) storesTo(g *ssa.Global) []ssa.Value {
	out := []ssa.Value{}
	for fn := range p.allOf(g.Pkg) {
		eachInstr(fn, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				out = append(out, st.Val)
			}
		})
	}
	return out
}

func (p *Program) allOf(pkg *ssa.Package) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if fn.Pkg == pkg {
			out[fn] = true
		}
	}
	if f := pkg.Func("init"); f != nil {
		out[f] = true
	}
	return out
}

// callSites lists the static calls of a function.
func (p *Program) callSites(f *ssa.Function) []*ssa.CallCommon {
	out := []*ssa.CallCommon{}
	for _, fn := range p.Funcs {
		eachInstr(fn, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
				out = append(out, ci.Common())
			}
		})
	}
	return out
}
