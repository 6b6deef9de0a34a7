package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// where the files of a language are read, and where the failure of a handler is logged.
const (
	readsPkg = "applications/languages/lexers"
	logsPkg  = "applications/languages/parsers"
)

// packages whose functions touch nothing but their arguments.
var insidePkgs = []string{
	"errors", "strings", "strconv", "bytes", "sort", "slices", "maps", "cmp", "regexp", "math", "encoding", "crypto", "unicode", "hash",
	"path", "reflect", "container", "iter", "bufio", "io", "sync", "html", "text/template", "text/tabwriter", "text/scanner", "unique",
	"go.dedis.ch/kyber", "github.com/satori/go.uuid",
}

// functions of the other packages that touch nothing outside.
func inside(pkg, name string, recv bool) bool {
	switch pkg {
	case "fmt":
		return strings.HasPrefix(name, "S") && name != "Scan" && name != "Scanf" && name != "Scanln" || strings.HasPrefix(name, "Append") || strings.HasPrefix(name, "F") || name == "Errorf"
	case "time":
		switch name {
		case "Sleep", "After", "AfterFunc", "Tick", "NewTimer", "NewTicker", "LoadLocation":
			return recv
		}
		return true
	case "path/filepath":
		switch name {
		case "Walk", "WalkDir", "Glob", "Abs", "EvalSymlinks":
			return false
		}
		return true
	case "os":
		return strings.HasPrefix(name, "Is") || recv && name == "Error"
	case "io/ioutil":
		return name == "ReadAll" || name == "NopCloser"
	case "context":
		return name == "Background" || name == "TODO" || name == "WithValue"
	case "runtime":
		return name == "KeepAlive"
	case "sync":
		return name != "Wait"
	case "unsafe":
		return true
	}
	for _, p := range insidePkgs {
		if pkg == p || strings.HasPrefix(pkg, p+"/") {
			return true
		}
	}
	return false
}

// readsFile tells the functions that read a file.
func readsFile(pkg, name string) bool {
	switch pkg {
	case "os":
		return name == "ReadFile" || name == "Open" || name == "Close" || name == "Read" || name == "Stat"
	case "io/ioutil":
		return name == "ReadFile"
	case "io/fs":
		return name == "ReadFile"
	}
	return false
}

// testHelper tells the functions that are there for the tests only.
func (p *Program) testHelper(fn *ssa.Function) bool {
	return filepath.Base(p.SSA.Fset.Position(top(fn).Pos()).Filename) == "test_helper.go"
}

// ruleOutside: nothing but the loading of a language and the log of a failed handler touches the outside.
func ruleOutside(c *Ctx) {
	fns := append([]*ssa.Function{}, c.P.Funcs...)
	for _, r := range c.P.rels() {
		// what the package variables start with
		if f := c.P.ByRel[r].Func("init"); f != nil {
			fns = append(fns, f)
		}
	}
	for _, fn := range fns {
		if c.P.testHelper(fn) {
			continue
		}
		c.Saw(fn)
		rel := relOf(fn)
		clean := true
		bad := func(in ssa.Instruction, format string, a ...any) {
			clean = false
			pos := in.Pos()
			if !pos.IsValid() {
				pos = fn.Pos()
			}
			c.Bad("no-outside", short(fn.String()), c.P.where(pos), format, a...)
		}
		judge := func(in ssa.Instruction, f *ssa.Function, cc *ssa.CallCommon) {
			if f.Pkg == nil {
				return
			}
			if c.P.inRepo(f.Pkg.Pkg) {
				c.Check(!c.P.testHelper(f), "no-test-helper", short(fn.String())+" uses "+f.Name(), c.P.where(in.Pos()), "%s is there for the tests: it panics, and reads any file", f.Name())
				return
			}
			pkg, name := f.Pkg.Pkg.Path(), f.Name()
			recv := f.Signature.Recv() != nil
			switch {
			case name == "init" && !recv:
			case readsFile(pkg, name):
				if rel != readsPkg {
					bad(in, "%s.%s reads a file: only loading a language does", pkg, name)
					return
				}
				c.Ok("reads", fn.String())
			case pkg == "log":
				if rel != logsPkg || !strings.HasPrefix(name, "Print") {
					bad(in, "log.%s is called: only the failure of a handler is noted in the log", name)
					return
				}
				if name == "Printf" && (cc == nil || !constFormat(cc)) {
					bad(in, "a text is used as the format of a message of the log")
					return
				}
				c.Ok("logs", fn.String())
			case !inside(pkg, name, recv):
				bad(in, "%s.%s is called, which is not known to leave the outside alone", pkg, name)
			}
		}
		eachInstr(fn, func(in ssa.Instruction) {
			var callee *ssa.Value
			switch x := in.(type) {
			case *ssa.Go:
				bad(in, "something is started in the background")
			case *ssa.Select:
				bad(in, "it waits for something")
			case *ssa.Send:
				bad(in, "it waits for something")
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					bad(in, "it waits for something")
				}
			case *ssa.Panic:
				bad(in, "it panics on purpose")
			}
			if x, ok := in.(ssa.CallInstruction); ok {
				cc := x.Common()
				if !cc.IsInvoke() {
					callee = &cc.Value
					if f := cc.StaticCallee(); f != nil {
						judge(in, f, cc)
					}
				} else if pk := cc.Method.Pkg(); pk != nil && !c.P.inRepo(pk) && !inside(pk.Path(), cc.Method.Name(), true) {
					bad(in, "%s.%s is called, which is not known to leave the outside alone", pk.Path(), cc.Method.Name())
				}
				if b, ok := cc.Value.(*ssa.Builtin); ok && (b.Name() == "print" || b.Name() == "println") {
					bad(in, "it writes on the output")
				}
			}
			for _, op := range in.Operands(nil) {
				switch v := (*op).(type) {
				case *ssa.Global:
					if v.Pkg == nil || c.P.inRepo(v.Pkg.Pkg) {
						continue
					}
					switch pk := v.Pkg.Pkg.Path(); pk {
					case "os", "net", "net/http", "log", "flag", "syscall":
						if !strings.HasPrefix(v.Name(), "Err") {
							bad(in, "%s.%s is used, which belongs to the outside", pk, v.Name())
						}
					}
				case *ssa.Function:
					// a function that is not called here, but given
					if callee == nil || op != callee {
						if op0 := *op; callee == nil || op0 != *callee {
							judge(in, v, nil)
						}
					}
				}
			}
		})
		if clean {
			c.Ok("no-outside", fn.String())
		}
	}
}

// constFormat tells if the format of a message is a constant with a verb per value.
func constFormat(cc *ssa.CallCommon) bool {
	for _, a := range cc.Args {
		b, ok := a.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsString == 0 {
			continue
		}
		k, ok := a.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.String {
			return false
		}
		return true
	}
	return false
}
