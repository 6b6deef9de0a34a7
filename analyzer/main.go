package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"time"

	"verif/analyzer/sx"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	dump := flag.String("dump", "", "")
	prop := flag.String("property", "", "")
	verif := flag.String("verif", "/verif", "")
	tier := flag.String("tier", "quick", "")
	flag.StringVar(&debugRefine, "refine", "", "print both sides of a definition (development)")
	overlay := flag.String("overlay", "", "file=replacement, instead of the file (development)")
	flag.Parse()
	t0 := time.Now()
	if *overlay != "" {
		i := strings.IndexByte(*overlay, '=')
		b, err := os.ReadFile((*overlay)[i+1:])
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		overlays = map[string][]byte{(*overlay)[:i]: b}
	}
	if *prop != "" {
		os.Exit(check(*repo, *verif, *prop, *tier == "thorough", t0))
	}
	p, err := load(*repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	fmt.Println("loaded", len(p.Pkgs), len(p.Funcs), time.Since(t0))
	if *dump == "BUILDERS" {
		p.describeBuilders()
		return
	}
	if *dump == "WRITES" {
		p.dumpWrites()
		return
	}
	if *dump == "ALL" {
		tot := 0
		for _, fn := range p.Funcs {
			if fn.Parent() != nil {
				continue
			}
			e := p.engine()
			t1 := time.Now()
			outs, err := e.Run(fn, sx.Params(fn), sx.NewState())
			tot += len(outs)
			if err != nil {
				fmt.Println("ERR", err)
			}
			if d := time.Since(t1); d > 200*time.Millisecond || len(outs) > 500 {
				fmt.Println(fn, len(outs), d)
			}
		}
		fmt.Println(tot, time.Since(t0))
		return
	}
	if *dump != "" {
		fn := p.findFunc(*dump)
		if fn == nil {
			fmt.Println("not found")
			os.Exit(3)
		}
		e := p.engine()
		outs, err := e.Run(fn, sx.Params(fn), sx.NewState())
		if err != nil {
			fmt.Println("ERR", err)
		}
		for i, o := range outs {
			fmt.Printf("--- %d %s\n", i, o.Kind)
			for _, l := range o.S.F.Lits {
				fmt.Println("   if", l)
			}
			for _, fa := range o.S.Foralls {
				fmt.Println("   forall", fa.N, fa.Cases)
			}
			for _, r := range o.Res {
				fmt.Println("   =>", o.S.Freeze(r))
			}
			for _, ev := range o.S.Trace {
				if ev.Kind == "write" || ev.Kind == "mapwrite" {
					fmt.Println("   ", ev.Kind, ev.Addr, ev.Term, ev.Args)
				}
			}
		}
		fmt.Println(len(outs), time.Since(t0))
	}
}

var loaded *Program

// firstOnly stops at the first property that does not hold (development).
var firstOnly = os.Getenv("STEVE_VERIF_FIRST") != ""

// check runs the rules of a property.
func check(repo, verif, prop string, thorough bool, t0 time.Time) (code int) {
	if strings.Contains(prop, ",") {
		for _, x := range strings.Split(prop, ",") {
			if k := check(repo, verif, x, thorough, t0); k > code {
				code = k
			}
			if code != 0 && firstOnly {
				break
			}
		}
		return code
	}
	var pr *property
	for _, x := range properties {
		if x.ID == prop {
			pr = x
		}
	}
	fail := func(format string, a ...any) int {
		dir := filepath.Join(verif, "evidence")
		os.MkdirAll(dir, 0o755)
		rep := filepath.Join(dir, prop+".violations.json")
		msg := fmt.Sprintf(format, a...)
		os.WriteFile(rep, []byte(fmt.Sprintf("%q\n", msg)), 0o644)
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rep)
		return 1
	}
	if pr == nil {
		fmt.Println("unknown property", prop)
		return 1
	}
	defer func() {
		if r := recover(); r != nil {
			code = fail("undecided: the analysis stopped: %v\n%s", r, debug.Stack())
		}
	}()
	p, err := loaded, error(nil)
	if p == nil {
		p, err = load(repo)
		loaded = p
	}
	if err != nil {
		return fail("undecided: the code cannot be loaded: %s", err)
	}
	c := newCtx(p, prop, thorough, t0)
	pr.Run(c)
	if f := os.Getenv("VERIF_LIST_ANALYSED"); f != "" {
		c.listAnalysed(filepath.Join(f, prop))
	}
	return c.finish(verif, pr)
}
