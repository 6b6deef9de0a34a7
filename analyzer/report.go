package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is a construct that breaks a rule.
type Finding struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Detail    string `json:"detail"`
	Where     string `json:"where"`
}

func (f Finding) key() string { return f.Rule + "|" + f.Construct }

// Ctx collects the obligations of a property.
type Ctx struct {
	P        *Program
	Prop     string
	Thorough bool
	t0       time.Time

	Findings   []Finding
	byRule     map[string][2]int // obligations, discharged
	analysed   map[string]bool
	samples    map[string][]string
	exceptions []string
	paths      int

	only   map[string]bool // when set, the packages whose constructs are judged
	prefix string          // put before the names of the rules
}

// of tells the package of a construct.
func of(construct string) string {
	x := strings.TrimLeft(short(construct), "(*")
	if i := strings.IndexByte(x, '.'); i >= 0 {
		x = x[:i]
	}
	return x
}

func (c *Ctx) skips(construct string) bool { return c.only != nil && !c.only[of(construct)] }

func newCtx(p *Program, prop string, thorough bool, t0 time.Time) *Ctx {
	return &Ctx{P: p, Prop: prop, Thorough: thorough, t0: t0, byRule: map[string][2]int{}, analysed: map[string]bool{}, samples: map[string][]string{}}
}

// Ok records a discharged obligation.
func (c *Ctx) Ok(rule, construct string) {
	if c.skips(construct) {
		return
	}
	rule = c.prefix + rule
	n := c.byRule[rule]
	c.byRule[rule] = [2]int{n[0] + 1, n[1] + 1}
	if len(c.samples[rule]) < 4 {
		c.samples[rule] = append(c.samples[rule], construct)
	}
}

// Bad records a broken obligation.
func (c *Ctx) Bad(rule, construct, where, format string, a ...any) {
	if c.skips(construct) {
		return
	}
	rule = c.prefix + rule
	n := c.byRule[rule]
	c.byRule[rule] = [2]int{n[0] + 1, n[1]}
	c.Findings = append(c.Findings, Finding{rule, construct, fmt.Sprintf(format, a...), where})
}

// Check records an obligation.
func (c *Ctx) Check(ok bool, rule, construct, where, format string, a ...any) bool {
	if ok {
		c.Ok(rule, construct)
	} else {
		c.Bad(rule, construct, where, format, a...)
	}
	return ok
}

// Min requires that a rule saw at least n instances.
func (c *Ctx) Min(rule string, n int) {
	if got := c.byRule[rule][0]; got < n {
		c.Bad(rule, "instances of the rule", "", "the rule found %d constructs to judge, at least %d were expected: it no longer sees the code it is about", got, n)
	}
}

// Saw notes an analysed function.
func (c *Ctx) Saw(fn *ssa.Function) {
	if fn != nil && !c.skips(fn.String()) {
		c.analysed[fn.String()] = true
	}
}

// listAnalysed writes the functions that were judged (development).
func (c *Ctx) listAnalysed(file string) {
	l := []string{}
	for k := range c.analysed {
		l = append(l, k)
	}
	sort.Strings(l)
	os.WriteFile(file, []byte(strings.Join(l, "\n")+"\n"), 0o644)
}

// Except notes an exception that was applied.
func (c *Ctx) Except(s string) {
	for _, e := range c.exceptions {
		if e == s {
			return
		}
	}
	c.exceptions = append(c.exceptions, s)
}

func (p *Program) where(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	ps := p.SSA.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func (p *Program) fnWhere(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	return p.where(fn.Pos())
}

func short(s string) string { return strings.ReplaceAll(s, modPath+"/", "") }

// known reads the known findings: lines "known: property=ID key=<rule|construct> what".
func readKnown(file string) map[string]map[string]string {
	out := map[string]map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.Index(l, " key=")
		if i < 0 {
			continue
		}
		prop := l[:i]
		rest := l[i+5:]
		j := strings.Index(rest, " :: ")
		if j < 0 {
			continue
		}
		if out[prop] == nil {
			out[prop] = map[string]string{}
		}
		out[prop][rest[:j]] = rest[j+4:]
	}
	return out
}

// finish prints the report, writes the evidence and gives the exit code.
func (c *Ctx) finish(verif string, pr *property) int {
	known := readKnown(filepath.Join(verif, "known-findings.txt"))[c.Prop]
	sort.SliceStable(c.Findings, func(i, j int) bool { return c.Findings[i].key() < c.Findings[j].key() })
	var bad []Finding
	var kn []Finding
	seen := map[string]bool{}
	for _, f := range c.Findings {
		if seen[f.key()+f.Detail] {
			continue
		}
		seen[f.key()+f.Detail] = true
		if _, ok := known[f.key()]; ok {
			kn = append(kn, f)
			continue
		}
		bad = append(bad, f)
	}
	ob, di := 0, 0
	rules := map[string]any{}
	for _, r := range sortedK(c.byRule) {
		n := c.byRule[r]
		ob += n[0]
		di += n[1]
		rules[r] = map[string]any{"obligations": n[0], "discharged": n[1], "samples": c.samples[r]}
	}
	fns := []string{}
	for f := range c.analysed {
		fns = append(fns, short(f))
	}
	sort.Strings(fns)
	sample := fns
	if len(sample) > 25 {
		sample = sample[:25]
	}
	tier := "quick"
	if c.Thorough {
		tier = "thorough"
	}
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	kl := []string{}
	for _, f := range kn {
		kl = append(kl, f.key())
	}
	ev := map[string]any{
		"property": c.Prop,
		"tier":     tier,
		"seed":     seed,
		"level":    pr.Level,
		"coverage": map[string]any{
			"explanation":         pr.Explain,
			"packages_loaded":     len(c.P.Pkgs),
			"functions_loaded":    len(c.P.Funcs),
			"functions_analysed":  len(fns),
			"functions_sample":    sample,
			"exits_analysed":      c.paths,
			"obligations":         ob,
			"discharged":          di,
			"rules":               rules,
			"exceptions_applied":  c.exceptions,
			"known_findings_seen": kl,
		},
		"assumptions": append([]string{
			"the SSA form built by golang.org/x/tools/go/ssa reflects the compiled code",
			"an interface value of the repository is implemented by a type of the repository",
		}, pr.Assume...),
		"wall_s":     time.Since(c.t0).Seconds(),
		"violations": len(bad),
	}
	if pr.Level == "proof" {
		cov := ev["coverage"].(map[string]any)
		cov["checker_cmd"] = "/verif/check " + c.Prop
		cov["trusted_base"] = []string{"go/types", "golang.org/x/tools/go/ssa", "/verif/analyzer"}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write the evidence:", err)
		return 1
	}
	for _, f := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s (%s)\n", c.Prop, f.Construct, known[f.key()], f.Where)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions analysed, %.2fs\n", c.Prop, ob, di, len(fns), time.Since(c.t0).Seconds())
	if len(bad) == 0 {
		return 0
	}
	rep := filepath.Join(dir, c.Prop+".violations.json")
	b, _ = json.MarshalIndent(bad, "", " ")
	os.WriteFile(rep, append(b, '\n'), 0o644)
	for i, f := range bad {
		if i >= 25 {
			fmt.Printf("  … and %d more\n", len(bad)-i)
			break
		}
		fmt.Printf("  [%s] %s (%s): %s\n", f.Rule, f.Construct, f.Where, f.Detail)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, rep)
	return 1
}

func sortedK[V any](m map[string]V) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
