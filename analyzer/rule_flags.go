package main

import (
	"go/constant"
	"go/types"
	"math/bits"
	"strings"
)

// The sets of flags of the base language: what a value of the set means is told by its bits,
// thus each flag must be one bit that no other flag of its set has.
var flagSets = []struct{ Rel, Names string }{
	{"domain/languages/scripts/base/parsers", "TypeUnsignedFlag TypeIntegerFlag TypeFloatFlag TypeStringFlag TypeBoolFlag"},
	{"domain/languages/scripts/base/parsers", "OpArithmetic OpAriPlus OpAriMinus OpAriMultiply OpAriDivide OpLogical OpLogAnd OpLogOr OpRelational OpRelNot OpRelEqual OpRelLessThan OpRelGreaterThan"},
}

func ruleFlags(c *Ctx) {
	for _, set := range flagSets {
		pkg := c.P.ByRel[set.Rel]
		if pkg == nil {
			c.Bad("flag", set.Rel, "", "undecided: the package is missing")
			continue
		}
		seen := map[uint64]string{}
		for _, name := range strings.Fields(set.Names) {
			k, ok := pkg.Pkg.Scope().Lookup(name).(*types.Const)
			if !ok {
				c.Bad("flag", set.Rel+"."+name, "", "undecided: the flag is missing")
				continue
			}
			where := c.P.where(k.Pos())
			v, exact := constant.Uint64Val(constant.ToInt(k.Val()))
			c.Check(exact && bits.OnesCount64(v) == 1, "flag", set.Rel+"."+name, where, "%s is not one bit: a value that has it cannot be told from the values of other flags", k.Val())
			c.Check(seen[v] == "", "flag-own", set.Rel+"."+name, where, "it is the same value as %s: the two cannot be told apart", seen[v])
			seen[v] = name
		}
	}
}
