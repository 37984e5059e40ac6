package main

import (
	"go/constant"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func constantStringVal(c *ssa.Const) string { return constant.StringVal(c.Value) }

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// madeUp says that a function is the compiler's own (a wrapper, an
// initialiser), not one of the source or an instance of it.
func madeUp(f *ssa.Function) bool { return f.Synthetic != "" && f.Origin() == nil }

func unquote(s string) string {
	if t, err := strconv.Unquote(s); err == nil {
		return t
	}
	return s
}
