package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is an interned abstract value.
//
//	const  a constant (s = exact text)          nil    the nil value
//	sym    an unknown value named by where it was made (s = id)
//	cell   the address of a fresh allocation (s = id)
//	glob   the address of a package variable
//	fld    the address of a field (args[0] = base address, s = field name)
//	ment   a map entry (args = map, key)        idx    an element address
//	absent a map entry that is not there
//	sel    a field of a struct value            struct a struct value
//	mki    a concrete value inside an interface (s = dynamic type)
//	ta/tok a type assertion's value / success bit
//	eq/bin/not/un/conv/len ... pure operations
//	fn/clo function values                      tuple  multiple results
//	as/asv errors.As success bit / value        is     errors.Is
//	wrap   fmt.Errorf("%w") around args[0]
type Term struct {
	op    string
	s     string
	label string
	args  []*Term
	typ   types.Type
	fn    *ssa.Function
	id    int
	depth int
	syms  []string // ids of syms and cells inside
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
)

func tkey(op, s, label string, args []*Term, fn *ssa.Function) string {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteString(s)
	b.WriteByte(0)
	b.WriteString(label)
	b.WriteByte(0)
	for _, a := range args {
		b.WriteString(strconv.Itoa(a.id))
		b.WriteByte(',')
	}
	if fn != nil {
		fmt.Fprintf(&b, "%p", fn)
	}
	return b.String()
}

func mkTerm(op, s, label string, typ types.Type, fn *ssa.Function, args ...*Term) *Term {
	k := tkey(op, s, label, args, fn)
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{op: op, s: s, label: label, args: args, typ: typ, fn: fn, id: len(termList)}
	set := map[string]bool{}
	for _, a := range args {
		if a.depth+1 > t.depth {
			t.depth = a.depth + 1
		}
		for _, y := range a.syms {
			set[y] = true
		}
	}
	if op == "sym" || op == "cell" {
		set[s] = true
	}
	if len(set) > 0 {
		for y := range set {
			t.syms = append(t.syms, y)
		}
		sort.Strings(t.syms)
	}
	termTab[k] = t
	termList = append(termList, t)
	return t
}

var (
	tNil    = mkTerm("nil", "", "", nil, nil)
	tTrue   = mkTerm("const", "true", "", types.Typ[types.Bool], nil)
	tFalse  = mkTerm("const", "false", "", types.Typ[types.Bool], nil)
	tAbsent = mkTerm("absent", "", "", nil, nil)
)

func tConst(s string, typ types.Type) *Term { return mkTerm("const", s, "", typ, nil) }
func tSym(id, label string, typ types.Type) *Term {
	return mkTerm("sym", id, label, typ, nil)
}
func tTuple(args ...*Term) *Term { return mkTerm("tuple", "", "", nil, nil, args...) }

func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) String() string {
	if t == nil {
		return "<none>"
	}
	switch t.op {
	case "const":
		return t.s
	case "nil", "absent":
		return t.op
	case "sym":
		if t.label != "" {
			return t.label + "«" + shortID(t.s) + "»"
		}
		return "«" + shortID(t.s) + "»"
	case "cell":
		return "&new«" + shortID(t.s) + "»"
	case "glob":
		return "&" + t.s
	case "fn":
		return t.fn.Name()
	}
	var b strings.Builder
	b.WriteString(t.op)
	if t.s != "" {
		b.WriteString(":" + t.s)
	}
	if t.fn != nil {
		b.WriteString(":" + t.fn.Name())
	}
	b.WriteByte('(')
	for i, a := range t.args {
		if i > 0 {
			b.WriteString(", ")
		}
		b.WriteString(a.String())
	}
	b.WriteByte(')')
	return b.String()
}

func shortID(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (t *Term) hasSym(pred func(string) bool) bool {
	for _, s := range t.syms {
		if pred(s) {
			return true
		}
	}
	return false
}

// rebuild returns t with the syms renamed.
func rename(t *Term, ren func(string) string, cache map[*Term]*Term) *Term {
	if len(t.syms) == 0 {
		return t
	}
	if r, ok := cache[t]; ok {
		return r
	}
	hit := false
	for _, s := range t.syms {
		if ren(s) != s {
			hit = true
			break
		}
	}
	if !hit {
		cache[t] = t
		return t
	}
	args := t.args
	if len(args) > 0 {
		args = make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = rename(a, ren, cache)
		}
	}
	s := t.s
	if t.op == "sym" || t.op == "cell" {
		s = ren(s)
	}
	var r *Term
	if t.op == "eq" {
		r = mkEq(args[0], args[1])
	} else {
		r = mkTerm(t.op, s, t.label, t.typ, t.fn, args...)
	}
	cache[t] = r
	return r
}

func mkEq(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return mkTerm("eq", "", "", types.Typ[types.Bool], nil, a, b)
}

func isSummary(t *Term) bool {
	for _, s := range t.syms {
		if strings.HasSuffix(s, "'") {
			return true
		}
	}
	return false
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// zeroTerm is the zero value of a type.
func zeroTerm(t types.Type) *Term {
	if t == nil {
		return tNil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return tConst(`""`, t)
		case u.Info()&types.IsNumeric != 0:
			return tConst("0", t)
		}
		return tNil
	case *types.Struct, *types.Array:
		return mkTerm("zero", types.TypeString(t, nil), "", t, nil)
	case *types.Tuple:
		args := make([]*Term, u.Len())
		for i := range args {
			args[i] = zeroTerm(u.At(i).Type())
		}
		return tTuple(args...)
	}
	return tNil
}
