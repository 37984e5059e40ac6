package main

import (
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// modelExpect models the operand checks: the operand itself on success.
func modelExpect(e *Eng, st *State, c *Call) ([]Out, bool) {
	if c.Callee == nil {
		return nil, false
	}
	f := c.Callee
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != e.P.Main || !strings.HasPrefix(f.Name(), "Expect") || errResult(c.Callee.Signature) != 1 {
		return nil, false
	}
	var arg *Term
	for i, a := range c.Args {
		if i < c.Callee.Signature.Params().Len() && e.P.isNode(c.Callee.Signature.Params().At(i).Type()) && arg == nil {
			arg = a
		}
	}
	if arg == nil {
		return nil, false
	}
	rt := c.ResultType()
	s1, s2 := st.clone(), st.clone()
	v := mkTerm("expect", "", arg.label, rt.At(0).Type(), nil, arg)
	s1.facts[v] = 'X'
	er := tSym(c.Site+"#xe", "OPERR", rt.At(1).Type())
	s2.facts[er] = 'X'
	return []Out{{St: s1, Res: []*Term{v, tNil}}, {St: s2, Res: []*Term{zeroTerm(rt.At(0).Type()), er}}}, true
}

// modelEquals makes one term of a comparison by Equals, whichever side it is
// called on; the mode is part of it.
func modelEquals(e *Eng, st *State, c *Call) ([]Out, bool) {
	name := ""
	if c.Method != nil {
		name = c.Method.Name()
	} else if c.Callee != nil && c.Callee.Signature.Recv() != nil {
		name = c.Callee.Name()
	}
	if name != "Equals" || len(c.Args) != 3 {
		return nil, false
	}
	strip := func(t *Term) *Term {
		if t.op == "mki" {
			return t.args[0]
		}
		return t
	}
	a, b := strip(c.Args[0]), strip(c.Args[1])
	if a.id > b.id {
		a, b = b, a
	}
	if a == b && (a.op == "gval" || strings.HasPrefix(a.label, "SYM:")) {
		return []Out{{St: st, Res: []*Term{tTrue}}}, true
	}
	mode := "?"
	if c.Args[2].op == "const" {
		mode = c.Args[2].s
	}
	return []Out{{St: st, Res: []*Term{mkTerm("eqm", mode, "", tBoolT, nil, a, b)}}}, true
}

// strictMode is the constant of the strictest comparison.
func (p *Prog) strictMode() string {
	if c, ok := p.Main.Pkg.Scope().Lookup("STRICT").(*types.Const); ok {
		return c.Val().ExactString()
	}
	return "?"
}

// modelRaise gives the raise* functions a labelled error.
func modelRaise(e *Eng, st *State, c *Call) ([]Out, bool) {
	f := c.Callee
	if f == nil {
		return nil, false
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	ei := errResult(c.Callee.Signature)
	if f.Pkg != e.P.Main || ei < 0 || f.Signature.Recv() != nil {
		return nil, false
	}
	if !strings.HasPrefix(f.Name(), "raise") && f.Name() != "callHandler" {
		return nil, false
	}
	rt := c.ResultType()
	res := make([]*Term, rt.Len())
	for i := range res {
		res[i] = zeroTerm(rt.At(i).Type())
	}
	er := tSym(c.Site+"#raise", "RAISED:"+f.Name(), rt.At(ei).Type())
	st.facts[er] = 'X'
	res[ei] = er
	return []Out{{St: st, Res: res}}, true
}

// evalOf says that the call evaluates a form or calls a Lisp function.
func (p *Prog) evalOf(c *Call) (what string, ok bool) {
	if c.isMethod(p, "World", "Eval") {
		return "eval", true
	}
	if c.isCallableCall(p) {
		return "call", true
	}
	return "", false
}

// callModels tries models in order.
func callModels(ms ...func(*Eng, *State, *Call) ([]Out, bool)) func(*Eng, *State, *Call) ([]Out, bool) {
	return func(e *Eng, st *State, c *Call) ([]Out, bool) {
		for _, m := range ms {
			if outs, ok := m(e, st, c); ok {
				return outs, true
			}
		}
		return nil, false
	}
}

func fieldOf(p *Prog, typ, ifType string) string {
	o := p.Main.Pkg.Scope().Lookup(typ)
	if o == nil {
		return ""
	}
	s, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if typeKey(s.Field(i).Type()) == ifType {
			return s.Field(i).Name()
		}
	}
	return ""
}

var _ = ssa.Function{}

// worldRooted says that an address belongs to the World of the operator.
func worldRooted(a *Term) bool {
	r := a
	for {
		switch {
		case r.op == "init" || r.op == "fld" || r.op == "ment" || r.op == "idx" || r.op == "mval" || r.op == "minit" || r.op == "ct":
			if len(r.args) == 0 {
				return false
			}
			r = r.args[0]
			continue
		}
		break
	}
	return r.op == "sym" && r.label == "world"
}

var debugBR = os.Getenv("AN_DEBUG") == "2"
