package main

import (
	"go/types"
	"strconv"
	"strings"
)

// shape builds argument lists of a known shape: symbols with unknown names,
// forms that are compound and whatever else is needed.
type shape struct {
	p  *Prog
	st *State
	n  int
}

func (s *shape) node() types.Type { return s.p.nodeType() }

func (s *shape) consT() *types.Named {
	return s.p.Main.Pkg.Scope().Lookup("Cons").Type().(*types.Named)
}

func (s *shape) null() *Term {
	if t := s.p.globs[s.p.ModPath+".Null"]; t != nil {
		return t
	}
	return tNil
}

// cell names a cell of the shape; name identifies it in reports and models.
func (s *shape) cell(name string, car, cdr *Term) *Term {
	s.n++
	id := "shape#" + strconv.Itoa(s.n) + ":" + name
	base := mkTerm("cell", id, "", types.NewPointer(s.consT()), nil)
	pn := types.NewPointer(s.node())
	s.st.mem[mkTerm("fld", "gmnlisp.Cons.Car", "", pn, nil, base)] = car
	s.st.mem[mkTerm("fld", "gmnlisp.Cons.Cdr", "", pn, nil, base)] = cdr
	s.st.esc[mkTerm("escid", id, "", nil, nil)] = false
	return mkTerm("mki", typeKey(base.typ), "", base.typ, nil, base)
}

func (s *shape) list(elems ...*Term) *Term {
	l := s.null()
	for i := len(elems) - 1; i >= 0; i-- {
		l = s.cell("", elems[i], l)
	}
	return l
}

func (s *shape) symT() types.Type { return s.p.Main.Pkg.Scope().Lookup("_Symbol").Type() }

// sym is a symbol of unknown name.
func (s *shape) sym(name string) *Term {
	return mkTerm("mki", typeKey(s.symT()), "", s.symT(), nil, tSym("shape#sym:"+name, "SYM:"+name, s.symT()))
}

// form is a compound form.
func (s *shape) form(name string) *Term {
	return s.cell("F:"+name, s.sym("op-"+name), s.null())
}

// distinct says that the symbols are different ones.
func (s *shape) distinct(syms ...*Term) {
	for i := range syms {
		for j := 0; j < i; j++ {
			s.st.facts[simplifyEq(syms[i], syms[j])] = 'F'
		}
	}
}

// formName says which form of the shape the node is.
func formName(t *Term) string {
	if t.op != "mki" {
		return ""
	}
	b := t.args[0]
	if b.op == "cell" {
		if i := strings.Index(b.s, ":F:"); i >= 0 {
			return b.s[i+3:]
		}
	}
	if b.op == "sym" && strings.HasPrefix(b.label, "SYM:") {
		return b.label[4:]
	}
	return ""
}

// modelExpectKnown is modelExpect for operands whose type is known.
func modelExpectKnown(e *Eng, st *State, c *Call) ([]Out, bool) {
	if c.Callee == nil || errResult(c.Callee.Signature) != 1 {
		return nil, false
	}
	f := c.Callee
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != e.P.Main || !strings.HasPrefix(f.Name(), "Expect") {
		return nil, false
	}
	var arg *Term
	for i, a := range c.Args {
		if i < c.Callee.Signature.Params().Len() && e.P.isNode(c.Callee.Signature.Params().At(i).Type()) && arg == nil {
			arg = a
		}
	}
	T := c.ResultType().At(0).Type()
	if arg == nil || arg.op != "mki" {
		return modelExpect(e, st, c)
	}
	ok := false
	val := arg
	if it, is := T.Underlying().(*types.Interface); is {
		ok = types.Implements(arg.typ, it)
	} else if types.Identical(arg.typ, T) {
		ok, val = true, arg.args[0]
	}
	if ok {
		return []Out{{St: st, Res: []*Term{val, tNil}}}, true
	}
	er := tSym(c.Site+"#xe", "OPERR", c.ResultType().At(1).Type())
	st.facts[er] = 'X'
	return []Out{{St: st, Res: []*Term{zeroTerm(T), er}}}, true
}
