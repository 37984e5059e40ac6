package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var tBoolT = types.Typ[types.Bool]

func someTerm(x *Term) *Term {
	switch x.op {
	case "nil":
		return tFalse
	case "mki":
		return tBool(!strings.HasSuffix(x.s, "._NullType"))
	}
	return mkTerm("some", "", "", tBoolT, nil, x)
}

// isMainFn says that the call goes to the exported function of the
// interpreter package with that name.
func (c *Call) isMainFn(p *Prog, names ...string) bool {
	f := c.Callee
	if f == nil || f.Signature.Recv() != nil || f.Parent() != nil {
		return false
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != p.Main {
		return false
	}
	for _, n := range names {
		if f.Name() == n {
			return true
		}
	}
	return false
}

// isMethod says that the call is to a method of a named type of the
// interpreter package.
func (c *Call) isMethod(p *Prog, typ string, names ...string) bool {
	f := c.Callee
	if f == nil {
		return false
	}
	return p.isMethod(f, typ, names...)
}

func (p *Prog) isMethod(f *ssa.Function, typ string, names ...string) bool {
	if f.Signature.Recv() == nil || fnPkg(f) == nil || fnPkg(f).Path() != p.ModPath {
		return false
	}
	rt := f.Signature.Recv().Type()
	if pt, ok := rt.(*types.Pointer); ok {
		rt = pt.Elem()
	}
	n, ok := rt.(*types.Named)
	if !ok || n.Obj().Name() != typ {
		return false
	}
	for _, x := range names {
		if f.Name() == x {
			return true
		}
	}
	return false
}

// isCallableCall says that an interface call runs a Lisp function.
func (c *Call) isCallableCall(p *Prog) bool {
	if c.Method == nil || c.Method.Name() != "Call" {
		return false
	}
	return p.isCallableMethod(c.Method)
}

func (p *Prog) isCallableMethod(m *types.Func) bool {
	sig := m.Type().(*types.Signature)
	return sig.Params().Len() == 3 && sig.Results().Len() == 2 && p.isWorldPtr(sig.Params().At(1).Type())
}

func (p *Prog) isWorldPtr(t types.Type) bool {
	pt, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := pt.Elem().(*types.Named)
	return ok && n.Obj().Name() == "World" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == p.ModPath
}

func (p *Prog) isNode(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Node" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == p.ModPath
}

// list labels: L:<list>:<k> is the list after k elements, E:<list>:<k> its k-th element.
func listLabel(name string, k int) string {
	if k > 3 {
		k = 3
	}
	return "L:" + name + ":" + strconv.Itoa(k)
}

func parseList(l string) (kind, name string, k int, ok bool) {
	f := strings.Split(l, ":")
	if len(f) != 3 || (f[0] != "L" && f[0] != "E") {
		return
	}
	k, err := strconv.Atoi(f[2])
	return f[0], f[1], k, err == nil
}

// baseModels are the meanings of the helper functions every operator is
// written with.
func baseModels(e *Eng, st *State, c *Call) ([]Out, bool) {
	p := e.P
	if c.isMainFn(p, "IsSome", "HasValue") && len(c.Args) == 1 {
		return []Out{{St: st, Res: []*Term{someTerm(c.Args[0])}}}, true
	}
	if c.isMainFn(p, "IsNone", "IsNull") && len(c.Args) == 1 {
		return []Out{{St: st, Res: []*Term{mkNot(someTerm(c.Args[0]))}}}, true
	}
	if c.isMainFn(p, "Shift") && len(c.Args) == 1 && len(c.Callee.Signature.Results().String()) > 0 {
		return modelShift(e, st, c, nil), true
	}
	return nil, false
}

func consType(p *Prog) types.Type {
	return types.NewPointer(p.Main.Pkg.Scope().Lookup("Cons").Type())
}

func modelShift(e *Eng, st *State, c *Call, on func(st *State, ok bool)) []Out {
	p := e.P
	l := c.Args[0]
	node := p.Main.Pkg.Scope().Lookup("Node").Type()
	tok := mkTok(l, consType(p))
	tv := e.truth(st, tok)
	if l.op == "mki" {
		tv = 0
		if types.Identical(l.typ, consType(p)) {
			tv = 1
		}
	}
	var outs []Out
	if tv != 0 {
		s := st.clone()
		if tv == 1 || e.assume(s, tok, true) {
			var a, b *Term
			if l.op == "mki" {
				base := l.args[0]
				a = e.Load(s, mkTerm("fld", "gmnlisp.Cons.Car", "", types.NewPointer(node), nil, base), c.Site+"#car", node)
				b = e.Load(s, mkTerm("fld", "gmnlisp.Cons.Cdr", "", types.NewPointer(node), nil, base), c.Site+"#cdr", node)
			} else {
				a, b = carCdr(l, c.Site, node)
				if e.nilness(s, a) == 0 {
					s.facts[a] = 'X'
				}
			}
			if on != nil {
				on(s, true)
			}
			outs = append(outs, Out{St: s, Res: []*Term{a, b, tNil}})
		}
	}
	if tv != 1 {
		s := st.clone()
		if tv == 0 || e.assume(s, tok, false) {
			er := tSym(c.Site+"#err", "shifterr", types.Universe.Lookup("error").Type())
			s.facts[er] = 'X'
			if on != nil {
				on(s, false)
			}
			outs = append(outs, Out{St: s, Res: []*Term{tNil, tNil, er}})
		}
	}
	return outs
}

// okErr forks a call's (value, error) result into success and failure.
func okErr(st *State, c *Call, okLabel, errLabel string, on func(st *State, ok bool)) []Out {
	rt := c.ResultType()
	s1, s2 := st.clone(), st.clone()
	v := tSym(c.Site+"#v", okLabel, rt.At(0).Type())
	s1.facts[v] = 'X'
	er := tSym(c.Site+"#e", errLabel, rt.At(1).Type())
	s2.facts[er] = 'X'
	if on != nil {
		on(s1, true)
		on(s2, false)
	}
	junk := tSym(c.Site+"#junk", "", rt.At(0).Type())
	return []Out{{St: s1, Res: []*Term{v, tNil}}, {St: s2, Res: []*Term{junk, er}}}
}

// carCdr names the first element and the rest of a list. The first three
// elements of a labelled list keep their identity however often the list is
// taken apart; later ones are fresh at each site.
func carCdr(l *Term, site string, node types.Type) (*Term, *Term) {
	kind, name, k, ok := parseList(l.label)
	if !ok {
		return tSym(site+"#car", "", node), tSym(site+"#cdr", "", node)
	}
	if kind == "E" {
		name, k = name+"."+strconv.Itoa(k), 0
	}
	el := "E:" + name + ":" + strconv.Itoa(min(k, 3))
	rl := listLabel(name, k+1)
	if k >= 3 || strings.Count(name, ".") > 2 {
		return tSym(site+"#car", el, node), tSym(site+"#cdr", rl, node)
	}
	return mkTerm("car", "", el, node, nil, l), mkTerm("cdr", "", rl, node, nil, l)
}

// isCallableType: values of the type can be called with forms.
func (p *Prog) isCallableType(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if p.isCallableMethod(it.Method(i)) {
			return true
		}
	}
	return false
}
