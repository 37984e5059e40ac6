package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// c08: no value of Lisp is the nil of Go.
type c08 struct {
	p             *Prog
	optional      map[*types.Var]bool // private fields that are asked whether they have a value
	optionalNames map[string]bool
	e             *Eng
	r             *Report
	mayRes        map[*ssa.Function]map[int]string // results that may be nil although there is no error
	mayParam      map[*ssa.Function]map[int]string // parameters that may be nil
	found         map[string][2]string
	dynamic       map[*ssa.Function]string
	succeeds      map[*ssa.Function]bool // some way out has no error
	deps          map[*ssa.Function]map[*ssa.Function]bool
	known         map[*ssa.Function]bool
	dirty         map[*ssa.Function]bool
}

// touch says that what is known about the function has changed.
func (c *c08) touch(f *ssa.Function) {
	for g := range c.deps[f] {
		c.dirty[g] = true
	}
}

// dynamicFns are the functions that are called through values and interfaces.
func (c *c08) dynamicFns() map[*ssa.Function]string {
	p := c.p
	out := map[*ssa.Function]string{}
	for _, f := range p.All {
		if !p.inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if o == nil || *o == nil {
						continue
					}
					v := *o
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().Value == v && ci.Common().Method == nil {
						if _, ok := v.(*ssa.Function); ok {
							continue // called here
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == v {
						direct := true
						if refs := mc.Referrers(); refs != nil {
							for _, u := range *refs {
								if ci, ok := u.(ssa.CallInstruction); !ok || ci.Common().Value != ssa.Value(mc) {
									direct = false
								}
							}
						}
						if direct {
							continue
						}
					}
					if g, ok := v.(*ssa.Function); ok {
						out[g] = "a function that is used as a value"
					}
				}
			}
		}
		if f.Signature.Recv() != nil && f.Object() != nil {
			for _, it := range p.ifaceMethods()[f.Name()] {
				if types.Implements(f.Signature.Recv().Type(), it) {
					out[f] = "a method of an interface"
				}
			}
		}
	}
	return out
}

// ifaceMethods are the interfaces of the repository by the names of their methods.
func (p *Prog) ifaceMethods() map[string][]*types.Interface {
	out := map[string][]*types.Interface{}
	for _, pkg := range p.Main.Prog.AllPackages() {
		if pkg.Pkg == nil || !strings.HasPrefix(pkg.Pkg.Path(), p.ModPath) {
			continue
		}
		sc := pkg.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if it, ok := tn.Type().Underlying().(*types.Interface); ok {
					for i := 0; i < it.NumMethods(); i++ {
						out[it.Method(i).Name()] = append(out[it.Method(i).Name()], it)
					}
				}
			}
		}
	}
	return out
}

func isNilTerm(st *State, t *Term) bool {
	return t.op == "nil"
}

func (c *c08) report(key, where, format string, a ...any) {
	if _, ok := c.found[key]; !ok {
		c.found[key] = [2]string{where, fmt.Sprintf(format, a...)}
	}
}

func (c *c08) run(f *ssa.Function) {
	p := c.p
	cl := &Client{MaxDepth: 6}
	cl.NoInline = func(g *ssa.Function) bool {
		if rs := g.Signature.Results(); rs.Len() == 1 && isBool0(rs.At(0).Type()) && len(g.Blocks) < 12 {
			return false
		}
		return g.Parent() == nil || c.dynamic[g] != ""
	}
	cl.KeepFact = func(t *Term) bool { return t.typ != nil && (p.isNode(t.typ) || isErr(t.typ)) }
	cl.Widen = func(t *Term) bool {
		if t.typ == nil || t.op == "const" || t == tTrue || t == tFalse {
			return false
		}
		if sl, ok := t.typ.Underlying().(*types.Slice); ok {
			return !p.isNode(sl.Elem())
		}
		b, ok := t.typ.Underlying().(*types.Basic)
		return ok && b.Info()&(types.IsNumeric|types.IsString) != 0
	}
	cl.ForkMap = func(m *types.Map) bool { return p.isNode(m.Elem()) }
	name := fnName(f)
	cl.OnStore = func(e *Eng, st *State, addr, val *Term, fr *Frame, pos token.Pos) {
		if addr == nil || val == nil || !isNilTerm(st, val) {
			return
		}
		var t types.Type
		switch addr.op {
		case "fld", "idx":
			if addr.typ != nil {
				t = derefType(addr.typ)
			}
		case "ment":
			if m, ok := addr.args[0].typ.Underlying().(*types.Map); ok {
				t = m.Elem()
			}
		}
		if t == nil || !p.isNode(t) || rootOf(addr).op == "cell" {
			return
		}
		key := "nil/" + name + "/" + addr.s
		st.mon[key] = p.pos(pos)
	}
	cl.OnCall = func(e *Eng, st *State, cc *Call) ([]Out, bool) {
		sig := cc.Common.Signature()
		if cc.Common.IsInvoke() && len(cc.Args) > 0 && p.isNode(cc.Common.Value.Type()) && isNilTerm(st, cc.Args[0]) {
			c.report("method/"+name+"/"+cc.Method.Name(), p.pos(cc.Pos), "%s calls the method %s of a Lisp value that is the nil of Go", name, cc.Method.Name())
			return nil, true
		}
		if cc.Callee != nil && !cl.NoInline(cc.Callee) {
			return nil, false
		}
		raised, raise := modelRaise(e, st, cc)
		if _, ok := cc.Common.Value.(*ssa.Builtin); !ok {
			for _, a := range cc.Args {
				if c.holds(st, a, cc.Callee == nil || raise) {
					c.report("argument/"+name+"/holds", p.pos(cc.Pos), "%s hands over a value that holds the nil of Go", name)
				}
			}
		}
		if raise {
			return raised, true
		}
		// what is handed over
		off := 0
		if sig.Recv() != nil || cc.Common.IsInvoke() {
			off = 1
		}
		for i := 0; i < sig.Params().Len() && i+off < len(cc.Args); i++ {
			if !p.isNode(sig.Params().At(i).Type()) || !isNilTerm(st, cc.Args[i+off]) {
				continue
			}
			if cc.Callee != nil && p.inRepo(cc.Callee) && len(cc.Callee.Blocks) > 0 && c.known[cc.Callee] {
				c.addParam(cc.Callee, i+off, p.pos(cc.Pos))
			} else if m := cc.Common.Method; m != nil && c.addMethod(m, i+off, p.pos(cc.Pos)) {
			} else {
				to := "a function value"
				if cc.Callee != nil {
					to = fnName(cc.Callee)
				} else if cc.Method != nil {
					to = "the method " + cc.Method.Name()
				}
				c.report("argument/"+name+"/"+to, p.pos(cc.Pos), "%s hands the nil of Go to %s as a Lisp value", name, to)
			}
		}
		rt := cc.ResultType()
		ei := errResult(sig)
		hasNode := false
		for i := 0; i < rt.Len(); i++ {
			hasNode = hasNode || p.isNode(rt.At(i).Type())
		}
		if !hasNode && ei < 0 {
			return nil, false
		}
		if _, ok := cc.Common.Value.(*ssa.Builtin); ok {
			return nil, false
		}
		if cc.Callee != nil && !p.inRepo(cc.Callee) && !hasNode {
			return nil, false
		}
		if cc.Callee != nil {
			if c.deps[cc.Callee] == nil {
				c.deps[cc.Callee] = map[*ssa.Function]bool{}
			}
			c.deps[cc.Callee][f] = true
		}
		outs := e.Opaque(st, cc)
		var res []Out
		for _, o := range outs {
			for i := 0; i < rt.Len(); i++ {
				if p.isNode(rt.At(i).Type()) {
					o.St.facts[o.Res[i]] = 'X'
				}
			}
			if ei >= 0 {
				bad := Out{St: o.St.clone(), Res: append([]*Term{}, o.Res...)}
				bad.St.facts[bad.Res[ei]] = 'X'
				for i := 0; i < rt.Len(); i++ {
					if p.isNode(rt.At(i).Type()) {
						bad.Res[i] = tNil
					}
				}
				res = append(res, bad)
				if c.alwaysFails(cc.Callee) {
					continue
				}
				o.Res[ei] = tNil
			}
			if last := rt.Len() - 1; last > 0 && isBool(o.Res[last]) && isBool0(rt.At(last).Type()) {
				no := Out{St: o.St.clone(), Res: append([]*Term{}, o.Res...)}
				no.Res[last] = tFalse
				for i := 0; i < rt.Len(); i++ {
					if p.isNode(rt.At(i).Type()) {
						no.Res[i] = tNil
					}
				}
				res = append(res, no)
				o.Res[last] = tTrue
			} else if factory(p, sig) && cc.Callee == nil && cc.Method == nil {
				n := Out{St: o.St.clone(), Res: append([]*Term{}, o.Res...)}
				n.Res[0] = tNil
				res = append(res, n)
			}
			if m := cc.Common.Method; m != nil && factory0(p, sig) {
				for g := range c.mayRes {
					if g.Name() == m.Name() && c.dynamic[g] != "" {
						n := Out{St: o.St.clone(), Res: append([]*Term{}, o.Res...)}
						n.Res[0] = tNil
						res = append(res, n)
						break
					}
				}
			}
			if cc.Callee != nil {
				for i := range c.mayRes[cc.Callee] {
					n := Out{St: o.St.clone(), Res: append([]*Term{}, o.Res...)}
					n.Res[i] = tNil
					res = append(res, n)
				}
			}
			res = append(res, o)
		}
		return res, true
	}
	cl.OnLoad = func(e *Eng, st *State, addr *Term, site string, t types.Type) *Term {
		root := rootOf(addr)
		if !p.isNode(t) || root.op == "cell" || addr.op == "fld" && c.optionalNames[addr.s[strings.LastIndexByte(addr.s, '.')+1:]] {
			return nil
		}
		v := mkTerm("init", "", "", t, nil, addr)
		st.facts[v] = 'X'
		return v
	}
	e := newEng(p, cl)
	c.e = e
	st := newState()
	var args []*Term
	for i, q := range f.Params {
		args = append(args, tSym(name+"#"+strconv.Itoa(i), "", q.Type()))
	}
	may := c.mayParam[f]
	variants := [][]*Term{args}
	for i, a := range args {
		if a.typ != nil && p.isNode(a.typ) {
			st.facts[a] = 'X'
		}
		if may[i] != "" {
			v := append([]*Term{}, args...)
			v[i] = tNil
			variants = append(variants, v)
		}
	}
	var bind []*Term
	for _, fv := range f.FreeVars {
		bind = append(bind, tSym(name+"#free#"+fv.Name(), "", fv.Type()))
	}
	ei := errResult(f.Signature)
	for _, v := range variants {
		for _, x := range e.Run(f, v, bind, st.clone()) {
			if x.Panic {
				continue
			}
			c.r.ob(1)
			if ei >= 0 && ei < len(x.Res) && e.nilness(x.St, x.Res[ei]) == 'X' {
				if c.holds(x.St, x.Res[ei], true) {
					c.report("condition/"+name, p.pos(x.Pos), "%s returns a condition that holds the nil of Go", name)
				}
				continue
			}
			if !c.succeeds[f] {
				c.succeeds[f] = true
				c.touch(f)
			}
			if ei >= 0 && ei < len(x.Res) && !isNilTerm(x.St, x.Res[ei]) {
				continue // as the callee returned it
			}
			for k, where := range x.St.mon {
				if strings.HasPrefix(k, "nil/") {
					c.report(k, where, "%s stores the nil of Go as a Lisp value", name)
				}
			}
			for a, v := range x.St.mem {
				if rootOf(a).op != "cell" && c.holds(x.St, v, true) {
					c.report("holds/"+name+"/"+a.s, p.pos(x.Pos), "%s stores a value that holds the nil of Go", name)
				}
			}
			if last := len(x.Res) - 1; last > 0 && isBool0(f.Signature.Results().At(last).Type()) && x.Res[last] == tFalse || factory(p, f.Signature) {
				continue
			}
			for i := 0; i < f.Signature.Results().Len(); i++ {
				if p.isNode(f.Signature.Results().At(i).Type()) && isNilTerm(x.St, x.Res[i]) {
					c.addRes(f, i, p.pos(x.Pos))
				}
				if c.holds(x.St, x.Res[i], true) {
					c.report("holds/"+name, p.pos(x.Pos), "%s returns a value that holds the nil of Go", name)
				}
			}
		}
	}
	c.r.engine(e)
}

func (c *c08) addRes(f *ssa.Function, i int, where string) {
	if c.mayRes[f] == nil {
		c.mayRes[f] = map[int]string{}
	}
	if c.mayRes[f][i] == "" {
		c.mayRes[f][i] = where
		if debugSession {
			println("MAYRES", fnName(f), i, where)
		}
		c.touch(f)
	}
}

// alwaysFails: the error is never nil.
func (c *c08) alwaysFails(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	if !c.p.inRepo(f) || len(f.Blocks) == 0 {
		return f.String() == "errors.New" || f.String() == "fmt.Errorf"
	}
	return !c.succeeds[f] && c.known[f]
}

func (c *c08) addParam(f *ssa.Function, i int, where string) {
	if c.mayParam[f] == nil {
		c.mayParam[f] = map[int]string{}
	}
	if c.mayParam[f][i] == "" {
		c.mayParam[f][i] = where
		if debugSession {
			println("MAYPARAM", fnName(f), i, where)
		}
		c.dirty[f] = true
	}
}

// addMethod: a method that is called through an interface is handed no value.
func (c *c08) addMethod(m *types.Func, i int, where string) bool {
	it, ok := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)
	if !ok {
		return false
	}
	some := false
	for f := range c.known {
		if f.Name() == m.Name() && f.Signature.Recv() != nil && f.Synthetic == "" && types.Implements(f.Signature.Recv().Type(), it) {
			c.addParam(f, i, where)
			some = true
		}
	}
	return some
}

func checkC08(p *Prog, r *Report) {
	c := &c08{p: p, r: r, mayRes: map[*ssa.Function]map[int]string{}, mayParam: map[*ssa.Function]map[int]string{}}
	c.dynamic = c.dynamicFns()
	c.optional, c.optionalNames = map[*types.Var]bool{}, map[string]bool{}
	for _, f := range p.All {
		if !p.inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
					continue
				}
				for _, xy := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
					k, ok := xy[1].(*ssa.Const)
					ld, ok2 := xy[0].(*ssa.UnOp)
					if !ok || !ok2 || !k.IsNil() {
						continue
					}
					if fa, ok := ld.X.(*ssa.FieldAddr); ok {
						v := derefType(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field)
						if !v.Exported() && p.isNode(v.Type()) {
							c.optional[v] = true
							c.optionalNames[v.Name()] = true
						}
					}
				}
			}
		}
	}
	var fns []*ssa.Function
	for _, f := range p.All {
		if pk := pkgOf(f); pk == nil || !p.inRepo(f) || strings.HasSuffix(pk.Pkg.Path(), "/parser") {
			continue
		}
		if len(f.Blocks) == 0 || f.Name() == "init" || f.Parent() != nil && c.dynamic[f] == "" {
			continue
		}
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	c.known = map[*ssa.Function]bool{}
	c.deps = map[*ssa.Function]map[*ssa.Function]bool{}
	c.dirty = map[*ssa.Function]bool{}
	c.succeeds = map[*ssa.Function]bool{}
	for _, f := range fns {
		c.known[f] = true
		c.dirty[f] = true
	}
	c.found = map[string][2]string{}
	for round := 0; len(c.dirty) > 0 && round < 20; round++ {
		for _, f := range fns {
			if c.dirty[f] {
				delete(c.dirty, f)
				c.run(f)
				c.r.count("functions interpreted", 1)
			}
		}
	}
	for f, m := range c.mayRes {
		if why := c.dynamic[f]; why != "" && !(f.Signature.Recv() != nil && factory0(p, f.Signature)) {
			for _, where := range m {
				r.add("result/"+fnName(f), where, "%s, %s, returns the nil of Go as a Lisp value", fnName(f), why)
			}
		} else {
			r.count("functions that may return no value", 1)
			if debugSession {
				for i, where := range m {
					println("MAYRES", fnName(f), i, where)
				}
			}
		}
	}
	for k, v := range c.found {
		r.add(k, v[0], "%s", v[1])
	}
	r.count("functions", len(fns))
	r.floor("functions", 300)
}

// holds says that a list or a vector that was made here and is within reach has
// the nil of Go as an element or, unless it may still be in the making, as its end.
func (c *c08) holds(st *State, t *Term, done bool) bool {
	seen := map[*Term]bool{}
	var todo []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "cell" {
			todo = append(todo, t)
		}
		for _, a := range t.args {
			add(a)
		}
	}
	add(t)
	for len(todo) > 0 {
		cell := todo[0]
		todo = todo[1:]
		if pt, ok := cell.typ.(*types.Pointer); ok && st.mem[cell] == nil && !isSummary(cell) {
			if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					a := c.e.fldAddr(cell, s.Field(i), pt.Elem())
					if c.p.isNode(s.Field(i).Type()) && st.mem[a] == nil {
						if _, isIf := s.Field(i).Type().Underlying().(*types.Interface); isIf && !c.optional[s.Field(i)] && (done || a.s == "gmnlisp.Cons.Car") {
							return true
						}
					}
				}
			}
		}
		for a, v := range st.mem {
			if rootOf(a) != cell {
				continue
			}
			if v.op == "nil" {
				if a.op == "ment" {
					if m, ok := a.args[0].typ.Underlying().(*types.Map); ok && c.p.isNode(m.Elem()) {
						return true
					}
				}
				if (a.op == "fld" || a.op == "idx") && a.typ != nil && c.p.isNode(derefType(a.typ)) && (done || a.s == "gmnlisp.Cons.Car") {
					return true
				}
			}
			add(v)
		}
	}
	return false
}

// factory0: nothing in, one value of Lisp out.
func factory0(p *Prog, sig *types.Signature) bool {
	return sig.Params().Len() == 0 && sig.Results().Len() == 1 && p.isNode(sig.Results().At(0).Type())
}

// factory says that the function makes a value of its own, or says that there is none.
func factory(p *Prog, sig *types.Signature) bool {
	return sig.Recv() == nil && sig.Params().Len() == 0 && sig.Results().Len() == 1 && p.isNode(sig.Results().At(0).Type())
}

// pkgOf is the package a function, or the generic function it comes from, is written in.
func pkgOf(f *ssa.Function) *ssa.Package {
	if o := f.Origin(); o != nil {
		f = o
	}
	for f.Pkg == nil && f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg
}
