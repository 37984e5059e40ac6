package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// This file describes the environments (Worlds) in which forms are evaluated.

// envDesc describes an environment: E is the one the operator was called in, L
// the one a function was made in; inner scopes are flattened into what they
// bind: E{S1=V:F1,S2()=...}.
func (o *opRun) envDesc(e *Eng, st *State, w *Term) string { return o.envN(e, st, w, nil) }

func (o *opRun) envN(e *Eng, st *State, w *Term, stack []*Term) string {
	for i, s := range stack {
		if s == w {
			return "^" + strings.Repeat("^", len(stack)-1-i)
		}
	}
	vars := map[string]string{}
	base := "?"
	for depth := 0; depth < 8; depth++ {
		if w == o.world {
			base = "E"
			break
		}
		if w.op == "nil" {
			base = "NONE"
			break
		}
		if w.label != "" && w.op == "sym" {
			base = map[string]string{"LEXICAL": "L"}[w.label]
			if base == "" {
				base = w.label
			}
			break
		}
		if w.op != "cell" {
			break
		}
		if strings.HasPrefix(w.s, "chain#") {
			base = "C" + w.s[len("chain#"):]
			break
		}
		names := map[string]string{}
		parent := w
		unknown := false
		foreign := ""
		ws, ok := derefType(w.typ).Underlying().(*types.Struct)
		if !ok {
			break
		}
		for i := 0; i < ws.NumFields(); i++ {
			f := ws.Field(i)
			v := e.Load(st, e.fldAddr(w, f, derefType(w.typ)), "env", f.Type())
			switch {
			case o.p.isWorldPtr(f.Type()):
				parent = v
			case isInterface(f.Type()) && sameAsParent(e, st, w, ws, f, v):
			case isInterface(f.Type()):
				if !o.scopeDesc(e, st, v, names, append(stack, w)) {
					unknown = true
				}
			}
		}
		for i := 0; i < ws.NumFields() && parent != w && parent.op != "nil"; i++ {
			// what all environments of an interpreter share
			f := ws.Field(i)
			if _, ptr := f.Type().Underlying().(*types.Pointer); ptr && !o.p.isWorldPtr(f.Type()) {
				own := derefType(w.typ)
				if a, b := e.Load(st, e.fldAddr(w, f, own), "env", f.Type()), e.Load(st, e.fldAddr(parent, f, own), "env", f.Type()); a != b {
					foreign = f.Name()
				}
			}
		}
		if foreign != "" {
			vars["!"+foreign] = "other"
		}
		for k, v := range names {
			if len(k) < 2 || k[0] != 'S' || k[1] < '1' || k[1] > '9' {
				continue // not a name of the program
			}
			if _, ok := vars[k]; !ok {
				vars[k] = v
			}
		}
		if unknown {
			vars["?"] = "?"
		}
		if parent == w {
			break
		}
		w = parent
	}
	if len(vars) == 0 {
		return base
	}
	var l []string
	for k, v := range vars {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return base + "{" + strings.Join(l, ",") + "}"
}

func isInterface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// scopeDesc lists what a scope binds.
func (o *opRun) scopeDesc(e *Eng, st *State, v *Term, out map[string]string, stack []*Term) bool {
	if v.op == "nil" {
		return true
	}
	if v.op != "mki" {
		return false
	}
	x := v.args[0]
	switch u := v.typ.Underlying().(type) {
	case *types.Map:
		if x.op != "cell" && x.op != "nil" {
			return false
		}
		for a, val := range st.mem {
			if a.op != "ment" || a.args[0] != x || val == tAbsent {
				continue
			}
			out[o.show(e, st, a.args[1])+callMark(u)] = o.envValue(e, st, val, stack)
		}
		return true
	case *types.Pointer:
		// a scope with one variable
		s, ok := u.Elem().Underlying().(*types.Struct)
		if !ok || s.NumFields() != 2 {
			return false
		}
		k := e.Load(st, e.fldAddr(x, s.Field(0), u.Elem()), "env", s.Field(0).Type())
		val := e.Load(st, e.fldAddr(x, s.Field(1), u.Elem()), "env", s.Field(1).Type())
		out[o.show(e, st, k)] = o.envValue(e, st, val, stack)
		return true
	}
	return false
}

func callMark(m *types.Map) string {
	if it, ok := m.Elem().Underlying().(*types.Interface); ok {
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == "Call" {
				return "()"
			}
		}
	}
	return ""
}

func (o *opRun) envValue(e *Eng, st *State, v *Term, stack []*Term) string {
	if c := o.closureDesc(e, st, v, stack); c != "" {
		return c
	}
	return o.show(e, st, v)
}

// closureDesc describes a function or macro made by lambda: its parameters, its
// body and the environment it was made in.
func (o *opRun) closureDesc(e *Eng, st *State, v *Term, stack []*Term) string {
	for v.op == "mki" {
		if s, ok := v.typ.Underlying().(*types.Struct); ok && s.NumFields() == 1 && v.args[0].op == "struct" {
			// a reference to a function
			v = v.args[0].args[0]
			continue
		}
		v = v.args[0]
	}
	if v.op != "cell" || v.typ == nil {
		return ""
	}
	s, ok := derefType(v.typ).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	fields := map[string]*Term{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		fields[f.Name()] = e.Load(st, e.fldAddr(v, f, derefType(v.typ)), "env", f.Type())
	}
	lex, code, param := fields["lexical"], fields["code"], fields["param"]
	if lex == nil || code == nil || param == nil {
		return ""
	}
	kind := "fn"
	if n := namedOf(v.typ); n != nil && strings.Contains(n.Obj().Name(), "Macro") {
		kind = "macro"
	}
	rest := ""
	if r := fields["rest"]; r != nil && formName(r) != "" {
		rest = " & " + o.show(e, st, r)
	}
	ps := "?"
	if el, ok := e.elements(st, param); ok {
		var l []string
		for _, p := range el {
			l = append(l, o.show(e, st, p))
		}
		ps = strings.Join(l, " ")
	}
	return kind + "(" + ps + rest + ")" + o.show(e, st, code) + "@" + o.envN(e, st, lex, stack)
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// at writes an evaluation with the environment it happens in; it also notices a
// scope that has changed since it was last seen.
func (o *opRun) at(e *Eng, st *State, name string, w *Term) string {
	if w == nil {
		return name + "@?"
	}
	d := o.envDesc(e, st, w)
	if ws, ok := derefType(w.typ).Underlying().(*types.Struct); ok && w.op == "cell" {
		for i := 0; i < ws.NumFields(); i++ {
			f := ws.Field(i)
			if !isInterface(f.Type()) {
				continue
			}
			v := e.Load(st, e.fldAddr(w, f, derefType(w.typ)), "env", f.Type())
			if v.op != "mki" || v.args[0].op != "cell" {
				continue
			}
			names := map[string]string{}
			o.scopeDesc(e, st, v, names, []*Term{w})
			var l []string
			for n, x := range names {
				l = append(l, n+"="+x)
			}
			sort.Strings(l)
			now := strings.Join(l, ",")
			k := ghostScope(v.args[0])
			if was, ok := st.mem[k]; ok && was.s != now {
				d += "(was {" + was.s + "})"
			}
			st.mem[k] = mkTerm("ghost", now, "", tBoolT, nil)
		}
	}
	return name + "@" + d
}

// scopeCall recognises the operations on environments.
func (o *opRun) scopeCall(e *Eng, st *State, cc *Call) (ev string, outs []Out, ok bool) {
	p := o.p
	sig := cc.Common.Signature()
	// a binding: Set(Symbol, Node) or Set(Symbol, Callable)
	name := ""
	if cc.Callee != nil {
		name = cc.Callee.Name()
	} else if cc.Method != nil {
		name = cc.Method.Name()
	}
	isWorld := cc.Callee != nil && cc.Callee.Signature.Recv() != nil && p.isWorldPtr(cc.Callee.Signature.Recv().Type())
	symArg := func(i int) bool {
		return i < len(cc.Args) && cc.Args[i].typ != nil && strings.HasSuffix(cc.Args[i].typ.String(), "ymbol")
	}
	switch {
	case cc.Callee != nil && cc.Callee.Signature.Recv() == nil && len(cc.Args) == 1 && sig.Results().Len() == 1 && types.Identical(sig.Params().At(0).Type(), types.Typ[types.String]) && symName(sig.Results().At(0).Type()):
		// a symbol made of a string: none of those of the shape
		v := tSym("made:"+cc.Site, "SYM:@", o.s.symT())
		if text, err := strconv.Unquote(cc.Args[0].s); err == nil && cc.Args[0].op == "const" {
			v = o.s.sym(text).args[0]
		}
		m := mkTerm("mki", typeKey(o.s.symT()), "", o.s.symT(), nil, v)
		st.facts[v] = 'X'
		for i := 1; i <= 9; i++ {
			x := o.s.sym(fmt.Sprintf("S%d", i))
			if x == m {
				continue
			}
			st.facts[simplifyEq(x, m)] = 'F'
			st.facts[simplifyEq(x.args[0], v)] = 'F'
		}
		if isInterface(sig.Results().At(0).Type()) {
			v = m
		}
		return "", []Out{{St: st, Res: []*Term{v}}}, true
	case isWorld && len(cc.Args) == 3 && sig.Results().Len() == 2 && o.p.isNode(sig.Results().At(0).Type()) && isText(sig.Params().At(sig.Params().Len()-1).Type()):
		// the text of a program
		val := tSym("text#value", "PROGRAM", sig.Results().At(0).Type())
		st.facts[val] = 'X'
		return o.at(e, st, "interpret", cc.Args[0]), []Out{{St: st, Res: []*Term{val, tNil}}}, true
	case isWorld && name == "Set" && len(cc.Args) == 3:
		ev = o.at(e, st, "set "+o.show(e, st, cc.Args[1])+" "+o.envValue(e, st, cc.Args[2], nil), cc.Args[0])
		return ev, []Out{{St: st, Res: []*Term{tNil}}}, true
	case isWorld && (name == "Get" || name == "GetFunc") && len(cc.Args) == 2 && symArg(1):
		what, v := "get ", "VAR:"
		if name == "GetFunc" {
			what, v = "getfunc ", "FN:"
		}
		n := o.show(e, st, cc.Args[1])
		ev = o.at(e, st, what+n, cc.Args[0])
		val := tSym("entity#"+v+n, v+n, cc.ResultType().At(0).Type())
		if o.entity != nil {
			if x := o.entity(e, st, v+n); x != nil {
				val = x
			}
		}
		if o.session && name == "GetFunc" && o.defined(st, "fn:"+n) == nil {
			er := tSym("undefined#"+n, "UNDEFINED:"+n, cc.ResultType().At(1).Type())
			st.facts[er] = 'X'
			return ev, []Out{{St: st, Res: []*Term{zeroTerm(cc.ResultType().At(0).Type()), er}}}, true
		}
		st.facts[val] = 'X'
		return ev, []Out{{St: st, Res: []*Term{val, tNil}}}, true
	case name == "Set" && sig.Params().Len() == 2 && sig.Results().Len() == 0 && symOrNode(p, sig) && len(cc.Args) == 3:
		where := scopeName(cc.Args[0])
		if where == "" {
			return "", nil, false
		}
		if o.session {
			kind := "global:"
			if p.isCallableType(sig.Params().At(1).Type()) {
				kind = "fn:"
			}
			st.mem[ghost(o, kind+o.show(e, st, cc.Args[1]))] = cc.Args[2]
		}
		ev = "define " + where + " " + o.show(e, st, cc.Args[1]) + " " + o.envValue(e, st, cc.Args[2], nil)
		return ev, []Out{{St: st}}, true
	}
	return "", nil, false
}

func symOrNode(p *Prog, sig *types.Signature) bool { return symName(sig.Params().At(0).Type()) }

func symName(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && (n.Obj().Name() == "Symbol" || n.Obj().Name() == "_Symbol")
}

// scopeName names a table held in a field of the interpreter's state.
func scopeName(t *Term) string {
	for t.op == "init" || t.op == "mki" || t.op == "load" {
		t = t.args[0]
	}
	if t.op == "fld" {
		return t.s[strings.LastIndex(t.s, ".")+1:]
	}
	return ""
}

func isText(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind() == types.String
	}
	sl, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(sl.Elem(), types.Typ[types.Byte])
}

// sameAsParent: the table is the one of the environment around.
func sameAsParent(e *Eng, st *State, w *Term, ws *types.Struct, f *types.Var, v *Term) bool {
	own := derefType(w.typ)
	for i := 0; i < ws.NumFields(); i++ {
		if pf := ws.Field(i); types.Identical(derefType(pf.Type()), own) {
			parent := e.Load(st, e.fldAddr(w, pf, own), "env", pf.Type())
			return parent.op != "nil" && v.op != "nil" && e.Load(st, e.fldAddr(parent, f, own), "env", f.Type()) == v
		}
	}
	return false
}

// ghostScope is where the last known contents of a scope are kept.
func ghostScope(scope *Term) *Term {
	return mkTerm("fld", "ghost.scope", "", types.NewPointer(tBoolT), nil, scope)
}
