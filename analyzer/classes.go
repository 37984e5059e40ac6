package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// classInfo is one of the classes that the interpreter comes with, as its
// initialisation leaves it.
type classInfo struct {
	global string           // the variable that holds it
	name   string           // what Lisp calls it
	fields map[string]*Term // by name of the field of the struct
	term   *Term            // the value of the variable
}

// classModel interprets the initialisation of the package to see what the
// classes are made of.
type classModel struct {
	classes []*classInfo
	byGlob  map[string]*classInfo
	byName  map[string]*classInfo
	bound   map[string]string // Lisp name -> variable
	p       *Prog
	structT *types.Named
	failed  string
}

func (p *Prog) classes() *classModel {
	if p.classMod != nil {
		return p.classMod
	}
	m := &classModel{p: p, byGlob: map[string]*classInfo{}, byName: map[string]*classInfo{}, bound: map[string]string{}}
	p.classMod = m
	var init *ssa.Function
	for _, f := range p.All {
		if f.Name() == "init" && f.Synthetic != "" && f.Pkg == p.Main {
			init = f
		}
	}
	iface := p.interfaceNamed("Class")
	if init == nil || iface == nil {
		m.failed = "there is no interface Class"
		return m
	}
	isClass := func(t types.Type) bool { return t != nil && types.Implements(t, iface) }
	cells := map[*Term]*classInfo{}
	last := newState()
	var eng *Eng
	cl := &Client{Concrete: true, MaxDepth: 12, Recursion: 4}
	cl.Preserve = func(*Term) bool { return true }
	cl.NoInline = func(f *ssa.Function) bool { return f.Pkg != p.Main && f.Origin() == nil }
	cl.OnCall = func(e *Eng, st *State, cc *Call) ([]Out, bool) {
		if _, ok := cc.Common.Value.(*ssa.Builtin); ok && cc.Callee == nil {
			return nil, false
		}
		if cc.Callee == nil {
			return e.Opaque(st, cc), true
		}
		if t := p.newSymbolCall(cc); t != nil {
			return []Out{{St: st, Res: []*Term{t}}}, true
		}
		f := cc.Callee
		if f.Pkg == p.Main && strings.HasPrefix(f.Name(), "init#") {
			return nil, false
		}
		if res := f.Signature.Results(); res.Len() == 1 && isClass(res.At(0).Type()) {
			return nil, false
		}
		return e.Opaque(st, cc), true
	}
	cl.OnLoad = func(e *Eng, st *State, addr *Term, site string, typ types.Type) *Term {
		if addr.op == "glob" && strings.HasSuffix(addr.s, ".init$guard") {
			return tFalse
		}
		return nil
	}
	cl.OnStore = func(e *Eng, st *State, addr, val *Term, fr *Frame, pos token.Pos) {
		last = st
		if addr.op == "glob" && val.op == "cell" && isClass(val.typ) {
			ci := &classInfo{global: addr.s, fields: map[string]*Term{}, term: p.globs[addr.s]}
			cells[val] = ci
			m.classes = append(m.classes, ci)
			m.byGlob[addr.s] = ci
		}
	}
	cl.OnInstr = func(e *Eng, st *State, fr *Frame, in ssa.Instruction, val func(ssa.Value) *Term) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok {
			return
		}
		v := val(mu.Value)
		for v.op == "mki" || v.op == "ct" {
			v = v.args[0]
		}
		if !isClass(v.typ) {
			return
		}
		k := symText(p, val(mu.Key))
		switch {
		case v.op == "gval":
			m.bound[k] = v.s
		case v.op == "cell":
			m.bound[k] = v.s + "!"
		}
	}
	eng = newEng(p, cl)
	was := sameSymbols
	sameSymbols = p.sameSymbol
	eng.Run(init, nil, nil, newState())
	sameSymbols = was
	if len(eng.Undecided) > 0 {
		m.failed = eng.Undecided[0]
	}
	for g := range m.byGlob {
		p.globSome[g] = true
	}
	st := last
	for a, v := range st.mem {
		if a.op != "fld" {
			continue
		}
		ci := cells[a.args[0]]
		if ci == nil && a.args[0].op == "gval" {
			ci = m.byGlob[a.args[0].s]
		}
		if ci == nil {
			continue
		}
		f := a.s[strings.LastIndex(a.s, ".")+1:]
		if a.args[0].op == "cell" && ci.fields[f] != nil {
			continue // changed later
		}
		if v.op == "init" {
			continue
		}
		if el, ok := eng.elements(st, v); ok && (v.op == "slice" || v.op == "slist") {
			for i, x := range el {
				if x.op == "mki" && cells[x.args[0]] != nil {
					el[i] = asNode(cells[x.args[0]].term)
				}
			}
			v = mkTerm("slist", "", "", v.typ, nil, el...)
		}
		ci.fields[f] = v
	}
	for n, v := range m.bound {
		if strings.HasSuffix(v, "!") {
			for c, ci := range cells {
				if c.s+"!" == v {
					m.bound[n] = ci.global
				}
			}
		}
	}
	for _, ci := range m.classes {
		for _, v := range ci.fields {
			if symName(v.typ) || v.op == "mki" {
				if n := symText(p, v); n != "" && ci.name == "" {
					ci.name = n
					m.byName[n] = ci
				}
			}
		}
	}
	sort.Slice(m.classes, func(i, j int) bool { return m.classes[i].name < m.classes[j].name })
	return m
}

// field is what a field of one of the classes holds.
func (m *classModel) field(addr *Term, typ types.Type) *Term {
	if addr.op != "fld" || addr.args[0].op != "gval" {
		return nil
	}
	ci := m.byGlob[addr.args[0].s]
	if ci == nil {
		return nil
	}
	if v := ci.fields[addr.s[strings.LastIndex(addr.s, ".")+1:]]; v != nil {
		return v
	}
	return zeroTerm(typ)
}

// isClassTerm: the value is a class that is known.
func (p *Prog) isClassTerm(t *Term) bool {
	for t.op == "mki" || t.op == "ct" {
		t = t.args[0]
	}
	it := p.interfaceNamed("Class")
	return it != nil && t.typ != nil && (t.op == "gval" || t.op == "cell") && types.Implements(t.typ, it)
}

// interfaceNamed is the interface of the package with the name.
func (p *Prog) interfaceNamed(name string) *types.Interface {
	obj := p.Main.Pkg.Scope().Lookup(name)
	if obj == nil {
		return nil
	}
	it, _ := obj.Type().Underlying().(*types.Interface)
	return it
}

// newSymbolCall is the symbol made of a constant string.
func (p *Prog) newSymbolCall(cc *Call) *Term {
	sig := cc.Common.Signature()
	if cc.Callee.Signature.Recv() != nil || len(cc.Args) != 1 || sig.Results().Len() != 1 || !types.Identical(sig.Params().At(0).Type(), types.Typ[types.String]) || !symName(sig.Results().At(0).Type()) || cc.Args[0].op != "const" {
		return nil
	}
	s := &shape{p: p, st: newState()}
	v := s.sym(unquote(cc.Args[0].s))
	if !isInterface(sig.Results().At(0).Type()) {
		v = v.args[0]
	}
	return v
}

// symText is the name of a symbol that is known.
func symText(p *Prog, t *Term) string {
	for t.op == "mki" || t.op == "ct" {
		t = t.args[0]
	}
	if t.op == "gval" {
		return p.symbolTexts()[t.s]
	}
	if strings.HasPrefix(t.label, "SYM:") && t.label != "SYM:@" {
		return t.label[4:]
	}
	return ""
}
