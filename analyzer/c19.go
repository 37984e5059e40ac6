package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// c19Specs: the operators that make or change bindings, with the environment
// that each form is evaluated in.
func c19Specs() []opSpec {
	var out []opSpec
	add := func(lisp, shape string, list func(*shape) *Term, spec func(*ref) string) *opSpec {
		out = append(out, opSpec{lisp: lisp, shape: shape, list: list, spec: spec})
		return &out[len(out)-1]
	}
	seq := func(forms ...string) func(g *ref) string {
		return func(g *ref) string { return prognSpec(g, forms...) }
	}
	bind := func(s *shape, sym, form string) *Term { return s.list(s.sym(sym), s.form(form)) }
	define := func(ev, result string) func(g *ref) string {
		return func(g *ref) string {
			g.events = append(g.events, ev)
			return result
		}
	}
	two := func(s *shape) *Term {
		return s.list(s.list(bind(s, "S1", "F1"), bind(s, "S2", "F2")), s.form("F3"), s.form("F4"))
	}
	three := func(s *shape) *Term {
		return s.list(s.list(bind(s, "S1", "F1"), bind(s, "S2", "F2"), bind(s, "S3", "F3")), s.form("F4"))
	}
	plain := func(s *shape) *Term {
		return s.list(s.list(s.sym("S1"), bind(s, "S2", "F2")), s.form("F3"))
	}
	again := func(s *shape) *Term {
		return s.list(s.list(bind(s, "S1", "F1"), bind(s, "S1", "F2")), s.form("F3"))
	}
	add("let", "(((S1 F1) (S2 F2)) F3 F4)", two, seq("F1@E", "F2@E", "F3@E{S1=V:F1,S2=V:F2}", "F4@E{S1=V:F1,S2=V:F2}"))
	add("let", "(((S1 F1) (S2 F2) (S3 F3)) F4)", three, seq("F1@E", "F2@E", "F3@E", "F4@E{S1=V:F1,S2=V:F2,S3=V:F3}"))
	add("let", "((S1 (S2 F2)) F3)", plain, seq("F2@E", "F3@E{S1=nil,S2=V:F2}"))
	add("let*", "(((S1 F1) (S2 F2)) F3 F4)", two, seq("F1@E", "F2@E{S1=V:F1}", "F3@E{S1=V:F1,S2=V:F2}", "F4@E{S1=V:F1,S2=V:F2}"))
	add("let*", "(((S1 F1) (S2 F2) (S3 F3)) F4)", three, seq("F1@E", "F2@E{S1=V:F1}", "F3@E{S1=V:F1,S2=V:F2}", "F4@E{S1=V:F1,S2=V:F2,S3=V:F3}"))
	add("let*", "((S1 (S2 F2)) F3)", plain, seq("F2@E{S1=nil}", "F3@E{S1=nil,S2=V:F2}"))
	add("let*", "(((S1 F1) (S1 F2)) F3)", again, seq("F1@E", "F2@E{S1=V:F1}", "F3@E{S1=V:F2}"))
	fns := func(s *shape) *Term {
		return s.list(s.list(
			s.list(s.sym("S1"), s.list(s.sym("S2")), s.form("F1"), s.form("F2")),
			s.list(s.sym("S3"), s.list(s.sym("S4"), s.sym("S5")), s.form("F3"))),
			s.form("F4"))
	}
	add("flet", "(((S1 (S2) F1 F2) (S3 (S4 S5) F3)) F4)", fns, seq("F4@E{S1()=fn(S2)(F1 F2)@E,S3()=fn(S4 S5)(F3)@E}"))
	add("labels", "(((S1 (S2) F1 F2) (S3 (S4 S5) F3)) F4)", fns, seq("F4@E{S1()=fn(S2)(F1 F2)@^,S3()=fn(S4 S5)(F3)@^}"))
	fn := func(s *shape) *Term { return s.list(s.list(s.sym("S1"), s.sym("S2")), s.form("F1"), s.form("F2")) }
	fnr := func(s *shape) *Term {
		rest := s.p.globs[s.p.ModPath+".ampRest"]
		if rest != nil && rest.op != "mki" {
			rest = mkTerm("mki", typeKey(rest.typ), "", rest.typ, nil, rest)
		}
		if rest == nil {
			return s.list(s.list(s.sym("S1"), s.sym("S2")), s.form("F1"), s.form("F2"))
		}
		return s.list(s.list(s.sym("S1"), rest, s.sym("S2")), s.form("F1"), s.form("F2"))
	}
	named := func(list func(s *shape) *Term) func(s *shape) *Term {
		return func(s *shape) *Term { return s.cell("", s.sym("S9"), list(s)) }
	}
	result := func(v string) func(g *ref) string { return func(g *ref) string { return v } }
	add("lambda", "((S1 S2) F1 F2)", fn, result("fn(S1 S2)(F1 F2)@E"))
	add("lambda", "((S1 &rest S2) F1 F2)", fnr, result("fn(S1 & S2)(F1 F2)@E"))
	add("defun", "(S9 (S1 S2) F1 F2)", named(fn), define("define defun S9 fn(S1 S2)(F1 F2)@E", "S9"))
	add("defun", "(S9 (S1 &rest S2) F1 F2)", named(fnr), define("define defun S9 fn(S1 & S2)(F1 F2)@E", "S9"))
	add("defmacro", "(S9 (S1 S2) F1 F2)", named(fn), define("define defun S9 macro(S1 S2)(F1 F2)@E", ""))
	add("defmacro", "(S9 (S1 &rest S2) F1 F2)", named(fnr), define("define defun S9 macro(S1 & S2)(F1 F2)@E", ""))
	add("setq", "(S1 F1)", func(s *shape) *Term { return s.list(s.sym("S1"), s.form("F1")) }, func(g *ref) string { prognSpec(g, "F1@E", "set S1 V:F1@E"); return "V:F1" })
	add("psetq", "(S1 F1 S2 F2)", func(s *shape) *Term {
		return s.list(s.sym("S1"), s.form("F1"), s.sym("S2"), s.form("F2"))
	}, func(g *ref) string { prognSpec(g, "F1@E", "F2@E", "set S1 V:F1@E", "set S2 V:F2@E"); return "" })
	for _, op := range []string{"defglobal", "defconstant"} {
		add(op, "(S1 F1)", func(s *shape) *Term { return s.list(s.sym("S1"), s.form("F1")) }, func(g *ref) string {
			prognSpec(g, "F1@E", "define global S1 V:F1")
			return "S1"
		})
	}
	add("function", "(S1)", func(s *shape) *Term { return s.list(s.sym("S1")) }, define("getfunc S1@E", ""))
	return out
}

// bindersC19 are judged by the specs above only.
var bindersC19 = map[string]bool{"let": true, "let*": true, "flet": true, "labels": true, "lambda": true, "defun": true, "defmacro": true, "setq": true, "psetq": true, "defglobal": true, "defconstant": true, "function": true}

func checkC19(p *Prog, r *Report) {
	for _, sp := range c19Specs() {
		b := anchor(p, r, sp.lisp)
		if b == nil {
			continue
		}
		o := &opRun{p: p, r: r, name: sp.lisp, shape: sp.shape, env: true}
		exits := o.run(b, sp.list)
		badEnv := map[string]bool{}
		for i := range exits {
			exits[i].events = setsTogether(exits[i].events)
			for _, d := range strings.Split(exits[i].x.St.mon["expand"], "; ") {
				if d != "" && d != "E" && !(sp.lisp == "labels" && strings.Contains(d, "S1()=") && strings.Contains(d, "S3()=")) || d == "E" && sp.lisp == "labels" {
					badEnv[d] = true
				}
			}
		}
		for d := range badEnv {
			if sp.lisp == "labels" {
				r.add("expand/labels", p.pos(b.Fn.Pos()), "(labels) expands the macros of a body where not all of its functions are known: %s", d)
			} else {
				r.add("expand/"+sp.lisp, p.pos(b.Fn.Pos()), "(%s) expands the macros of a body in another environment than its own: %s", sp.lisp, d)
			}
		}
		o.judge("("+sp.lisp+")", sp.lisp+"/"+sp.shape, "with the arguments "+sp.shape, p.pos(b.Fn.Pos()), exits, sp.spec, false)
		r.count("operators that bind and argument lists", 1)
	}
	for _, sp := range c10Specs() {
		b := anchor(p, r, sp.lisp)
		if b == nil || bindersC19[sp.lisp] {
			continue
		}
		o := &opRun{p: p, r: r, name: sp.lisp, shape: sp.shape, rounds: sp.rounds, value: sp.value, env: true}
		bad := map[string]bool{}
		for _, x := range o.run(b, sp.list) {
			r.ob(1)
			for _, ev := range x.events {
				form := plainEvent(ev)
				at := strings.TrimPrefix(ev[len(form):], "@")
				if strings.HasPrefix(ev, "define ") || strings.HasPrefix(ev, "get") || at == "E" {
					continue
				}
				if strings.HasPrefix(sp.lisp, "with-open-") && form != "F1" && strings.HasPrefix(at, "E{S1=") && strings.HasSuffix(at, "}") && !strings.Contains(at[5:], "S") {
					continue
				}
				bad[ev] = true
			}
		}
		var l []string
		for ev := range bad {
			l = append(l, ev)
		}
		sort.Strings(l)
		for _, ev := range l {
			r.add("place/"+sp.lisp+"/"+sp.shape+"/"+plainEvent(ev), p.pos(b.Fn.Pos()), "(%s) with the arguments %s evaluates %s in another environment than its own: %s", sp.lisp, sp.shape, plainEvent(ev), strings.TrimPrefix(ev[len(plainEvent(ev)):], "@"))
		}
		r.count("other operators and argument lists", 1)
	}
	callablesC10(p, r, true)
	expansionsC19(p, r)
	laterC19(p, r)
	lookupsC19(p, r)
	evaluatorsC19(p, r)
	r.floor("operators that bind and argument lists", 18)
	r.floor("other operators and argument lists", 30)
	r.floor("functions that run later", 3)
	r.floor("lookups", 10)
	r.floor("evaluators", 4)
}

func (o *opRun) ptrTo(name string) types.Type {
	obj := o.p.Main.Pkg.Scope().Lookup(name)
	if obj == nil {
		return nil
	}
	return types.NewPointer(obj.Type())
}

func asNode(t *Term) *Term { return mkTerm("mki", typeKey(t.typ), "", t.typ, nil, t) }

// begin starts a run outside the operators.
func (o *opRun) begin() *State {
	st := newState()
	o.s = &shape{p: o.p, st: st}
	o.vals = map[string]*Term{}
	env := o.env
	o.env = true
	o.ordinarySymbols()
	o.env = env
	if t := o.ptrTo("World"); t != nil {
		o.world = tSym("entry#world", "world", t)
		st.facts[o.world] = 'X'
	}
	return st
}

// argsFor makes arguments: nodes in order, the world, and anything else unknown.
func (o *opRun) argsFor(f *ssa.Function, world *Term, nodes ...*Term) (args []*Term) {
	for i := range f.Params {
		t := f.Params[i].Type()
		sl, isSlice := t.Underlying().(*types.Slice)
		switch {
		case o.p.isWorldPtr(t):
			args = append(args, world)
		case isSlice && o.p.isNode(sl.Elem()):
			args = append(args, o.slice(sl.Elem(), nodes...))
			nodes = nil
		case len(nodes) > 0 && (o.p.isNode(t) || symName(t)):
			args = append(args, nodes[0])
			nodes = nodes[1:]
		default:
			args = append(args, tSym("entry#"+fmt.Sprint(i), "", t))
		}
	}
	return
}

func failed(e *Eng, x Exit) bool {
	n := len(x.Res)
	return x.Panic || n == 0 || e.nilness(x.St, x.Res[n-1]) == 'X' || e.nilness(x.St, x.Res[n-1]) != 'N' && x.Res[n-1] != tNil
}

// laterC19: the functions that an operator leaves behind run in the environment
// the operator was called in, whoever calls them.
func laterC19(p *Prog, r *Report) {
	value := func(s *shape, name string) *Term {
		t := tSym("arg#"+name, name, s.node())
		s.st.facts[t] = 'X'
		return t
	}
	rest := p.globs[p.ModPath+".ampRest"]
	if rest != nil && rest.op != "mki" {
		rest = asNode(rest)
	}
	methods := func(how string, list func(s *shape) *Term, nargs, nforms int, want []string) {
		b := anchor(p, r, "defmethod")
		if b == nil {
			return
		}
		o := &opRun{p: p, r: r, name: "defmethod", shape: how, env: true}
		st := o.begin()
		o.entity = func(e *Eng, st *State, name string) *Term {
			if name != "FN:S9" {
				return nil
			}
			if g := o.generic0(st); g != nil {
				return asNode(g)
			}
			return nil
		}
		caller := tSym("entry#caller", "CALLER", o.world.typ)
		st.facts[caller] = 'X'
		args := o.argsFor(b.Fn, o.world, list(o.s))
		found := 0
		exits := o.exec(b.Fn.String(), func(e *Eng) (out []Exit) {
			later := o.leavesBehind("_Method", 2)
			e.Run(b.Fn, args, nil, st)
			o.stored = nil
			for _, c := range *later {
				found++
				var vals []*Term
				o.s.st = c.st
				for i := 1; i <= nargs; i++ {
					vals = append(vals, value(o.s, fmt.Sprintf("A%d", i)))
				}
				for _, x := range e.Run(c.t.fn, o.argsFor(c.t.fn, caller, vals...), c.t.args, c.st) {
					if failed(e, x) {
						out = append(out, x)
						continue
					}
					// and once more: the variables are new ones
					var again []*Term
					for i := range vals {
						again = append(again, value(&shape{p: p, st: x.St}, fmt.Sprintf("B%d", i+1)))
					}
					out = append(out, e.Run(c.t.fn, o.argsFor(c.t.fn, caller, again...), c.t.args, x.St)...)
				}
			}
			return
		})
		if found == 0 {
			r.count("methods of another form", 1)
			return
		}
		for _, ev := range want[nforms:] {
			want = append(want, strings.NewReplacer("A1", "B1", "A2", "B2", "A3", "B3").Replace(ev))
		}
		r.count("functions that run later", 1)
		o.judge("(defmethod)", "defmethod/"+how+fmt.Sprintf("/%d", nargs), fmt.Sprintf("with the arguments %s, called with %d values,", how, nargs), p.pos(b.Fn.Pos()), exits, func(g *ref) string {
			return prognSpec(g, want...)
		}, false)
	}
	two := func(s *shape) *Term {
		return s.list(s.sym("S9"), s.list(s.list(s.sym("S1"), s.form("F1")), s.list(s.sym("S2"), s.form("F2"))), s.form("F3"), s.form("F4"))
	}
	methods("(S9 ((S1 F1) (S2 F2)) F3 F4)", two, 2, 3, []string{"getfunc S9@E", "F1@E", "F2@E", "F3@E{S1=A1,S2=A2}", "F4@E{S1=A1,S2=A2}"})
	if rest != nil {
		surplus := func(s *shape) *Term {
			return s.list(s.sym("S9"), s.list(s.list(s.sym("S1"), s.form("F1")), rest, s.list(s.sym("S2"), s.form("F2"))), s.form("F3"))
		}
		for n := 1; n <= 3; n++ {
			methods("(S9 ((S1 F1) &rest (S2 F2)) F3)", surplus, n, 3, []string{"getfunc S9@E", "F1@E", "F2@E", "F3@E{S1=A1,S2=" + [4]string{"", "nil", "(A2)", "(A2 A3)"}[n] + "}"})
		}
	}
	// the initial values of slots
	key := p.globs[p.ModPath+".kwInitForm"]
	spec := p.Main.Pkg.Scope().Lookup("_SlotSpec")
	if key == nil || spec == nil {
		return
	}
	if key.op != "mki" {
		key = asNode(key)
	}
	for _, f := range p.All {
		res := f.Signature.Results()
		if f.Pkg != p.Main || f.Parent() != nil || res.Len() != 2 || !types.Identical(res.At(0).Type(), types.NewPointer(spec.Type())) || !hasWorldParam(p, f.Signature) {
			continue
		}
		o := &opRun{p: p, r: r, name: "defclass", shape: "(S1 :initform F1)", env: true}
		st := o.begin()
		args := o.argsFor(f, o.world, o.s.list(o.s.sym("S1"), key, o.s.form("F1")))
		found := 0
		exits := o.exec(f.String(), func(e *Eng) (out []Exit) {
			later := o.leavesBehind("_SlotSpec", 0)
			e.Run(f, args, nil, st)
			o.stored = nil
			for _, c := range *later {
				found++
				out = append(out, e.Run(c.t.fn, o.argsFor(c.t.fn, o.world), c.t.args, c.st)...)
			}
			return
		})
		if found == 0 {
			r.count("initial values of another form", 1)
			continue
		}
		r.count("functions that run later", 1)
		o.judge("(defclass)", "defclass/initform", "for the initial value of a slot", p.pos(f.Pos()), exits, func(g *ref) string { return g.eval("F1@E") }, false)
	}
}

type laterFn struct {
	t  *Term
	st *State
}

// leavesBehind collects the functions stored in the struct, with at least so
// many parameters.
func (o *opRun) leavesBehind(owner string, params int) *[]laterFn {
	var out []laterFn
	o.stored = func(st *State, a, v *Term) {
		if a.op == "fld" && strings.Contains(a.s, "."+owner+".") && v.op == "clo" {
			if sig, ok := v.typ.Underlying().(*types.Signature); ok && sig.Params().Len() >= params {
				out = append(out, laterFn{v, st.clone()})
			}
		}
	}
	return &out
}

// generic0 is a generic function without methods.
func (o *opRun) generic0(st *State) *Term {
	was := o.s.st
	o.s.st = st
	defer func() { o.s.st = was }()
	mt := o.p.Main.Pkg.Scope().Lookup("_Method")
	if mt == nil {
		return nil
	}
	return o.receiver("_Generic", map[string]*Term{"methods": o.slice(types.NewPointer(mt.Type()))})
}

// setsTogether puts assignments that follow each other in order.
func setsTogether(events []string) []string {
	out := append([]string{}, events...)
	for i := 0; i < len(out); i++ {
		j := i
		for j < len(out) && strings.HasPrefix(out[j], "set ") {
			j++
		}
		if j > i {
			sort.Strings(out[i:j])
			i = j
		}
	}
	return out
}

// expansionsC19: the macros of a body are expanded where it is, and only names
// of macros are.
func expansionsC19(p *Prog, r *Report) {
	seen := map[*ssa.Function]bool{}
	for _, f := range p.All {
		if f.Pkg != p.Main || seen[f] || f.Parent() != nil {
			continue
		}
		if !p.expands(f) {
			continue
		}
		seen[f] = true
		for _, macro := range []bool{true, false} {
			what := "an ordinary function"
			o := &opRun{p: p, r: r, name: f.Name(), env: true}
			st := o.begin()
			kind := "_Lambda"
			if macro {
				kind, what = "_Macro", "a macro"
			}
			if o.lambda(kind, 1, false) == nil {
				continue
			}
			o.entity = func(e *Eng, st *State, name string) *Term {
				if name == "FN:S4" {
					was := o.s.st
					o.s.st = st
					defer func() { o.s.st = was }()
					o.ordinarySymbols()
					return asNode(o.lambda(kind, 1, false))
				}
				if t := o.ptrTo("_Lambda"); t != nil && strings.HasPrefix(name, "FN:") {
					x := tSym("plain#"+name, name, t)
					st.facts[x] = 'X'
					return asNode(x)
				}
				return nil
			}
			o.value = func(s *shape, form string) []*Term {
				if plainEvent(form) == "F9" {
					return []*Term{s.sym("S5")}
				}
				return nil
			}
			s := o.s
			code := s.list(s.cell("", s.sym("S4"), s.list(s.form("F1"))), s.list(s.form("F3"), s.form("F2")), s.form("F2"), s.sym("S6"))
			args := o.argsFor(f, o.world, code)
			exits := o.exec(f.String(), func(e *Eng) []Exit { return e.Run(f, args, nil, st) })
			r.count("expansions", 1)
			o.judge(fnName(f), "expand/"+fnName(f)+"/"+kind, "given ((S4 F1) (F3 F2) F2 S6) where S4 is "+what, p.pos(f.Pos()), exits, func(g *ref) string {
				if macro {
					g.eval("F9@L{S1=F1}")
					return "(S5 (F3 F2) F2 S6)"
				}
				return "((S4 F1) (F3 F2) F2 S6)"
			}, false)
		}
	}
}

// expands: the function replaces the macro calls in a list of forms.
func (p *Prog) expands(f *ssa.Function) bool {
	var nodes []*Term
	for i := range f.Params {
		nodes = append(nodes, tSym("x", "", f.Params[i].Type()))
	}
	return p.macroExpansion(&Call{Callee: f, Args: nodes}) != nil
}

// chain is an environment inside two others; what each of them binds is known.
type chain struct {
	world  *Term
	vars   []*Term // the tables, from the inside
	funcs  []*Term
	layers int
}

// chainOf makes environments with the variables (and functions) given, from the
// inside; nil if environments have another form.
func (o *opRun) chainOf(st *State, bound [][]string) *chain {
	p := o.p
	wt := o.ptrTo("World")
	if wt == nil {
		return nil
	}
	ws, ok := derefType(wt).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	tableFor := func(it types.Type) types.Type {
		scope := p.Main.Pkg.Scope()
		for _, n := range scope.Names() {
			if tn, ok := scope.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if _, ok := tn.Type().Underlying().(*types.Map); ok && types.Implements(tn.Type(), it.Underlying().(*types.Interface)) {
					return tn.Type()
				}
			}
		}
		return nil
	}
	c := &chain{layers: len(bound)}
	parent := tNil
	var vars, funcs []*Term
	for i := len(bound) - 1; i >= 0; i-- {
		id := fmt.Sprintf("chain#%d", i)
		w := mkTerm("cell", id, "", wt, nil)
		st.esc[mkTerm("escid", id, "", nil, nil)] = false
		for k := 0; k < ws.NumFields(); k++ {
			f := ws.Field(k)
			addr := mkTerm("fld", typeKey(derefType(wt))+"."+f.Name(), "", types.NewPointer(f.Type()), nil, w)
			switch {
			case p.isWorldPtr(f.Type()):
				st.mem[addr] = parent
			case isInterface(f.Type()):
				tt := tableFor(f.Type())
				if tt == nil {
					return nil
				}
				if len(bound[i]) == 0 {
					st.mem[addr] = tNil
					continue
				}
				mt := tt.Underlying().(*types.Map)
				mark := callMark(mt)
				mid := id + f.Name()
				m := mkTerm("cell", mid, "map", tt, nil)
				st.esc[mkTerm("escid", mid, "", nil, nil)] = false
				for _, n := range bound[i] {
					v := tSym(fmt.Sprintf("bound#%d%s%s", i, n, mark), fmt.Sprintf("%s%s in %d", n, mark, i), mt.Elem())
					st.facts[v] = 'X'
					st.mem[mkTerm("ment", "", "", nil, nil, m, o.s.sym(n))] = v
				}
				st.mem[addr] = mkTerm("mki", typeKey(tt), "", tt, nil, m)
				if mark == "" {
					vars = append([]*Term{m}, vars...)
				} else {
					funcs = append([]*Term{m}, funcs...)
				}
			default:
				x := tSym("chain#"+f.Name(), "STATE", f.Type())
				st.facts[x] = 'X'
				st.mem[addr] = x
			}
		}
		parent = w
	}
	c.world, c.vars, c.funcs = parent, vars, funcs
	return c
}

// lookupsC19: a name means its innermost binding, and an assignment changes that
// one only.
func lookupsC19(p *Prog, r *Report) {
	bound := [][]string{{"S1", "S2"}, {}, {"S1", "S3"}, {"S1", "S2", "S4"}}
	inner := map[string]int{"S1": 0, "S2": 0, "S3": 2, "S4": 3}
	world := o0(p).ptrTo("World")
	if world == nil {
		return
	}
	ms := p.SSA.MethodSets.MethodSet(world)
	for i := 0; i < ms.Len(); i++ {
		f := p.SSA.MethodValue(ms.At(i))
		if f == nil || f.Synthetic != "" || f.Pkg != p.Main {
			continue
		}
		sig := f.Signature
		res := sig.Results()
		if sig.Params().Len() < 1 || !symName(sig.Params().At(0).Type()) {
			continue
		}
		isSet := sig.Params().Len() == 2 && p.isNode(sig.Params().At(1).Type()) && res.Len() == 1 && errResult(sig) == 0
		isGet := sig.Params().Len() == 1 && res.Len() == 2 && errResult(sig) == 1
		if !isGet && !isSet {
			continue
		}
		mark := ""
		if isGet && !p.isNode(res.At(0).Type()) {
			mark = "()"
		}
		for _, name := range []string{"S1", "S2", "S3", "S4", "S5"} {
			o := &opRun{p: p, r: r, name: f.Name()}
			st := o.begin()
			c := o.chainOf(st, bound)
			if c == nil {
				r.count("environments of another form", 1)
				return
			}
			val := tSym("arg#value", "NEW", o.s.node())
			st.facts[val] = 'X'
			e := newEng(p, o.client())
			layer, there := inner[name]
			r.count("lookups", 1)
			n := 0
			for _, x := range e.Run(f, o.argsFor(f, c.world, o.s.sym(name), val), nil, st) {
				if x.Panic {
					continue
				}
				n++
				r.ob(1)
				bad := failed(e, x)
				what := fmt.Sprintf("%s of a name bound in environment %d (of 0 to 3, 0 the innermost)", fnName(f), layer)
				if !there {
					what = fnName(f) + " of a name without a binding"
				}
				if bad == there {
					r.add("lookup/"+f.Name()+"/"+name, p.pos(f.Pos()), "%s %s", what, map[bool]string{true: "fails", false: "does not fail"}[bad])
					continue
				}
				if there && isGet {
					want := fmt.Sprintf("%s%s in %d", name, mark, layer)
					if got := o.show(e, x.St, x.Res[0]); got != want {
						r.add("lookup/"+f.Name()+"/"+name, p.pos(f.Pos()), "%s gives %s", what, got)
					}
				}
				// the bindings afterwards
				for a, v := range x.St.mem {
					if a.op != "ment" || !strings.HasPrefix(a.args[0].s, "chain#") {
						continue
					}
					k := o.show(e, x.St, a.args[1])
					l := int(a.args[0].s[len("chain#")] - '0')
					if got := o.show(e, x.St, v); isSet && there && l == layer && k == name && mkCallMark(a.args[0]) == "" {
						if v != val {
							r.add("assign/"+f.Name()+"/"+name, p.pos(f.Pos()), "%s leaves %s there", what, got)
						}
					} else if got != fmt.Sprintf("%s%s in %d", k, mkCallMark(a.args[0]), l) {
						r.add("assign/"+f.Name()+"/"+name, p.pos(f.Pos()), "%s changes the binding of %s in environment %d", what, k, l)
					}
				}
			}
			if n == 0 {
				r.add("no-exit/"+f.Name()+"/"+name, p.pos(f.Pos()), "%s has no way out", fnName(f))
			}
			r.engine(e)
		}
	}
}

func mkCallMark(m *Term) string {
	if mt, ok := m.typ.Underlying().(*types.Map); ok {
		return callMark(mt)
	}
	return ""
}

func o0(p *Prog) *opRun { return &opRun{p: p} }

// libraryC19: the functions of the library are defined in the outermost
// environment, whoever is the first to use them.
func libraryC19(p *Prog, r *Report, f *ssa.Function) {
	o := &opRun{p: p, r: r, name: f.Name(), env: true}
	st := o.begin()
	c := o.chainOf(st, [][]string{{"S1"}, {}, {"S2"}})
	recv := o.receiver("LispString", nil)
	if c == nil || recv == nil {
		return
	}
	args := o.argsFor(f, c.world, recv)
	args[0] = recv
	exits := o.exec(f.String(), func(e *Eng) []Exit { return e.Run(f, args, nil, st) })
	bad := map[string]bool{}
	n := 0
	for _, x := range exits {
		r.ob(1)
		for _, ev := range x.events {
			if strings.HasPrefix(ev, "interpret@") {
				n++
				if ev != "interpret@C2" {
					bad[ev] = true
				}
			}
		}
	}
	for ev := range bad {
		r.add("library/"+fnName(f), p.pos(f.Pos()), "%s defines a function of the library in another environment than the outermost: %s (C0 is the caller's, C2 the outermost)", fnName(f), strings.TrimPrefix(ev, "interpret@"))
	}
	if n > 0 {
		r.count("definitions of library functions", n)
	}
}

// evaluatorsC19: how each kind of form is evaluated.
func evaluatorsC19(p *Prog, r *Report) {
	scope := p.Main.Pkg.Scope()
	eval := func(typ string) *ssa.Function {
		obj := scope.Lookup(typ)
		if obj == nil {
			return nil
		}
		for _, t := range []types.Type{obj.Type(), types.NewPointer(obj.Type())} {
			if sel := p.SSA.MethodSets.MethodSet(t).Lookup(p.Main.Pkg, "Eval"); sel != nil {
				if f := p.SSA.MethodValue(sel); f != nil && f.Synthetic == "" && hasWorldParam(p, f.Signature) || f != nil && typ == "World" {
					return f
				}
			}
		}
		return nil
	}
	try := func(typ, how string, node func(o *opRun, st *State) *Term, value func(s *shape, form string) []*Term, spec func(g *ref) string) {
		f := eval(typ)
		if f == nil {
			r.count("evaluators of another form", 1)
			return
		}
		o := &opRun{p: p, r: r, name: f.Name(), env: true, value: value}
		st := o.begin()
		n := node(o, st)
		var args []*Term
		for i := range f.Params {
			t := f.Params[i].Type()
			switch {
			case o.p.isWorldPtr(t):
				args = append(args, o.world)
			case i == 0 && typ != "World":
				if _, ptr := t.Underlying().(*types.Pointer); ptr || n.op == "mki" {
					n = n.args[0]
				}
				args = append(args, n)
			case o.p.isNode(t):
				args = append(args, n)
			default:
				args = append(args, tSym("entry#"+fmt.Sprint(i), "", t))
			}
		}
		exits := o.exec(f.String(), func(e *Eng) []Exit { return e.Run(f, args, nil, st) })
		r.count("evaluators", 1)
		o.judge(fnName(f), "eval/"+typ+"/"+how, "of "+how, p.pos(f.Pos()), exits, spec, false)
	}
	if f := eval("LispString"); f != nil {
		libraryC19(p, r, f)
	}
	events := func(result string, evs ...string) func(g *ref) string {
		return func(g *ref) string {
			g.events = append(g.events, evs...)
			return result
		}
	}
	try("_Symbol", "a variable", func(o *opRun, st *State) *Term { return o.s.sym("S1") }, nil, events("VAR:S1", "get S1@E"))
	try("Cons", "(S1 F1 F2)", func(o *opRun, st *State) *Term {
		return o.s.cell("", o.s.sym("S1"), o.s.list(o.s.form("F1"), o.s.form("F2")))
	}, nil, events("R", "getfunc S1@E", "call(FN:S1 (F1 F2))@E"))
	try("Cons", "(F1 F2)", func(o *opRun, st *State) *Term { return o.s.list(o.s.form("F1"), o.s.form("F2")) }, func(s *shape, form string) []*Term {
		fr := scope.Lookup("FunctionRef")
		if plainEvent(form) != "F1" || fr == nil {
			return nil
		}
		st, ok := fr.Type().Underlying().(*types.Struct)
		if !ok || st.NumFields() != 1 {
			return nil
		}
		fn := tSym("arg#fn", "FN", st.Field(0).Type())
		s.st.facts[fn] = 'X'
		return []*Term{mkTerm("mki", typeKey(fr.Type()), "", fr.Type(), nil, mkTerm("struct", typeKey(fr.Type()), "", fr.Type(), nil, fn))}
	}, events("R", "F1@E", "call(FN (F2))@E"))
	try("World", "a form", func(o *opRun, st *State) *Term { return o.s.form("F1") }, nil, events("R", "getfunc op-F1@E", "call(FN:op-F1 nil)@E"))
	try("World", "a string", func(o *opRun, st *State) *Term {
		t := scope.Lookup("String").Type()
		return asNode(tSym("arg#string", "TEXT", t))
	}, nil, events("TEXT"))
	try("World", "a quoted value", func(o *opRun, st *State) *Term {
		t := scope.Lookup("Uneval").Type()
		return mkTerm("mki", typeKey(t), "", t, nil, mkTerm("struct", typeKey(t), "", t, nil, o.s.form("F1")))
	}, nil, events("F1"))
}
