package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// Generic functions: methods are defined by interpreting defmethod, and the
// generic function is then interpreted on objects of known classes.

// lattice is a set of classes with their direct superclasses.
type lattice map[string][]string

func parseLattice(s string) lattice {
	l := lattice{}
	for _, c := range strings.Fields(s) {
		name, supers, _ := strings.Cut(c, ":")
		l[name] = nil
		if supers != "" {
			l[name] = strings.Split(supers, ",")
		}
	}
	return l
}

func (l lattice) inherits(c, d string) bool {
	if d == "<object>" {
		return c != d
	}
	for _, s := range l[c] {
		if s == d || l.inherits(s, d) {
			return true
		}
	}
	return false
}

func (l lattice) instance(c, d string) bool { return c == d || l.inherits(c, d) }

// precedes: the class gets to c by an earlier one of its superclasses than to d.
func (l lattice) precedes(class, c, d string) bool {
	for _, s := range l[class] {
		a, b := l.instance(s, c), l.instance(s, d)
		if a && b {
			return l.precedes(s, c, d)
		}
		if a || b {
			return a
		}
	}
	return false
}

type methodSpec struct {
	params []string
	rest   string
}

func (m methodSpec) at(i int) string {
	if i < len(m.params) {
		return m.params[i]
	}
	return m.rest
}

func (m methodSpec) String() string {
	s := strings.Join(m.params, " ")
	if m.rest != "" {
		s = strings.TrimSpace(s + " &rest " + m.rest)
	}
	return "(" + s + ")"
}

type genericRun struct {
	lat     string
	methods []methodSpec
	args    []string
}

func (g genericRun) want(l lattice) int {
	best := -1
	for i := len(g.methods) - 1; i >= 0; i-- {
		m := g.methods[i]
		if len(m.params) > len(g.args) || m.rest == "" && len(m.params) != len(g.args) {
			continue
		}
		ok := true
		for k, a := range g.args {
			ok = ok && l.instance(a, m.at(k))
		}
		if ok && (best < 0 || g.more(l, m, g.methods[best])) {
			best = i
		}
	}
	return best
}

func (g genericRun) more(l lattice, m, o methodSpec) bool {
	for k, a := range g.args {
		c, d := m.at(k), o.at(k)
		if c == d {
			continue
		}
		return l.inherits(c, d) || !l.inherits(d, c) && l.precedes(a, c, d)
	}
	return false
}

// parse "K1 K2; K1 &rest K2" as methods.
func parseMethods(s string) (out []methodSpec) {
	for _, m := range strings.Split(s, ";") {
		var sp methodSpec
		f := strings.Fields(m)
		for i := 0; i < len(f); i++ {
			if f[i] == "&rest" {
				sp.rest = f[i+1]
				break
			}
			sp.params = append(sp.params, f[i])
		}
		out = append(out, sp)
	}
	return
}

const builtInLattice = " <number> <integer>:<number>"

func c24Runs() (out []genericRun) {
	add := func(lat, methods string, args ...string) {
		for _, a := range args {
			out = append(out, genericRun{lat, parseMethods(methods), strings.Fields(a)})
		}
	}
	// every order of up to three methods for the classes of a chain
	chain := "K1 K2:K1 K3:K2 K4"
	names := []string{"K1", "K2", "K3", "K4", "<object>"}
	for i, a := range names {
		add(chain, a, "K3")
		for j, b := range names {
			add(chain, a+"; "+b, "K3")
			for k, c := range names {
				if i != j && j != k && i != k {
					add(chain, a+"; "+b+"; "+c, "K3")
				}
			}
		}
	}
	// several superclasses
	multi := "K1 K2 K3:K1,K2 K4:K2,K1 K5:K3"
	for _, ms := range []string{"K1; K2", "K2; K1", "K1; <object>; K2", "K3; K1", "K1; K3; K2"} {
		add(multi, ms, "K3", "K4", "K5")
	}
	diamond := "K1 K2:K1 K3:K1 K4:K2,K3 K5:K4"
	for _, ms := range []string{"K2; K3", "K3; K2", "K1; K3; K2", "K3; K1", "K1; K3", "K4; K2; K3", "K3; K4; K1"} {
		add(diamond, ms, "K4", "K5", "K3", "K2")
	}
	deep := "K1 K2 K3:K1 K4:K2 K5:K3,K4 K6:K4,K3"
	for _, ms := range []string{"K1; K2", "K2; K1", "K1; K4", "K3; K2", "K2; K3"} {
		add(deep, ms, "K5", "K6")
	}
	// two parameters: the left one counts first
	for _, ms := range []string{
		"K1 K1; K2 K2", "K2 K2; K1 K1", "K1 K2; K2 K1", "K2 K1; K1 K2", "K3 K1; K1 K3", "K1 K3; K3 K1", "K2 K1; K2 K2", "K2 K2; K2 K1",
		"K1 K1; K1 K2; K2 K1", "K2 K1; K1 K2; K1 K1", "K1 K4; K1 K1", "K4 K1; K1 K1", "<object> K2; K2 <object>", "K2 <object>; <object> K2", "K1 K1; K1 K1",
	} {
		add(chain, ms, "K3 K3", "K2 K1", "K1 K2")
	}
	// the number of operands
	add(chain, "K1", "", "K1 K1")
	add(chain, "K1 K1", "", "K1", "K1 K1 K1")
	add(chain, "&rest K1", "", "K1", "K2 K1", "K2 K4", "K4", "K2 K3 K1")
	add(chain, "K1 &rest K2", "", "K1", "K1 K1", "K1 K2", "K1 K3 K2", "K1 K2 K1", "K4 K2")
	add(chain, "K1 &rest K1; K1 &rest K2", "K1", "K2 K3", "K2 K3 K1", "K2 K3 K2")
	add(chain, "K1 &rest K2; K1 &rest K1", "K1", "K2 K3", "K2 K3 K1", "K2 K3 K2")
	add(chain, "K2 &rest K1; K1 &rest K2", "K2 K2", "K1 K2", "K1 K1")
	// built-in classes
	for _, ms := range []string{"<number>; <integer>", "<integer>; <number>", "<object>; <number>", "<number>; <object>", "<integer>; <object>; K1"} {
		add("K1"+builtInLattice, ms, "<integer>", "K1")
	}
	add("K1 K2:K1"+builtInLattice, "K1 <number>; K2 <integer>", "K1 <integer>", "K2 <integer>", "<integer> K1")
	add("K1 K2:K1"+builtInLattice, "K1 <integer>; K2 <number>", "K1 <integer>", "K2 <integer>", "<integer> K1")
	return
}

// keep makes the value reachable wherever the interpreter's state is.
func (o *opRun) keep(st *State, name string, v *Term) {
	st.mem[mkTerm("fld", "ghost."+name, "", types.NewPointer(tBoolT), nil, o.world)] = v
}

// classCells makes standard classes.
func (o *opRun) classCells(st *State, l lattice) map[string]*Term {
	obj := o.p.Main.Pkg.Scope().Lookup("_StandardClass")
	if obj == nil {
		return nil
	}
	named := obj.Type().(*types.Named)
	s, ok := named.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	out := map[string]*Term{}
	base := func(n string) *Term {
		if ci := o.p.classes().byName[n]; ci != nil {
			return asNode(ci.term)
		}
		return asNode(mkTerm("cell", "shape#class:F:"+n, "", types.NewPointer(named), nil))
	}
	for n := range l {
		out[n] = base(n)
	}
	out["<object>"] = base("<object>")
	var names []*Term
	for n := range l {
		names = append(names, o.s.sym("class-"+n), o.s.sym("class-" + n).args[0])
	}
	o.s.distinct(names...)
	for n, c := range out {
		if strings.HasPrefix(n, "<") {
			continue
		}
		o.keep(st, n, c)
		st.esc[mkTerm("escid", c.args[0].s, "", nil, nil)] = false
		var supers []*Term
		for _, d := range l[n] {
			supers = append(supers, out[d])
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			addr := mkTerm("fld", o.p.Main.Pkg.Name()+"._StandardClass."+f.Name(), "", types.NewPointer(f.Type()), nil, c.args[0])
			sl, isSlice := f.Type().Underlying().(*types.Slice)
			switch {
			case symName(f.Type()):
				sym := o.s.sym("class-" + n)
				if !isInterface(f.Type()) {
					sym = sym.args[0]
				}
				st.mem[addr] = sym
			case isSlice && isInterface(sl.Elem()):
				st.mem[addr] = o.slice(sl.Elem(), supers...)
			case types.Identical(f.Type(), types.Typ[types.Int]):
				k, _ := strconv.Atoi(strings.TrimLeft(n, "K"))
				st.mem[addr] = tConst(strconv.Itoa(k), f.Type())
			}
		}
	}
	return out
}

// instance makes an object of the class.
func (o *opRun) instance(st *State, name string, class *Term) *Term {
	if class.args[0].op == "gval" {
		if t := o.p.Main.Pkg.Scope().Lookup("Integer"); t != nil && strings.HasSuffix(class.args[0].s, ".integerClass") {
			v := tSym("shape#sym:"+name, "SYM:"+name, t.Type())
			return asNode(v)
		}
		return nil
	}
	obj := o.p.Main.Pkg.Scope().Lookup("_StandardObject")
	if obj == nil {
		return nil
	}
	named := obj.Type().(*types.Named)
	s, ok := named.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	c := mkTerm("cell", "shape#object:F:"+name, "", types.NewPointer(named), nil)
	st.esc[mkTerm("escid", c.s, "", nil, nil)] = false
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if types.Identical(f.Type(), class.args[0].typ) {
			st.mem[mkTerm("fld", o.p.Main.Pkg.Name()+"._StandardObject."+f.Name(), "", types.NewPointer(f.Type()), nil, c)] = class.args[0]
		}
	}
	return asNode(c)
}

// raised describes the condition of an error.
func (o *opRun) raised(e *Eng, st *State, cc *Call) string {
	for _, a := range cc.Args {
		if a.op != "mki" || a.args[0].op != "cell" {
			continue
		}
		n := namedOf(a.typ)
		if n == nil {
			continue
		}
		out := n.Obj().Name()
		if s, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if f := s.Field(i); symName(f.Type()) {
					if v := e.Load(st, e.fldAddr(a.args[0], f, n), "raised", f.Type()); v.op == "gval" || v.op == "mki" && v.args[0].op == "gval" {
						out += " " + symText(o.p, v)
					}
				}
			}
		}
		return out
	}
	return ""
}

func checkC24(p *Prog, r *Report) {
	call := p.callMethod("_Generic")
	define := anchor(p, r, "defmethod")
	if call == nil || define == nil {
		r.add("missing/_Generic", "-", "there is no kind of function _Generic with a method Call")
		return
	}
	if m := p.classes(); m.failed != "" || m.byName["<object>"] == nil {
		r.add("classes", "-", "the classes that the interpreter comes with are not made by the initialisation of the package in a way that is understood: %s", m.failed)
		return
	}
	rest := p.globs[p.ModPath+".ampRest"]
	if rest != nil && rest.op != "mki" {
		rest = asNode(rest)
	}
	where := p.pos(call.Pos())
	for _, run := range c24Runs() {
		run := run
		l := parseLattice(run.lat)
		var ms []string
		hasRest := false
		for _, m := range run.methods {
			ms = append(ms, m.String())
			hasRest = hasRest || m.rest != ""
		}
		if hasRest && rest == nil {
			continue
		}
		how := fmt.Sprintf("with methods for %s and the classes %s called with objects of (%s)", strings.Join(ms, ", "), run.lat, strings.Join(run.args, " "))
		o := &opRun{p: p, r: r, name: "generic", shape: how, env: true, classes: true}
		st := o.begin()
		var gen *Term
		var cells map[string]*Term
		o.entity = func(e *Eng, st *State, name string) *Term {
			if name == "FN:S8" && gen != nil {
				return asNode(gen)
			}
			return nil
		}
		o.value = func(s *shape, form string) []*Term {
			if name, ok := strings.CutPrefix(form, "class-form-"); ok && cells[name] != nil {
				return []*Term{cells[name]}
			}
			if n, ok := strings.CutPrefix(form, "F"); ok {
				if k, err := strconv.Atoi(n); err == nil && k >= 5 && k-5 < len(run.args) {
					if v := o.instance(s.st, "A"+n, cells[run.args[k-5]]); v != nil {
						return []*Term{v}
					}
				}
			}
			return nil
		}
		gen = o.generic0(st)
		cells = o.classCells(st, l)
		if gen == nil || cells == nil {
			r.count("generic functions of another form", 1)
			continue
		}
		o.keep(st, "generic", gen)
		defined := true
		exits := o.exec(call.String(), func(e *Eng) (out []Exit) {
			states := []*State{st}
			for i, m := range run.methods {
				var next []*State
				for _, st := range states {
					o.s.st = st
					var params []*Term
					for k, c := range m.params {
						params = append(params, o.s.list(o.s.sym(fmt.Sprintf("S%d", k+1)), o.s.form("class-form-"+c)))
					}
					if m.rest != "" {
						params = append(params, rest, o.s.list(o.s.sym("S9"), o.s.form("class-form-"+m.rest)))
					}
					list := o.s.list(o.s.sym("S8"), o.s.list(params...), o.s.form(fmt.Sprintf("F%d", i+1)))
					for _, x := range e.Run(define.Fn, o.argsFor(define.Fn, o.world, list), nil, st) {
						if failed(e, x) {
							continue
						}
						delete(x.St.mon, "ev")
						next = append(next, x.St)
					}
				}
				states = next
			}
			defined = len(states) > 0
			for _, st := range states {
				o.s.st = st
				var l []*Term
				for i := range run.args {
					l = append(l, o.s.form(fmt.Sprintf("F%d", i+5)))
				}
				args := []*Term{gen}
				for i := 1; i < len(call.Params); i++ {
					switch t := call.Params[i].Type(); {
					case p.isWorldPtr(t):
						args = append(args, o.world)
					case p.isNode(t):
						args = append(args, o.s.list(l...))
					default:
						args = append(args, tSym("entry#"+fmt.Sprint(i), "", t))
					}
				}
				out = append(out, e.Run(call, args, nil, st)...)
			}
			return
		})
		r.count("generic functions and calls", 1)
		key := "dispatch/" + how
		if !defined {
			r.add(key, p.pos(define.Fn.Pos()), "(defmethod) does not define the methods %s", strings.Join(ms, ", "))
			continue
		}
		w := run.want(l)
		var bound []string
		var operands []string
		for i := range run.args {
			operands = append(operands, fmt.Sprintf("F%d@E", i+5))
		}
		if w >= 0 {
			m := run.methods[w]
			for i := range m.params {
				bound = append(bound, fmt.Sprintf("S%d=A%d", i+1, i+5))
			}
			if m.rest != "" {
				var l []string
				for i := len(m.params); i < len(run.args); i++ {
					l = append(l, fmt.Sprintf("A%d", i+5))
				}
				v := "nil"
				if len(l) > 0 {
					v = "(" + strings.Join(l, " ") + ")"
				}
				bound = append(bound, "S9="+v)
			}
			in := "E"
			if len(bound) > 0 {
				in += "{" + strings.Join(bound, ",") + "}"
			}
			o.judge(fnName(call), key, how, where, exits, func(g *ref) string {
				for _, f := range operands {
					g.eval(f)
				}
				return g.eval(fmt.Sprintf("F%d@%s", w+1, in))
			}, false)
			for i := range exits {
				if x := &exits[i]; x.err != "" && !strings.HasPrefix(x.err, "pm:") {
					r.add("fails/"+how, where, "%s %s ends in the error %s", fnName(call), how, x.err)
				}
			}
			continue
		}
		n := 0
		for i := range exits {
			x := &exits[i]
			r.ob(1)
			if len(withoutReads(x.events, operands)) >= len(operands) {
				n++
				if c := x.x.St.mon["raised"]; !strings.HasPrefix(x.err, "pm:") && c != "" && c != "_UndefinedEntity function" {
					r.add("raises/"+how, where, "%s %s has no method for them, and the error is not that of an undefined function but %s", fnName(call), how, c)
				}
			}
			if x.err == "" {
				r.add("accepts/"+how, where, "%s %s has no method for them, and there is no error (it evaluates %s)", fnName(call), how, strings.Join(x.events, ", "))
			} else if got, want := strings.Join(withoutReads(x.events, operands), ", "), strings.Join(operands, ", "); got != want && !(got == "" || strings.HasPrefix(want, got+", ")) {
				r.add("differs/"+key, where, "%s %s evaluates %s, not %s", fnName(call), how, orNothing(got), orNothing(want))
			}
		}
		if n == 0 {
			r.add("no-exit/"+key, where, "%s %s has no way out", fnName(call), how)
		}
	}
	r.floor("generic functions and calls", 150)
}
