package main

import (
	"go/types"
	"maps"
	"slices"
	"sort"
	"strings"
)

// keywordNamed is the value of the variable that holds the keyword.
func (p *Prog) keywordNamed(text string) *Term {
	var names []string
	for g, t := range p.symbolTexts() {
		if t == text {
			names = append(names, g)
		}
	}
	sort.Strings(names)
	for _, g := range names {
		if v := p.globs[g]; v != nil {
			if v.op != "mki" {
				v = asNode(v)
			}
			return v
		}
	}
	return nil
}

// lisp makes the argument list of an operator from its text: F1 is a form, S1
// a symbol, C:x a form for the class x.
func lisp(p *Prog, text string) func(s *shape) *Term {
	return func(s *shape) *Term {
		words := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(text))
		var list func() *Term
		list = func() *Term {
			var l []*Term
			for len(words) > 0 {
				w := words[0]
				words = words[1:]
				switch {
				case w == "(":
					l = append(l, list())
				case w == ")":
					return s.list(l...)
				case strings.HasPrefix(w, "C:"):
					l = append(l, s.form("class-form-"+w[2:]))
				case len(w) == 2 && w[0] == 'F':
					l = append(l, s.form(w))
				case w[0] == ':' || w[0] == '&':
					if k := p.keywordNamed(w); k != nil {
						l = append(l, k)
						break
					}
					l = append(l, s.sym(w))
				default:
					if k := p.symbolNamed(w); k != nil {
						l = append(l, k)
						break
					}
					l = append(l, s.sym(w))
				}
			}
			return s.list(l...)
		}
		return list()
	}
}

type classScript struct {
	how   string
	steps []sStep
}

func c26Scripts(p *Prog) (out []classScript) {
	add := func(how string, steps ...sStep) { out = append(out, classScript{how, steps}) }
	def := func(text string) sStep {
		name, _, _ := strings.Cut(text, " ")
		return sStep{op: "defclass", text: text, list: lisp(p, text), want: name}
	}
	method := func(text string) sStep {
		name, _, _ := strings.Cut(text, " ")
		return sStep{op: "defmethod", text: text, list: lisp(p, text), want: name}
	}
	create := func(bind, class string, args ...string) sStep {
		return sStep{op: "create", args: append([]string{"class:" + class}, args...), bind: bind}
	}
	evals := func(s sStep, forms ...string) sStep { s.events = forms; s.any = true; return s }
	call := func(want, fn string, args ...string) sStep {
		return sStep{op: "call", fn: fn, args: args, want: want}
	}
	is := func(want, op string, args ...string) sStep { return sStep{op: op, args: args, want: want} }

	add("all options of one slot",
		def("K1 () ((S1 :initarg S2 :initform F1 :reader S3 :writer S4 :accessor S5 :boundp S6))"),
		evals(create("x", "K1"), "F1"),
		call("V:F1", "S3", "x"), call("V:F1", "S5", "x"), call("t", "S6", "x"),
		create("y", "K1", "S2", "A1"),
		call("=A1", "S3", "y"), call("=A1", "S5", "y"), call("V:F1", "S3", "x"),
		call("=A2", "S4", "A2", "x"), call("=A2", "S3", "x"), call("=A2", "S5", "x"), call("=A1", "S3", "y"),
		call("=A3", "set-S5", "A3", "y"), call("=A3", "S3", "y"), call("=A2", "S3", "x"))
	add("slots of a superclass",
		def("K1 () ((S1 :initarg I1 :accessor G1 :boundp B1) (S2 :initarg I2 :initform F1 :reader G2))"),
		def("K2 (C:K1) ((S3 :initarg I3 :initform F2 :reader G3 :writer W3))"),
		evals(create("x", "K2", "I1", "A1", "I3", "A3"), "F1"),
		call("=A1", "G1", "x"), call("V:F1", "G2", "x"), call("=A3", "G3", "x"), call("t", "B1", "x"),
		evals(create("y", "K2", "I2", "A2"), "F2"),
		call("=A2", "G2", "y"), call("V:F2", "G3", "y"), call("nil", "B1", "y"),
		call("=A4", "set-G1", "A4", "y"), call("=A4", "G1", "y"), call("=A1", "G1", "x"), call("t", "B1", "y"),
		call("=A5", "W3", "A5", "x"), call("=A5", "G3", "x"), call("=A1", "G1", "x"), call("V:F1", "G2", "x"))
	add("slots of the superclass of a superclass",
		def("K1 () ((S1 :initarg I1 :reader G1))"),
		def("K2 (C:K1) ()"),
		def("K3 (C:K2) ((S2 :initarg I2 :initform F2 :reader G2))"),
		def("K4 (C:K3) ((S3 :initform F3 :reader G3))"),
		evals(create("x", "K4", "I1", "A1", "I2", "A2"), "F3"),
		call("=A1", "G1", "x"), call("=A2", "G2", "x"), call("V:F3", "G3", "x"),
		evals(create("y", "K3", "I1", "A3"), "F2"),
		call("=A3", "G1", "y"), call("V:F2", "G2", "y"), call("=A1", "G1", "x"), call("error", "G3", "y"))
	add("a class without slots",
		def("K1"), def("K2 ()"), def("K3 (C:K1)"), def("K4 (C:K3 C:K2) ()"),
		create("x", "K1"), create("y", "K2"), create("z", "K3"), create("w", "K4"),
		is("t", "instancep", "x", "class:K1"), is("nil", "instancep", "y", "class:K1"), is("t", "instancep", "z", "class:K1"),
		is("nil", "instancep", "x", "class:K3"), is("t", "instancep", "w", "class:K1"), is("t", "instancep", "w", "class:K2"),
		is("=class:K1", "class-of", "x"), is("=class:K4", "class-of", "w"), is("t", "instancep", "w", "class:<object>"))
	add("a slot that the superclass has as well",
		def("K1 () ((S1 :initarg I1 :initform F1 :accessor G1))"),
		def("K2 (C:K1) ((S1 :initarg I2 :initform F2))"),
		evals(create("x", "K2"), "F2"), call("V:F2", "G1", "x"),
		evals(create("y", "K1"), "F1"), call("V:F1", "G1", "y"),
		create("z", "K2", "I1", "A1"), call("=A1", "G1", "z"),
		create("w", "K2", "I2", "A2"), call("=A2", "G1", "w"), call("=A1", "G1", "z"),
		call("=A3", "set-G1", "A3", "w"), call("=A3", "G1", "w"), call("V:F2", "G1", "x"))
	add("two superclasses",
		def("K1 () ((S1 :initarg I1 :initform F1 :reader G1))"),
		def("K2 () ((S2 :initarg I2 :initform F2 :reader G2) (S3 :reader G3 :initarg I3))"),
		def("K3 (C:K1 C:K2) ()"),
		evals(create("x", "K3"), "F1", "F2"), call("V:F1", "G1", "x"), call("V:F2", "G2", "x"),
		evals(create("y", "K3", "I2", "A2", "I3", "A3"), "F1"), call("=A2", "G2", "y"), call("=A3", "G3", "y"), call("V:F1", "G1", "y"),
		call("error", "G2", "A1"))
	add("a slot that both superclasses have",
		def("K1 () ((S1 :initform F1 :reader G1))"),
		def("K2 () ((S1 :initform F2 :reader G2))"),
		def("K3 (C:K1 C:K2) ()"), def("K4 (C:K2 C:K1) ()"),
		evals(create("x", "K3"), "F1"), call("V:F1", "G1", "x"), call("V:F1", "G2", "x"),
		evals(create("y", "K4"), "F2"), call("V:F2", "G1", "y"))
	add("an initarg of slots of several classes",
		def("K1 () ((S1 :initarg I1 :reader G1))"),
		def("K2 () ((S2 :initarg I1 :reader G2))"),
		def("K3 (C:K1 C:K2) ((S3 :initarg I1 :reader G3 :initform F3))"),
		create("x", "K3", "I1", "A1"), call("=A1", "G1", "x"), call("=A1", "G2", "x"), call("=A1", "G3", "x"),
		create("y", "K2", "I1", "A2"), call("=A2", "G2", "y"), call("error", "G1", "y"), call("=A1", "G1", "x"))
	add("classes with several superclasses",
		def("K1 () ()"), def("K2 () ()"), def("K3 (C:K1) ()"), def("K4 (C:K2 C:K3) ()"), def("K5 (C:K4) ()"), def("K6 (C:K2) ()"),
		is("t", "subclassp", "class:K3", "class:K1"), is("nil", "subclassp", "class:K1", "class:K3"), is("nil", "subclassp", "class:K1", "class:K2"),
		is("t", "subclassp", "class:K4", "class:K2"), is("t", "subclassp", "class:K4", "class:K3"), is("t", "subclassp", "class:K4", "class:K1"),
		is("t", "subclassp", "class:K5", "class:K1"), is("t", "subclassp", "class:K5", "class:K3"), is("t", "subclassp", "class:K5", "class:K2"),
		is("nil", "subclassp", "class:K6", "class:K1"), is("nil", "subclassp", "class:K6", "class:K4"), is("nil", "subclassp", "class:K5", "class:K6"),
		is("t", "subclassp", "class:K5", "class:<object>"), is("nil", "subclassp", "class:<object>", "class:K1"), is("nil", "subclassp", "class:K1", "class:<integer>"),
		create("x", "K5"), create("y", "K6"),
		is("t", "instancep", "x", "class:K1"), is("t", "instancep", "x", "class:K2"), is("t", "instancep", "x", "class:K3"), is("t", "instancep", "x", "class:K4"), is("t", "instancep", "x", "class:K5"), is("nil", "instancep", "x", "class:K6"),
		is("nil", "instancep", "y", "class:K1"), is("t", "instancep", "y", "class:K2"), is("nil", "instancep", "y", "class:K5"),
		is("nil", "instancep", "x", "class:<integer>"), is("nil", "instancep", "A1", "class:K1"), is("=class:K5", "class-of", "x"))
	add("one initarg of two slots, and two of one",
		def("K1 () ((S1 :initarg I1 :reader G1 :initform F1) (S2 :initarg I1 :initarg I2 :reader G2))"),
		create("x", "K1", "I1", "A1"), call("=A1", "G1", "x"), call("=A1", "G2", "x"),
		evals(create("y", "K1", "I2", "A2"), "F1"), call("=A2", "G2", "y"), call("V:F1", "G1", "y"), call("=A1", "G2", "x"))
	add("two readers, writers and accessors of a slot",
		def("K1 () ((S1 :reader G1 :reader G2 :writer W1 :writer W2 :accessor G3 :accessor G4 :initarg I1) (S2 :accessor G5 :initarg I2))"),
		create("x", "K1", "I1", "A1", "I2", "A2"),
		call("=A1", "G1", "x"), call("=A1", "G2", "x"), call("=A1", "G3", "x"), call("=A1", "G4", "x"), call("=A2", "G5", "x"),
		call("=A3", "W2", "A3", "x"), call("=A3", "G1", "x"), call("=A2", "G5", "x"),
		call("=A4", "set-G4", "A4", "x"), call("=A4", "G3", "x"), call("=A2", "G5", "x"),
		call("=A5", "set-G5", "A5", "x"), call("=A4", "G2", "x"), call("=A5", "G5", "x"))
	add("accessors of the same name in two classes",
		def("K1 () ((S1 :accessor G1 :initarg I1))"),
		def("K2 () ((S2 :accessor G1 :initarg I1))"),
		create("x", "K1", "I1", "A1"), create("y", "K2", "I1", "A2"),
		call("=A1", "G1", "x"), call("=A2", "G1", "y"), call("=A3", "set-G1", "A3", "y"), call("=A1", "G1", "x"), call("=A3", "G1", "y"),
		call("error", "G1", "A4"), call("error", "set-G1", "A4", "A5"))
	add("objects of other classes",
		def("K1 () ((S1 :accessor G1 :initarg I1 :boundp B1 :writer W1 :reader R1))"),
		def("K2 () ((S1 :initarg I1))"),
		def("K3 (C:K1) ()"),
		create("x", "K1", "I1", "A1"), create("y", "K2", "I1", "A2"), create("z", "K3", "I1", "A3"),
		call("error", "G1", "y"), call("error", "B1", "y"), call("error", "W1", "A1", "y"), call("error", "R1", "y"), call("error", "set-G1", "A1", "y"),
		call("=A3", "G1", "z"), call("t", "B1", "z"), call("=A3", "R1", "z"), call("=A4", "W1", "A4", "z"), call("=A4", "R1", "z"),
		call("error", "G1", "A1"), call("error", "R1", "A1"))
	add("too few initial values",
		def("K1 () ((S1 :initarg I1 :reader G1))"),
		sStep{op: "create", args: []string{"class:K1", "I1"}, want: "error"},
		create("x", "K1", "I1", "A1"), call("=A1", "G1", "x"))
	add("a superclass that is none",
		sStep{op: "defclass", text: "K1 (C:A1) ()", list: lisp(p, "K1 (C:A1) ()"), want: "error"})
	add("an initialize-object of the user",
		def("K1 () ((S1 :initarg I1 :initform F1 :reader G1))"),
		def("K2 (C:K1) ((S2 :initform F2 :reader G2))"),
		def("K3 () ((S3 :initarg I1 :initform F3 :reader G3))"),
		method("initialize-object ((S7 C:K1) &rest (S8 C:<object>)) F7"),
		evals(create("", "K1", "I1", "A1"), "F7"),
		evals(create("", "K2", "I1", "A1"), "F7"),
		evals(create("x", "K3"), "F3"), call("V:F3", "G3", "x"),
		create("y", "K3", "I1", "A2"), call("=A2", "G3", "y"))
	add("a class after an initialize-object of the user",
		def("K1 () ((S1 :initarg I1 :initform F1 :reader G1))"),
		method("initialize-object ((S7 C:K1) &rest (S8 C:<object>)) F7"),
		def("K2 (C:K1) ((S2 :initform F2 :reader G2))"),
		def("K3 () ((S3 :initarg I1 :initform F3 :reader G3))"),
		evals(create("", "K2"), "F7"),
		evals(create("", "K1"), "F7"),
		create("y", "K3", "I1", "A2"), call("=A2", "G3", "y"))
	add("an initialize-object before all classes but one",
		def("K1 () ()"),
		method("initialize-object ((S7 C:K1) &rest (S8 C:<object>)) F7"),
		evals(create("", "K1"), "F7"),
		def("K2 () ((S1 :initarg I1 :initform F1 :reader G1))"),
		evals(create("x", "K2"), "F1"), call("V:F1", "G1", "x"))
	return
}

func checkC26(p *Prog, r *Report) {
	b := anchor(p, r, "defclass")
	if b == nil {
		return
	}
	where := p.pos(b.Fn.Pos())
	for _, sc := range c26Scripts(p) {
		for _, rev := range []bool{false, true} {
			s, st := newSession(p, r, sc.how)
			s.reverse = rev
			for _, bad := range s.run(sc.how, st, sc.steps) {
				r.add("objects/"+sc.how, where, "with %s: %s", sc.how, bad)
			}
		}
		r.count("scripts", 1)
	}
	c26Relations(p, r)
}

// islispClasses: the classes that ISLisp has, and their direct superclasses.
const islispClasses = `<basic-array> <object>; <basic-array*> <basic-array>; <general-array*> <basic-array*>;
<basic-vector> <basic-array>; <general-vector> <basic-vector>; <string> <basic-vector>;
<character> <object>; <function> <object>; <generic-function> <function>; <list> <object>; <cons> <list>; <null> <list> <symbol>;
<symbol> <object>; <number> <object>; <float> <number>; <integer> <number>; <serious-condition> <object>; <error> <serious-condition>;
<arithmetic-error> <error>; <division-by-zero> <arithmetic-error>; <control-error> <error>; <parse-error> <error>; <program-error> <error>;
<domain-error> <program-error>; <undefined-entity> <program-error>; <unbound-variable> <undefined-entity>; <undefined-function> <undefined-entity>;
<stream-error> <error>; <end-of-stream> <stream-error>; <standard-class> <object>;
<standard-object> <object>; <stream> <object>`

// c26Relations compares the classes that the interpreter comes with, each with
// each, and the values with the classes.
func c26Relations(p *Prog, r *Report) {
	m := p.classes()
	if m.failed != "" || m.byName["<object>"] == nil {
		r.add("classes", "-", "the classes that the interpreter comes with are not made by the initialisation of the package in a way that is understood: %s", m.failed)
		return
	}
	var names []string
	for n, ci := range m.byName {
		names = append(names, n)
		if m.bound[n] != ci.global {
			r.add("bound/"+n, "-", "the name %s is not that of the class", n)
		}
	}
	sort.Strings(names)
	r.count("classes", len(names))
	r.floor("classes", 25)
	sub := anchor(p, r, "subclassp")
	inst := anchor(p, r, "instancep")
	cof := anchor(p, r, "class-of")
	if sub == nil || inst == nil || cof == nil {
		return
	}
	rel := map[[2]string]string{}
	s, st := newSession(p, r, "the classes")
	for _, a := range names {
		var steps []sStep
		for _, b := range names {
			steps = append(steps, sStep{op: "subclassp", args: []string{"class:" + a, "class:" + b}, got: func(_ *Term, shown string) { rel[[2]string{a, b}] += shown }})
		}
		for _, bad := range s.run("subclassp", st, steps) {
			r.add("subclassp/"+a, p.pos(sub.Fn.Pos()), "%s", bad)
		}
	}
	is := func(a, b string) bool { return rel[[2]string{a, b}] == "t" }
	at := p.pos(sub.Fn.Pos())
	for k, v := range rel {
		if v != "t" && v != "nil" {
			r.add("subclassp/"+k[0]+"/"+k[1], at, "(subclassp %s %s) is not known: %s", k[0], k[1], v)
		}
	}
	for _, a := range names {
		if !is(a, "<object>") && a != "<object>" {
			r.add("subclassp/object/"+a, at, "%s is no subclass of <object>", a)
		}
		if is("<object>", a) && a != "<object>" {
			r.add("subclassp/object-of/"+a, at, "<object> is a subclass of %s", a)
		}
		for _, b := range names {
			for _, c := range names {
				if is(a, b) && is(b, c) && !is(a, c) {
					r.add("subclassp/"+a+"/"+b+"/"+c, at, "%s is a subclass of %s, which is one of %s, but %s is not one of %s", a, b, c, a, c)
				}
			}
			if a < b && is(a, b) && is(b, a) {
				r.add("subclassp/both/"+a+"/"+b, at, "%s and %s are subclasses of each other", a, b)
			}
		}
	}
	std := map[string]map[string]bool{}
	for _, l := range strings.Split(islispClasses, ";") {
		w := strings.Fields(l)
		std[w[0]] = map[string]bool{}
		for _, d := range w[1:] {
			std[w[0]][d] = true
		}
	}
	for range 6 {
		for _, ds := range std {
			for d := range ds {
				for dd := range std[d] {
					ds[dd] = true
				}
			}
		}
	}
	n := 0
	for a := range std {
		for b := range std {
			if m.byName[a] == nil || m.byName[b] == nil || a == b {
				continue
			}
			n++
			if is(a, b) != std[a][b] {
				r.add("islisp/"+a+"/"+b, at, "(subclassp %s %s) is %v, and ISLisp says %v", a, b, is(a, b), std[a][b])
			}
		}
	}
	r.count("pairs of classes", n)
	if debugSession {
		println("MISSING", strings.Join(slices.DeleteFunc(slices.Sorted(maps.Keys(std)), func(n string) bool { return m.byName[n] != nil }), " "))
		println("HAVE", strings.Join(names, " "))
	}
	// values
	iface := p.interfaceNamed("Node")
	scope := p.Main.Pkg.Scope()
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok || named.TypeParams().Len() > 0 || isInterface(named) {
			continue
		}
		var T types.Type = named
		if !types.Implements(T, iface) {
			T = types.NewPointer(named)
		}
		if !types.Implements(T, iface) {
			continue
		}
		s, st := newSession(p, r, "a value of "+n)
		v := tSym("value#"+n, "value of "+n, T)
		st.facts[v] = 'X'
		st.mem[ghost(s.o, "val:x")] = asNode(v)
		class := ""
		bad := s.run("class-of", st, []sStep{{op: "class-of", args: []string{"x"}, got: func(v *Term, shown string) {
			if ci := m.byGlob[unwrapMki(v).s]; ci != nil {
				class += ci.name
			} else {
				class += "?"
			}
		}}})
		if debugSession {
			println("VALUE", n, class, len(bad))
		}
		if m.byName[class] == nil { // what is in a field tells, as with conditions
			r.count("values whose class is not known", 1)
			continue
		}
		r.count("kinds of values", 1)
		var steps []sStep
		for _, c := range names {
			want := "nil"
			if c == class || is(class, c) {
				want = "t"
			}
			if c == "<class>" && p.isClassType(T) {
				want = "t" // all classes are, whatever class of classes they have
			}
			steps = append(steps, sStep{op: "instancep", args: []string{"x", "class:" + c}, want: want})
		}
		for _, bad := range s.run("instancep", st, steps) {
			r.add("instancep/"+n+"/"+bad, p.pos(inst.Fn.Pos()), "with x of the type %s and the class %s: %s", n, class, bad)
		}
	}
}

func (p *Prog) isClassType(t types.Type) bool {
	it := p.interfaceNamed("Class")
	return it != nil && types.Implements(t, it)
}

func unwrapMki(t *Term) *Term {
	for t.op == "mki" || t.op == "ct" {
		t = t.args[0]
	}
	return t
}
