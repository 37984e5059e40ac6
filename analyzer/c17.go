package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A named function whose body calls the name again: what happens has to be the
// same as without any optimisation, except that a call in a tail position does
// not nest.

type tailSpec struct {
	how    string
	params int
	rest   bool
	local  bool // a local variable behind a slash
	body   func(s *shape, op func(string) *Term) []*Term
	nargs  int
	spec   func(g *ref) string
	fails  bool   // the call ends in an error
	other  bool   // the name means another function where the call stands
	never  string // a form that must not be evaluated
}

func c17Specs() (out []tailSpec) {
	self := func(s *shape, forms ...string) *Term {
		l := []*Term{s.sym("S8")}
		for _, f := range forms {
			l = append(l, s.form(f))
		}
		return s.list(l...)
	}
	// the operands of the outer call
	args := func(g *ref, n int) {
		for i := 5; i < 5+n; i++ {
			g.eval(fmt.Sprintf("F%d@E", i))
		}
	}
	const first = "L{S1=V:F5,S2=V:F6}"
	const second = "L{S1=V:F1,S2=V:F2}"
	again := "(S8 F1 F2)"
	add := func(t tailSpec) { out = append(out, t) }

	add(tailSpec{how: "((S8 F1 F2))", params: 2, nargs: 2, body: func(s *shape, op func(string) *Term) []*Term {
		return []*Term{self(s, "F1", "F2")}
	}, spec: func(g *ref) string {
		args(g, 2)
		return prognSpec(g, "F1@"+first, "F2@"+first, again+"@"+second)
	}})
	add(tailSpec{how: "(F3 (S8 F1 F2))", params: 2, nargs: 2, body: func(s *shape, op func(string) *Term) []*Term {
		return []*Term{s.form("F3"), self(s, "F1", "F2")}
	}, spec: func(g *ref) string {
		args(g, 2)
		return prognSpec(g, "F3@"+first, "F1@"+first, "F2@"+first, "F3@"+second, again+"@"+second)
	}})
	add(tailSpec{how: "((S8 F1 F2) F3)", params: 2, nargs: 2, body: func(s *shape, op func(string) *Term) []*Term {
		return []*Term{self(s, "F1", "F2"), s.form("F3")}
	}, spec: func(g *ref) string {
		args(g, 2)
		return prognSpec(g, again+"@"+first, "F3@"+first)
	}})
	add(tailSpec{how: "((S8 F1 F2)) where S8 is another function", params: 2, nargs: 2, other: true, body: func(s *shape, op func(string) *Term) []*Term {
		return []*Term{self(s, "F1", "F2")}
	}, spec: func(g *ref) string {
		args(g, 2)
		return prognSpec(g, again+"@"+first)
	}})
	add(tailSpec{how: "((S7 F1 F2))", params: 2, nargs: 2, body: func(s *shape, op func(string) *Term) []*Term {
		return []*Term{s.list(s.sym("S7"), s.form("F1"), s.form("F2"))}
	}, spec: func(g *ref) string {
		args(g, 2)
		return prognSpec(g, "(S7 F1 F2)@"+first)
	}})
	for _, forms := range [][]string{{}, {"F1"}, {"F1", "F2", "F3"}} {
		forms := forms
		add(tailSpec{how: "((S8 " + strings.Join(forms, " ") + ")) with two parameters", params: 2, nargs: 2, fails: true, body: func(s *shape, op func(string) *Term) []*Term {
			return []*Term{self(s, forms...)}
		}, spec: func(g *ref) string {
			args(g, 2)
			for _, f := range forms {
				g.eval(f + "@" + first)
			}
			return ""
		}})
	}
	for n := 1; n <= 3; n++ {
		n := n
		forms := []string{"F1", "F2", "F3"}[:n]
		add(tailSpec{how: "((S8 " + strings.Join(forms, " ") + ")) with the parameters (S1 &rest S9)", params: 1, rest: true, nargs: 2, body: func(s *shape, op func(string) *Term) []*Term {
			return []*Term{self(s, forms...)}
		}, spec: func(g *ref) string {
			args(g, 2)
			const first = "L{S1=V:F5,S9=(V:F6)}"
			for _, f := range forms {
				g.eval(f + "@" + first)
			}
			return g.eval("(S8 " + strings.Join(forms, " ") + ")@L{S1=V:F1,S9=" + []string{"nil", "(V:F2)", "(V:F2 V:F3)"}[n-1] + "}")
		}})
	}
	add(tailSpec{how: "((S8 F1 F2)) with the parameters (S1 S2 / S9)", params: 2, nargs: 2, local: true, body: func(s *shape, op func(string) *Term) []*Term {
		return []*Term{self(s, "F1", "F2")}
	}, spec: func(g *ref) string {
		args(g, 2)
		return prognSpec(g, "F1@L{S1=V:F5,S2=V:F6,S9=nil}", "F2@L{S1=V:F5,S2=V:F6,S9=nil}", again+"@L{S1=V:F1,S2=V:F2,S9=nil}")
	}})
	// forms that have something left to do, or that do not evaluate the call
	for _, name := range []string{"unwind-protect", "catch", "block", "dynamic-let", "with-handler", "setq", "quote", "lambda", "function", "while", "tagbody", "flet", "labels", "list", "not"} {
		name := name
		add(tailSpec{how: "((" + name + " F3 (S8 F1 F2)))", params: 2, nargs: 2, body: func(s *shape, op func(string) *Term) []*Term {
			return []*Term{s.list(op(name), s.form("F3"), self(s, "F1", "F2"))}
		}, spec: func(g *ref) string {
			args(g, 2)
			return prognSpec(g, "("+name+" F3 (S8 F1 F2))@"+first)
		}})
	}
	add(tailSpec{how: "((if F3 (S8 F1 F2) F4))", params: 2, nargs: 2, body: func(s *shape, op func(string) *Term) []*Term {
		return []*Term{s.list(op("if"), s.form("F3"), self(s, "F1", "F2"), s.form("F4"))}
	}, spec: func(g *ref) string {
		args(g, 2)
		g.eval("F3@" + first)
		if !g.truth() {
			return g.eval("F4@" + first)
		}
		prognSpec(g, "F1@"+first, "F2@"+first, "F3@"+second)
		if g.truth() {
			return g.eval(again + "@" + second)
		}
		return g.eval("F4@" + second)
	}})
	add(tailSpec{how: "((if F3 F4 (S8 F1 F2)))", params: 2, nargs: 2, body: func(s *shape, op func(string) *Term) []*Term {
		return []*Term{s.list(op("if"), s.form("F3"), s.form("F4"), self(s, "F1", "F2"))}
	}, spec: func(g *ref) string {
		args(g, 2)
		g.eval("F3@" + first)
		if g.truth() {
			return g.eval("F4@" + first)
		}
		prognSpec(g, "F1@"+first, "F2@"+first, "F3@"+second)
		if !g.truth() {
			return g.eval(again + "@" + second)
		}
		return g.eval("F4@" + second)
	}})
	add(tailSpec{how: "((if (S8 F1 F2) F3 F4))", params: 2, nargs: 2, body: func(s *shape, op func(string) *Term) []*Term {
		return []*Term{s.list(op("if"), self(s, "F1", "F2"), s.form("F3"), s.form("F4"))}
	}, spec: func(g *ref) string {
		args(g, 2)
		g.eval(again + "@" + first)
		if g.truth() {
			return g.eval("F3@" + first)
		}
		return g.eval("F4@" + first)
	}})
	add(tailSpec{how: "((cond (F3 F4) (F7 (S8 F1 F2))))", params: 2, nargs: 2, body: func(s *shape, op func(string) *Term) []*Term {
		return []*Term{s.list(op("cond"), s.list(s.form("F3"), s.form("F4")), s.list(s.form("F7"), self(s, "F1", "F2")))}
	}, spec: func(g *ref) string {
		args(g, 2)
		g.eval("F3@" + first)
		if g.truth() {
			return g.eval("F4@" + first)
		}
		g.eval("F7@" + first)
		if !g.truth() {
			return "nil"
		}
		prognSpec(g, "F1@"+first, "F2@"+first, "F3@"+second)
		if g.truth() {
			return g.eval("F4@" + second)
		}
		g.eval("F7@" + second)
		if !g.truth() {
			return "nil"
		}
		return g.eval(again + "@" + second)
	}})
	add(tailSpec{how: "((cond ((S8 F1 F2)) (F3 F4)))", params: 2, nargs: 2, body: func(s *shape, op func(string) *Term) []*Term {
		return []*Term{s.list(op("cond"), s.list(self(s, "F1", "F2")), s.list(s.form("F3"), s.form("F4")))}
	}, spec: func(g *ref) string {
		args(g, 2)
		v := g.eval(again + "@" + first)
		if g.truth() {
			return v
		}
		g.eval("F3@" + first)
		if g.truth() {
			return g.eval("F4@" + first)
		}
		return "nil"
	}})
	add(tailSpec{how: "((progn F3 (S8 F1 F2)))", params: 2, nargs: 2, body: func(s *shape, op func(string) *Term) []*Term {
		return []*Term{s.list(op("progn"), s.form("F3"), self(s, "F1", "F2"))}
	}, spec: func(g *ref) string {
		args(g, 2)
		return prognSpec(g, "F3@"+first, "F1@"+first, "F2@"+first, "F3@"+second, again+"@"+second)
	}})
	add(tailSpec{how: "((progn (S8 F1 F2) F3))", params: 2, nargs: 2, body: func(s *shape, op func(string) *Term) []*Term {
		return []*Term{s.list(op("progn"), self(s, "F1", "F2"), s.form("F3"))}
	}, spec: func(g *ref) string {
		args(g, 2)
		return prognSpec(g, again+"@"+first, "F3@"+first)
	}})
	for _, let := range []string{"let", "let*"} {
		let := let
		add(tailSpec{how: "((" + let + " ((S3 F3)) F4 (S8 F1 F2)))", params: 2, nargs: 2, body: func(s *shape, op func(string) *Term) []*Term {
			return []*Term{s.list(op(let), s.list(s.list(s.sym("S3"), s.form("F3"))), s.form("F4"), self(s, "F1", "F2"))}
		}, spec: func(g *ref) string {
			args(g, 2)
			const first3, second3 = "L{S1=V:F5,S2=V:F6,S3=V:F3}", "L{S1=V:F1,S2=V:F2,S3=V:F3}"
			return prognSpec(g, "F3@"+first, "F4@"+first3, "F1@"+first3, "F2@"+first3, "F3@"+second, "F4@"+second3, again+"@"+second3)
		}})
		add(tailSpec{how: "((" + let + " ((S3 (S8 F1 F2))) F4))", params: 2, nargs: 2, body: func(s *shape, op func(string) *Term) []*Term {
			return []*Term{s.list(op(let), s.list(s.list(s.sym("S3"), self(s, "F1", "F2"))), s.form("F4"))}
		}, spec: func(g *ref) string {
			args(g, 2)
			return prognSpec(g, again+"@"+first, "F4@L{S1=V:F5,S2=V:F6,S3=V:"+again+"}")
		}})
	}
	add(tailSpec{how: "((if F3 (progn F4 (let ((S3 F7)) (cond (F9 (S8 F1 F2)))))))", params: 2, nargs: 2, body: func(s *shape, op func(string) *Term) []*Term {
		cond := s.list(op("cond"), s.list(s.form("F9"), self(s, "F1", "F2")))
		let := s.list(op("let"), s.list(s.list(s.sym("S3"), s.form("F7"))), cond)
		return []*Term{s.list(op("if"), s.form("F3"), s.list(op("progn"), s.form("F4"), let))}
	}, spec: func(g *ref) string {
		args(g, 2)
		round := func(in, in3 string) bool {
			g.eval("F3@" + in)
			if !g.truth() {
				return false
			}
			prognSpec(g, "F4@"+in, "F7@"+in, "F9@"+in3)
			return g.truth()
		}
		const first3, second3 = "L{S1=V:F5,S2=V:F6,S3=V:F7}", "L{S1=V:F1,S2=V:F2,S3=V:F7}"
		if !round(first, first3) {
			return "nil"
		}
		prognSpec(g, "F1@"+first3, "F2@"+first3)
		if !round(second, second3) {
			return "nil"
		}
		return g.eval(again + "@" + second3)
	}})
	return out
}

func checkC17(p *Prog, r *Report) {
	f := p.callMethod("_Lambda")
	if f == nil {
		r.add("missing/_Lambda", "-", "there is no kind of function _Lambda with a method Call")
		return
	}
	where := p.pos(f.Pos())
	for _, sp := range c17Specs() {
		if sp.local && p.symbolNamed("/") == nil {
			continue
		}
		o := &opRun{p: p, r: r, name: "tail", shape: sp.how, env: true}
		var self *Term
		op := func(name string) *Term {
			if b := p.Builtin(name); b != nil {
				if g := p.symbolNamed(name); g != nil {
					return g
				}
			}
			return o.s.sym(name)
		}
		o.entity = func(e *Eng, st *State, name string) *Term {
			if name != "FN:S8" {
				return nil
			}
			rounds := st.mon["round"]
			if !sp.other && rounds == "" {
				st.mon["round"] = "1"
				return asNode(self)
			}
			x := tSym("other#fn", "OTHER", self.typ)
			st.facts[x] = 'X'
			st.facts[simplifyEq(x, self)] = 'F'
			return asNode(x)
		}
		exits := o.runCall(f, func() *Term {
			self = o.lambdaNamed(sp, sp.body(o.s, op))
			return self
		}, func(s *shape) *Term {
			var l []*Term
			for i := 5; i < 5+sp.nargs; i++ {
				l = append(l, s.form(fmt.Sprintf("F%d", i)))
			}
			return s.list(l...)
		})
		if exits == nil {
			r.count("functions of another form", 1)
			continue
		}
		r.count("bodies", 1)
		how := "with the body " + sp.how
		key := "tail/" + sp.how
		if sp.fails {
			for i := range exits {
				r.ob(1)
				if x := &exits[i]; x.err == "" {
					r.add("accepts/"+sp.how, where, "%s %s calls itself with a wrong number of operands without an error (it evaluates %s)", fnName(f), how, strings.Join(x.events, ", "))
				} else if d := o.compare(x, sp.spec); d != "" {
					r.add("differs/"+key, where, "%s %s %s", fnName(f), how, d)
				}
			}
			continue
		}
		o.judge(fnName(f), key, how, where, exits, sp.spec, false)
	}
	r.floor("bodies", 25)
}

// symbolNamed is the symbol of an operator that the interpreter refers to.
func (p *Prog) symbolNamed(name string) *Term {
	var names []string
	for g, text := range p.symbolTexts() {
		if text == name {
			names = append(names, g)
		}
	}
	sort.Strings(names)
	for _, g := range names {
		if v := p.symbolValue(p.globs[g]); v != nil {
			return v
		}
	}
	return nil
}

// symbolTexts maps the variables that hold a symbol to its name.
func (p *Prog) symbolTexts() map[string]string {
	if p.symTexts != nil {
		return p.symTexts
	}
	p.symTexts = map[string]string{}
	for _, f := range p.All {
		if f.Name() != "init" || f.Synthetic == "" || f.Pkg != p.Main {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok && p.globs[g.String()] != nil {
						if text, ok := p.symbolOf(s.Val); ok {
							p.symTexts[g.String()] = text
						}
					}
				}
			}
		}
	}
	return p.symTexts
}

// sameSymbol compares two symbols that are known: 1 the same, 0 different.
func (p *Prog) sameSymbol(a, b *Term) int {
	strip := func(t *Term) *Term {
		for t.op == "mki" || t.op == "ct" {
			t = t.args[0]
		}
		return t
	}
	a, b = strip(a), strip(b)
	if p.classMod != nil && a.op == "gval" && b.op == "gval" && p.classMod.byGlob[a.s] != nil && p.classMod.byGlob[b.s] != nil {
		if a.s == b.s {
			return 1
		}
		return 0
	}
	if a.op == "gval" && p.symbolTexts()[a.s] != "" && strings.HasPrefix(formName(b), "op-") || b.op == "gval" && p.symbolTexts()[b.s] != "" && strings.HasPrefix(formName(a), "op-") {
		return 0
	}
	text := func(t *Term) string {
		if t.op == "gval" {
			if s, ok := p.symbolTexts()[t.s]; ok {
				return s
			}
			return ""
		}
		return strings.TrimPrefix(t.label, "SYM:")
	}
	known := func(t *Term) bool {
		return t.op == "gval" && text(t) != "" || t.op == "sym" && strings.HasPrefix(t.label, "SYM:") && t.label != "SYM:@"
	}
	if !known(a) || !known(b) {
		return -1
	}
	if text(a) == text(b) {
		return 1
	}
	return 0
}

// lambdaNamed is a function S8 with the body given.
func (o *opRun) lambdaNamed(sp tailSpec, body []*Term) *Term {
	symbol := o.p.Main.Pkg.Scope().Lookup("Symbol")
	world := o.p.Main.Pkg.Scope().Lookup("World")
	nul := o.p.symbolValue(o.p.globs[o.p.ModPath+".nulSymbol"])
	if symbol == nil || world == nil || nul == nil {
		return nil
	}
	var ps []*Term
	for i := 1; i <= sp.params; i++ {
		ps = append(ps, o.s.sym(fmt.Sprintf("S%d", i)))
	}
	if slash := o.p.symbolNamed("/"); sp.local && slash != nil {
		ps = append(ps, slash, o.s.sym("S9"))
	}
	fields := map[string]*Term{
		"param":   o.slice(symbol.Type(), ps...),
		"code":    o.s.list(body...),
		"lexical": o.nonNil("recv#world", "LEXICAL", types.NewPointer(world.Type())),
		"rest":    nul,
		"name":    o.s.sym("S8"),
	}
	if sp.rest {
		fields["rest"] = o.s.sym("S9")
	}
	return o.receiver("_Lambda", fields)
}
