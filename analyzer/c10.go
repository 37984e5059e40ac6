package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// opRun interprets one operator with an argument list of a known shape and
// records which forms it evaluates, which functions it calls and what with.
type opRun struct {
	p      *Prog
	r      *Report
	name   string                              // the operator, for reports
	shape  string                              // the argument list
	value  func(s *shape, form string) []*Term // what a form may evaluate to; nil: a value of unknown type
	rounds map[string]int                      // forms evaluated at most so often (loops)
	s      *shape
	world  *Term
	onEval func(e *Eng, st *State, form string, w *Term, pos string)
	errs   bool                                       // evaluations can also fail
	env    bool                                       // describe the environment of every evaluation
	entity func(e *Eng, st *State, name string) *Term // what a name means, if it matters
	stored func(st *State, addr, val *Term)           // sees what is stored
	vals   map[string]*Term
	quotes int

	classes bool // classes and methods are known, too
	session bool // definitions are followed, and nothing else runs

	endless bool
}

// opExit is one way out.
type opExit struct {
	x      Exit
	e      *Eng
	events []string
	result string
	err    string
}

func (o *opRun) run(b *Builtin, list func(*shape) *Term) []opExit {
	f := b.Fn
	st := newState()
	o.s = &shape{p: o.p, st: st}
	o.vals = map[string]*Term{}
	l := list(o.s)
	o.ordinarySymbols()
	var args []*Term
	for i := 0; i < f.Signature.Params().Len(); i++ {
		t := f.Signature.Params().At(i).Type()
		switch {
		case o.p.isWorldPtr(t):
			o.world = tSym("entry#world", "world", t)
			st.facts[o.world] = 'X'
			args = append(args, o.world)
		case o.p.isNode(t):
			args = append(args, l)
		default:
			args = append(args, tSym("entry#"+fmt.Sprint(i), "", t))
		}
	}
	return o.exec(f.String(), func(e *Eng) []Exit { return e.Run(f, args, nil, st) })
}

func (o *opRun) client() *Client {
	p := o.p
	cl := &Client{Concrete: true, Recursion: 16, MaxDepth: 40, Closed: o.session}
	event := func(st *State, s string) { st.mon["ev"] += s + "; " }
	if o.env {
		cl.OnStore = func(e *Eng, st *State, addr, val *Term, fr *Frame, pos token.Pos) {
			if o.stored != nil {
				o.stored(st, addr, val)
			}
			if (addr.op == "ment" || addr.op == "fld") && len(addr.args) > 0 && st.mem[ghostScope(addr.args[0])] != nil {
				what := "its variable"
				if addr.op == "ment" {
					what = o.show(e, st, addr.args[1])
				}
				event(st, "change "+what+" to "+o.show(e, st, val)+" in a scope in use")
			}
		}
	}
	if o.classes {
		cl.OnLoad = func(e *Eng, st *State, addr *Term, site string, typ types.Type) *Term {
			return p.classes().field(addr, typ)
		}
	}
	var eng *Eng
	named := func(st *State, name string, w *Term) string {
		if o.env {
			return o.at(eng, st, name, w)
		}
		return name
	}
	cl.PinFact = func(t *Term) bool { return termHas(t, func(x *Term) bool { return strings.HasPrefix(x.label, "V:") }) }
	cl.NoInline = func(f *ssa.Function) bool {
		// the applicability of a method
		if o.classes {
			return false
		}
		res, par := f.Signature.Results(), f.Signature.Params()
		if f.Signature.Recv() == nil || res.Len() != 1 || par.Len() != 1 || !types.Identical(res.At(0).Type(), types.Typ[types.Bool]) {
			return false
		}
		sl, ok := par.At(0).Type().Underlying().(*types.Slice)
		return ok && p.isNode(sl.Elem())
	}
	cl.Preserve = func(a *Term) bool {
		switch r := rootOf(a); r.label {
		case "world", "RECV", "METHOD":
			return true
		default:
			return r.op == "cell" && strings.HasPrefix(r.s, "shape#")
		}
	}
	cl.OnCall = func(e *Eng, st *State, cc *Call) ([]Out, bool) {
		eng = e
		if o.env {
			if ev, outs, ok := o.scopeCall(e, st, cc); ok {
				if ev != "" {
					event(st, ev)
				}
				return outs, true
			}
		}
		if o.session && cc.Callee != nil && cc.Callee == p.callMethod("_Generic") {
			return nil, false
		}
		what, ok := p.evalOf(cc)
		if o.session && what == "eval" {
			if v := uneval(cc.Args[2]); v != nil {
				return []Out{{St: st, Res: []*Term{v, tNil}}}, true
			}
		}
		if !ok && cc.Callee != nil && cc.Callee.Name() == "Call" && cc.Callee.Signature.Recv() != nil && len(cc.Args) == 4 && hasWorldParam(p, cc.Callee.Signature) && p.isNode(cc.Callee.Signature.Params().At(2).Type()) {
			// a call of a function whose kind is known here
			what, ok = "call", true
		}
		if !ok && cc.Callee == nil && cc.Common != nil && cc.FnTerm != nil && p.runsUserCode(cc.Common) && hasWorldParam(p, cc.Common.Signature()) {
			what, ok = "go", true
		}
		if ok {
			rt := cc.ResultType()
			var name, val string
			var w *Term
			switch what {
			case "eval":
				form := cc.Args[2]
				w = cc.Args[0]
				name = o.show(e, st, form)
				val = "V:" + name
				event(st, named(st, name, w))
			case "call":
				w = cc.Args[2]
				name = "call(" + o.show(e, st, cc.Args[0]) + " " + o.show(e, st, cc.Args[3]) + ")"
				val = "R"
				event(st, named(st, name, w))
			case "go":
				name = "run(" + o.show(e, st, cc.FnTerm)
				for _, a := range cc.Args {
					if p.isWorldPtr(a.typ) {
						w = a
						continue
					}
					if a.typ != nil && (p.isNode(a.typ) || a.op == "slist" || a.op == "mki") || a == tNil {
						name += " " + o.show(e, st, a)
					}
				}
				name += ")"
				val = "R"
				event(st, named(st, name, w))
			}
			if o.onEval != nil {
				o.onEval(e, st, name, w, p.pos(cc.Pos))
			}
			k := evaluations(strings.Split(strings.TrimSuffix(st.mon["ev"], "; "), "; "))
			if k > 24 && !o.endless {
				o.endless = true
				o.r.add("endless/"+o.name+"/"+o.shape, p.pos(cc.Pos), "%s %s evaluates and calls without end", o.name, o.shape)
			}
			if o.endless && k > 12 {
				return nil, true
			}
			if max, ok := o.rounds[name]; ok && strings.Count("; "+st.mon["ev"], "; "+name+"; ")+strings.Count("; "+st.mon["ev"], "; "+name+"@") > max {
				return nil, true
			}
			if errResult(cc.Common.Signature()) != 1 || rt.Len() != 2 {
				return e.Opaque(st, cc), true
			}
			var vals []*Term
			if o.value != nil && (what == "eval" || what == "call") {
				vals = o.value(&shape{p: p, st: st, n: 1000 * k}, name)
			}
			if vals == nil {
				v := tSym(fmt.Sprintf("value#%s#%d", val, k), val, rt.At(0).Type())
				st.facts[v] = 'X'
				vals = []*Term{v}
			}
			if len(vals) == 1 {
				o.vals[fmt.Sprintf("%s#%d", name, k)] = vals[0]
			}
			var outs []Out
			for i, v := range vals {
				s2 := st
				if i < len(vals)-1 || o.errs {
					s2 = st.clone()
				}
				outs = append(outs, Out{St: s2, Res: []*Term{v, tNil}})
			}
			if o.errs {
				er := tSym(fmt.Sprintf("error#%d", k), "EV:"+name, rt.At(1).Type())
				st.facts[er] = 'X'
				st.mon["failed"] = name
				outs = append(outs, Out{St: st, Res: []*Term{zeroTerm(rt.At(0).Type()), er}})
			}
			return outs, true
		}
		if outs, ok := modelExpectKnown(e, st, cc); ok {
			return outs, true
		}
		if o.classes && len(cc.Args) == 1 && cc.ResultType().Len() == 1 && types.Identical(cc.ResultType().At(0).Type(), types.Typ[types.String]) && (cc.Method != nil && cc.Method.Name() == "String" || cc.Callee != nil && cc.Callee.Name() == "String") {
			if n := symText(p, cc.Args[0]); n != "" {
				return []Out{{St: st, Res: []*Term{tConst(strconv.Quote(n), types.Typ[types.String])}}}, true
			}
		}
		if cc.Method != nil && cc.Method.Name() == "Equals" || cc.Callee != nil && cc.Callee.Name() == "Equals" && cc.Callee.Signature.Recv() != nil {
			if o.classes && len(cc.Args) >= 2 && p.isClassTerm(cc.Args[0]) && p.isClassTerm(cc.Args[1]) {
				return nil, false
			}
			if len(cc.Args) >= 2 && kindOfNode(cc.Args[0])+kindOfNode(cc.Args[1]) == "list+keyword" {
				return []Out{{St: st, Res: []*Term{tFalse}}}, true
			}
			if len(cc.Args) >= 2 && o.env {
				if k := p.sameSymbol(cc.Args[0], cc.Args[1]); k >= 0 {
					return []Out{{St: st, Res: []*Term{[]*Term{tFalse, tTrue}[k]}}}, true
				}
			}
			for i, a := range cc.Args {
				if i < 2 && (strings.HasPrefix(formName(a), "op-") || strings.HasPrefix(a.label, "SYM:op-")) {
					// the operators of the forms are none of the special ones
					return []Out{{St: st, Res: []*Term{tFalse}}}, true
				}
			}
		}
		if cc.Callee != nil && len(cc.Args) >= 1 {
			f := cc.Callee
			if g := f.Origin(); g != nil {
				f = g
			}
			if f.Name() == "NewQuote" && f.Object() != nil && f.Object().Exported() {
				s := &shape{p: p, st: st, n: 100000 + o.quotes}
				o.quotes += 10
				return []Out{{St: st, Res: []*Term{s.list(s.sym("quote"), cc.Args[len(cc.Args)-1])}}}, true
			}
		}
		if form := p.macroExpansion(cc); form != nil {
			if o.env {
				for _, a := range cc.Args {
					if p.isWorldPtr(a.typ) {
						st.mon["expand"] += o.envDesc(e, st, a) + "; "
					}
				}
			}
			// the forms of the shape have no macros in them
			return []Out{{St: st, Res: []*Term{form, tNil}}}, true
		}
		if o.classes {
			if outs, ok := modelRaise(e, st, cc); ok {
				st.mon["raised"] = o.raised(e, st, cc)
				return outs, ok
			}
		}
		return callModels(modelRaise, modelEquals)(e, st, cc)
	}
	return cl
}

// uneval is the value of a form that stands for it.
func uneval(form *Term) *Term {
	if form.op == "mki" && form.args[0].op == "struct" && len(form.args[0].args) == 1 {
		if n, ok := form.typ.(*types.Named); ok && n.Obj().Name() == "Uneval" {
			return form.args[0].args[0]
		}
	}
	return nil
}

// macroExpansion recognises a function that expands the macros in a form and
// gives the form.
func (p *Prog) macroExpansion(cc *Call) *Term {
	if cc.Callee == nil || cc.Callee.Pkg == nil || cc.Callee.Signature.Recv() != nil {
		return nil
	}
	sig := cc.Callee.Signature
	rt := sig.Results()
	if rt.Len() != 2 || !p.isNode(rt.At(0).Type()) || errResult(sig) != 1 || sig.Params().Len() != 3 {
		return nil
	}
	var form *Term
	world := false
	for i, a := range cc.Args {
		switch t := sig.Params().At(i).Type(); {
		case p.isNode(t):
			form = a
		case p.isWorldPtr(t):
			world = true
		}
	}
	if form == nil || !world || p.isBuiltinFn(cc.Callee) {
		return nil
	}
	m := p.Main.Pkg.Scope().Lookup("_Macro")
	for g := range p.staticClosure(cc.Callee) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ta, ok := in.(*ssa.TypeAssert); ok && m != nil && types.Identical(ta.AssertedType, types.NewPointer(m.Type())) {
					return form
				}
			}
		}
	}
	return nil
}

func (p *Prog) isBuiltinFn(f *ssa.Function) bool {
	for _, b := range p.Reg {
		if b.Fn == f {
			return true
		}
	}
	return false
}

func (o *opRun) exec(what string, run func(e *Eng) []Exit) []opExit {
	e := newEng(o.p, o.client())
	sameSymbols = o.p.sameSymbol
	defer func() { sameSymbols = nil }()
	var out []opExit
	for _, x := range run(e) {
		if x.Panic {
			continue
		}
		ox := opExit{x: x, e: e}
		if ev := x.St.mon["ev"]; ev != "" {
			ox.events = strings.Split(strings.TrimSuffix(ev, "; "), "; ")
		}
		n := len(x.Res)
		if n == 2 {
			ox.result = o.show(e, x.St, x.Res[0])
			if o.env {
				ox.result = o.envValue(e, x.St, x.Res[0], nil)
			}
			if er := unwrapTerm(x.Res[1]); e.nilness(x.St, x.Res[1]) != 'N' {
				ox.err = er.label
				if ox.err == "" {
					ox.err = er.String()
				}
			}
		}
		out = append(out, ox)
	}
	o.r.engine(e)
	o.r.count("ways out followed", len(out))
	return out
}

// show names a value: forms and symbols of the shape, values of forms, lists.
func (o *opRun) show(e *Eng, st *State, t *Term) string { return o.showN(e, st, t, 0) }

func (o *opRun) showN(e *Eng, st *State, t *Term, depth int) string {
	if depth > 12 {
		return "..."
	}
	if n := formName(t); n != "" {
		return n
	}
	switch t.op {
	case "nil":
		return "NULL"
	case "expect", "ct", "conv":
		return o.showN(e, st, t.args[0], depth+1)
	case "slist":
		var l []string
		for _, a := range t.args {
			l = append(l, o.showN(e, st, a, depth+1))
		}
		return "[" + strings.Join(l, " ") + "]"
	case "mki":
		ty := t.typ
		if strings.HasSuffix(t.s, "._NullType") {
			return "nil"
		}
		if strings.HasSuffix(t.s, "._TrueType") {
			return "t"
		}
		if types.Identical(ty, types.NewPointer(o.s.consT())) {
			return o.showList(e, st, t, depth)
		}
		if n, ok := ty.(*types.Named); ok && n.Obj().Name() == "Uneval" {
			v := t.args[0]
			if v.op == "struct" {
				return "'" + o.showN(e, st, v.args[0], depth+1)
			}
		}
		return o.showN(e, st, t.args[0], depth+1)
	case "ta", "asv":
		return o.showN(e, st, t.args[0], depth+1)
	case "struct":
		var l []string
		for _, a := range t.args {
			l = append(l, o.showN(e, st, a, depth+1))
		}
		return "{" + strings.Join(l, " ") + "}"
	}
	if o.env && t.op == "gval" && o.p.symbolTexts()[t.s] != "" {
		return o.p.symbolTexts()[t.s]
	}
	if t.label != "" {
		return t.label
	}
	if t == o.s.null() {
		return "nil"
	}
	s := t.String()
	if i := strings.LastIndex(s, "gmnlisp."); i >= 0 {
		s = s[i+8:]
	}
	return s
}

func (o *opRun) showList(e *Eng, st *State, t *Term, depth int) string {
	var l []string
	pn := types.NewPointer(o.s.node())
	for i := 0; i < 12; i++ {
		if t.op != "mki" || !types.Identical(t.typ, types.NewPointer(o.s.consT())) || formName(t) != "" && i > 0 {
			break
		}
		base := t.args[0]
		car := e.Load(st, mkTerm("fld", "gmnlisp.Cons.Car", "", pn, nil, base), "show", o.s.node())
		cdr := e.Load(st, mkTerm("fld", "gmnlisp.Cons.Cdr", "", pn, nil, base), "show", o.s.node())
		l = append(l, o.showN(e, st, car, depth+1))
		t = cdr
	}
	tail := ""
	if x := o.showN(e, st, t, depth+1); x != "nil" && x != "NULL" {
		tail = " . " + x
	}
	if tail == "" && len(l) == 2 && l[0] == "quote" {
		return "'" + l[1]
	}
	return "(" + strings.Join(l, " ") + tail + ")"
}

// ---- what the operators should do

// ref is a reference description of an operator: it "evaluates" by name and
// asks what the values were.
type ref struct {
	o      *opRun
	x      *opExit
	events []string
	count  map[string]int
	choice []bool // answers to questions that the code did not settle
	asked  int
}

type unsettled struct{}
type cutoff struct{}

// eval says that the form is evaluated next and gives the name of its value.
func (g *ref) eval(form string) string {
	g.events = append(g.events, form)
	form = plainEvent(form)
	if max, ok := g.o.rounds[form]; ok {
		g.count[form]++
		if g.count[form] > max {
			panic(cutoff{})
		}
	}
	return "V:" + form
}

// plainEvent is an event without the environment it happens in.
func plainEvent(ev string) string {
	if i := strings.Index(ev, "@"); i >= 0 {
		return ev[:i]
	}
	return ev
}

// answer settles a question by the facts of the exit, or by a choice.
func (g *ref) answer(known int) bool {
	if known >= 0 {
		return known == 1
	}
	if g.asked < len(g.choice) {
		g.asked++
		return g.choice[g.asked-1]
	}
	panic(unsettled{})
}

// truth asks whether the value of the last evaluation was other than nil.
func (g *ref) truth() bool {
	n := len(g.events)
	v := g.o.vals[fmt.Sprintf("%s#%d", plainEvent(g.events[n-1]), evaluations(g.events))]
	if v == nil {
		return g.answer(-1)
	}
	return g.answer(g.x.some(v))
}

// some: the value is known to be other than nil (1), to be nil (0), or neither.
func (x *opExit) some(v *Term) int {
	if k := x.e.truth(x.x.St, someTerm(v)); k >= 0 {
		return k
	}
	if x.e.nilness(x.x.St, v) == 'N' {
		return 0
	}
	for f, k := range x.x.St.facts {
		if f.op == "tok" && len(f.args) == 1 && f.args[0] == v {
			if null := strings.HasSuffix(f.s, "._NullType"); null && k == 'F' || !null && k == 'T' {
				return 1
			} else if null && k == 'T' {
				return 0
			}
		}
	}
	return -1
}

// same asks whether the value of the evaluation number n is eql to the symbol.
func (g *ref) same(n int, form string, sym *Term) bool {
	v := g.o.vals[fmt.Sprintf("%s#%d", form, n)]
	if v == nil {
		return g.answer(-1)
	}
	a, b := v, sym
	if b.op == "mki" {
		b = b.args[0]
	}
	if a.id > b.id {
		a, b = b, a
	}
	return g.answer(g.x.e.truth(g.x.x.St, mkTerm("eqm", g.o.p.strictMode(), "", tBoolT, nil, a, b)))
}

// none: the value of a form is known to be nil on this way out.
func (g *ref) none(result string) bool {
	if !strings.HasPrefix(result, "V:") {
		return result == "nil"
	}
	for i := len(g.x.events); i > 0; i-- {
		if ev := plainEvent(g.x.events[i-1]); "V:"+ev == result {
			v := g.o.vals[fmt.Sprintf("%s#%d", ev, evaluations(g.x.events[:i]))]
			return v != nil && g.x.some(v) == 0
		}
	}
	return false
}

// compare runs the reference against one exit; it returns what is different.
func (o *opRun) compare(x *opExit, spec func(g *ref) string) string {
	var try func(choice []bool) string
	try = func(choice []bool) (diff string) {
		g := &ref{o: o, x: x, count: map[string]int{}, choice: choice}
		cut := false
		split := false
		res := ""
		func() {
			defer func() {
				switch r := recover(); r.(type) {
				case nil:
				case unsettled:
					split = true
				case cutoff:
					cut = true
				default:
					panic(r)
				}
			}()
			res = spec(g)
		}()
		if split {
			if len(choice) > 6 {
				return "asks too much"
			}
			if d := try(append(append([]bool{}, choice...), true)); d != "" {
				return d
			}
			return try(append(append([]bool{}, choice...), false))
		}
		gotEvents, wantEvents := operandsFirst(x.events), operandsFirst(g.events)
		if o.env {
			gotEvents = withoutReads(gotEvents, wantEvents)
		}
		if cut {
			if got := strings.Join(gotEvents, ", "); x.err != "" && (got == "" || strings.HasPrefix(strings.Join(wantEvents, ", ")+", ", got+", ")) {
				return ""
			}
			return "does not stop when it should"
		}
		got, want := strings.Join(gotEvents, ", "), strings.Join(wantEvents, ", ")
		if x.err != "" && (got == "" || strings.HasPrefix(want+", ", got+", ")) {
			// gave up, for instance because of a value of a wrong type
			return ""
		}
		if got != want {
			return fmt.Sprintf("evaluates %s, not %s", orNothing(got), orNothing(want))
		}
		if res != "" && x.result != res && !(g.none(res) && g.none(x.result)) {
			return fmt.Sprintf("returns %s, not %s", x.result, res)
		}
		return ""
	}
	return try(nil)
}

// operandsFirst writes a call with forms as operands as the evaluation of the
// forms followed by the call with their values: both are the same to the program.
func operandsFirst(events []string) (out []string) {
	for _, ev := range events {
		at := ev[len(plainEvent(ev)):]
		ev = ev[:len(ev)-len(at)]
		if i := strings.LastIndex(ev, " ("); strings.HasPrefix(ev, "call(") && i > 0 && strings.HasSuffix(ev, "))") {
			args := strings.Fields(ev[i+2 : len(ev)-2])
			for k, a := range args {
				if len(a) > 1 && a[0] == 'F' && strings.Trim(a[1:], "0123456789") == "" {
					out = append(out, a+at)
					args[k] = "'V:" + a
				}
			}
			ev = ev[:i+2] + strings.Join(args, " ") + "))"
		}
		out = append(out, ev+at)
	}
	return
}

func orNothing(s string) string {
	if s == "" {
		return "nothing"
	}
	return s
}

type opSpec struct {
	lisp   string
	shape  string
	list   func(s *shape) *Term
	spec   func(g *ref) string
	rounds map[string]int
	value  func(s *shape, form string) []*Term

	escapes bool // ends with a transfer of control
}

func prognSpec(g *ref, forms ...string) string {
	v := "nil"
	for _, f := range forms {
		v = g.eval(f)
	}
	return v
}

func c10Specs() []opSpec {
	fs := func(names ...string) func(s *shape) *Term {
		return func(s *shape) *Term {
			var l []*Term
			for _, n := range names {
				l = append(l, s.form(n))
			}
			return s.list(l...)
		}
	}
	bind := func(s *shape, sym, form string) *Term { return s.list(s.sym(sym), s.form(form)) }
	seq := func(forms ...string) func(g *ref) string {
		return func(g *ref) string { return prognSpec(g, forms...) }
	}
	for_ := func(n int) (l []string) {
		for i := 1; i <= n; i++ {
			l = append(l, fmt.Sprintf("F%d", i))
		}
		return
	}
	var out []opSpec
	add := func(lisp, shape string, list func(*shape) *Term, spec func(*ref) string) *opSpec {
		out = append(out, opSpec{lisp: lisp, shape: shape, list: list, spec: spec})
		return &out[len(out)-1]
	}
	for n := 0; n <= 3; n++ {
		add("progn", "("+strings.Join(for_(n), " ")+")", fs(for_(n)...), seq(for_(n)...))
	}
	add("if", "(F1 F2 F3)", fs("F1", "F2", "F3"), func(g *ref) string {
		g.eval("F1")
		if g.truth() {
			return g.eval("F2")
		}
		return g.eval("F3")
	})
	add("if", "(F1 F2)", fs("F1", "F2"), func(g *ref) string {
		g.eval("F1")
		if g.truth() {
			return g.eval("F2")
		}
		return "nil"
	})
	add("cond", "((F1 F2 F3) (F4 F5))", func(s *shape) *Term {
		return s.list(s.list(s.form("F1"), s.form("F2"), s.form("F3")), s.list(s.form("F4"), s.form("F5")))
	}, func(g *ref) string {
		g.eval("F1")
		if g.truth() {
			return prognSpec(g, "F2", "F3")
		}
		g.eval("F4")
		if g.truth() {
			return g.eval("F5")
		}
		return "nil"
	})
	add("cond", "((F1) (F2 F3))", func(s *shape) *Term {
		return s.list(s.list(s.form("F1")), s.list(s.form("F2"), s.form("F3")))
	}, func(g *ref) string {
		v := g.eval("F1")
		if g.truth() {
			return v
		}
		g.eval("F2")
		if g.truth() {
			return g.eval("F3")
		}
		return "nil"
	})
	add("case", "(F1 ((S1 S2) F2 F3) ((S3) F4) (t F5))", func(s *shape) *Term {
		t := s.p.globs[s.p.ModPath+".True"]
		if t == nil {
			t = s.sym("S4")
		}
		return s.list(s.form("F1"), s.list(s.list(s.sym("S1"), s.sym("S2")), s.form("F2"), s.form("F3")), s.list(s.list(s.sym("S3")), s.form("F4")), s.list(t, s.form("F5")))
	}, func(g *ref) string {
		g.eval("F1")
		if g.same(1, "F1", g.o.s.sym("S1")) || g.same(1, "F1", g.o.s.sym("S2")) {
			return prognSpec(g, "F2", "F3")
		}
		if g.same(1, "F1", g.o.s.sym("S3")) {
			return g.eval("F4")
		}
		return g.eval("F5")
	})
	add("case", "(F1 ((S1) F2))", func(s *shape) *Term {
		return s.list(s.form("F1"), s.list(s.list(s.sym("S1")), s.form("F2")))
	}, func(g *ref) string {
		g.eval("F1")
		if g.same(1, "F1", g.o.s.sym("S1")) {
			return g.eval("F2")
		}
		return "nil"
	})
	add("and", "()", fs(), func(*ref) string { return "t" })
	add("or", "()", fs(), func(*ref) string { return "nil" })
	for n := 1; n <= 3; n++ {
		n := n
		add("and", "("+strings.Join(for_(n), " ")+")", fs(for_(n)...), func(g *ref) string {
			for i, f := range for_(n) {
				v := g.eval(f)
				if i == n-1 {
					return v
				}
				if !g.truth() {
					return "nil"
				}
			}
			return ""
		})
		add("or", "("+strings.Join(for_(n), " ")+")", fs(for_(n)...), func(g *ref) string {
			for i, f := range for_(n) {
				v := g.eval(f)
				if i == n-1 || g.truth() {
					return v
				}
			}
			return ""
		})
	}
	add("while", "(F1 F2 F3)", fs("F1", "F2", "F3"), func(g *ref) string {
		for {
			g.eval("F1")
			if !g.truth() {
				return ""
			}
			g.eval("F2")
			g.eval("F3")
		}
	}).rounds = map[string]int{"F1": 2}
	for _, op := range []string{"let", "let*"} {
		add(op, "(((S1 F1) (S2 F2)) F3 F4)", func(s *shape) *Term {
			return s.list(s.list(bind(s, "S1", "F1"), bind(s, "S2", "F2")), s.form("F3"), s.form("F4"))
		}, seq("F1", "F2", "F3", "F4"))
		add(op, "(() F1)", func(s *shape) *Term { return s.list(s.null(), s.form("F1")) }, seq("F1"))
	}
	add("dynamic-let", "(((S1 F1) (S2 F2)) F3 F4)", func(s *shape) *Term {
		return s.list(s.list(bind(s, "S1", "F1"), bind(s, "S2", "F2")), s.form("F3"), s.form("F4"))
	}, seq("F1", "F2", "F3", "F4"))
	for _, op := range []string{"flet", "labels"} {
		add(op, "(((S1 (S2) F1)) F2 F3)", func(s *shape) *Term {
			return s.list(s.list(s.list(s.sym("S1"), s.list(s.sym("S2")), s.form("F1"))), s.form("F2"), s.form("F3"))
		}, seq("F2", "F3"))
	}
	add("setq", "(S1 F1)", func(s *shape) *Term { return s.list(s.sym("S1"), s.form("F1")) }, seq("F1"))
	add("psetq", "(S1 F1 S2 F2)", func(s *shape) *Term {
		return s.list(s.sym("S1"), s.form("F1"), s.sym("S2"), s.form("F2"))
	}, func(g *ref) string { prognSpec(g, "F1", "F2"); return "" })
	for _, op := range []string{"defglobal", "defconstant", "defdynamic"} {
		add(op, "(S1 F1)", func(s *shape) *Term { return s.list(s.sym("S1"), s.form("F1")) }, func(g *ref) string { g.eval("F1"); return "S1" })
	}
	add("block", "(S1 F1 F2)", func(s *shape) *Term { return s.list(s.sym("S1"), s.form("F1"), s.form("F2")) }, seq("F1", "F2"))
	add("catch", "(F1 F2 F3)", fs("F1", "F2", "F3"), seq("F1", "F2", "F3"))
	add("tagbody", "(S1 F1 S2 F2)", func(s *shape) *Term {
		return s.list(s.sym("S1"), s.form("F1"), s.sym("S2"), s.form("F2"))
	}, func(g *ref) string { prognSpec(g, "F1", "F2"); return "nil" })
	add("unwind-protect", "(F1 F2 F3)", fs("F1", "F2", "F3"), func(g *ref) string { prognSpec(g, "F1", "F2", "F3"); return "V:F1" })
	add("with-handler", "(F1 F2 F3)", fs("F1", "F2", "F3"), seq("F1", "F2", "F3"))
	add("ignore-errors", "(F1 F2)", fs("F1", "F2"), seq("F1", "F2"))
	add("with-standard-input", "(F1 F2 F3)", fs("F1", "F2", "F3"), seq("F1", "F2", "F3"))
	add("funcall", "(F1 F2 F3)", fs("F1", "F2", "F3"), func(g *ref) string {
		g.eval("F1")
		g.events = append(g.events, "call(V:F1 (F2 F3))")
		return "R"
	})
	add("continue-condition", "(F1 F2)", fs("F1", "F2"), seq("F1", "F2")).escapes = true
	add("return-from", "(S1 F1)", func(s *shape) *Term { return s.list(s.sym("S1"), s.form("F1")) }, seq("F1")).escapes = true
	for _, op := range []string{"dynamic", "function"} {
		add(op, "(S1)", func(s *shape) *Term { return s.list(s.sym("S1")) }, func(g *ref) string { return "" })
	}
	add("go", "(S1)", func(s *shape) *Term { return s.list(s.sym("S1")) }, func(g *ref) string { return "" }).escapes = true
	add("defgeneric", "(S1 (S2 S3))", func(s *shape) *Term {
		return s.list(s.sym("S1"), s.list(s.sym("S2"), s.sym("S3")))
	}, func(g *ref) string { return "S1" })
	for _, op := range []string{"with-open-input-file", "with-open-output-file"} {
		add(op, "((S1 F1) F2 F3)", func(s *shape) *Term {
			return s.list(s.list(s.sym("S1"), s.form("F1")), s.form("F2"), s.form("F3"))
		}, seq("F1", "F2", "F3"))
	}
	add("quasiquote", "((S1 (S2 ,F1) ,F2))", func(s *shape) *Term {
		unq := s.p.symbolValue(s.p.globs[s.p.ModPath+".symUnquote"])
		if unq == nil {
			unq = s.sym("unquote")
		}
		return s.list(s.list(s.sym("S1"), s.list(s.sym("S2"), s.list(unq, s.form("F1"))), s.list(unq, s.form("F2"))))
	}, func(g *ref) string { prognSpec(g, "F1", "F2"); return "(S1 (S2 V:F1) V:F2)" })
	splice := func(s *shape, f string) *Term { return s.list(s.sym("unquote-splicing"), s.form(f)) }
	q := add("quasiquote", "((S1 (,@F1) ,@F2 S2))", func(s *shape) *Term {
		return s.list(s.list(s.sym("S1"), s.list(splice(s, "F1")), splice(s, "F2"), s.sym("S2")))
	}, func(g *ref) string { prognSpec(g, "F1", "F2"); return "(S1 (S3 S4) S3 S4 S2)" })
	q.value = func(s *shape, form string) []*Term {
		return []*Term{s.list(s.sym("S3"), s.sym("S4"))}
	}
	a := add("apply", "(F1 F2 F3)", fs("F1", "F2", "F3"), func(g *ref) string {
		prognSpec(g, "F1", "F2", "F3")
		g.events = append(g.events, "call(V:F1 ('V:F2 'S1 'S2))")
		return "R"
	})
	a.value = func(s *shape, form string) []*Term {
		if form == "F3" {
			return []*Term{s.list(s.sym("S1"), s.sym("S2"))}
		}
		return nil
	}
	add("quote", "(F1)", fs("F1"), func(g *ref) string { return "F1" })
	add("lambda", "((S1) F1)", func(s *shape) *Term { return s.list(s.list(s.sym("S1")), s.form("F1")) }, func(g *ref) string { return "" })
	add("defun", "(S1 (S2) F1)", func(s *shape) *Term {
		return s.list(s.sym("S1"), s.list(s.sym("S2")), s.form("F1"))
	}, func(g *ref) string { return "S1" })
	add("defmacro", "(S1 (S2) F1)", func(s *shape) *Term {
		return s.list(s.sym("S1"), s.list(s.sym("S2")), s.form("F1"))
	}, func(g *ref) string { return "" })
	add("instancep", "(F1 F2)", fs("F1", "F2"), func(g *ref) string { prognSpec(g, "F1", "F2"); return "" })
	add("convert", "(F1 S1)", func(s *shape) *Term { return s.list(s.form("F1"), s.sym("S1")) }, func(g *ref) string { g.eval("F1"); return "" }).value =
		func(s *shape, form string) []*Term { return []*Term{s.sym("S2")} }
	return out
}

func checkC10(p *Prog, r *Report) {
	for _, sp := range c10Specs() {
		b := anchor(p, r, sp.lisp)
		if b == nil {
			continue
		}
		if b.Kind != "special" {
			r.add("not-special/"+sp.lisp, p.pos(b.Fn.Pos()), "(%s) is not a special operator, so its operands are all evaluated", sp.lisp)
			continue
		}
		o := &opRun{p: p, r: r, name: sp.lisp, shape: sp.shape, rounds: sp.rounds, value: sp.value}
		o.judge("("+sp.lisp+")", sp.lisp+"/"+sp.shape, "with the arguments "+sp.shape, p.pos(b.Fn.Pos()), o.run(b, sp.list), sp.spec, sp.escapes)
		r.count("operators and argument lists", 1)
	}
	callablesC10(p, r, false)
	functionsC10(p, r)
	r.floor("operators and argument lists", 40)
}

// judge compares the ways out with the reference.
func (o *opRun) judge(what, key, how, where string, exits []opExit, spec func(g *ref) string, escapes bool) {
	r := o.r
	n := 0
	var diffs []string
	for i := range exits {
		x := &exits[i]
		r.ob(1)
		if d := o.compare(x, spec); d != "" {
			diffs = append(diffs, d)
			continue
		}
		if x.err == "" || escapes {
			n++
		}
	}
	r.count("ways out that agree", n)
	sort.Strings(diffs)
	for i, d := range diffs {
		if i < 2 {
			r.add("differs/"+key, where, "%s %s %s", what, how, d)
		}
	}
	if n == 0 && len(diffs) == 0 {
		r.add("no-exit/"+key, where, "%s %s has no ordinary way out", what, how)
	}
}

// receiver makes a struct of the named type with some of its fields known.
func (o *opRun) receiver(name string, fields map[string]*Term) *Term {
	obj := o.p.Main.Pkg.Scope().Lookup(name)
	if obj == nil {
		return nil
	}
	named, ok := obj.Type().(*types.Named)
	if !ok {
		return nil
	}
	st, ok := named.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	base := tSym("recv#"+name, "RECV", types.NewPointer(named))
	o.s.st.facts[base] = 'X'
	seen := 0
	for i := 0; i < st.NumFields(); i++ {
		if v, ok := fields[st.Field(i).Name()]; ok {
			seen++
			o.s.st.mem[mkTerm("fld", o.p.Main.Pkg.Name()+"."+name+"."+st.Field(i).Name(), "", types.NewPointer(st.Field(i).Type()), nil, base)] = v
		}
	}
	if seen != len(fields) {
		return nil
	}
	return base
}

func (o *opRun) slice(t types.Type, elems ...*Term) *Term {
	return mkTerm("slist", "", "", types.NewSlice(t), nil, elems...)
}

// runCall interprets the method Call of a kind of function.
func (o *opRun) runCall(f *ssa.Function, recv func() *Term, list func(s *shape) *Term) []opExit {
	st := newState()
	o.s = &shape{p: o.p, st: st}
	o.vals = map[string]*Term{}
	rv := recv()
	if rv == nil {
		return nil
	}
	l := list(o.s)
	o.ordinarySymbols()
	args := []*Term{rv}
	for i := 1; i < len(f.Params); i++ {
		t := f.Params[i].Type()
		switch {
		case o.p.isWorldPtr(t):
			o.world = tSym("entry#world", "world", t)
			st.facts[o.world] = 'X'
			args = append(args, o.world)
		case o.p.isNode(t):
			args = append(args, l)
		default:
			args = append(args, tSym("entry#"+fmt.Sprint(i), "", t))
		}
	}
	return o.exec(f.String(), func(e *Eng) []Exit { return e.Run(f, args, nil, st) })
}

// callMethod finds the method Call of the type.
func (p *Prog) callMethod(name string) *ssa.Function {
	obj := p.Main.Pkg.Scope().Lookup(name)
	if obj == nil {
		return nil
	}
	for _, t := range []types.Type{obj.Type(), types.NewPointer(obj.Type())} {
		if sel := p.SSA.MethodSets.MethodSet(t).Lookup(p.Main.Pkg, "Call"); sel != nil {
			f := p.SSA.MethodValue(sel)
			if f != nil && f.Synthetic == "" {
				return f
			}
		}
	}
	return nil
}

// callablesC10: the kinds of functions evaluate their operands from left to
// right, once each, and get the values in this order; macros get the forms.
func callablesC10(p *Prog, r *Report, env bool) {
	at := func(ev, where string) string {
		if env {
			return ev + "@" + where
		}
		return ev
	}
	operands := func(n int) func(s *shape) *Term {
		return func(s *shape) *Term {
			var l []*Term
			for i := 1; i <= n; i++ {
				l = append(l, s.form(fmt.Sprintf("F%d", i)))
			}
			return s.list(l...)
		}
	}
	evalAll := func(g *ref, n int) (vals []string) {
		for i := 1; i <= n; i++ {
			vals = append(vals, g.eval(at(fmt.Sprintf("F%d", i), "E")))
		}
		return
	}
	run := func(g *ref, args ...string) string {
		g.events = append(g.events, at(strings.TrimSuffix("run(FN "+strings.Join(args, " "), " ")+")", "E"))
		return "R"
	}
	kinds := 0
	try := func(name, operands string, n int, recv func(o *opRun, f *ssa.Function) *Term, list func(s *shape) *Term, spec func(g *ref) string, never bool, value func(s *shape, form string) []*Term) {
		f := p.callMethod(name)
		if f == nil {
			return
		}
		o := &opRun{p: p, r: r, name: name, shape: operands, value: value, env: env}
		exits := o.runCall(f, func() *Term { return recv(o, f) }, list)
		if exits == nil {
			r.count("kinds of functions of another form", 1)
			return
		}
		kinds++
		r.count("kinds of functions and operands", 1)
		how := "with the operands " + operands
		if never {
			for i := range exits {
				r.ob(1)
				for _, ev := range exits[i].events {
					if strings.HasPrefix(ev, "run(") || plainEvent(ev) == "F9" {
						r.add("runs/"+name+"/"+operands, p.pos(f.Pos()), "%s runs the function %s", fnName(f), how)
					}
				}
			}
			return
		}
		o.judge(fnName(f), name+"/"+operands, how, p.pos(f.Pos()), exits, spec, false)
	}
	fn := func(o *opRun, f *ssa.Function) *Term {
		t := tSym("recv#fn", "FN", f.Params[0].Type())
		o.s.st.facts[t] = 'X'
		return t
	}
	shapes := []string{"()", "(F1)", "(F1 F2)", "(F1 F2 F3)"}
	for k := 0; k <= 2; k++ {
		for n := 0; n <= 3; n++ {
			n := n
			try(fmt.Sprintf("Function%d", k), shapes[n], n, fn, operands(n), func(g *ref) string {
				return run(g, evalAll(g, n)...)
			}, n != k, nil)
		}
	}
	try("SpecialF", "(F1 F2)", 2, fn, operands(2), func(g *ref) string { return run(g, "(F1 F2)") }, false, nil)
	for n := 0; n <= 3; n++ {
		n := n
		try("Function", shapes[n], n, func(o *opRun, f *ssa.Function) *Term {
			st := derefType(f.Params[0].Type()).Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if _, ok := st.Field(i).Type().Underlying().(*types.Signature); ok {
					return o.receiver("Function", map[string]*Term{st.Field(i).Name(): o.nonNil("recv#fn", "FN", st.Field(i).Type())})
				}
			}
			return nil
		}, operands(n), func(g *ref) string {
			if vals := evalAll(g, n); n > 0 {
				return run(g, "["+strings.Join(vals, " ")+"]")
			}
			return run(g)
		}, false, nil)
		try("_Generic", shapes[n], n, func(o *opRun, f *ssa.Function) *Term {
			return o.generic()
		}, operands(n), func(g *ref) string {
			if vals := evalAll(g, n); n > 0 {
				return run(g, "["+strings.Join(vals, " ")+"]")
			}
			return run(g)
		}, false, nil)
	}
	lambda := func(params int, rest bool) func(o *opRun, f *ssa.Function) *Term {
		return func(o *opRun, f *ssa.Function) *Term { return o.lambda("_Lambda", params, rest) }
	}
	for n := 0; n <= 3; n++ {
		n := n
		try("_Lambda", shapes[n], n, lambda(n, false), operands(n), func(g *ref) string {
			evalAll(g, n)
			l := []string{}
			for i := 1; i <= n; i++ {
				l = append(l, fmt.Sprintf("S%d=V:F%d", i, i))
			}
			if n == 0 {
				return g.eval(at("F9", "L"))
			}
			return g.eval(at("F9", "L{"+strings.Join(l, ",")+"}"))
		}, false, nil)
	}
	try("_Lambda", "(F1 F2 F3) for (S1 &rest S9)", 3, lambda(1, true), operands(3), func(g *ref) string {
		evalAll(g, 3)
		return g.eval(at("F9", "L{S1=V:F1,S9=(V:F2 V:F3)}"))
	}, false, nil)
	try("_Lambda", "(F1) for (S1 &rest S9)", 1, lambda(1, true), operands(1), func(g *ref) string {
		evalAll(g, 1)
		return g.eval(at("F9", "L{S1=V:F1,S9=nil}"))
	}, false, nil)
	for params := 0; params <= 2; params++ {
		for n := 0; n <= 3; n++ {
			if n != params {
				how := fmt.Sprintf("%s for %d parameters", shapes[n], params)
				try("_Lambda", how, n, lambda(params, false), operands(n), nil, true, nil)
				try("_Macro", how, n, func(o *opRun, f *ssa.Function) *Term { return o.lambda("_Macro", params, false) }, operands(n), nil, true, nil)
			}
		}
	}
	try("_Lambda", "() for (S1 &rest S9)", 0, lambda(1, true), operands(0), nil, true, nil)
	try("_Macro", "() for (S1 &rest S9)", 0, func(o *opRun, f *ssa.Function) *Term { return o.lambda("_Macro", 1, true) }, operands(0), nil, true, nil)
	try("_Macro", "(F1 F2)", 2, func(o *opRun, f *ssa.Function) *Term { return o.lambda("_Macro", 2, false) }, operands(2), func(g *ref) string {
		g.eval(at("F9", "L{S1=F1,S2=F2}"))
		return g.eval(at("S5", "E"))
	}, false, func(s *shape, form string) []*Term {
		if plainEvent(form) == "F9" {
			return []*Term{s.sym("S5")}
		}
		return nil
	})
	try("_Macro", "(F1 F2 F3) for (S1 &rest S9)", 3, func(o *opRun, f *ssa.Function) *Term { return o.lambda("_Macro", 1, true) }, operands(3), func(g *ref) string {
		g.eval(at("F9", "L{S1=F1,S9=(F2 F3)}"))
		return g.eval(at("S5", "E"))
	}, false, func(s *shape, form string) []*Term {
		if plainEvent(form) == "F9" {
			return []*Term{s.sym("S5")}
		}
		return nil
	})
	r.floor("kinds of functions and operands", 20)
}

func (o *opRun) nonNil(name, label string, t types.Type) *Term {
	x := tSym(name, label, t)
	o.s.st.facts[x] = 'X'
	return x
}

// generic is a generic function with one method.
func (o *opRun) generic() *Term {
	mt := o.p.Main.Pkg.Scope().Lookup("_Method")
	if mt == nil {
		return nil
	}
	named := mt.Type().(*types.Named)
	m := o.nonNil("recv#method", "METHOD", types.NewPointer(named))
	st, ok := named.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Signature); ok {
			o.s.st.mem[mkTerm("fld", o.p.Main.Pkg.Name()+"._Method."+st.Field(i).Name(), "", types.NewPointer(st.Field(i).Type()), nil, m)] = o.nonNil("recv#fn", "FN", st.Field(i).Type())
		}
	}
	return o.receiver("_Generic", map[string]*Term{"methods": o.slice(types.NewPointer(named), m)})
}

// lambda is a function or a macro made by lambda: its parameters are S1 and so
// on, its body is F9.
func (o *opRun) lambda(name string, params int, rest bool) *Term {
	symbol := o.p.Main.Pkg.Scope().Lookup("Symbol")
	world := o.p.Main.Pkg.Scope().Lookup("World")
	nul := o.p.symbolValue(o.p.globs[o.p.ModPath+".nulSymbol"])
	if symbol == nil || world == nil || nul == nil {
		return nil
	}
	var ps []*Term
	for i := 1; i <= params; i++ {
		ps = append(ps, o.s.sym(fmt.Sprintf("S%d", i)))
	}
	fields := map[string]*Term{
		"param":   o.slice(symbol.Type(), ps...),
		"code":    o.s.list(o.s.form("F9")),
		"lexical": o.nonNil("recv#world", "LEXICAL", types.NewPointer(world.Type())),
		"rest":    nul,
	}
	if rest {
		fields["rest"] = o.s.sym("S9")
	}
	return o.receiver(name, fields)
}

// ordinarySymbols: the symbols of the shape are none of the interpreter's own.
func (o *opRun) ordinarySymbols() {
	if o.env {
		var all []*Term
		for i := 1; i <= 9; i++ {
			all = append(all, o.s.sym(fmt.Sprintf("S%d", i)), o.s.sym(fmt.Sprintf("S%d", i)).args[0])
		}
		o.s.distinct(all...)
	}
	for i := 1; i <= 9; i++ {
		sym := o.s.sym(fmt.Sprintf("S%d", i))
		for _, g := range o.p.globs {
			if g := o.p.symbolValue(g); g != nil {
				o.s.st.facts[simplifyEq(sym, g)] = 'F'
			}
		}
	}
}

// symbolValue is the value of a global variable that is a symbol, as a Symbol.
func (p *Prog) symbolValue(g *Term) *Term {
	if g == nil {
		return nil
	}
	n, ok := g.typ.(*types.Named)
	if !ok || n.Obj().Pkg() != p.Main.Pkg {
		return nil
	}
	switch n.Obj().Name() {
	case "Symbol":
		return g
	case "_Symbol":
		if g.op == "mki" {
			return g
		}
		return mkTerm("mki", typeKey(n), "", n, nil, g)
	}
	return nil
}

// runValues interprets a function of the interpreter that gets values.
func (o *opRun) runValues(f *ssa.Function, vals func(s *shape) []*Term) []opExit {
	st := newState()
	o.s = &shape{p: o.p, st: st}
	o.vals = map[string]*Term{}
	vs := vals(o.s)
	o.ordinarySymbols()
	var args []*Term
	for i := range f.Params {
		t := f.Params[i].Type()
		sl, isSlice := t.Underlying().(*types.Slice)
		switch {
		case o.p.isWorldPtr(t):
			o.world = tSym("entry#world", "world", t)
			st.facts[o.world] = 'X'
			args = append(args, o.world)
		case o.p.isNode(t) && len(vs) > 0:
			args = append(args, vs[0])
			vs = vs[1:]
		case isSlice && o.p.isNode(sl.Elem()):
			args = append(args, o.slice(sl.Elem(), vs...))
			vs = nil
		default:
			args = append(args, tSym("entry#"+fmt.Sprint(i), "", t))
		}
	}
	return o.exec(f.String(), func(e *Eng) []Exit { return e.Run(f, args, nil, st) })
}

// functionsC10: functions that call a function given to them hand on the values
// as they are: once per element, in order, and without evaluating them again.
func functionsC10(p *Prog, r *Report) {
	value := func(s *shape, name string) *Term {
		t := tSym("arg#"+name, name, s.node())
		s.st.facts[t] = 'X'
		return t
	}
	call := func(g *ref, args string) { g.events = append(g.events, "call(A1 ("+args+"))") }
	type fnSpec struct {
		lisp, shape string
		vals        func(s *shape) []*Term
		spec        func(g *ref) string
	}
	var specs []fnSpec
	syms := func(s *shape, from, to int) *Term {
		var l []*Term
		for i := from; i <= to; i++ {
			l = append(l, s.sym(fmt.Sprintf("S%d", i)))
		}
		return s.list(l...)
	}
	for _, op := range []string{"mapcar", "mapc", "mapcan"} {
		for n := 0; n <= 3; n++ {
			n, op := n, op
			specs = append(specs, fnSpec{op, fmt.Sprintf("f and a list of %d", n), func(s *shape) []*Term {
				return []*Term{value(s, "A1"), syms(s, 1, n)}
			}, func(g *ref) string {
				res := "nil"
				for i := 1; i <= n; i++ {
					call(g, fmt.Sprintf("'S%d", i))
				}
				if n > 0 {
					res = "(R" + strings.Repeat(" R", n-1) + ")"
				}
				if op != "mapcar" {
					return ""
				}
				return res
			}})
		}
		specs = append(specs, fnSpec{op, "f and lists of 2 and 3", func(s *shape) []*Term {
			return []*Term{value(s, "A1"), syms(s, 1, 2), syms(s, 3, 5)}
		}, func(g *ref) string {
			call(g, "'S1 'S3")
			call(g, "'S2 'S4")
			return ""
		}}, fnSpec{op, "f and lists of 2 and 1", func(s *shape) []*Term {
			return []*Term{value(s, "A1"), syms(s, 1, 2), syms(s, 3, 3)}
		}, func(g *ref) string {
			call(g, "'S1 'S3")
			return ""
		}})
	}
	for _, op := range []string{"maplist", "mapl"} {
		specs = append(specs, fnSpec{op, "f and an empty list", func(s *shape) []*Term {
			return []*Term{value(s, "A1"), s.null()}
		}, func(g *ref) string { return "nil" }}, fnSpec{op, "f and lists of 2 and 1", func(s *shape) []*Term {
			return []*Term{value(s, "A1"), syms(s, 1, 2), syms(s, 3, 3)}
		}, func(g *ref) string {
			call(g, "'(S1 S2) '(S3)")
			return ""
		}})
		specs = append(specs, fnSpec{op, "f and a list of 2", func(s *shape) []*Term {
			return []*Term{value(s, "A1"), syms(s, 1, 2)}
		}, func(g *ref) string {
			call(g, "'(S1 S2)")
			call(g, "'(S2)")
			return ""
		}})
	}
	specs = append(specs, fnSpec{"eval", "a form", func(s *shape) []*Term { return []*Term{s.form("F1")} }, func(g *ref) string { return g.eval("F1") }})
	for _, sp := range specs {
		b := anchor(p, r, sp.lisp)
		if b == nil {
			continue
		}
		o := &opRun{p: p, r: r, name: sp.lisp, shape: sp.shape}
		if sp.lisp == "mapcan" {
			// the results are lists
			o.value = func(s *shape, form string) []*Term { return []*Term{s.null()} }
		}
		exits := o.runValues(b.Fn, sp.vals)
		o.judge("("+sp.lisp+")", sp.lisp+"/"+sp.shape, "given "+sp.shape, p.pos(b.Fn.Pos()), exits, sp.spec, false)
		r.count("functions that call functions", 1)
	}
	r.floor("functions that call functions", 15)
	// every other function that calls a function with values of its own
	covered := map[*ssa.Function]bool{}
	for _, sp := range specs {
		if b := p.Builtin(sp.lisp); b != nil {
			for f := range p.staticClosure(b.Fn) {
				if f.Origin() == nil {
					covered[f] = true
				}
			}
		}
	}
	done := map[*ssa.Function]bool{}
	for _, f := range p.handsOn() {
		if covered[f] || done[f] || f.Origin() != nil && done[f.Origin()] {
			continue
		}
		done[f] = true
		if f.Origin() != nil {
			done[f.Origin()] = true
		}
		o := &opRun{p: p, r: r, name: f.Name()}
		exits := o.runValues(f, func(s *shape) []*Term {
			return []*Term{value(s, "A1"), value(s, "A2"), value(s, "A3")}
		})
		bad := map[string]bool{}
		for i := range exits {
			r.ob(1)
			for _, ev := range exits[i].events {
				if bare(ev) {
					bad[ev] = true
				}
			}
		}
		for ev := range bad {
			r.add("again/"+fnName(f), p.pos(f.Pos()), "%s calls a function with a value that is evaluated again: %s", fnName(f), ev)
		}
		r.count("other functions that hand values on", 1)
	}
}

// handsOn lists the functions that build the operands of a call themselves.
func (p *Prog) handsOn() (out []*ssa.Function) {
	for _, f := range p.All {
		if f.Pkg != p.Main && f.Origin() == nil || !hasWorldParam(p, f.Signature) || f.Signature.Recv() != nil {
			continue
		}
		special := false
		for _, b := range p.Reg {
			special = special || b.Fn == f && b.Kind == "special"
		}
		if special {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !ci.Common().IsInvoke() && ci.Common().StaticCallee() == nil {
					continue
				}
				name := calleeName(ci.Common())
				if name == "Call" && p.runsUserCode(ci.Common()) {
					out = append(out, f)
				}
			}
		}
	}
	return
}

// bare says that the call hands on a value that is evaluated again.
func bare(ev string) bool {
	if !strings.HasPrefix(ev, "call(") {
		return false
	}
	i := strings.Index(ev, " (")
	if i < 0 {
		return false
	}
	depth := 0
	start := true
	for _, c := range ev[i+2 : len(ev)-1] {
		switch {
		case c == '(' || c == '[' || c == '{':
			if start && depth == 0 {
				return true
			}
			depth++
			start = false
		case c == ')' || c == ']' || c == '}':
			depth--
			start = false
		case c == ' ':
			start = depth == 0
		case start && depth == 0:
			if c != '\'' && c != '.' {
				return true
			}
			start = false
			if c == '\'' {
				continue
			}
		}
	}
	return false
}

// kindOfNode tells a list of the shape from a keyword.
func kindOfNode(t *Term) string {
	x := t
	if x.op == "mki" {
		x = x.args[0]
	}
	n, ok := derefType2(x.typ).(*types.Named)
	switch {
	case !ok:
		return ""
	case x.op == "cell" && n.Obj().Name() == "Cons":
		return "list+"
	case n.Obj().Name() == "Keyword":
		return "keyword"
	}
	return ""
}

func derefType2(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// withoutReads leaves out the lookups of names that nobody asked for: they
// change nothing.
func withoutReads(events, wanted []string) (out []string) {
	for _, ev := range events {
		keep := !isRead(ev)
		for _, w := range wanted {
			keep = keep || w == ev
		}
		if keep {
			out = append(out, ev)
		}
	}
	return
}

// isRead: the event looks a name up.
func isRead(ev string) bool {
	return strings.HasPrefix(ev, "get ") || strings.HasPrefix(ev, "getfunc ")
}

// evaluations counts the events that are more than a lookup.
func evaluations(events []string) (n int) {
	for _, ev := range events {
		if !isRead(ev) {
			n++
		}
	}
	return
}
