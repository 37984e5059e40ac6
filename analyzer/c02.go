package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// scopedField is a part of the state of the interpreter that some operator
// changes for as long as its body runs.
type scopedField struct {
	name string
	typ  types.Type
}

func (f scopedField) isMap() bool {
	_, ok := f.typ.Underlying().(*types.Map)
	return ok
}

// scopedFields lists the fields of the interpreter's shared state, without the
// tables that definitions change for good.
func (p *Prog) scopedFields() (owner *types.Named, out []scopedField) {
	o := p.Main.Pkg.Scope().Lookup("World")
	if o == nil {
		return nil, nil
	}
	ws, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < ws.NumFields(); i++ {
		pt, ok := ws.Field(i).Type().(*types.Pointer)
		if !ok || !ws.Field(i).Embedded() {
			continue
		}
		n, ok := pt.Elem().(*types.Named)
		if !ok {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		owner = n
		for j := 0; j < st.NumFields(); j++ {
			f := st.Field(j)
			switch f.Type().String() {
			case p.ModPath + ".Scope", p.ModPath + ".FuncScope", "sync.Once":
				continue
			}
			if m, ok := f.Type().Underlying().(*types.Map); ok && strings.HasSuffix(m.Elem().String(), "._Macro") {
				continue
			}
			out = append(out, scopedField{f.Name(), f.Type()})
		}
	}
	return
}

// staticClosure is the code of an operator: what it calls directly and the
// functions it makes, without what the programs it runs do.
func (p *Prog) staticClosure(root *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !p.inRepo(f) {
			return
		}
		if p.isMethod(f, "World", "Eval") || f.Name() == "Call" && f.Signature.Recv() != nil {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					walk(mc.Fn.(*ssa.Function))
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if g := cc.StaticCallee(); g != nil {
						walk(g)
					}
					for _, a := range cc.Args {
						if g, ok := a.(*ssa.Function); ok {
							walk(g)
						}
					}
				}
			}
		}
	}
	walk(root)
	return seen
}

// fieldUse finds what a function does with the fields of the shared state.
func (p *Prog) fieldUse(f *ssa.Function, owner *types.Named) (reads, writes map[string]bool) {
	reads, writes = map[string]bool{}, map[string]bool{}
	fieldOfAddr := func(v ssa.Value) string {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return ""
		}
		if !types.Identical(derefType(fa.X.Type()), owner) {
			return ""
		}
		return owner.Underlying().(*types.Struct).Field(fa.Field).Name()
	}
	loaded := func(v ssa.Value) string {
		for {
			switch x := v.(type) {
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.UnOp:
				if x.Op == token.MUL {
					return fieldOfAddr(x.X)
				}
			}
			return ""
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if n := fieldOfAddr(x.Addr); n != "" {
					writes[n] = true
				}
			case *ssa.UnOp:
				if n := loaded(x); n != "" {
					reads[n] = true
				}
			case *ssa.MapUpdate:
				if n := loaded(x.Map); n != "" {
					writes[n] = true
				}
			case ssa.CallInstruction:
				cc := x.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
					if n := loaded(cc.Args[0]); n != "" {
						writes[n] = true
					}
				}
				if g := cc.StaticCallee(); g != nil && g.Signature.Recv() != nil && len(cc.Args) > 0 {
					if n := loaded(cc.Args[0]); n != "" && p.changesReceiver(g) {
						writes[n] = true
					}
				}
			}
		}
	}
	return
}

// changesReceiver says that a method of a map type changes the map.
func (p *Prog) changesReceiver(g *ssa.Function) bool {
	if len(g.Params) == 0 {
		return false
	}
	if _, ok := g.Params[0].Type().Underlying().(*types.Map); !ok {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				return true
			case ssa.CallInstruction:
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
					return true
				}
			}
		}
	}
	return false
}

// scopeOps says which operator establishes what: the operators that look it up
// and the shape of its arguments.
var scopeOps = map[string]struct {
	readers []string // operators whose code consults the state
	what    string
}{
	"with-handler":        {[]string{"signal-condition"}, "the handler"},
	"with-standard-input": {[]string{"standard-input"}, "the standard input"},
	"dynamic-let":         {[]string{"dynamic"}, "the dynamic variables"},
	"catch":               {[]string{"throw"}, "the catch tag"},
	"block":               {[]string{"return-from"}, "the block name"},
	"tagbody":             {[]string{"go"}, "the tags"},
}

func checkC02(p *Prog, r *Report) {
	owner, fields := p.scopedFields()
	if owner == nil || len(fields) == 0 {
		r.add("anchor/state", "-", "the shared state of the interpreter was not found")
		return
	}
	byField := map[string]scopedField{}
	for _, f := range fields {
		byField[f.name] = f
	}
	readersOf := func(name string) map[string]bool {
		out := map[string]bool{}
		b := p.Builtin(name)
		if b == nil || b.Fn == nil {
			return out
		}
		for f := range p.staticClosure(b.Fn) {
			rd, _ := p.fieldUse(f, owner)
			for n := range rd {
				if _, ok := byField[n]; ok {
					out[n] = true
				}
			}
		}
		return out
	}
	// every operator whose code writes a scoped field
	var roots []*Builtin
	wrote := map[string]map[string]bool{}
	for _, b := range p.Reg {
		if b.Fn == nil {
			continue
		}
		w := map[string]bool{}
		for f := range p.staticClosure(b.Fn) {
			_, ws := p.fieldUse(f, owner)
			for n := range ws {
				if _, ok := byField[n]; ok {
					w[n] = true
				}
			}
		}
		r.ob(1)
		if len(w) > 0 {
			roots = append(roots, b)
			wrote[b.Lisp] = w
		}
	}
	for name := range scopeOps {
		if b := anchor(p, r, name); b == nil {
			return
		}
	}
	seenOp := map[string]bool{}
	for _, b := range roots {
		if seenOp[b.Lisp] {
			continue
		}
		seenOp[b.Lisp] = true
		c := &c02{p: p, r: r, b: b, owner: owner, fields: fields}
		if b.Lisp == "defdynamic" || b.Lisp == "set-dynamic" {
			c.lasting = readersOf("dynamic")
		}
		if op, ok := scopeOps[b.Lisp]; ok {
			c.consulted = map[string]bool{}
			for _, rd := range op.readers {
				for n := range readersOf(rd) {
					// of several fields, the operator's own
					if wrote[b.Lisp][n] {
						c.consulted[n] = true
					}
				}
			}
			if len(c.consulted) == 0 {
				r.add(b.Lisp+"/not-established", p.pos(b.Fn.Pos()), "(%s) does not change what its users consult (%s)", b.Lisp, op.what)
			}
		}
		c.run()
	}
	for name, op := range scopeOps {
		if !seenOp[name] {
			r.add(name+"/not-established", "-", "(%s) does not establish %s", name, op.what)
		}
	}
	r.count("operators that change scoped state", len(seenOp))
	r.floor("operators that change scoped state", len(scopeOps))
	r.count("fields of scoped state", len(fields))
	r.floor("exits followed", 100)
	r.floor("evaluations inside the scope", 20)
}

type c02 struct {
	p         *Prog
	r         *Report
	b         *Builtin
	owner     *types.Named
	fields    []scopedField
	consulted map[string]bool
	lasting   map[string]bool
	world     *Term
	shape     string
	syms      map[string]*Term // symbols of the argument list
}

func (c *c02) addr(f scopedField) *Term {
	sh := c.p.Main.Pkg.Scope().Lookup("World").Type().Underlying().(*types.Struct)
	var base *Term
	for i := 0; i < sh.NumFields(); i++ {
		if pt, ok := sh.Field(i).Type().(*types.Pointer); ok && types.Identical(pt.Elem(), c.owner) {
			a := mkTerm("fld", typeKey(c.p.Main.Pkg.Scope().Lookup("World").Type())+"."+sh.Field(i).Name(), "", types.NewPointer(pt), nil, c.world)
			base = mkTerm("init", "", "", pt, nil, a)
		}
	}
	return mkTerm("fld", typeKey(c.owner)+"."+f.name, "", types.NewPointer(f.typ), nil, base)
}

func (c *c02) initOf(f scopedField) *Term {
	return mkTerm("init", "", "", f.typ, nil, c.addr(f))
}

// shapes are the argument lists tried. S are symbols, F forms.
func (c *c02) shapes() map[string]func(s *shape) *Term {
	return map[string]func(s *shape) *Term{
		"(F1 F2 F3)":    func(s *shape) *Term { return s.list(s.form("F1"), s.form("F2"), s.form("F3")) },
		"(S1 F1 F2)":    func(s *shape) *Term { return s.list(s.sym("S1"), s.form("F1"), s.form("F2")) },
		"(S1 F1 S2 F2)": func(s *shape) *Term { return s.list(s.sym("S1"), s.form("F1"), s.sym("S2"), s.form("F2")) },
		"(S1 F1 S1 F2)": func(s *shape) *Term { return s.list(s.sym("S1"), s.form("F1"), s.sym("S1"), s.form("F2")) },
		"(((S1 F1) (S2 F2)) F3)": func(s *shape) *Term {
			return s.list(s.list(s.list(s.sym("S1"), s.form("F1")), s.list(s.sym("S2"), s.form("F2"))), s.form("F3"))
		},
		"(((S1 F1) (S1 F2)) F3)": func(s *shape) *Term {
			return s.list(s.list(s.list(s.sym("S1"), s.form("F1")), s.list(s.sym("S1"), s.form("F2"))), s.form("F3"))
		},
		"((S1 (S2 F2)) F3)": func(s *shape) *Term {
			return s.list(s.list(s.sym("S1"), s.list(s.sym("S2"), s.form("F2"))), s.form("F3"))
		},
		"(() F1)": func(s *shape) *Term { return s.list(s.null(), s.form("F1")) },
		"(((S1 F1 F2)) F3)": func(s *shape) *Term {
			return s.list(s.list(s.list(s.sym("S1"), s.form("F1"), s.form("F2"))), s.form("F3"))
		},
		"(((S1 F1) (F4 F2)) F3)": func(s *shape) *Term {
			return s.list(s.list(s.list(s.sym("S1"), s.form("F1")), s.list(s.form("F4"), s.form("F2"))), s.form("F3"))
		},
		"()": func(s *shape) *Term { return s.list() },
	}
}

func (c *c02) run() {
	names := []string{}
	sh := c.shapes()
	for n := range sh {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		c.shape = n
		c.runShape(sh[n])
	}
}

func (c *c02) runShape(mk func(*shape) *Term) {
	p, r := c.p, c.r
	st := newState()
	s := &shape{p: p, st: st}
	f := c.b.Fn
	var args []*Term
	list := mk(s)
	c.syms = map[string]*Term{"S1": s.sym("S1"), "S2": s.sym("S2")}
	s.distinct(c.syms["S1"].args[0], c.syms["S2"].args[0])
	for i := 0; i < f.Signature.Params().Len(); i++ {
		t := f.Signature.Params().At(i).Type()
		switch {
		case p.isWorldPtr(t):
			c.world = tSym("entry#world", "world", t)
			args = append(args, c.world)
			st.facts[c.world] = 'X'
		case p.isNode(t) && c.b.Kind == "special":
			args = append(args, list)
		default:
			args = append(args, tSym("entry#"+string(rune('0'+i)), "", t))
		}
	}
	scoped := map[*Term]scopedField{}
	for _, fl := range c.fields {
		scoped[c.addr(fl)] = fl
	}
	cl := &Client{Concrete: true}
	cl.Preserve = func(a *Term) bool {
		r := a
		for r.op == "fld" || r.op == "ment" || r.op == "init" || r.op == "idx" {
			if _, ok := scoped[r]; ok {
				return true
			}
			if r.op == "fld" && len(r.args) == 1 && r.args[0] == c.world {
				return true
			}
			r = r.args[0]
		}
		return false
	}
	cl.OnBranch = func(e *Eng, st *State, cond *Term, taken bool, fr *Frame, pos token.Pos) {
		for cond.op == "not" {
			cond, taken = cond.args[0], !taken
		}
		if cond.op == "present" && cond.args[0].op == "minit" {
			if taken {
				st.mon["P:"+cond.args[0].args[0].String()] = "1"
			} else {
				st.mon["P:"+cond.args[0].args[0].String()] = "0"
			}
		}
		for _, fl := range c.fields {
			if fl.isMap() && e.nilness(st, c.initOf(fl)) == 'N' {
				st.mon["NIL:"+fl.name] = "1"
			}
		}
	}
	cl.OnCall = func(e *Eng, st *State, cc *Call) ([]Out, bool) {
		if what, ok := p.evalOf(cc); ok {
			name := ""
			if what == "eval" {
				name = formName(cc.Args[2])
			}
			c.atEval(e, st, cc, name)
			if name != "" {
				// a form that is evaluated again in the state it was
				// evaluated in before does the same
				now := c.image(e, st)
				for _, k := range []string{"V1:" + name, "V2:" + name} {
					if st.mon[k] == now {
						return nil, true
					}
					if st.mon[k] == "" {
						st.mon[k] = now
						break
					}
				}
			}
			return okErr(st, cc, "EV:"+name, "ER:"+name, func(s2 *State, ok bool) {
				// what the form does to the variables it finds bound
				for _, fl := range c.fields {
					if !fl.isMap() {
						continue
					}
					m := c.cur(s2, fl)
					if m.typ == nil {
						continue
					}
					if mt, is := m.typ.Underlying().(*types.Map); !is || !p.isNode(mt.Elem()) {
						continue
					}
					for _, sy := range c.syms {
						a := mkTerm("ment", "", "", nil, nil, m, sy)
						if v, ok := s2.mem[a]; ok && v != tAbsent && v.op != "minit" && v.op != "look" {
							s2.mem[a] = tSym(cc.Site+"#changed", "", p.nodeType())
						}
					}
				}
			}), true
		}
		if outs, ok := modelExpectKnown(e, st, cc); ok {
			return outs, true
		}
		return callModels(modelRaise, modelEquals)(e, st, cc)
	}
	e := newEng(p, cl)
	exits := e.Run(f, args, nil, st)
	for _, x := range exits {
		if x.Panic {
			continue
		}
		r.count("exits followed", 1)
		c.atExit(e, x)
	}
	r.engine(e)
	if c.shape == "(F1 F2 F3)" {
		r.sample("(%s) with %s: %d exits", c.b.Lisp, c.shape, len(exits))
	}
}

// cur is the present value of a scoped field.
func (c *c02) cur(st *State, f scopedField) *Term {
	if v, ok := st.mem[c.addr(f)]; ok {
		return v
	}
	return c.initOf(f)
}

// image writes the scoped state down.
func (c *c02) image(e *Eng, st *State) string {
	var out []string
	for _, f := range c.fields {
		cur := c.cur(st, f)
		out = append(out, f.name+"="+cur.String())
		for a, v := range st.mem {
			if a.op == "ment" && a.args[0] == cur {
				out = append(out, f.name+"["+c.keyName(a.args[1])+"]="+v.op+v.label)
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// changes describes how the scoped state differs from what it was at the start.
func (c *c02) changes(e *Eng, st *State) []string {
	var out []string
	for _, f := range c.fields {
		if c.lasting[f.name] {
			continue
		}
		cur, ini := c.cur(st, f), c.initOf(f)
		c.r.ob(1)
		if cur != ini {
			lazily := f.isMap() && (e.nilness(st, ini) == 'N' || st.mon["NIL:"+f.name] == "1")
			if !lazily && !(cur == tNil && e.nilness(st, ini) == 'N') {
				out = append(out, f.name)
				continue
			}
		}
		if !f.isMap() {
			continue
		}
		for a, v := range st.mem {
			if a.op != "ment" || a.args[0] != cur {
				continue
			}
			c.r.ob(1)
			k := a.args[1]
			if cur != ini {
				if v != tAbsent {
					out = append(out, f.name+" of "+c.keyName(k)+" (stays)")
				}
				continue
			}
			iniV := mkTerm("minit", "", "", nil, nil, a)
			known := st.mon["P:"+a.String()]
			if known == "" {
				switch e.truth(st, e.presence(iniV)) {
				case 1:
					known = "1"
				case 0:
					known = "0"
				}
			}
			unit := false
			if m, ok := f.typ.Underlying().(*types.Map); ok {
				if s, ok := m.Elem().Underlying().(*types.Struct); ok && s.NumFields() == 0 {
					unit = true
				}
			}
			switch {
			case v == iniV || v == mkTerm("mval", "", "", v.typ, nil, iniV):
			case v.op == "minit":
			case v.hasMinit(iniV):
			case v == tAbsent:
				if known != "0" {
					out = append(out, f.name+" of "+c.keyName(k)+" (is removed)")
				}
			case unit && known == "1":
			default:
				out = append(out, f.name+" of "+c.keyName(k))
			}
		}
	}
	sort.Strings(out)
	return out
}

func (t *Term) hasMinit(m *Term) bool {
	for t != m && len(t.args) == 1 && (t.op == "mval" || t.op == "mki" || t.op == "some") {
		t = t.args[0]
	}
	return t == m
}

func (c *c02) keyName(k *Term) string {
	for n, s := range c.syms {
		if s == k {
			return n
		}
	}
	return "a name"
}

func (c *c02) atExit(e *Eng, x Exit) {
	if d := c.changes(e, x.St); len(d) > 0 {
		how := "with a value"
		if len(x.Res) > 0 && e.nilness(x.St, unwrapTerm(x.Res[len(x.Res)-1])) == 'X' {
			how = "with an error or exit"
		}
		c.r.add(c.b.Lisp+"/left/"+strings.Join(d, ","), c.p.pos(x.Pos), "(%s) called with %s ends %s and leaves changed: %s", c.b.Lisp, c.shape, how, strings.Join(d, ", "))
	}
}

// atEval checks the state in which a form is evaluated.
func (c *c02) atEval(e *Eng, st *State, cc *Call, form string) {
	if c.consulted == nil {
		return
	}
	p, r := c.p, c.r
	where := p.pos(cc.Pos)
	lisp := c.b.Lisp
	inBody := false
	var keys []string
	switch lisp {
	case "with-handler", "with-standard-input", "catch":
		if c.shape != "(F1 F2 F3)" {
			return
		}
		inBody = form != "F1"
	case "block":
		switch c.shape {
		case "(S1 F1 F2)":
			keys = []string{"S1"}
		case "(() F1)":
			keys = []string{"nil"}
		default:
			return
		}
		inBody = true
	case "tagbody":
		switch c.shape {
		case "(S1 F1 S2 F2)":
			keys = []string{"S1", "S2"}
		case "(S1 F1 S1 F2)", "(S1 F1 F2)":
			keys = []string{"S1"}
		default:
			return
		}
		inBody = true
	case "dynamic-let":
		switch c.shape {
		case "(((S1 F1) (S2 F2)) F3)", "((S1 (S2 F2)) F3)":
			keys = []string{"S1", "S2"}
		case "(((S1 F1) (S1 F2)) F3)":
			keys = []string{"S1"}
		default:
			return
		}
		inBody = form == "F3"
	}
	r.ob(1)
	if !inBody {
		if d := c.changes(e, st); len(d) > 0 {
			r.add(lisp+"/early/"+form, where, "(%s) called with %s evaluates %s after it has changed: %s", lisp, c.shape, form, strings.Join(d, ", "))
		}
		return
	}
	r.count("evaluations inside the scope", 1)
	for n := range c.consulted {
		var f scopedField
		for _, g := range c.fields {
			if g.name == n {
				f = g
			}
		}
		cur := c.cur(st, f)
		if !f.isMap() {
			if !c.reaches(st, cur, "EV:F1", 0) {
				r.add(lisp+"/not-established", where, "(%s) evaluates its body without having established %s (%s)", lisp, scopeOps[lisp].what, n)
			}
			if ini := c.initOf(f); lisp == "catch" && !c.holds(st, cur, ini, 0) {
				r.add(lisp+"/outer-lost", where, "(%s) evaluates its body without the catch tags that were active before (%s)", lisp, n)
			}
			continue
		}
		for _, k := range keys {
			kt := c.syms[k]
			ok := false
			var got *Term
			for a, v := range st.mem {
				if a.op != "ment" || a.args[0] != cur {
					continue
				}
				if kt != nil && a.args[1] != kt || kt == nil && (a.args[1] == c.syms["S1"] || a.args[1] == c.syms["S2"]) {
					continue
				}
				got = v
				ok = v != tAbsent && (v.op == "sym" || e.truth(st, e.presence(v)) == 1 || st.mon["P:"+a.String()] == "1")
			}
			if ok && lisp == "dynamic-let" {
				want := map[string]string{"S1": "EV:F1", "S2": "EV:F2"}[k]
				if c.shape == "(((S1 F1) (S1 F2)) F3)" {
					want = ""
				}
				if c.shape == "((S1 (S2 F2)) F3)" && k == "S1" {
					want = ""
				}
				if want != "" && got.label != want {
					ok = false
				}
			}
			if !ok {
				r.add(lisp+"/not-established", where, "(%s) called with %s evaluates %s without having established %s (%s of %s)", lisp, c.shape, form, scopeOps[lisp].what, n, k)
			}
		}
	}
}

// holds says that a value is, or refers to, another one.
func (c *c02) holds(st *State, v, x *Term, depth int) bool {
	if termHas(v, func(t *Term) bool { return t == x }) {
		return true
	}
	if depth > 3 {
		return false
	}
	for a, y := range st.mem {
		if a.op == "fld" && a.args[0] == v && c.holds(st, y, x, depth+1) {
			return true
		}
	}
	return false
}

// reaches says that a value is, or holds, the value with the label.
func (c *c02) reaches(st *State, v *Term, label string, depth int) bool {
	if termHas(v, func(t *Term) bool { return t.label == label }) {
		return true
	}
	if depth > 3 {
		return false
	}
	for a, x := range st.mem {
		if a.op == "fld" && a.args[0] == v && c.reaches(st, x, label, depth+1) {
			return true
		}
	}
	return false
}
