package main

import (
	"golang.org/x/tools/go/ssa"

	"fmt"
	"go/token"
	"os"
	"strings"
)

// checkC05: who receives a non-local exit.
func checkC05(p *Prog, r *Report) {
	c05receive(p, r, "block", "_ErrEarlyReturns", "Symbol", "Node")
	c05receive(p, r, "catch", "_ErrThrown", "", "")
	c05raise(p, r, "return-from", "_ErrEarlyReturns")
	c05raise(p, r, "return", "_ErrEarlyReturns")
	c05raise(p, r, "throw", "_ErrThrown")
	c05raise(p, r, "go", "_ErrTagBody")
	c05tagbody(p, r)
	c05ignore(p, r)
	c05lambda(p, r)
	r.floor("exits of receivers", 10)
	r.floor("exits of raisers", 8)
}

// ownIdent says that a term is the identity (name or tag) of the operator form.
func ownIdent(t *Term) bool {
	return termHas(t, func(x *Term) bool { return x.label == "E:args:0" || x.label == "TAGVAL" || x.label == "ARG:0" }) &&
		!termHas(t, func(x *Term) bool { return x.op == "asv" })
}

func isNulSym(p *Prog, t *Term) bool {
	for t.op == "mki" {
		t = t.args[0]
	}
	if t.op == "gval" && strings.HasSuffix(t.s, ".nulSymbol") {
		return true
	}
	return t.op == "init" && strings.HasSuffix(t.args[0].s, ".nulSymbol")
}

// ident: own identity, or the nul symbol when the name is absent.
func identOf(p *Prog, e *Eng, st *State, t *Term) bool {
	if isNulSym(p, t) {
		return st.mon["named"] == "F" || st.mon["nul"] == "T"
	}
	return ownIdent(t)
}

func exitPayload(t *Term, kind string) bool {
	return termHas(t, func(x *Term) bool { return x.op == "asv" && strings.HasSuffix(x.s, kind) && isEV(x.args[0]) })
}

func onNamed(st *State, cond *Term, taken bool) (*Term, bool) {
	for cond.op == "not" {
		cond, taken = cond.args[0], !taken
	}
	if cond.op == "some" && cond.args[0].label == "E:args:0" {
		st.mon["named"] = map[bool]string{true: "T", false: "F"}[taken]
	}
	return cond, taken
}

func c05receive(p *Prog, r *Report, op, kind, _, _ string) {
	b := anchor(p, r, op)
	if b == nil {
		return
	}
	cl := &Client{}
	tf := func(b bool) string {
		if b {
			return "T"
		}
		return "F"
	}
	cl.Preserve = func(a *Term) bool { return worldRooted(a) }
	cl.OnCall = func(e *Eng, st *State, c *Call) ([]Out, bool) {
		if outs, ok := callModels(baseModels, modelExpect, modelEquals, modelRaise)(e, st, c); ok {
			return outs, true
		}
		if _, ok := p.evalOf(c); ok {
			node := c.Args[len(c.Args)-1]
			if node.label == "E:args:0" {
				return okErr(st, c, "TAGVAL", "TAGERR", nil), true
			}
			if st.mon["pend"] == "1" {
				return nil, false
			}
			if st.mon["reg"] != "1" {
				r.add("unregistered/"+op, p.pos(c.Pos), "(%s) evaluates its body without its name or tag being known as active", op)
			}
			e.HavocArgs(st, c.Args)
			return okErr(st, c, "BODYVAL", "EV", func(s *State, ok bool) {
				if !ok {
					s.mon["pend"] = "1"
				}
			}), true
		}
		return nil, false
	}
	cl.OnStore = func(e *Eng, st *State, addr, val *Term, fr *Frame, pos token.Pos) {
		if val == tAbsent || st.mon["pend"] == "1" || !worldRooted(addr) && !(addr.op == "ment" && worldHolds(st, addr.args[0])) {
			return
		}
		own := termHas(addr, func(x *Term) bool { return addr.op == "ment" && identOf(p, e, st, x) })
		if !own && addr.op == "fld" {
			for s := range e.reachCells(st, []*Term{val}) {
				for a, v := range st.mem {
					if rootOf(a).op == "cell" && rootOf(a).s == s && identOf(p, e, st, v) {
						own = true
					}
				}
			}
		}
		if own {
			st.mon["reg"] = "1"
		}
	}
	cl.OnBranch = func(e *Eng, st *State, cond *Term, taken bool, fr *Frame, pos token.Pos) {
		cond, taken = onNamed(st, cond, taken)
		switch {
		case cond.op == "present" && taken && termHas(cond, func(x *Term) bool { return x.op == "ment" && identOf(p, e, st, x.args[1]) }):
			st.mon["reg"] = "1"
		case cond.op == "as" && isEV(cond.args[0]) && strings.HasSuffix(cond.s, kind):
			st.mon["as"] = tf(taken)
		case cond.op == "tok" && isEV(cond.args[0]) && strings.HasSuffix(cond.s, kind):
			st.mon["as"] = tf(taken)
		case cond.op == "eq" || cond.op == "eqm":
			x, y := cond.args[0], cond.args[1]
			if exitPayload(y, kind) {
				x, y = y, x
			}
			if !exitPayload(x, kind) || y.op == "nil" {
				break
			}
			if !identOf(p, e, st, y) {
				st.mon["alien"] = "1"
				break
			}
			if cond.op == "eqm" && cond.s != p.strictMode() {
				r.add("loose/"+op, p.pos(pos), "(%s) compares the tag of an exit more loosely than eql, so it may receive an exit addressed to another", op)
			}
			st.mon["eq"] = tf(taken)
		}
	}
	e := newEng(p, cl)
	hit, pass := 0, 0
	for _, x := range e.Run(b.Fn, specialArgs(p, b), nil, newState()) {
		r.ob(1)
		m := x.St.mon
		if x.Panic || m["pend"] != "1" {
			continue
		}
		r.count("exits of receivers", 1)
		at := p.pos(x.Pos)
		er := unwrapTerm(x.Res[1])
		if os.Getenv("AN_DEBUG") != "" {
			fmt.Println(op, m, x.Res[0], er)
		}
		switch {
		case er.label == "EV":
			pass++
			if m["as"] != "F" && m["eq"] != "F" {
				r.add("missed/"+op, at, "(%s) can pass on an exit that is addressed to it", op)
			}
			if m["alien"] == "1" && m["eq"] == "" {
				r.add("alien/"+op, at, "(%s) decides by something that is not its own name or tag", op)
			}
		case e.nilness(x.St, er) == 'N':
			hit++
			if m["as"] != "T" || m["eq"] != "T" {
				r.add("stolen/"+op, at, "(%s) can receive an exit or error that is not addressed to it", op)
			}
			if !exitPayload(x.Res[0], kind) || !termHas(x.Res[0], func(t *Term) bool { return t.op == "fld" && strings.HasSuffix(t.s, ".Value") }) {
				r.add("value/"+op, at, "(%s) does not return the value the exit carries (%s)", op, x.Res[0])
			}
		default:
			r.add("other/"+op, at, "(%s) ends with a different error when an exit passes through it", op)
		}
	}
	r.engine(e)
	if hit == 0 {
		r.add("never/"+op, p.pos(b.Fn.Pos()), "(%s) never receives an exit", op)
	}
	r.sample("(%s): %d exits received, %d passed on", op, hit, pass)
}

// c05raise: an exit is started exactly when its destination is active.
func c05raise(p *Prog, r *Report, op, kind string) {
	b := anchor(p, r, op)
	if b == nil {
		return
	}
	cl := &Client{}
	var args []*Term
	if b.Kind == "special" {
		args = specialArgs(p, b)
	} else {
		f := b.Fn
		k := 0
		for i := 0; i < f.Signature.Params().Len(); i++ {
			t := f.Signature.Params().At(i).Type()
			label := ""
			if p.isWorldPtr(t) {
				label = "world"
			} else if p.isNode(t) {
				label = fmt.Sprintf("ARG:%d", k)
				k++
			}
			args = append(args, tSym(fmt.Sprintf("entry#%s%d", label, i), label, t))
		}
	}
	cl.Preserve = func(a *Term) bool { return worldRooted(a) }
	cl.OnCall = func(e *Eng, st *State, c *Call) ([]Out, bool) {
		if outs, ok := callModels(baseModels, modelExpect, modelEquals, modelRaise)(e, st, c); ok {
			return outs, true
		}
		if c.Callee != nil && (c.Callee.Name() == "ListToArray" || c.Callee.Name() == "listToArray") && c.isMainFn(p, c.Callee.Name()) && len(c.Args) == 2 {
			return modelListToArray(e, st, c), true
		}
		if _, ok := p.evalOf(c); ok {
			e.HavocArgs(st, c.Args)
			return okErr(st, c, "VAL", "EV", nil), true
		}
		return nil, false
	}
	cl.OnBranch = func(e *Eng, st *State, cond *Term, taken bool, fr *Frame, pos token.Pos) {
		cond, taken = onNamed(st, cond, taken)
		if op == "return" {
			st.mon["nul"] = "T"
		}
		switch {
		case cond.op == "present" && termHas(cond, func(x *Term) bool { return x.op == "ment" && worldRooted(x) && identOf(p, e, st, x.args[1]) }):
			st.mon["active"] = map[bool]string{true: "T", false: "F"}[taken]
		case cond.op == "eqm" || cond.op == "eq":
			x, y := cond.args[0], cond.args[1]
			if identOf(p, e, st, y) {
				x, y = y, x
			}
			if identOf(p, e, st, x) && y.op != "nil" && y.op != "const" {
				if cond.op == "eqm" && cond.s != p.strictMode() {
					r.add("loose/"+op, p.pos(pos), "(%s) looks for its destination more loosely than eql", op)
				}
				if taken {
					st.mon["active"] = "T"
				}
			}
		}
	}
	e := newEng(p, cl)
	raised, refused := 0, 0
	for _, x := range e.Run(b.Fn, args, nil, newState()) {
		r.ob(1)
		if x.Panic {
			continue
		}
		m := x.St.mon
		at := p.pos(x.Pos)
		er := unwrapTerm(x.Res[1])
		if os.Getenv("AN_DEBUG") != "" {
			fmt.Println(op, m, x.Res[0], er)
		}
		switch {
		case er.op == "mki" && strings.HasSuffix(er.s, kind):
			raised++
			if m["active"] != "T" {
				r.add("inactive/"+op, at, "(%s) can start an exit whose destination is not active", op)
			}
			idok, valok := false, kind == "_ErrTagBody"
			for a, v := range x.St.mem {
				if a.op == "fld" && a.args[0] == er.args[0] {
					if identOf(p, e, x.St, v) && !strings.HasSuffix(a.s, ".Value") || op == "return" && isNulSym(p, v) {
						idok = true
					}
					if v.label == "VAL" || v.label == "ARG:1" || op == "return" && v.label == "ARG:0" {
						valok = true
					}
				}
			}
			if op == "return-from" && m["named"] == "F" {
				for a, v := range x.St.mem {
					if a.op == "fld" && a.args[0] == er.args[0] && isNulSym(p, v) {
						idok = true
					}
				}
			}
			if !idok {
				r.add("address/"+op, at, "(%s) starts an exit that is not addressed to the name or tag it was given", op)
			}
			if !valok {
				r.add("payload/"+op, at, "(%s) starts an exit that does not carry the value it was given", op)
			}
		case e.nilness(x.St, er) == 'N':
			r.add("returns/"+op, at, "(%s) can return normally", op)
		case er.label == "EV" || er.label == "OPERR" || er.label == "shifterr" || er.label == "ARGERR":
		case strings.HasPrefix(er.label, "RAISED:"):
			refused++
			if m["active"] == "T" {
				r.add("refused/"+op, at, "(%s) can refuse an exit whose destination is active", op)
			}
			if !strings.Contains(er.label, "Control") && m["active"] == "F" {
				r.add("error-class/"+op, at, "(%s) does not report a missing destination as a control error", op)
			}
		}
		r.count("exits of raisers", 1)
	}
	r.engine(e)
	if raised == 0 {
		r.add("never/"+op, p.pos(b.Fn.Pos()), "(%s) never starts an exit", op)
	}
	if refused == 0 {
		r.add("unchecked/"+op, p.pos(b.Fn.Pos()), "(%s) never reports a missing destination", op)
	}
	r.sample("(%s): %d paths start the exit, %d report a missing destination", op, raised, refused)
}

// modelListToArray fills a fixed array from a list.
func modelListToArray(e *Eng, st *State, c *Call) []Out {
	s1, s2 := st.clone(), st.clone()
	n := 0
	base := c.Args[1]
	if base.op == "slice" {
		n, _ = e.lenOf(st, base)
		base = base.args[0]
	}
	l := c.Args[0]
	node := c.Callee.Signature.Params().At(0).Type()
	for i := 0; i < n; i++ {
		var el *Term
		el, l = carCdr(l, fmt.Sprintf("%s#l%d", c.Site, i), node)
		s1.facts[el] = 'X'
		e.store(s1, mkTerm("idx", "", "", nil, nil, base, tConst(fmt.Sprint(i), nil)), el)
	}
	er := tSym(c.Site+"#ae", "ARGERR", errType)
	s2.facts[er] = 'X'
	return []Out{{St: s1, Res: []*Term{tNil}}, {St: s2, Res: []*Term{er}}}
}

// c05ignore: a plain error becomes nil, anything else passes.
func c05ignore(p *Prog, r *Report) {
	b := anchor(p, r, "ignore-errors")
	if b == nil {
		return
	}
	cl := &Client{}
	cl.OnCall = func(e *Eng, st *State, c *Call) ([]Out, bool) {
		if outs, ok := callModels(baseModels)(e, st, c); ok {
			return outs, true
		}
		if c.Method != nil && c.Method.Name() == "Err" && typeKey(c.Common.Value.Type()) == "context.Context" {
			return []Out{{St: st, Res: []*Term{tSym(c.Site+"#ctx", "CTXERR", errType)}}}, true
		}
		if c.isMainFn(p, "checkContext") {
			return []Out{{St: st, Res: []*Term{tSym(c.Site+"#ctx", "CTXERR", errType)}}}, true
		}
		if _, ok := p.evalOf(c); ok {
			e.HavocArgs(st, c.Args)
			return okErr(st, c, "BODYVAL", "EV", func(s *State, ok bool) {
				if !ok {
					s.mon["pend"] = "1"
				}
			}), true
		}
		return nil, false
	}
	cl.OnBranch = func(e *Eng, st *State, cond *Term, taken bool, fr *Frame, pos token.Pos) {
		noteIntercept(e, st, cond, taken)
		for cond.op == "not" {
			cond, taken = cond.args[0], !taken
		}
		if cond.op == "eq" && !taken && termHas(cond, func(x *Term) bool { return x.label == "CTXERR" }) {
			st.mon["is:ctx"] = "T"
		}
	}
	e := newEng(p, cl)
	nils := 0
	for _, x := range e.Run(b.Fn, specialArgs(p, b), nil, newState()) {
		r.ob(1)
		m := x.St.mon
		if x.Panic || m["pend"] != "1" {
			continue
		}
		r.count("exits of receivers", 1)
		er := unwrapTerm(x.Res[1])
		at := p.pos(x.Pos)
		if er.label == "EV" {
			found := false
			for k, v := range m {
				if v == "T" && (strings.HasPrefix(k, "as:") && strings.Contains(k, "_Err") || k == "is:ctx" || strings.HasPrefix(k, "is:") && (strings.Contains(k, "ErrQuit") || strings.Contains(k, "ErrAbort") || strings.Contains(k, "context."))) {
					found = true
				}
			}
			if !found {
				r.add("passes/ignore-errors", at, "(ignore-errors) can pass on a plain error")
			}
			continue
		}
		if e.nilness(x.St, er) == 'N' {
			nils++
			if someTerm(x.Res[0]) != tFalse && !strings.Contains(x.Res[0].String(), ".Null") {
				r.add("value/ignore-errors", at, "(ignore-errors) does not return nil after an error (%s)", x.Res[0])
			}
		}
	}
	if nils == 0 {
		r.add("never/ignore-errors", p.pos(b.Fn.Pos()), "(ignore-errors) never turns an error into nil")
	}
	r.engine(e)
}

// c05tagbody: execution continues right after the tag of a go.
func c05tagbody(p *Prog, r *Report) {
	b := anchor(p, r, "tagbody")
	if b == nil {
		return
	}
	const kind = "_ErrTagBody"
	cl := &Client{}
	// where a list stands is the term of the list; "next" is the one that has
	// to be taken apart next, by its id
	id := normKey
	jumps := 0
	cl.OnCall = func(e *Eng, st *State, c *Call) ([]Out, bool) {
		if c.isMainFn(p, "Shift") && len(c.Args) == 1 {
			l := c.Args[0]
			if st.mon["pend"] != "1" && st.mon["el"] == "1" && st.mon["evald"] != "1" && st.mon["sym"] != "1" {
				st.mon["skip"] = "1"
			}
			if st.mon["sym"] == "1" && st.mon["rec"] != "1" {
				st.mon["unrec"] = "1"
			}
			if l.label == listLabel("args", 0) {
				delete(st.mon, "skip")
				if st.mon["unrec"] != "1" && st.mon["begun"] == "1" {
					st.mon["complete"] = "1"
				}
				st.mon["begun"] = "1"
				delete(st.mon, "unrec")
			}
			if st.mon["pend"] == "1" {
				// looking for the tag, or going on after it
				if st.mon["match"] == "1" {
					if st.mon["dest"] != id(l) {
						r.add("dest/tagbody", p.pos(c.Pos), "after (go), (tagbody) does not continue right after the tag")
					}
					delete(st.mon, "pend")
					delete(st.mon, "as")
					delete(st.mon, "match")
					delete(st.mon, "dest")
					jumps++
				}
			}
			if l.op == "mval" {
				c2 := *c
				c2.Args = []*Term{tSym("jump", listLabel("args", 3), l.typ)}
				c = &c2
			}
			return modelShift(e, st, c, func(s *State, ok bool) {
				delete(s.mon, "el")
				delete(s.mon, "evald")
				delete(s.mon, "sym")
				delete(s.mon, "rec")
				if ok {
					s.mon["el"] = "1"
				}
			}), true
		}
		if outs, ok := callModels(baseModels, modelExpect, modelEquals, modelRaise)(e, st, c); ok {
			return outs, true
		}
		if _, ok := p.evalOf(c); ok {
			node := c.Args[len(c.Args)-1]
			if st.mon["skip"] == "1" {
				r.add("skipped/tagbody", p.pos(c.Pos), "a form of (tagbody) can be skipped")
			}
			if st.mon["evald"] == "1" {
				r.add("twice/tagbody", p.pos(c.Pos), "a form of (tagbody) can be evaluated twice in a row")
			}
			if st.mon["unrec"] == "1" && st.mon["complete"] != "1" {
				r.add("unrecorded/tagbody", p.pos(c.Pos), "(tagbody) goes on past one of its tags without recording where it is, so a later (go) to it finds nothing")
			}
			st.mon["evald"] = "1"
			if kind, _, _, ok := parseList(node.label); !ok || kind != "E" {
				r.add("evaluates-other/tagbody", p.pos(c.Pos), "(tagbody) evaluates something that is not one of its forms")
			}
			if st.mon["pend"] == "1" && st.mon["match"] != "1" {
				r.add("goes-on/tagbody", p.pos(c.Pos), "(tagbody) evaluates another form after an exit that is not addressed to it")
			}
			delete(st.mon, "pend")
			if e.truth(st, mkTok(node, p.Main.Pkg.Scope().Lookup("Symbol").Type())) == 1 {
				r.add("evaluates-tag/tagbody", p.pos(c.Pos), "(tagbody) evaluates a tag")
			}
			e.HavocArgs(st, c.Args)
			return okErr(st, c, "BODYVAL", "EV", func(s *State, ok bool) {
				delete(s.mon, "as")
				if !ok {
					s.mon["pend"] = "1"
				}
			}), true
		}
		return nil, false
	}
	cl.Preserve = func(a *Term) bool { return worldRooted(a) }
	cl.DropDefer = func(d *ssa.Defer) bool {
		b, ok := d.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "delete"
	}
	cl.KeepFact = func(t *Term) bool {
		m := presentMap(t)
		return m == nil || !worldRooted(m)
	}
	e := newEng(p, cl)
	elemOf := func(t *Term) *Term {
		var f *Term
		termHas(t, func(x *Term) bool {
			if strings.HasPrefix(x.label, "E:args") && f == nil {
				f = x
			}
			return false
		})
		return f
	}
	tailOf := func(el, l *Term) bool {
		if el.op == "car" {
			return l.op == "cdr" && l.args[0] == el.args[0]
		}
		if el.op == "sym" && l.op == "sym" {
			return strings.TrimSuffix(strings.TrimRight(el.s, "'"), "#car") == strings.TrimSuffix(strings.TrimRight(l.s, "'"), "#cdr") && strings.HasSuffix(el.s, "'") == strings.HasSuffix(l.s, "'")
		}
		return false
	}
	cl.OnStore = func(e *Eng, st *State, addr, val *Term, fr *Frame, pos token.Pos) {
		if addr.op == "ment" && rootOf(addr).op == "cell" && p.isNode(val.typ) {
			el := elemOf(addr.args[1])
			r.count("tags recorded", 1)
			st.mon["rec"] = "1"
			if el == nil || !tailOf(el, val) {
				r.add("tag-table/tagbody", p.pos(pos), "(tagbody) records for a tag something other than the forms after it")
			}
		}
		if addr.op == "ment" && (worldRooted(addr) || worldHolds(st, addr.args[0])) && val != tAbsent && elemOf(addr.args[1]) != nil {
			r.count("tags registered", 1)
			delete(st.mem, addr)
		}
	}
	cl.OnBranch = func(e *Eng, st *State, cond *Term, taken bool, fr *Frame, pos token.Pos) {
		for cond.op == "not" {
			cond, taken = cond.args[0], !taken
		}
		switch cond.op {
		case "as", "tok":
			if k, _, _, ok := parseList(cond.args[0].label); ok && k == "E" && taken && cond.op == "tok" && typeKey(cond.typ) == "gmnlisp.Symbol" {
				st.mon["sym"] = "1"
			}
			if isEV(cond.args[0]) && strings.HasSuffix(cond.s, kind) {
				st.mon["as"] = map[bool]string{true: "T", false: "F"}[taken]
			}
		case "present":
			if m := presentMap(cond); m != nil && (worldRooted(m) || worldHolds(st, m.args[0])) {
				delete(st.mem, m)
			}
			if exitPayload(cond, kind) {
				// the tag is in the table of the form
				if taken {
					st.mon["match"] = "1"
					st.mon["dest"] = id(mkTerm("mval", "", "", p.nodeType(), nil, cond.args[0]))
				} else {
					st.mon["missed"] = "1"
				}
			}
		case "eq", "eqm":
			x, y := cond.args[0], cond.args[1]
			if exitPayload(y, kind) {
				x, y = y, x
			}
			if exitPayload(x, kind) && y.op != "nil" && taken {
				el := elemOf(y)
				if el == nil {
					r.add("alien/tagbody", p.pos(pos), "(tagbody) compares the tag of a (go) with something that is not one of its tags")
					break
				}
				st.mon["match"] = "1"
				if el.op == "car" {
					st.mon["dest"] = id(mkTerm("cdr", "", listLabel("args", labelK(el)+1), p.nodeType(), nil, el.args[0]))
				} else {
					st.mon["dest"] = id(tSym(strings.TrimSuffix(el.s, "#car")+"#cdr", listLabel("args", 3), p.nodeType()))
				}
			}
		}
	}
	passed := 0
	for _, x := range e.Run(b.Fn, specialArgs(p, b), nil, newState()) {
		r.ob(1)
		m := x.St.mon
		er := unwrapTerm(x.Res[len(x.Res)-1])
		at := p.pos(x.Pos)
		if os.Getenv("AN_DEBUG") != "" {
			fmt.Println("tagbody", m, x.Res[0], er)
		}
		if x.Panic {
			continue
		}
		r.count("exits of receivers", 1)
		if m["pend"] != "1" {
			if e.nilness(x.St, er) == 'N' && (m["skip"] == "1" || m["el"] == "1" && m["evald"] != "1" && m["sym"] != "1") {
				r.add("skipped/tagbody", at, "a form of (tagbody) can be skipped")
			}
			continue
		}
		switch {
		case er.label == "EV":
			passed++
			if m["match"] == "1" {
				r.add("missed/tagbody", at, "(tagbody) can pass on a (go) to one of its tags")
			}
		case er.label == "shifterr":
		case m["match"] == "1" && e.nilness(x.St, er) == 'N':
			// the tag was the last thing in the form
		case e.nilness(x.St, er) == 'N':
			r.add("stolen/tagbody", at, "(tagbody) can end normally after an exit or error that is not addressed to it")
		default:
			r.add("other/tagbody", at, "(tagbody) ends with a different error when an exit passes through it")
		}
	}
	r.engine(e)
	if jumps == 0 {
		r.add("never/tagbody", p.pos(b.Fn.Pos()), "(tagbody) never continues at a tag")
	}
	if passed == 0 {
		r.add("never-passes/tagbody", p.pos(b.Fn.Pos()), "(tagbody) never passes on an exit")
	}
	r.floor("tags recorded", 1)
	r.floor("tags registered", 1)
}

func labelK(t *Term) int {
	_, _, k, _ := parseList(t.label)
	return k
}

// normKey names a term whatever iteration it was made in.
func normKey(t *Term) string {
	var b strings.Builder
	var walk func(t *Term)
	walk = func(t *Term) {
		b.WriteString(t.op + ":" + strings.ReplaceAll(t.s, "'", "") + "(")
		for _, a := range t.args {
			walk(a)
		}
		b.WriteString(")")
	}
	walk(t)
	return b.String()
}

// presentMap is the map entry a presence test is about.
func presentMap(t *Term) *Term {
	if t.op != "present" || len(t.args) == 0 || t.args[0].op != "minit" {
		return nil
	}
	return t.args[0].args[0]
}

// worldHolds says that the World holds the value.
func worldHolds(st *State, v *Term) bool {
	for a, x := range st.mem {
		if x == v && worldRooted(a) {
			return true
		}
	}
	return false
}

// c05lambda: a function receives exits addressed to its own name at most; an
// anonymous one receives none.
func c05lambda(p *Prog, r *Report) {
	const kind = "_ErrEarlyReturns"
	n := 0
	for _, f := range p.All {
		if f.Name() != "Call" || f.Synthetic != "" || errResult(f.Signature) != 1 || f.Signature.Recv() == nil || f.Signature.Params().Len() != 3 || !p.isWorldPtr(f.Signature.Params().At(1).Type()) {
			continue
		}
		if !p.mayEval()[f] {
			continue
		}
		n++
		fn := f
		cl := &Client{}
		cl.MaxDepth = 5
		cl.Preserve = func(a *Term) bool { return worldRooted(a) }
		cl.OnCall = func(e *Eng, st *State, c *Call) ([]Out, bool) {
			if outs, ok := callModels(baseModels, modelExpect, modelEquals, modelRaise)(e, st, c); ok {
				return outs, true
			}
			_, ev := p.evalOf(c)
			if !ev && c.Callee != nil && p.mayEval()[c.Callee] && errResult(c.Callee.Signature) == 1 && !hasErrParam(c.Callee.Signature) {
				ev = true
			}
			if !ev && c.Callee == nil && c.Common != nil && p.runsUserCode(c.Common) && errResult(c.Common.Signature()) == 1 {
				ev = true
			}
			if ev {
				e.HavocArgs(st, c.Args)
				return okErr(st, c, "VAL", "EV", func(s *State, ok bool) {
					for _, k := range []string{"as", "eq", "nul"} {
						delete(s.mon, k)
					}
					delete(s.mon, "pend")
					if !ok {
						s.mon["pend"] = "1"
					}
				}), true
			}
			if c.Callee != nil && p.inRepo(c.Callee) && len(c.Callee.Blocks) > 0 {
				about := hasErrParam(c.Callee.Signature) || hasFuncArg(c.Args) || c.Bind != nil
				for _, a := range c.Args {
					about = about || termHas(a, isEV)
				}
				if !about {
					return e.Opaque(st, c), true
				}
			}
			return nil, false
		}
		cl.OnBranch = func(e *Eng, st *State, cond *Term, taken bool, fr *Frame, pos token.Pos) {
			for cond.op == "not" {
				cond, taken = cond.args[0], !taken
			}
			v := map[bool]string{true: "T", false: "F"}[taken]
			switch cond.op {
			case "as", "tok":
				if isEV(cond.args[0]) {
					if strings.HasSuffix(cond.s, kind) {
						st.mon["as"] = v
					} else if taken {
						st.mon["other"] = "T"
					}
				}
			case "eq":
				x, y := cond.args[0], cond.args[1]
				for i := 0; i < 2; i++ {
					if exitPayload(x, kind) && termHas(y, func(t *Term) bool { return t.label == "recv" }) && !exitPayload(y, kind) {
						st.mon["eq"] = v
					}
					if isNulSym(p, y) && (termHas(x, func(t *Term) bool { return t.label == "recv" }) || exitPayload(x, kind)) {
						st.mon["nul"] = v
					}
					x, y = y, x
				}
			}
		}
		about := func(t *Term) bool {
			return termHas(t, func(x *Term) bool { return isEV(x) || x.label == "recv" || x.label == "world" })
		}
		cl.Widen = func(t *Term) bool {
			switch t.op {
			case "nil", "const", "cell", "fn", "clo", "mki", "glob", "fld", "tuple", "wrap", "struct", "zero", "slice", "gval":
				return false
			}
			return !about(t) && !termHas(t, func(x *Term) bool { return x.op == "cell" || x.op == "clo" || x.op == "fn" })
		}
		cl.KeepFact = func(t *Term) bool { return termHas(t, isEV) || t.op == "eq" && about(t) }
		args := specialArgsFn(p, f)
		args[0] = tSym("entry#recv", "recv", f.Params[0].Type())
		e := newEng(p, cl)
		for _, x := range e.Run(fn, args, nil, newState()) {
			r.ob(1)
			m := x.St.mon
			if x.Panic || m["pend"] != "1" {
				continue
			}
			er := unwrapTerm(x.Res[1])
			if os.Getenv("AN_DEBUG") != "" {
				fmt.Println(fnName(f), m, x.Res[0], er)
			}
			if e.nilness(x.St, er) != 'N' {
				continue
			}
			r.count("exits received by functions", 1)
			if m["as"] != "T" || m["eq"] != "T" {
				r.add("stolen/"+fnName(f), p.pos(x.Pos), "%s can receive an exit or error that is not addressed to the function's own name", fnName(f))
			} else if m["nul"] != "F" {
				r.add("anonymous/"+fnName(f), p.pos(x.Pos), "%s can receive a (return), which is addressed to the nearest (block nil), in an anonymous function", fnName(f))
			} else if !exitPayload(x.Res[0], kind) || !termHas(x.Res[0], func(t *Term) bool { return t.op == "fld" && strings.HasSuffix(t.s, ".Value") }) {
				r.add("value/"+fnName(f), p.pos(x.Pos), "%s does not return the value the exit carries", fnName(f))
			}
		}
		r.engine(e)
	}
	r.count("kinds of function", n)
	r.floor("kinds of function", 3)
}
