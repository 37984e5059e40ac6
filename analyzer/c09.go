package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// naturalLoop is the set of blocks of the loop with header h, or nil.
func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	var body map[*ssa.BasicBlock]bool
	for _, b := range h.Preds {
		if !h.Dominates(b) {
			continue
		}
		if body == nil {
			body = map[*ssa.BasicBlock]bool{h: true}
		}
		work := []*ssa.BasicBlock{b}
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if body[x] {
				continue
			}
			body[x] = true
			work = append(work, x.Preds...)
		}
	}
	return body
}

func isCtx(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context" && n.Obj().Name() == "Context"
}

type c09 struct {
	p     *Prog
	r     *Report
	busy  map[[2]ssa.Value]bool
	stops map[*ssa.Function]int // 0 unknown, 1 yes, 2 no
	rest  map[*ssa.Function]map[[2]int]int
	uses  map[*ssa.Function]bool // may look at whether the context is done
}

func checkC09(p *Prog, r *Report) {
	c := &c09{p: p, r: r, busy: map[[2]ssa.Value]bool{}, stops: map[*ssa.Function]int{}, rest: map[*ssa.Function]map[[2]int]int{}}
	c.findUses()
	c.propagation()
	c.checkers()
	c.calls()
	c.loops()
	c.swallow()
	r.floor("context arguments traced", 150)
	r.floor("loops that evaluate", 20)
	r.floor("loops that end with the data", 15)
	r.floor("loops that check the context", 1)
	r.floor("functions that report a cancelled context", 1)
	r.floor("calls that check the context first", 4)
}

// interp says that a function belongs to the interpreter (not to a command).
func (c *c09) interp(f *ssa.Function) bool {
	pk := fnPkg(f)
	return pk != nil && pk.Name() != "main" && !uninstantiated(f)
}

func ctxParam(f *ssa.Function) *ssa.Parameter {
	for _, q := range f.Params {
		if isCtx(q.Type()) {
			return q
		}
	}
	return nil
}

// findUses finds the functions that may ask whether the context is done.
func (c *c09) findUses() {
	c.uses = map[*ssa.Function]bool{}
	for _, f := range c.p.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && c.asksContext(ci.Common()) {
					c.uses[f] = true
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range c.p.All {
			if c.uses[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && c.uses[ci.Common().StaticCallee()] && ci.Common().StaticCallee() != nil {
						c.uses[f] = true
						ch = true
					}
				}
			}
		}
	}
}

func (c *c09) asksContext(cc *ssa.CallCommon) bool {
	if cc.IsInvoke() {
		return isCtx(cc.Value.Type()) && (cc.Method.Name() == "Done" || cc.Method.Name() == "Err")
	}
	g := cc.StaticCallee()
	return g != nil && fullName(g) == "context.Cause"
}

// ---- every evaluation gets the caller's context

func (c *c09) reachable() map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	push := func(f *ssa.Function) {
		if f != nil && !seen[f] && len(f.Blocks) > 0 && c.p.inRepo(f) {
			seen[f] = true
			work = append(work, f)
		}
	}
	for _, b := range c.p.Reg {
		push(b.Fn)
	}
	for _, f := range c.p.All {
		if f.Signature.Recv() != nil && (f.Name() == "Call" || f.Name() == "Eval") || ctxParam(f) != nil {
			push(f)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						push(g)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range c.p.graph().callees(ci) {
						push(g)
					}
				}
			}
		}
	}
	return seen
}

func (c *c09) propagation() {
	p, r := c.p, c.r
	reach := c.reachable()
	for _, f := range p.All {
		if !c.interp(f) || !reach[f] || madeUp(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					c.capture(f, mc)
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if g := cc.StaticCallee(); g != nil && fnPkg(g) != nil && fnPkg(g).Path() == "context" {
					continue // judged where its result is used
				}
				args := cc.Args
				if cc.IsInvoke() {
					args = append([]ssa.Value{cc.Value}, args...)
				}
				for _, a := range args {
					if !isCtx(a.Type()) {
						continue
					}
					r.ob(1)
					r.count("context arguments traced", 1)
					if why := c.origin(f, a, map[ssa.Value]bool{}); why != "" {
						r.add("context/"+fnName(f)+"/"+calleeName(cc), p.pos(in.Pos()), "%s calls %s with %s instead of the context it was called with", fnName(f), calleeName(cc), why)
					}
				}
			}
		}
	}
}

func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	if g := cc.StaticCallee(); g != nil {
		return fnName(g)
	}
	return "a function value"
}

// origin says why v is not the context f was called with ("" when it is).
func (c *c09) origin(f *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		return ""
	case *ssa.FreeVar:
		if ctxParam(f) != nil {
			return "the context of the function that made it"
		}
		return c.bound(f, x, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if why := c.origin(f, e, seen); why != "" {
				return why
			}
		}
		return ""
	case *ssa.ChangeInterface:
		return c.origin(f, x.X, seen)
	case *ssa.ChangeType:
		return c.origin(f, x.X, seen)
	case *ssa.MakeInterface:
		return c.origin(f, x.X, seen)
	case *ssa.TypeAssert:
		return c.origin(f, x.X, seen)
	case *ssa.Extract:
		return c.origin(f, x.Tuple, seen)
	case *ssa.Call:
		g := x.Common().StaticCallee()
		if g == nil {
			return "a context from a function value"
		}
		if fnPkg(g) != nil && fnPkg(g).Path() == "context" {
			switch g.Name() {
			case "WithValue", "WithCancel", "WithCancelCause", "WithTimeout", "WithTimeoutCause", "WithDeadline", "WithDeadlineCause":
				return c.origin(f, x.Common().Args[0], seen)
			}
			return "context." + g.Name() + "()"
		}
		if c.p.inRepo(g) && len(g.Blocks) > 0 {
			some := false
			for _, a := range x.Common().Args {
				if isCtx(a.Type()) {
					some = true
					if why := c.origin(f, a, seen); why != "" {
						return why
					}
				}
			}
			if some {
				for _, b := range g.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, res := range ret.Results {
							if isCtx(res.Type()) {
								if why := c.origin(g, res, seen); why != "" {
									return why
								}
							}
						}
					}
				}
				return ""
			}
		}
		return "a context made by " + fnName(g)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.Alloc:
				return c.stored(f, a, seen)
			case *ssa.FreeVar:
				if ctxParam(f) != nil {
					return "the context of the function that made it"
				}
				return c.bound(f, a, seen)
			case *ssa.FieldAddr:
				st, _ := structOf(a.X.Type())
				return "the context kept in the field " + st.Field(a.Field).Name()
			case *ssa.Global:
				return "the context kept in " + a.Name()
			}
		}
	case *ssa.Const:
		return "a nil context"
	}
	return "a context of unknown origin"
}

func (c *c09) stored(f *ssa.Function, a *ssa.Alloc, seen map[ssa.Value]bool) string {
	if seen[a] {
		return ""
	}
	seen[a] = true
	for _, ref := range *a.Referrers() {
		if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
			if why := c.origin(f, s.Val, seen); why != "" {
				return why
			}
		}
		if mc, ok := ref.(*ssa.MakeClosure); ok {
			g := mc.Fn.(*ssa.Function)
			for i, bv := range mc.Bindings {
				if bv != a {
					continue
				}
				for _, r2 := range *g.FreeVars[i].Referrers() {
					if s, ok := r2.(*ssa.Store); ok && s.Addr == g.FreeVars[i] {
						if why := c.origin(g, s.Val, seen); why != "" {
							return why
						}
					}
				}
			}
		}
	}
	return ""
}

func (c *c09) bound(f *ssa.Function, v *ssa.FreeVar, seen map[ssa.Value]bool) string {
	par := f.Parent()
	if par == nil {
		return "a context of unknown origin"
	}
	k := -1
	for i, fv := range f.FreeVars {
		if fv == v {
			k = i
		}
	}
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f && k >= 0 {
				bv := mc.Bindings[k]
				if a, ok := bv.(*ssa.Alloc); ok {
					if why := c.stored(par, a, seen); why != "" {
						return why
					}
					continue
				}
				if fv, ok := bv.(*ssa.FreeVar); ok && !isCtx(fv.Type()) {
					if ctxParam(par) != nil {
						return "the context of the function that made it"
					}
					if why := c.bound(par, fv, seen); why != "" {
						return why
					}
					continue
				}
				if why := c.origin(par, bv, seen); why != "" {
					return why
				}
			}
		}
	}
	return ""
}

// capture reports a function that keeps the context of one call for later.
func (c *c09) capture(f *ssa.Function, mc *ssa.MakeClosure) {
	g := mc.Fn.(*ssa.Function)
	if ctxParam(g) != nil {
		return
	}
	holds := false
	for _, bv := range mc.Bindings {
		t := bv.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		holds = holds || isCtx(t)
	}
	if !holds {
		return
	}
	c.r.ob(1)
	c.r.count("functions that hold the caller's context", 1)
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) string
	walk = func(v ssa.Value) string {
		if seen[v] || v.Referrers() == nil {
			return ""
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				switch a := x.Addr.(type) {
				case *ssa.Alloc:
					if why := walk(a); why != "" {
						return why
					}
				case *ssa.FieldAddr:
					if base, ok := a.X.(*ssa.Alloc); ok && !base.Heap {
						continue
					}
					st, t := structOf(a.X.Type())
					if c.fieldUsed(t, a.Field) {
						return "the field " + st.Field(a.Field).Name()
					}
				case *ssa.IndexAddr:
					// the variadic arguments of a call
					if al, ok := a.X.(*ssa.Alloc); ok {
						if why := walk(al); why != "" {
							return why
						}
						continue
					}
					return "an array"
				default:
					return "a variable"
				}
			case *ssa.MapUpdate:
				if x.Value == v {
					return "a table"
				}
			case *ssa.Return:
				// a method of the caller's own (an iterator) is used by the caller
				if f.Parent() == nil {
					return "its result"
				}
			case *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Phi, *ssa.UnOp:
				if u, ok := x.(*ssa.UnOp); ok && u.Op != token.MUL {
					continue
				}
				if why := walk(x.(ssa.Value)); why != "" {
					return why
				}
			}
		}
		return ""
	}
	if why := walk(mc); why != "" {
		c.r.add("kept-context/"+fnName(f), c.p.pos(mc.Pos()), "%s keeps a function that uses the context of this call in %s, so later calls run with a context that is not their own", fnName(f), why)
	}
}

// fieldUsed says whether a function field is ever called or passed on.
func (c *c09) fieldUsed(t types.Type, field int) bool {
	for _, f := range c.p.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var v ssa.Value
				switch x := in.(type) {
				case *ssa.UnOp:
					if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && fa.Field == field {
						if _, ft := structOf(fa.X.Type()); typeKey(ft) == typeKey(t) {
							v = x
						}
					}
				case *ssa.Field:
					if _, ft := structOf(x.X.Type()); x.Field == field && typeKey(ft) == typeKey(t) {
						v = x
					}
				}
				if v == nil {
					continue
				}
				for _, ref := range *v.Referrers() {
					switch ref.(type) {
					case *ssa.BinOp, *ssa.DebugRef:
					default:
						return true
					}
				}
			}
		}
	}
	return false
}

// ---- what happens once the context is done

// cancelled interprets f with a context that is done. It returns the user code
// that may run and the exits without an error.
func (c *c09) cancelled(f *ssa.Function, user func(e *Eng, st *State, cc *Call) []Out) (ran map[string]token.Pos, quiet []token.Pos, e *Eng) {
	p := c.p
	ran = map[string]token.Pos{}
	cl := &Client{}
	cl.OnSelect = func(e *Eng, st *State, in *ssa.Select, val func(ssa.Value) *Term) (int, bool) {
		for i, s := range in.States {
			if s.Dir == types.RecvOnly && val(s.Chan).label == "DONE" {
				return i, true
			}
		}
		return 0, false
	}
	cl.OnCall = func(e *Eng, st *State, cc *Call) ([]Out, bool) {
		if outs, ok := baseModels(e, st, cc); ok {
			return outs, true
		}
		com := cc.Common
		if cc.Method != nil && com != nil && isCtx(com.Value.Type()) {
			switch cc.Method.Name() {
			case "Done":
				return []Out{{St: st, Res: []*Term{tSym("done", "DONE", com.Signature().Results().At(0).Type())}}}, true
			case "Err":
				t := tSym("ctxerr", "CTXERR", errType)
				st.facts[t] = 'X'
				return []Out{{St: st, Res: []*Term{t}}}, true
			}
			return e.Opaque(st, cc), true
		}
		if cc.Callee != nil && fullName(cc.Callee) == "context.Cause" {
			t := tSym("ctxerr", "CTXERR", errType)
			st.facts[t] = 'X'
			return []Out{{St: st, Res: []*Term{t}}}, true
		}
		name := ""
		switch {
		case cc.Callee != nil && p.isMethod(cc.Callee, "World", "Eval"):
			name = "Eval"
		case cc.Callee == nil && com != nil && p.runsUserCode(com):
			name = calleeName(com)
		case cc.Callee != nil && cc.Frame.fn == f && cc.Callee.Name() == "Call" && cc.Callee.Signature.Recv() != nil:
			name = fnName(cc.Callee)
		case cc.Callee != nil && p.mayEval()[cc.Callee] && (cc.Frame.onStack(cc.Callee) > 0 || cc.Frame.depth > 4):
			name = fnName(cc.Callee)
		}
		if name != "" {
			if user != nil {
				return user(e, st, cc), true
			}
			if _, ok := ran[name]; !ok {
				ran[name] = cc.Pos
			}
			return nil, true
		}
		if cc.Callee != nil && p.inRepo(cc.Callee) && !p.mayEval()[cc.Callee] && !c.uses[cc.Callee] {
			return e.Opaque(st, cc), true
		}
		return nil, false
	}
	e = newEng(p, cl)
	ei := errResult(f.Signature)
	for _, x := range e.Run(f, specialArgsFn(p, f), nil, newState()) {
		if x.Panic || user != nil && x.St.mon["failed"] == "" {
			continue
		}
		if ei < 0 || e.nilness(x.St, x.Res[ei]) != 'X' {
			quiet = append(quiet, x.Pos)
		}
	}
	return
}

// stopsWhenDone: with a context that is done, f runs nothing and returns an error.
func (c *c09) stopsWhenDone(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 || errResult(f.Signature) < 0 || !c.uses[f] || !c.p.inRepo(f) {
		return false
	}
	if s := c.stops[f]; s != 0 {
		return s == 1
	}
	c.stops[f] = 2
	ran, quiet, e := c.cancelled(f, nil)
	if len(ran) == 0 && len(quiet) == 0 && len(e.Undecided) == 0 {
		c.stops[f] = 1
	}
	return c.stops[f] == 1
}

// checkers: the functions that report whether the context is done do so.
func (c *c09) checkers() {
	for _, f := range c.p.All {
		if !c.interp(f) || !c.uses[f] || c.p.mayEval()[f] || errResult(f.Signature) < 0 {
			continue
		}
		c.r.ob(1)
		c.r.count("functions that report a cancelled context", 1)
		_, quiet, e := c.cancelled(f, nil)
		c.r.engine(e)
		for _, q := range quiet {
			c.r.add("not-reported/"+fnName(f), c.p.pos(q), "%s can return without an error although the context is done", fnName(f))
		}
	}
}

// calls: calling a stored piece of code checks the context first.
func (c *c09) calls() {
	for _, f := range c.p.All {
		if !c.interp(f) || f.Name() != "Call" || f.Signature.Recv() == nil || ctxParam(f) == nil || madeUp(f) {
			continue
		}
		switch {
		case c.p.isMethod(f, "Function0", "Call"), c.p.isMethod(f, "Function1", "Call"), c.p.isMethod(f, "Function2", "Call"):
			continue // they evaluate the operands of one call and then a function of Go
		case c.p.isMethod(f, "LispString", "Call"):
			continue // it calls the function that its text stands for
		}
		if !c.p.mayEval()[f] {
			continue
		}
		c.r.ob(1)
		c.r.count("calls that check the context first", 1)
		ran, quiet, e := c.cancelled(f, nil)
		c.r.engine(e)
		var names []string
		for n := range ran {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			c.r.add("call-unchecked/"+fnName(f)+"/"+n, c.p.pos(ran[n]), "%s reaches %s although the context is done", fnName(f), n)
		}
		for _, q := range quiet {
			c.r.add("call-unchecked/"+fnName(f)+"/returns", c.p.pos(q), "%s can return without an error although the context is done", fnName(f))
		}
	}
}

// swallow: the operators that drop errors do not drop the one that stops the program.
func (c *c09) swallow() {
	b := anchor(c.p, c.r, "ignore-errors")
	if b == nil {
		return
	}
	for _, f := range []*ssa.Function{b.Fn} {
		c.r.ob(1)
		_, quiet, e := c.cancelled(f, func(e *Eng, st *State, cc *Call) []Out {
			outs := forkErr(e, st, cc, "EV", func(s *State, ok bool) { s.mon["failed"] = "T" })
			return outs[1:]
		})
		c.r.engine(e)
		for _, q := range quiet {
			c.r.add("swallowed/"+fnName(f), c.p.pos(q), "%s can return normally although the form failed and the context is done", fnName(f))
		}
	}
}

// ---- loops

func (c *c09) loops() {
	p := c.p
	me := p.mayEval()
	for _, f := range p.All {
		if !c.interp(f) || madeUp(f) || len(f.Blocks) == 0 || p.isMethod(f, "World", "Assert") {
			continue
		}
		for _, h := range f.Blocks {
			body := naturalLoop(h)
			if body == nil {
				continue
			}
			evals := false
			for b := range body {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						cc := ci.Common()
						g := cc.StaticCallee()
						evals = evals || g != nil && me[g] || p.runsUserCode(cc)
					}
				}
			}
			if !evals {
				continue
			}
			c.r.ob(1)
			c.r.count("loops that evaluate", 1)
			c.loop(f, h, body)
		}
	}
}

func (c *c09) loop(f *ssa.Function, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	safe := map[*ssa.BasicBlock]bool{}
	checks := false
	for b := range body {
		for _, in := range b.Instrs {
			if c.checksHere(in, h, body) {
				safe[b] = true
				checks = true
			}
			if _, ok := in.(*ssa.Next); ok && b == h {
				safe[b] = true
			}
		}
	}
	if safe[h] || len(c.cycleAvoiding(h, body, safe)) == 0 {
		if checks {
			c.r.count("loops that check the context", 1)
		} else {
			c.r.count("loops that end with the data", 1)
		}
		return
	}
	for _, b := range f.Blocks {
		if body[b] {
			if rc := c.receives(b); rc != nil && body[rc] {
				safe[rc] = true
			}
		}
	}
	bad := c.cycleAvoiding(h, body, safe)
	if len(bad) == 0 || c.progress(h, body, safe, bad) {
		c.r.count("loops that end with the data", 1)
		return
	}
	pos := h.Instrs[0].Pos()
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if body[b] && pos == token.NoPos && in.Pos() != token.NoPos {
				pos = in.Pos()
			}
		}
	}
	c.r.add("loop-unchecked/"+fnName(f), c.p.pos(pos), "%s evaluates in a loop that can go round without checking the context and without using up its data", fnName(f))
}

// cycleAvoiding gives the last blocks of the ways round the loop that avoid the
// safe blocks.
func (c *c09) cycleAvoiding(h *ssa.BasicBlock, body, safe map[*ssa.BasicBlock]bool) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	if safe[h] {
		return out
	}
	seen := map[*ssa.BasicBlock]bool{h: true}
	work := []*ssa.BasicBlock{h}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, s := range b.Succs {
			if s == h {
				out[b] = true
				continue
			}
			if body[s] && !safe[s] && !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return out
}

// flows gives the values that a value is copied to.
func flows(v ssa.Value, seen map[ssa.Value]bool) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.Phi:
			flows(x, seen)
		case *ssa.Extract:
			if isErr(x.Type()) {
				flows(x, seen)
			}
		case *ssa.ChangeInterface:
			flows(x, seen)
		case *ssa.Store:
			if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
				for _, r2 := range *a.Referrers() {
					if u, ok := r2.(*ssa.UnOp); ok && u.Op == token.MUL {
						flows(u, seen)
					}
				}
			}
		}
	}
}

// leaves says that the loop is left when cond has the given value.
func leaves(b *ssa.BasicBlock, onTrue bool, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	s := b.Succs[1]
	if onTrue {
		s = b.Succs[0]
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{s}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if !body[x] || seen[x] {
			continue
		}
		if x == h {
			return false
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return true
}

// checksHere says that the instruction checks the context and that the loop is
// left when the context is done.
func (c *c09) checksHere(in ssa.Instruction, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	var v ssa.Value
	switch x := in.(type) {
	case *ssa.Call:
		cc := x.Common()
		if g := cc.StaticCallee(); c.stopsWhenDone(g) || c.asksContext(cc) && isErr(x.Type()) {
			v = x
		}
	case *ssa.Select:
		for i, s := range x.States {
			call, ok := s.Chan.(*ssa.Call)
			if !ok || x.Blocking || !c.asksContext(call.Common()) {
				continue
			}
			for _, ref := range *x.Referrers() {
				ex, ok := ref.(*ssa.Extract)
				if !ok || ex.Index != 0 {
					continue
				}
				for _, r2 := range *ex.Referrers() {
					bo, ok := r2.(*ssa.BinOp)
					if !ok || bo.Op != token.EQL {
						continue
					}
					k, ok := bo.Y.(*ssa.Const)
					if !ok || constant.Compare(k.Value, token.NEQ, constant.MakeInt64(int64(i))) {
						continue
					}
					for _, r3 := range *bo.Referrers() {
						if f, ok := r3.(*ssa.If); ok && leaves(f.Block(), true, h, body) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	if v == nil {
		return false
	}
	all := map[ssa.Value]bool{}
	flows(v, all)
	for x := range all {
		if x.Referrers() == nil {
			continue
		}
		for _, ref := range *x.Referrers() {
			bo, ok := ref.(*ssa.BinOp)
			if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
				continue
			}
			for _, r2 := range *bo.Referrers() {
				if f, ok := r2.(*ssa.If); ok && body[f.Block()] && leaves(f.Block(), bo.Op == token.NEQ, h, body) {
					return true
				}
			}
		}
	}
	return false
}

// receives gives the block that is entered when a block has recognised a
// control transfer; what starts such a transfer has checked the context.
func (c *c09) receives(b *ssa.BasicBlock) *ssa.BasicBlock {
	f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cond, neg := f.Cond, false
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, neg = u.X, !neg
			continue
		}
		break
	}
	call, ok := cond.(*ssa.Call)
	if !ok {
		return nil
	}
	g := call.Common().StaticCallee()
	if g == nil || fullName(g) != "errors.As" {
		return nil
	}
	mi, ok := call.Common().Args[1].(*ssa.MakeInterface)
	if !ok {
		return nil
	}
	pt, ok := mi.X.Type().(*types.Pointer)
	if !ok {
		return nil
	}
	et, ok := pt.Elem().(*types.Pointer)
	if !ok || !c.startedBySpecial(et.Elem()) {
		return nil
	}
	k := 0
	if neg {
		k = 1
	}
	s := b.Succs[k]
	if len(s.Preds) != 1 {
		return nil
	}
	return s
}

// startedBySpecial: every value of the type is made by an operator whose calls
// check the context.
func (c *c09) startedBySpecial(t types.Type) bool {
	op := map[*ssa.Function]bool{}
	for _, b := range c.p.Reg {
		if b.Kind == "special" || b.Kind == "fun" {
			for f := range c.p.onlyFrom(b.Fn) {
				op[f] = true
			}
		}
	}
	n := 0
	for _, f := range c.p.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && types.Identical(a.Type().(*types.Pointer).Elem(), t) {
					n++
					if !op[f] {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// progress says that some variable of the loop is used up on every way round
// that does not check the context.
func (c *c09) progress(h *ssa.BasicBlock, body, safe, bad map[*ssa.BasicBlock]bool) bool {
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		good := true
		for i, e := range phi.Edges {
			if bad[h.Preds[i]] && !c.advances(e, phi, safe, map[ssa.Value]bool{}) {
				good = false
			}
		}
		if good && (!isInt(phi.Type()) || c.bounded(phi, body)) {
			return true
		}
	}
	// a variable that a function shares, or the elements of a slice
	steps := map[*ssa.BasicBlock]bool{}
	for b := range safe {
		steps[b] = true
	}
	n := 0
	for b := range body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				for _, v := range sameCellLoads(x.Addr, b.Parent()) {
					if c.advances(x.Val, v, safe, map[ssa.Value]bool{}) {
						steps[b] = true
						n++
					}
				}
			case *ssa.Call:
				if g := x.Common().StaticCallee(); g != nil && c.stepsElements(g) {
					steps[b] = true
					n++
				}
			}
		}
	}
	if n == 0 {
		return false
	}
	// an inner loop that steps does so at least once
	for b := range body {
		if b == h {
			continue
		}
		if in := naturalLoop(b); in != nil {
			all := len(c.cycleAvoiding(b, in, steps)) == 0
			if all {
				steps[b] = true
			}
		}
	}
	return len(c.cycleAvoiding(h, body, steps)) == 0
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// bounded says that a counter is compared with a limit that ends the loop.
func (c *c09) bounded(phi *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	vs := map[ssa.Value]bool{phi: true}
	for _, ref := range *phi.Referrers() {
		if bo, ok := ref.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
			vs[bo] = true
		}
	}
	for v := range vs {
		for _, ref := range *v.Referrers() {
			bo, ok := ref.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			for _, r2 := range *bo.Referrers() {
				f, ok := r2.(*ssa.If)
				if !ok || !body[f.Block()] {
					continue
				}
				if !body[f.Block().Succs[0]] || !body[f.Block().Succs[1]] {
					return true
				}
			}
		}
	}
	return false
}

// sameCellLoads gives the loads of the cell that addr denotes.
func sameCellLoads(addr ssa.Value, f *ssa.Function) []ssa.Value {
	var out []ssa.Value
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				continue
			}
			if sameAddr(u.X, addr) {
				out = append(out, u)
			}
		}
	}
	return out
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && sameVal(x.X, y.X) && sameVal(x.Index, y.Index)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameVal(x.X, y.X)
	}
	return false
}

func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && sameAddr(x.X, y.X)
}

// stepsElements says that a function uses up the elements of a slice it is given.
func (c *c09) stepsElements(g *ssa.Function) bool {
	if !c.p.inRepo(g) || len(g.Blocks) == 0 {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			if _, ok := ia.X.(*ssa.Parameter); !ok {
				continue
			}
			for _, v := range sameCellLoads(s.Addr, g) {
				if c.advances(s.Val, v, nil, map[ssa.Value]bool{}) {
					return true
				}
			}
		}
	}
	return false
}

// advances says that v is a proper rest of p (or p counted up or down).
func (c *c09) advances(v, p ssa.Value, safe map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		if v == p {
			return false
		}
		for i, e := range x.Edges {
			if safe[x.Block().Preds[i]] {
				continue
			}
			if !c.advances(e, p, safe, seen) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		if k, ok := x.Y.(*ssa.Const); ok && (x.Op == token.ADD || x.Op == token.SUB) && isInt(x.Type()) && k.Int64() != 0 {
			return c.derived(x.X, p, 0)
		}
	case *ssa.Slice:
		if x.Low != nil {
			if k, ok := x.Low.(*ssa.Const); !ok || k.Int64() > 0 {
				return c.derived(x.X, p, 0)
			}
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			st, _ := structOf(fa.X.Type())
			return st.Field(fa.Field).Name() == "Cdr" && c.derived(fa.X, p, 0)
		}
	case *ssa.MakeInterface:
		return c.advances(x.X, p, safe, seen)
	case *ssa.ChangeType:
		return c.advances(x.X, p, safe, seen)
	case *ssa.Convert:
		return c.advances(x.X, p, safe, seen)
	case *ssa.ChangeInterface:
		return c.advances(x.X, p, safe, seen)
	case *ssa.Call:
		return c.restOf(x, 0, p)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return c.restOf(call, x.Index, p)
		}
	}
	return false
}

// derived says that v is p, a rest of it, or the same object under another type.
func (c *c09) derived(v, p ssa.Value, depth int) bool {
	if v == p {
		return true
	}
	k := [2]ssa.Value{v, p}
	if c.busy[k] {
		return true
	}
	c.busy[k] = true
	defer delete(c.busy, k)
	switch x := v.(type) {
	case *ssa.TypeAssert:
		return c.derived(x.X, p, depth+1)
	case *ssa.MakeInterface:
		return c.derived(x.X, p, depth+1)
	case *ssa.ChangeInterface:
		return c.derived(x.X, p, depth+1)
	case *ssa.ChangeType:
		return c.derived(x.X, p, depth+1)
	case *ssa.Convert:
		return c.derived(x.X, p, depth+1)
	case *ssa.Slice:
		return c.derived(x.X, p, depth+1)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			st, _ := structOf(fa.X.Type())
			return st.Field(fa.Field).Name() == "Cdr" && c.derived(fa.X, p, depth+1)
		}
		if w, ok := p.(*ssa.UnOp); ok && x.Op == token.MUL && w.Op == token.MUL {
			return sameAddr(x.X, w.X)
		}
		if q, ok := x.X.(*ssa.Parameter); ok && x.Op == token.MUL {
			return c.derived(q, p, depth+1)
		}
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			// a copy in a variable
			var st []*ssa.Store
			for _, ref := range *a.Referrers() {
				if s, ok := ref.(*ssa.Store); ok {
					st = append(st, s)
				}
			}
			return len(st) == 1 && c.derived(st[0].Val, p, depth+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !c.derived(e, p, depth+5) {
				return false
			}
		}
		return len(x.Edges) > 0
	case *ssa.Extract:
		switch y := x.Tuple.(type) {
		case *ssa.TypeAssert:
			return x.Index == 0 && c.derived(y.X, p, depth+1)
		case *ssa.Call:
			return c.derivedCall(y, p, depth) || c.restOf(y, x.Index, p)
		}
	case *ssa.Call:
		return c.derivedCall(x, p, depth) || c.restOf(x, 0, p)
	}
	return false
}

// derivedCall: what a function like ExpectClass makes of p.
func (c *c09) derivedCall(x *ssa.Call, p ssa.Value, depth int) bool {
	g := x.Common().StaticCallee()
	if g == nil || !c.p.inRepo(g) {
		return false
	}
	for _, a := range x.Common().Args {
		if (c.p.isNode(a.Type()) || types.Identical(a.Type(), p.Type())) && c.derived(a, p, depth+1) {
			return true
		}
	}
	return false
}

// restOf says that result k of the call is a proper rest of p.
func (c *c09) restOf(call *ssa.Call, k int, p ssa.Value) bool {
	cc := call.Common()
	var gs []*ssa.Function
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
		gs = c.p.graph().callees(call)
	} else if g := cc.StaticCallee(); g != nil {
		gs = []*ssa.Function{g}
	}
	if len(gs) == 0 {
		return false
	}
	for j, a := range args {
		if !c.derived(a, p, 0) {
			continue
		}
		all := true
		for _, g := range gs {
			if !madeUp(g) && !c.givesRest(g, j, k) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return false
}

// givesRest says that result k of g is a proper rest of its parameter j, or
// nothing at all.
func (c *c09) givesRest(g *ssa.Function, j, k int) bool {
	if len(g.Blocks) == 0 || !c.p.inRepo(g) || j >= len(g.Params) {
		return false
	}
	m := c.rest[g]
	if m == nil {
		m = map[[2]int]int{}
		c.rest[g] = m
	}
	key := [2]int{j, k}
	if s := m[key]; s != 0 {
		return s == 1
	}
	m[key] = 2
	n := 0
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || k >= len(ret.Results) {
			continue
		}
		v := ret.Results[k]
		if c.fails(ret) {
			continue
		}
		if c.advOrNothing(v, g.Params[j], 0) {
			n++
			continue
		}
		return false
	}
	if n > 0 {
		m[key] = 1
	}
	return n > 0
}

// fails: the function reports here that there is nothing to use.
func (c *c09) fails(ret *ssa.Return) bool {
	if len(ret.Results) == 0 {
		return false
	}
	last := ret.Results[len(ret.Results)-1]
	if isErr(last.Type()) {
		// err is known to be set in a block entered by err != nil
		if k, ok := last.(*ssa.Const); ok {
			return k.Value != nil
		}
		if _, ok := last.(*ssa.MakeInterface); ok {
			return true
		}
		if u, ok := last.(*ssa.UnOp); ok {
			if _, ok := u.X.(*ssa.Global); ok {
				return true
			}
		}
		b := ret.Block()
		if len(b.Preds) == 1 {
			if f, ok := b.Preds[0].Instrs[len(b.Preds[0].Instrs)-1].(*ssa.If); ok {
				if bo, ok := f.Cond.(*ssa.BinOp); ok && bo.X == last && (bo.Op == token.NEQ) == (b.Preds[0].Succs[0] == b) {
					return true
				}
			}
		}
		if ex, ok := last.(*ssa.Extract); ok {
			if call, ok := ex.Tuple.(*ssa.Call); ok {
				if g := call.Common().StaticCallee(); g != nil && (g.Name() == "raiseProgramError" || g.Name() == "raiseControlError" || g.Origin() != nil && g.Origin().Name() == "callHandler") {
					return true
				}
			}
		}
		return false
	}
	if k, ok := last.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
		return !constant.BoolVal(k.Value)
	}
	return false
}

func (c *c09) advOrNothing(v, p ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			return g.Name() == "Null"
		}
	case *ssa.MakeInterface:
		return c.advOrNothing(x.X, p, depth+1)
	case *ssa.ChangeInterface:
		return c.advOrNothing(x.X, p, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !c.advOrNothing(e, p, depth+1) {
				return false
			}
		}
		return true
	}
	return c.advances(v, p, nil, map[ssa.Value]bool{})
}
