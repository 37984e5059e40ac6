package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return t != nil && types.Identical(t, errType) }

// errResult is the index of the error result, or -1.
func errResult(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErr(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

func hasWorldParam(p *Prog, sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if p.isWorldPtr(sig.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

// runsUserCode says that a call that cannot be resolved may evaluate Lisp code.
func (p *Prog) runsUserCode(cc *ssa.CallCommon) bool {
	sig := cc.Signature()
	if cc.IsInvoke() {
		return hasWorldParam(p, sig)
	}
	switch cc.Value.(type) {
	case *ssa.Builtin, *ssa.Function, *ssa.MakeClosure:
		return false
	}
	return hasWorldParam(p, sig) || errResult(sig) >= 0
}

// mayEval computes the functions that may evaluate Lisp code.
func (p *Prog) mayEval() map[*ssa.Function]bool {
	if p.mayEvalM != nil {
		return p.mayEvalM
	}
	m := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	var work []*ssa.Function
	mark := func(f *ssa.Function) {
		if !m[f] {
			m[f] = true
			work = append(work, f)
		}
	}
	for _, f := range p.All {
		if fnPkg(f).Name() == "main" {
			continue
		}
		if p.isMethod(f, "World", "Eval") {
			mark(f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					callers[mc.Fn.(*ssa.Function)] = append(callers[mc.Fn.(*ssa.Function)], f)
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if g := cc.StaticCallee(); g != nil {
					callers[g] = append(callers[g], f)
				} else if p.runsUserCode(cc) {
					mark(f)
				}
			}
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, c := range callers[f] {
			mark(c)
		}
	}
	p.mayEvalM = m
	return m
}

// controlTypes are the error types of the interpreter that carry a transfer of
// control: their only receivers are the operators that look for them.
func (p *Prog) controlTypes() []string {
	var out []string
	for _, n := range []string{"_ErrEarlyReturns", "_ErrThrown", "_ErrTagBody", "_ErrTailRecOpt", "_ErrContinueCondition"} {
		if p.Main.Pkg.Scope().Lookup(n) != nil {
			out = append(out, "*gmnlisp."+n)
		}
	}
	return out
}

func termHas(t *Term, pred func(*Term) bool) bool {
	if pred(t) {
		return true
	}
	for _, a := range t.args {
		if termHas(a, pred) {
			return true
		}
	}
	return false
}

func hasErrParam(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if it, ok := t.Underlying().(*types.Interface); ok && types.Implements(it, errorIface) {
			return true
		}
		if sl, ok := t.Underlying().(*types.Slice); ok && isErr(sl.Elem()) {
			return true
		}
	}
	return false
}

func hasFuncArg(args []*Term) bool {
	for _, a := range args {
		if a.op == "clo" {
			return true
		}
	}
	return false
}

// ctlEvent is a call that may fail.
type ctlEvent struct {
	hard bool
	name string
}

// controlEvent classifies a call.
func controlEvent(p *Prog, c *Call) *ctlEvent {
	if c.Common == nil {
		return nil
	}
	sig := c.Common.Signature()
	if c.Callee != nil {
		sig = c.Callee.Signature
	}
	if errResult(sig) < 0 {
		return nil
	}
	if c.Callee != nil {
		f := c.Callee
		if !p.inRepo(f) || len(f.Blocks) == 0 {
			return nil
		}
		if p.neverFails(f) {
			return nil
		}
		if p.speculative()[f] {
			return nil
		}
		if p.mayEval()[f] {
			return &ctlEvent{true, fnName(f)}
		}
		if softFails(p, sig) {
			return &ctlEvent{false, fnName(f)}
		}
		return nil
	}
	if p.runsUserCode(c.Common) {
		n := "a function value"
		if c.Method != nil {
			n = c.Method.Name()
		}
		return &ctlEvent{true, n}
	}
	return nil
}

// softFails says that a function takes Lisp data, so that its error is about them.
func softFails(p *Prog, sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if t.String() == "io.Writer" {
			return false
		}
		if p.isNode(t) || p.isWorldPtr(t) {
			return true
		}
	}
	return false
}

// neverFails says that every return of the function gives a nil error.
func (p *Prog) neverFails(f *ssa.Function) bool {
	if p.neverM == nil {
		p.neverM = map[*ssa.Function]bool{}
		for _, g := range p.All {
			if errResult(g.Signature) >= 0 {
				p.neverM[g] = true
			}
		}
		var nilErr func(v ssa.Value, seen map[ssa.Value]bool) bool
		nilErr = func(v ssa.Value, seen map[ssa.Value]bool) bool {
			if seen[v] {
				return true
			}
			seen[v] = true
			switch v := v.(type) {
			case *ssa.Const:
				return v.Value == nil
			case *ssa.Phi:
				for _, x := range v.Edges {
					if !nilErr(x, seen) {
						return false
					}
				}
				return true
			case *ssa.Extract:
				if c, ok := v.Tuple.(*ssa.Call); ok {
					if g := c.Call.StaticCallee(); g != nil {
						return p.neverM[g]
					}
				}
			case *ssa.Call:
				if g := v.Call.StaticCallee(); g != nil {
					return p.neverM[g]
				}
			}
			return false
		}
		for ch := true; ch; {
			ch = false
			for g, ok := range p.neverM {
				if !ok {
					continue
				}
				ei := errResult(g.Signature)
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !nilErr(r.Results[ei], map[ssa.Value]bool{}) {
						p.neverM[g] = false
						ch = true
						break
					}
				}
			}
		}
	}
	return p.neverM[f]
}

func forkErr(e *Eng, st *State, c *Call, label string, on func(s *State, ok bool)) []Out {
	rt := c.ResultType()
	n := rt.Len()
	s1, s2 := st.clone(), st.clone()
	r1, r2 := make([]*Term, n), make([]*Term, n)
	for k := 0; k < n-1; k++ {
		r1[k] = tSym(c.Site+"#v"+fmt.Sprint(k), "", rt.At(k).Type())
		r2[k] = tSym(c.Site+"#j"+fmt.Sprint(k), "", rt.At(k).Type())
	}
	r1[n-1] = tNil
	r2[n-1] = tSym(c.Site+"#e", label, rt.At(n-1).Type())
	s2.facts[r2[n-1]] = 'X'
	e.HavocArgs(s1, c.Args)
	e.HavocArgs(s2, c.Args)
	on(s1, true)
	on(s2, false)
	return []Out{{St: s1, Res: r1}, {St: s2, Res: r2}}
}

func isEV(t *Term) bool { return t.op == "sym" && (t.label == "EV" || t.label == "SOFT") }

// noteIntercept records what the code has found out about a pending failure.
func noteIntercept(e *Eng, st *State, cond *Term, taken bool) {
	for cond.op == "not" {
		cond, taken = cond.args[0], !taken
	}
	tf := "F"
	if taken {
		tf = "T"
	}
	switch cond.op {
	case "as":
		if isEV(cond.args[0]) {
			st.mon["as:"+cond.s] = tf
		}
		return
	case "is":
		if isEV(cond.args[0]) {
			st.mon["is:"+cond.args[1].String()] = tf
		}
		return
	case "tok":
		if isEV(cond.args[0]) {
			st.mon["as:"+cond.s] = tf
			return
		}
	}
	if cond.op == "eq" && (isEV(cond.args[0]) || isEV(cond.args[1])) {
		o := cond.args[0]
		if isEV(o) {
			o = cond.args[1]
		}
		if o.op != "nil" {
			st.mon["is:"+o.String()] = tf
		}
		return
	}
	if cond.op == "eq" || cond.op == "pm" || cond.op == "present" {
		if termHas(cond, func(t *Term) bool { return t.op == "asv" && isEV(t.args[0]) }) && taken {
			st.mon["match"] = "T"
		}
	}
}

func clearPend(st *State) {
	for k := range st.mon {
		if k == "pend" || k == "match" || strings.HasPrefix(k, "as:") || strings.HasPrefix(k, "is:") {
			delete(st.mon, k)
		}
	}
}

// interceptedBy names why a pending failure need not be passed on, or "".
func (p *Prog) interceptedBy(m map[string]string) string {
	for k, v := range m {
		if v != "T" {
			continue
		}
		switch k {
		case "as:*gmnlisp._ErrEarlyReturns", "as:*gmnlisp._ErrThrown", "as:*gmnlisp._ErrTagBody":
			if m["match"] == "T" {
				return k
			}
		case "as:*gmnlisp._ErrTailRecOpt", "as:*gmnlisp._ErrContinueCondition":
			return k
		}
		if strings.HasPrefix(k, "is:") && !strings.Contains(k, "ErrQuit") && !strings.Contains(k, "ErrAbort") && !strings.Contains(k, "context.") {
			return k
		}
	}
	return ""
}

func (p *Prog) plainErrorOnly(m map[string]string) bool {
	for _, t := range p.controlTypes() {
		if strings.HasSuffix(t, "_ErrTailRecOpt") || strings.HasSuffix(t, "_ErrContinueCondition") {
			continue
		}
		if m["as:"+t] != "F" {
			return false
		}
	}
	return true
}

// speculative gives the functions that only try to expand macros ahead of
// time; what fails is left as it is and fails again when it is evaluated.
func (p *Prog) speculative() map[*ssa.Function]bool {
	if p.specM != nil {
		return p.specM
	}
	p.specM = map[*ssa.Function]bool{}
	for _, f := range p.All {
		if errResult(f.Signature) >= 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && p.isMethod(g, "_Macro", "expand") {
						p.specM[f] = true
					}
				}
			}
		}
	}
	// and those that do nothing else but call these
	rev := p.Builtin("nreverse")
	for ch := true; ch; {
		ch = false
		for _, f := range p.All {
			if p.specM[f] || !p.mayEval()[f] {
				continue
			}
			calls, other := false, false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && p.mayEval()[mc.Fn.(*ssa.Function)] {
						other = true
					}
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					g := ci.Common().StaticCallee()
					switch {
					case g == nil:
						other = other || p.runsUserCode(ci.Common())
					case p.specM[g]:
						calls = true
					case rev != nil && g == rev.Fn:
					case p.mayEval()[g]:
						other = true
					}
				}
			}
			if calls && !other {
				p.specM[f] = true
				ch = true
			}
		}
	}
	return p.specM
}

func checkC04(p *Prog, r *Report) {
	ignore := map[*ssa.Function]bool{}
	if b := anchor(p, r, "ignore-errors"); b != nil {
		ignore = p.onlyFrom(b.Fn)
	}
	up := map[*ssa.Function]bool{}
	if b := anchor(p, r, "unwind-protect"); b != nil {
		up = p.onlyFrom(b.Fn)
	}
	wh := map[*ssa.Function]bool{}
	if b := anchor(p, r, "with-handler"); b != nil {
		wh = p.onlyFrom(b.Fn)
	}
	for _, f := range p.All {
		if only := os.Getenv("AN_ONLY"); only != "" && fnName(f) != only {
			continue
		}
		if fnPkg(f).Name() == "main" || f.Synthetic != "" && f.Name() == "init" {
			continue
		}
		if madeUp(f) || (f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0) {
			continue
		}
		controlFn(p, r, f, ignore[f], up[f], wh[f])
	}
	r.floor("functions with failing calls", 150)
	r.floor("failing calls followed", 300)
}

func controlFn(p *Prog, r *Report, f *ssa.Function, mayIgnore, cleanup, handler bool) {
	any := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				c := &Call{Common: ci.Common(), Callee: ci.Common().StaticCallee()}
				if ci.Common().IsInvoke() {
					c.Method = ci.Common().Method
				}
				if controlEvent(p, c) != nil {
					any = true
				}
			}
		}
	}
	if !any {
		return
	}
	r.count("functions with failing calls", 1)
	ei := errResult(f.Signature)
	cl := &Client{}
	sites := map[string]bool{}
	spec := p.speculative()[f]
	cl.OnCall = func(e *Eng, st *State, c *Call) ([]Out, bool) {
		if outs, ok := baseModels(e, st, c); ok && !c.isMainFn(p, "Shift") {
			return outs, true
		}
		ev := controlEvent(p, c)
		sig := c.Common.Signature()
		if c.Callee != nil {
			sig = c.Callee.Signature
		}
		if ev == nil {
			if c.Callee != nil && c.Callee.Pkg != nil && c.Callee.Pkg.Pkg.Path() == "fmt" && len(c.Args) > 0 {
				for _, x := range e.variadic(st, c.Args[len(c.Args)-1]) {
					if termHas(x, isEV) {
						st.mon["told"] = "T"
					}
				}
			}
			if c.Callee != nil && p.inRepo(c.Callee) && len(c.Callee.Blocks) > 0 {
				about := hasErrParam(sig) || hasFuncArg(c.Args) || c.Bind != nil
				for _, a := range c.Args {
					about = about || termHas(a, isEV)
				}
				if !about || c.Frame.onStack(c.Callee) > 0 || c.Frame.depth > 5 {
					return e.Opaque(st, c), true
				}
			}
			return nil, false
		}
		// a helper that is handed the failure is followed
		if c.Callee != nil && c.Frame.onStack(c.Callee) == 0 && c.Frame.depth < 6 {
			if hasErrParam(sig) {
				return nil, false
			}
			for _, a := range c.Args {
				if termHas(a, isEV) {
					return nil, false
				}
			}
		}
		if pend := st.mon["pend"]; pend != "" {
			if handler && p.plainErrorOnly(st.mon) {
				// the handler is told; it may leave in a way of its own
			} else if p.interceptedBy(st.mon) != "" || mayIgnore && p.plainErrorOnly(st.mon) {
				clearPend(st)
			} else if strings.HasPrefix(pend, "hard") && ev.hard && !spec && !cleanup {
				r.add("continues/"+fnName(f)+"/"+ev.name, p.pos(c.Pos), "%s goes on to call %s after %s has failed or started a non-local exit (via %s)", fnName(f), ev.name, pend[5:], c.Frame.Trace())
			}
		}
		sites[c.Site] = true
		r.ob(1)
		return forkErr(e, st, c, map[bool]string{true: "EV", false: "SOFT"}[ev.hard], func(s *State, ok bool) {
			if ok {
				return
			}
			clearPend(s)
			delete(s.mon, "told")
			k := "soft:"
			if ev.hard {
				k = "hard:"
			}
			s.mon["pend"] = k + ev.name
		}), true
	}
	cl.OnBranch = func(e *Eng, st *State, cond *Term, taken bool, fr *Frame, pos token.Pos) {
		if os.Getenv("AN_DEBUG") == "2" {
			fmt.Println("BR", p.pos(pos), cond, taken, st.mon)
		}
		noteIntercept(e, st, cond, taken)
	}
	cl.Widen = func(t *Term) bool {
		switch t.op {
		case "nil", "const", "cell", "fn", "clo", "mki", "glob", "fld", "tuple", "wrap", "struct", "zero", "slice", "gval":
			return false
		}
		return !termHas(t, isEV) && !termHas(t, func(x *Term) bool { return x.op == "cell" || x.op == "clo" || x.op == "fn" })
	}
	cl.KeepFact = func(t *Term) bool { return termHas(t, isEV) }
	e := newEng(p, cl)
	for _, x := range e.Run(f, specialArgsFn(p, f), nil, newState()) {
		r.ob(1)
		pend := x.St.mon["pend"]
		if x.Panic || pend == "" || cleanup {
			continue
		}
		if p.interceptedBy(x.St.mon) != "" {
			r.count("exits that intercept a control transfer", 1)
			continue
		}
		if mayIgnore && p.plainErrorOnly(x.St.mon) {
			continue
		}
		hard := strings.HasPrefix(pend, "hard")
		name := pend[5:]
		if spec {
			r.count("speculative macro expansions", 1)
			continue
		}
		if ei < 0 && x.St.mon["told"] == "T" {
			continue
		}
		if ei < 0 {
			r.add("unreportable/"+fnName(f)+"/"+name, p.pos(x.Pos), "%s cannot report the failure of %s", fnName(f), name)
			continue
		}
		res := unwrapTerm(x.Res[ei])
		if res.label == "EV" || (!hard && e.nilness(x.St, x.Res[ei]) == 'X') || res.label == "SOFT" {
			continue
		}
		if e.nilness(x.St, x.Res[ei]) == 'X' {
			r.add("replaced/"+fnName(f)+"/"+name, p.pos(x.Pos), "when %s fails or starts a non-local exit, %s ends with a different error (%s)", name, fnName(f), res)
			continue
		}
		if os.Getenv("AN_DEBUG") != "" {
			fmt.Println("LOST", res, e.nilness(x.St, res), x.St.mon)
		}
		r.add("lost/"+fnName(f)+"/"+name, p.pos(x.Pos), "%s can return normally although %s failed or started a non-local exit", fnName(f), name)
	}
	r.count("failing calls followed", len(sites))
	r.engine(e)
}

// specialArgsFn makes the parameters of a function.
func specialArgsFn(p *Prog, f *ssa.Function) []*Term {
	var out []*Term
	for i, q := range f.Params {
		label := ""
		t := q.Type()
		switch {
		case p.isWorldPtr(t):
			label = "world"
		case p.isNode(t):
			label = listLabel("args", 0)
		}
		out = append(out, tSym(fmt.Sprintf("entry#%s%d", label, i), label, t))
	}
	return out
}

// onlyFrom is the set of functions that are only ever called from root.
func (p *Prog) onlyFrom(root *ssa.Function) map[*ssa.Function]bool {
	users := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range p.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if g, ok := (*o).(*ssa.Function); ok {
						if users[g] == nil {
							users[g] = map[*ssa.Function]bool{}
						}
						users[g][f] = true
					}
				}
			}
		}
	}
	set := map[*ssa.Function]bool{root: true}
	for ch := true; ch; {
		ch = false
		for _, f := range p.All {
			if set[f] || len(users[f]) == 0 {
				continue
			}
			all := true
			for u := range users[f] {
				if !set[u] {
					all = false
				}
			}
			if all {
				set[f] = true
				ch = true
			}
		}
	}
	return set
}
