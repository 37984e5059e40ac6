package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// opensFile says that a call opens a file: a function of package os that
// returns a *os.File and an error.
func opensFile(f *ssa.Function) bool {
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "os" || f.Signature.Recv() != nil {
		return false
	}
	rs := f.Signature.Results()
	return rs.Len() == 2 && rs.At(0).Type().String() == "*os.File" && isErr(rs.At(1).Type())
}

func fullName(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	return f.String()
}

func checkC03(p *Prog, r *Report) {
	for _, n := range []string{"with-open-input-file", "with-open-output-file", "close"} {
		if anchor(p, r, n) == nil {
			return
		}
	}
	done := map[*ssa.Function]bool{}
	opens := func(f *ssa.Function) (out bool, output bool) {
		for g := range p.staticClosure(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if c := ci.Common().StaticCallee(); opensFile(c) {
							out = true
							if c.Name() != "Open" {
								output = true
							}
						}
					}
				}
			}
		}
		return
	}
	for _, b := range p.Reg {
		if b.Fn == nil || done[b.Fn] {
			continue
		}
		if ok, _ := opens(b.Fn); !ok {
			continue
		}
		done[b.Fn] = true
		args := specialArgsFn(p, b.Fn)
		c := &c03{p: p, r: r, name: "(" + b.Lisp + ")", with: strings.HasPrefix(b.Lisp, "with-open-")}
		c.run(b.Fn, args)
		r.count("operators that open files", 1)
	}
	for _, n := range []string{"with-open-input-file", "with-open-output-file"} {
		if !done[p.Builtin(n).Fn] {
			r.add("no-open/"+n, p.pos(p.Builtin(n).Fn.Pos()), "(%s) opens no file", n)
		}
	}
	// functions outside the operators that open files themselves
	var fns []*ssa.Function
	for _, f := range p.All {
		if !p.inRepo(f) || done[f] || f.Pkg == nil || f.Pkg == p.Main || strings.Contains(f.Pkg.Pkg.Path(), "/examples/") {
			continue
		}
		direct := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && opensFile(ci.Common().StaticCallee()) {
					direct = true
				}
			}
		}
		if direct {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for _, f := range fns {
		c := &c03{p: p, r: r, name: fnName(f)}
		c.run(f, freshArgs(f))
		r.count("other functions that open files", 1)
	}
	// how the streams themselves are closed
	for _, n := range p.closerTypes() {
		f := n
		c := &c03{p: p, r: r, name: fnName(f), closer: true}
		c.run(f, freshArgs(f))
		r.count("close methods of streams", 1)
	}
	cb := p.Builtin("close")
	c := &c03{p: p, r: r, name: "(close)", closer: true}
	c.run(cb.Fn, specialArgsFn(p, cb.Fn))
	r.floor("operators that open files", 4)
	r.floor("close methods of streams", 1)
	r.floor("files opened on paths", 4)
	r.floor("ways out with a file closed", 4)
	r.floor("bodies evaluated with an open file", 2)
	r.floor("failed writes followed", 2)
}

// freshArgs makes a symbol of each parameter.
func freshArgs(f *ssa.Function) []*Term {
	var out []*Term
	for i, q := range f.Params {
		out = append(out, tSym("entry#p"+string(rune('0'+i)), "", q.Type()))
	}
	return out
}

// closerTypes lists the Close methods of the repository's streams.
func (p *Prog) closerTypes() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.All {
		if f.Pkg != p.Main || f.Name() != "Close" || f.Signature.Recv() == nil || madeUp(f) {
			continue
		}
		if f.Signature.Params().Len() == 0 && errResult(f.Signature) == 0 && f.Signature.Results().Len() == 1 {
			out = append(out, f)
		}
	}
	return out
}

type c03 struct {
	p      *Prog
	r      *Report
	name   string
	with   bool
	closer bool
}

func (c *c03) run(f *ssa.Function, args []*Term) {
	p, r := c.p, c.r
	cl := &Client{}
	// A file is known by the symbol made where it was opened.
	fileOf := func(st *State, t *Term) string {
		for t.op == "mki" || t.op == "ct" {
			t = t.args[0]
		}
		if t.op == "sym" && t.label == "FILE" {
			return t.s
		}
		if t.op == "sym" && t.label == "BUF" {
			return st.mon["wraps:"+t.s]
		}
		if c.closer {
			return "own"
		}
		return ""
	}
	fork1 := func(st *State, cc *Call, label string, on func(*State, bool)) []Out {
		s1, s2 := st.clone(), st.clone()
		er := tSym(cc.Site+"#e", label, errType)
		s2.facts[er] = 'X'
		on(s1, true)
		on(s2, false)
		return []Out{{St: s1, Res: []*Term{tNil}}, {St: s2, Res: []*Term{er}}}
	}
	cl.OnBranch = func(e *Eng, st *State, cond *Term, taken bool, fr *Frame, pos token.Pos) {
		for cond.op == "not" {
			cond, taken = cond.args[0], !taken
		}
		if cond.op == "is" && taken && strings.Contains(cond.args[1].String(), "ErrClosed") && (cond.args[0].label == "CLOSEERR" || cond.args[0].label == "JOINED") {
			st.mon["wasclosed"] = "1"
		}
	}
	cl.OnCall = func(e *Eng, st *State, cc *Call) ([]Out, bool) {
		if _, ok := p.evalOf(cc); ok {
			r.ob(1)
			if c.with {
				for k, v := range st.mon {
					if strings.HasPrefix(k, "open:") && v == "closed" {
						r.add("early/"+c.name, p.pos(cc.Pos), "%s evaluates a form after it has closed its file", c.name)
					}
				}
				body := false
				for k, v := range st.mon {
					if strings.HasPrefix(k, "open:") && v == "open" {
						body = true
						delete(st.mon, "flushed:"+k[5:])
					}
				}
				if body {
					r.count("bodies evaluated with an open file", 1)
					st.mon["body"] = "1"
					if !reachesLabel(st, cc.Args[0], "FILE", 0) {
						r.add("unbound/"+c.name, p.pos(cc.Pos), "%s evaluates its body where its variable is not bound to the stream", c.name)
					}
				}
			}
			return okErr(st, cc, "EV", "EVERR", func(s *State, ok bool) {
				if s.mon["body"] == "1" && !ok {
					s.mon["bodyerr"] = "1"
				}
			}), true
		}
		f := cc.Callee
		switch {
		case opensFile(f):
			return okErr(st, cc, "FILE", "OPENERR", func(s *State, ok bool) {
				if ok {
					r.count("files opened on paths", 1)
					s.mon["open:"+tSym(cc.Site+"#v", "FILE", cc.ResultType().At(0).Type()).s] = "open"
				} else {
					s.mon["openerr"] = "1"
				}
			}), true
		case f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "bufio" && (strings.HasPrefix(f.Name(), "NewWriter") || strings.HasPrefix(f.Name(), "NewReader")):
			s := st.clone()
			v := tSym(cc.Site+"#v", "BUF", cc.ResultType().At(0).Type())
			s.facts[v] = 'X'
			if strings.HasPrefix(f.Name(), "NewWriter") {
				if id := fileOf(s, cc.Args[0]); id != "" {
					s.mon["wraps:"+v.s] = id
					s.mon["buffered:"+id] = "1"
				}
			}
			return []Out{{St: s, Res: []*Term{v}}}, true
		case fullName(f) == "(*bufio.Writer).Flush":
			id := fileOf(st, cc.Args[0])
			outs := fork1(st, cc, "FLUSHERR", func(s *State, ok bool) {
				r.count("failed writes followed", 1)
				s.mon["flushed:"+id] = "1"
				if !ok {
					s.mon["flusherr:"+id] = "1"
					s.mon["writeerr"] = "1"
				}
			})
			// with nothing written in between a second flush ends as the
			// first did, and a failure stays
			if st.mon["flusherr:"+id] == "1" {
				return outs[1:], true
			}
			if st.mon["flushed:"+id] == "1" {
				return outs[:1], true
			}
			return outs, true
		case fullName(f) == "(*os.File).Close", cc.Method != nil && cc.Method.Name() == "Close" && f == nil:
			id := fileOf(st, cc.Args[0])
			return fork1(st, cc, "CLOSEERR", func(s *State, ok bool) {
				if id == "" {
					return
				}
				if c.closer && id == "own" {
					s.mon["ownclosed"] = "1"
				}
				if s.mon["buffered:"+id] == "1" && s.mon["flushed:"+id] != "1" && s.mon["body"] == "1" {
					s.mon["unflushed"] = "1"
				}
				if c.closer && c.buffers(f0(cc)) && s.mon["flushed:"+id] != "1" {
					s.mon["unflushed"] = "1"
				}
				if s.mon["open:"+id] == "closed" {
					return // closed before: the outcome is known
				}
				if s.mon["open:"+id] != "" {
					s.mon["open:"+id] = "closed"
				}
				if !ok && (s.mon["buffered:"+id] == "1" || id == "own") {
					s.mon["closeerr"] = "1"
				}
			}), true
		case f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "errors" && f.Name() == "Join":
			t := tSym(cc.Site+"#j", "JOINED", errType)
			s := st.clone()
			all := true
			for _, a := range e.variadic(st, cc.Args[0]) {
				switch e.nilness(st, a) {
				case 'X':
					s.facts[t] = 'X'
					all = false
				case 'N':
				default:
					all = false
				}
			}
			if all {
				return []Out{{St: s, Res: []*Term{tNil}}}, true
			}
			return []Out{{St: s, Res: []*Term{t}}}, true
		}
		return callModels(modelExpect, modelRaise, baseModels)(e, st, cc)
	}
	if f.Pkg != p.Main {
		cl.NoInline = func(g *ssa.Function) bool {
			return g.Parent() == nil && g.Pkg != f.Pkg || p.mayEval()[g] && g.Parent() == nil
		}
	}
	e := newEng(p, cl)
	exits := e.Run(f, args, nil, newState())
	for _, x := range exits {
		r.ob(1)
		m := x.St.mon
		at := p.pos(x.Pos)
		failed := false
		if n := len(x.Res); n > 0 && isErr(f.Signature.Results().At(n-1).Type()) {
			failed = e.nilness(x.St, x.Res[n-1]) == 'X'
		}
		how := "with a value"
		if failed {
			how = "with an error or exit"
		}
		if x.Panic {
			how = "with a panic"
		}
		for k, v := range m {
			if !strings.HasPrefix(k, "open:") {
				continue
			}
			r.ob(1)
			id := k[5:]
			if v == "closed" {
				r.count("ways out with a file closed", 1)
				continue
			}
			returned := false
			if !failed && !x.Panic && !c.with {
				for _, t := range x.Res {
					if reachesSym(x.St, t, id, 0) {
						returned = true
					}
				}
			}
			if !returned {
				r.add("left-open/"+c.name, at, "%s can end %s without closing the file it has opened", c.name, how)
			}
		}
		if x.Panic {
			continue
		}
		if m["unflushed"] == "1" {
			r.add("unflushed/"+c.name, at, "%s closes the file before what was written to it is written out", c.name)
		}
		if m["writeerr"] == "1" && !failed {
			r.add("write-error-lost/"+c.name, at, "%s loses the error when what was written cannot be written out", c.name)
		}
		if m["closeerr"] == "1" && m["wasclosed"] == "" && !failed {
			r.add("close-error-lost/"+c.name, at, "%s loses the error when the file cannot be closed", c.name)
		}
		if m["openerr"] == "1" && !failed {
			r.add("open-error-lost/"+c.name, at, "%s ends with a value although the file could not be opened", c.name)
		}
		if c.with && m["body"] == "" && !failed {
			// the only way out without a body is an empty body
			continue
		}
		if c.closer && m["ownclosed"] == "" && !failed {
			r.add("not-closed/"+c.name, at, "%s can end normally without closing the file", c.name)
		}
	}
	r.engine(e)
	r.sample("%s: %d exits", c.name, len(exits))
}

func f0(cc *Call) *ssa.Function { return cc.Frame.fn }

// buffers says that the receiver of a close method holds a buffered writer.
func (c *c03) buffers(f *ssa.Function) bool {
	if f == nil || f.Signature.Recv() == nil {
		return false
	}
	st, ok := derefType(f.Signature.Recv().Type()).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Type().String() == "*bufio.Writer" {
			return true
		}
	}
	return false
}

// reachesLabel says that a value holds something with the label.
func reachesLabel(st *State, v *Term, label string, depth int) bool {
	return reachesPred(st, v, func(t *Term) bool { return t.label == label }, map[*Term]bool{})
}

func reachesSym(st *State, v *Term, id string, depth int) bool {
	return reachesPred(st, v, func(t *Term) bool { return t.op == "sym" && t.s == id || t.op == "sym" && st.mon["wraps:"+t.s] == id }, map[*Term]bool{})
}

func reachesPred(st *State, v *Term, pred func(*Term) bool, seen map[*Term]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if termHas(v, pred) {
		return true
	}
	for a, x := range st.mem {
		if (a.op == "fld" || a.op == "ment" || a.op == "idx") && termHas(v, func(t *Term) bool { return t == a.args[0] }) && reachesPred(st, x, pred, seen) {
			return true
		}
	}
	return false
}
