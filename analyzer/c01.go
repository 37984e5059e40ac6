package main

import (
	"go/token"
	"go/types"
)

// argSyms makes the parameters of an operator implementation.
func specialArgs(p *Prog, b *Builtin) []*Term {
	f := b.Fn
	var out []*Term
	for i := 0; i < f.Signature.Params().Len(); i++ {
		t := f.Signature.Params().At(i).Type()
		label := ""
		switch {
		case p.isWorldPtr(t):
			label = "world"
		case p.isNode(t):
			label = listLabel("args", 0)
		case i == 0:
			label = "ctx"
		}
		out = append(out, tSym("entry#"+label+string(rune('0'+i)), label, t))
	}
	return out
}

func anchor(p *Prog, r *Report, name string) *Builtin {
	b := p.Builtin(name)
	if b == nil || b.Fn == nil {
		r.add("anchor/"+name, "-", "operator %q is not registered with a resolvable implementation", name)
		return nil
	}
	return b
}

func checkC01(p *Prog, r *Report) {
	b := anchor(p, r, "unwind-protect")
	if b == nil {
		return
	}
	where := p.pos(b.Fn.Pos())
	list := listLabel("args", 0)
	_ = list
	cl := &Client{}
	cl.OnCall = func(e *Eng, st *State, c *Call) ([]Out, bool) {
		if c.isMainFn(p, "Shift") && len(c.Args) == 1 {
			_, name, k, ok := parseList(c.Args[0].label)
			return modelShift(e, st, c, func(s *State, okk bool) {
				if !ok || name != "args" {
					return
				}
				if okk {
					if s.mon["pend"] == "1" {
						r.add("skipped-form", p.pos(c.Pos), "a form of (unwind-protect) is taken off the list but never evaluated")
					}
					s.mon["pend"] = "1"
					delete(s.mon, "exh")
				} else if k >= 1 {
					s.mon["exh"] = "1"
					s.mon["improper"] = "1"
				} else {
					s.mon["noform"] = "1"
				}
			}), true
		}
		if outs, ok := baseModels(e, st, c); ok {
			return outs, true
		}
		if c.isMethod(p, "World", "Eval") {
			node := c.Args[2]
			kind, name, k, ok := parseList(node.label)
			if !ok || name != "args" || kind != "E" {
				r.add("evaluates-other", p.pos(c.Pos), "(unwind-protect) evaluates something that is not one of its forms (%s)", node)
				return okErr(st, c, "", "other", nil), true
			}
			if st.mon["pend"] != "1" {
				r.add("twice", p.pos(c.Pos), "a form of (unwind-protect) is evaluated more than once")
			}
			r.ob(1)
			if k == 0 {
				return okErr(st, c, "FORMVAL", "FORMERR", func(s *State, ok bool) {
					s.mon["pend"] = "0"
					if ok {
						s.mon["form"] = "ok"
					} else {
						s.mon["form"] = "err"
					}
				}), true
			}
			if st.mon["form"] == "" {
				r.add("order", p.pos(c.Pos), "a cleanup form is evaluated before the protected form")
			}
			return okErr(st, c, "CLVAL", "CLERR", func(s *State, ok bool) {
				s.mon["pend"] = "0"
				if !ok {
					s.mon["clerr"] = "1"
				}
			}), true
		}
		return nil, false
	}
	cl.OnBranch = func(e *Eng, st *State, cond *Term, taken bool, fr *Frame, pos token.Pos) {
		c := cond
		if c.op == "not" {
			c, taken = c.args[0], !taken
		}
		if (c.op == "some" || c.op == "tok" && types.Identical(c.typ, consType(p))) && !taken {
			if kind, name, k, ok := parseList(c.args[0].label); ok && kind == "L" && name == "args" && k >= 1 {
				st.mon["exh"] = "1"
			}
		}
	}
	e := newEng(p, cl)
	exits := e.Run(b.Fn, specialArgs(p, b), nil, newState())
	okSeen, errSeen, clSeen := 0, 0, 0
	for _, x := range exits {
		r.ob(1)
		m := x.St.mon
		at := p.pos(x.Pos)
		if x.Panic {
			r.add("panic", at, "(unwind-protect) panics")
			continue
		}
		er := unwrapTerm(x.Res[1])
		if m["form"] == "" {
			if m["noform"] == "" {
				r.add("no-form", at, "(unwind-protect) can return without evaluating its protected form")
			}
			continue
		}
		if m["clerr"] == "1" {
			clSeen++
			if e.nilness(x.St, er) != 'X' || er.label == "FORMERR" {
				r.add("cleanup-error-lost", at, "an error in a cleanup form is lost")
			}
			continue
		}
		if m["exh"] != "1" || m["pend"] == "1" {
			r.add("cleanup-skipped/"+m["form"], at, "(unwind-protect) can return without evaluating every cleanup form (protected form ended with %s)", m["form"])
			continue
		}
		if m["improper"] == "1" && e.nilness(x.St, er) == 'X' {
			continue // a dotted cleanup list is reported as an error
		}
		if m["form"] == "ok" {
			okSeen++
			if e.nilness(x.St, er) != 'N' || x.Res[0].label != "FORMVAL" {
				r.add("value", at, "when the protected form returns normally, (unwind-protect) does not return its value (returns %s, %s)", x.Res[0], er)
			}
		} else {
			errSeen++
			if er.label != "FORMERR" {
				r.add("outcome", at, "when the protected form fails or performs a non-local exit, (unwind-protect) does not end with that same error or exit (returns %s)", er)
			}
		}
	}
	r.engine(e)
	r.count("exit paths after a normal form", okSeen)
	r.count("exit paths after a failing form", errSeen)
	r.count("exit paths after a failing cleanup", clSeen)
	r.floor("exit paths after a normal form", 1)
	r.floor("exit paths after a failing form", 1)
	r.floor("exit paths after a failing cleanup", 1)
	r.sample("%s (unwind-protect): %d exits", where, len(exits))
}
