package main

import (
	"fmt"
	"go/types"
	"os"
	"slices"
	"sort"
	"strings"
)

// session interprets a sequence of operations, each from the state that the
// ones before have left: definitions, objects and their slots are followed.
type session struct {
	o       *opRun
	p       *Prog
	r       *Report
	where   string
	reverse bool // the entries of maps come in the other order
}

type sStep struct {
	text   string               // of the argument list
	op     string               // an operator or function, or "call" for a generic function
	fn     string               // what is called
	list   func(s *shape) *Term // the argument list of an operator
	args   []string             // values: names of bound ones, symbols (S1) or others (A1)
	bind   string               // the result is called this
	want   string               // what the result is: "=x" bound value, "error", "" anything, or as shown
	events []string             // the forms evaluated, in this order
	any    bool                 // in any order
	got    func(v *Term, shown string)
}

func ghost(o *opRun, name string) *Term {
	return mkTerm("fld", "ghost."+name, "", types.NewPointer(tBoolT), nil, o.world)
}

// defined is what the name means in the session: prefix "fn:" or "global:".
func (o *opRun) defined(st *State, name string) *Term { return st.mem[ghost(o, name)] }

func newSession(p *Prog, r *Report, what string) (*session, *State) {
	o := &opRun{p: p, r: r, name: what, shape: what, env: true, classes: true, session: true}
	s := &session{o: o, p: p, r: r}
	st := o.begin()
	o.entity = func(e *Eng, st *State, name string) *Term {
		if n, ok := strings.CutPrefix(name, "FN:"); ok {
			return o.defined(st, "fn:"+n)
		}
		return nil
	}
	o.value = func(sh *shape, form string) []*Term {
		if n, ok := strings.CutPrefix(form, "class-form-"); ok {
			if v := o.classNamed(sh.st, n); v != nil {
				return []*Term{v}
			}
			return []*Term{s.val(sh.st, n)}
		}
		if n, ok := strings.CutPrefix(form, "arg-"); ok {
			if v := s.val(sh.st, n); v != nil {
				return []*Term{v}
			}
		}
		return nil
	}
	return s, st
}

// classNamed is a class of the session or one that the interpreter comes with.
func (o *opRun) classNamed(st *State, n string) *Term {
	if v := o.defined(st, "global:"+n); v != nil {
		return v
	}
	if ci := o.p.classes().byName[n]; ci != nil {
		return asNode(ci.term)
	}
	return nil
}

func (s *session) val(st *State, n string) *Term {
	if v := s.o.defined(st, "val:"+n); v != nil {
		return v
	}
	if c, ok := strings.CutPrefix(n, "class:"); ok {
		return s.o.classNamed(st, c)
	}
	if strings.Contains("SIK", n[:1]) {
		return s.o.s.sym(n)
	}
	// any other value: an integer
	obj := s.p.Main.Pkg.Scope().Lookup("Integer")
	if obj == nil {
		return nil
	}
	return asNode(tSym("arg#"+n, n, obj.Type()))
}

// run performs the steps and reports where they differ from what is wanted.
func (s *session) run(what string, st *State, steps []sStep) (bad []string) {
	p, o := s.p, s.o
	cl := o.client()
	cl.Reverse = s.reverse
	e := newEng(p, cl)
	sameSymbols, allSymbols = p.sameSymbol, true
	defer func() { sameSymbols, allSymbols = nil, false }()
	report := func(format string, a ...any) { bad = append(bad, fmt.Sprintf(format, a...)) }
	states := []*State{st}
	for i, step := range steps {
		var next []*State
		name := step.op
		if name == "call" {
			name = step.fn
		}
		text := "(" + strings.TrimSpace(name+" "+strings.Join(step.args, " ")) + ")"
		if step.list != nil {
			text = "(" + name + " " + step.text + ")"
		}
		text = fmt.Sprintf("step %d, %s,", i+1, text)
		n0 := o.s.n
		for _, st := range states {
			o.s.n = n0
			delete(st.mon, "ev")
			delete(st.mon, "raised")
			o.s.st = st
			var exits []Exit
			if step.op == "call" {
				g := o.defined(st, "fn:"+step.fn)
				call := p.callMethod("_Generic")
				if g == nil || call == nil || g.op != "mki" {
					report("%s calls a function that was not defined", text)
					continue
				}
				var l []*Term
				for _, a := range step.args {
					l = append(l, o.s.form("arg-"+a))
				}
				args := []*Term{g.args[0]}
				for i := 1; i < len(call.Params); i++ {
					switch t := call.Params[i].Type(); {
					case p.isWorldPtr(t):
						args = append(args, o.world)
					case p.isNode(t):
						args = append(args, o.s.list(l...))
					default:
						args = append(args, tSym("entry#"+fmt.Sprint(i), "", t))
					}
				}
				exits = e.Run(call, args, nil, st)
			} else {
				b := p.Builtin(step.op)
				if b == nil {
					report("there is no (%s)", step.op)
					return
				}
				var nodes []*Term
				if step.list != nil {
					nodes = []*Term{step.list(o.s)}
				} else {
					var l []*Term
					for _, a := range step.args {
						v := s.val(st, a)
						if v == nil {
							report("%s: there is no %s", text, a)
							return
						}
						nodes = append(nodes, v)
						l = append(l, o.s.form("arg-"+a))
					}
					if b.Kind == "special" {
						nodes = []*Term{o.s.list(l...)}
					}
				}
				exits = e.Run(b.Fn, o.argsFor(b.Fn, o.world, nodes...), nil, st)
			}
			for _, x := range exits {
				s.r.ob(1)
				if x.Panic {
					continue
				}
				if failed(e, x) {
					er := unwrapTerm(x.Res[len(x.Res)-1])
					if strings.HasPrefix(er.label, "pm:") || strings.Contains(er.String(), "pm:Err") {
						continue // the context is done
					}
					if step.want != "error" {
						report("%s ends in the error %s %s", text, er, x.St.mon["raised"])
						continue
					}
				} else if step.want == "error" {
					report("%s returns %s, and there is no error", text, o.show(e, x.St, x.Res[0]))
					continue
				}
				var evs []string
				for _, ev := range strings.Split(strings.TrimSuffix(x.St.mon["ev"], "; "), "; ") {
					ev = plainEvent(ev)
					if ev == "" || strings.HasPrefix(ev, "define ") || isRead(ev) || strings.HasPrefix(ev, "arg-") || strings.HasPrefix(ev, "class-form-") {
						continue
					}
					evs = append(evs, ev)
				}
				want := append([]string{}, step.events...)
				if step.any {
					sort.Strings(evs)
					sort.Strings(want)
				}
				if got := strings.Join(evs, ", "); got != strings.Join(want, ", ") && step.want != "error" {
					report("%s evaluates %s, not %s", text, orNothing(got), orNothing(strings.Join(want, ", ")))
					continue
				}
				if step.want == "error" {
					next = append(next, x.St)
					continue
				}
				v := x.Res[0]
				if len(x.Res) == 1 {
					v = x.Res[0]
				}
				if n, ok := strings.CutPrefix(step.want, "="); ok {
					if w := s.val(x.St, n); w != v {
						report("%s returns %s, not %s", text, o.show(e, x.St, v), n)
						continue
					}
				} else if step.want != "" {
					if got := o.show(e, x.St, v); got != step.want {
						report("%s returns %s, not %s", text, got, step.want)
						continue
					}
				}
				if step.got != nil {
					step.got(v, o.show(e, x.St, v))
				}
				if step.bind != "" {
					x.St.mem[ghost(o, "val:"+step.bind)] = v
				}
				next = append(next, x.St)
			}
			if len(exits) == 0 {
				report("%s has no way out", text)
			}
		}
		seen := map[string]bool{}
		next = slices.DeleteFunc(next, func(st *State) bool {
			for t := range st.facts {
				if strings.HasPrefix(t.op, "pm:") || strings.HasPrefix(t.label, "pm:") || strings.HasPrefix(t.String(), "pm:Err#") {
					delete(st.facts, t)
				}
			}
			delete(st.mon, "ev")
			delete(st.mon, "raised")
			k := st.key()
			defer func() { seen[k] = true }()
			return seen[k]
		})
		if debugSession {
			println("STEP", i+1, text, len(next))
			if len(next) > 1 {
				a, b := next[0], next[1]
				for range 2 {
					for k, v := range a.mem {
						if b.mem[k] != v {
							println("   mem", k.String(), v.String())
						}
					}
					for k, v := range a.facts {
						if b.facts[k] != v {
							println("   fact", k.String(), string(v))
						}
					}
					for k, v := range a.esc {
						if b.esc[k] != v {
							println("   esc", k.String(), v)
						}
					}
					a, b = b, a
				}
			}
		}
		if len(next) > 40 {
			report("%s has too many ways out", text)
			break
		}
		states = next
		if len(states) == 0 {
			break
		}
	}
	s.r.engine(e)
	s.r.count("steps", len(steps))
	sort.Strings(bad)
	return bad
}

var debugSession = os.Getenv("DBGS") != ""

// allSymbols: all symbols are known by their names.
var allSymbols bool
