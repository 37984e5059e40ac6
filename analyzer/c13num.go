package main

import (
	"go/constant"
	"go/token"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rxGlobals gives the text of every package variable of the module that is
// set to a compiled constant regular expression.
func (p *Prog) rxGlobals() map[string]string {
	out := map[string]string{}
	for _, pk := range p.SSA.AllPackages() {
		if !strings.HasPrefix(pk.Pkg.Path(), p.ModPath) || pk.Func("init") == nil {
			continue
		}
		for _, b := range pk.Func("init").Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				c, ok := st.Val.(*ssa.Call)
				if !ok {
					continue
				}
				f := c.Call.StaticCallee()
				if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "regexp" || f.Name() != "MustCompile" {
					continue
				}
				if k, ok := c.Call.Args[0].(*ssa.Const); ok {
					out[g.String()] = constant.StringVal(k.Value)
				}
			}
		}
	}
	return out
}

// rxSet is a set of regular expressions, run side by side over abstract text.
type rxSet []*syntax.Prog

func compileRx(src string) *syntax.Prog {
	re, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return nil
	}
	pr, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil
	}
	return pr
}

// closure follows the empty moves; first and last say where in the text it is.
func rxClosure(pr *syntax.Prog, in map[uint32]bool, first, last bool) map[uint32]bool {
	out := map[uint32]bool{}
	var add func(pc uint32)
	add = func(pc uint32) {
		if out[pc] {
			return
		}
		out[pc] = true
		i := pr.Inst[pc]
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(i.Out)
			add(i.Arg)
		case syntax.InstCapture, syntax.InstNop:
			add(i.Out)
		case syntax.InstEmptyWidth:
			op := syntax.EmptyOp(i.Arg)
			if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				return
			}
			if op&(syntax.EmptyBeginText|syntax.EmptyBeginLine) != 0 && !first {
				return
			}
			if op&(syntax.EmptyEndText|syntax.EmptyEndLine) != 0 && !last {
				return
			}
			add(i.Out)
		}
	}
	for pc := range in {
		add(pc)
	}
	return out
}

func rxKey(s map[uint32]bool) string {
	var l []int
	for k := range s {
		l = append(l, int(k))
	}
	sort.Ints(l)
	var b strings.Builder
	for _, k := range l {
		b.WriteString(string(rune(k + 32)))
	}
	return b.String()
}

// rxOnDecimals runs the expression over the numerals -?[0-9]+ and says
// whether it matches some, and whether it matches all of them.
func rxOnDecimals(srcs ...string) (some, all bool) {
	type cfg struct {
		digits int // 0 nothing yet, 1 after the sign, 2 after a digit
		sets   []map[uint32]bool
		hit    bool // a match was found before the end of the text
	}
	var prs []*syntax.Prog
	for _, s := range srcs {
		if pr := compileRx(s); pr != nil {
			prs = append(prs, pr)
		}
	}
	all = true
	seen := map[string]bool{}
	start := cfg{}
	for range prs {
		start.sets = append(start.sets, map[uint32]bool{})
	}
	work := []cfg{start}
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		first := c.digits == 0
		match := func(last bool) bool {
			for i, pr := range prs {
				in := map[uint32]bool{uint32(pr.Start): true}
				for k := range c.sets[i] {
					in[k] = true
				}
				for pc := range rxClosure(pr, in, first, last) {
					if pr.Inst[pc].Op == syntax.InstMatch {
						return true
					}
				}
			}
			return false
		}
		if c.digits == 2 {
			if c.hit || match(true) {
				some = true
			} else {
				all = false
			}
		}
		hit := c.hit || match(false)
		runes := "0123456789"
		if c.digits == 0 {
			runes += "-"
		}
		for _, r := range runes {
			n := cfg{digits: 2, hit: hit}
			if r == '-' {
				n.digits = 1
			}
			key := string(rune('0' + n.digits))
			if hit {
				key += "h"
			}
			for i, pr := range prs {
				in := map[uint32]bool{uint32(pr.Start): true}
				for k := range c.sets[i] {
					in[k] = true
				}
				to := map[uint32]bool{}
				for pc := range rxClosure(pr, in, first, false) {
					ins := pr.Inst[pc]
					switch ins.Op {
					case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
						if ins.MatchRune(r) {
							to[ins.Out] = true
						}
					}
				}
				n.sets = append(n.sets, to)
				key += "/" + rxKey(to)
			}
			if !seen[key] {
				seen[key] = true
				work = append(work, n)
			}
		}
	}
	return some, all && len(prs) > 0
}

// c13integers: every decimal numeral is read as the integer it shows.
func c13integers(p *Prog, r *Report, upper []*ssa.Function) {
	rx := p.rxGlobals()
	var roots []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, f := range p.All {
		if f.Pkg == nil || len(upper) == 0 || f.Pkg != upper[0].Pkg && (upper[0].Origin() == nil || f.Pkg != upper[0].Origin().Pkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					switch c.Common().Method.Name() {
					case "Int", "Float":
						if !seen[f] {
							seen[f] = true
							roots = append(roots, f)
						}
					}
				}
			}
		}
	}
	ints := map[string]bool{}
	mt := modelText(nil)
	for _, f := range roots {
		name := p.genericName(f)
		args := p.freshParams(f)
		cl := &Client{OnLoad: errorGlobals}
		cl.OnBranch = func(e *Eng, st *State, cond *Term, taken bool, fr *Frame, pos token.Pos) {
			if cond.op == "not" {
				cond, taken = cond.args[0], !taken
			}
			if cond.op == "rxmatch" && taken {
				st.mon["rx"] += cond.s + "\n"
			}
		}
		cl.OnCall = func(e *Eng, st *State, c *Call) ([]Out, bool) {
			if c.Callee != nil && c.Callee.Name() == "MatchString" && c.Callee.Signature.Recv() != nil {
				if g := globsIn(c.Args[0]); len(g) == 1 && rx[g[0]] != "" {
					return []Out{{St: st, Res: []*Term{mkTerm("rxmatch", g[0], "", tBoolT, nil, c.Args[1])}}}, true
				}
			}
			if c.Method != nil {
				at := p.pos(c.Pos)
				var on []string
				for _, g := range strings.Split(strings.TrimSpace(st.mon["rx"]), "\n") {
					if g != "" {
						on = append(on, g)
					}
				}
				switch c.Method.Name() {
				case "Float":
					for _, g := range on {
						r.ob(1)
						if some, _ := rxOnDecimals(rx[g]); some {
							r.add(name+"/float", at, "%s reads some decimal numerals of integers as floats (%s)", name, rx[g])
						}
					}
				case "Int":
					a := stripConv(c.Args[1])
					if a.op != "parsed" {
						return []Out{{St: st, Res: e.Fresh(c)}}, true
					}
					base := a.args[1].s
					whole := a.args[0].op == "sym"
					for _, g := range on {
						r.ob(1)
						some, _ := rxOnDecimals(rx[g])
						if some && base != "10" {
							r.add(name+"/base", at, "%s reads decimal numerals in base %s", name, base)
						}
						if some && !whole {
							r.add(name+"/part", at, "%s reads a part of a decimal numeral only", name)
						}
						if base == "10" && whole {
							ints[rx[g]] = true
						}
					}
				}
				return []Out{{St: st, Res: e.Fresh(c)}}, true
			}
			return mt(e, st, c)
		}
		e := newEng(p, cl)
		e.Run(f, args, nil, newState())
		r.engine(e)
	}
	r.count("functions that read numbers", len(roots))
	if len(ints) > 0 {
		var l []string
		for s := range ints {
			l = append(l, s)
		}
		sort.Strings(l)
		r.ob(1)
		if _, all := rxOnDecimals(l...); !all {
			r.add("reader/integer", "pkg/parser", "not every decimal numeral is read as an integer (%s)", strings.Join(l, " or "))
		}
		r.sample("decimal numerals are read as integers by %s", strings.Join(l, " or "))
		r.count("expressions for integers", len(l))
	}
}
