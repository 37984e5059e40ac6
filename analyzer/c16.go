package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// numCase is an operator with operands of the given kinds (I, F, R, S).
type numCase struct {
	op, kinds string
	// rel says whether the relation holds between neighbours ordered so
	rel func(cmp int) bool
	// mod: the hypotheses are about the remainder by two
	parity func(rem int) bool
	// value is the canonical text of the value
	value string
	kind  string // type of the value
	// byZero: the last operand must not be zero
	byZero bool
	modulo bool
	anyway bool // an operand before may already decide
	alone  bool
}

func numCases() (out []numCase) {
	rel := map[string]func(int) bool{
		"<": func(c int) bool { return c < 0 }, "<=": func(c int) bool { return c <= 0 },
		">": func(c int) bool { return c > 0 }, ">=": func(c int) bool { return c >= 0 },
		"=": func(c int) bool { return c == 0 }, "/=": func(c int) bool { return c != 0 },
	}
	var ops []string
	for op := range rel {
		ops = append(ops, op)
	}
	sort.Strings(ops)
	for _, op := range ops {
		for _, k := range []string{"II", "IF", "FI", "FF", "III", "FIF"} {
			if op == "/=" && len(k) > 2 {
				continue
			}
			out = append(out, numCase{op: op, kinds: k, rel: rel[op]})
		}
		out = append(out, numCase{op: "char" + op, kinds: "RR", rel: rel[op]}, numCase{op: "string" + op, kinds: "SS", rel: rel[op]})
	}
	for _, op := range []string{"eql", "eq", "equal"} {
		for _, k := range []string{"II", "FF", "RR", "SS"} {
			if op == "eq" && k == "SS" {
				continue
			}
			out = append(out, numCase{op: op, kinds: k, rel: rel["="]})
		}
		for _, k := range []string{"IF", "FI", "IR", "RS", "SI"} {
			out = append(out, numCase{op: op, kinds: k, rel: func(int) bool { return false }})
		}
	}
	for _, k := range []string{"I", "F"} {
		out = append(out,
			numCase{op: "zerop", kinds: k, rel: rel["="]},
			numCase{op: "plusp", kinds: k, rel: rel[">"]},
			numCase{op: "minusp", kinds: k, rel: rel["<"]},
			numCase{op: "numberp", kinds: k, rel: func(int) bool { return true }},
			numCase{op: "integerp", kinds: k, rel: func(int) bool { return k == "I" }},
			numCase{op: "floatp", kinds: k, rel: func(int) bool { return k == "F" }},
			numCase{op: "characterp", kinds: k, rel: func(int) bool { return false }},
			numCase{op: "stringp", kinds: k, rel: func(int) bool { return false }},
		)
	}
	out = append(out,
		numCase{op: "oddp", kinds: "I", parity: func(r int) bool { return r != 0 }},
		numCase{op: "evenp", kinds: "I", parity: func(r int) bool { return r == 0 }},
	)
	for _, op := range []string{"+", "-", "*", "/"} {
		for _, k := range []string{"II", "IF", "FI", "FF", "III", "FII"} {
			v := "(" + op + " a b)"
			switch {
			case len(k) == 3 && (op == "+" || op == "*"):
				v = "(" + op + " a b c)"
			case len(k) == 3:
				v = "(" + op + " " + v + " c)"
			}
			kind := "Float"
			if !strings.Contains(k, "F") {
				kind = "Integer"
			}
			out = append(out, numCase{op: op, kinds: k, value: v, kind: kind, byZero: op == "/"})
		}
	}
	for k, t := range map[string]string{"I": "Integer", "F": "Float"} {
		out = append(out, numCase{op: "-", kinds: k, value: "(- 0 a)", kind: t},
			numCase{op: "+", kinds: k, value: "a", kind: t}, numCase{op: "*", kinds: k, value: "a", kind: t})
	}
	out = append(out, numCase{op: "+", value: "0", kind: "Integer"}, numCase{op: "*", value: "1", kind: "Integer"},
		numCase{op: "rem", kinds: "II", value: "(% a b)", kind: "Integer", byZero: true},
		numCase{op: "mod", kinds: "II", kind: "Integer", byZero: true, modulo: true})
	for op, f := range map[string]string{"floor": "Floor", "ceiling": "Ceil", "truncate": "Trunc", "round": "RoundToEven"} {
		out = append(out, numCase{op: op, kinds: "I", value: "a", kind: "Integer"}, numCase{op: op, kinds: "F", value: "(" + f + " a)", kind: "Integer"})
	}
	for _, op := range []string{"+", "-", "*", "/", "<", "<=", ">", ">="} {
		for _, k := range []string{"IY", "YI", "FY", "IIY", "YY"} {
			out = append(out, numCase{op: op, kinds: k, value: "error", anyway: k == "IIY"})
		}
		if op[0] == '<' || op[0] == '>' {
			out = append(out, numCase{op: op, kinds: "SS", rel: rel[op]}, numCase{op: op, kinds: "I", rel: func(int) bool { return true }, alone: true})
			out = append(out, numCase{op: "char" + op, kinds: "RI", value: "error"}, numCase{op: "char" + op, kinds: "SR", value: "error"},
				numCase{op: "string" + op, kinds: "RS", value: "error"}, numCase{op: "string" + op, kinds: "SY", value: "error"})
		}
	}
	for _, op := range []string{"mod", "rem"} {
		out = append(out, numCase{op: op, kinds: "IY", value: "error"}, numCase{op: op, kinds: "YI", value: "error"})
	}
	for _, op := range []string{"zerop", "plusp", "minusp", "oddp", "evenp", "numberp", "integerp", "floatp"} {
		out = append(out, numCase{op: op, kinds: "Y", value: "nil"})
	}
	out = append(out, numCase{op: "sqrt", kinds: "F", value: "(Sqrt a)", kind: "Float"})
	sort.SliceStable(out, func(i, j int) bool { return out[i].op+" "+out[i].kinds < out[j].op+" "+out[j].kinds })
	return
}

// numText is the canonical text of a term over the operands.
func numText(t *Term) string {
	for t.op == "conv" || t.op == "ct" || t.op == "mki" {
		if numClassOf(t) == 'I' && numClassOf(t.args[0]) == 'F' {
			// to an integer: towards zero, unless it is one already
			x := numText(t.args[0])
			for _, f := range []string{"(Floor ", "(Ceil ", "(Trunc ", "(Round ", "(RoundToEven "} {
				if strings.HasPrefix(x, f) {
					return x
				}
			}
			return "(Trunc " + x + ")"
		}
		t = t.args[0]
	}
	switch t.op {
	case "const":
		if n, err := strconv.ParseFloat(t.s, 64); err == nil && n == float64(int(n)) {
			return strconv.Itoa(int(n))
		}
		return t.s
	case "zero":
		return "0"
	case "bin":
		var l []string
		for _, a := range t.args {
			l = append(l, numText(a))
		}
		if t.s == "+" || t.s == "*" {
			var all []string
			for _, x := range l {
				if strings.HasPrefix(x, "("+t.s+" ") && !strings.ContainsAny(x[1:len(x)-1], "()") {
					all = append(all, strings.Fields(x[len(t.s)+2:len(x)-1])...)
				} else {
					all = append(all, x)
				}
			}
			sort.Strings(all)
			l = all
		}
		return "(" + t.s + " " + strings.Join(l, " ") + ")"
	case "un":
		if t.s != "-" {
			break
		}
		return "(- 0 " + numText(t.args[0]) + ")"
	case "sym":
		if t.label != "" && strings.HasPrefix(t.label, "num:") {
			return t.label[4:]
		}
	}
	return t.String()
}

// numClassOf is the kind of number: I, F or 0.
func numClassOf(t *Term) byte {
	if t.typ == nil {
		return 0
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	switch {
	case !ok:
	case b.Info()&types.IsInteger != 0:
		return 'I'
	case b.Info()&types.IsFloat != 0:
		return 'F'
	}
	return 0
}

// numHyp is what is supposed of the operands: the rank of each text.
type numHyp map[string]int

// rank is the value of a term under the hypothesis, as far as comparisons go.
func (h numHyp) rank(t *Term) (int, bool) {
	x := numText(t)
	if n, ok := h[x]; ok {
		return n, true
	}
	if strings.HasPrefix(x, "(Trunc ") {
		return 0, false
	}
	if n, err := strconv.Atoi(x); err == nil {
		return n, true
	}
	for t.op == "conv" || t.op == "ct" || t.op == "mki" {
		t = t.args[0]
	}
	if t.op == "bin" && (t.s == "-" || t.s == "cmp") {
		a, ok1 := h.rank(t.args[0])
		b, ok2 := h.rank(t.args[1])
		switch {
		case !ok1 || !ok2:
		case a < b:
			return -1, true
		case a > b:
			return 1, true
		default:
			return 0, true
		}
	}
	return 0, false
}

// truth evaluates a condition: 1, 0, or -1 when it is about something else.
func (h numHyp) truth(t *Term) int {
	flip := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case "not":
		if v := h.truth(t.args[0]); v >= 0 {
			return 1 - v
		}
		return -1
	case "const":
		if t == tTrue || t == tFalse {
			return flip(t == tTrue)
		}
	case "bin", "eq":
		if len(t.args) != 2 {
			return -1
		}
		if t.op == "eq" || t.s == "==" || t.s == "!=" {
			if a, b := h.truth(t.args[0]), h.truth(t.args[1]); a >= 0 && b >= 0 {
				return flip((a == b) == (t.s != "!="))
			}
		}
		a, ok1 := h.rank(t.args[0])
		b, ok2 := h.rank(t.args[1])
		if !ok1 || !ok2 {
			return -1
		}
		if t.op == "eq" {
			return flip(a == b)
		}
		switch t.s {
		case "<":
			return flip(a < b)
		case "<=":
			return flip(a <= b)
		case ">":
			return flip(a > b)
		case ">=":
			return flip(a >= b)
		case "==":
			return flip(a == b)
		case "!=":
			return flip(a != b)
		}
	}
	return -1
}

// fits tells whether the path is possible under the hypothesis.
func (h numHyp) fits(st *State) bool {
	for t, v := range st.facts {
		k := h.truth(t)
		if k >= 0 && (v == 'T' && k == 0 || v == 'F' && k == 1) {
			return false
		}
	}
	return true
}

func (h numHyp) String() string {
	var k []string
	for n := range h {
		k = append(k, n)
	}
	sort.Slice(k, func(i, j int) bool {
		if h[k[i]] != h[k[j]] {
			return h[k[i]] < h[k[j]]
		}
		return k[i] < k[j]
	})
	out := ""
	for i, n := range k {
		if i > 0 {
			if h[k[i-1]] == h[n] {
				out += " = "
			} else {
				out += " < "
			}
		}
		out += n
	}
	return out
}

// numOrders lists the orders of the operands.
func numOrders(names []string, zero bool) (out []numHyp) {
	ranks := []int{-1, 0, 1}
	if len(names) < 3 && !zero {
		ranks = ranks[1:]
	}
	n := 1
	for range names {
		n *= len(ranks)
	}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		h := numHyp{}
		for j, k := 0, i; j < len(names); j, k = j+1, k/len(ranks) {
			h[names[j]] = ranks[k%len(ranks)]
		}
		if zero {
			h["0"] = 0
		}
		if s := h.String(); !seen[s] {
			seen[s] = true
			if !zero {
				// no comparison with a number tells anything
				for k := range h {
					h[k] += 1000
				}
			}
			out = append(out, h)
		}
	}
	return
}

func (c numCase) String() string {
	s := "(" + c.op
	for i, k := range c.kinds {
		s += " " + string("abc"[i]) + ":" + map[rune]string{'I': "integer", 'F': "float", 'R': "character", 'S': "string", 'Y': "symbol"}[k]
	}
	return s + ")"
}

func numRun(p *Prog, r *Report, c numCase) (bad []string) {
	b := p.Builtin(c.op)
	if b == nil || b.Fn == nil {
		return []string{"there is no such function"}
	}
	st := newState()
	d := newData(p, st)
	o := &opRun{p: p, r: r, s: d.s}
	var args []*Term
	var names []string
	for i, k := range c.kinds {
		n := string("abc"[i])
		obj := p.Main.Pkg.Scope().Lookup(map[rune]string{'I': "Integer", 'F': "Float", 'R': "Rune", 'S': "String", 'Y': "Symbol"}[k])
		if obj == nil {
			return []string{"no such type of numbers"}
		}
		if k == 'Y' {
			args = append(args, d.sym("sym-"+n))
			names = append(names, n)
			continue
		}
		x := tSym("num:"+c.op+c.kinds+":"+n, "num:"+n, obj.Type())
		names = append(names, n)
		args = append(args, d.boxed(x, obj.Type()))
	}
	cl := &Client{Concrete: true, Recursion: 8, MaxDepth: 40, Closed: true, Views: true}
	cl.KeepFact = func(t *Term) bool {
		return t.op == "eq" || t.op == "bin" || t.op == "not"
	}
	cl.OnLoad = func(e *Eng, st *State, addr *Term, site string, typ types.Type) *Term {
		return p.classes().field(addr, typ)
	}
	cl.OnCall = func(e *Eng, st *State, cc *Call) ([]Out, bool) {
		if outs, ok := modelReflect(st, cc); ok {
			return outs, ok
		}
		if outs, ok := modelSlices(e, st, cc); ok {
			return outs, ok
		}
		if f := cc.Callee; f != nil && f.Pkg != nil {
			switch n := f.Name(); f.Pkg.Pkg.Path() {
			case "math":
				if len(cc.Args) == 1 {
					return []Out{{St: st, Res: []*Term{mkTerm("bin", n, "", types.Typ[types.Float64], nil, cc.Args[0])}}}, true
				}
			case "strings":
				if n == "Compare" {
					return []Out{{St: st, Res: []*Term{mkTerm("bin", "cmp", "", types.Typ[types.Int], nil, cc.Args[0], cc.Args[1])}}}, true
				}
			case "cmp":
				if strings.HasPrefix(n, "Compare") {
					return []Out{{St: st, Res: []*Term{mkTerm("bin", "cmp", "", types.Typ[types.Int], nil, cc.Args[0], cc.Args[1])}}}, true
				}
				if strings.HasPrefix(n, "Less") {
					return []Out{{St: st, Res: []*Term{mkTerm("bin", "<", "", types.Typ[types.Bool], nil, cc.Args[0], cc.Args[1])}}}, true
				}
			}
		}
		outs, ok := modelRaise(e, st, cc)
		if ok {
			for _, x := range outs {
				x.St.mon["raised"] = "yes"
			}
		}
		return outs, ok
	}
	world := tSym("entry#world", "world", types.Typ[types.Int])
	if t := o.ptrTo("World"); t != nil {
		world = tSym("entry#world", "world", t)
		st.facts[world] = 'X'
	}
	e := newEng(p, cl)
	var hyps []numHyp
	switch {
	case c.parity != nil:
		for _, n := range []int{-1, 0, 1} {
			hyps = append(hyps, numHyp{"(% a 2)": n, "(& a 1)": n * n})
		}
	case c.modulo:
		for _, v := range []int{-1, 0, 1} {
			for _, n := range []int{-1, 0, 1} {
				hyps = append(hyps, numHyp{"(% a b)": v, "b": n})
			}
		}
	case c.byZero:
		for _, n := range []int{-1, 0, 1} {
			h := numHyp{names[len(names)-1]: n}
			for _, m := range names[1 : len(names)-1] {
				h[m] = 1
			}
			hyps = append(hyps, h)
		}
	case c.value != "":
		hyps = append(hyps, numHyp{})
	default:
		hyps = numOrders(names, len(names) == 1 && !c.alone)
	}
	exits := e.Run(b.Fn, o.argsFor(b.Fn, world, args...), nil, st)
	for _, h := range hyps {
		r.ob(1)
		want := c.value
		kind := c.kind
		switch {
		case c.parity != nil:
			want, kind = "nil", ""
			if c.parity(h["(% a 2)"]) {
				want = "t"
			}
		case c.byZero && h[names[len(names)-1]] == 0:
			want = "error"
		case c.modulo:
			want = "(% a b)"
			if v := h["(% a b)"]; v != 0 && v < 0 != (h["b"] < 0) {
				want = "(+ (% a b) b)"
			}
		case c.rel != nil:
			want = "t"
			ranks := []int{}
			for _, n := range names {
				ranks = append(ranks, h[n])
			}
			if len(names) == 1 {
				ranks = append(ranks, 0)
			}
			for i := 0; i+1 < len(ranks); i++ {
				cmp := 0
				if ranks[i] < ranks[i+1] {
					cmp = -1
				} else if ranks[i] > ranks[i+1] {
					cmp = 1
				}
				if !c.rel(cmp) {
					want = "nil"
				}
			}
		}
		got := map[string]bool{}
		signals := false
		for _, x := range exits {
			if !h.fits(x.St) {
				continue
			}
			if want != "error" && !c.anyway && x.St.mon["raised"] != "" {
				signals = true
			}
			switch {
			case x.Panic:
				got["a crash"] = true
			case failed(e, x):
				if er := unwrapTerm(x.Res[len(x.Res)-1]); !strings.Contains(er.String(), "pm:Err") {
					got["error"] = true
				}
			default:
				v := d.show(e, x.St, x.Res[0])
				if v != "t" && v != "nil" {
					v = numText(x.Res[0])
					if t := x.Res[0]; kind != "" && t.op == "mki" {
						if n, ok := t.typ.(*types.Named); !ok || n.Obj().Name() != kind {
							v = "no " + kind + " but a " + typeKey(t.typ) + " " + v
						} else if !numOp(t.args[0], n) {
							v = "computed with another type: " + v
						}
					}
				}
				got[v] = true
			}
		}
		if signals {
			bad = append(bad, "signals a condition although there is nothing wrong")
			continue
		}
		if c.modulo && got["(% (+ (% a b) b) b)"] && want != "error" {
			continue
		}
		if got[want] || c.anyway && got["nil"] {
			if len(got) > 1 {
				r.count("undecided", 1)
				r.sample("undecided: %s may be %v", c, got)
			}
			continue
		}
		var l []string
		for g := range got {
			l = append(l, g)
		}
		sort.Strings(l)
		if len(l) == 0 {
			l = []string{"nothing"}
		}
		when := ""
		if len(h) > 0 {
			when = " for " + h.String()
		}
		bad = append(bad, fmt.Sprintf("is %s and not %s%s", strings.Join(l, " or "), want, when))
	}
	if strings.Trim(c.kinds, "I") == "" && c.kinds != "" {
		// all integers: a detour over floating point numbers loses the last digits
		lossy := func(t *Term) bool {
			return t.op == "conv" && numClassOf(t) == 'F' && len(t.args) == 1 && numClassOf(t.args[0]) == 'I' && t.args[0].op != "const"
		}
		diff := func(t *Term) bool {
			return c.rel != nil && t.op == "bin" && t.s == "-" && numClassOf(t) == 'I'
		}
		for _, x := range exits {
			found := false
			for f := range x.St.facts {
				found = found || termHas(f, lossy)
				if termHas(f, diff) {
					bad = append(bad, "depends on a difference, which overflows for numbers far apart")
					return
				}
			}
			if !failed(e, x) && !x.Panic {
				found = found || termHas(x.Res[0], lossy)
			}
			if found {
				bad = append(bad, "is computed with floating point numbers, which do not have all integers")
				break
			}
		}
	}
	if c.rel != nil && strings.Contains(c.kinds, "F") {
		cut := func(t *Term) bool {
			return t.op == "conv" && numClassOf(t) == 'I' && len(t.args) == 1 && numClassOf(t.args[0]) == 'F'
		}
		for _, x := range exits {
			found := false
			for f := range x.St.facts {
				found = found || termHas(f, cut)
			}
			if found {
				bad = append(bad, "depends on the integer part of an operand")
				break
			}
		}
	}
	r.engine(e)
	return
}

// numOp tells whether every operation of the value is one of its type.
func numOp(t *Term, want types.Type) bool {
	for t.op == "conv" || t.op == "ct" {
		t = t.args[0]
	}
	if t.op != "bin" || t.typ == nil || len(t.args) < 2 {
		return true
	}
	b1, ok1 := t.typ.Underlying().(*types.Basic)
	b2, ok2 := want.Underlying().(*types.Basic)
	if ok1 && ok2 && (b1.Info()&types.IsFloat != 0) != (b2.Info()&types.IsFloat != 0) {
		return false
	}
	if ok1 && ok2 && b1.Info()&types.IsInteger != 0 {
		switch b1.Kind() {
		case types.Int, types.Int64:
		default:
			return false
		}
	}
	return true
}

func checkC16(p *Prog, r *Report) {
	for _, c := range numCases() {
		r.count("calls", 1)
		where := "-"
		if f := p.Builtin(c.op); f != nil && f.Fn != nil {
			where = p.pos(f.Fn.Pos())
		}
		for i, b := range numRun(p, r, c) {
			r.add(fmt.Sprintf("%s/%s/%d", c.op, c.kinds, i), where, "%s %s", c, b)
		}
	}
	r.floor("calls", 100)
}
