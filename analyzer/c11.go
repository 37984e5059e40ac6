package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// data makes values of Lisp from text and shows the values of a state.
type data struct {
	p      *Prog
	s      *shape
	syms   map[string]*Term // symbols and the like by name
	name   map[*Term]string
	text   []string
	made   map[string]*Term // values that were given a name: x=...
	fail   string
	real   bool // symbols are known by their names
	bigs   map[string]string
	raises bool // conditions are kept
	typed  bool // symbols that look like something else are shown in bars
}

func newData(p *Prog, st *State) *data {
	return &data{p: p, s: &shape{p: p, st: st}, syms: map[string]*Term{}, name: map[*Term]string{}, made: map[string]*Term{}}
}

func (d *data) integer(n int64) *Term {
	if obj := d.p.Main.Pkg.Scope().Lookup("Integer"); obj != nil {
		return d.boxed(tConst(strconv.FormatInt(n, 10), obj.Type()), obj.Type())
	}
	return nil
}

// boxed is the value as a Node: constants do not know their types.
func (d *data) boxed(v *Term, t types.Type) *Term {
	return mkTerm("mki", typeKey(t), "", t, nil, v)
}

// sym is an ordinary symbol.
func (d *data) sym(n string) *Term {
	if t := d.syms[n]; t != nil {
		return t
	}
	if d.real {
		return d.s.sym(n)
	}
	t := d.boxed(tConst(strconv.Itoa(5000+len(d.syms)), d.s.symT()), d.s.symT())
	d.syms[n] = t
	d.name[t.args[0]] = n
	return t
}

// structOf makes a value of the struct type: fields by their types.
func (d *data) structOf(name string, fields map[string]*Term) *Term {
	obj := d.p.Main.Pkg.Scope().Lookup(name)
	if obj == nil {
		d.fail = "no type " + name
		return nil
	}
	s, ok := obj.Type().Underlying().(*types.Struct)
	if !ok {
		d.fail = "no struct " + name
		return nil
	}
	args := make([]*Term, s.NumFields())
	n := 0
	for i := range args {
		args[i] = zeroTerm(s.Field(i).Type())
		if v, ok := fields[typeKey(s.Field(i).Type())]; ok {
			args[i] = v
			n++
		}
	}
	if n != len(fields) {
		d.fail = "other fields in " + name
	}
	return mkTerm("struct", typeKey(obj.Type()), "", obj.Type(), nil, args...)
}

// pointer puts the parts of a struct into a cell.
func (d *data) pointer(v *Term) *Term {
	if v == nil {
		return nil
	}
	d.s.n++
	id := "shape#" + strconv.Itoa(d.s.n) + ":" + typeKey(v.typ)
	base := mkTerm("cell", id, "", types.NewPointer(v.typ), nil)
	st := v.typ.Underlying().(*types.Struct)
	own := typeKey(v.typ)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		d.s.st.mem[mkTerm("fld", own+"."+f.Name(), "", types.NewPointer(f.Type()), nil, base)] = v.args[i]
	}
	d.s.st.esc[mkTerm("escid", id, "", nil, nil)] = false
	return d.boxed(base, base.typ)
}

// slice is a slice of all of an array.
func (d *data) slice(elem types.Type, l []*Term) *Term {
	d.s.n++
	at := types.NewArray(elem, int64(len(l)))
	cell := mkTerm("cell", "shape#"+strconv.Itoa(d.s.n)+":array"+strconv.Itoa(len(l))+typeKey(elem), "", types.NewPointer(at), nil)
	for i, v := range l {
		d.s.st.mem[mkTerm("idx", "", "", types.NewPointer(elem), nil, cell, tConst(strconv.Itoa(i), types.Typ[types.Int]))] = v
	}
	d.s.st.esc[mkTerm("escid", cell.s, "", nil, nil)] = false
	return mkTerm("slice", "full", "", types.NewSlice(elem), nil, cell)
}

// function is #'name.
func (d *data) function(n string) *Term {
	b := d.p.Builtin(n)
	if b == nil {
		d.fail = "there is no " + n
		return nil
	}
	var c *Term
	fn := mkTerm("fn", "", "", b.Fn.Type(), b.Fn)
	if k := map[string]string{"fun1": "Function1", "fun2": "Function2"}[b.Kind]; k != "" {
		obj := d.p.Main.Pkg.Scope().Lookup(k)
		if obj == nil {
			d.fail = "no type " + k
			return nil
		}
		c = mkTerm("mki", typeKey(obj.Type()), "", obj.Type(), nil, fn)
	} else if b.Kind == "funN" {
		var ft types.Type
		if obj := d.p.Main.Pkg.Scope().Lookup("Function"); obj != nil {
			if s, ok := obj.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if _, ok := s.Field(i).Type().Underlying().(*types.Signature); ok {
						ft = s.Field(i).Type()
					}
				}
			}
		}
		if ft == nil {
			d.fail = "no type Function"
			return nil
		}
		c = d.pointer(d.structOf("Function", map[string]*Term{typeKey(ft): fn}))
	}
	if c == nil {
		d.fail = "a function of another kind: " + n
		return nil
	}
	it := d.p.Main.Pkg.Scope().Lookup("Callable")
	if it == nil {
		d.fail = "no Callable"
		return nil
	}
	v := d.structOf("FunctionRef", map[string]*Term{typeKey(it.Type()): c})
	if v == nil {
		return nil
	}
	d.name[v] = "#'" + n
	return asNode(v)
}

// read makes the values of the text.
func (d *data) read(text string) (out []*Term) {
	r := strings.NewReplacer("(", " ( ", ")", " ) ")
	for _, w := range strings.Fields(r.Replace(text)) {
		if n := len(d.text); w == "(" && n > 0 && strings.Contains(d.text[n-1], "#") && !strings.Contains(d.text[n-1], "'") {
			d.text[n-1] += "("
			continue
		}
		d.text = append(d.text, w)
	}
	for len(d.text) > 0 {
		out = append(out, d.next())
	}
	return
}

func (d *data) next() *Term {
	w := d.text[0]
	d.text = d.text[1:]
	if t := d.literal(w); t != nil {
		return t
	}
	if n, v, ok := strings.Cut(w, "="); ok && n != "" {
		if v != "" {
			d.text = append([]string{v}, d.text...)
		}
		t := d.next()
		d.made[n] = t
		return t
	}
	switch {
	case w == "(" || w[0] == '#' && w[len(w)-1] == '(':
		var l []*Term
		tail := d.s.null()
		for len(d.text) > 0 && d.text[0] != ")" {
			if d.text[0] == "." {
				d.text = d.text[1:]
				tail = d.next()
				continue
			}
			l = append(l, d.next())
		}
		if len(d.text) > 0 {
			d.text = d.text[1:]
		}
		if w[0] == '#' {
			dim := strings.TrimSuffix(w[1:len(w)-1], ":")
			if dim == "" {
				dim = strconv.Itoa(len(l))
			}
			var dims []*Term
			for _, n := range strings.Split(dim, "x") {
				dims = append(dims, tConst(n, types.Typ[types.Int]))
			}
			node := d.s.node()
			intT := types.Typ[types.Int]
			return d.pointer(d.structOf("Array", map[string]*Term{
				typeKey(types.NewSlice(node)): d.slice(node, l),
				typeKey(types.NewSlice(intT)): d.slice(intT, dims),
			}))
		}
		for i := len(l) - 1; i >= 0; i-- {
			tail = d.s.cell("", l[i], tail)
		}
		return tail
	case w == "nil":
		return d.s.null()
	case w == "t":
		if t := d.p.globs[d.p.ModPath+".True"]; t != nil {
			return t
		}
		return nil
	case strings.HasPrefix(w, "#'"):
		return d.function(w[2:])
	case w[0] == '=':
		return d.made[w[1:]]
	}
	if n, err := strconv.ParseInt(w, 10, 64); err == nil {
		return d.integer(n)
	}
	return d.sym(w)
}

// show is the text of a value.
func (d *data) show(e *Eng, st *State, t *Term) string { return d.showN(e, st, t, 0) }

func (d *data) field(e *Eng, st *State, base *Term, typ, ft types.Type) *Term {
	s := typ.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), ft) {
			a := mkTerm("fld", typeKey(typ)+"."+s.Field(i).Name(), "", types.NewPointer(s.Field(i).Type()), nil, base)
			return e.Load(st, a, "show", s.Field(i).Type())
		}
	}
	return nil
}

// part is the Car or the Cdr of a cell.
func (d *data) part(e *Eng, st *State, t *Term, what string) *Term {
	pn := types.NewPointer(d.s.node())
	return e.Load(st, mkTerm("fld", "gmnlisp.Cons."+what, "", pn, nil, t.args[0]), "show", d.s.node())
}

func (d *data) elems(e *Eng, st *State, t *Term) (out []*Term, ok bool) {
	if t == nil {
		return nil, false
	}
	return e.elements(st, t)
}

func (d *data) showN(e *Eng, st *State, t *Term, depth int) string {
	if depth > 20 {
		return "..."
	}
	if t == d.s.null() {
		return "nil"
	}
	if t == d.p.globs[d.p.ModPath+".True"] {
		return "t"
	}
	if t.op != "mki" {
		if t.op == "nil" {
			return "no-value"
		}
		return t.String()
	}
	v := t.args[0]
	if n := d.name[v]; n != "" {
		return n
	}
	if s := d.showLiteral(t); s != "" {
		return s
	}
	if v.op == "const" {
		return v.s
	}
	scope := d.p.Main.Pkg.Scope()
	switch {
	case strings.HasSuffix(t.s, "._NullType"):
		return "nil"
	case strings.HasSuffix(t.s, "._TrueType"):
		return "t"
	case types.Identical(t.typ, types.NewPointer(d.s.consT())):
		var l []string
		for i := 0; i < 30 && t.op == "mki" && types.Identical(t.typ, types.NewPointer(d.s.consT())); i++ {
			l = append(l, d.showN(e, st, d.part(e, st, t, "Car"), depth+1))
			t = d.part(e, st, t, "Cdr")
		}
		if x := d.showN(e, st, t, depth+1); x != "nil" {
			l = append(l, ".", x)
		}
		return "(" + strings.Join(l, " ") + ")"
	}
	if obj := scope.Lookup("Array"); obj != nil && types.Identical(t.typ, types.NewPointer(obj.Type())) {
		list, ok1 := d.elems(e, st, d.field(e, st, v, obj.Type(), types.NewSlice(d.s.node())))
		dim, ok2 := d.elems(e, st, d.field(e, st, v, obj.Type(), types.NewSlice(types.Typ[types.Int])))
		if !ok1 || !ok2 {
			return "#?"
		}
		var l, n []string
		for _, x := range list {
			l = append(l, d.showN(e, st, x, depth+1))
		}
		for _, x := range dim {
			n = append(n, x.s)
		}
		pre := "#"
		if len(n) != 1 || n[0] != strconv.Itoa(len(l)) {
			pre = "#" + strings.Join(n, "x") + ":"
		}
		return pre + "(" + strings.Join(l, " ") + ")"
	}
	return t.String()
}

// spine collects the cells of a list.
func (d *data) spine(e *Eng, st *State, t *Term, out map[*Term]bool) {
	for i := 0; i < 30 && t.op == "mki" && types.Identical(t.typ, types.NewPointer(d.s.consT())); i++ {
		out[t.args[0]] = true
		t = d.part(e, st, t, "Cdr")
	}
}

// cells collects the cells of a value.
func (d *data) cells(e *Eng, st *State, t *Term, out map[*Term]bool) {
	for i := 0; i < 30 && t.op == "mki" && types.Identical(t.typ, types.NewPointer(d.s.consT())); i++ {
		out[t.args[0]] = true
		d.cells(e, st, d.part(e, st, t, "Car"), out)
		t = d.part(e, st, t, "Cdr")
	}
}

// a dataCase is a call and what comes of it.
type dataCase struct {
	op, args string
	want     string // "error", "=x" for the named argument itself
	after    string // the arguments after the call, when they change
}

func (c dataCase) String() string {
	return strings.ReplaceAll("("+strings.TrimSpace(c.op+" "+c.args)+")", " )", ")")
}

// dataCases reads lines: (op args) -> result [; args afterwards]
func dataCases(text string) (out []dataCase) {
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == ';' {
			continue
		}
		call, want, ok := strings.Cut(l, " -> ")
		if !ok {
			panic("no result in " + l)
		}
		want, after, _ := strings.Cut(want, " ; ")
		call = strings.TrimSuffix(strings.TrimPrefix(call, "("), ")")
		op, args, _ := strings.Cut(call, " ")
		out = append(out, dataCase{op, args, strings.TrimSpace(want), strings.TrimSpace(after)})
	}
	return
}

// dataRun interprets one call and says what is wrong with it.
func dataRun(p *Prog, r *Report, c dataCase) (bad []string) {
	b := p.Builtin(c.op)
	if b == nil || b.Fn == nil {
		return []string{"there is no such function"}
	}
	st := newState()
	d := newData(p, st)
	o := &opRun{p: p, r: r, s: d.s}
	args := d.read(c.args)
	if d.fail != "" {
		return []string{"undecided: " + d.fail}
	}
	min, max := b.Range()
	if len(args) < min || max >= 0 && len(args) > max {
		if c.want != "error" {
			bad = append(bad, fmt.Sprintf("does not take %d arguments", len(args)))
		}
		return
	}
	cl := &Client{Concrete: true, Recursion: 16, MaxDepth: 60, Closed: true, Views: true}
	cl.OnCall = func(e *Eng, st *State, cc *Call) ([]Out, bool) {
		if what, ok := p.evalOf(cc); ok && what == "eval" && len(cc.Args) == 3 {
			form := cc.Args[2]
			if form.op == "mki" {
				if n, ok := form.typ.(*types.Named); ok && n.Obj().Name() == "Uneval" {
					if v := form.args[0]; v.op == "struct" {
						return []Out{{St: st, Res: []*Term{v.args[0], tNil}}}, true
					}
				}
				if types.Identical(form.typ, types.NewPointer(d.s.consT())) {
					car, cdr := d.part(e, st, form, "Car"), d.part(e, st, form, "Cdr")
					if symText(p, car) == "quote" {
						return []Out{{St: st, Res: []*Term{d.part(e, st, cdr, "Car"), tNil}}}, true
					}
				}
			}
		}
		if outs, ok := modelReflect(st, cc); ok {
			return outs, ok
		}
		if outs, ok := modelSlices(e, st, cc); ok {
			return outs, ok
		}
		if f := cc.Callee; f != nil && len(cc.Args) >= 1 {
			if g := f.Origin(); g != nil {
				f = g
			}
			if f.Name() == "NewQuote" && f.Object() != nil && f.Object().Exported() {
				s := &shape{p: p, st: st, n: 100000 + o.quotes}
				o.quotes += 10
				return []Out{{St: st, Res: []*Term{s.list(s.sym("quote"), cc.Args[len(cc.Args)-1])}}}, true
			}
		}
		return modelRaise(e, st, cc)
	}
	world := tSym("entry#world", "world", types.Typ[types.Int])
	if t := o.ptrTo("World"); t != nil {
		world = tSym("entry#world", "world", t)
		st.facts[world] = 'X'
	}
	e := newEng(p, cl)
	before := make([]string, len(args))
	for i, a := range args {
		before[i] = d.show(e, st, a)
	}
	if c.after != "" {
		n := d.s.n
		d2 := newData(p, st)
		d2.s.n = n + 1000
		d2.syms, d2.name = d.syms, d.name
		before = nil
		for _, a := range d2.read(c.after) {
			before = append(before, d.show(e, st, a))
		}
	}
	ways, good := 0, 0
	for _, x := range e.Run(b.Fn, o.argsFor(b.Fn, world, args...), nil, st) {
		r.ob(1)
		if x.Panic {
			bad = append(bad, "crashes")
			continue
		}
		ways++
		if failed(e, x) {
			er := unwrapTerm(x.Res[len(x.Res)-1])
			if strings.Contains(er.String(), "pm:Err") {
				continue
			}
			if c.want != "error" {
				bad = append(bad, "ends in an error")
			} else {
				good++
			}
			continue
		}
		n := len(bad)
		got := d.show(e, x.St, x.Res[0])
		want := c.want
		if strings.HasPrefix(want, "~") {
			// a list of new cells, but for the tail that is named
			tail, rest, _ := strings.Cut(want[1:], " ")
			want = rest
			own := map[*Term]bool{}
			for _, a := range args {
				d.cells(e, st, a, own)
			}
			spine := map[*Term]bool{}
			d.spine(e, x.St, x.Res[0], spine)
			keep := map[*Term]bool{}
			if t := d.made[tail]; t != nil {
				d.spine(e, st, t, keep)
				for c := range keep {
					if !spine[c] {
						bad = append(bad, fmt.Sprintf("returns %s that does not end in its argument %s itself", got, tail))
						break
					}
				}
			}
			for c := range spine {
				if own[c] && !keep[c] {
					bad = append(bad, fmt.Sprintf("returns %s made of cells of its arguments", got))
					break
				}
			}
		}
		switch {
		case c.want == "error":
			bad = append(bad, fmt.Sprintf("returns %s, and there is no error", got))
		case strings.HasPrefix(want, "="):
			if x.Res[0] != d.made[c.want[1:]] {
				bad = append(bad, fmt.Sprintf("returns %s, and not the argument %s itself", got, c.want[1:]))
			}
		case got != want:
			bad = append(bad, fmt.Sprintf("returns %s, not %s", got, want))
		}
		var after []string
		for _, a := range args {
			after = append(after, d.show(e, x.St, a))
		}
		if a, b := strings.Join(after, " "), strings.Join(before, " "); a != b {
			bad = append(bad, fmt.Sprintf("leaves its arguments as %s, not %s", a, b))
		}
		if n == len(bad) {
			good++
		}
	}
	if good > 0 && len(bad) > 0 {
		// all that matters is known: a way that is wrong beside one that is
		// right comes from a library function that is not followed
		r.count("undecided", 1)
		r.sample("undecided: %s: %s", c, bad[0])
		bad = nil
	}
	if ways == 0 {
		bad = append(bad, "has no way out")
	}
	r.engine(e)
	sort.Strings(bad)
	return
}

const listCases = `
(car (S1 S2)) -> S1
(car (S1 . S2)) -> S1
(car nil) -> error
(car S1) -> error
(cdr (S1 S2)) -> (S2)
(cdr (S1)) -> nil
(cdr (S1 . S2)) -> S2
(cdr nil) -> error
(cons S1 S2) -> (S1 . S2)
(cons S1 (S2 S3)) -> (S1 S2 S3)
(cons (S1) nil) -> ((S1))
(list) -> nil
(list S1) -> ~ (S1)
(list S1 (S2) nil) -> ~ (S1 (S2) nil)
(append) -> nil
(append x=(S1 S2)) -> =x
(append S1) -> S1
(append (S1 S2) x=(S3)) -> ~x (S1 S2 S3)
(append (S1) (S2) x=(S3)) -> ~x (S1 S2 S3)
(append (S1 S2) nil) -> ~ (S1 S2)
(append nil x=(S1 S2)) -> =x
(append nil nil) -> nil
(append (S1 S2) S3) -> (S1 S2 . S3)
(append (S1) nil (S2 (S3)) nil x=(S4)) -> ~x (S1 S2 (S3) S4)
(append S1 (S2)) -> error
(append (S1 . S2) (S3)) -> error
(reverse nil) -> nil
(reverse (S1)) -> ~ (S1)
(reverse (S1 S2 (S3 S4) S5)) -> ~ (S5 (S3 S4) S2 S1)
(reverse (S1 . S2)) -> error
(nreverse nil) -> nil
(member S1 nil) -> nil
(member S3 (S1 S2)) -> nil
(member S2 (S1 S2 S3)) -> (S2 S3)
(member S1 x=(S1 S2)) -> =x
(member S2 (S1 S2 S2 S3)) -> (S2 S2 S3)
(member 2 (1 2 3)) -> (2 3)
(member nil (S1 nil S2)) -> (nil S2)
(assoc S1 nil) -> nil
(assoc S2 ((S1 . S3) x=(S2 . S4) (S2 . S5))) -> =x
(assoc S3 ((S1 . S3) (S2 S3))) -> nil
(assoc 2 ((1 . S1) (2 S2))) -> (2 S2)
(assoc nil ((S1 . S2) (nil . S3))) -> (nil . S3)
(assoc S1 (S1)) -> error
(assoc (S1) (((S1) . S2))) -> nil
(member (S1) ((S1))) -> nil
(equal #2x3:(S1 S2 S3 S4 S5 S6) #3x2:(S1 S2 S3 S4 S5 S6)) -> nil
(equal #2x3:(S1 S2 S3 S4 S5 S6) #2x3:(S1 S2 S3 S4 S5 S6)) -> t
(equal #2x2:(S1 S2 S3 S4) #(S1 S2 S3 S4)) -> nil
(last (S1 S2 S3)) -> S3
(length nil) -> 0
(length (S1)) -> 1
(length (S1 (S2 S3) S4)) -> 3
(elt (S1 S2 S3) 0) -> S1
(elt (S1 S2 S3) 1) -> S2
(elt (S1 S2 S3) 2) -> S3
(elt (S1 (S2 S3)) 1 1) -> S3
(elt #(S1 S2 S3) 0) -> S1
(elt #(S1 S2 S3) 2) -> S3
(elt (S1 #(S2 S3)) 1 0) -> S2
(subseq (S1 S2 S3 S4) 0 4) -> ~ (S1 S2 S3 S4)
(subseq (S1 S2 S3 S4) 1 3) -> ~ (S2 S3)
(subseq (S1 S2 S3 S4) 0 1) -> ~ (S1)
(subseq (S1 S2 S3 S4) 3 4) -> ~ (S4)
(subseq (S1 S2) 1 1) -> nil
(subseq nil 0 0) -> nil
(create-list 0 S1) -> nil
(create-list S1 S1) -> error
(elt (S1 S2) -1) -> error
(elt #(S1 S2) 2) -> error
(elt #(S1 S2) -1) -> error
(length #(S1 S2)) -> 2
(length #()) -> 0
(length S1) -> error
(length (S1 . S2)) -> error
(reverse #(S1)) -> error
(create-list 1 S1) -> (S1)
(create-list 3 S1) -> (S1 S1 S1)
(set-car S1 (S2 S3)) -> S1 ; S1 (S1 S3)
(set-cdr S1 (S2 S3)) -> S1 ; S1 (S2 . S1)
(set-car S1 nil) -> error
(set-cdr S1 nil) -> error
(set-car nil (S2)) -> nil ; nil (nil)
(set-cdr nil (S2 S3)) -> nil ; nil (S2)
(consp (S1)) -> t
(consp nil) -> nil
(consp S1) -> nil
(listp (S1)) -> t
(listp (S1 . S2)) -> t
(listp nil) -> t
(listp S1) -> nil
(listp #(S1)) -> nil
(eq S1 S1) -> t
(eq S1 S2) -> nil
(eq nil nil) -> t
(eq x=(S1) =x) -> t
(eq (S1) (S1)) -> nil
(eq #(S1) #(S1)) -> nil
(eq nil S1) -> nil
(eql 1 1) -> t
(eql 1 2) -> nil
(eql S1 S1) -> t
(eql (S1) (S1)) -> nil
(eql x=(S1) =x) -> t
(eql nil nil) -> t
(equal (S1 (S2 1)) (S1 (S2 1))) -> t
(equal (S1 (S2 1)) (S1 (S2 2))) -> nil
(equal (S1 S2) (S1)) -> nil
(equal (S1) (S1 S2)) -> nil
(equal (S1 . S2) (S1 . S2)) -> t
(equal (S1 . S2) (S1 S2)) -> nil
(equal nil nil) -> t
(equal nil (S1)) -> nil
(equal (nil) nil) -> nil
(equal #(S1 S2) #(S1 S2)) -> t
(equal #(S1 S2) #(S1 S3)) -> nil
(equal #(S1) #(S1 S2)) -> nil
(equal #(S1) (S1)) -> nil
(equal (#(S1)) (#(S1))) -> t
(equal 1 1) -> t
(equal S1 1) -> nil
(aref #(S1 S2) 0) -> S1
(aref #(S1 S2) 1) -> S2
(aref #(S1 S2) 2) -> error
(aref #(S1 S2) -1) -> error
(set-aref S9 #(S1 S2) 0) -> S9 ; S9 #(S9 S2) 0
(set-aref S9 #(S1 S2) 1) -> S9 ; S9 #(S1 S9) 1
(set-aref S9 #(S1 S2) 2) -> error
(set-aref S9 #(S1 S2) -1) -> error
(array-dimensions #(S1 S2)) -> (2)
(array-dimensions #2x3:(S1 S2 S3 S4 S5 S6)) -> (2 3)
(aref #2x3:(S1 S2 S3 S4 S5 S6) 0 0) -> S1
(aref #2x3:(S1 S2 S3 S4 S5 S6) 0 2) -> S3
(aref #2x3:(S1 S2 S3 S4 S5 S6) 1 0) -> S4
(aref #2x3:(S1 S2 S3 S4 S5 S6) 1 1) -> S5
(aref #2x3:(S1 S2 S3 S4 S5 S6) 0 3) -> error
(aref #2x3:(S1 S2 S3 S4 S5 S6) 2 0) -> error
(aref #2x3:(S1 S2 S3 S4 S5 S6) 1 -1) -> error
(aref #2x2x2:(S1 S2 S3 S4 S5 S6 S7 S8) 0 1 1) -> S4
(aref #2x2x2:(S1 S2 S3 S4 S5 S6 S7 S8) 1 0 1) -> S6
(aref #2x2x2:(S1 S2 S3 S4 S5 S6 S7 S8) 1 1 0) -> S7
(elt #2x3:(S1 S2 S3 S4 S5 S6) 1 2) -> S6
(elt #2x3:(S1 S2 S3 S4 S5 S6) 1) -> #(S4 S5 S6)
(set-aref S9 #2x3:(S1 S2 S3 S4 S5 S6) 1 0) -> S9 ; S9 #2x3:(S1 S2 S3 S9 S5 S6) 1 0
(set-aref S9 #2x3:(S1 S2 S3 S4 S5 S6) 0 2) -> S9 ; S9 #2x3:(S1 S2 S9 S4 S5 S6) 0 2
(set-aref S9 #2x2x2:(S1 S2 S3 S4 S5 S6 S7 S8) 1 0 1) -> S9 ; S9 #2x2x2:(S1 S2 S3 S4 S5 S9 S7 S8) 1 0 1
(set-aref S9 #2x3:(S1 S2 S3 S4 S5 S6) 0 3) -> error
(set-aref S9 #2x3:(S1 S2 S3 S4 S5 S6) 2 0) -> error
(elt #2x2x2:(S1 S2 S3 S4 S5 S6 S7 S8) 1) -> #2x2:(S5 S6 S7 S8)
(elt #2x2x2:(S1 S2 S3 S4 S5 S6 S7 S8) 1 0) -> #(S5 S6)
(create-array (2 3) S1) -> #2x3:(S1 S1 S1 S1 S1 S1)
(create-array (2) S1) -> #(S1 S1)
(general-array*-p (S1)) -> nil
(eq) -> error
(general-array*-p #(S1)) -> nil
(null nil) -> t
(null S1) -> nil
(null (nil)) -> nil
(null 0) -> nil
(not nil) -> t
(not 0) -> nil
(symbolp S1) -> t
(symbolp nil) -> t
(symbolp (S1)) -> nil
(symbolp 1) -> nil
(vector) -> #()
(vector S1 S2) -> #(S1 S2)
(mapcar #'car ((S1 S2) (S3))) -> ~ (S1 S3)
(mapcar #'cons (S1 S2) (S3 S4)) -> ((S1 . S3) (S2 . S4))
(mapcar #'cons (S1 S2 S5) (S3 S4)) -> ((S1 . S3) (S2 . S4))
(mapcar #'cons (S1) (S3 S4)) -> ((S1 . S3))
(mapcar #'list (S1 S2) (S3 S4) (S5 S6)) -> ~ ((S1 S3 S5) (S2 S4 S6))
(mapcar #'car nil) -> nil
(mapcar #'cons nil (S1)) -> nil
(mapcar #'not (nil S1 nil)) -> ~ (t nil t)
(mapcar #'car ((S1) S2)) -> error
(mapc #'car x=((S1) (S2))) -> =x
(mapc #'cons x=(S1 S2) (S3)) -> =x
(mapc #'car (S1)) -> error
(mapcan #'list (S1 S2) (S3 S4)) -> (S1 S3 S2 S4)
(mapcan #'cdr ((S1) (S2 S3) (S4) (S5 S6 S7))) -> (S3 S6 S7)
(maplist #'car (S1 S2 S3)) -> ~ (S1 S2 S3)
(maplist #'reverse (S1 S2 S3)) -> ~ ((S3 S2 S1) (S3 S2) (S3))
(maplist #'list (S1 S2) (S3 S4)) -> ~ (((S1 S2) (S3 S4)) ((S2) (S4)))
(maplist #'list (S1 S2) (S3)) -> ~ (((S1 S2) (S3)))
(maplist #'car nil) -> nil
(mapl #'car x=(S1 S2)) -> =x
(mapcon #'list (S1 S2)) -> ((S1 S2) (S2))
(mapcon #'reverse (S1 S2 S3)) -> (S3 S2 S1 S3 S2 S3)
`

func checkC11(p *Prog, r *Report) {
	for _, c := range dataCases(listCases) {
		r.count("calls", 1)
		for _, b := range dataRun(p, r, c) {
			key := c.op + "/" + strings.ReplaceAll(c.args, " ", "_")
			where := "-"
			if f := p.Builtin(c.op); f != nil && f.Fn != nil {
				where = p.pos(f.Fn.Pos())
			}
			r.add(key, where, "%s %s", c, b)
		}
	}
	r.floor("calls", 150)
}

var reflectTypes = map[string]int{}

// modelReflect answers what package reflect says about known values.
func modelReflect(st *State, cc *Call) ([]Out, bool) {
	rtype := func(t types.Type) *Term {
		n := reflectTypes[typeKey(t)]
		if n == 0 {
			n = len(reflectTypes) + 1
			reflectTypes[typeKey(t)] = n
		}
		return mkTerm("mki", "reflect.type:"+typeKey(t), "", t, nil, tConst(strconv.Itoa(n), types.Typ[types.Int]))
	}
	if m := cc.Method; m != nil && len(cc.Args) == 1 && strings.HasPrefix(cc.Args[0].s, "reflect.type:") {
		t := cc.Args[0].typ
		switch m.Name() {
		case "Elem":
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				return []Out{{St: st, Res: []*Term{rtype(pt.Elem())}}}, true
			}
		case "Kind":
			if k := reflectKind(t); k >= 0 {
				return []Out{{St: st, Res: []*Term{tConst(strconv.Itoa(k), cc.ResultType().At(0).Type())}}}, true
			}
		}
		return nil, false
	}
	f := cc.Callee
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "reflect" || len(cc.Args) != 1 {
		return nil, false
	}
	rt := cc.ResultType().At(0).Type()
	v := cc.Args[0]
	if f.Name() == "ValueOf" {
		return []Out{{St: st, Res: []*Term{mkTerm("reflected", "", "", rt, nil, v)}}}, true
	}
	if f.Name() == "TypeOf" && v.op == "mki" {
		return []Out{{St: st, Res: []*Term{rtype(v.typ)}}}, true
	}
	if v.op != "reflected" {
		return nil, false
	}
	v = v.args[0]
	one := func(t *Term) ([]Out, bool) { return []Out{{St: st, Res: []*Term{t}}}, true }
	truth := func(b bool) ([]Out, bool) {
		if b {
			return one(tTrue)
		}
		return one(tFalse)
	}
	switch {
	case f.Name() == "IsValid" && v.op == "nil":
		return one(tFalse)
	case v.op != "mki":
		return nil, false
	case f.Name() == "IsValid":
		return one(tTrue)
	case f.Name() == "Type":
		return one(rtype(v.typ))
	case f.Name() == "Comparable":
		// of pointers, numbers, and structs of these; an interface inside depends on its value
		switch u := v.typ.Underlying().(type) {
		case *types.Pointer, *types.Basic, *types.Chan:
			return one(tTrue)
		case *types.Slice, *types.Map, *types.Signature:
			return one(tFalse)
		case *types.Struct:
			ok := true
			for i := 0; i < u.NumFields(); i++ {
				switch u.Field(i).Type().Underlying().(type) {
				case *types.Pointer, *types.Basic:
				default:
					ok = false
				}
			}
			if ok {
				return one(tTrue)
			}
		}
	case f.Name() == "Kind":
		if k := reflectKind(v.typ); k >= 0 {
			return one(tConst(strconv.Itoa(k), rt))
		}
	case f.Name() == "IsNil":
		switch v.typ.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Signature:
			return truth(v.args[0].op == "nil")
		}
	}
	return nil, false
}

func reflectKind(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return int(reflect.Pointer)
	case *types.Map:
		return int(reflect.Map)
	case *types.Slice:
		return int(reflect.Slice)
	case *types.Struct:
		return int(reflect.Struct)
	case *types.Signature:
		return int(reflect.Func)
	case *types.Basic:
		switch u.Kind() {
		case types.Int:
			return int(reflect.Int)
		case types.Int64:
			return int(reflect.Int64)
		case types.Int32:
			return int(reflect.Int32)
		case types.Float64:
			return int(reflect.Float64)
		case types.String:
			return int(reflect.String)
		case types.Bool:
			return int(reflect.Bool)
		}
	}
	return -1
}

// modelSlices follows the functions of package slices that are not more than loops.
func modelSlices(e *Eng, st *State, cc *Call) ([]Out, bool) {
	f := cc.Callee
	if f == nil {
		return nil, false
	}
	if g := f.Origin(); g != nil {
		f = g
	}
	if f.Pkg == nil || f.Pkg.Pkg.Path() != "slices" {
		return nil, false
	}
	var l [][]*Term
	for _, a := range cc.Args {
		x, ok := e.elements(st, a)
		if !ok {
			break
		}
		l = append(l, x)
	}
	switch f.Name() {
	case "Equal":
		if len(l) != 2 {
			return nil, false
		}
		if len(l[0]) != len(l[1]) {
			return []Out{{St: st, Res: []*Term{tFalse}}}, true
		}
		for i, x := range l[0] {
			y := l[1][i]
			if x.op != "const" || y.op != "const" {
				return nil, false
			}
			if x.s != y.s {
				return []Out{{St: st, Res: []*Term{tFalse}}}, true
			}
		}
		return []Out{{St: st, Res: []*Term{tTrue}}}, true
	case "Clone":
		if len(l) == 1 {
			return []Out{{St: st, Res: []*Term{mkTerm("slist", "", "", cc.Args[0].typ, nil, l[0]...)}}}, true
		}
	case "Reverse":
		if a := cc.Args[0]; len(l) == 1 && a.op == "slice" && (a.s == "full" || a.s == "view") {
			lo := 0
			if a.s == "view" {
				lo, _ = strconv.Atoi(a.args[1].s)
			}
			for i, x := range l[0] {
				e.store(st, mkTerm("idx", "", "", nil, nil, a.args[0], tConst(strconv.Itoa(lo+len(l[0])-1-i), types.Typ[types.Int])), x)
			}
			return []Out{{St: st}}, true
		}
	}
	return nil, false
}
