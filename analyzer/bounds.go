package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The interprocedural part of the bounds analysis: what every caller
// establishes about the parameters of a function, found by iterating over all
// call sites from the callers' own states (nothing is assumed of functions
// that Go programs outside the repository may call with any argument).

type zEntry struct{ c map[[2]string]int64 }

func (a *zEntry) same(b *zEntry) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil {
		return true
	}
	if len(a.c) != len(b.c) {
		return false
	}
	for k, v := range a.c {
		if w, ok := b.c[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func (a *zEntry) join(b *zEntry) *zEntry {
	if a == nil {
		return b
	}
	n := &zEntry{map[[2]string]int64{}}
	for k, v := range a.c {
		if w, ok := b.c[k]; ok {
			if w > v {
				v = w
			}
			n.c[k] = v
		}
	}
	return n
}

// fieldLit is one composite literal storing a function in a field.
type fieldLit struct {
	owner  string // type
	field  string
	fn     *ssa.Function
	consts map[string]int64 // other fields: "C" -> value, "len:types" -> length
}

// zCtx is a function together with the functions bound to its parameters.
type zCtx struct {
	fn   *ssa.Function
	bind string
}

type Bounds struct {
	p     *Prog
	z     *Zones
	entry map[zCtx]*zEntry
	lits  []*fieldLit
	binds map[zCtx]map[ssa.Value]*ssa.Function
	inLit map[*ssa.Function]bool // function values only ever stored in known fields
	addr  []*ssa.Function        // other functions used as values
	calls int
	res   map[zCtx]map[ssa.Instruction]*boundsOb
}

func newBounds(p *Prog) *Bounds {
	b := &Bounds{p: p, z: newZones(p), entry: map[zCtx]*zEntry{}, binds: map[zCtx]map[ssa.Value]*ssa.Function{}, inLit: map[*ssa.Function]bool{}, res: map[zCtx]map[ssa.Instruction]*boundsOb{}}
	b.scan()
	b.fix()
	return b
}

func structOf(t types.Type) (*types.Struct, types.Type) {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s, t
}

// litFields finds what is stored in the fields of a struct under construction.
func litFields(base ssa.Value) map[string]ssa.Value {
	out := map[string]ssa.Value{}
	s, _ := structOf(base.Type())
	for _, r := range *base.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		for _, rr := range *fa.Referrers() {
			if st, ok := rr.(*ssa.Store); ok && st.Addr == fa {
				n := s.Field(fa.Field).Name()
				if _, dup := out[n]; dup {
					out[n] = nil // more than once
				} else {
					out[n] = st.Val
				}
			}
		}
	}
	return out
}

func (b *Bounds) scan() {
	type use struct{ lit, other bool }
	uses := map[*ssa.Function]*use{}
	get := func(f *ssa.Function) *use {
		if uses[f] == nil {
			uses[f] = &use{}
		}
		return uses[f]
	}
	for _, f := range b.p.All {
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					for _, r := range *mc.Referrers() {
						if c, ok := r.(ssa.CallInstruction); ok && c.Common().Value == mc {
							continue
						}
						if st, ok := r.(*ssa.Store); ok && b.storeLit(st, g) {
							get(g).lit = true
							continue
						}
						if ct, ok := r.(*ssa.ChangeType); ok {
							_ = ct
						}
						if _, ok := r.(*ssa.DebugRef); ok {
							continue
						}
						get(g).other = true
					}
					continue
				}
				for i, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && i == 0 && c.Common().Value == g {
						continue
					}
					if st, ok := in.(*ssa.Store); ok && b.storeLit(st, g) {
						get(g).lit = true
						continue
					}
					get(g).other = true
				}
			}
		}
	}
	for g, u := range uses {
		if u.other {
			b.addr = append(b.addr, g)
		}
	}
	sort.Slice(b.addr, func(i, j int) bool { return b.addr[i].Pos() < b.addr[j].Pos() })
}

func (b *Bounds) storeLit(st *ssa.Store, g *ssa.Function) bool {
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	s, t := structOf(fa.X.Type())
	name := s.Field(fa.Field).Name()
	if _, ok := s.Field(fa.Field).Type().Underlying().(*types.Signature); !ok {
		return false
	}
	l := &fieldLit{owner: typeKey(t), field: name, fn: g, consts: map[string]int64{}}
	if al, ok := fa.X.(*ssa.Alloc); ok {
		fs := litFields(al)
		for i := 0; i < s.NumFields(); i++ {
			fl := s.Field(i)
			v, set := fs[fl.Name()]
			switch {
			case isIntT(fl.Type()):
				if !set {
					l.consts[fl.Name()] = 0
				} else if c, ok := v.(*ssa.Const); ok && c.Value != nil {
					if n, ok := constant.Int64Val(c.Value); ok {
						l.consts[fl.Name()] = n
					}
				}
			case hasLen(fl.Type()):
				if !set {
					l.consts["len:"+fl.Name()] = 0
				} else if v != nil {
					if sl, ok := v.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
						if n, ok := arrayLen(sl.X.Type()); ok {
							l.consts["len:"+fl.Name()] = n
						}
					}
				}
			}
		}
	}
	b.lits = append(b.lits, l)
	return true
}

func (b *Bounds) paramKeys(g *ssa.Function) map[string]int {
	out := map[string]int{}
	for i, pa := range g.Params {
		if hasLen(pa.Type()) {
			out["len:"+pa.Name()] = i
		} else if isIntT(pa.Type()) {
			out[pa.Name()] = i
		}
	}
	return out
}

// contribute joins the state at a call into the callee's entry facts.
func (b *Bounds) contribute(f *zFn, st *zState, g *ssa.Function, args []ssa.Value, next map[zCtx]*zEntry) {
	if len(g.Blocks) == 0 || !b.p.inRepo(g) {
		return
	}
	key := zCtx{fn: g}
	if len(args) != len(g.Params) {
		// a method expression or bound method: nothing is known
		next[key] = &zEntry{map[[2]string]int64{}}
		return
	}
	bind := map[ssa.Value]*ssa.Function{}
	for i, pa := range g.Params {
		if _, ok := pa.Type().Underlying().(*types.Signature); !ok {
			continue
		}
		h := unFunc(args[i])
		if h == nil {
			h = f.spec.bind[args[i]]
		}
		if h != nil {
			bind[pa] = h
			key.bind += fmt.Sprint(i, "=", h.String(), "@", h.Pos(), ";")
		}
	}
	if key.bind != "" {
		b.binds[key] = bind
	}
	type vv struct {
		x int
		a int64
	}
	val := map[string]vv{"0": {0, 0}}
	for k, i := range b.paramKeys(g) {
		if strings.HasPrefix(k, "len:") {
			x, a := f.length(args[i])
			val[k] = vv{x, a}
		} else {
			x, a := f.num(args[i])
			val[k] = vv{x, a}
		}
	}
	e := &zEntry{map[[2]string]int64{}}
	for k1, v1 := range val {
		for k2, v2 := range val {
			if k1 == k2 {
				continue
			}
			d := st.get(v1.x, v2.x)
			if d == zInf {
				continue
			}
			e.c[[2]string{k1, k2}] = d + v1.a - v2.a
		}
	}
	next[key] = next[key].join(e)
}

// widenEntry bounds the ascending chain of the fixpoint.
func widenEntry(old, new *zEntry) *zEntry {
	if old == nil {
		return new
	}
	n := &zEntry{map[[2]string]int64{}}
	for k, v := range old.c {
		if w, ok := new.c[k]; ok && w <= v {
			n.c[k] = v
		}
	}
	return n
}

func sameSig(a, b *types.Signature) bool {
	if a.Params().Len() != b.Params().Len() || a.Results().Len() != b.Results().Len() {
		return false
	}
	for i := 0; i < a.Params().Len(); i++ {
		if !types.Identical(a.Params().At(i).Type(), b.Params().At(i).Type()) {
			return false
		}
	}
	return true
}

// specs is how a function is analysed: once for each literal whose constant
// fields its receiver may hold when it calls the function stored there.
func (b *Bounds) specs(k zCtx) []*zSpec {
	fn := k.fn
	base := &zSpec{fn: fn, entry: b.entry[k], bind: b.binds[k]}
	owner, field := b.dispatches(fn)
	if owner == "" {
		return []*zSpec{base}
	}
	recv := fn.Params[0].Name()
	seen := map[string]bool{}
	var out []*zSpec
	for _, l := range b.lits {
		if l.owner != owner || l.field != field {
			continue
		}
		fs := map[string]int64{}
		var ks []string
		for k, v := range l.consts {
			n := "ld(" + recv + "." + strings.TrimPrefix(k, "len:") + ")"
			if strings.HasPrefix(k, "len:") {
				n = "len:" + n
			}
			fs[n] = v
			ks = append(ks, fmt.Sprint(k, "=", v))
		}
		sort.Strings(ks)
		key := strings.Join(ks, ",")
		if seen[key] {
			continue
		}
		seen[key] = true
		out = append(out, &zSpec{fn: fn, entry: b.entry[k], bind: b.binds[k], fields: fs, lit: key})
	}
	// and once for values built elsewhere (by Go programs using the library)
	out = append(out, base)
	return out
}

func litKey(l *fieldLit) string {
	var ks []string
	for k, v := range l.consts {
		ks = append(ks, fmt.Sprint(k, "=", v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// dispatches says that a method calls a function held in a field of its
// receiver, and which.
func (b *Bounds) dispatches(fn *ssa.Function) (string, string) {
	if fn.Signature.Recv() == nil || len(fn.Params) == 0 {
		return "", ""
	}
	for _, bl := range fn.Blocks {
		for _, in := range bl.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok || c.Common().IsInvoke() {
				continue
			}
			base, owner, field := fieldLoad(c.Common().Value)
			if base == fn.Params[0] {
				return owner, field
			}
		}
	}
	return "", ""
}

// fieldLoad recognises a value loaded from a struct field.
func fieldLoad(v ssa.Value) (ssa.Value, string, string) {
	switch u := v.(type) {
	case *ssa.UnOp:
		if fa, ok := u.X.(*ssa.FieldAddr); ok && u.Op == token.MUL {
			s, t := structOf(fa.X.Type())
			return fa.X, typeKey(t), s.Field(fa.Field).Name()
		}
	case *ssa.Field:
		s := u.X.Type().Underlying().(*types.Struct)
		return u.X, typeKey(u.X.Type()), s.Field(u.Field).Name()
	case *ssa.ChangeType:
		return fieldLoad(u.X)
	}
	return nil, "", ""
}

func (b *Bounds) siteContrib(f *zFn, in ssa.Instruction, st *zState, next map[zCtx]*zEntry) {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return
	}
	cc := ci.Common()
	if cc.IsInvoke() {
		for _, m := range b.p.graph().callees(ci) {
			b.contribute(f, st, m, append([]ssa.Value{cc.Value}, cc.Args...), next)
		}
		return
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return
	}
	if g := cc.StaticCallee(); g != nil {
		b.contribute(f, st, g, cc.Args, next)
		// a function value given to code outside the repository may be called with anything
		if !b.p.inRepo(g) {
			for _, a := range cc.Args {
				if h := unFunc(a); h != nil {
					next[zCtx{fn: h}] = &zEntry{map[[2]string]int64{}}
				}
			}
		}
		return
	}
	sig := cc.Signature()
	if h := f.spec.bind[cc.Value]; h != nil {
		b.contribute(f, st, h, cc.Args, next)
		return
	}
	base, owner, field := fieldLoad(cc.Value)
	for _, l := range b.lits {
		if base != nil && (l.owner != owner || l.field != field) {
			continue
		}
		if base == nil && !sameSig(l.fn.Signature, sig) {
			continue
		}
		if base == nil {
			// loaded elsewhere and passed on: no constants known
			b.contribute(f, st, l.fn, cc.Args, next)
			continue
		}
		if len(f.fn.Params) > 0 && base == f.fn.Params[0] && f.fn.Signature.Recv() != nil {
			if f.spec.lit != litKey(l) {
				continue
			}
			b.contribute(f, st, l.fn, cc.Args, next)
			continue
		}
		s := st.clone()
		for k, n := range l.consts {
			dep := map[ssa.Value]bool{}
			key := "ld(" + f.name(base, dep) + "." + strings.TrimPrefix(k, "len:") + ")"
			if strings.HasPrefix(k, "len:") {
				key = "len:" + key
			}
			if i, ok := f.vars[key]; ok {
				s.eq(i, 0, 0, n)
			}
		}
		if s.bot {
			continue
		}
		b.contribute(f, s, l.fn, cc.Args, next)
	}
	for _, g := range b.addr {
		if sameSig(g.Signature, sig) && (g.Signature.Recv() == nil || len(g.FreeVars) > 0 || g.Synthetic != "") {
			b.contribute(f, st, g, cc.Args, next)
		}
	}
}

func (b *Bounds) fix() {
	called := map[*ssa.Function]bool{}
	for _, f := range b.p.All {
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && (ci.Common().IsInvoke() || ci.Common().StaticCallee() != nil) {
					for _, m := range b.p.graph().callees(ci) {
						called[m] = true
					}
				}
			}
		}
	}
	for _, l := range b.lits {
		called[l.fn] = true
	}
	for _, g := range b.addr {
		called[g] = true
	}
	// functions nothing in the repository calls, and methods the standard
	// library calls, may be called with anything
	std := map[string]bool{"Write": true, "Read": true, "WriteString": true, "WriteByte": true, "WriteRune": true, "ReadRune": true, "Close": true, "Error": true, "Is": true, "As": true, "Unwrap": true, "Format": true, "Len": true, "Less": true, "Swap": true}
	top := func(f *ssa.Function) bool {
		if !called[f] || f.Name() == "init" || f.Name() == "main" {
			return true
		}
		return f.Signature.Recv() != nil && std[f.Name()]
	}
	var work []zCtx
	queued := map[zCtx]bool{}
	push := func(k zCtx) {
		if !queued[k] {
			queued[k] = true
			work = append(work, k)
		}
	}
	for _, f := range b.p.All {
		if top(f) {
			b.entry[zCtx{fn: f}] = &zEntry{map[[2]string]int64{}}
			push(zCtx{fn: f})
		}
	}
	changes := map[zCtx]int{}
	for n := 0; len(work) > 0 && n < 20000; n++ {
		k := work[0]
		work = work[1:]
		queued[k] = false
		next := map[zCtx]*zEntry{}
		b.res[k] = map[ssa.Instruction]*boundsOb{}
		for _, sp := range b.specs(k) {
			b.z.run(sp, func(zf *zFn, in ssa.Instruction, st *zState) {
				b.siteContrib(zf, in, st, next)
				b.record(k, zf, in, st)
			}, nil)
		}
		b.calls++
		var ks []zCtx
		for c := range next {
			ks = append(ks, c)
		}
		sort.Slice(ks, func(i, j int) bool {
			if ks[i].fn != ks[j].fn {
				return ks[i].fn.String() < ks[j].fn.String()
			}
			return ks[i].bind < ks[j].bind
		})
		for _, c := range ks {
			if top(c.fn) && c.bind == "" {
				continue
			}
			o := b.entry[c]
			e := o.join(next[c])
			if e.same(o) {
				continue
			}
			changes[c]++
			if changes[c] > 5 {
				e = widenEntry(o, e)
				if e.same(o) {
					continue
				}
			}
			b.entry[c] = e
			push(c)
		}
	}
	if len(work) > 0 {
		for c := range b.entry {
			b.entry[c] = &zEntry{map[[2]string]int64{}}
		}
	}
}

// pattern is the regular expression held by a global variable.
func (z *Zones) pattern(recv ssa.Value) *syntax.Regexp {
	u, ok := recv.(*ssa.UnOp)
	if !ok {
		return nil
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return nil
	}
	var pat string
	n := 0
	for _, f := range z.p.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != g {
					continue
				}
				n++
				if c, ok := st.Val.(*ssa.Call); ok {
					if cal := c.Call.StaticCallee(); cal != nil && cal.Name() == "MustCompile" {
						if k, ok := c.Call.Args[0].(*ssa.Const); ok {
							pat = constant.StringVal(k.Value)
						}
					}
				}
			}
		}
	}
	if n != 1 || pat == "" {
		return nil
	}
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil
	}
	return re
}

// regexpMin is the least length of a string the pattern matches.
func (z *Zones) regexpMin(recv ssa.Value) int {
	if re := z.pattern(recv); re != nil {
		return reMin(re)
	}
	return 0
}

func (z *Zones) regexpGroups(recv ssa.Value) int {
	if re := z.pattern(recv); re != nil {
		return re.MaxCap()
	}
	return -1
}

func reMin(re *syntax.Regexp) int {
	switch re.Op {
	case syntax.OpLiteral:
		return len(re.Rune)
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1
	case syntax.OpCapture, syntax.OpPlus:
		return reMin(re.Sub[0])
	case syntax.OpRepeat:
		return re.Min * reMin(re.Sub[0])
	case syntax.OpConcat:
		n := 0
		for _, s := range re.Sub {
			n += reMin(s)
		}
		return n
	case syntax.OpAlternate:
		m := -1
		for _, s := range re.Sub {
			if k := reMin(s); m < 0 || k < m {
				m = k
			}
		}
		return m
	}
	return 0
}

// boundsObligations reports every operation whose operands the Go runtime
// checks and that the analysis does not prove safe.
type boundsOb struct {
	in   ssa.Instruction
	fn   *ssa.Function
	kind string
	ok   bool
	msg  string
}

func (b *Bounds) record(k zCtx, f *zFn, in ssa.Instruction, st *zState) {
	kind, ok, msg := f.check(in, st)
	if kind == "" {
		return
	}
	o := b.res[k][in]
	if o == nil {
		o = &boundsOb{in: in, fn: k.fn, kind: kind, ok: true}
		b.res[k][in] = o
	}
	if !ok && o.ok {
		o.ok = false
		o.msg = msg
	}
}

// uninstantiated says that the function is a generic body no code runs.
func uninstantiated(f *ssa.Function) bool {
	for ; f != nil; f = f.Parent() {
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			return true
		}
	}
	return false
}

func (b *Bounds) obligations() []boundsOb {
	reached := map[*ssa.Function][]zCtx{}
	for c := range b.entry {
		reached[c.fn] = append(reached[c.fn], c)
	}
	var out []boundsOb
	for _, fn := range b.p.All {
		if uninstantiated(fn) {
			continue
		}
		cs := reached[fn]
		if len(cs) == 0 {
			k := zCtx{fn: fn}
			b.res[k] = map[ssa.Instruction]*boundsOb{}
			b.z.run(&zSpec{fn: fn, entry: &zEntry{map[[2]string]int64{}}}, func(f *zFn, in ssa.Instruction, st *zState) {
				b.record(k, f, in, st)
			}, nil)
			cs = []zCtx{k}
		}
		for _, bl := range fn.Blocks {
			for _, in := range bl.Instrs {
				var m *boundsOb
				for _, c := range cs {
					if o := b.res[c][in]; o != nil && (m == nil || m.ok && !o.ok) {
						m = o
					}
				}
				if m != nil {
					out = append(out, *m)
				}
			}
		}
	}
	return out
}

func (f *zFn) check(in ssa.Instruction, st *zState) (kind string, ok bool, msg string) {
	idx := func(i ssa.Value, lx int, la int64, what string) (string, bool, string) {
		x, a := f.num(i)
		if !st.proves(0, 0, x, a) {
			return what, false, "the index may be negative"
		}
		if !st.proves(x, a+1, lx, la) {
			return what, false, "the index may be past the end"
		}
		return what, true, ""
	}
	switch t := in.(type) {
	case *ssa.IndexAddr:
		if n, ok := arrayLen(t.X.Type()); ok {
			return idx(t.Index, 0, n, "array index")
		}
		x, a := f.length(t.X)
		k, ok, m := idx(t.Index, x, a, "slice index")
		if !ok && (f.elementLemma(st, t) || f.arrayWalk(t.X)) {
			ok = true
		}
		return k, ok, m
	case *ssa.Index:
		if n, ok := arrayLen(t.X.Type()); ok {
			return idx(t.Index, 0, n, "array index")
		}
		if hasLen(t.X.Type()) {
			x, a := f.length(t.X)
			return idx(t.Index, x, a, "string index")
		}
	case *ssa.Lookup:
		if hasLen(t.X.Type()) {
			x, a := f.length(t.X)
			return idx(t.Index, x, a, "string index")
		}
	case *ssa.Slice:
		var lx int
		var la int64
		if n, ok := arrayLen(t.X.Type()); ok {
			lx, la = 0, n
		} else {
			lx, la = f.length(t.X)
		}
		if t.Low == nil && t.High == nil {
			return "", true, ""
		}
		if f.subarrayLemma(st, t) || hasLen(t.X.Type()) && !isStr(t.X.Type()) && f.arrayWalk(t.X) {
			return "slice", true, ""
		}
		hx, ha := lx, la
		if t.High != nil {
			hx, ha = f.num(t.High)
			if !st.proves(hx, ha, lx, la) {
				return "slice", false, "the upper bound may be past the end"
			}
		}
		var wx int
		var wa int64
		if t.Low != nil {
			wx, wa = f.num(t.Low)
		}
		if !st.proves(0, 0, wx, wa) {
			return "slice", false, "the lower bound may be negative"
		}
		if !st.proves(wx, wa, hx, ha) {
			return "slice", false, "the lower bound may be above the upper"
		}
		return "slice", true, ""
	case *ssa.BinOp:
		if (t.Op == token.QUO || t.Op == token.REM) && isIntT(t.Type()) {
			x, a := f.num(t.Y)
			if x == 0 {
				return "division", a != 0, "the divisor is zero"
			}
			if st.lo(x, a) > 0 || st.hi(x, a) < 0 {
				return "division", true, ""
			}
			for k, i := range f.vars {
				if i == x && st.mark["nz:"+k] {
					return "division", true, ""
				}
			}
			return "division", false, "the divisor may be zero"
		}
		if (t.Op == token.SHL || t.Op == token.SHR) && isIntT(t.Type()) {
			x, a := f.num(t.Y)
			if bt, ok := t.Y.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
				return "", true, ""
			}
			return "shift", st.lo(x, a) >= 0, "the shift count may be negative"
		}
	case *ssa.Store:
		// the last field stored of an array under construction
		fa, ok := t.Addr.(*ssa.FieldAddr)
		if !ok {
			return "", true, ""
		}
		al, ok := fa.X.(*ssa.Alloc)
		if !ok {
			return "", true, ""
		}
		at := arrayStruct(al.Type())
		if at == nil || fa.Field != at.dims {
			return "", true, ""
		}
		ok, msg := f.construct(st, al, at, litFields(al))
		return "array", ok, msg
	case *ssa.MakeSlice:
		for _, v := range []ssa.Value{t.Len, t.Cap} {
			if k, ok, m := f.sized(v, st); !ok {
				return k, ok, m
			}
		}
		return "allocation", true, ""
	case *ssa.Call:
		if g := t.Call.StaticCallee(); g != nil && g.Pkg != nil {
			switch g.Pkg.Pkg.Path() + "." + g.Name() {
			case "strings.Repeat", "bytes.Repeat":
				return f.sized(t.Call.Args[1], st)
			case "strconv.FormatInt", "strconv.FormatUint", "strconv.AppendInt", "strconv.AppendUint":
				x, a := f.num(t.Call.Args[len(t.Call.Args)-1])
				if st.lo(x, a) >= 2 && st.hi(x, a) <= 36 {
					return "radix", true, ""
				}
				return "radix", false, "the radix may be outside 2 to 36"
			case "strings.Builder.Grow":
				return f.sized(t.Call.Args[1], st)
			}
		}
	}
	return "", true, ""
}

// grounded says that the value is a sum of lengths and constants.
func grounded(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.BinOp:
		return x.Op == token.ADD && grounded(x.X, seen) && grounded(x.Y, seen) && acyclicSum(x)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !grounded(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len"
	}
	return false
}

func acyclicSum(x *ssa.BinOp) bool {
	for _, o := range []ssa.Value{x.X, x.Y} {
		if p, ok := o.(*ssa.Phi); ok {
			for _, e := range p.Edges {
				if e == x {
					// a running total of lengths
					other := x.X
					if o == x.X {
						other = x.Y
					}
					c, ok := other.(*ssa.Call)
					if !ok {
						return false
					}
					b, ok := c.Call.Value.(*ssa.Builtin)
					return ok && b.Name() == "len"
				}
			}
		}
	}
	return true
}

// sized: a size is not negative, and is bounded by a constant or by the size
// of something that exists.
func (f *zFn) sized(v ssa.Value, st *zState) (string, bool, string) {
	x, a := f.num(v)
	if st.lo(x, a) < 0 {
		return "allocation", false, "the size may be negative"
	}
	if st.hi(x, a) <= 1<<31 {
		return "allocation", true, ""
	}
	for k, i := range f.vars {
		if strings.HasPrefix(k, "len:") {
			if d := st.get(x, i); d != zInf {
				return "allocation", true, ""
			}
		}
	}
	if grounded(v, map[ssa.Value]bool{}) {
		return "allocation", true, ""
	}
	return "allocation", false, "nothing bounds the size"
}

// A multi-dimensional array is a struct holding its elements in row-major
// order and its dimensions; its invariant is that the number of the elements
// is the product of the dimensions. The invariant is used where an element or
// a subarray is taken, and checked where an array is built from another one
// or with one dimension; arrays built with computed dimensions are trusted.

type arrayType struct {
	st       *types.Struct
	key      string
	elts     int
	dims     int
	eltsName string
	dimsName string
}

func arrayStruct(t types.Type) *arrayType {
	s, n := structOf(t)
	if s == nil || s.NumFields() != 2 {
		return nil
	}
	a := &arrayType{st: s, key: typeKey(n), elts: -1, dims: -1}
	for i := 0; i < 2; i++ {
		sl, ok := s.Field(i).Type().Underlying().(*types.Slice)
		if !ok {
			return nil
		}
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			a.dims, a.dimsName = i, s.Field(i).Name()
		} else if _, ok := sl.Elem().Underlying().(*types.Interface); ok {
			a.elts, a.eltsName = i, s.Field(i).Name()
		}
	}
	if a.elts < 0 || a.dims < 0 {
		return nil
	}
	return a
}

// arrayPart says that the value is the elements (or dimensions) of an array.
func arrayPart(v ssa.Value) (base ssa.Value, at *arrayType, dims bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, nil, false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return nil, nil, false
	}
	at = arrayStruct(fa.X.Type())
	if at == nil {
		return nil, nil, false
	}
	return fa.X, at, fa.Field == at.dims
}

// dim0 proves 0 <= n < the first dimension of the array.
func (f *zFn) dim0(st *zState, base ssa.Value, at *arrayType, n ssa.Value) bool {
	dep := map[ssa.Value]bool{}
	i, ok := f.vars["ld(ld("+f.name(base, dep)+"."+at.dimsName+")[0])"]
	if !ok {
		return false
	}
	x, a := f.num(n)
	return st.proves(0, 0, x, a) && st.proves(x, a+1, i, 0)
}

// elementLemma: elements[n] with one dimension.
func (f *zFn) elementLemma(st *zState, t *ssa.IndexAddr) bool {
	base, at, dims := arrayPart(t.X)
	if base == nil || dims {
		return false
	}
	dep := map[ssa.Value]bool{}
	l, ok := f.vars["len:ld("+f.name(base, dep)+"."+at.dimsName+")"]
	if !ok || st.lo(l, 0) != 1 || st.hi(l, 0) != 1 {
		return false
	}
	return f.dim0(st, base, at, t.Index)
}

// productOf says that the value is the product of the dimensions of the array
// but the first.
func (f *zFn) productOf(v ssa.Value, base ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok || len(c.Call.Args) == 0 {
		return false
	}
	g := c.Call.StaticCallee()
	if g == nil || !isProduct(g) {
		return false
	}
	sl, ok := c.Call.Args[len(c.Call.Args)-1].(*ssa.Slice)
	if !ok || sl.High != nil {
		return false
	}
	k, ok := sl.Low.(*ssa.Const)
	if !ok || k.Int64() != 1 {
		return false
	}
	b, _, dims := arrayPart(sl.X)
	d := map[ssa.Value]bool{}
	return b != nil && dims && f.name(b, d) == f.name(base, d)
}

// isProduct recognises a function that multiplies the elements of a slice.
func isProduct(g *ssa.Function) bool {
	mul, one := false, false
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp:
				switch in.Op {
				case token.MUL:
					mul = true
				case token.ADD:
					if c, ok := in.Y.(*ssa.Const); !ok || c.Int64() != 1 {
						return false
					}
				case token.LSS, token.GEQ:
				default:
					return false
				}
			case *ssa.Phi:
				for _, e := range in.Edges {
					if c, ok := e.(*ssa.Const); ok && isIntT(c.Type()) && c.Int64() == 1 {
						one = true
					}
				}
			case ssa.CallInstruction:
				if _, ok := in.Common().Value.(*ssa.Builtin); !ok {
					return false
				}
			case *ssa.Store:
				return false
			}
		}
	}
	return mul && one
}

func unconv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// subarrayLemma: elements[n*s : (n+1)*s], s the size of a subarray.
func (f *zFn) subarrayLemma(st *zState, t *ssa.Slice) bool {
	base, at, dims := arrayPart(t.X)
	if base == nil || dims || t.Low == nil || t.High == nil {
		return false
	}
	factor := func(v ssa.Value) ssa.Value {
		m, ok := unconv(v).(*ssa.BinOp)
		if !ok || m.Op != token.MUL {
			return nil
		}
		if f.productOf(m.X, base) {
			return m.Y
		}
		if f.productOf(m.Y, base) {
			return m.X
		}
		return nil
	}
	lo, hi := factor(t.Low), factor(t.High)
	if hi == nil {
		// n*s + s
		if a, ok := unconv(t.High).(*ssa.BinOp); ok && a.Op == token.ADD && lo != nil {
			d := map[ssa.Value]bool{}
			for _, p := range [][2]ssa.Value{{a.X, a.Y}, {a.Y, a.X}} {
				if l := factor(p[0]); l != nil && f.productOf(p[1], base) && f.name(unconv(l), d) == f.name(unconv(lo), d) {
					return f.dim0(st, base, at, lo)
				}
			}
		}
		return false
	}
	if lo == nil {
		return false
	}
	a, ok := unconv(hi).(*ssa.BinOp)
	if !ok || a.Op != token.ADD {
		return false
	}
	d := map[ssa.Value]bool{}
	one := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && c.Int64() == 1
	}
	n := a.X
	if one(a.X) {
		n = a.Y
	} else if !one(a.Y) {
		return false
	}
	return f.name(unconv(n), d) == f.name(unconv(lo), d) && f.dim0(st, base, at, lo)
}

// arrayWalk: the functions that walk the elements along with the dimensions
// rely on the invariant.
func (f *zFn) arrayWalk(v ssa.Value) bool {
	recv := f.fn.Signature.Recv()
	if recv == nil || arrayStruct(recv.Type()) == nil {
		return false
	}
	elts, dims := false, false
	for _, p := range f.fn.Params[1:] {
		if sl, ok := p.Type().Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
				dims = true
			}
			if types.Identical(sl.Elem(), v.Type().Underlying().(*types.Slice).Elem()) {
				elts = true
			}
		}
	}
	return elts && dims
}

// construct checks the invariant of an array built here; ok is also true for
// what is trusted.
func (f *zFn) construct(st *zState, al *ssa.Alloc, at *arrayType, fs map[string]ssa.Value) (bool, string) {
	elts, dims := fs[at.eltsName], fs[at.dimsName]
	if elts == nil || dims == nil {
		return true, ""
	}
	if sl, ok := dims.(*ssa.Slice); ok {
		if n, isA := arrayLen(sl.X.Type()); isA && sl.Low == nil && sl.High == nil {
			if n != 1 {
				return true, ""
			}
			for _, r := range *sl.X.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, rr := range *ia.Referrers() {
					s, ok := rr.(*ssa.Store)
					if !ok {
						continue
					}
					x, a := f.num(s.Val)
					y, b := f.length(elts)
					if !st.proves(x, a, y, b) || !st.proves(y, b, x, a) {
						return false, "the dimension is not the number of the elements"
					}
				}
			}
			return true, ""
		}
		if b, _, isD := arrayPart(sl.X); b != nil && isD {
			es, ok := elts.(*ssa.Slice)
			if !ok || !f.subarrayLemma(st, es) {
				return false, "the elements are not those of one subarray"
			}
			k, ok := sl.Low.(*ssa.Const)
			if !ok || k.Int64() != 1 || sl.High != nil {
				return false, "the dimensions are not those of a subarray"
			}
		}
	}
	return true, ""
}
