package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Numeric bounds: a forward dataflow analysis over the SSA of one function,
// with a domain of difference constraints x - y <= c between integer values
// and the lengths of slices and strings.

const zInf = math.MaxInt64

// zState is a closed set of constraints: c[{x,y}] bounds x - y. Variable 0 is
// the constant zero.
type zState struct {
	c    map[[2]int]int64
	bot  bool
	mark map[string]bool // path facts kept until they are overwritten
}

func newZState() *zState { return &zState{c: map[[2]int]int64{}, mark: map[string]bool{}} }

func (s *zState) clone() *zState {
	n := &zState{c: make(map[[2]int]int64, len(s.c)), bot: s.bot, mark: make(map[string]bool, len(s.mark))}
	for k, v := range s.c {
		n.c[k] = v
	}
	for k := range s.mark {
		n.mark[k] = true
	}
	return n
}

func (s *zState) get(x, y int) int64 {
	if x == y {
		return 0
	}
	if v, ok := s.c[[2]int{x, y}]; ok {
		return v
	}
	return zInf
}

// add records x - y <= c and closes.
func (s *zState) add(x, y int, c int64) {
	if s.bot || x == y {
		if x == y && c < 0 {
			s.bot = true
		}
		return
	}
	if c > 1<<61 || c < -(1<<61) {
		if c > 0 {
			return
		}
		c = -(1 << 61)
	}
	if s.get(x, y) <= c {
		return
	}
	if o := s.get(y, x); o != zInf && o+c < 0 {
		s.bot = true
		return
	}
	type e struct {
		v int
		c int64
	}
	var us, vs []e
	us = append(us, e{x, 0})
	vs = append(vs, e{y, 0})
	for k, b := range s.c {
		if k[1] == x {
			us = append(us, e{k[0], b})
		}
		if k[0] == y {
			vs = append(vs, e{k[1], b})
		}
	}
	for _, u := range us {
		for _, v := range vs {
			if u.v == v.v {
				if u.c+c+v.c < 0 {
					s.bot = true
					return
				}
				continue
			}
			n := u.c + c + v.c
			if n < s.get(u.v, v.v) {
				s.c[[2]int{u.v, v.v}] = n
			}
		}
	}
}

func (s *zState) forget(vs map[int]bool) {
	for k := range s.c {
		if vs[k[0]] || vs[k[1]] {
			delete(s.c, k)
		}
	}
}

func zJoin(a, b *zState) *zState {
	if a == nil || a.bot {
		return b.clone()
	}
	if b.bot {
		return a.clone()
	}
	n := newZState()
	for k, v := range a.c {
		if w, ok := b.c[k]; ok {
			if w > v {
				v = w
			}
			n.c[k] = v
		}
	}
	for k := range a.mark {
		if b.mark[k] {
			n.mark[k] = true
		}
	}
	return n
}

// zWiden relaxes the bounds that grew to the next of a few thresholds.
func zWiden(old, new *zState) *zState {
	n := newZState()
	for k, v := range old.c {
		w, ok := new.c[k]
		if !ok {
			continue
		}
		if w <= v {
			n.c[k] = v
			continue
		}
		for _, t := range [...]int64{-4, -2, -1, 0, 1, 2, 4, 256} {
			if w <= t {
				n.c[k] = t
				break
			}
		}
	}
	for k := range old.mark {
		if new.mark[k] {
			n.mark[k] = true
		}
	}
	return n
}

func zSame(a, b *zState) bool {
	if a.bot != b.bot || len(a.c) != len(b.c) || len(a.mark) != len(b.mark) {
		return false
	}
	for k, v := range a.c {
		if w, ok := b.c[k]; !ok || w != v {
			return false
		}
	}
	for k := range a.mark {
		if !b.mark[k] {
			return false
		}
	}
	return true
}

// zSpec is one analysis: a function, its parameters, and known field values.
type zSpec struct {
	fn     *ssa.Function
	entry  *zEntry // what every caller establishes
	lit    string
	bind   map[ssa.Value]*ssa.Function
	fields map[string]int64 // "param.field" or "len:param.field" of the receiver
}

type zFn struct {
	z    *Zones
	fn   *ssa.Function
	spec *zSpec
	vars map[string]int
	deps map[int]map[ssa.Value]bool
	of   map[ssa.Value][]int
	back map[[2]*ssa.BasicBlock]int
	wild map[ssa.Value]int
	nils map[*ssa.Phi]bool // pointers that are nil on some way
	onIn func(in ssa.Instruction, st *zState)
	onRt func(in *ssa.Return, st *zState)
	esc  map[string]bool
}

// Zones holds what is shared by the analyses of all functions.
type Zones struct {
	p       *Prog
	summary map[*ssa.Function][]zCond
	summing map[*ssa.Function]bool
	wr      map[*ssa.Function]map[string]bool
	oksum   map[*ssa.Function][]zCond
}

// zCond is a fact about the parameters that holds when a predicate is true.
type zCond struct {
	x, y string
	c    int64
}

func newZones(p *Prog) *Zones {
	return &Zones{p: p, summary: map[*ssa.Function][]zCond{}, summing: map[*ssa.Function]bool{}}
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func hasLen(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

// name is a canonical name for a value: equal names denote equal values as
// long as the values they depend on have not been redefined.
func (f *zFn) name(v ssa.Value, dep map[ssa.Value]bool) string {
	switch x := v.(type) {
	case *ssa.ChangeType:
		return f.name(x.X, dep)
	case *ssa.ChangeInterface:
		return f.name(x.X, dep)
	case *ssa.Convert:
		if isIntT(x.Type()) && isIntT(x.X.Type()) && widening(x.X.Type(), x.Type()) {
			return f.name(x.X, dep)
		}
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		return "c" + x.Value.ExactString()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				st := derefType(a.X.Type()).Underlying().(*types.Struct)
				if f.z.immutField(derefType(a.X.Type()), st.Field(a.Field).Name()) {
					return "ld(" + f.name(a.X, dep) + "." + st.Field(a.Field).Name() + ")"
				}
			case *ssa.IndexAddr:
				if c, ok := a.Index.(*ssa.Const); ok && hasLen(a.X.Type()) && isIntT(x.Type()) {
					if ld, ok := a.X.(*ssa.UnOp); ok && ld.Op == token.MUL {
						if fa, ok := ld.X.(*ssa.FieldAddr); ok {
							st := derefType(fa.X.Type()).Underlying().(*types.Struct)
							if f.z.immutField(derefType(fa.X.Type()), st.Field(fa.Field).Name()) && st.Field(fa.Field).Name() == "dim" {
								return "ld(" + f.name(a.X, dep) + "[" + c.Value.ExactString() + "])"
							}
						}
					}
				}
			case *ssa.FreeVar:
				if !f.storedIn(a) {
					return "fv(" + a.Name() + ")"
				}
			}
		}
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		return "ld(" + f.name(x.X, dep) + "." + st.Field(x.Field).Name() + ")"
	}
	dep[v] = true
	return v.Name()
}

// cell is a name for the content of a memory cell; it is forgotten when
// something may have written there.
func (f *zFn) cell(addr ssa.Value, dep map[ssa.Value]bool) string {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		s, t := structOf(a.X.Type())
		return "cell(" + typeKey(t) + "." + s.Field(a.Field).Name() + "|" + f.name(a.X, dep) + ")"
	case *ssa.IndexAddr:
		if _, ok := arrayLen(a.X.Type()); ok {
			return ""
		}
		k, n := f.num(a.Index)
		if k == 0 {
			return "cell([]" + a.Type().String() + "|" + f.name(a.X, dep) + "|" + fmtInt(n) + ")"
		}
		return "cell([]" + a.Type().String() + "|" + f.name(a.X, dep) + "|" + f.name(a.Index, dep) + ")"
	case *ssa.Alloc:
		return "cell(alloc|" + a.Name() + ")"
	case *ssa.FreeVar:
		return "cell(fv|" + a.Name() + ")"
	case *ssa.Global:
		return "cell(glob|" + a.String() + ")"
	}
	return ""
}

func fmtInt(n int64) string { return constant.MakeInt64(n).ExactString() }

// cellKind is the part of a cell's name that says what may overwrite it.
func cellKind(key string) string {
	key = strings.TrimPrefix(key, "len:")
	if !strings.HasPrefix(key, "cell(") {
		return ""
	}
	key = key[5:]
	if strings.HasPrefix(key, "alloc|") || strings.HasPrefix(key, "fv|") || strings.HasPrefix(key, "glob|") {
		return strings.TrimSuffix(key, ")")
	}
	if i := strings.Index(key, "|"); i >= 0 {
		return key[:i]
	}
	return key
}

func (f *zFn) cellVar(addr ssa.Value, t types.Type) (int, bool) {
	dep := map[ssa.Value]bool{}
	k := f.cell(addr, dep)
	if k == "" {
		return 0, false
	}
	if hasLen(t) {
		k = "len:" + k
	} else if !isIntT(t) {
		return 0, false
	}
	return f.varOf(k, dep), true
}

func (f *zFn) dropCells(st *zState, match func(kind string) bool) {
	m := map[int]bool{}
	for k, i := range f.vars {
		if kd := cellKind(k); kd != "" && match(kd) {
			m[i] = true
		}
	}
	if len(m) > 0 {
		st.forget(m)
	}
}

// numericContent says that a value of the type holds integers, strings or
// slices that a cell may name.
func numericContent(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return isIntT(t) || hasLen(t)
}

func (f *zFn) storeCell(st *zState, s *ssa.Store) {
	dep := map[ssa.Value]bool{}
	kind := cellKind(f.cell(s.Addr, dep))
	if kind == "" {
		if numericContent(s.Val.Type()) {
			f.dropCells(st, func(k string) bool { return true })
		}
		return
	}
	x, a, have := 0, int64(0), false
	tmp := -1
	t := s.Val.Type()
	if hasLen(t) || isIntT(t) {
		if hasLen(t) {
			x, a = f.length(s.Val)
		} else {
			x, a = f.num(s.Val)
		}
		have = true
		st.eq(tmp, 0, x, a)
	}
	f.dropCells(st, func(k string) bool { return k == kind })
	if have {
		if c, ok := f.cellVar(s.Addr, t); ok {
			st.eq(c, 0, tmp, 0)
		}
		st.forget(map[int]bool{tmp: true})
	}
}

// writes says which cells a function may overwrite, itself or through what it calls.
func (z *Zones) writes(fn *ssa.Function) map[string]bool {
	if z.wr == nil {
		z.solveWrites()
	}
	return z.wr[fn]
}

func (z *Zones) solveWrites() {
	z.wr = map[*ssa.Function]map[string]bool{}
	callees := map[*ssa.Function][]*ssa.Function{}
	cg := z.p.graph()
	for _, f := range z.p.All {
		w := map[string]bool{}
		z.wr[f] = w
		tf := &zFn{z: z, fn: f, spec: &zSpec{fn: f}, vars: map[string]int{}, deps: map[int]map[ssa.Value]bool{}, of: map[ssa.Value][]int{}, wild: map[ssa.Value]int{}}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					k := cellKind(tf.cell(in.Addr, map[ssa.Value]bool{}))
					switch {
					case strings.HasPrefix(k, "alloc|"):
					case strings.HasPrefix(k, "fv|"):
						w["captured"] = true
					case k == "":
						if numericContent(in.Val.Type()) {
							w["*"] = true
						}
					default:
						w[k] = true
					}
				case ssa.CallInstruction:
					cc := in.Common()
					callees[f] = append(callees[f], cg.callees(in)...)
					if g := cc.StaticCallee(); g != nil && !z.p.inRepo(g) {
						for _, a := range cc.Args {
							if h := unFunc(a); h != nil {
								callees[f] = append(callees[f], h)
							}
						}
					}
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range z.p.All {
			for _, g := range callees[f] {
				for k := range z.wr[g] {
					if !z.wr[f][k] {
						z.wr[f][k] = true
						ch = true
					}
				}
			}
		}
	}
}

// callCells forgets what a call may overwrite.
func (f *zFn) callCells(st *zState, ci ssa.CallInstruction) {
	cc := ci.Common()
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		if cc.Value.Name() == "copy" || cc.Value.Name() == "append" {
			f.dropCells(st, func(k string) bool { return strings.HasPrefix(k, "[]") })
		}
		return
	}
	f.z.writes(f.fn)
	gs := f.z.p.graph().callees(ci)
	closures := true
	if g := cc.StaticCallee(); g != nil {
		closures = f.z.p.inRepo(g)
		for _, a := range cc.Args {
			if h := unFunc(a); h != nil {
				gs = append(gs[:len(gs):len(gs)], h)
				closures = true
			}
		}
	}
	w := map[string]bool{}
	for _, g := range gs {
		for k := range f.z.wr[g] {
			w[k] = true
		}
	}
	f.dropCells(st, func(k string) bool {
		if w["*"] || w[k] {
			return true
		}
		if strings.HasPrefix(k, "fv|") {
			return closures
		}
		if strings.HasPrefix(k, "alloc|") {
			return f.escapes(strings.TrimPrefix(k, "alloc|"))
		}
		return false
	})
}

// escapes: the address of the local variable is held by something else.
func (f *zFn) escapes(name string) bool {
	if f.esc == nil {
		f.esc = map[string]bool{}
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				for _, r := range *al.Referrers() {
					switch r := r.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if r.Val == al {
							f.esc[al.Name()] = true
						}
					case *ssa.MakeClosure:
						// written by the closure?
						g := r.Fn.(*ssa.Function)
						for i, bd := range r.Bindings {
							if bd == al && f.fvWritten(g, i) {
								f.esc[al.Name()] = true
							}
						}
					default:
						f.esc[al.Name()] = true
					}
				}
			}
		}
	}
	return f.esc[name]
}

func (f *zFn) fvWritten(g *ssa.Function, i int) bool {
	for _, r := range *g.FreeVars[i].Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for j, bd := range r.Bindings {
				if bd == g.FreeVars[i] && f.fvWritten(r.Fn.(*ssa.Function), j) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

func (f *zFn) storedIn(a *ssa.FreeVar) bool {
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			return true
		}
	}
	return false
}

func widening(from, to types.Type) bool {
	rank := func(t types.Type) (int, bool) {
		switch t.Underlying().(*types.Basic).Kind() {
		case types.Int8:
			return 8, true
		case types.Uint8:
			return 9, true
		case types.Int16:
			return 16, true
		case types.Uint16:
			return 17, true
		case types.Int32:
			return 32, true
		case types.Uint32:
			return 33, true
		case types.Int, types.Int64:
			return 64, true
		}
		return 0, false
	}
	a, ok1 := rank(from)
	b, ok2 := rank(to)
	return ok1 && ok2 && a <= b && !(a%2 == 0 && b%2 == 1)
}

func (z *Zones) immutField(t types.Type, field string) bool {
	return z.p.immut[typeKey(t)+"."+field]
}

func (f *zFn) varOf(key string, dep map[ssa.Value]bool) int {
	if i, ok := f.vars[key]; ok {
		return i
	}
	i := len(f.vars) + 1
	f.vars[key] = i
	f.deps[i] = dep
	for d := range dep {
		f.of[d] = append(f.of[d], i)
	}
	return i
}

// num is the variable and offset of an integer value.
func (f *zFn) num(v ssa.Value) (int, int64) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		if n, ok := constant.Int64Val(c.Value); ok {
			return 0, n
		}
	}
	dep := map[ssa.Value]bool{}
	key := f.name(v, dep)
	if n, ok := f.spec.fields[key]; ok {
		return 0, n
	}
	return f.varOf(key, dep), 0
}

// length is the variable and offset of the length of a slice or string.
func (f *zFn) length(v ssa.Value) (int, int64) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return 0, 0
		}
		if x.Value.Kind() == constant.String {
			return 0, int64(len(constant.StringVal(x.Value)))
		}
	case *ssa.ChangeType:
		return f.length(x.X)
	case *ssa.Convert:
		if hasLen(x.X.Type()) && hasLen(x.Type()) {
			return f.length(x.X)
		}
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			if n, ok := arrayLen(x.X.Type()); ok {
				return 0, n
			}
		}
	}
	if n, ok := arrayLen(v.Type()); ok {
		return 0, n
	}
	dep := map[ssa.Value]bool{}
	key := "len:" + f.name(v, dep)
	if n, ok := f.spec.fields[key]; ok {
		return 0, n
	}
	return f.varOf(key, dep), 0
}

func arrayLen(t types.Type) (int64, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

// le records x + a <= y + b.
func (s *zState) le(x int, a int64, y int, b int64) { s.add(x, y, b-a) }

func (s *zState) eq(x int, a int64, y int, b int64) {
	s.add(x, y, b-a)
	s.add(y, x, a-b)
}

// proves x + a <= y + b.
func (s *zState) proves(x int, a int64, y int, b int64) bool {
	if s.bot {
		return true
	}
	v := s.get(x, y)
	return v != zInf && v <= b-a
}

func (s *zState) hi(x int, a int64) int64 {
	v := s.get(x, 0)
	if v == zInf {
		return zInf
	}
	return v + a
}

func (s *zState) lo(x int, a int64) int64 {
	v := s.get(0, x)
	if v == zInf {
		return -zInf
	}
	return -v + a
}

// isWild says that the value may be any Lisp integer.
func (f *zFn) isWild(v ssa.Value) bool {
	switch f.wild[v] {
	case 1:
		return false
	case 2:
		return true
	}
	f.wild[v] = 1
	w := false
	switch x := v.(type) {
	case *ssa.Convert:
		w = f.isWild(x.X)
	case *ssa.ChangeType:
		w = f.isWild(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			w = w || f.isWild(e)
		}
	case *ssa.BinOp:
		w = f.isWild(x.X) || f.isWild(x.Y)
	case *ssa.Const:
	default:
		if n, ok := v.Type().(*types.Named); ok && n.Obj().Name() == "Integer" {
			w = true
		}
	}
	if n, ok := v.Type().(*types.Named); ok && n.Obj().Name() == "Integer" {
		if _, isC := v.(*ssa.Const); !isC {
			w = true
		}
	}
	f.wild[v] = 1
	if w {
		f.wild[v] = 2
	}
	return w
}

// bounded says that some length or constant bounds the value from above (or
// below), so that adding a small constant does not overflow.
func (f *zFn) boundedAbove(st *zState, v ssa.Value) bool {
	if !f.isWild(v) {
		return true
	}
	x, a := f.num(v)
	if x == 0 || st.hi(x, a) < 1<<60 {
		return true
	}
	for k, i := range f.vars {
		if strings.HasPrefix(k, "len:") || strings.Contains(k, ".dim)[") {
			if b := st.get(x, i); b != zInf {
				return true
			}
		}
	}
	return false
}

func (f *zFn) boundedBelow(st *zState, v ssa.Value) bool {
	if !f.isWild(v) {
		return true
	}
	x, a := f.num(v)
	return x == 0 || st.lo(x, a) > -(1<<60)
}

func (f *zFn) dropDef(st *zState, v ssa.Value) {
	if len(f.of[v]) == 0 {
		return
	}
	m := map[int]bool{}
	for _, i := range f.of[v] {
		m[i] = true
	}
	st.forget(m)
	for k := range st.mark {
		if strings.Contains(k, "|"+v.Name()+"|") {
			delete(st.mark, k)
		}
	}
}

func (f *zFn) lenFacts(st *zState, v ssa.Value) {
	x, a := f.length(v)
	if x != 0 {
		st.le(0, 0, x, a)
	}
}

func (f *zFn) typeFacts(st *zState, v ssa.Value) {
	b, ok := v.Type().Underlying().(*types.Basic)
	if !ok {
		return
	}
	x, a := f.num(v)
	if x == 0 {
		return
	}
	if b.Info()&types.IsUnsigned != 0 {
		st.le(0, 0, x, a)
		if b.Kind() == types.Uint8 {
			st.le(x, a, 0, 255)
		}
	}
}

func (f *zFn) define(st *zState, in ssa.Instruction) {
	switch s := in.(type) {
	case *ssa.Store:
		f.storeCell(st, s)
		return
	case *ssa.MapUpdate:
		return
	case *ssa.RunDefers:
		f.dropCells(st, func(string) bool { return true })
		return
	}
	v, ok := in.(ssa.Value)
	if !ok {
		return
	}
	if c, ok := in.(*ssa.Call); ok {
		f.callCells(st, c)
		defer f.callFacts(st, c, -1)
	}
	if ex, ok := in.(*ssa.Extract); ok {
		if c, ok := ex.Tuple.(*ssa.Call); ok {
			defer f.callFacts(st, c, ex.Index)
		}
	}
	t := v.Type()
	f.dropDef(st, v)
	if tup, ok := t.(*types.Tuple); ok {
		_ = tup
		return
	}
	if hasLen(t) {
		f.defLen(st, v)
		return
	}
	if !isIntT(t) {
		return
	}
	f.typeFacts(st, v)
	x, a := f.num(v)
	if x == 0 {
		return
	}
	switch in := v.(type) {
	case *ssa.UnOp:
		if in.Op == token.MUL {
			if c, ok := f.cellVar(in.X, t); ok && c != x {
				st.eq(x, a, c, 0)
			}
		}
	case *ssa.BinOp:
		f.defBin(st, in, x, a)
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len":
				arg := in.Call.Args[0]
				if n, ok := arrayLen(arg.Type()); ok {
					st.eq(x, a, 0, n)
				} else if hasLen(arg.Type()) {
					y, o := f.length(arg)
					f.lenFacts(st, arg)
					st.eq(x, a, y, o)
				} else {
					st.le(0, 0, x, a)
				}
			case "cap", "copy":
				st.le(0, 0, x, a)
			case "min":
				for _, q := range in.Call.Args {
					y, o := f.num(q)
					st.le(x, a, y, o)
				}
			case "max":
				for _, q := range in.Call.Args {
					y, o := f.num(q)
					st.le(y, o, x, a)
				}
			}
			return
		}
		if c := in.Call.StaticCallee(); c != nil && c.Pkg != nil {
			switch c.Pkg.Pkg.Path() + "." + c.Name() {
			case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndex", "strings.LastIndexByte":
				y, o := f.length(in.Call.Args[0])
				f.lenFacts(st, in.Call.Args[0])
				st.le(0, -1, x, a)
				if c.Name() == "Index" || c.Name() == "LastIndex" {
					st.le(x, a, y, o)
				} else {
					st.le(x, a, y, o-1+0)
					if st.hi(y, o) == 0 {
						st.eq(x, a, 0, -1)
					}
				}
			case "unicode/utf8.RuneCountInString", "strings.Count", "unicode/utf8.RuneLen":
				if c.Name() != "RuneLen" {
					st.le(0, 0, x, a)
				}
			case "unicode/utf8.EncodeRune":
				st.le(0, 1, x, a)
				st.le(x, a, 0, 4)
			}
		}
	case *ssa.Extract:
		f.defExtract(st, in, x, a)
	case *ssa.Convert:
		if isIntT(in.X.Type()) {
			// a narrowing conversion: equal when the operand fits
			y, o := f.num(in.X)
			if st.lo(y, o) >= 0 && st.hi(y, o) < 128 {
				st.eq(x, a, y, o)
			}
		}
	}
}

func (f *zFn) defExtract(st *zState, in *ssa.Extract, x int, a int64) {
	switch tup := in.Tuple.(type) {
	case *ssa.Call:
		cc := tup.Call
		name := ""
		var args []ssa.Value
		if cc.IsInvoke() {
			name, args = "invoke."+cc.Method.Name(), cc.Args
		} else if c := cc.StaticCallee(); c != nil {
			args = cc.Args
			if c.Pkg != nil {
				name = c.Pkg.Pkg.Path() + "." + c.Name()
			}
			if c.Signature.Recv() != nil && len(args) > 1 {
				// a method of a writer or a reader of the standard library
				switch c.Name() {
				case "Write", "Read", "WriteString":
					if !f.z.p.inRepo(c) || f.z.p.promoted(c) {
						name, args = "invoke."+c.Name(), args[1:]
					}
				}
			}
		}
		switch name {
		case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune":
			if in.Index == 1 {
				y, o := f.length(args[0])
				st.le(0, 0, x, a)
				st.le(x, a, y, o)
			}
		case "io.WriteString":
			if in.Index == 0 {
				y, o := f.length(args[1])
				st.le(0, 0, x, a)
				st.le(x, a, y, o)
			}
		case "invoke.Write", "invoke.Read", "invoke.WriteString":
			if in.Index == 0 {
				y, o := f.length(args[0])
				st.le(0, 0, x, a)
				st.le(x, a, y, o)
			}
		}
	case *ssa.Next:
		if in.Index == 1 && tup.IsString {
			if rg, ok := tup.Iter.(*ssa.Range); ok {
				y, o := f.length(rg.X)
				st.le(0, 0, x, a)
				st.le(x, a, y, o-1)
			}
		}
	}
}

func (f *zFn) defBin(st *zState, in *ssa.BinOp, x int, a int64) {
	px, pa := f.num(in.X)
	qx, qa := f.num(in.Y)
	switch in.Op {
	case token.ADD:
		if qx == 0 && px != 0 || px == 0 {
			v, k := in.X, qa
			vx, va := px, pa
			if px == 0 {
				v, k, vx, va = in.Y, pa, qx, qa
			}
			if k >= 0 && f.boundedAbove(st, v) || k < 0 && f.boundedBelow(st, v) {
				st.eq(x, a, vx, va+k)
			} else if k >= 0 {
				// may wrap: nothing is known
			}
			return
		}
		if f.isWild(in.X) && (st.hi(px, pa) >= 1<<60 || st.lo(px, pa) <= -(1<<60)) || f.isWild(in.Y) && (st.hi(qx, qa) >= 1<<60 || st.lo(qx, qa) <= -(1<<60)) {
			return
		}
		if h := st.hi(qx, qa); h != zInf {
			st.le(x, a, px, pa+h)
		}
		if l := st.lo(qx, qa); l != -zInf {
			st.le(px, pa+l, x, a)
		}
		if h := st.hi(px, pa); h != zInf {
			st.le(x, a, qx, qa+h)
		}
		if l := st.lo(px, pa); l != -zInf {
			st.le(qx, qa+l, x, a)
		}
	case token.SUB:
		if qx == 0 {
			if qa >= 0 && f.boundedBelow(st, in.X) || qa < 0 && f.boundedAbove(st, in.X) {
				st.eq(x, a, px, pa-qa)
			}
			return
		}
		if f.isWild(in.X) || f.isWild(in.Y) {
			if !(f.boundedAbove(st, in.X) && f.boundedBelow(st, in.X) && f.boundedAbove(st, in.Y) && f.boundedBelow(st, in.Y)) {
				return
			}
		}
		// p - q: use the known differences
		if d := st.get(px, qx); d != zInf {
			st.le(x, a, 0, d+pa-qa)
		}
		if d := st.get(qx, px); d != zInf {
			st.le(0, -(d + qa - pa), x, a)
		}
		if l := st.lo(qx, qa); l != -zInf {
			st.le(x, a, px, pa-l)
		}
		if h := st.hi(qx, qa); h != zInf {
			st.le(px, pa-h, x, a)
		}
	case token.MUL:
		for _, o := range [][2]ssa.Value{{in.X, in.Y}, {in.Y, in.X}} {
			dep := map[ssa.Value]bool{}
			pre := "mulok:|" + o[0].Name() + "|" + f.name(o[1], dep) + "|="
			for m := range st.mark {
				if strings.HasPrefix(m, pre) && st.lo(px, pa) >= 0 && st.lo(qx, qa) >= 0 {
					if k, err := strconv.ParseInt(m[len(pre):], 10, 64); err == nil {
						st.le(0, 0, x, a)
						st.le(x, a, 0, k)
						if st.lo(px, pa) >= 1 && st.lo(qx, qa) >= 1 {
							st.le(0, 1, x, a)
						}
					}
				}
			}
		}
		if st.lo(px, pa) >= 0 && st.lo(qx, qa) >= 0 && !f.isWild(in.X) && !f.isWild(in.Y) {
			st.le(0, 0, x, a)
		}
		if h1, h2 := st.hi(px, pa), st.hi(qx, qa); st.lo(px, pa) >= 0 && st.lo(qx, qa) >= 0 && h1 < 1<<30 && h2 < 1<<30 {
			st.le(0, 0, x, a)
			st.le(x, a, 0, h1*h2)
		}
	case token.QUO:
		if qx == 0 && qa > 0 && st.lo(px, pa) >= 0 {
			st.le(0, 0, x, a)
			st.le(x, a, px, pa)
		}
	case token.REM:
		if qx == 0 && qa > 0 {
			st.le(x, a, 0, qa-1)
			st.le(0, -(qa - 1), x, a)
			if st.lo(px, pa) >= 0 {
				st.le(0, 0, x, a)
			}
		}
	case token.AND:
		if st.lo(px, pa) >= 0 || st.lo(qx, qa) >= 0 {
			st.le(0, 0, x, a)
		}
		if qx == 0 && qa >= 0 {
			st.le(x, a, 0, qa)
		}
	}
}

func (f *zFn) defLen(st *zState, v ssa.Value) {
	x, a := f.length(v)
	if x == 0 {
		return
	}
	st.le(0, 0, x, a)
	switch in := v.(type) {
	case *ssa.Convert:
		if isIntT(in.X.Type()) {
			st.le(0, 1, x, a)
			st.le(x, a, 0, 4)
		}
	case *ssa.UnOp:
		if in.Op == token.MUL {
			if c, ok := f.cellVar(in.X, v.Type()); ok && c != x {
				st.eq(x, a, c, 0)
			}
		}
	case *ssa.MakeSlice:
		y, o := f.num(in.Len)
		st.eq(x, a, y, o)
	case *ssa.Slice:
		var bx int
		var ba int64
		if n, ok := arrayLen(in.X.Type()); ok {
			bx, ba = 0, n
		} else {
			bx, ba = f.length(in.X)
		}
		switch {
		case in.Low == nil && in.High == nil:
			st.eq(x, a, bx, ba)
		case in.High == nil:
			lx, la := f.num(in.Low)
			if lx == 0 {
				st.eq(x, a, bx, ba-la)
			} else {
				if l := st.lo(lx, la); l != -zInf {
					st.le(x, a, bx, ba-l)
				}
				// len = base - low
				if d := st.get(bx, lx); d != zInf {
					st.le(x, a, 0, d+ba-la)
				}
				if d := st.get(lx, bx); d != zInf {
					st.le(0, -(d + la - ba), x, a)
				}
			}
		case in.Low == nil:
			hx, ha := f.num(in.High)
			st.eq(x, a, hx, ha)
		default:
			lx, la := f.num(in.Low)
			hx, ha := f.num(in.High)
			if lx == 0 {
				st.eq(x, a, hx, ha-la)
			} else {
				if d := st.get(hx, lx); d != zInf {
					st.le(x, a, 0, d+ha-la)
				}
				if d := st.get(lx, hx); d != zInf {
					st.le(0, -(d + la - ha), x, a)
				}
			}
		}
	case *ssa.BinOp:
		if in.Op == token.ADD { // string concatenation
			px, pa := f.length(in.X)
			qx, qa := f.length(in.Y)
			if qx == 0 {
				st.eq(x, a, px, pa+qa)
			} else if px == 0 {
				st.eq(x, a, qx, qa+pa)
			} else {
				st.le(px, pa, x, a)
				st.le(qx, qa, x, a)
			}
		}
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			px, pa := f.length(in.Call.Args[0])
			qx, qa := f.length(in.Call.Args[1])
			f.lenFacts(st, in.Call.Args[0])
			if qx == 0 {
				st.eq(x, a, px, pa+qa)
			} else {
				st.le(px, pa, x, a)
				st.le(qx, qa, x, a)
				if l := st.lo(px, pa); l > 0 {
					st.le(qx, qa+l, x, a)
				}
				if l := st.lo(qx, qa); l > 0 {
					st.le(px, pa+l, x, a)
				}
			}
			return
		}
	}
}

// assume refines a state by a branch condition.
func (f *zFn) assume(st *zState, cond ssa.Value, val bool) {
	switch c := cond.(type) {
	case *ssa.Const:
		if constant.BoolVal(c.Value) != val {
			st.bot = true
		}
	case *ssa.UnOp:
		if c.Op == token.NOT {
			f.assume(st, c.X, !val)
		}
	case *ssa.BinOp:
		f.assumeBin(st, c, val)
	case *ssa.Call:
		callee := c.Call.StaticCallee()
		if callee != nil && f.z.p.inRepo(callee) && val {
			for _, k := range f.z.trueSummary(callee) {
				x, xa, ok1 := f.subst(k.x, callee, &c.Call)
				y, ya, ok2 := f.subst(k.y, callee, &c.Call)
				if ok1 && ok2 {
					st.le(x, xa, y, ya+k.c)
				}
			}
		}
		if callee != nil && val && callee.Pkg != nil {
			switch callee.Pkg.Pkg.Path() + "." + callee.Name() {
			case "strings.HasPrefix", "strings.HasSuffix", "bytes.HasPrefix", "bytes.HasSuffix":
				x, a := f.length(c.Call.Args[0])
				y, b := f.length(c.Call.Args[1])
				st.le(y, b, x, a)
			}
		}
		if callee != nil && val && callee.Name() == "MatchString" && len(c.Call.Args) == 2 {
			if n := f.z.regexpMin(c.Call.Args[0]); n > 0 {
				x, a := f.length(c.Call.Args[1])
				st.le(0, int64(n), x, a)
			}
		}
		// a call of a value with a String/Len relation to IsNone/IsSome is not numeric
		if callee != nil && (callee.Name() == "IsNone" || callee.Name() == "IsSome") {
			_ = callee
		}
	}
}

func (f *zFn) assumeBin(st *zState, c *ssa.BinOp, val bool) {
	op := c.Op
	if !val {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		default:
			return
		}
	}
	t := c.X.Type()
	f.okFacts(st, c, op)
	if k, ok := c.Y.(*ssa.Const); ok && k.Value == nil && op == token.NEQ && st.mark[nilMark(c.X)] {
		st.bot = true
		return
	}
	if hasLen(t) && (op == token.EQL || op == token.NEQ) {
		// comparison with a constant string, or of a slice with nil
		for i, v := range []ssa.Value{c.X, c.Y} {
			o := []ssa.Value{c.Y, c.X}[i]
			k, ok := v.(*ssa.Const)
			if !ok {
				continue
			}
			x, a := f.length(o)
			n := int64(0)
			if k.Value != nil {
				n = int64(len(constant.StringVal(k.Value)))
			} else if op == token.NEQ {
				continue
			}
			if op == token.EQL {
				st.eq(x, a, 0, n)
			} else if n == 0 {
				st.le(0, 1, x, a)
			}
		}
		return
	}
	if _, isS := t.Underlying().(*types.Slice); isS || !isIntT(t) {
		return
	}
	x, a := f.num(c.X)
	y, b := f.num(c.Y)
	// x <= K/n: the product x*n does not exceed K
	guard := func(l, r ssa.Value) {
		if q, ok := r.(*ssa.BinOp); ok && q.Op == token.QUO {
			if k, ok := q.X.(*ssa.Const); ok && k.Value != nil {
				if n, ok := constant.Int64Val(k.Value); ok {
					dep := map[ssa.Value]bool{}
					st.mark["mulok:|"+l.Name()+"|"+f.name(q.Y, dep)+"|="+fmtInt(n)] = true
				}
			}
		}
	}
	switch op {
	case token.LSS, token.LEQ:
		guard(c.X, c.Y)
	case token.GTR, token.GEQ:
		guard(c.Y, c.X)
	}
	switch op {
	case token.LSS:
		st.le(x, a+1, y, b)
	case token.LEQ:
		st.le(x, a, y, b)
	case token.GTR:
		st.le(y, b+1, x, a)
	case token.GEQ:
		st.le(y, b, x, a)
	case token.EQL:
		st.eq(x, a, y, b)
	case token.NEQ:
		if st.proves(x, a, y, b) {
			st.le(x, a+1, y, b)
		} else if st.proves(y, b, x, a) {
			st.le(y, b+1, x, a)
		}
		if x != 0 && y == 0 || x == 0 && y != 0 {
			k := x
			n := b - a
			if x == 0 {
				k, n = y, a-b
			}
			if k == x && n == 0 || n == 0 {
				for key, i := range f.vars {
					if i == k {
						st.mark["nz:"+key] = true
					}
				}
			}
		}
	}
}

// run computes the states and reports each instruction with the state before it.
func (z *Zones) run(spec *zSpec, onIn func(f *zFn, in ssa.Instruction, st *zState), onRt func(f *zFn, in *ssa.Return, st *zState)) {
	fn := spec.fn
	if len(fn.Blocks) == 0 {
		return
	}
	f := &zFn{z: z, fn: fn, spec: spec, vars: map[string]int{}, deps: map[int]map[ssa.Value]bool{}, of: map[ssa.Value][]int{}, wild: map[ssa.Value]int{}}
	f.back = map[[2]*ssa.BasicBlock]int{}
	nb := 0
	heads := map[*ssa.BasicBlock]int{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				if _, ok := heads[s]; !ok {
					heads[s] = nb
					nb++
				}
				f.back[[2]*ssa.BasicBlock{b, s}] = heads[s]
			}
		}
	}
	live := z.p.liveness(fn)
	dead := map[*ssa.BasicBlock]map[int]bool{}
	deadAt := func(b *ssa.BasicBlock) map[int]bool {
		lv := map[ssa.Value]bool{}
		for v := range live[b.Index] {
			lv[v] = true
			dep := map[ssa.Value]bool{}
			f.name(v, dep)
			for d := range dep {
				lv[d] = true
			}
			if al, ok := v.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if fa, ok := r.(*ssa.FieldAddr); ok {
						for _, rr := range *fa.Referrers() {
							if st, ok := rr.(*ssa.Store); ok {
								lv[st.Val] = true
							}
						}
					}
				}
			}
		}
		m := dead[b]
		if m == nil {
			m = map[int]bool{}
			dead[b] = m
		}
		for _, i := range f.vars {
			if m[i] {
				continue
			}
			for d := range f.deps[i] {
				switch d.(type) {
				case *ssa.Parameter, *ssa.FreeVar:
				default:
					if !lv[d] {
						m[i] = true
					}
				}
			}
		}
		return m
	}
	prune := func(st *zState, b *ssa.BasicBlock) *zState {
		st.forget(deadAt(b))
		return st
	}
	if nb > 6 {
		nb = 6
	}
	// every variable is named before the analysis so that a redefinition is seen
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if isIntT((*op).Type()) {
					f.num(*op)
				}
				if hasLen((*op).Type()) {
					f.length(*op)
				}
			}
		}
	}
	type nodeKey struct {
		b  *ssa.BasicBlock
		pl int
	}
	init := newZState()
	pv := map[string]int{"0": 0}
	for _, pa := range fn.Params {
		if hasLen(pa.Type()) {
			x, _ := f.length(pa)
			init.le(0, 0, x, 0)
			pv["len:"+pa.Name()] = x
		} else if isIntT(pa.Type()) {
			f.typeFacts(init, pa)
			x, _ := f.num(pa)
			pv[pa.Name()] = x
		}
	}
	if spec.entry != nil {
		for k, v := range spec.entry.c {
			x, ok1 := pv[k[0]]
			y, ok2 := pv[k[1]]
			if ok1 && ok2 {
				init.add(x, y, v)
			}
		}
	}
	in := map[nodeKey]*zState{}
	visits := map[nodeKey]int{}
	start := nodeKey{fn.Blocks[0], 0}
	in[start] = init
	work := []nodeKey{start}
	if fn.Recover != nil {
		k := nodeKey{fn.Recover, 0}
		in[k] = newZState()
		work = append(work, k)
	}
	flow := func(k nodeKey, st *zState, rep bool, push func(nodeKey, *zState)) {
		st = st.clone()
		b := k.b
		for _, ins := range b.Instrs {
			if st.bot {
				return
			}
			if _, ok := ins.(*ssa.Phi); ok {
				continue
			}
			if rep && onIn != nil {
				onIn(f, ins, st)
			}
			switch t := ins.(type) {
			case *ssa.If:
				for i, s := range b.Succs {
					n := st.clone()
					f.assume(n, t.Cond, i == 0)
					if !n.bot {
						push(nodeKey{s, k.pl}, prune(f.edge(n, b, s), s))
					}
				}
				return
			case *ssa.Jump:
				push(nodeKey{b.Succs[0], k.pl}, prune(f.edge(st, b, b.Succs[0]), b.Succs[0]))
				return
			case *ssa.Return:
				if rep && onRt != nil {
					onRt(f, t, st)
				}
				return
			default:
				f.define(st, ins)
			}
		}
	}
	peel := func(from *ssa.BasicBlock, k nodeKey) nodeKey {
		if i, ok := f.back[[2]*ssa.BasicBlock{from, k.b}]; ok && i < nb {
			k.pl |= 1 << i
		}
		return k
	}
	for len(work) > 0 {
		k := work[0]
		work = work[1:]
		visits[k]++
		if visits[k] > 4000 {
			break
		}
		flow(k, in[k], false, func(to nodeKey, st *zState) {
			to = peel(k.b, to)
			old, ok := in[to]
			if !ok {
				in[to] = st
				work = append(work, to)
				return
			}
			n := f.join(old, st)
			if zSame(n, old) {
				return
			}
			if visits[to] > 3 {
				n = zWiden(old, n)
				if zSame(n, old) {
					return
				}
			}
			in[to] = n
			for _, w := range work {
				if w == to {
					return
				}
			}
			work = append(work, to)
		})
	}
	var keys []nodeKey
	for k := range in {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i].b.Index != keys[j].b.Index {
			return keys[i].b.Index < keys[j].b.Index
		}
		return keys[i].pl < keys[j].pl
	})
	for _, k := range keys {
		flow(k, in[k], true, func(nodeKey, *zState) {})
	}
}

// edge assigns the phis of a block for one incoming edge.
func (f *zFn) edge(st *zState, from, to *ssa.BasicBlock) *zState {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	type asg struct {
		phi    *ssa.Phi
		x, y   int
		a, b   int64
		isLen  bool
		alloc  *ssa.Alloc
		marked bool
	}
	var as []asg
	n := st.clone()
	tmp := -1
	var ext []func()
	drops := map[ssa.Value]bool{}
	var nils []string
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := phi.Edges[idx]
		drops[phi] = true
		if _, ok := phi.Type().Underlying().(*types.Pointer); ok {
			k, isConst := v.(*ssa.Const)
			if isConst && k.Value == nil || n.mark[nilMark(v)] {
				if f.nils == nil {
					f.nils = map[*ssa.Phi]bool{}
				}
				f.nils[phi] = true
				nils = append(nils, nilMark(phi))
			}
		}
		switch {
		case isIntT(phi.Type()):
			y, b := f.num(v)
			x, a := f.num(phi)
			as = append(as, asg{phi: phi, x: x, a: a, y: y, b: b})
			if y == 0 && x != 0 {
				t := tmp
				tmp--
				n.eq(t, 0, 0, b)
				ext = append(ext, func() { n.eq(x, a, t, 0) })
			} else if x != 0 {
				t := tmp
				tmp--
				n.eq(t, 0, y, b)
				ext = append(ext, func() { n.eq(x, a, t, 0) })
			}
		case hasLen(phi.Type()):
			y, b := f.length(v)
			x, a := f.length(phi)
			if x != 0 {
				t := tmp
				tmp--
				n.eq(t, 0, y, b)
				ext = append(ext, func() { n.eq(x, a, t, 0) })
			}
		default:
			// a record freshly built carries what was stored in its fields
			f.phiRecord(n, phi, v, &tmp, &ext)
		}
	}
	if len(drops) == 0 {
		return n
	}
	drop := map[int]bool{}
	for v := range drops {
		for _, i := range f.of[v] {
			drop[i] = true
		}
	}
	n.forget(drop)
	for k := range n.mark {
		for v := range drops {
			if strings.Contains(k, "|"+v.Name()+"|") {
				delete(n.mark, k)
			}
		}
	}
	for _, m := range nils {
		n.mark[m] = true
	}
	for _, g := range ext {
		g()
	}
	tm := map[int]bool{}
	for i := -1; i > tmp; i-- {
		tm[i] = true
	}
	n.forget(tm)
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if hasLen(phi.Type()) {
			f.lenFacts(n, phi)
		}
	}
	return n
}

// nilMark marks a pointer that is nil.
func nilMark(v ssa.Value) string { return "nil|" + v.Name() + "|" }

// join joins two states. What is known about the fields of a pointer that is
// nil in one of them comes from the other: they cannot be loaded in the first.
func (f *zFn) join(a, b *zState) *zState {
	n := zJoin(a, b)
	if a == nil || a.bot || b.bot {
		return n
	}
	for k := 0; k < 2; k++ {
		for phi := range f.nils {
			if m := nilMark(phi); a.mark[m] && !b.mark[m] {
				of := map[int]bool{}
				for _, i := range f.of[phi] {
					of[i] = true
				}
				for key, c := range b.c {
					if of[key[0]] || of[key[1]] {
						n.c[key] = c
					}
				}
			}
		}
		a, b = b, a
	}
	return n
}

func (f *zFn) phiRecord(n *zState, phi *ssa.Phi, v ssa.Value, tmp *int, ext *[]func()) {
	pt, ok := phi.Type().Underlying().(*types.Pointer)
	if !ok {
		return
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		if !hasLen(fl.Type()) || !f.z.immutField(pt.Elem(), fl.Name()) {
			continue
		}
		key := "len:ld(" + phi.Name() + "." + fl.Name() + ")"
		var y int
		var b int64
		if al, ok := v.(*ssa.Alloc); ok {
			found := false
			for _, r := range *al.Referrers() {
				fa, ok := r.(*ssa.FieldAddr)
				if !ok || fa.Field != i {
					continue
				}
				for _, rr := range *fa.Referrers() {
					if s, ok := rr.(*ssa.Store); ok && s.Addr == fa {
						y, b = f.length(s.Val)
						found = true
					}
				}
			}
			if !found {
				continue
			}
		} else {
			dep := map[ssa.Value]bool{}
			k := "len:ld(" + f.name(v, dep) + "." + fl.Name() + ")"
			yy, ok := f.vars[k]
			if !ok {
				continue
			}
			y = yy
		}
		x := f.varOf(key, map[ssa.Value]bool{phi: true})
		t := *tmp
		*tmp--
		n.eq(t, 0, y, b)
		*ext = append(*ext, func() { n.eq(x, 0, t, 0) })
	}
}

// trueSummary is what a predicate establishes about its parameters when it
// returns true.
func (z *Zones) trueSummary(fn *ssa.Function) []zCond {
	if s, ok := z.summary[fn]; ok {
		return s
	}
	if z.summing[fn] {
		return nil
	}
	res := fn.Signature.Results()
	if res.Len() != 1 || !isBool0(res.At(0).Type()) || len(fn.Blocks) == 0 {
		z.summary[fn] = nil
		return nil
	}
	z.summing[fn] = true
	var out map[[2]string]int64
	z.run(&zSpec{fn: fn}, nil, func(f *zFn, in *ssa.Return, st *zState) {
		s := st.clone()
		if c, ok := in.Results[0].(*ssa.Const); ok {
			if !constant.BoolVal(c.Value) {
				return
			}
		} else if phi, ok := in.Results[0].(*ssa.Phi); ok && phi.Block() == in.Block() {
			out = map[[2]string]int64{}
			return
		} else {
			f.assume(s, in.Results[0], true)
		}
		if s.bot {
			return
		}
		rev := map[int]string{0: "0"}
		for k, i := range f.vars {
			ok := true
			for d := range f.deps[i] {
				if _, isP := d.(*ssa.Parameter); !isP {
					ok = false
				}
			}
			if ok {
				rev[i] = k
			}
		}
		cur := map[[2]string]int64{}
		for k, v := range s.c {
			a, ok1 := rev[k[0]]
			b, ok2 := rev[k[1]]
			if ok1 && ok2 {
				cur[[2]string{a, b}] = v
			}
		}
		if out == nil {
			out = cur
			return
		}
		for k, v := range out {
			if w, ok := cur[k]; !ok {
				delete(out, k)
			} else if w > v {
				out[k] = w
			}
		}
	})
	z.summing[fn] = false
	var l []zCond
	for k, v := range out {
		l = append(l, zCond{k[0], k[1], v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].x+l[i].y < l[j].x+l[j].y })
	z.summary[fn] = l
	return l
}

func isBool0(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// subst renames a summary variable into the caller.
func (f *zFn) subst(key string, callee *ssa.Function, cc *ssa.CallCommon) (int, int64, bool) {
	if key == "0" {
		return 0, 0, true
	}
	isLen := strings.HasPrefix(key, "len:")
	body := strings.TrimPrefix(key, "len:")
	for i, pa := range callee.Params {
		nm := pa.Name()
		if body == nm {
			if isLen {
				x, a := f.length(cc.Args[i])
				return x, a, true
			}
			x, a := f.num(cc.Args[i])
			return x, a, true
		}
		if pre := "ld(" + nm + "."; strings.HasPrefix(body, pre) && strings.Count(body, "(") == 1 {
			dep := map[ssa.Value]bool{}
			k := "ld(" + f.name(cc.Args[i], dep) + "." + strings.TrimPrefix(body, pre)
			if isLen {
				k = "len:" + k
			}
			if n, ok := f.spec.fields[k]; ok {
				return 0, n, true
			}
			return f.varOf(k, dep), 0, true
		}
	}
	return 0, 0, false
}

// okFacts: what a call's results satisfy when it reports no error, or a result
// that is not nil.
func (f *zFn) okFacts(st *zState, c *ssa.BinOp, op token.Token) {
	v := c.X
	k, ok := c.Y.(*ssa.Const)
	if !ok {
		k, ok = c.X.(*ssa.Const)
		v = c.Y
	}
	if !ok || k.Value != nil {
		return
	}
	if isErrT(v.Type()) && op == token.NEQ {
		st.mark["nonnil:|"+v.Name()+"|"] = true
	}
	if ex, ok := v.(*ssa.Extract); ok && op == token.EQL {
		call, ok := ex.Tuple.(*ssa.Call)
		if !ok || ex.Index != call.Call.Signature().Results().Len()-1 {
			return
		}
		g := call.Call.StaticCallee()
		if g != nil && f.z.p.inRepo(g) {
			for _, k := range f.z.okSummary(g) {
				x, xa, ok1 := f.substRes(k.x, g, call)
				y, ya, ok2 := f.substRes(k.y, g, call)
				if ok1 && ok2 {
					st.le(x, xa, y, ya+k.c)
				}
			}
		}
		if g != nil && g.String() == "(*bufio.Reader).Peek" {
			for _, r := range *call.Referrers() {
				if e0, ok := r.(*ssa.Extract); ok && e0.Index == 0 {
					x, a := f.length(e0)
					y, b := f.num(call.Call.Args[1])
					st.eq(x, a, y, b)
				}
			}
		}
	}
	if call, ok := v.(*ssa.Call); ok && op == token.NEQ {
		if g := call.Call.StaticCallee(); g != nil && g.String() == "(*regexp.Regexp).FindStringSubmatch" {
			if n := f.z.regexpGroups(call.Call.Args[0]); n >= 0 {
				x, a := f.length(call)
				st.eq(x, a, 0, int64(n)+1)
			}
		}
	}
}

func isErrT(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

// okSummary is what the results and parameters of a function satisfy when it
// returns, with a nil error if its last result is one.
func (z *Zones) okSummary(fn *ssa.Function) []zCond {
	if s, ok := z.oksum[fn]; ok {
		return s
	}
	if z.oksum == nil {
		z.oksum = map[*ssa.Function][]zCond{}
	}
	z.oksum[fn] = nil
	res := fn.Signature.Results()
	useful := false
	for i := 0; i < res.Len(); i++ {
		useful = useful || isIntT(res.At(i).Type()) || hasLen(res.At(i).Type())
	}
	if !useful || len(fn.Blocks) == 0 {
		return nil
	}
	var out map[[2]string]int64
	z.run(&zSpec{fn: fn}, nil, func(f *zFn, in *ssa.Return, st *zState) {
		n := len(in.Results)
		if n > 0 && isErrT(in.Results[n-1].Type()) {
			e := in.Results[n-1]
			if st.mark["nonnil:|"+e.Name()+"|"] {
				return
			}
			switch x := e.(type) {
			case *ssa.MakeInterface:
				return
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && (g.String() == "fmt.Errorf" || g.String() == "errors.New") {
					return
				}
			case *ssa.UnOp:
				if g, ok := x.X.(*ssa.Global); ok && strings.HasPrefix(g.Name(), "Err") || g != nil && g.String() == "io.EOF" {
					return
				}
			}
		}
		type vv struct {
			x int
			a int64
		}
		vars := map[string]vv{"0": {0, 0}}
		for i, r := range in.Results {
			if isIntT(r.Type()) {
				x, a := f.num(r)
				vars["r"+strconv.Itoa(i)] = vv{x, a}
			} else if hasLen(r.Type()) {
				x, a := f.length(r)
				vars["len:r"+strconv.Itoa(i)] = vv{x, a}
			}
		}
		for k, i := range f.vars {
			ok := true
			for d := range f.deps[i] {
				if _, isP := d.(*ssa.Parameter); !isP {
					ok = false
				}
			}
			if ok && cellKind(k) == "" {
				vars["p:"+k] = vv{i, 0}
			}
		}
		cur := map[[2]string]int64{}
		for k1, v1 := range vars {
			for k2, v2 := range vars {
				if k1 == k2 || strings.HasPrefix(k1, "p:") && strings.HasPrefix(k2, "p:") {
					continue
				}
				if d := st.get(v1.x, v2.x); d != zInf {
					cur[[2]string{k1, k2}] = d + v1.a - v2.a
				}
			}
		}
		if out == nil {
			out = cur
			return
		}
		for k, v := range out {
			if w, ok := cur[k]; !ok {
				delete(out, k)
			} else if w > v {
				out[k] = w
			}
		}
	})
	var l []zCond
	for k, v := range out {
		l = append(l, zCond{k[0], k[1], v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].x+" "+l[i].y < l[j].x+" "+l[j].y })
	z.oksum[fn] = l
	return l
}

func (f *zFn) substRes(key string, g *ssa.Function, call *ssa.Call) (int, int64, bool) {
	if key == "0" {
		return 0, 0, true
	}
	if strings.HasPrefix(key, "p:") {
		return f.subst(key[2:], g, &call.Call)
	}
	isLen := strings.HasPrefix(key, "len:")
	i, err := strconv.Atoi(strings.TrimPrefix(strings.TrimPrefix(key, "len:"), "r"))
	if err != nil {
		return 0, 0, false
	}
	var v ssa.Value
	if g.Signature.Results().Len() == 1 {
		v = call
	} else {
		for _, r := range *call.Referrers() {
			if ex, ok := r.(*ssa.Extract); ok && ex.Index == i {
				v = ex
			}
		}
	}
	if v == nil {
		return 0, 0, false
	}
	if isLen {
		x, a := f.length(v)
		return x, a, true
	}
	x, a := f.num(v)
	return x, a, true
}

// callFacts: what the results of a function without an error result satisfy.
func (f *zFn) callFacts(st *zState, c *ssa.Call, idx int) {
	g := c.Call.StaticCallee()
	if g == nil || !f.z.p.inRepo(g) {
		return
	}
	res := g.Signature.Results()
	if res.Len() == 0 || isErrT(res.At(res.Len()-1).Type()) {
		return
	}
	if idx < 0 && res.Len() > 1 {
		return
	}
	other := func(key string) bool { // another result, not yet taken
		key = strings.TrimPrefix(key, "len:")
		return strings.HasPrefix(key, "r") && idx >= 0 && key != "r"+strconv.Itoa(idx)
	}
	for _, k := range f.z.okSummary(g) {
		if other(k.x) || other(k.y) {
			continue
		}
		x, xa, ok1 := f.substRes(k.x, g, c)
		y, ya, ok2 := f.substRes(k.y, g, c)
		if ok1 && ok2 {
			st.le(x, xa, y, ya+k.c)
		}
	}
}
