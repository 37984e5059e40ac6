package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C07: no program makes the interpreter fail a check of the Go runtime.

// strictComparable says that == on two values of the type cannot panic.
func strictComparable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Pointer, *types.Chan:
		return true
	case *types.Array:
		return strictComparable(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !strictComparable(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

type cmpSafe struct {
	p       *Prog
	implM   map[types.Type]bool
	stores  map[ssa.Value][]ssa.Value // global -> stored values
	leaked  map[ssa.Value]bool
	fstores map[string][]ssa.Value
	guardM  map[*ssa.Function]int
	boxed   map[types.Type]bool // converted to an interface somewhere
}

func newCmpSafe(p *Prog) *cmpSafe {
	c := &cmpSafe{p: p, implM: map[types.Type]bool{}, stores: map[ssa.Value][]ssa.Value{}, leaked: map[ssa.Value]bool{}, guardM: map[*ssa.Function]int{}, boxed: map[types.Type]bool{}}
	for _, f := range p.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					c.boxed[mi.X.Type()] = true
				}
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						c.stores[g] = append(c.stores[g], st.Val)
						if _, ok := st.Val.(*ssa.Global); !ok {
							continue
						}
					}
				}
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					continue
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) && st.Val != ssa.Value(g) {
							continue
						}
						c.leaked[g] = true
					}
				}
			}
		}
	}
	return c
}

// iface says that every type of the repository in the interface is comparable.
func (c *cmpSafe) iface(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return strictComparable(t)
	}
	if it.NumMethods() == 0 {
		return false
	}
	if nt, ok := t.(*types.Named); ok && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == "reflect" && nt.Obj().Name() == "Type" {
		return true
	}
	if r, ok := c.implM[t]; ok {
		return r
	}
	res, n := true, 0
	for _, pk := range c.p.Pkgs {
		for _, name := range pk.Types.Scope().Names() {
			tn, ok := pk.Types.Scope().Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(tn.Type(), it) {
				n++
				if c.boxed[tn.Type()] && !strictComparable(tn.Type()) {
					res = false
				}
			} else if types.Implements(types.NewPointer(tn.Type()), it) {
				n++
			}
		}
	}
	if n == 0 {
		res = false
	}
	c.implM[t] = res
	return res
}

func (c *cmpSafe) val(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if c.iface(v.Type()) {
		return true
	}
	switch t := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeInterface:
		return strictComparable(t.X.Type())
	case *ssa.ChangeInterface:
		return c.val(t.X, seen)
	case *ssa.Phi:
		for _, e := range t.Edges {
			if !c.val(e, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if g, ok := t.X.(*ssa.Global); ok && t.Op == token.MUL && !c.leaked[g] && len(c.stores[g]) > 0 {
			for _, s := range c.stores[g] {
				if !c.val(s, seen) {
					return false
				}
			}
			return true
		}
		if base, typ, field := fieldLoad(t); base != nil && typ != "" {
			return c.field(typ+"."+field, seen)
		}
	case *ssa.Field:
		if _, typ, field := fieldLoad(t); typ != "" {
			return c.field(typ+"."+field, seen)
		}
	case *ssa.Extract:
		if ta, ok := t.Tuple.(*ssa.TypeAssert); ok && t.Index == 0 {
			return c.iface(ta.AssertedType)
		}
		if _, ok := t.Tuple.(*ssa.Next); ok && t.Index == 1 {
			return true // a key of a map
		}
		if call, ok := t.Tuple.(*ssa.Call); ok {
			return c.callRes(call, t.Index, seen)
		}
	case *ssa.Call:
		return c.callRes(t, 0, seen)
	}
	return false
}

// field says that only comparable values are stored in the field.
func (c *cmpSafe) field(key string, seen map[ssa.Value]bool) bool {
	if c.fstores == nil {
		c.fstores = map[string][]ssa.Value{}
		for _, f := range c.p.All {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch st := in.(type) {
					case *ssa.Store:
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
							s, n := structOf(fa.X.Type())
							if s != nil {
								c.fstores[typeKey(n)+"."+s.Field(fa.Field).Name()] = append(c.fstores[typeKey(n)+"."+s.Field(fa.Field).Name()], st.Val)
							}
						}
					case *ssa.FieldAddr:
						s, n := structOf(st.X.Type())
						if s == nil || !types.IsInterface(s.Field(st.Field).Type()) {
							continue
						}
						for _, r := range *st.Referrers() {
							if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
								continue
							}
							if w, ok := r.(*ssa.Store); ok && w.Addr == ssa.Value(st) {
								continue
							}
							c.fstores[typeKey(n)+"."+s.Field(st.Field).Name()] = append(c.fstores[typeKey(n)+"."+s.Field(st.Field).Name()], nil)
						}
					}
				}
			}
		}
	}
	vs := c.fstores[key]
	if len(vs) == 0 {
		return false
	}
	for _, v := range vs {
		if v == nil || !c.val(v, seen) {
			return false
		}
	}
	return true
}

func (c *cmpSafe) callRes(call *ssa.Call, idx int, seen map[ssa.Value]bool) bool {
	gs := c.p.graph().callees(call)
	if len(gs) == 0 {
		return false
	}
	for _, g := range gs {
		if len(g.Blocks) == 0 || !c.p.inRepo(g) {
			return false
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if rt, ok := in.(*ssa.Return); ok && !c.val(rt.Results[idx], seen) {
					return false
				}
			}
		}
	}
	return true
}

// everyPath says that each path from the entry to the block takes a branch
// that the test accepts.
func everyPath(b *ssa.BasicBlock, test func(cond ssa.Value, taken bool) bool) bool {
	state := map[*ssa.BasicBlock]int{} // 1: open, 2: yes, 3: no
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if s := state[b]; s != 0 {
			return s != 3
		}
		state[b] = 1
		ok := len(b.Preds) > 0
		for _, p := range b.Preds {
			good := false
			if iff, is := p.Instrs[len(p.Instrs)-1].(*ssa.If); is && p.Succs[0] != p.Succs[1] {
				cond, taken := iff.Cond, p.Succs[0] == b
				for {
					u, is := cond.(*ssa.UnOp)
					if !is || u.Op != token.NOT {
						break
					}
					cond, taken = u.X, !taken
				}
				good = test(cond, taken)
			}
			if !good && !walk(p) {
				ok = false
				break
			}
		}
		if ok {
			state[b] = 2
		} else {
			state[b] = 3
		}
		return ok
	}
	return walk(b)
}

func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL {
		i, ok1 := x.X.(*ssa.IndexAddr)
		j, ok2 := y.X.(*ssa.IndexAddr)
		if ok1 && ok2 && i.X == j.X {
			if i.Index == j.Index {
				return true
			}
			c, ok1 := i.Index.(*ssa.Const)
			d, ok2 := j.Index.(*ssa.Const)
			return ok1 && ok2 && c.Value != nil && d.Value != nil && c.Value.ExactString() == d.Value.ExactString()
		}
		return x.X == y.X
	}
	return false
}

// guarded says that the branches taken before the block show v comparable.
func (c *cmpSafe) guarded(b *ssa.BasicBlock, v ssa.Value) bool {
	for {
		ci, ok := v.(*ssa.ChangeInterface)
		if !ok {
			break
		}
		v = ci.X
	}
	return everyPath(b, func(cond ssa.Value, taken bool) bool {
		if !taken {
			return false
		}
		switch t := cond.(type) {
		case *ssa.Extract:
			if ta, ok := t.Tuple.(*ssa.TypeAssert); ok && t.Index == 1 {
				return sameValue(ta.X, v) && c.iface(ta.AssertedType)
			}
		case *ssa.Call:
			g := t.Call.StaticCallee()
			if g == nil {
				return false
			}
			if fnPath(g) == "reflect.Comparable" && len(t.Call.Args) == 1 {
				if r, ok := t.Call.Args[0].(*ssa.Call); ok {
					if h := r.Call.StaticCallee(); h != nil && fnPath(h) == "reflect.ValueOf" {
						x := r.Call.Args[0]
						for {
							ci, ok := x.(*ssa.ChangeInterface)
							if !ok {
								break
							}
							x = ci.X
						}
						return sameValue(x, v)
					}
				}
				return false
			}
			for i, a := range t.Call.Args {
				if sameValue(a, v) && c.checker(g, i) {
					return true
				}
			}
		}
		return false
	})
}

func fnPath(g *ssa.Function) string {
	if pk := fnPkg(g); pk != nil {
		return pk.Path() + "." + g.Name()
	}
	return g.Name()
}

// checker says that the function returns true only for a comparable argument.
func (c *cmpSafe) checker(g *ssa.Function, arg int) bool {
	if len(g.Blocks) == 0 || arg >= len(g.Params) || g.Signature.Results().Len() != 1 || !c.p.inRepo(g) {
		return false
	}
	if bt, ok := g.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
		return false
	}
	if s := c.guardM[g]; s != 0 {
		return s == 2
	}
	c.guardM[g] = 1
	var truth func(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) bool
	truth = func(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "false" {
			return true
		}
		if seen[v] {
			return true
		}
		seen[v] = true
		switch t := v.(type) {
		case *ssa.Phi:
			ok := true
			for i, e := range t.Edges {
				ok = ok && truth(e, t.Block().Preds[i], seen)
			}
			if ok {
				return true
			}
		case *ssa.Extract:
			if ta, ok := t.Tuple.(*ssa.TypeAssert); ok && t.Index == 1 && ta.X == ssa.Value(g.Params[arg]) && c.iface(ta.AssertedType) {
				return true
			}
		}
		return c.guarded(b, g.Params[arg])
	}
	ok := true
	for _, b := range g.Blocks {
		if rt, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
			ok = ok && truth(rt.Results[0], b, map[ssa.Value]bool{})
		}
	}
	if ok {
		c.guardM[g] = 2
	}
	return ok
}

func (c *cmpSafe) safe(b *ssa.BasicBlock, v ssa.Value) bool {
	return c.val(v, map[ssa.Value]bool{}) || c.guarded(b, v)
}

// assertSafe says that the assertion repeats a test that succeeded.
func assertSafe(t *ssa.TypeAssert) bool {
	if types.IsInterface(t.AssertedType) && types.Implements(t.X.Type(), t.AssertedType.Underlying().(*types.Interface)) {
		return false // fails for nil
	}
	return everyPath(t.Block(), func(cond ssa.Value, taken bool) bool {
		if e, ok := cond.(*ssa.Extract); ok && taken && e.Index == 1 {
			if ta, ok := e.Tuple.(*ssa.TypeAssert); ok {
				return sameValue(ta.X, t.X) && types.Identical(ta.AssertedType, t.AssertedType)
			}
		}
		return false
	})
}

// panicSource names the call whose error a panic reports.
func panicSource(v ssa.Value) *ssa.Call {
	for depth := 0; depth < 8; depth++ {
		switch t := v.(type) {
		case *ssa.MakeInterface:
			v = t.X
		case *ssa.ChangeInterface:
			v = t.X
		case *ssa.Extract:
			v = t.Tuple
		case *ssa.Call:
			if t.Call.IsInvoke() && t.Call.Method.Name() == "Error" {
				v = t.Call.Value
				continue
			}
			return t
		default:
			return nil
		}
	}
	return nil
}

func (p *Prog) expectedPanic(t *ssa.Panic) string {
	call := panicSource(t.X)
	if call == nil {
		return ""
	}
	name := ""
	if call.Call.IsInvoke() {
		name = call.Call.Method.Name()
	} else if g := call.Call.StaticCallee(); g != nil {
		name = g.Name()
	}
	switch name {
	case "UnreadRune":
		return "UnreadRune after a ReadRune that succeeded"
	case "ReadAll":
		// the source is text embedded in the program
		if len(call.Call.Args) == 1 {
			if r, ok := stripIface(call.Call.Args[0]).(*ssa.Call); ok && len(r.Call.Args) == 1 {
				if u, ok := r.Call.Args[0].(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok && p.embedded(g) {
						return "the start-up code is part of the program (C20)"
					}
				}
			}
		}
	case "NReverse":
		return "a list built by the function itself is reversed"
	}
	return ""
}

func stripIface(v ssa.Value) ssa.Value {
	for {
		switch t := v.(type) {
		case *ssa.MakeInterface:
			v = t.X
		case *ssa.ChangeInterface:
			v = t.X
		default:
			return v
		}
	}
}

// embedded says that nothing in the program stores to the global.
func (p *Prog) embedded(g *ssa.Global) bool {
	for _, f := range p.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					return false
				}
			}
		}
	}
	return true
}

func checkC07(p *Prog, r *Report) {
	ord := map[string]int{}
	key := func(f *ssa.Function, kind string) string {
		k := fnName(f) + "/" + kind
		ord[k]++
		return fmt.Sprintf("%s#%d", k, ord[k])
	}
	b := newBounds(p)
	for _, o := range b.obligations() {
		r.ob(1)
		r.count(o.kind+" operations", 1)
		r.Fns[fnName(o.fn)] = true
		k := key(o.fn, o.kind)
		if !o.ok {
			r.add(k, p.pos(o.in.Pos()), "%s: %s in %s", o.kind, o.msg, fnName(o.fn))
		}
	}
	c := newCmpSafe(p)
	for _, f := range p.All {
		if uninstantiated(f) {
			continue
		}
		r.Fns[fnName(f)] = true
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				switch t := in.(type) {
				case *ssa.TypeAssert:
					if t.CommaOk {
						continue
					}
					r.ob(1)
					r.count("type assertions", 1)
					if k := key(f, "assertion"); !assertSafe(t) {
						r.add(k, p.pos(t.Pos()), "a type assertion to %s in %s can fail", t.AssertedType, fnName(f))
					}
				case *ssa.Panic:
					if f.Synthetic != "" {
						continue
					}
					r.ob(1)
					r.count("panics", 1)
					k := key(f, "panic")
					if why := p.expectedPanic(t); why == "" {
						r.add(k, p.pos(t.Pos()), "%s panics", fnName(f))
					} else {
						r.sample("%s: %s", p.pos(t.Pos()), why)
					}
				case *ssa.BinOp:
					if t.Op != token.EQL && t.Op != token.NEQ || !types.IsInterface(t.X.Type()) || !types.IsInterface(t.Y.Type()) {
						continue
					}
					if isErrT(t.X.Type()) && isErrT(t.Y.Type()) {
						continue
					}
					if k1, ok := t.X.(*ssa.Const); ok && k1.IsNil() {
						continue
					}
					if k2, ok := t.Y.(*ssa.Const); ok && k2.IsNil() {
						continue
					}
					r.ob(1)
					r.count("comparisons of interfaces", 1)
					if k := key(f, "comparison"); !c.safe(bl, t.X) && !c.safe(bl, t.Y) {
						r.add(k, p.pos(t.Pos()), "the values compared with == in %s may be of a type that has no comparison", fnName(f))
					}
				case *ssa.MapUpdate:
					if !types.IsInterface(t.Key.Type()) {
						continue
					}
					r.ob(1)
					r.count("map keys", 1)
					if k := key(f, "map key"); !c.safe(bl, t.Key) {
						r.add(k, p.pos(t.Pos()), "the key stored in a map in %s may be of a type that has no comparison", fnName(f))
					}
				case *ssa.Lookup:
					m, ok := t.X.Type().Underlying().(*types.Map)
					if !ok || !types.IsInterface(m.Key()) {
						continue
					}
					r.ob(1)
					r.count("map keys", 1)
					if k := key(f, "map key"); !c.safe(bl, t.Index) {
						r.add(k, p.pos(t.Pos()), "the key looked up in a map in %s may be of a type that has no comparison", fnName(f))
					}
				case *ssa.Call:
					if bi, ok := t.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						m := t.Call.Args[0].Type().Underlying().(*types.Map)
						if !types.IsInterface(m.Key()) {
							continue
						}
						r.ob(1)
						r.count("map keys", 1)
						if k := key(f, "map key"); !c.safe(bl, t.Call.Args[1]) {
							r.add(k, p.pos(t.Pos()), "the key removed from a map in %s may be of a type that has no comparison", fnName(f))
						}
					}
				}
			}
		}
	}
	r.floor("slice index operations", 100)
	r.floor("slice operations", 20)
	r.floor("division operations", 4)
	r.floor("comparisons of interfaces", 20)
	r.floor("map keys", 20)
}
