package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// callGraph resolves calls: interface calls to the methods of the types that
// implement the interface, calls of a function held in a struct field to the
// functions stored in that field, and other dynamic calls by signature.
type callGraph struct {
	p       *Prog
	methods map[string][]*ssa.Function
	field   map[string][]*ssa.Function // owner.field
	open    map[string]bool            // fields also holding other values
	addr    []*ssa.Function
	memo    map[ssa.CallInstruction][]*ssa.Function
}

func (p *Prog) graph() *callGraph {
	if p.cg != nil {
		return p.cg
	}
	g := &callGraph{p: p, methods: map[string][]*ssa.Function{}, field: map[string][]*ssa.Function{}, open: map[string]bool{}, memo: map[ssa.CallInstruction][]*ssa.Function{}}
	p.cg = g
	addr := map[*ssa.Function]bool{}
	for _, f := range p.All {
		if uninstantiated(f) {
			continue
		}
		if f.Signature.Recv() != nil {
			g.methods[f.Name()] = append(g.methods[f.Name()], f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						st, t := structOf(fa.X.Type())
						fl := st.Field(fa.Field)
						if _, ok := fl.Type().Underlying().(*types.Signature); ok {
							k := typeKey(t) + "." + fl.Name()
							if h := unFunc(s.Val); h != nil {
								g.field[k] = append(g.field[k], h)
								continue
							} else if c, ok := s.Val.(*ssa.Const); !ok || c.Value != nil {
								g.open[k] = true
							}
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					for _, r := range *mc.Referrers() {
						if c, ok := r.(ssa.CallInstruction); ok && c.Common().Value == mc {
							continue
						}
						if _, ok := r.(*ssa.DebugRef); ok {
							continue
						}
						if s, ok := r.(*ssa.Store); ok {
							if fa, ok := s.Addr.(*ssa.FieldAddr); ok && s.Val == mc {
								_ = fa
								continue
							}
						}
						addr[mc.Fn.(*ssa.Function)] = true
					}
					continue
				}
				for _, op := range in.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok {
						if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == h {
							continue
						}
						addr[h] = true
					}
				}
			}
		}
	}
	for f := range addr {
		g.addr = append(g.addr, f)
	}
	sort.Slice(g.addr, func(i, j int) bool { return g.addr[i].String() < g.addr[j].String() })
	return g
}

func (g *callGraph) callees(ci ssa.CallInstruction) []*ssa.Function {
	if l, ok := g.memo[ci]; ok {
		return l
	}
	cc := ci.Common()
	var out []*ssa.Function
	switch {
	case cc.IsInvoke():
		iface, _ := cc.Value.Type().Underlying().(*types.Interface)
		for _, m := range g.methods[cc.Method.Name()] {
			if !sameSig(m.Signature, cc.Signature()) {
				continue
			}
			rt := m.Signature.Recv().Type()
			if iface != nil && !types.Implements(rt, iface) && !types.Implements(types.NewPointer(rt), iface) {
				continue
			}
			out = append(out, m)
		}
	case cc.StaticCallee() != nil:
		out = append(out, cc.StaticCallee())
	default:
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			break
		}
		if _, owner, field := fieldLoad(cc.Value); owner != "" && !g.open[owner+"."+field] {
			out = append(out, g.field[owner+"."+field]...)
			break
		}
		seen := map[*ssa.Function]bool{}
		for _, f := range g.addr {
			if sameSig(f.Signature, cc.Signature()) && !seen[f] {
				seen[f] = true
				out = append(out, f)
			}
		}
		for _, fs := range g.field {
			for _, f := range fs {
				if sameSig(f.Signature, cc.Signature()) && !seen[f] {
					seen[f] = true
					out = append(out, f)
				}
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	}
	g.memo[ci] = out
	return out
}
