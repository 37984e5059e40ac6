package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the loaded program.
type Prog struct {
	Dir         string
	Pkgs        []*packages.Package
	SSA         *ssa.Program
	Fset        *token.FileSet
	Main        *ssa.Package // the interpreter package
	ModPath     string
	All         []*ssa.Function // every function of the repository, sorted
	liveMemo    map[*ssa.Function][]map[ssa.Value]bool
	immut       map[string]bool // owner.field
	cg          *callGraph
	globs       map[string]*Term
	symTexts    map[string]string
	replacerMod map[string][]string
	rxMod       map[string]string
	classMod    *classModel
	globInit    map[string]bool
	globSome    map[string]bool // set once, to a new error
	Reg         []*Builtin
	byName      map[string]*Builtin
	mayEvalM    map[*ssa.Function]bool
	neverM      map[*ssa.Function]bool
	specM       map[*ssa.Function]bool
}

func loadProg(dir string) (*Prog, error) {
	env := []string{}
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "GOPROXY=") || strings.HasPrefix(kv, "GOWORK=") || strings.HasPrefix(kv, "GOTOOLCHAIN=") || strings.HasPrefix(kv, "GOSUMDB=") {
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
		packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir, Env: env}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Dir: dir, Pkgs: pkgs, liveMemo: map[*ssa.Function][]map[ssa.Value]bool{}}
	for _, k := range pkgs {
		if len(k.Errors) > 0 {
			return nil, fmt.Errorf("%s does not type-check: %v", k.PkgPath, k.Errors[0])
		}
		if k.Module != nil {
			p.ModPath = k.Module.Path
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	p.Fset = prog.Fset
	for i, k := range pkgs {
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", k.PkgPath)
		}
		if k.PkgPath == p.ModPath {
			p.Main = spkgs[i]
		}
	}
	if p.Main == nil {
		return nil, fmt.Errorf("interpreter package %q not found", p.ModPath)
	}
	for f := range ssautil.AllFunctions(prog) {
		if p.inRepo(f) && len(f.Blocks) > 0 {
			p.All = append(p.All, f)
		}
	}
	sort.Slice(p.All, func(i, j int) bool {
		a, b := p.All[i], p.All[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	p.scanImmutable()
	p.scanGlobals()
	p.scanRegistry()
	return p, nil
}

func fnPkg(f *ssa.Function) *types.Package {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
		if f.Origin() != nil && f.Origin() != f {
			f = f.Origin()
			continue
		}
		f = f.Parent()
	}
	return nil
}

// promoted says that f is a method that a type of the repository has from what
// it embeds.
func (p *Prog) promoted(f *ssa.Function) bool {
	rv := f.Signature.Recv()
	if rv == nil || !strings.HasPrefix(f.Synthetic, "wrapper for") {
		return false
	}
	n, ok := derefType(rv.Type()).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), p.ModPath)
}

func (p *Prog) inRepo(f *ssa.Function) bool {
	k := fnPkg(f)
	return k != nil && (k.Path() == p.ModPath || strings.HasPrefix(k.Path(), p.ModPath+"/"))
}

func fnName(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/hymkor/gmnlisp/pkg/", "")
	s = strings.ReplaceAll(s, "github.com/hymkor/gmnlisp/cmd/", "cmd/")
	s = strings.ReplaceAll(s, "github.com/hymkor/gmnlisp.", "")
	s = strings.ReplaceAll(s, "github.com/hymkor/", "")
	return s
}

func (p *Prog) pos(x token.Pos) string {
	q := p.Fset.Position(x)
	if !q.IsValid() {
		return "?"
	}
	return strings.TrimPrefix(q.Filename, p.Dir+"/") + ":" + fmt.Sprint(q.Line)
}

func (p *Prog) liveness(fn *ssa.Function) []map[ssa.Value]bool {
	if l, ok := p.liveMemo[fn]; ok {
		return l
	}
	n := len(fn.Blocks)
	live := make([]map[ssa.Value]bool, n)
	for i := range live {
		live[i] = map[ssa.Value]bool{}
	}
	interesting := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range live[s.Index] {
					if phi, ok := v.(*ssa.Phi); ok && phi.Block() == s {
						// the value is made on the edge; the config already holds it
						continue
					}
					cur[v] = true
				}
				for k, pr := range s.Preds {
					if pr != b {
						continue
					}
					for _, in := range s.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if interesting(phi.Edges[k]) {
							cur[phi.Edges[k]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if phi, ok := in.(*ssa.Phi); ok {
					// phis are set before the block is entered: keep those used
					_ = phi
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if *o != nil && interesting(*o) {
						cur[*o] = true
					}
				}
			}
			for v := range cur {
				if !live[i][v] {
					live[i][v] = true
					changed = true
				}
			}
		}
	}
	p.liveMemo[fn] = live
	return live
}

func (p *Prog) methodOf(t types.Type, m *types.Func) *ssa.Function {
	sel := p.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.SSA.MethodValue(sel)
}

// scanImmutable finds the struct fields that are only set while the struct is
// being built.
func (p *Prog) scanImmutable() {
	all := map[string]bool{}
	mut := map[string]bool{}
	key := func(fa *ssa.FieldAddr) string {
		st := derefType(fa.X.Type())
		s := st.Underlying().(*types.Struct)
		return typeKey(st) + "." + s.Field(fa.Field).Name()
	}
	for _, f := range p.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					k := key(in)
					all[k] = true
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.Store:
							if r.Addr == in {
								if _, ok := builtHere(in.X).(*ssa.Alloc); ok {
									continue
								}
								if fa, ok := in.X.(*ssa.FieldAddr); ok {
									if _, ok := fa.X.(*ssa.Alloc); ok {
										continue
									}
								}
								mut[k] = true
							} else {
								mut[k] = true
							}
						case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
						default:
							mut[k] = true
						}
					}
				case *ssa.Store:
					// storing a whole struct through a pointer
					if _, ok := in.Addr.(*ssa.Alloc); ok {
						continue
					}
					if s, ok := in.Val.Type().Underlying().(*types.Struct); ok {
						for i := 0; i < s.NumFields(); i++ {
							mut[typeKey(in.Val.Type())+"."+s.Field(i).Name()] = true
						}
					}
				}
			}
		}
	}
	p.immut = map[string]bool{}
	for k := range all {
		if !mut[k] {
			p.immut[k] = true
		}
	}
}

func (p *Prog) immutableAddr(a *Term) bool {
	for a.op == "fld" {
		if !p.immut[a.s] {
			return false
		}
		if a.args[0].op != "fld" {
			return true
		}
		a = a.args[0]
	}
	return false
}

// scanGlobals finds package variables set only by their initialiser.
func (p *Prog) scanGlobals() {
	p.globs = map[string]*Term{}
	p.globInit = map[string]bool{}
	p.globSome = map[string]bool{}
	stores := map[string][]*ssa.Store{}
	bad := map[string]bool{}
	gl := map[string]*ssa.Global{}
	for _, pk := range p.SSA.AllPackages() {
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				gl[g.String()] = g
			}
		}
	}
	for _, f := range p.All {
		initFn := f.Name() == "init" && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					switch in := in.(type) {
					case *ssa.Store:
						if in.Addr == g {
							stores[g.String()] = append(stores[g.String()], in)
							if !initFn {
								bad[g.String()] = true
							}
							continue
						}
						bad[g.String()] = true
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.FieldAddr, *ssa.IndexAddr:
						// parts may be changed, the variable itself is not a pointer we track
						bad[g.String()] = true
					default:
						bad[g.String()] = true
					}
				}
			}
		}
	}
	alias := map[string]string{}
	defer func() {
		for range 3 {
			for n, m := range alias {
				if p.globSome[m] {
					p.globSome[n] = true
				}
			}
		}
	}()
	for n, g := range gl {
		if bad[n] {
			continue
		}
		p.globInit[n] = true
		typ := derefType(g.Type())
		gv := mkTerm("gval", n, "", typ, nil)
		if len(stores[n]) == 1 {
			switch v := stores[n][0].Val.(type) {
			case *ssa.MakeInterface:
				gv = mkTerm("mki", typeKey(v.X.Type()), "", v.X.Type(), nil, mkTerm("gval", n, "", v.X.Type(), nil))
			case *ssa.Const:
				if v.Value != nil {
					gv = tConst(v.Value.ExactString(), v.Type())
				}
			case *ssa.Function:
				gv = mkTerm("fn", "", "", v.Type(), v)
			case *ssa.UnOp:
				if o, ok := v.X.(*ssa.Global); ok {
					alias[n] = o.String()
				}
			case *ssa.Call:
				if c := v.Call.StaticCallee(); c != nil && (c.String() == "errors.New" || c.String() == "fmt.Errorf") {
					p.globSome[n] = true
				}
			}
		}
		p.globs[n] = gv
	}
}

func (p *Prog) globalConst(name string) *Term { return p.globs[name] }

// pureMethod says that calling the interface method changes nothing.
func (p *Prog) pureMethod(m *types.Func) bool {
	switch m.Name() {
	case "String", "Error", "Equals", "ClassOf", "GoString", "Name", "InstanceP", "InheritP", "Unwrap", "Done", "Err", "Value", "FirstAndRest", "Id":
		return true
	}
	return false
}

// ---- registered builtins

// Builtin is one entry of the operator table.
type Builtin struct {
	Lisp  string
	Fn    *ssa.Function
	Kind  string // special fun0 fun1 fun2 funN lambda macro other
	C     int
	Min   int
	Max   int
	MaxOK bool
	Pos   token.Pos
}

// arity range of a builtin; max < 0 means unbounded.
func (b *Builtin) Range() (int, int) {
	switch b.Kind {
	case "fun0":
		return 0, 0
	case "fun1":
		return 1, 1
	case "fun2":
		return 2, 2
	case "funN":
		min, max := 0, -1
		if b.Max > 0 {
			max = b.Max
		} else if b.C > 0 {
			max = b.C
		}
		if b.C > 0 {
			min = b.C
		} else if b.Min > 0 {
			min = b.Min
		}
		return min, max
	}
	return 0, -1
}

func (p *Prog) Builtin(name string) *Builtin { return p.byName[name] }

func unFunc(v ssa.Value) *ssa.Function {
	for {
		switch x := v.(type) {
		case *ssa.Function:
			return x
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.MakeClosure:
			return x.Fn.(*ssa.Function)
		default:
			return nil
		}
	}
}

func (p *Prog) symbolOf(v ssa.Value) (string, bool) {
	for {
		if ci, ok := v.(*ssa.ChangeInterface); ok {
			v = ci.X
		} else if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		} else {
			break
		}
	}
	switch x := v.(type) {
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && (f.Name() == "NewSymbol" || f.Name() == "NewKeyword") && len(x.Call.Args) == 1 {
			if c, ok := x.Call.Args[0].(*ssa.Const); ok && c.Value != nil {
				return constString(c), true
			}
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			for _, f := range p.All {
				if f.Name() != "init" || f.Synthetic == "" {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok && s.Addr == g {
							return p.symbolOf(s.Val)
						}
					}
				}
			}
		}
	}
	return "", false
}

func (p *Prog) scanRegistry() {
	p.byName = map[string]*Builtin{}
	add := func(key, val ssa.Value, pos token.Pos) {
		name, ok := p.symbolOf(key)
		if !ok {
			return
		}
		b := &Builtin{Lisp: name, Kind: "other", Pos: pos}
		v := val
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		tn := typeKey(v.Type())
		switch {
		case strings.HasSuffix(tn, ".SpecialF"):
			b.Kind, b.Fn = "special", unFunc(v)
		case strings.HasSuffix(tn, ".Function0"):
			b.Kind, b.Fn = "fun0", unFunc(v)
		case strings.HasSuffix(tn, ".Function1"):
			b.Kind, b.Fn = "fun1", unFunc(v)
		case strings.HasSuffix(tn, ".Function2"):
			b.Kind, b.Fn = "fun2", unFunc(v)
		case strings.HasSuffix(tn, ".Function"):
			b.Kind = "funN"
			if al, ok := v.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					fa, ok := r.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					fname := derefType(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
					for _, rr := range *fa.Referrers() {
						s, ok := rr.(*ssa.Store)
						if !ok || s.Addr != fa {
							continue
						}
						switch fname {
						case "F":
							b.Fn = unFunc(s.Val)
						case "C", "Min", "Max":
							if c, ok := s.Val.(*ssa.Const); ok {
								n := int(c.Int64())
								switch fname {
								case "C":
									b.C = n
								case "Min":
									b.Min = n
								default:
									b.Max = n
								}
							}
						}
					}
				}
			}
		}
		p.Reg = append(p.Reg, b)
		p.byName[name] = b
	}
	for _, f := range p.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MapUpdate:
					if strings.HasSuffix(typeKey(in.Map.Type()), ".Functions") {
						add(in.Key, in.Value, in.Pos())
					}
				case *ssa.Call:
					c := in.Common().StaticCallee()
					if c != nil && c.Name() == "Export" && p.inRepo(c) && len(in.Call.Args) == 2 {
						add(in.Call.Args[0], in.Call.Args[1], in.Pos())
					}
				}
			}
		}
	}
}

func constString(c *ssa.Const) string {
	return constantStringVal(c)
}

func (p *Prog) nodeType() types.Type { return p.Main.Pkg.Scope().Lookup("Node").Type() }

// builtHere follows a load from a variable that is assigned once (it is in a
// cell because a closure captures it) to the value assigned.
func builtHere(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	cell, ok := u.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	var val ssa.Value
	for _, r := range *cell.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != cell || val != nil {
				return v
			}
			val = r.Val
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b != cell {
					continue
				}
				for _, rr := range *fn.FreeVars[i].Referrers() {
					switch rr.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return v
					}
				}
			}
		default:
			return v
		}
	}
	if val == nil {
		return v
	}
	return val
}
