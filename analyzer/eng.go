package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// State is one path-sensitive abstract state.
type State struct {
	mem   map[*Term]*Term
	facts map[*Term]byte // T F (booleans), N X (nil / not nil)
	mon   map[string]string
	esc   map[*Term]bool
	havoc bool
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, facts: map[*Term]byte{}, mon: map[string]string{}, esc: map[*Term]bool{}}
}

func (s *State) clone() *State {
	n := &State{havoc: s.havoc,
		mem:   make(map[*Term]*Term, len(s.mem)),
		facts: make(map[*Term]byte, len(s.facts)),
		mon:   make(map[string]string, len(s.mon)),
		esc:   make(map[*Term]bool, len(s.esc))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.mon {
		n.mon[k] = v
	}
	for k, v := range s.esc {
		n.esc[k] = v
	}
	return n
}

func (s *State) key() string {
	parts := make([]string, 0, len(s.mem)+len(s.facts)+len(s.mon)+len(s.esc))
	for k, v := range s.mem {
		parts = append(parts, "m"+strconv.Itoa(k.id)+"="+strconv.Itoa(v.id))
	}
	for k, v := range s.facts {
		parts = append(parts, "f"+strconv.Itoa(k.id)+string(v))
	}
	for k, v := range s.mon {
		parts = append(parts, "q"+k+"="+v)
	}
	for k, v := range s.esc {
		parts = append(parts, "e"+strconv.Itoa(k.id)+strconv.FormatBool(v))
	}
	sort.Strings(parts)
	h := ""
	if s.havoc {
		h = "H"
	}
	return h + strings.Join(parts, ";")
}

type dfr struct {
	fn    *Term // function value, or nil
	call  *ssa.CallCommon
	args  []*Term
	instr *ssa.Defer
	site  string
}

func (d *dfr) key() string {
	var b strings.Builder
	b.WriteString(d.site)
	if d.fn != nil {
		b.WriteString("#" + strconv.Itoa(d.fn.id))
	}
	for _, a := range d.args {
		b.WriteString("," + strconv.Itoa(a.id))
	}
	return b.String()
}

// Frame is one function activation.
type Frame struct {
	fn     *ssa.Function
	ctx    string
	depth  int
	parent *Frame
	pinned map[string]bool
	params []*Term
}

func (f *Frame) onStack(fn *ssa.Function) int {
	n := 0
	for ; f != nil; f = f.parent {
		if f.fn == fn {
			n++
		}
	}
	return n
}

// Trace gives the chain of functions, outermost first.
func (f *Frame) Trace() string {
	var names []string
	for ; f != nil; f = f.parent {
		names = append([]string{fnName(f.fn)}, names...)
	}
	return strings.Join(names, " > ")
}

// Call is what a client sees of a call.
type Call struct {
	Instr  ssa.CallInstruction // nil for a synthetic call
	Common *ssa.CallCommon
	Callee *ssa.Function // resolved callee, or nil
	Method *types.Func   // for interface calls not resolved
	FnTerm *Term         // function value for dynamic calls
	Bind   []*Term       // closure bindings
	Args   []*Term       // includes the receiver
	Site   string
	Frame  *Frame
	Defer  bool
	Pos    token.Pos
}

func (c *Call) ResultType() *types.Tuple {
	if c.Common != nil {
		return c.Common.Signature().Results()
	}
	return c.Callee.Signature.Results()
}

// Out is one outcome of a call.
type Out struct {
	St    *State
	Res   []*Term
	Panic bool
}

// Exit is one way out of a function.
type Exit struct {
	St    *State
	Res   []*Term
	Panic bool
	Pos   token.Pos
}

// Client specialises the engine to one rule.
type Client struct {
	OnCall    func(e *Eng, st *State, c *Call) ([]Out, bool)
	OnLoad    func(e *Eng, st *State, addr *Term, site string, typ types.Type) *Term
	OnBranch  func(e *Eng, st *State, cond *Term, taken bool, fr *Frame, pos token.Pos)
	OnStore   func(e *Eng, st *State, addr, val *Term, fr *Frame, pos token.Pos)
	OnInstr   func(e *Eng, st *State, fr *Frame, in ssa.Instruction, val func(ssa.Value) *Term)
	OnSelect  func(e *Eng, st *State, in *ssa.Select, val func(ssa.Value) *Term) (int, bool)
	Preserve  func(addr *Term) bool
	NoInline  func(fn *ssa.Function) bool
	KeepFact  func(t *Term) bool // nil: every fact is kept
	PinFact   func(t *Term) bool // facts to keep although nothing refers to what they are about
	Widen     func(t *Term) bool // values whose identity does not matter across blocks
	MaxDepth  int
	DropDefer func(d *ssa.Defer) bool // deferred calls that do not matter
	Views     bool                    // a part of an array that is sliced shares the elements
	Concrete  bool                    // inputs of known shape: loops are unrolled, slices and new maps are followed by element
	ForkMap   func(m *types.Map) bool // what a lookup finds in such a map is told apart
	Reverse   bool                    // known maps are walked in the other order
	Closed    bool                    // calls that are not followed change nothing
	Recursion int                     // how deep a function may call itself before the call counts as unknown
}

var debugKeys = os.Getenv("AN_KEYS") != ""

// Eng runs one analysis.
type Eng struct {
	P         *Prog
	C         *Client
	configs   int
	MaxConf   int
	Undecided []string
	undecSeen map[string]bool
	Steps     int
	fnsSeen   map[*ssa.Function]bool
	curPos    token.Pos
	curFrame  *Frame
	Debug     bool
}

func newEng(p *Prog, c *Client) *Eng {
	e := &Eng{P: p, C: c, MaxConf: 60000, undecSeen: map[string]bool{}, fnsSeen: map[*ssa.Function]bool{}}
	if c.MaxDepth == 0 {
		c.MaxDepth = 14
	}
	return e
}

func (e *Eng) undecided(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	if !e.undecSeen[s] {
		e.undecSeen[s] = true
		e.Undecided = append(e.Undecided, s)
	}
}

// Run analyses fn from the given arguments.
func (e *Eng) Run(fn *ssa.Function, args []*Term, bind []*Term, st *State) []Exit {
	fr := &Frame{fn: fn, ctx: fnName(fn), pinned: map[string]bool{}, params: args}
	for _, a := range args {
		for _, s := range a.syms {
			fr.pinned[s] = true
		}
	}
	for _, a := range bind {
		for _, s := range a.syms {
			fr.pinned[s] = true
		}
	}
	return e.exec(fr, bind, st)
}

type config struct {
	blk  *ssa.BasicBlock
	regs map[ssa.Value]*Term
	st   *State
	dfrs []*dfr
}

func (e *Eng) exec(fr *Frame, bind []*Term, st *State) []Exit {
	fn := fr.fn
	e.fnsSeen[fn] = true
	regs := map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		if i < len(fr.params) {
			regs[p] = fr.params[i]
		} else {
			regs[p] = tSym(fr.ctx+".p"+strconv.Itoa(i), "", p.Type())
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			regs[p] = bind[i]
		} else {
			regs[p] = tSym(fr.ctx+".fv"+strconv.Itoa(i), "", p.Type())
		}
	}
	live := e.P.liveness(fn)
	seen := map[string]bool{}
	var exits []Exit
	exitSeen := map[string]bool{}
	work := []*config{{blk: fn.Blocks[0], regs: regs, st: st}}
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		// prune
		nr := make(map[ssa.Value]*Term, len(c.regs))
		lv := live[c.blk.Index]
		for v, t := range c.regs {
			if lv[v] {
				if e.C.Widen != nil && e.C.Widen(t) {
					t = tSym("w:"+fr.ctx+":"+v.Name(), "", v.Type())
				}
				nr[v] = t
			}
		}
		c.regs = nr
		if e.C.Widen != nil {
			for a, t := range c.st.mem {
				if e.C.Widen(t) {
					c.st.mem[a] = tSym("w:mem:"+strconv.Itoa(a.id), "", t.typ)
				}
			}
		}
		e.gc(c.st, nr, c.dfrs, fr.pinned, nil)
		if e.C.KeepFact != nil {
			for t := range c.st.facts {
				if !e.C.KeepFact(t) {
					delete(c.st.facts, t)
				}
			}
		}
		k := configKey(c)
		if seen[k] {
			continue
		}
		seen[k] = true
		e.configs++
		if debugKeys && e.configs%5000 == 0 {
			println(fr.fn.Name(), k)
		}
		if e.configs > e.MaxConf {
			e.undecided("state limit reached in %s", fr.Trace())
			return exits
		}
		e.runBlock(fr, c, func(n *config) { work = append(work, n) }, func(x Exit) {
			e.gc(x.St, nil, nil, fr.pinned, x.Res)
			var b strings.Builder
			if x.Panic {
				b.WriteString("P")
			}
			for _, r := range x.Res {
				b.WriteString(strconv.Itoa(r.id) + ",")
			}
			b.WriteString(x.St.key())
			if fr.parent == nil {
				b.WriteString(fmt.Sprint(x.Pos))
			}
			if !exitSeen[b.String()] {
				exitSeen[b.String()] = true
				exits = append(exits, x)
			}
		})
	}
	return exits
}

func configKey(c *config) string {
	parts := make([]string, 0, len(c.regs))
	for v, t := range c.regs {
		parts = append(parts, v.Name()+"="+strconv.Itoa(t.id))
	}
	sort.Strings(parts)
	var b strings.Builder
	b.WriteString(strconv.Itoa(c.blk.Index))
	b.WriteByte('|')
	b.WriteString(strings.Join(parts, ";"))
	b.WriteByte('|')
	for _, d := range c.dfrs {
		b.WriteString(d.key())
		b.WriteByte('/')
	}
	b.WriteByte('|')
	b.WriteString(c.st.key())
	return b.String()
}

// gc drops facts and memory that nothing live can reach.
func (e *Eng) gc(st *State, regs map[ssa.Value]*Term, dfrs []*dfr, pinned map[string]bool, extra []*Term) {
	reach := map[string]bool{}
	add := func(t *Term) bool {
		ch := false
		for _, s := range t.syms {
			if !reach[s] {
				reach[s] = true
				ch = true
			}
		}
		return ch
	}
	for s := range pinned {
		reach[s] = true
	}
	if e.C.PinFact != nil {
		for t := range st.facts {
			if e.C.PinFact(t) {
				add(t)
			}
		}
	}
	for _, t := range regs {
		add(t)
	}
	for _, t := range extra {
		add(t)
	}
	for _, d := range dfrs {
		if d.fn != nil {
			add(d.fn)
		}
		for _, a := range d.args {
			add(a)
		}
	}
	in := func(t *Term) bool {
		for _, s := range t.syms {
			if !reach[s] {
				return false
			}
		}
		return true
	}
	for ch := true; ch; {
		ch = false
		for a, v := range st.mem {
			if a.op == "ment" && in(a.args[0]) && a.args[0].op == "cell" && add(a) {
				ch = true
			}
			if in(a) && add(v) {
				ch = true
			}
		}
	}
	for a := range st.mem {
		if !in(a) {
			delete(st.mem, a)
		}
	}
	for a := range st.facts {
		if !in(a) {
			delete(st.facts, a)
		}
	}
	for a := range st.esc {
		if !reach[a.s] {
			delete(st.esc, a)
		}
	}
}

func hasPrefixSym(t *Term, pre string) bool {
	for _, s := range t.syms {
		if s == pre || (strings.HasPrefix(s, pre) && len(s) > len(pre) && (s[len(pre)] == '/' || s[len(pre)] == '#') && !strings.HasSuffix(s, "'") && !strings.HasSuffix(s, "~")) {
			return true
		}
	}
	return false
}

// renew renames syms made earlier at the site (or in calls made from it), so
// that the site can make new ones.
func (e *Eng) renew(site string, regs map[ssa.Value]*Term, st *State, dfrs []*dfr) []*dfr {
	hit := false
	for _, t := range regs {
		if hasPrefixSym(t, site) {
			hit = true
			break
		}
	}
	if !hit {
		for a, v := range st.mem {
			if hasPrefixSym(a, site) || hasPrefixSym(v, site) {
				hit = true
				break
			}
		}
	}
	if !hit {
		for a := range st.facts {
			if hasPrefixSym(a, site) {
				hit = true
				break
			}
		}
	}
	if !hit {
		for _, d := range dfrs {
			if d.fn != nil && hasPrefixSym(d.fn, site) {
				hit = true
			}
			for _, a := range d.args {
				if hasPrefixSym(a, site) {
					hit = true
				}
			}
		}
	}
	if !hit {
		return dfrs
	}
	present := map[string]bool{}
	mark := func(t *Term) {
		for _, s := range t.syms {
			present[s] = true
		}
	}
	for _, t := range regs {
		mark(t)
	}
	for a, v := range st.mem {
		mark(a)
		mark(v)
	}
	for a := range st.facts {
		mark(a)
	}
	for _, d := range dfrs {
		if d.fn != nil {
			mark(d.fn)
		}
		for _, a := range d.args {
			mark(a)
		}
	}
	ren := func(s string) string {
		if strings.HasSuffix(s, "'") {
			return s
		}
		if e.C.Concrete {
			b := strings.TrimRight(s, "~")
			if b == site || (strings.HasPrefix(b, site) && len(b) > len(site) && (b[len(site)] == '/' || b[len(site)] == '#')) {
				for n := len(b); n <= len(s); n++ {
					if !present[s[:n]] {
						return s // the name next to it is free
					}
				}
				if len(s)-len(b) >= 6 {
					return s + "'"
				}
				return s + "~"
			}
			return s
		}
		if s == site || (strings.HasPrefix(s, site) && len(s) > len(site) && (s[len(site)] == '/' || s[len(site)] == '#')) {
			return s + "'"
		}
		return s
	}
	merged := map[string]bool{}
	for s := range present {
		if r := ren(s); r != s && present[r] && ren(r) == r {
			merged[r] = true
		}
	}
	isMerged := func(t *Term) bool {
		for _, s := range t.syms {
			if merged[s] {
				return true
			}
		}
		return false
	}
	cache := map[*Term]*Term{}
	for v, t := range regs {
		regs[v] = rename(t, ren, cache)
	}
	nm := make(map[*Term]*Term, len(st.mem))
	cnt := map[*Term]int{}
	for a, v := range st.mem {
		a2, v2 := rename(a, ren, cache), rename(v, ren, cache)
		if old, ok := nm[a2]; ok && old != v2 {
			v2 = tSym("top:"+strconv.Itoa(a2.id)+"'", "", v2.typ)
		}
		nm[a2] = v2
		cnt[a2]++
	}
	for a := range nm {
		if isMerged(a) && cnt[a] < 2 {
			delete(nm, a)
		}
	}
	st.mem = nm
	nf := make(map[*Term]byte, len(st.facts))
	fc := map[*Term]int{}
	for a, v := range st.facts {
		a2 := rename(a, ren, cache)
		if old, ok := nf[a2]; ok && old != v {
			fc[a2] = -9
		}
		nf[a2] = v
		fc[a2]++
	}
	for a := range nf {
		if isMerged(a) && fc[a] != 2 {
			delete(nf, a)
		}
	}
	st.facts = nf
	ne := make(map[*Term]bool, len(st.esc))
	for a, v := range st.esc {
		k := mkTerm("escid", ren(a.s), "", nil, nil)
		ne[k] = ne[k] || v
	}
	st.esc = ne
	var nd []*dfr
	for _, d := range dfrs {
		c := *d
		if d.fn != nil {
			c.fn = rename(d.fn, ren, cache)
		}
		c.args = make([]*Term, len(d.args))
		for i, a := range d.args {
			c.args[i] = rename(a, ren, cache)
		}
		nd = append(nd, &c)
	}
	if e.C.Concrete {
		return nd
	}
	return dedupDefers(nd)
}

func dedupDefers(d []*dfr) []*dfr {
	var out []*dfr
	for _, x := range d {
		if len(out) > 0 && out[len(out)-1].key() == x.key() {
			continue
		}
		out = append(out, x)
	}
	return out
}

func (e *Eng) runBlock(fr *Frame, c *config, push func(*config), exit func(Exit)) {
	e.step(fr, c.blk, 0, c.regs, c.st, c.dfrs, push, exit)
}

func copyRegs(r map[ssa.Value]*Term) map[ssa.Value]*Term {
	n := make(map[ssa.Value]*Term, len(r))
	for k, v := range r {
		n[k] = v
	}
	return n
}

func (e *Eng) goTo(fr *Frame, from, to *ssa.BasicBlock, regs map[ssa.Value]*Term, st *State, dfrs []*dfr, push func(*config)) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	nr := copyRegs(regs)
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		nr[phi] = e.val(fr, regs, phi.Edges[pi])
	}
	push(&config{blk: to, regs: nr, st: st, dfrs: dfrs})
}

func (e *Eng) val(fr *Frame, regs map[ssa.Value]*Term, v ssa.Value) *Term {
	if t, ok := regs[v]; ok {
		return t
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroTerm(v.Type())
		}
		return tConst(v.Value.ExactString(), v.Type())
	case *ssa.Function:
		return mkTerm("fn", "", "", v.Type(), v)
	case *ssa.Global:
		return mkTerm("glob", v.String(), "", v.Type(), nil)
	case *ssa.Builtin:
		return mkTerm("builtin", v.Name(), "", v.Type(), nil)
	}
	return tSym(fr.ctx+"?"+v.Name(), "", v.Type())
}

func siteOf(fr *Frame, blk *ssa.BasicBlock, i int) string {
	return fr.ctx + "." + strconv.Itoa(blk.Index) + "_" + strconv.Itoa(i)
}

func (e *Eng) step(fr *Frame, blk *ssa.BasicBlock, i int, regs map[ssa.Value]*Term, st *State, dfrs []*dfr, push func(*config), exit func(Exit)) {
	for ; i < len(blk.Instrs); i++ {
		in := blk.Instrs[i]
		e.Steps++
		if e.C.OnInstr != nil {
			e.C.OnInstr(e, st, fr, in, func(v ssa.Value) *Term { return e.val(fr, regs, v) })
		}
		V := func(v ssa.Value) *Term { return e.val(fr, regs, v) }
		if in.Pos().IsValid() {
			e.curPos = in.Pos()
		}
		e.curFrame = fr
		switch in := in.(type) {
		case *ssa.DebugRef, *ssa.Phi:
		case *ssa.Jump:
			e.goTo(fr, blk, blk.Succs[0], regs, st, dfrs, push)
			return
		case *ssa.If:
			cond := V(in.Cond)
			tv := e.truth(st, cond)
			for k, val := range []bool{true, false} {
				if (tv == 1 && !val) || (tv == 0 && val) {
					continue
				}
				ns := st.clone()
				if tv < 0 && !e.assume(ns, cond, val) {
					continue
				}
				if debugBR {
					fmt.Println("BR", fnName(fr.fn), e.P.pos(in.Cond.Pos()), cond, val, ns.mon)
				}
				if e.C.OnBranch != nil {
					e.C.OnBranch(e, ns, cond, val, fr, in.Cond.Pos())
				}
				e.goTo(fr, blk, blk.Succs[k], regs, ns, dfrs, push)
			}
			return
		case *ssa.Return:
			res := make([]*Term, len(in.Results))
			for k, r := range in.Results {
				res[k] = V(r)
			}
			exit(Exit{St: st, Res: res, Pos: in.Pos()})
			return
		case *ssa.Panic:
			for _, o := range e.runDefers(fr, regs, st, dfrs) {
				exit(Exit{St: o, Panic: true, Pos: in.Pos()})
			}
			return
		case *ssa.RunDefers:
			outs := e.runDefers(fr, regs, st, dfrs)
			for _, o := range outs[1:] {
				e.step(fr, blk, i+1, copyRegs(regs), o, nil, push, exit)
			}
			st = outs[0]
			dfrs = nil
		case *ssa.Defer:
			if e.C.DropDefer != nil && e.C.DropDefer(in) {
				continue
			}
			d := &dfr{call: &in.Call, instr: in, site: siteOf(fr, blk, i)}
			if !in.Call.IsInvoke() {
				if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
					d.fn = V(in.Call.Value)
				}
			} else {
				d.args = append(d.args, V(in.Call.Value))
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, V(a))
			}
			nd := append([]*dfr{}, dfrs...)
			dfrs = append(nd, d)
			if !e.C.Concrete {
				dfrs = dedupDefers(dfrs)
			}
		case *ssa.Go:
			e.havocAll(st)
		case *ssa.Call:
			site := siteOf(fr, blk, i)
			regs = copyRegs(regs)
			st = st.clone()
			dfrs = e.renew(site, regs, st, dfrs)
			c := e.mkCall(fr, regs, in, site)
			outs := e.call(c, st, regs, dfrs)
			n := 0
			for k := range outs {
				if !outs[k].Panic {
					n++
				}
			}
			for _, o := range outs {
				if o.Panic {
					for _, s2 := range e.runDefers(fr, regs, o.St, dfrs) {
						exit(Exit{St: s2, Panic: true, Pos: in.Pos()})
					}
					continue
				}
				nr := copyRegs(regs)
				switch len(o.Res) {
				case 0:
				case 1:
					nr[in] = o.Res[0]
				default:
					nr[in] = tTuple(o.Res...)
				}
				e.step(fr, blk, i+1, nr, o.St, dfrs, push, exit)
			}
			return
		case *ssa.Store:
			addr, val := V(in.Addr), V(in.Val)
			st = st.clone()
			e.store(st, addr, val)
			if e.C.OnStore != nil {
				e.C.OnStore(e, st, addr, val, fr, in.Pos())
			}
		case *ssa.MapUpdate:
			m, k, v := V(in.Map), V(in.Key), V(in.Value)
			st = st.clone()
			addr := mkTerm("ment", "", "", v.typ, nil, m, k)
			e.storeMap(st, m, k, v)
			if e.C.OnStore != nil {
				e.C.OnStore(e, st, addr, v, fr, in.Pos())
			}
		case *ssa.Send:
		default:
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			site := siteOf(fr, blk, i)
			if lk, ok := in.(*ssa.Lookup); ok && (e.C.Concrete || e.C.ForkMap != nil) {
				outs, ok := []Out(nil), false
				if e.C.Concrete {
					outs, ok = e.forkLookup(lk, st, V(lk.X), V(lk.Index))
				}
				if mt, isMap := lk.X.Type().Underlying().(*types.Map); !ok && isMap && e.C.ForkMap != nil && e.C.ForkMap(mt) {
					outs, ok = e.foundOrNot(lk, mt, st, site), true
				}
				if ok {
					for _, o := range outs {
						nr := copyRegs(regs)
						nr[v] = o.Res[0]
						e.step(fr, blk, i+1, nr, o.St, dfrs, push, exit)
					}
					return
				}
			}
			if e.freshensAt(in) {
				regs = copyRegs(regs)
				st = st.clone()
				dfrs = e.renew(site, regs, st, dfrs)
			}
			t := e.eval(fr, regs, st, in, site)
			if t == nil {
				t = tSym(site, "", v.Type())
			}
			if t.depth > 9 {
				t = tSym(site, "", v.Type())
			}
			nr := copyRegs(regs)
			nr[v] = t
			regs = nr
		}
	}
}

// foundOrNot is a lookup of a map nothing is known about.
func (e *Eng) foundOrNot(in *ssa.Lookup, mt *types.Map, st *State, site string) []Out {
	res := func(s *State, val, present *Term) Out {
		if in.CommaOk {
			val = tTuple(val, present)
		}
		return Out{St: s, Res: []*Term{val}}
	}
	yes := st.clone()
	val := tSym(site, "", mt.Elem())
	switch mt.Elem().Underlying().(type) {
	case *types.Interface, *types.Pointer, *types.Map, *types.Slice, *types.Signature:
		yes.facts[val] = 'X'
	}
	return []Out{res(yes, val, tTrue), res(st.clone(), zeroTerm(mt.Elem()), tFalse)}
}

// forkLookup looks up a key that may be one of several in a map all of whose
// entries are known.
func (e *Eng) forkLookup(in *ssa.Lookup, st *State, m, k *Term) ([]Out, bool) {
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok || m.op != "cell" || isSummary(m) || st.esc[mkTerm("escid", m.s, "", nil, nil)] {
		return nil, false
	}
	if _, ok := st.mem[mkTerm("ment", "", "", nil, nil, m, k)]; ok {
		return nil, false
	}
	var keys []*Term
	for a, v := range st.mem {
		if a.op == "ment" && a.args[0] == m && e.maybeEqual(st, a.args[1], k) {
			if v.op == "look" {
				return nil, false
			}
			keys = append(keys, a)
		}
	}
	if len(keys) == 0 {
		return nil, false
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	var outs []Out
	res := func(s *State, v *Term) {
		val, present := v, tTrue
		if v == tAbsent {
			val, present = zeroTerm(mt.Elem()), tFalse
		}
		if in.CommaOk {
			val = tTuple(val, present)
		}
		outs = append(outs, Out{St: s, Res: []*Term{val}})
	}
	none := st.clone()
	open := true
	for _, a := range keys {
		eq := mkEqN(a.args[1], k)
		s := none.clone()
		if e.assume(s, eq, true) {
			res(s, st.mem[a])
		}
		if e.truth(st, eq) == 1 || !e.assume(none, eq, false) {
			open = false
			break
		}
	}
	if open {
		res(none, tAbsent)
	}
	return outs, true
}

func (e *Eng) freshensAt(in ssa.Instruction) bool {
	return true
}

func (e *Eng) mkCall(fr *Frame, regs map[ssa.Value]*Term, in ssa.CallInstruction, site string) *Call {
	cc := in.Common()
	c := &Call{Instr: in, Common: cc, Site: site, Frame: fr, Pos: in.Pos()}
	if cc.IsInvoke() {
		recv := e.val(fr, regs, cc.Value)
		c.Args = append(c.Args, recv)
		c.Method = cc.Method
	} else {
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			c.FnTerm = mkTerm("builtin", b.Name(), "", nil, nil)
		} else {
			c.FnTerm = e.val(fr, regs, cc.Value)
		}
	}
	for _, a := range cc.Args {
		c.Args = append(c.Args, e.val(fr, regs, a))
	}
	e.resolve(c)
	return c
}

func (e *Eng) resolve(c *Call) {
	if c.Method != nil {
		recv := c.Args[0]
		if recv.op == "mki" {
			if f := e.P.methodOf(recv.typ, c.Method); f != nil {
				c.Callee = f
				c.Args = append([]*Term{recv.args[0]}, c.Args[1:]...)
			}
		}
		return
	}
	if c.FnTerm != nil {
		switch c.FnTerm.op {
		case "fn":
			c.Callee = c.FnTerm.fn
		case "clo":
			c.Callee = c.FnTerm.fn
			c.Bind = c.FnTerm.args
		}
	}
}

func (e *Eng) runDefers(fr *Frame, regs map[ssa.Value]*Term, st *State, dfrs []*dfr) []*State {
	cur := []*State{st}
	for k := len(dfrs) - 1; k >= 0; k-- {
		d := dfrs[k]
		var next []*State
		seen := map[string]bool{}
		for _, s := range cur {
			c := &Call{Instr: d.instr, Common: d.call, Site: d.site, Frame: fr, Defer: true, Pos: d.instr.Pos(), Args: append([]*Term{}, d.args...)}
			if d.call.IsInvoke() {
				c.Method = d.call.Method
			} else if b, ok := d.call.Value.(*ssa.Builtin); ok {
				c.FnTerm = mkTerm("builtin", b.Name(), "", nil, nil)
			} else {
				c.FnTerm = d.fn
			}
			e.resolve(c)
			for _, o := range e.call(c, s.clone(), regs, dfrs[:k]) {
				kk := o.St.key()
				if !seen[kk] {
					seen[kk] = true
					next = append(next, o.St)
				}
			}
		}
		cur = next
	}
	if len(cur) == 0 {
		return []*State{st}
	}
	return cur
}

// fresh makes unknown results for a call.
func (e *Eng) Fresh(c *Call) []*Term {
	rt := c.ResultType()
	var res []*Term
	for k := 0; k < rt.Len(); k++ {
		res = append(res, tSym(c.Site+"#r"+strconv.Itoa(k), "", rt.At(k).Type()))
	}
	return res
}

func (e *Eng) reachCells(st *State, ts []*Term) map[string]bool {
	reach := map[string]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		ch := false
		for _, s := range t.syms {
			if !reach[s] {
				reach[s] = true
				ch = true
			}
		}
		return ch
	}
	for _, t := range ts {
		add(t)
	}
	for ch := true; ch; {
		ch = false
		for a, v := range st.mem {
			for _, s := range a.syms {
				if reach[s] {
					if add(v) {
						ch = true
					}
					break
				}
			}
		}
	}
	return reach
}

// Opaque models a call to code that is not followed: it may change any memory
// it can reach.
func (e *Eng) Opaque(st *State, c *Call) []Out {
	e.HavocArgs(st, c.Args)
	if len(c.Bind) > 0 {
		e.HavocArgs(st, c.Bind)
	}
	return []Out{{St: st, Res: e.Fresh(c)}}
}

func (e *Eng) HavocArgs(st *State, args []*Term) {
	if e.C.Closed {
		return
	}
	for s := range e.reachCells(st, args) {
		st.esc[mkTerm("escid", s, "", nil, nil)] = true
	}
	e.havocAll(st)
}

func rootOf(a *Term) *Term {
	for (a.op == "fld" || a.op == "idx" || a.op == "ment" || a.op == "slice") && len(a.args) > 0 {
		a = a.args[0]
	}
	return a
}

func (e *Eng) escapedRoot(st *State, a *Term) bool {
	r := rootOf(a)
	if r.op == "cell" {
		_, ok := st.esc[mkTerm("escid", r.s, "", nil, nil)]
		return ok
	}
	return true
}

func (e *Eng) havocAll(st *State) {
	if e.C.Closed {
		return
	}
	for a := range st.mem {
		if !e.escapedRoot(st, a) {
			continue
		}
		if e.P.immutableAddr(a) {
			continue
		}
		if e.C.Preserve != nil && e.C.Preserve(a) {
			continue
		}
		delete(st.mem, a)
	}
	for k := range st.esc {
		st.esc[k] = true
	}
	st.havoc = true
}

// escape marks what was stored where other code can find it; it counts as
// changed only once other code has run.
func (e *Eng) escape(st *State, v *Term) {
	for s := range e.reachCells(st, []*Term{v}) {
		k := mkTerm("escid", s, "", nil, nil)
		st.esc[k] = st.esc[k]
	}
}

func (e *Eng) call(c *Call, st *State, regs map[ssa.Value]*Term, dfrs []*dfr) []Out {
	if e.C.OnCall != nil {
		if outs, ok := e.C.OnCall(e, st, c); ok {
			return outs
		}
	}
	if c.FnTerm != nil && c.FnTerm.op == "builtin" {
		return e.builtin(st, c)
	}
	if outs, ok := e.std(st, c); ok {
		return outs
	}
	fn := c.Callee
	if fn == nil || len(fn.Blocks) == 0 || !e.P.inRepo(fn) && !(e.C.Views && e.P.promoted(fn)) {
		return e.external(st, c)
	}
	if n := c.Frame.onStack(fn); n >= 1 && n >= e.C.Recursion || c.Frame.depth >= e.C.MaxDepth || (e.C.NoInline != nil && e.C.NoInline(fn)) {
		return e.Opaque(st, c)
	}
	return e.Inline(c, st, regs, dfrs)
}

// Inline follows the callee.
func (e *Eng) Inline(c *Call, st *State, regs map[ssa.Value]*Term, dfrs []*dfr) []Out {
	fn := c.Callee
	fr := &Frame{fn: fn, ctx: c.Site + "/" + fn.Name(), depth: c.Frame.depth + 1, parent: c.Frame, params: c.Args}
	fr.pinned = map[string]bool{}
	for s := range c.Frame.pinned {
		fr.pinned[s] = true
	}
	for _, t := range regs {
		for _, s := range t.syms {
			fr.pinned[s] = true
		}
	}
	for _, t := range c.Args {
		for _, s := range t.syms {
			fr.pinned[s] = true
		}
	}
	for _, t := range c.Bind {
		for _, s := range t.syms {
			fr.pinned[s] = true
		}
	}
	for _, d := range dfrs {
		if d.fn != nil {
			for _, s := range d.fn.syms {
				fr.pinned[s] = true
			}
		}
		for _, a := range d.args {
			for _, s := range a.syms {
				fr.pinned[s] = true
			}
		}
	}
	var outs []Out
	savePos, saveFr := e.curPos, e.curFrame
	for _, x := range e.exec(fr, c.Bind, st) {
		outs = append(outs, Out{St: x.St, Res: x.Res, Panic: x.Panic})
	}
	e.curPos, e.curFrame = savePos, saveFr
	return outs
}

// external models functions outside the repository.
func (e *Eng) external(st *State, c *Call) []Out {
	hasFn := false
	for _, a := range c.Args {
		if a.op == "clo" || a.op == "fn" {
			hasFn = true
		}
	}
	if c.Callee != nil && !e.P.inRepo(c.Callee) && !hasFn && e.C.Closed {
		return []Out{{St: st, Res: e.Fresh(c)}}
	}
	if c.Callee != nil && !e.P.inRepo(c.Callee) && !hasFn {
		// library code reaches only what it is given
		for s := range e.reachCells(st, c.Args) {
			for a := range st.mem {
				r := rootOf(a)
				if r.op == "cell" && r.s == s && !e.P.immutableAddr(a) && !(e.C.Preserve != nil && e.C.Preserve(a)) {
					delete(st.mem, a)
					st.esc[mkTerm("escid", s, "", nil, nil)] = true
				}
			}
		}
		return []Out{{St: st, Res: e.Fresh(c)}}
	}
	if c.Method != nil && e.P.pureMethod(c.Method) {
		res := e.Fresh(c)
		for k := range res {
			res[k] = mkTerm("pm", c.Method.Name()+"#"+strconv.Itoa(k), "", res[k].typ, nil, c.Args...)
		}
		return []Out{{St: st, Res: res}}
	}
	return e.Opaque(st, c)
}

func (e *Eng) builtin(st *State, c *Call) []Out {
	one := func(t *Term) []Out { return []Out{{St: st, Res: []*Term{t}}} }
	switch c.FnTerm.s {
	case "len", "cap":
		a := c.Args[0]
		if a.op == "const" {
			if s, err := strconv.Unquote(a.s); err == nil {
				return one(tConst(strconv.Itoa(len(s)), types.Typ[types.Int]))
			}
		}
		if n, ok := e.lenOf(st, a); ok {
			return one(tConst(strconv.Itoa(n), types.Typ[types.Int]))
		}
		if n, ok := e.mapLen(st, a); ok {
			return one(tConst(strconv.Itoa(n), types.Typ[types.Int]))
		}
		return one(mkTerm("len", "", "", types.Typ[types.Int], nil, a))
	case "delete":
		m, k := c.Args[0], c.Args[1]
		e.storeMap(st, m, k, tAbsent)
		if e.C.OnStore != nil {
			e.C.OnStore(e, st, mkTerm("ment", "", "", nil, nil, m, k), tAbsent, c.Frame, c.Pos)
		}
		return []Out{{St: st}}
	case "append":
		if e.C.Concrete && len(c.Args) == 2 {
			if a, ok := e.elements(st, c.Args[0]); ok {
				if b, ok := e.elements(st, c.Args[1]); ok {
					return one(mkTerm("slist", "", "", c.ResultType().At(0).Type(), nil, append(append([]*Term{}, a...), b...)...))
				}
			}
		}
		base := c.Args[0]
		elems := c.Args[1:]
		_ = base
		t := tSym(c.Site+"#r0", "", c.ResultType().At(0).Type())
		return []Out{{St: st, Res: []*Term{mkTerm("append", "", "", t.typ, nil, append([]*Term{t}, elems...)...)}}}
	case "copy":
		if d := c.Args[0]; e.C.Concrete && d.op == "slice" && (d.s == "full" || d.s == "view") {
			lo := 0
			if d.s == "view" {
				lo, _ = strconv.Atoi(d.args[1].s)
			}
			if n, ok := e.lenOf(st, d); ok {
				if src, ok := e.elements(st, c.Args[1]); ok {
					if len(src) < n {
						n = len(src)
					}
					elem := d.typ.Underlying().(*types.Slice).Elem()
					for i := 0; i < n; i++ {
						e.store(st, mkTerm("idx", "", "", types.NewPointer(elem), nil, d.args[0], tConst(strconv.Itoa(lo+i), types.Typ[types.Int])), src[i])
					}
					return one(tConst(strconv.Itoa(n), types.Typ[types.Int]))
				}
			}
		}
		return one(tSym(c.Site+"#r0", "", types.Typ[types.Int]))
	case "print", "println", "close", "clear":
		return []Out{{St: st}}
	case "panic":
		return []Out{{St: st, Panic: true}}
	case "recover":
		return one(tNil)
	}
	return []Out{{St: st, Res: e.Fresh(c)}}
}

// elements lists the elements of a slice that is known element by element.
func (e *Eng) elements(st *State, s *Term) ([]*Term, bool) {
	switch s.op {
	case "nil":
		return nil, true
	case "slist":
		out := append([]*Term{}, s.args...)
		for i := range out {
			if v, ok := st.mem[mkTerm("idx", "", "", nil, nil, s, tConst(strconv.Itoa(i), types.Typ[types.Int]))]; ok {
				out[i] = v
			}
		}
		return out, true
	case "slice":
		if s.s == "view" {
			lo, _ := strconv.Atoi(s.args[1].s)
			hi, _ := strconv.Atoi(s.args[2].s)
			out := make([]*Term, 0, hi-lo)
			for i := lo; i < hi; i++ {
				v, ok := st.mem[mkTerm("idx", "", "", nil, nil, s.args[0], tConst(strconv.Itoa(i), types.Typ[types.Int]))]
				if !ok {
					return nil, false
				}
				out = append(out, v)
			}
			return out, true
		}
		if s.s != "full" {
			return nil, false
		}
		at, ok := derefType(s.args[0].typ).Underlying().(*types.Array)
		if !ok || at.Len() > 8 {
			return nil, false
		}
		out := e.variadic(st, s)
		return out, int64(len(out)) == at.Len()
	}
	return nil, false
}

func (e *Eng) lenOf(st *State, a *Term) (int, bool) {
	switch a.op {
	case "slist":
		return len(a.args), true
	case "nil":
		return 0, true
	case "slice":
		if a.s == "view" {
			lo, _ := strconv.Atoi(a.args[1].s)
			hi, _ := strconv.Atoi(a.args[2].s)
			return hi - lo, true
		}
		if at, ok := derefType(a.args[0].typ).Underlying().(*types.Array); ok && a.s == "full" {
			return int(at.Len()), true
		}
	case "cell":
		if at, ok := a.typ.Underlying().(*types.Pointer); ok {
			if ar, ok := at.Elem().Underlying().(*types.Array); ok {
				return int(ar.Len()), true
			}
		}
	}
	return 0, false
}

// std models the few library functions whose meaning matters.
func (e *Eng) std(st *State, c *Call) ([]Out, bool) {
	if c.Callee == nil || c.Callee.Pkg == nil {
		return nil, false
	}
	path := c.Callee.Pkg.Pkg.Path()
	name := c.Callee.Name()
	switch path + "." + name {
	case "errors.As":
		target := c.Args[1]
		if target.op == "mki" {
			target = target.args[0]
		}
		var tt types.Type
		if pt, ok := target.typ.(*types.Pointer); ok {
			tt = pt.Elem()
		} else if target.typ != nil {
			tt = derefType(target.typ)
		}
		var outs []Out
		cond := e.mkAs(st, c.Args[0], tt)
		tv := e.truth(st, cond)
		if tv != 0 {
			s := st.clone()
			if tv == 1 || e.assume(s, cond, true) {
				e.store(s, target, e.asValue(s, c.Args[0], tt))
				outs = append(outs, Out{St: s, Res: []*Term{tTrue}})
			}
		}
		if tv != 1 {
			s := st.clone()
			if tv == 0 || e.assume(s, cond, false) {
				outs = append(outs, Out{St: s, Res: []*Term{tFalse}})
			}
		}
		if e.C.OnBranch != nil {
			for _, o := range outs {
				e.C.OnBranch(e, o.St, cond, o.Res[0] == tTrue, c.Frame, c.Pos)
			}
		}
		return outs, true
	case "errors.Is":
		a := unwrapTerm(c.Args[0])
		if e.nilness(st, a) == 'N' && c.Args[1].op != "nil" {
			return []Out{{St: st, Res: []*Term{tFalse}}}, true
		}
		if a == c.Args[1] {
			return []Out{{St: st, Res: []*Term{tTrue}}}, true
		}
		return []Out{{St: st, Res: []*Term{mkTerm("is", "", "", types.Typ[types.Bool], nil, a, c.Args[1])}}}, true
	case "errors.Unwrap":
		if c.Args[0].op == "wrap" {
			return []Out{{St: st, Res: []*Term{c.Args[0].args[0]}}}, true
		}
		return []Out{{St: st, Res: e.Fresh(c)}}, true
	case "fmt.Errorf":
		f := c.Args[0]
		if f.op == "const" && strings.Contains(f.s, "%w") {
			for _, x := range e.variadic(st, c.Args[1]) {
				y := x
				if y.op == "mki" && types.Implements(y.typ, errorIface) {
					// a concrete error
				} else if y.typ == nil || !types.Implements(y.typ, errorIface) {
					continue
				}
				return []Out{{St: st, Res: []*Term{mkTerm("wrap", "", "", types.Universe.Lookup("error").Type(), nil, y)}}}, true
			}
		}
		t := tSym(c.Site+"#r0", "newerr", types.Universe.Lookup("error").Type())
		st.facts[t] = 'X'
		return []Out{{St: st, Res: []*Term{t}}}, true
	case "errors.New":
		t := tSym(c.Site+"#r0", "newerr", types.Universe.Lookup("error").Type())
		st.facts[t] = 'X'
		return []Out{{St: st, Res: []*Term{t}}}, true
	}
	return nil, false
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// variadic lists the elements of a variadic argument slice.
func (e *Eng) variadic(st *State, s *Term) []*Term {
	if s.op != "slice" {
		return nil
	}
	base := s.args[0]
	var out []*Term
	if at, ok := derefType(base.typ).Underlying().(*types.Array); ok {
		for i := int64(0); i < at.Len(); i++ {
			a := mkTerm("idx", "", "", nil, nil, base, tConst(strconv.FormatInt(i, 10), types.Typ[types.Int]))
			if v, ok := st.mem[a]; ok {
				out = append(out, v)
			}
		}
	}
	return out
}

func unwrapTerm(t *Term) *Term {
	for t.op == "wrap" {
		t = t.args[0]
	}
	return t
}

func (e *Eng) mkAs(st *State, err *Term, tt types.Type) *Term {
	x := unwrapTerm(err)
	if e.nilness(st, x) == 'N' {
		return tFalse
	}
	if x.op == "mki" && types.Identical(x.typ, tt) {
		return tTrue
	}
	return mkTerm("as", typeKey(tt), "", types.Typ[types.Bool], nil, x)
}

func (e *Eng) asValue(st *State, err *Term, tt types.Type) *Term {
	x := unwrapTerm(err)
	if x.op == "mki" && types.Identical(x.typ, tt) {
		return x.args[0]
	}
	t := mkTerm("asv", typeKey(tt), "", tt, nil, x)
	st.facts[t] = 'X'
	return t
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---- memory

func (e *Eng) store(st *State, addr, val *Term) {
	// overwrite the parts of addr
	for a := range st.mem {
		for b := a; (b.op == "fld" || b.op == "idx") && len(b.args) > 0; b = b.args[0] {
			if b.args[0] == addr {
				delete(st.mem, a)
				break
			}
		}
	}
	if val.typ != nil {
		if s, ok := val.typ.Underlying().(*types.Struct); ok && val.op == "struct" {
			for i := 0; i < s.NumFields(); i++ {
				e.store(st, e.fldAddr(addr, s.Field(i), val.typ), val.args[i])
			}
			return
		}
	}
	root := rootOf(addr)
	if root.op != "cell" {
		// another name of the same location may be changed
		for a := range st.mem {
			if a != addr && e.mayAlias(a, addr) {
				delete(st.mem, a)
				st.havoc = true
			}
		}
		e.escape(st, val)
	}
	if isSummary(addr) && root.op == "cell" {
		if old, ok := st.mem[addr]; ok && old != val {
			st.mem[addr] = tSym("top:"+strconv.Itoa(addr.id)+"'", "", val.typ)
			return
		}
	}
	if addr.op == "idx" && addr.args[1].op != "const" {
		for a := range st.mem {
			if a.op == "idx" && a.args[0] == addr.args[0] {
				delete(st.mem, a)
			}
		}
		st.mem[mkTerm("idx", "", "", addr.typ, nil, addr.args[0], tSym("anyidx", "", nil))] = val
		return
	}
	st.mem[addr] = val
}

func (e *Eng) mayAlias(a, b *Term) bool {
	if rootOf(a).op == "cell" {
		return false
	}
	if a.op == "fld" && b.op == "fld" && a.s == b.s {
		ba, bb := a.args[0], b.args[0]
		// an initial pointer and a fresh one never coincide
		if rootOf(ba).op == "cell" || rootOf(bb).op == "cell" {
			return false
		}
		return ba != bb
	}
	if a.op == "glob" || b.op == "glob" {
		return a == b
	}
	return false
}

func (e *Eng) storeMap(st *State, m, k, v *Term) {
	addr := mkTerm("ment", "", "", nil, nil, m, k)
	for a := range st.mem {
		if a.op == "ment" && a != addr {
			if a.args[0] == m && e.maybeEqual(st, a.args[1], k) {
				st.mem[a] = mkTerm("look", "", "", nil, nil, tSym("top:"+strconv.Itoa(a.id)+"'", "", nil), a.args[1])
			} else if a.args[0] != m && m.op != "cell" && a.args[0].op != "cell" && sameType(a.args[0].typ, m.typ) {
				delete(st.mem, a)
			}
		}
	}
	st.mem[addr] = v
	if m.op != "cell" {
		e.escape(st, v)
	}
}

func sameType(a, b types.Type) bool {
	if a == nil || b == nil {
		return true
	}
	return types.Identical(a, b)
}

// mapLen is the number of entries of a map all of whose entries are known.
func (e *Eng) mapLen(st *State, m *Term) (n int, ok bool) {
	for m.op == "ct" || m.op == "conv" {
		m = m.args[0]
	}
	if !e.C.Concrete || m.op != "cell" || isSummary(m) || st.esc[mkTerm("escid", m.s, "", nil, nil)] || m.typ == nil {
		return 0, false
	}
	if _, isMap := m.typ.Underlying().(*types.Map); !isMap {
		return 0, false
	}
	for a, v := range st.mem {
		if a.op != "ment" || a.args[0] != m {
			continue
		}
		if v.op == "look" || v.op == "minit" {
			return 0, false
		}
		if v != tAbsent {
			n++
		}
	}
	return n, true
}

func (e *Eng) maybeEqual(st *State, a, b *Term) bool {
	return e.truth(st, mkEqN(a, b)) != 0
}

func mkEqN(a, b *Term) *Term {
	return simplifyEq(a, b)
}

func (e *Eng) fldAddr(base *Term, f *types.Var, owner types.Type) *Term {
	own := ""
	if owner != nil {
		own = typeKey(derefType(owner))
	}
	return mkTerm("fld", own+"."+f.Name(), "", types.NewPointer(f.Type()), nil, base)
}

// Load reads an address.
func (e *Eng) Load(st *State, addr *Term, site string, typ types.Type) *Term {
	if v, ok := st.mem[addr]; ok {
		return v
	}
	if e.C.OnLoad != nil {
		if t := e.C.OnLoad(e, st, addr, site, typ); t != nil {
			return t
		}
	}
	// a struct made of parts
	if s, ok := typ.Underlying().(*types.Struct); ok && addr.op != "glob" {
		parts := false
		for a := range st.mem {
			if a.op == "fld" && a.args[0] == addr {
				parts = true
				break
			}
		}
		if parts {
			args := make([]*Term, s.NumFields())
			for i := range args {
				args[i] = e.Load(st, e.fldAddr(addr, s.Field(i), typ), site+"#f"+strconv.Itoa(i), s.Field(i).Type())
			}
			return mkTerm("struct", typeKey(typ), "", typ, nil, args...)
		}
	}
	if addr.op == "fld" && (addr.s == "gmnlisp.Cons.Car" || addr.s == "gmnlisp.Cons.Cdr") {
		if b := addr.args[0]; b.op == "ta" {
			if _, _, _, ok := parseList(b.args[0].label); ok {
				car, cdr := carCdr(b.args[0], site, typ)
				if addr.s == "gmnlisp.Cons.Car" {
					return car
				}
				return cdr
			}
		}
	}
	if addr.op == "fld" {
		// a field of a struct stored whole
		if v, ok := st.mem[addr.args[0]]; ok {
			return e.selField(v, addr.s, typ)
		}
	}
	if addr.op == "idx" && addr.args[0].op == "slist" {
		if k, err := strconv.Atoi(addr.args[1].s); err == nil && k >= 0 && k < len(addr.args[0].args) {
			return addr.args[0].args[k]
		}
	}
	if addr.op == "idx" && addr.args[1].op != "const" {
		// an unknown element
		t := tSym(site, "", typ)
		return t
	}
	root := rootOf(addr)
	if root.op == "cell" && !isSummary(root) && !st.esc[mkTerm("escid", root.s, "", nil, nil)] {
		if addr.op == "idx" {
			if _, ok := st.mem[mkTerm("idx", "", "", addr.typ, nil, addr.args[0], tSym("anyidx", "", nil))]; ok {
				return tSym(site, "", typ)
			}
		}
		return zeroTerm(typ)
	}
	if root.op == "glob" && addr == root {
		if t := e.P.globalConst(root.s); t != nil {
			return t
		}
	}
	var t *Term
	if (!st.havoc || e.P.immutableAddr(addr) || (e.C.Preserve != nil && e.C.Preserve(addr))) && root.op != "cell" {
		t = mkTerm("init", "", "", typ, nil, addr)
	} else {
		t = tSym(site, "", typ)
	}
	st.mem[addr] = t
	return t
}

func (e *Eng) selField(v *Term, name string, typ types.Type) *Term {
	f := name[strings.LastIndexByte(name, '.')+1:]
	if v.op == "struct" {
		s := v.typ.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				return v.args[i]
			}
		}
	}
	if v.op == "zero" {
		return zeroTerm(typ)
	}
	return mkTerm("sel", f, "", typ, nil, v)
}

// ---- pure instructions

func (e *Eng) eval(fr *Frame, regs map[ssa.Value]*Term, st *State, in ssa.Instruction, site string) *Term {
	V := func(v ssa.Value) *Term { return e.val(fr, regs, v) }
	switch in := in.(type) {
	case *ssa.Alloc:
		t := mkTerm("cell", site, "", in.Type(), nil)
		for a := range st.mem {
			if rootOf(a) == t {
				delete(st.mem, a)
			}
		}
		delete(st.esc, mkTerm("escid", site, "", nil, nil))
		delete(st.mon, "sb:"+strconv.Itoa(t.id)) // a new builder is empty
		return t
	case *ssa.MakeMap:
		t := mkTerm("cell", site, "map", in.Type(), nil)
		for a := range st.mem {
			if rootOf(a) == t {
				delete(st.mem, a)
			}
		}
		delete(st.esc, mkTerm("escid", site, "", nil, nil))
		return t
	case *ssa.MakeSlice:
		if n, err := strconv.Atoi(V(in.Len).s); err == nil && e.C.Concrete && V(in.Len).op == "const" && n >= 0 && n <= 8 {
			// a slice of known length is an array that is sliced
			elem := in.Type().Underlying().(*types.Slice).Elem()
			cell := mkTerm("cell", site, "array"+strconv.Itoa(n), types.NewPointer(types.NewArray(elem, int64(n))), nil)
			for a := range st.mem {
				if rootOf(a) == cell {
					delete(st.mem, a)
				}
			}
			delete(st.esc, mkTerm("escid", site, "", nil, nil))
			for i := 0; i < n; i++ {
				st.mem[mkTerm("idx", "", "", types.NewPointer(elem), nil, cell, tConst(strconv.Itoa(i), types.Typ[types.Int]))] = zeroTerm(elem)
			}
			return mkTerm("slice", "full", "", in.Type(), nil, cell)
		}
		return mkTerm("cell", site, "slice", in.Type(), nil)
	case *ssa.MakeChan:
		return mkTerm("cell", site, "chan", in.Type(), nil)
	case *ssa.FieldAddr:
		s := derefType(in.X.Type()).Underlying().(*types.Struct)
		return e.fldAddr(V(in.X), s.Field(in.Field), in.X.Type())
	case *ssa.Field:
		x := V(in.X)
		s := in.X.Type().Underlying().(*types.Struct)
		return e.selField(x, "."+s.Field(in.Field).Name(), in.Type())
	case *ssa.IndexAddr:
		b := V(in.X)
		if b.op == "slice" && b.s == "full" {
			b = b.args[0]
		}
		if b.op == "slice" && b.s == "view" {
			if i := V(in.Index); i.op == "const" {
				n, _ := strconv.Atoi(i.s)
				lo, _ := strconv.Atoi(b.args[1].s)
				return mkTerm("idx", "", "", in.Type(), nil, b.args[0], tConst(strconv.Itoa(lo+n), i.typ))
			}
		}
		return mkTerm("idx", "", "", in.Type(), nil, b, V(in.Index))
	case *ssa.Index:
		if t := e.byteOf(V(in.X), V(in.Index), in.Type()); t != nil {
			return t
		}
		return tSym(site, "", in.Type())
	case *ssa.UnOp:
		x := V(in.X)
		switch in.Op {
		case token.MUL:
			return e.Load(st, x, site, in.Type())
		case token.NOT:
			return mkNot(x)
		case token.SUB:
			if x.op == "const" {
				if v := constant.MakeFromLiteral(x.s, token.INT, 0); v.Kind() == constant.Int {
					return tConst(constant.UnaryOp(token.SUB, v, 0).ExactString(), in.Type())
				}
			}
			return mkTerm("un", in.Op.String(), "", in.Type(), nil, x)
		case token.ARROW:
			return tSym(site, "", in.Type())
		}
		return mkTerm("un", in.Op.String(), "", in.Type(), nil, x)
	case *ssa.BinOp:
		return e.binop(in, V(in.X), V(in.Y), site)
	case *ssa.ChangeInterface:
		return V(in.X)
	case *ssa.ChangeType:
		x := V(in.X)
		if b, ok := in.Type().Underlying().(*types.Basic); ok && e.C.Views && x.op == "const" && b.Info()&(types.IsNumeric|types.IsString) != 0 {
			return tConst(x.s, in.Type())
		}
		return mkConv("ct", in.Type(), x)
	case *ssa.Convert:
		x := V(in.X)
		if e.C.Views && isStringT(in.Type()) {
			if s, ok := textOf(x); ok {
				return mkText(s, in.Type())
			}
			if n, ok := intConst(x); ok && x.op == "const" && !isStringT(x.typ) {
				return mkText(string(rune(n)), in.Type())
			}
			if sl, ok := in.X.Type().Underlying().(*types.Slice); ok {
				if els, ok := e.elements(st, x); ok {
					var s []byte
					for _, t := range els {
						n, ok := intConst(t)
						if !ok {
							s = nil
							break
						}
						if sl.Elem().Underlying().(*types.Basic).Kind() == types.Byte {
							s = append(s, byte(n))
						} else {
							s = append(s, string(rune(n))...)
						}
					}
					if s != nil || len(els) == 0 {
						return mkText(string(s), in.Type())
					}
				}
			}
		}
		if sl, ok := in.Type().Underlying().(*types.Slice); ok && e.C.Views {
			if s, ok := textOf(x); ok {
				var els []*Term
				if sl.Elem().Underlying().(*types.Basic).Kind() == types.Byte {
					for i := 0; i < len(s); i++ {
						els = append(els, tConst(strconv.Itoa(int(s[i])), sl.Elem()))
					}
				} else {
					for _, c := range s {
						els = append(els, tConst(strconv.Itoa(int(c)), sl.Elem()))
					}
				}
				return mkTerm("slist", "", "", in.Type(), nil, els...)
			}
		}
		if x.op == "const" {
			if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if bx, ok := in.X.Type().Underlying().(*types.Basic); ok && bx.Info()&types.IsInteger != 0 {
					if n, ok := intConst(x); ok && e.C.Views {
						switch b.Kind() {
						case types.Uint8:
							n = int(byte(n))
						case types.Int8:
							n = int(int8(n))
						case types.Int16:
							n = int(int16(n))
						case types.Uint16:
							n = int(uint16(n))
						case types.Int32:
							n = int(int32(n))
						case types.Uint32:
							n = int(uint32(n))
						}
						return tConst(strconv.Itoa(n), in.Type())
					}
					return tConst(x.s, in.Type())
				}
			}
			if b, ok := in.Type().Underlying().(*types.Basic); ok && e.C.Views && b.Info()&types.IsFloat != 0 {
				if v, err := strconv.ParseFloat(x.s, 64); err == nil {
					if b.Kind() == types.Float32 {
						v = float64(float32(v))
					}
					return tConst(strconv.FormatFloat(v, 'g', -1, 64), in.Type())
				}
			}
			// the part of a float before the point
			if from, ok := x.typ.Underlying().(*types.Basic); ok && e.C.Views && from.Info()&types.IsFloat != 0 {
				if b, ok := in.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.Int64) {
					if v, err := strconv.ParseFloat(x.s, 64); err == nil && v > -1<<62 && v < 1<<62 {
						return tConst(strconv.FormatInt(int64(v), 10), in.Type())
					}
				}
			}
		}
		return mkConv("conv", in.Type(), x)
	case *ssa.MultiConvert:
		return mkConv("conv", in.Type(), V(in.X))
	case *ssa.SliceToArrayPointer:
		return mkConv("conv", in.Type(), V(in.X))
	case *ssa.Extract:
		t := V(in.Tuple)
		if t.op == "tuple" {
			return t.args[in.Index]
		}
		return mkTerm("ext", strconv.Itoa(in.Index), "", in.Type(), nil, t)
	case *ssa.MakeInterface:
		return mkTerm("mki", typeKey(in.X.Type()), "", in.X.Type(), nil, V(in.X))
	case *ssa.MakeClosure:
		args := make([]*Term, len(in.Bindings))
		for i, b := range in.Bindings {
			args[i] = V(b)
		}
		return mkTerm("clo", "", "", in.Type(), in.Fn.(*ssa.Function), args...)
	case *ssa.Slice:
		x := V(in.X)
		if in.Low == nil && in.High == nil && in.Max == nil {
			if x.op == "slice" {
				return x
			}
			if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
				return mkTerm("slice", "full", "", in.Type(), nil, x)
			}
			return x
		}
		args := []*Term{x}
		for _, v := range []ssa.Value{in.Low, in.High} {
			if v == nil {
				args = append(args, tNil)
			} else {
				args = append(args, V(v))
			}
		}
		if s, ok := textOf(x); ok && e.C.Views {
			lo, hi, known := 0, len(s), true
			if args[1] != tNil {
				lo, known = intConst(args[1])
			}
			if args[2] != tNil && known {
				hi, known = intConst(args[2])
			}
			if known && 0 <= lo && lo <= hi && hi <= len(s) {
				return mkText(s[lo:hi], in.Type())
			}
		}
		if n, ok := e.lenOf(st, x); ok && e.C.Views && x.op == "cell" && in.Max == nil {
			lo, hi, known := 0, n, true
			for k, a := range args[1:] {
				if a == tNil {
					continue
				}
				v, err := strconv.Atoi(a.s)
				if a.op != "const" || err != nil {
					known = false
				} else if k == 0 {
					lo = v
				} else {
					hi = v
				}
			}
			if known && 0 <= lo && lo <= hi && hi <= n {
				k := func(n int) *Term { return tConst(strconv.Itoa(n), types.Typ[types.Int]) }
				return mkTerm("slice", "view", "", in.Type(), nil, x, k(lo), k(hi))
			}
		}
		if elems, ok := e.elements(st, x); ok && e.C.Concrete {
			if _, isPtr := in.X.Type().Underlying().(*types.Pointer); !isPtr && in.Max == nil {
				lo, hi := 0, len(elems)
				known := true
				for k, a := range args[1:] {
					if a == tNil {
						continue
					}
					n, err := strconv.Atoi(a.s)
					if a.op != "const" || err != nil {
						known = false
					} else if k == 0 {
						lo = n
					} else {
						hi = n
					}
				}
				if known && 0 <= lo && lo <= hi && hi <= len(elems) {
					if e.C.Views && x.op == "slice" {
						off := 0
						if x.s == "view" {
							off, _ = strconv.Atoi(x.args[1].s)
						}
						k := func(n int) *Term { return tConst(strconv.Itoa(off+n), types.Typ[types.Int]) }
						return mkTerm("slice", "view", "", in.Type(), nil, x.args[0], k(lo), k(hi))
					}
					return mkTerm("slist", "", "", in.Type(), nil, elems[lo:hi]...)
				}
			}
		}
		return mkTerm("slice", "part", "", in.Type(), nil, args...)
	case *ssa.Lookup:
		m, k := V(in.X), V(in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			if t := e.byteOf(m, k, in.Type()); t != nil {
				return t
			}
			return tSym(site, "", in.Type())
		}
		v := e.lookup(st, m, k, site)
		elem := in.X.Type().Underlying().(*types.Map).Elem()
		present := e.presence(v)
		val := v
		if v == tAbsent {
			val = zeroTerm(elem)
		} else if v.op == "minit" || v.op == "look" {
			val = mkTerm("mval", "", "", elem, nil, v)
		}
		if in.CommaOk {
			return tTuple(val, present)
		}
		return val
	case *ssa.Range:
		if _, ok := textOf(V(in.X)); ok && e.C.Views && isStringT(in.X.Type()) {
			r := mkTerm("range", "text", "", nil, nil, V(in.X), tSym(site, "", nil))
			st.mem[mkTerm("fld", "pos", "", nil, nil, r)] = tConst("0", types.Typ[types.Int])
			return r
		}
		if m := V(in.X); e.C.Concrete && (m.op == "cell" && !st.esc[mkTerm("escid", m.s, "", nil, nil)] || m.op == "nil") {
			known := true
			snap := []*Term{m}
			for a, v := range st.mem {
				if a.op == "ment" && a.args[0] == m {
					if v.op == "look" || v.op == "minit" {
						known = false
					} else if v != tAbsent {
						snap = append(snap, a.args[1])
					}
				}
			}
			if known {
				sort.Slice(snap[1:], func(i, j int) bool { return snap[1+i].id < snap[1+j].id })
				if e.C.Reverse {
					slices.Reverse(snap[1:])
				}
				r := mkTerm("range", "known", "", nil, nil, append(snap, tSym(site, "", nil))...)
				st.mem[mkTerm("fld", "pos", "", nil, nil, r)] = tConst("0", types.Typ[types.Int])
				return r
			}
		}
		return mkTerm("range", "", "", nil, nil, V(in.X))
	case *ssa.Next:
		tt := in.Type().(*types.Tuple)
		r := V(in.Iter)
		if r.op == "range" && r.s == "text" {
			at := mkTerm("fld", "pos", "", nil, nil, r)
			text, _ := textOf(r.args[0])
			if k, err := strconv.Atoi(st.mem[at].s); err == nil && k <= len(text) {
				if k == len(text) {
					return tTuple(tFalse, tConst("0", types.Typ[types.Int]), tConst("0", types.Typ[types.Rune]))
				}
				c, n := utf8.DecodeRuneInString(text[k:])
				st.mem[at] = tConst(strconv.Itoa(k+n), types.Typ[types.Int])
				return tTuple(tTrue, tConst(strconv.Itoa(k), types.Typ[types.Int]), tConst(strconv.Itoa(int(c)), types.Typ[types.Rune]))
			}
		}
		if r.op == "range" && r.s == "known" {
			at := mkTerm("fld", "pos", "", nil, nil, r)
			if k, err := strconv.Atoi(st.mem[at].s); err == nil && st.mem[at].op == "const" {
				m, keys := r.args[0], r.args[1:len(r.args)-1]
				for ; k < len(keys); k++ {
					v := e.lookup(st, m, keys[k], site)
					if v == tAbsent {
						continue // deleted meanwhile
					}
					st.mem[at] = tConst(strconv.Itoa(k+1), types.Typ[types.Int])
					return tTuple(tTrue, keys[k], v)
				}
				return tTuple(tFalse, tSym(site+"#k", "", tt.At(1).Type()), tSym(site+"#v", "", tt.At(2).Type()))
			}
		}
		return tTuple(tSym(site+"#0", "", tt.At(0).Type()),
			mkTerm("rkey", "", "", tt.At(1).Type(), nil, r, tSym(site+"#1", "", nil)),
			mkTerm("rval", "", "", tt.At(2).Type(), nil, r, tSym(site+"#1", "", nil)))
	case *ssa.TypeAssert:
		x := V(in.X)
		v, ok := e.typeAssert(st, x, in.AssertedType)
		if in.CommaOk {
			return tTuple(v, ok)
		}
		e.assume(st, ok, true)
		return v
	case *ssa.Select:
		tt := in.Type().(*types.Tuple)
		args := make([]*Term, tt.Len())
		for i := range args {
			args[i] = tSym(site+"#"+strconv.Itoa(i), "", tt.At(i).Type())
		}
		if e.C.OnSelect != nil {
			if k, ok := e.C.OnSelect(e, st, in, V); ok {
				args[0] = tConst(strconv.Itoa(k), tt.At(0).Type())
			}
		}
		return tTuple(args...)
	}
	return nil
}

// byteOf is the byte at a place of a known text.
func (e *Eng) byteOf(x, i *Term, t types.Type) *Term {
	s, ok := textOf(x)
	n, ok2 := intConst(i)
	if !ok || !ok2 || !e.C.Views || n < 0 || n >= len(s) {
		return nil
	}
	return tConst(strconv.Itoa(int(s[n])), t)
}

func mkConv(op string, typ types.Type, x *Term) *Term {
	if x.op == "nil" {
		return x
	}
	if op == "ct" && (x.op == "cell" || x.op == "fn" || x.op == "clo" || x.op == "init" || x.op == "sym") {
		return x
	}
	return mkTerm(op, typeKey(typ), "", typ, nil, x)
}

func (e *Eng) presence(v *Term) *Term {
	if v == tAbsent {
		return tFalse
	}
	if v.op == "minit" || v.op == "sym" && !e.C.Concrete || v.op == "look" {
		return mkTerm("present", "", "", types.Typ[types.Bool], nil, v)
	}
	return tTrue
}

func (e *Eng) lookup(st *State, m, k *Term, site string) *Term {
	addr := mkTerm("ment", "", "", nil, nil, m, k)
	if v, ok := st.mem[addr]; ok {
		return v
	}
	if m.op == "nil" {
		return tAbsent
	}
	for a := range st.mem {
		if a.op == "ment" && a.args[0] == m && e.maybeEqual(st, a.args[1], k) {
			return mkTerm("look", "", "", nil, nil, tSym(site, "", nil), k)
		}
	}
	if m.op == "cell" && !isSummary(m) && !st.esc[mkTerm("escid", m.s, "", nil, nil)] {
		return tAbsent
	}
	if st.havoc && !(e.C.Preserve != nil && e.C.Preserve(addr)) {
		t := mkTerm("look", "", "", nil, nil, tSym(site, "", nil), k)
		st.mem[addr] = t
		return t
	}
	t := mkTerm("minit", "", "", nil, nil, addr)
	st.mem[addr] = t
	return t
}

func (e *Eng) typeAssert(st *State, x *Term, T types.Type) (*Term, *Term) {
	_, isIface := T.Underlying().(*types.Interface)
	if x.op == "nil" || e.nilness(st, x) == 'N' {
		return zeroTerm(T), tFalse
	}
	if x.op == "mki" {
		if isIface {
			if types.Implements(x.typ, T.Underlying().(*types.Interface)) {
				return x, tTrue
			}
			return tNil, tFalse
		}
		if types.Identical(x.typ, T) {
			return x.args[0], tTrue
		}
		return zeroTerm(T), tFalse
	}
	ok := mkTok(x, T)
	var v *Term
	if isIface {
		v = x
		if tv := e.truth(st, ok); tv == 0 {
			v = tNil
		} else if tv < 0 {
			v = mkTerm("ta", typeKey(T), "", T, nil, x)
		}
	} else {
		v = mkTerm("ta", typeKey(T), "", T, nil, x)
	}
	return v, ok
}

// mkTok is "x holds a T"; its typ is the asserted type.
func mkTok(x *Term, T types.Type) *Term { return mkTerm("tok", typeKey(T), "", T, nil, x) }

func mkNot(x *Term) *Term {
	switch {
	case x == tTrue:
		return tFalse
	case x == tFalse:
		return tTrue
	case x.op == "not":
		return x.args[0]
	}
	return mkTerm("not", "", "", types.Typ[types.Bool], nil, x)
}

// sameSymbols compares symbols whose names are known.
var sameSymbols func(a, b *Term) int

func simplifyEq(a, b *Term) *Term {
	for k := 0; k < 2; k++ {
		if a.label == "many" && b.op == "const" {
			if n, err := strconv.Atoi(b.s); err == nil && n <= 4 {
				return tFalse
			}
		}
		a, b = b, a
	}
	if a == b {
		return tTrue
	}
	if a.op == "const" && b.op == "const" {
		return tBool(a.s == b.s)
	}
	if a.op == "mki" && b.op == "mki" {
		if !types.Identical(a.typ, b.typ) {
			return tFalse
		}
		return simplifyEq(a.args[0], b.args[0])
	}
	if b.op == "nil" {
		a, b = b, a
	}
	if a.op == "nil" {
		switch b.op {
		case "mki", "cell", "fn", "clo", "wrap", "glob", "fld", "slice":
			return tFalse
		case "nil":
			return tTrue
		}
	}
	if a.op == "cell" && b.op == "cell" && !isSummary(a) && !isSummary(b) {
		return tFalse
	}
	if a.op == "glob" && b.op == "glob" {
		return tFalse
	}
	if sameSymbols != nil && (a.op == "gval" || b.op == "gval" || allSymbols && strings.HasPrefix(a.label, "SYM:") && strings.HasPrefix(b.label, "SYM:")) {
		if k := sameSymbols(a, b); k >= 0 {
			return tBool(k == 1)
		}
	}
	if a.op == "bin" || b.op == "bin" {
		if x, n := offset(a); x != nil {
			if y, m := offset(b); x == y && n != m {
				return tFalse
			}
		}
	}
	if a == tTrue {
		return b
	}
	if b == tTrue {
		return a
	}
	if a == tFalse && isBool(b) {
		return mkNot(b)
	}
	if b == tFalse && isBool(a) {
		return mkNot(a)
	}
	return mkEq(a, b)
}

// offset is the integer as a constant more than another.
func offset(t *Term) (*Term, int) {
	n := 0
	for t.op == "bin" && t.s == "+" && len(t.args) == 2 && t.args[1].op == "const" {
		k, err := strconv.Atoi(t.args[1].s)
		if err != nil {
			return nil, 0
		}
		n += k
		t = t.args[0]
	}
	return t, n
}

func isBool(t *Term) bool {
	if t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (e *Eng) binop(in *ssa.BinOp, x, y *Term, site string) *Term {
	switch in.Op {
	case token.EQL:
		return simplifyEq(x, y)
	case token.NEQ:
		return mkNot(simplifyEq(x, y))
	}
	if x.op == "const" && y.op == "const" {
		cx := constant.MakeFromLiteral(strings.TrimPrefix(x.s, "-"), token.INT, 0)
		cy := constant.MakeFromLiteral(strings.TrimPrefix(y.s, "-"), token.INT, 0)
		if cx.Kind() == constant.Int && cy.Kind() == constant.Int {
			if strings.HasPrefix(x.s, "-") {
				cx = constant.UnaryOp(token.SUB, cx, 0)
			}
			if strings.HasPrefix(y.s, "-") {
				cy = constant.UnaryOp(token.SUB, cy, 0)
			}
			switch in.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				return tBool(constant.Compare(cx, in.Op, cy))
			case token.QUO, token.REM:
				a, ok1 := constant.Int64Val(cx)
				b, ok2 := constant.Int64Val(cy)
				if bt, ok := in.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && ok1 && ok2 && b != 0 && e.C.Views {
					if in.Op == token.QUO {
						return tConst(strconv.FormatInt(a/b, 10), in.Type())
					}
					return tConst(strconv.FormatInt(a%b, 10), in.Type())
				}
			case token.AND, token.OR, token.XOR, token.AND_NOT:
				if e.C.Views {
					return tConst(constant.BinaryOp(cx, in.Op, cy).ExactString(), in.Type())
				}
			case token.SHL, token.SHR:
				if n, ok := constant.Uint64Val(cy); ok && n < 32 && e.C.Views {
					if r := constant.Shift(cx, in.Op, uint(n)); constant.BitLen(r) < 31 {
						return tConst(r.ExactString(), in.Type())
					}
				}
			case token.ADD, token.SUB, token.MUL:
				r := constant.BinaryOp(cx, in.Op, cy)
				if _, ok := constant.Int64Val(r); ok && e.C.Views {
					return tConst(r.ExactString(), in.Type())
				}
				if v, ok := constant.Int64Val(r); ok && v <= 4 && v >= -4 {
					return tConst(r.ExactString(), in.Type())
				}
				if v, ok := constant.Int64Val(r); ok && v > 4 && in.Op == token.ADD {
					return tSym(site, "many", in.Type())
				}
				return tSym(site, "", in.Type())
			}
		}
	}
	if in.Op == token.ADD && x.op == "const" && y.op == "const" {
		if a, err := strconv.Unquote(x.s); err == nil {
			if b, err := strconv.Unquote(y.s); err == nil {
				return tConst(strconv.Quote(a+b), in.Type())
			}
		}
	}
	if e.C.Views && isStringT(in.X.Type()) {
		a, ok1 := textOf(x)
		b, ok2 := textOf(y)
		if ok1 && ok2 {
			switch in.Op {
			case token.LSS:
				return tBool(a < b)
			case token.LEQ:
				return tBool(a <= b)
			case token.GTR:
				return tBool(a > b)
			case token.GEQ:
				return tBool(a >= b)
			}
		}
	}
	// a count above 4 stays so (int overflow is out of scope)
	if x.label == "many" && y.op == "const" {
		if n, err := strconv.Atoi(y.s); err == nil && n >= 0 && n <= 4 {
			switch in.Op {
			case token.ADD:
				return tSym(site, "many", in.Type())
			case token.GTR, token.GEQ:
				return tTrue
			case token.LSS, token.LEQ:
				return tFalse
			}
		}
	}
	if y.label == "many" && x.op == "const" {
		if n, err := strconv.Atoi(x.s); err == nil && n >= 0 && n <= 4 {
			switch in.Op {
			case token.GTR, token.GEQ:
				return tFalse
			case token.LSS, token.LEQ:
				return tTrue
			}
		}
	}
	return mkTerm("bin", in.Op.String(), "", in.Type(), nil, x, y)
}

// ---- truth

func (e *Eng) nilness(st *State, t *Term) byte {
	switch t.op {
	case "nil":
		return 'N'
	case "mki", "cell", "fn", "clo", "wrap", "glob", "fld", "idx", "asv", "append":
		return 'X'
	case "slist":
		if len(t.args) > 0 {
			return 'X'
		}
	case "slice":
		if t.s == "full" || t.s == "view" {
			return 'X'
		}
	case "zero", "struct", "const":
		return 'X'
	case "gval":
		if e.P.globSome[t.s] {
			return 'X'
		}
	}
	if f, ok := st.facts[t]; ok && (f == 'N' || f == 'X') {
		return f
	}
	if t.op == "ct" || t.op == "conv" {
		return e.nilness(st, t.args[0])
	}
	if t.op == "ta" {
		if _, ok := t.typ.Underlying().(*types.Interface); ok {
			if e.truth(st, mkTok(t.args[0], t.typ)) == 1 {
				return 'X'
			}
		}
	}
	return 0
}

func (e *Eng) truth(st *State, c *Term) int {
	switch c {
	case tTrue:
		return 1
	case tFalse:
		return 0
	}
	if f, ok := st.facts[c]; ok {
		switch f {
		case 'T':
			return 1
		case 'F':
			return 0
		}
	}
	switch c.op {
	case "not":
		if v := e.truth(st, c.args[0]); v >= 0 {
			return 1 - v
		}
	case "eq":
		a, b := c.args[0], c.args[1]
		if b.op == "nil" {
			a, b = b, a
		}
		if a.op == "nil" {
			switch e.nilness(st, b) {
			case 'N':
				return 1
			case 'X':
				return 0
			}
			return -1
		}
		na, nb := e.nilness(st, a), e.nilness(st, b)
		if (na == 'N' && nb == 'X') || (na == 'X' && nb == 'N') {
			return 0
		}
		// x == C1 known, asked x == C2
		for f, v := range st.facts {
			if v == 'T' && f.op == "eq" {
				if (f.args[0] == a && f.args[1].op == "const" && b.op == "const" && f.args[1] != b) ||
					(f.args[1] == a && f.args[0].op == "const" && b.op == "const" && f.args[0] != b) ||
					(f.args[0] == b && f.args[1].op == "const" && a.op == "const" && f.args[1] != a) ||
					(f.args[1] == b && f.args[0].op == "const" && a.op == "const" && f.args[0] != a) {
					return 0
				}
			}
		}
	case "tok":
		x := c.args[0]
		if e.nilness(st, x) == 'N' {
			return 0
		}
		if e.isNullTok(c) {
			if v := e.someFact(st, x); v == 1 {
				return 0
			}
		} else if v := e.someFact(st, x); v == 0 && !isIfaceT(c.typ) {
			return 0
		}
		if !isIfaceT(c.typ) {
			for f, v := range st.facts {
				if v == 'T' && f.op == "tok" && f.args[0] == x && f != c && !isIfaceT(f.typ) {
					return 0
				}
			}
		}
	case "some":
		x := c.args[0]
		return e.someVal(st, x)
	case "as":
		if e.nilness(st, c.args[0]) == 'N' {
			return 0
		}
	case "bin":
		// lower bounds on lengths
		if c.args[0].op == "len" && c.args[1].op == "const" && (c.s == "<" && c.args[1].s == "0" || c.s == "<=" && strings.HasPrefix(c.args[1].s, "-")) {
			return 0
		}
	}
	return -1
}

func isIfaceT(t types.Type) bool {
	if t == nil {
		return true
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func (e *Eng) isNullTok(c *Term) bool { return strings.HasSuffix(c.s, "._NullType") }

func (e *Eng) someFact(st *State, x *Term) int {
	if f, ok := st.facts[mkTerm("some", "", "", types.Typ[types.Bool], nil, x)]; ok {
		if f == 'T' {
			return 1
		}
		return 0
	}
	return -1
}

func (e *Eng) someVal(st *State, x *Term) int {
	if e.nilness(st, x) == 'N' {
		return 0
	}
	if x.op == "mki" {
		if strings.HasSuffix(x.s, "._NullType") {
			return 0
		}
		return 1
	}
	if v := e.someFact(st, x); v >= 0 {
		return v
	}
	for f, v := range st.facts {
		if v == 'T' && f.op == "tok" && f.args[0] == x && !isIfaceT(f.typ) {
			if e.isNullTok(f) {
				return 0
			}
			return 1
		}
	}
	return -1
}

// assume adds a fact; false means the path is infeasible.
func (e *Eng) assume(st *State, c *Term, val bool) bool {
	switch e.truth(st, c) {
	case 1:
		return val
	case 0:
		return !val
	}
	switch c.op {
	case "not":
		return e.assume(st, c.args[0], !val)
	case "eq":
		a, b := c.args[0], c.args[1]
		if b.op == "nil" {
			a, b = b, a
		}
		if a.op == "nil" {
			if val {
				st.facts[b] = 'N'
			} else {
				st.facts[b] = 'X'
			}
			return true
		}
	}
	if val {
		st.facts[c] = 'T'
	} else {
		st.facts[c] = 'F'
	}
	switch c.op {
	case "tok":
		if val {
			st.facts[c.args[0]] = 'X'
			if t := mkTerm("some", "", "", types.Typ[types.Bool], nil, c.args[0]); !isIfaceT(c.typ) {
				if e.isNullTok(c) {
					st.facts[t] = 'F'
				} else {
					st.facts[t] = 'T'
				}
			}
		}
	case "some":
		if val {
			st.facts[c.args[0]] = 'X'
		}
	case "as", "is":
		if val {
			st.facts[c.args[0]] = 'X'
		}
	}
	return true
}
