package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// replacerPairs gives the pairs of every package variable that is set to
// strings.NewReplacer(constants...).
func (p *Prog) replacerPairs() map[string][][2]string {
	out := map[string][][2]string{}
	for _, pk := range p.SSA.AllPackages() {
		if !strings.HasPrefix(pk.Pkg.Path(), p.ModPath) {
			continue
		}
		init := pk.Func("init")
		if init == nil {
			continue
		}
		for _, b := range init.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				if c, ok := st.Val.(*ssa.Call); ok {
					if pairs, ok := newReplacerPairs(c); ok {
						out[g.String()] = pairs
					}
				}
			}
		}
	}
	return out
}

func newReplacerPairs(c *ssa.Call) ([][2]string, bool) {
	f := c.Call.StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "strings" || f.Name() != "NewReplacer" || len(c.Call.Args) != 1 {
		return nil, false
	}
	sl, ok := c.Call.Args[0].(*ssa.Slice)
	if !ok {
		return nil, false
	}
	vals := map[int64]string{}
	for _, u := range *sl.X.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, w := range *ia.Referrers() {
			if s, ok := w.(*ssa.Store); ok {
				v, ok := s.Val.(*ssa.Const)
				if !ok || v.Value.Kind() != constant.String {
					return nil, false
				}
				vals[k.Int64()] = constant.StringVal(v.Value)
			}
		}
	}
	var out [][2]string
	for i := int64(0); i+1 < int64(len(vals)); i += 2 {
		out = append(out, [2]string{vals[i], vals[i+1]})
	}
	return out, true
}

// part is a piece of a printed text.
type part struct {
	kind string // text, or what is done to arg
	text string
	arg  *Term
}

// parts takes a string term apart.
func parts(t *Term) []part {
	for t.op == "conv" && t.typ != nil && t.typ.Underlying() == types.Typ[types.String] {
		x := t.args[0]
		if b, ok := x.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return []part{{kind: "rune", arg: stripConv(x)}}
		}
		t = x
	}
	switch t.op {
	case "const":
		if s, err := strconv.Unquote(t.s); err == nil {
			if s == "" {
				return nil
			}
			return []part{{kind: "text", text: s}}
		}
	case "bin":
		if t.s == "+" {
			return joinParts(append(parts(t.args[0]), parts(t.args[1])...))
		}
	case "printed":
		var out []part
		vs := t.args
		for _, pc := range splitFormat(t.s) {
			if pc[0] != '%' {
				out = append(out, part{kind: "text", text: pc})
				continue
			}
			if pc == "%%" {
				out = append(out, part{kind: "text", text: "%"})
				continue
			}
			var a *Term
			if len(vs) > 0 {
				a, vs = stripConv(vs[0]), vs[1:]
			}
			switch pc {
			case "%c":
				out = append(out, part{kind: "rune", arg: a})
			case "%d":
				out = append(out, part{kind: "dec", arg: a})
			case "%s", "%v":
				if a != nil {
					out = append(out, parts(a)...)
				}
			case "%X", "%x":
				out = append(out, part{kind: "hex", arg: a})
			case "%q", "%#v", "%+q":
				out = append(out, part{kind: "quote", arg: a})
			default:
				k := pc
				if (strings.HasSuffix(pc, "X") || strings.HasSuffix(pc, "x")) && strings.HasPrefix(pc, "%0") {
					k = "hex"
				}
				out = append(out, part{kind: k, arg: a})
			}
		}
		return joinParts(out)
	case "replaced":
		return []part{{kind: "replaced", text: t.s, arg: stripConv(t.args[0])}}
	case "quoted":
		return []part{{kind: "quote", arg: stripConv(t.args[0])}}
	case "decimal":
		return []part{{kind: "dec", arg: stripConv(t.args[0])}}
	}
	return []part{{kind: "value", arg: t}}
}

func joinParts(in []part) []part {
	var out []part
	for _, x := range in {
		if x.kind == "text" && len(out) > 0 && out[len(out)-1].kind == "text" {
			out[len(out)-1].text += x.text
			continue
		}
		out = append(out, x)
	}
	return out
}

func stripConv(t *Term) *Term {
	for t.op == "conv" || t.op == "mki" || t.op == "ct" {
		t = t.args[0]
	}
	return t
}

func splitFormat(f string) []string {
	var out []string
	for f != "" {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			return append(out, f)
		}
		if i > 0 {
			out = append(out, f[:i])
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("0123456789.+-# *", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return append(out, f[i:])
		}
		out = append(out, f[i:j+1])
		f = f[j+1:]
	}
	return out
}

// modelText gives library functions that make texts a term of their own.
func modelText(pairs map[string][][2]string) func(*Eng, *State, *Call) ([]Out, bool) {
	return func(e *Eng, st *State, c *Call) ([]Out, bool) {
		f := c.Callee
		if f == nil || f.Pkg == nil {
			return nil, false
		}
		str := types.Typ[types.String]
		one := func(t *Term) ([]Out, bool) { return []Out{{St: st, Res: []*Term{t}}}, true }
		switch f.Pkg.Pkg.Path() + "." + f.Name() {
		case "fmt.Sprintf":
			if s, err := strconv.Unquote(c.Args[0].s); err == nil && c.Args[0].op == "const" {
				vs := e.variadic(st, c.Args[1])
				return one(mkTerm("printed", s, "", str, nil, vs...))
			}
		case "strconv.Quote":
			return one(mkTerm("quoted", "", "", str, nil, c.Args[0]))
		case "strconv.Itoa":
			return one(mkTerm("decimal", "", "", str, nil, c.Args[0]))
		case "strconv.FormatInt":
			if c.Args[1].op == "const" && c.Args[1].s == "10" {
				return one(mkTerm("decimal", "", "", str, nil, c.Args[0]))
			}
		case "unicode.IsLetter", "unicode.IsSpace", "unicode.IsPrint", "unicode.IsGraphic":
			return one(mkTerm("is:"+f.Name(), "", "", tBoolT, nil, c.Args[0]))
		case "strings.Replace":
			if f.Signature.Recv() != nil {
				for _, g := range globsIn(c.Args[0]) {
					if _, ok := pairs[g]; ok {
						return one(mkTerm("replaced", g, "", str, nil, c.Args[1]))
					}
				}
			}
		case "strconv.ParseUint", "strconv.ParseInt":
			s1, s2 := st, st.clone()
			er := globVal("parse error", types.Universe.Lookup("error").Type())
			v := mkTerm("parsed", "", "", c.ResultType().At(0).Type(), nil, c.Args...)
			return []Out{{St: s1, Res: []*Term{v, tNil}}, {St: s2, Res: []*Term{v, er}}}, true
		case "unicode/utf8.DecodeRuneInString":
			res := e.Fresh(c)
			res[0] = mkTerm("firstrune", "", "", res[0].typ, nil, c.Args[0])
			return []Out{{St: st, Res: res}}, true
		}
		return nil, false
	}
}

func isWrite(c *Call) (arg *Term, ok bool) {
	name := ""
	if c.Method != nil {
		name = c.Method.Name()
	} else if c.Callee != nil {
		name = c.Callee.Name()
		if c.Callee.Pkg != nil && c.Callee.Pkg.Pkg.Path() == "io" && name == "WriteString" {
			return c.Args[1], true
		}
		if c.Callee.Signature.Recv() == nil {
			return nil, false
		}
	}
	switch name {
	case "Write", "WriteString", "WriteByte", "WriteRune":
		if len(c.Args) == 2 {
			return c.Args[1], true
		}
	}
	return nil, false
}

func checkC13(p *Prog, r *Report) {
	pairs := p.replacerPairs()
	r.count("replacer tables", len(pairs))
	c13reader(p, r, pairs)
}

type readTables struct {
	names   map[string]string // character name -> value
	hex     bool
	first   bool
	barRepl map[string]bool
	decoded int
}

// c13reader reads the reader's tables and compares the printers with them.
func c13reader(p *Prog, r *Report, pairs map[string][][2]string) {
	upper, entries := p.parserLayers()
	p.lexical(r, entries)
	isUpper := map[*ssa.Function]bool{}
	for _, f := range upper {
		isUpper[f] = true
	}
	tab := &readTables{names: map[string]string{}, barRepl: map[string]bool{}}
	for _, f := range upper {
		hasRune := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Rune" {
					hasRune = true
				}
			}
		}
		if !hasRune {
			continue
		}
		p.readerTables(r, f, isUpper, pairs, tab)
	}
	r.count("character names the reader knows", len(tab.names))
	r.floor("character names the reader knows", 4)
	for name, v := range map[string]string{"space": "32", "newline": "10"} {
		r.ob(1)
		if tab.names[name] != v {
			r.add("reader/character-name/"+name, "pkg/parser", "the reader does not take #\\%s for the character %s", name, v)
		}
	}
	if !tab.first {
		r.add("reader/character", "pkg/parser", "the reader has no way to read a character by itself after #\\")
	}

	c13character(p, r, pairs, tab)
	c13string(p, r, pairs)
	c13symbol(p, r, pairs, tab)
	c13print(p, r)
	c13integers(p, r, upper)
	c13numbers(p, r, pairs)
}

func (p *Prog) readerTables(r *Report, f *ssa.Function, isUpper map[*ssa.Function]bool, pairs map[string][][2]string, tab *readTables) {
	name := p.genericName(f)
	mt := modelText(pairs)
	maps := p.constMaps()
	cl := &Client{OnLoad: errorGlobals}
	cl.OnInstr = func(e *Eng, st *State, fr *Frame, in ssa.Instruction, val func(ssa.Value) *Term) {
		nx, ok := in.(*ssa.Next)
		if !ok || !nx.IsString {
			return
		}
		if st.mon["cur"] == "1" {
			esc, bs, wrote := st.mon["esc"], st.mon["bs"], st.mon["wrote"]
			at := p.pos(in.Pos())
			if at == "" || at == "-" {
				at = p.pos(f.Pos())
			}
			switch {
			case esc == "" && wrote != "" && bs != "F":
				r.add(name+"/decode/keeps-backslash", at, "%s keeps a backslash of a string as a character", name)
			case esc == "" && wrote == "" && bs != "T":
				r.add(name+"/decode/drops", at, "%s drops a character of a string", name)
			case esc == "" && wrote == "":
				st.mon["esc"] = "1"
			case esc == "1" && wrote == "":
				r.add(name+"/decode/drops-escaped", at, "%s drops the character after a backslash in a string", name)
				delete(st.mon, "esc")
			case esc == "1":
				delete(st.mon, "esc")
			}
			r.ob(1)
		}
		st.mon["cur"] = "1"
		for _, k := range []string{"bs", "wrote", "k"} {
			delete(st.mon, k)
		}
	}
	cl.OnBranch = func(e *Eng, st *State, cond *Term, taken bool, fr *Frame, pos token.Pos) {
		c := cond
		if c.op == "not" {
			c, taken = c.args[0], !taken
		}
		if c.op != "eq" {
			return
		}
		a, b := stripConv(c.args[0]), c.args[1]
		if b.op != "const" {
			a, b = stripConv(c.args[1]), c.args[0]
		}
		if b.op == "const" && taken && strings.HasPrefix(b.s, `"`) && a.op != "const" {
			st.mon["name"], _ = strconv.Unquote(b.s)
		}
		if a.op == "rval" && b.op == "const" {
			if taken {
				st.mon["k"] = b.s
				st.mon["bs"] = "F"
			}
			if b.s == "92" {
				st.mon["bs"] = "F"
				if taken {
					st.mon["bs"] = "T"
				}
			}
		}
	}
	cl.OnCall = func(e *Eng, st *State, c *Call) ([]Out, bool) {
		if outs, ok := mt(e, st, c); ok {
			return outs, true
		}
		if g := c.Callee; g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "strings" && strings.HasPrefix(g.Name(), "Trim") && len(c.Args) == 2 {
			if s, err := strconv.Unquote(c.Args[1].s); err == nil && strings.Contains(s, `"`) {
				switch g.Name() {
				case "Trim", "TrimRight", "TrimLeft":
					r.add(name+"/trim", p.pos(c.Pos), "%s takes all the double quotes at an end off, also those of the string itself", name)
				}
			}
		}
		if arg, ok := isWrite(c); ok && st.mon["cur"] == "1" {
			a := stripConv(arg)
			if st.mon["wrote"] != "" {
				r.add(name+"/decode/doubles", p.pos(c.Pos), "%s puts two characters into a string for one", name)
			}
			st.mon["wrote"] = "1"
			if a.op != "rval" && !(a.op == "const" && a.s == st.mon["k"]) {
				r.add(name+"/decode/other", p.pos(c.Pos), "%s puts another character into a string than the one it reads", name)
			}
			tab.decoded++
			return []Out{{St: st, Res: e.okFresh(c)}}, true
		}
		if c.Method != nil {
			switch c.Method.Name() {
			case "Rune":
				a := stripConv(c.Args[1])
				key := st.mon["name"]
				for _, g := range globsIn(a) {
					for k, v := range maps[g] {
						tab.names[k] = v
					}
				}
				r.ob(1)
				switch {
				case key != "" && a.op == "const":
					if o, ok := tab.names[key]; ok && o != a.s {
						r.add(name+"/two-values/"+key, p.pos(c.Pos), "#\\%s is read as two different characters", key)
					}
					tab.names[key] = a.s
				case a.op == "parsed":
					if a.args[1].op == "const" && a.args[1].s == "16" {
						tab.hex = true
					}
					if n, err := strconv.Atoi(a.args[2].s); err == nil && n != 0 && n < 21 {
						r.add(name+"/hex-bits", p.pos(c.Pos), "characters in hexadecimal are read with %d bits, which is too few for a character", n)
					}
				case a.op == "firstrune":
					tab.first = true
				}
			case "Symbol":
				a := stripConv(c.Args[1])
				if a.op == "replaced" {
					tab.barRepl[a.s] = true
				}
			}
			return []Out{{St: st, Res: e.Fresh(c)}}, true
		}
		g := c.Callee
		if g != nil && g != f && (isUpper[g] || takesRuneScanner(g)) || g == f && g != nil {
			if errResult(g.Signature) < 0 {
				return []Out{{St: st, Res: e.Fresh(c)}}, true
			}
			return []Out{{St: st, Res: e.okFresh(c)}}, true
		}
		if g != nil && !p.smallHelper(g) {
			return e.external(st, c), true
		}
		return nil, false
	}
	e := newEng(p, cl)
	e.Run(f, p.freshParams(f), nil, newState())
	r.engine(e)
	r.count("characters decoded in strings", tab.decoded)
}

func (p *Prog) freshParams(f *ssa.Function) []*Term {
	var args []*Term
	for i, q := range f.Params {
		args = append(args, tSym("entry#p"+strconv.Itoa(i)+":"+typeKey(q.Type()), "", q.Type()))
	}
	return args
}

// methodFn finds a method by the names of its type and itself.
func (p *Prog) methodFn(typ, name string) *ssa.Function {
	o, ok := p.Main.Pkg.Scope().Lookup(typ).(*types.TypeName)
	if !ok {
		return nil
	}
	for _, t := range []types.Type{o.Type(), types.NewPointer(o.Type())} {
		ms := types.NewMethodSet(t)
		if s := ms.Lookup(p.Main.Pkg, name); s != nil {
			f := p.SSA.MethodValue(s)
			if f != nil && f.Synthetic != "" {
				// a wrapper: the method itself
				if fo, ok := s.Obj().(*types.Func); ok {
					f = p.SSA.FuncValue(fo)
				}
			}
			return f
		}
	}
	return nil
}

func c13character(p *Prog, r *Report, pairs map[string][][2]string, tab *readTables) {
	f := p.methodFn("Rune", "GoString")
	if f == nil || f.Blocks == nil {
		r.add("anchor/Rune.GoString", "-", "the printed form of characters is not found")
		return
	}
	mt := modelText(pairs)
	maps := p.constMaps()
	args := p.freshParams(f)
	cl := &Client{OnCall: mt}
	cl.OnBranch = func(e *Eng, st *State, cond *Term, taken bool, fr *Frame, pos token.Pos) {
		if cond.op == "not" {
			cond, taken = cond.args[0], !taken
		}
		if cond.op == "eq" && taken {
			for k := 0; k < 2; k++ {
				if stripConv(cond.args[k]) == args[0] && cond.args[1-k].op == "const" {
					st.mon["val"] = cond.args[1-k].s
				}
			}
		}
	}
	e := newEng(p, cl)
	exits := e.Run(f, args, nil, newState())
	r.engine(e)
	n := 0
	known := func(text string) (string, bool) {
		rs := []rune(text)
		if got, ok := tab.names[text]; ok {
			return got, true
		}
		if len(rs) == 1 {
			return strconv.Itoa(int(rs[0])), true
		}
		if len(rs) > 1 && rs[0] == 'U' && tab.hex {
			if h, err := strconv.ParseUint(text[1:], 16, 32); err == nil {
				return strconv.Itoa(int(h)), true
			}
		}
		return "", false
	}
	named := func(at, text, val string) {
		got, ok := known(text)
		r.sample("the character %s prints as #\\%s and reads as %s", val, text, got)
		if !ok {
			r.add("character/"+text, at, "a character is printed as #\\%s, which the reader does not know", text)
		} else if val == "" || got != val {
			r.add("character/"+text, at, "the character %s is printed as #\\%s, which the reader takes for %s", val, text, got)
		}
	}
	for _, x := range exits {
		if x.Panic {
			continue
		}
		n++
		r.ob(1)
		at := p.pos(x.Pos)
		val := x.St.mon["val"]
		ps := parts(x.Res[0])
		if len(ps) == 0 || ps[0].kind != "text" || !strings.HasPrefix(ps[0].text, `#\`) {
			r.add("character/prefix", at, "a character is printed without #\\ in front")
			continue
		}
		text := ps[0].text[2:]
		switch {
		case len(ps) == 1:
			named(at, text, val)
		case len(ps) == 2 && text == "" && ps[1].kind == "rune" && ps[1].arg == args[0]:
			// read by itself
			if !tab.first {
				r.add("character/itself", at, "a character is printed by itself but not read so")
			}
		case len(ps) == 2 && text == "U" && ps[1].kind == "hex" && ps[1].arg == args[0]:
			if !tab.hex {
				r.add("character/hex", at, "a character is printed in hexadecimal, which the reader does not take")
			}
		case len(ps) == 2 && text == "" && ps[1].kind == "value" && len(globsIn(ps[1].arg)) == 1:
			for k, v := range maps[globsIn(ps[1].arg)[0]] {
				named(at, v, k)
			}
		default:
			r.add("character/form", at, "a character is printed in a form that the reader does not take back")
		}
	}
	r.count("forms of printed characters", n)
	r.floor("forms of printed characters", 3)
}

func c13string(p *Prog, r *Report, pairs map[string][][2]string) {
	for _, typ := range []string{"String", "StringBuilder"} {
		f := p.methodFn(typ, "GoString")
		if f == nil || f.Blocks == nil {
			r.add("anchor/"+typ+".GoString", "-", "the printed form of strings is not found")
			continue
		}
		e := newEng(p, &Client{OnCall: modelText(pairs)})
		exits := e.Run(f, p.freshParams(f), nil, newState())
		r.engine(e)
		for _, x := range exits {
			if x.Panic {
				continue
			}
			r.ob(1)
			at := p.pos(x.Pos)
			ps := parts(x.Res[0])
			quoted := false
			for _, q := range ps {
				quoted = quoted || q.kind == "quote"
			}
			switch {
			case quoted:
				r.add(typ+"/go-escapes", at, "a string is printed with the escapes of Go, which the reader does not decode")
			case len(ps) == 3 && ps[0].kind == "text" && ps[2].kind == "text" && ps[1].kind == "replaced":
				if ps[0].text != `"` || ps[2].text != `"` {
					r.add(typ+"/quotes", at, "a string is not printed in double quotes")
				}
				p.escapes(r, typ, at, pairs[ps[1].text], []string{`\`, `"`})
				r.count("string printers decided", 1)
			case len(ps) == 3 && ps[1].kind == "value" && ps[0].kind == "text":
				if ps[1].arg.op == "sym" && strings.HasPrefix(ps[1].arg.s, "entry#") {
					r.add(typ+"/no-escape", at, "a string is printed without escaping its double quotes and backslashes")
				}
			}
		}
	}
	r.floor("string printers decided", 1)
}

// escapes says that the table puts a backslash before each of the runes, and
// before nothing that it would change.
func (p *Prog) escapes(r *Report, key, at string, ps [][2]string, need []string) {
	seen := map[string]bool{}
	for _, q := range ps {
		r.ob(1)
		seen[q[0]] = true
		if len([]rune(q[0])) != 1 || q[1] != `\`+q[0] {
			r.add(key+"/escape", at, "%q is printed as %q, which the reader takes for something else", q[0], q[1])
		}
	}
	for _, n := range need {
		if !seen[n] {
			r.add(key+"/unescaped/"+n, at, "%q is printed without a backslash before it", n)
		}
	}
}

func c13symbol(p *Prog, r *Report, pairs map[string][][2]string, tab *readTables) {
	f := p.methodFn("_Symbol", "GoString")
	if f == nil || f.Blocks == nil {
		r.add("symbol/no-bars", "atom.go", "symbols have no printed form of their own: names that need bars are printed without")
		return
	}
	args := p.freshParams(f)
	mt := modelText(pairs)
	str := types.Typ[types.String]
	nameT := mkTerm("nameof", "", "", str, nil, args[0])
	isReader := func(g *ssa.Function) bool {
		return g != nil && takesRuneScanner(g) && errResult(g.Signature) >= 0
	}
	cl := &Client{}
	cl.OnCall = func(e *Eng, st *State, c *Call) ([]Out, bool) {
		if outs, ok := mt(e, st, c); ok {
			return outs, true
		}
		name := ""
		if c.Method != nil {
			name = c.Method.Name()
		} else if c.Callee != nil {
			name = c.Callee.Name()
		}
		if (name == "String" || name == "IdToName") && len(c.Args) > 0 {
			a := stripConv(c.Args[len(c.Args)-1])
			if a == args[0] {
				return []Out{{St: st, Res: []*Term{nameT}}}, true
			}
			if a.op == "ta" || strings.Contains(a.label, "read-back") {
				return []Out{{St: st, Res: []*Term{mkTerm("nameof", "", "", str, nil, a)}}}, true
			}
		}
		if isReader(c.Callee) {
			return okErr(st, c, "read-back", "unread", func(s *State, ok bool) {
				if ok {
					s.mon["read"] = "1"
				}
			}), true
		}
		return nil, false
	}
	isBack := func(t *Term) bool { return strings.Contains(t.String(), "read-back") }
	cl.OnBranch = func(e *Eng, st *State, cond *Term, taken bool, fr *Frame, pos token.Pos) {
		c := cond
		if c.op == "not" {
			c, taken = c.args[0], !taken
		}
		if c.op != "eq" || c.args[0].op == "nil" || c.args[1].op == "nil" {
			return
		}
		a, b := c.args[0], c.args[1]
		if taken && (isBack(a) || isBack(b)) {
			st.mon["same"] = "1"
		}
		for k := 0; k < 2; k++ {
			if c.args[k] == nameT && c.args[1-k].op == "const" && !taken {
				s, _ := strconv.Unquote(c.args[1-k].s)
				st.mon["not "+s] = "1"
			}
		}
	}
	e := newEng(p, cl)
	exits := e.Run(f, args, nil, newState())
	r.engine(e)
	for _, x := range exits {
		if x.Panic {
			continue
		}
		r.ob(1)
		at := p.pos(x.Pos)
		ps := parts(x.Res[0])
		switch {
		case len(ps) == 1 && ps[0].arg == nameT:
			if x.St.mon["same"] != "1" {
				r.add("symbol/bare", at, "a symbol can be printed without bars although it was not found that the reader takes the bare name for it")
			}
			for _, d := range []string{".", ")"} {
				if x.St.mon["not "+d] == "" {
					r.add("symbol/bare/"+d, at, "the symbol |%s| can be printed without bars", d)
				}
			}
			r.count("symbol forms decided", 1)
		case len(ps) == 3 && ps[0].text == "|" && ps[2].text == "|" && ps[1].kind == "replaced" && ps[1].arg == nameT:
			p.escapes(r, "symbol", at, pairs[ps[1].text], []string{`\`, `|`})
			ok := false
			for k := range tab.barRepl {
				ok = ok || inverse(pairs[ps[1].text], pairs[k])
			}
			if !ok {
				r.add("symbol/reader-table", at, "the reader does not undo what the printer escapes in bars")
			}
			r.count("symbol forms decided", 1)
		default:
			for _, q := range ps {
				if q.kind == "quote" {
					r.add("symbol/go-escapes", at, "a symbol is printed with the escapes of Go")
				}
			}
		}
	}
	r.floor("symbol forms decided", 2)
}

func inverse(a, b [][2]string) bool {
	m := map[[2]string]bool{}
	for _, x := range a {
		m[[2]string{x[1], x[0]}] = true
	}
	for _, x := range b {
		if !m[x] {
			return false
		}
	}
	return len(a) == len(b)
}

// c13numbers looks at the printed form of integers.
func c13numbers(p *Prog, r *Report, pairs map[string][][2]string) {
	f := p.methodFn("Integer", "String")
	if f == nil || f.Blocks == nil {
		r.add("anchor/Integer.String", "-", "the printed form of integers is not found")
		return
	}
	e := newEng(p, &Client{OnCall: modelText(pairs)})
	args := p.freshParams(f)
	for _, x := range e.Run(f, args, nil, newState()) {
		ps := parts(x.Res[0])
		r.ob(1)
		if len(ps) != 1 || ps[0].kind != "dec" || ps[0].arg != args[0] {
			r.add("integer/decimal", p.pos(x.Pos), "an integer is not printed as its decimal digits alone")
		}
	}
	r.engine(e)
}

// c13print looks at what the compound printers write.
func c13print(p *Prog, r *Report) {
	try := p.Main.Func("tryPrintTo")
	if try == nil {
		r.add("anchor/tryPrintTo", "-", "the common printing function is not found")
		return
	}
	p.printerDispatch(r, try)
	p.goStrings(r)
	print := "0"
	if c, ok := p.Main.Pkg.Scope().Lookup("PRINT").(*types.Const); ok {
		print = c.Val().ExactString()
	}
	c13format(p, r, try, print)
	for _, typ := range []string{"Cons", "Array"} {
		f := p.methodFn(typ, "PrintTo")
		if f == nil || f.Blocks == nil {
			r.add("anchor/"+typ+".PrintTo", "-", "the printer of %s is not found", typ)
			continue
		}
		roots := []*ssa.Function{f}
		// functions that print a part of it and call themselves
		for _, g := range p.All {
			if g.Signature.Recv() != nil && g != f && typeName(g.Signature.Recv().Type()) == typ && callsItself(g) && takesWriter(g) {
				roots = append(roots, g)
			}
		}
		for _, g := range roots {
			p.printerShape(r, g, roots, try)
		}
	}
	r.floor("elements printed", 4)
}

func typeName(t types.Type) string {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.(*types.Alias); ok {
		return a.Obj().Name()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func callsItself(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
				return true
			}
		}
	}
	return false
}

func takesWriter(f *ssa.Function) bool {
	for _, q := range f.Params {
		if typeKey(q.Type()) == "io.Writer" {
			return true
		}
	}
	return false
}

func isModeT(t types.Type) bool { return typeName(t) == "PrintMode" }

func modeOf(args []*Term) *Term {
	for _, a := range args {
		if a.typ != nil && isModeT(a.typ) {
			return a
		}
	}
	return nil
}

// printerDispatch: in the readable mode what an object prints is its readable form.
func (p *Prog) printerDispatch(r *Report, try *ssa.Function) {
	args := p.freshParams(try)
	mode := modeOf(args)
	print := "0"
	if c, ok := p.Main.Pkg.Scope().Lookup("PRINT").(*types.Const); ok {
		print = c.Val().ExactString()
	}
	modes := 0
	for _, n := range p.Main.Pkg.Scope().Names() {
		if c, ok := p.Main.Pkg.Scope().Lookup(n).(*types.Const); ok && isModeT(c.Type()) {
			modes++
		}
	}
	twoModes := modes == 2
	cl := &Client{}
	cl.OnCall = func(e *Eng, st *State, c *Call) ([]Out, bool) {
		if c.Method != nil && (c.Method.Name() == "GoString" || c.Method.Name() == "String") && len(c.Args) == 1 {
			return []Out{{St: st, Res: []*Term{mkTerm("form", c.Method.Name(), "", types.Typ[types.String], nil, c.Args[0])}}}, true
		}
		if c.Method != nil && c.Method.Name() == "PrintTo" {
			if m := modeArg(c); m != mode {
				r.add("dispatch/mode", p.pos(c.Pos), "an object is asked to print itself in another mode than wanted")
			}
			st.mon["did"] = "self"
			return []Out{{St: st, Res: e.Fresh(c)}}, true
		}
		if arg, ok := isWrite(c); ok {
			st.mon["did"] = "other"
			if arg = stripConv(arg); arg.op == "form" {
				st.mon["did"] = arg.s
			}
			return []Out{{St: st, Res: e.Fresh(c)}}, true
		}
		return nil, false
	}
	cl.OnBranch = func(e *Eng, st *State, cond *Term, taken bool, fr *Frame, pos token.Pos) {
		if cond.op == "not" {
			cond, taken = cond.args[0], !taken
		}
		if cond.op == "eq" {
			for k := 0; k < 2; k++ {
				if cond.args[k] == mode && cond.args[1-k].op == "const" {
					switch {
					case cond.args[1-k].s == print:
						st.mon["print"] = map[bool]string{true: "yes", false: "no"}[taken]
					case taken:
						st.mon["print"] = "no"
					case twoModes:
						st.mon["print"] = "yes"
					}
				}
			}
		}
		if cond.op == "tok" && hasMethod(cond.typ, "GoString") {
			st.mon["go"] = map[bool]string{true: "T", false: "F"}[taken]
		}
	}
	e := newEng(p, cl)
	for _, x := range e.Run(try, args, nil, newState()) {
		if x.Panic {
			continue
		}
		r.ob(1)
		isPrint, stringer := x.St.mon["print"], x.St.mon["go"]
		did := x.St.mon["did"]
		at := p.pos(x.Pos)
		switch {
		case did == "self":
		case isPrint == "yes" && stringer == "T" && did != "GoString":
			r.add("dispatch/readable", at, "an object that has a readable form is not printed in it when that is wanted")
		case isPrint != "yes" && did == "GoString":
			r.add("dispatch/plain", at, "an object is printed in its readable form when the plain one is wanted")
		case isPrint == "" && did == "String" && stringer != "F":
			r.add("dispatch/never-readable", at, "the mode does not decide the form an object is printed in")
		}
	}
	r.engine(e)
}

// printerShape follows what is written: an opening, elements with a blank
// between them, a closing.
func (p *Prog) printerShape(r *Report, f *ssa.Function, roots []*ssa.Function, try *ssa.Function) {
	part := map[*ssa.Function]bool{try: true}
	for _, g := range roots {
		part[g] = true
	}
	name := fnName(f)
	args := p.freshParams(f)
	mode := modeOf(args)
	bad := map[string]bool{}
	syms := p.symbolGlobals()
	step := func(st *State, ev string, pos token.Pos) {
		q := st.mon["q"]
		n := ""
		if q == "X" {
			return
		}
		switch q + ev {
		case "0(", "0#", "0'", "0E", "1E", "1)", "2 ", "2)", "3E", "3.", "4 ", "3(", "1(", "5E":
			switch ev {
			case "(":
				n = "1"
			case "#":
				n = "0"
			case "'":
				n = "5"
			case "E":
				n = "2"
				if q == "0" || q == "5" {
					n = "9"
				}
			case " ":
				n = "3"
			case ".":
				n = "4"
			case ")":
				n = "9"
			}
		}
		if n == "" {
			what := map[string]string{"2E": "two elements without a blank between them", "3)": "a blank before the closing parenthesis", "9)": "a second closing parenthesis", "0)": "a closing parenthesis without an opening one", "9E": "something after the closing parenthesis"}[q+ev]
			if what == "" {
				what = "a sequence (" + q + ev + ") that does not read back"
			}
			if !bad[what] {
				bad[what] = true
				r.add(name+"/"+strings.ReplaceAll(what, " ", "-"), p.pos(pos), "%s prints %s", name, what)
			}
			n = "X"
		}
		st.mon["q"] = n
	}
	text := func(st *State, s string, pos token.Pos) {
		i := 0
		for i < len(s) {
			if st.mon["q"] == "X" {
				return
			}
			switch s[i] {
			case '(', ')', ' ':
				step(st, s[i:i+1], pos)
				i++
			case '\'', '`':
				want := map[byte]string{'\'': "quote", '`': "quasiquote"}[s[i]]
				if st.mon["car "+want] == "" {
					r.add(name+"/abbreviation/"+want, p.pos(pos), "%s abbreviates a list with %c that is not known to be (%s x)", name, s[i], want)
				}
				r.ob(1)
				step(st, "'", pos)
				i++
			case '#':
				step(st, "#", pos)
				i++
				for i < len(s) && s[i] != '(' {
					i++
				}
			case '.':
				step(st, ".", pos)
				i++
			default:
				for i < len(s) && !strings.ContainsRune("() '`#.", rune(s[i])) {
					i++
				}
				step(st, "E", pos)
			}
		}
	}
	cl := &Client{}
	cl.Widen = func(t *Term) bool {
		if t.op == "slice" && t.s == "part" {
			return true
		}
		if t.op == "const" || t.label == "many" || t.typ == nil || t == mode {
			return false
		}
		b, ok := t.typ.Underlying().(*types.Basic)
		return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
	}
	wrote := func(e *Eng, st *State, c *Call, do func(*State)) []Out {
		s1, s2 := st, st.clone()
		res := e.okFresh(c)
		bad := e.Fresh(c)
		for i, t := range res {
			// how much was written does not matter
			if b, ok := t.typ.(*types.Basic); ok && b.Kind() == types.Int {
				res[i] = tConst("0", t.typ)
				bad[i] = res[i]
			}
		}
		if i := errResult(c.ResultType2()); i >= 0 {
			bad[i] = globVal("write error", types.Universe.Lookup("error").Type())
			s2.mon["q"] = "X"
			do(s1)
			return []Out{{St: s1, Res: res}, {St: s2, Res: bad}}
		}
		do(s1)
		return []Out{{St: s1, Res: res}}
	}
	cl.OnCall = func(e *Eng, st *State, c *Call) ([]Out, bool) {
		if c.Callee != nil && part[c.Callee] || c.Callee != nil && c.Callee.Name() == "PrintTo" || c.Method != nil && c.Method.Name() == "PrintTo" {
			if m := modeArg(c); m != nil && m != mode {
				r.add(name+"/mode", p.pos(c.Pos), "%s prints a part in another mode than the whole", name)
			}
			r.ob(1)
			r.count("elements printed", 1)
			return wrote(e, st, c, func(s *State) { step(s, "E", c.Pos) }), true
		}
		if c.Callee != nil && c.Callee.Pkg != nil && c.Callee.Pkg.Pkg.Path() == "fmt" && (c.Callee.Name() == "Fprintf" || c.Callee.Name() == "Fprint") {
			s := ""
			if c.Callee.Name() == "Fprintf" {
				s, _ = strconv.Unquote(c.Args[1].s)
			} else {
				for _, v := range e.variadic(st, c.Args[1]) {
					if v = stripConv(v); v.op == "const" && strings.HasPrefix(v.s, `"`) {
						t, _ := strconv.Unquote(v.s)
						s += t
					} else {
						s += "x"
					}
				}
			}
			if strings.HasPrefix(s, "#") && strings.Contains(s, "%") {
				vs := e.variadic(st, c.Args[2])
				if len(vs) != 1 || stripConv(vs[0]).op != "len" {
					r.add(name+"/rank", p.pos(c.Pos), "%s prints something else than the rank in front of an array", name)
				}
			}
			return wrote(e, st, c, func(st *State) { text(st, s, c.Pos) }), true
		}
		if arg, ok := isWrite(c); ok {
			s := ""
			known := false
			if arg.op == "slice" {
				known = true
				for _, v := range e.variadic(st, arg) {
					t, ok := constRunes(v)
					s += t
					known = known && ok
				}
			} else {
				s, known = constRunes(arg)
			}
			if known && s == "#" {
				one := st.mon["rank"] == "1"
				if !one {
					r.add(name+"/no-rank", p.pos(c.Pos), "%s prints an array that is not known to be a vector without its rank", name)
				}
			}
			return wrote(e, st, c, func(st *State) {
				if known {
					text(st, s, c.Pos)
				} else {
					step(st, "E", c.Pos)
				}
			}), true
		}
		return nil, false
	}
	cl.OnBranch = func(e *Eng, st *State, cond *Term, taken bool, fr *Frame, pos token.Pos) {
		if cond.op == "not" {
			cond, taken = cond.args[0], !taken
		}
		if cond.op == "eq" && taken {
			for k := 0; k < 2; k++ {
				if cond.args[k].op == "len" && cond.args[1-k].s == "1" {
					st.mon["rank"] = "1"
				}
				for g := range syms {
					if contains(globsIn(cond.args[k]), g) {
						st.mon["car "+syms[g]] = "1"
					}
				}
			}
		}
	}
	e := newEng(p, cl)
	st := newState()
	st.mon["q"] = "0"
	n := 0
	for _, x := range e.Run(f, args, nil, st) {
		if x.Panic {
			continue
		}
		q := x.St.mon["q"]
		if q == "X" {
			continue
		}
		n++
		r.ob(1)
		if q != "9" {
			r.add(name+"/unfinished", p.pos(x.Pos), "%s can end without the closing parenthesis (state %s)", name, q)
		}
	}
	r.engine(e)
	r.count("printer exits", n)
}

// globsIn gives the package variables that a term is made of.
func globsIn(t *Term) []string {
	if t.op == "glob" || t.op == "gval" {
		return []string{t.s}
	}
	var out []string
	for _, a := range t.args {
		out = append(out, globsIn(a)...)
	}
	return out
}

// constMaps gives the entries of the package variables that are set to map
// literals of constants.
func (p *Prog) constMaps() map[string]map[string]string {
	out := map[string]map[string]string{}
	for _, pk := range p.SSA.AllPackages() {
		if !strings.HasPrefix(pk.Pkg.Path(), p.ModPath) || pk.Func("init") == nil {
			continue
		}
		for _, b := range pk.Func("init").Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				m, ok := st.Val.(*ssa.MakeMap)
				if !ok {
					continue
				}
				tab := map[string]string{}
				for _, u := range *m.Referrers() {
					if mu, ok := u.(*ssa.MapUpdate); ok && mu.Map == m {
						tab[constText(mu.Key)] = constText(mu.Value)
					}
				}
				out[g.String()] = tab
			}
		}
	}
	return out
}

func constText(v ssa.Value) string {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.Const:
			if x.Value == nil {
				return ""
			}
			if x.Value.Kind() == constant.String {
				return constant.StringVal(x.Value)
			}
			return x.Value.ExactString()
		}
		return "?"
	}
}

func hasMethod(t types.Type, name string) bool {
	if i, ok := t.Underlying().(*types.Interface); ok {
		for k := 0; k < i.NumMethods(); k++ {
			if i.Method(k).Name() == name {
				return true
			}
		}
	}
	return false
}

// elementOf says which element of the slice a value is, seen through the
// slicing of a prefix.
func elementOf(t *Term, list *Term) (int, bool) {
	for t.op == "init" || t.op == "conv" || t.op == "ct" {
		t = t.args[0]
	}
	if t.op != "idx" || len(t.args) != 2 {
		return 0, false
	}
	n, err := strconv.Atoi(t.args[1].s)
	if err != nil {
		return 0, false
	}
	b := t.args[0]
	for b.op == "slice" && b.s == "part" && len(b.args) >= 2 {
		if b.args[1] != tNil {
			k, err := strconv.Atoi(b.args[1].s)
			if err != nil {
				return 0, false
			}
			n += k
		}
		b = b.args[0]
	}
	return n, b == list
}

// c13format: format-object and the directives for objects print in the mode
// that is asked for.
func c13format(p *Prog, r *Report, try *ssa.Function, print string) {
	b := anchor(p, r, "format-object")
	if b == nil {
		return
	}
	args := p.freshParams(b.Fn)
	list := args[len(args)-1]
	cl := &Client{}
	n := 0
	cl.OnBranch = func(e *Eng, st *State, cond *Term, taken bool, fr *Frame, pos token.Pos) {
		if cond.op == "not" {
			cond, taken = cond.args[0], !taken
		}
		if cond.op == "some" {
			if k, ok := elementOf(cond.args[0], list); ok && k == 2 {
				st.mon["esc"] = map[bool]string{true: "T", false: "F"}[taken]
			}
		}
	}
	cl.OnCall = callModels(func(e *Eng, st *State, c *Call) ([]Out, bool) {
		if c.Callee == nil && c.Method != nil {
			return []Out{{St: st, Res: e.Fresh(c)}}, true
		}
		if c.Callee != try {
			return nil, false
		}
		n++
		r.ob(1)
		m := modeArg(c)
		if m.op == "const" {
			want := ""
			switch st.mon["esc"] {
			case "T":
				want = "readable"
			case "F":
				want = "plain"
			}
			got := "plain"
			if m.s == print {
				got = "readable"
			}
			if want != got {
				if want == "" {
					r.add("format-object/always", p.pos(c.Pos), "format-object prints in the %s form whatever its third argument is", got)
				} else {
					r.add("format-object/"+want, p.pos(c.Pos), "format-object prints in the %s form where the %s one is asked for", got, want)
				}
			}
		}
		for _, a := range c.Args {
			if p.isNode(a.typ) {
				if k, ok := elementOf(a, list); ok && k != 1 {
					r.add("format-object/which", p.pos(c.Pos), "format-object prints its argument %d", k)
				}
			}
		}
		return []Out{{St: st, Res: e.Fresh(c)}}, true
	}, baseModels)
	e := newEng(p, cl)
	e.Run(b.Fn, args, nil, newState())
	r.engine(e)
	r.count("objects printed by format-object", n)
	r.floor("objects printed by format-object", 2)

	// the directives ~a and ~s
	for _, f := range p.All {
		if f.Pkg != p.Main {
			continue
		}
		for _, blk := range f.Blocks {
			runes := caseRunes(blk)
			if len(runes) == 0 {
				continue
			}
			for _, i := range blk.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() != try {
					continue
				}
				var mode *ssa.Const
				for _, a := range c.Common().Args {
					if isModeT(a.Type()) {
						mode, _ = a.(*ssa.Const)
					}
				}
				if mode == nil {
					continue
				}
				readable := mode.Value.ExactString() == print
				for _, x := range runes {
					r.ob(1)
					r.count("directives for objects", 1)
					if (x == 's' || x == 'S') && !readable {
						r.add("directive/s", p.pos(c.Pos()), "~s does not print in the readable form")
					}
					if (x == 'a' || x == 'A') && readable {
						r.add("directive/a", p.pos(c.Pos()), "~a prints in the readable form")
					}
				}
			}
		}
	}
}

// caseRunes gives the runes whose comparison leads straight into the block.
func caseRunes(b *ssa.BasicBlock) []rune {
	var out []rune
	for _, q := range b.Preds {
		i, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If)
		if !ok || q.Succs[0] != b || q.Succs[1] == b {
			return nil
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok || c.Op != token.EQL {
			return nil
		}
		k, ok := c.Y.(*ssa.Const)
		if !ok {
			k, ok = c.X.(*ssa.Const)
		}
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return nil
		}
		out = append(out, rune(k.Int64()))
	}
	return out
}

// modeArg is the argument of the call that says how to print.
func modeArg(c *Call) *Term {
	var sig *types.Signature
	if c.Method != nil {
		sig = c.Method.Type().(*types.Signature)
	} else if c.Callee != nil {
		sig = c.Callee.Signature
	}
	if sig == nil {
		return nil
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if isModeT(sig.Params().At(i).Type()) {
			return c.Args[len(c.Args)-sig.Params().Len()+i]
		}
	}
	return nil
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// symbolGlobals gives the names of the package variables that hold symbols.
func (p *Prog) symbolGlobals() map[string]string {
	out := map[string]string{}
	for _, b := range p.Main.Func("init").Blocks {
		for _, i := range b.Instrs {
			if st, ok := i.(*ssa.Store); ok {
				if g, ok := st.Addr.(*ssa.Global); ok {
					if n, ok := p.symbolOf(st.Val); ok {
						out[g.String()] = n
					}
				}
			}
		}
	}
	return out
}

// goStrings: the readable form of an object asks for the readable mode.
func (p *Prog) goStrings(r *Report) {
	print := "0"
	if c, ok := p.Main.Pkg.Scope().Lookup("PRINT").(*types.Const); ok {
		print = c.Val().ExactString()
	}
	for _, f := range p.All {
		if f.Pkg != p.Main || f.Signature.Recv() == nil || f.Name() != "GoString" && f.Name() != "String" || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, a := range c.Common().Args {
					k, ok := a.(*ssa.Const)
					if !ok || !isModeT(a.Type()) {
						continue
					}
					r.ob(1)
					if (k.Value.ExactString() == print) != (f.Name() == "GoString") {
						r.add(fnName(f)+"/mode", p.pos(c.Pos()), "%s prints in the wrong mode", fnName(f))
					}
				}
			}
		}
	}
}
