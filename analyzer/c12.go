package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// ---- which functions read

func takesRuneScanner(f *ssa.Function) bool {
	for _, q := range f.Params {
		if typeKey(q.Type()) == "io.RuneScanner" {
			return true
		}
	}
	return false
}

func isReadRune(cc *ssa.CallCommon) bool {
	return cc.IsInvoke() && cc.Method.Name() == "ReadRune"
}

// parserLayers splits the functions of the parser package that take the input:
// those which build nodes, and the tokenizer below them.
func (p *Prog) parserLayers() (upper, lexEntries []*ssa.Function) {
	builds := map[*ssa.Function]bool{}
	var in []*ssa.Function
	for _, f := range p.All {
		if fnPkg(f) == nil || fnPkg(f).Path() != p.ModPath+"/pkg/parser" || f.Blocks == nil {
			continue
		}
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue // only instances have code
		}
		in = append(in, f)
	}
	calls := func(f *ssa.Function, do func(cc *ssa.CallCommon, g *ssa.Function)) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					do(c.Common(), c.Common().StaticCallee())
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range in {
			if builds[f] {
				continue
			}
			calls(f, func(cc *ssa.CallCommon, g *ssa.Function) {
				if g != nil && builds[g] || cc.IsInvoke() && cc.Method.Name() == "Symbol" {
					builds[f] = true
				}
			})
			ch = ch || builds[f]
		}
	}
	reads := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range in {
			if reads[f] {
				continue
			}
			calls(f, func(cc *ssa.CallCommon, g *ssa.Function) {
				if isReadRune(cc) || g != nil && reads[g] {
					reads[f] = true
				}
			})
			ch = ch || reads[f]
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range in {
		if !builds[f] || !reads[f] {
			continue
		}
		upper = append(upper, f)
		calls(f, func(cc *ssa.CallCommon, g *ssa.Function) {
			if g != nil && reads[g] && !builds[g] && !seen[g] {
				seen[g] = true
				lexEntries = append(lexEntries, g)
			}
		})
	}
	return
}

// globVal stands for the value of an error variable.
func globVal(name string, typ types.Type) *Term { return mkTerm("glob", "val:"+name, "", typ, nil) }

func eofVal() *Term { return globVal("io.EOF", types.Universe.Lookup("error").Type()) }

func errorGlobals(e *Eng, st *State, addr *Term, site string, typ types.Type) *Term {
	if addr.op == "glob" && typ != nil && typ.String() == "error" {
		return globVal(addr.s, typ)
	}
	return nil
}

// ---- the lexical rules, as an automaton over the runes the tokenizer takes

// lexNext is the state after one more rune. first says that the token so far
// is the single rune which led to the state.
func lexNext(q string, c rune) string {
	word := func(prev bool) string {
		switch {
		case unicode.IsSpace(c) || strings.ContainsRune("();", c):
			return "D"
		case c == '"':
			return "STR"
		case c == '|':
			if prev {
				return "W"
			}
			return "BAR"
		case c == '#':
			return "HASH"
		case c == '\\':
			return "WESC"
		}
		return "W"
	}
	switch q {
	case "S":
		switch {
		case unicode.IsSpace(c):
			return "S"
		case c == ';':
			return "LC"
		case strings.ContainsRune("()'`,", c):
			return "T"
		case c == '#':
			return "HASH0"
		}
		return word(false)
	case "LC":
		if c == '\n' {
			return "S"
		}
		return "LC"
	case "HASH0", "HASH", "HASH1":
		switch c {
		case '#':
			if q == "HASH0" {
				return "HASH1"
			}
		case '|':
			if q == "HASH1" {
				return "" // a comment right after ## or \\# is not followed
			}
			if q == "HASH0" {
				return "BC1S"
			}
			return "BC1W"
		case '\\':
			if q == "HASH0" {
				return "CHESC"
			}
			return "WESC"
		case '\'':
			return "TQ"
		}
		return word(false)
	case "CHESC":
		return "W"
	case "W":
		return word(false)
	case "WESC":
		if c == '\\' || c == '"' {
			return "W"
		}
		if n := word(true); n != "HASH" {
			return n
		}
		return "HASH1"
	case "STR":
		switch c {
		case '"':
			return "W"
		case '\\':
			return "STRESC"
		}
		return "STR"
	case "STRESC":
		return "STR"
	case "BAR":
		switch c {
		case '|':
			return "W"
		case '\\':
			return "BARESC"
		}
		return "BAR"
	case "BARESC":
		return "BAR"
	}
	if strings.HasPrefix(q, "BC") {
		// BC<depth><S|W><|,#,nothing>
		d, ctx, last := int(q[2]-'0'), q[3:4], q[4:]
		mk := func(d int, last string) string { return "BC" + strconv.Itoa(d) + ctx + last }
		switch {
		case last == "|" && c == '#':
			if d == 1 {
				return ctx
			}
			return mk(d-1, "")
		case last == "#" && c == '|':
			if d >= 3 {
				return "" // deeper nesting is not followed
			}
			return mk(d+1, "")
		case c == '|':
			return mk(d, "|")
		case c == '#':
			return mk(d, "#")
		}
		return mk(d, "")
	}
	return "?"
}

func lexOpen(q string) string {
	switch {
	case q == "STR" || q == "STRESC":
		return "a string"
	case q == "BAR" || q == "BARESC":
		return "a symbol in bars"
	case q == "CHESC" || q == "WESC":
		return "an escape"
	case strings.HasPrefix(q, "BC"):
		return "a comment"
	}
	return ""
}

var lexAlphabet = []rune{' ', '\n', ';', '(', ')', '\'', '`', ',', '"', '|', '\\', '#', 'x', '1', '\u3042'}

type lexRun struct {
	p      *Prog
	r      *Report
	fn     *ssa.Function
	writes int
	spec   map[string]bool
	after  map[string]bool
}

func runeConst(c rune, t types.Type) *Term { return tConst(strconv.Itoa(int(c)), t) }

func constRunes(t *Term) (string, bool) {
	if t.op == "conv" && len(t.args) == 1 {
		t = t.args[0]
	}
	if t.op != "const" {
		return "", false
	}
	if strings.HasPrefix(t.s, `"`) || strings.HasPrefix(t.s, "`") {
		s, err := strconv.Unquote(t.s)
		return s, err == nil
	}
	n, err := strconv.Atoi(t.s)
	if err != nil {
		return "", false
	}
	return string(rune(n)), true
}

func (l *lexRun) client() *Client {
	p, r := l.p, l.r
	name := fnName(l.fn)
	return &Client{OnLoad: errorGlobals,
		OnCall: func(e *Eng, st *State, c *Call) ([]Out, bool) {
			if c.Method != nil && c.Method.Name() == "ReadRune" {
				if st.mon["eof"] != "" {
					// the end is the end, again
					return []Out{{St: st, Res: []*Term{runeConst(0, types.Typ[types.Rune]), tConst("0", types.Typ[types.Int]), eofVal()}}}, true
				}
				r.count("reads of a rune followed", 1)
				q, u := st.mon["q"], st.mon["pend"]
				if len([]rune(u)) > 2 && l.writes > 0 {
					r.add(name+"/dropped", p.pos(c.Pos), "%s goes on reading while %q, a part of a token, is not in the token yet", name, u)
					return nil, true
				}
				var outs []Out
				s := st.clone()
				s.mon["eof"] = "in " + q
				if st.mon["la"] == "" {
					outs = append(outs, Out{St: s, Res: []*Term{runeConst(0, types.Typ[types.Rune]), tConst("0", types.Typ[types.Int]), eofVal()}})
				}
				for _, ch := range lexAlphabet {
					if la := st.mon["la"]; la != "" && la != string(ch) {
						continue // a rune that was given back comes again
					}
					n := lexNext(q, ch)
					if n == "" {
						continue
					}
					if n == "?" {
						if st.mon["la"] == "" && !l.after[q] {
							l.after[q] = true
							r.add(name+"/goes-on", p.pos(c.Pos), "%s goes on reading after the token is complete (state %s)", name, q)
						}
						continue
					}
					l.spec[q+">"+n] = true
					s := st.clone()
					s.mon["q"], s.mon["uq"], s.mon["upend"] = n, q, u
					s.mon["last"] = string(ch)
					delete(s.mon, "la")
					switch {
					case n == "S" || n == "LC" || n == "T":
						s.mon["pend"] = ""
					case strings.HasPrefix(n, "BC"):
						s.mon["pend"] = ""
						if !strings.HasPrefix(q, "BC") && u != "" {
							s.mon["pend"] = strings.TrimSuffix(u, "#")
						}
					case strings.HasPrefix(q, "BC"):
						s.mon["pend"] = u
					default:
						s.mon["pend"] = u + string(ch)
					}
					outs = append(outs, Out{St: s, Res: []*Term{runeConst(ch, types.Typ[types.Rune]), tConst("1", types.Typ[types.Int]), tNil}})
				}
				return outs, true
			}
			if c.Method != nil && c.Method.Name() == "UnreadRune" {
				if st.mon["uq"] == "" {
					r.add(name+"/unread", p.pos(c.Pos), "%s gives back a rune which it has not just read", name)
				}
				st.mon["q"], st.mon["pend"] = st.mon["uq"], st.mon["upend"]
				st.mon["la"] = st.mon["last"]
				delete(st.mon, "last")
				delete(st.mon, "uq")
				delete(st.mon, "upend")
				return []Out{{St: st, Res: []*Term{tNil}}}, true
			}
			f := c.Callee
			if f == nil {
				return nil, false
			}
			full := ""
			if f.Pkg != nil {
				full = f.Pkg.Pkg.Path() + "." + f.Name()
			}
			recv := ""
			if f.Signature.Recv() != nil {
				recv = typeKey(f.Signature.Recv().Type())
			}
			switch {
			case full == "unicode.IsSpace":
				if s, ok := constRunes(c.Args[0]); ok {
					return []Out{{St: st, Res: []*Term{tBool(unicode.IsSpace([]rune(s)[0]))}}}, true
				}
			case full == "strings.ContainsRune" || full == "strings.Contains":
				a, ok1 := constRunes(c.Args[0])
				b, ok2 := constRunes(c.Args[1])
				if ok1 && ok2 {
					return []Out{{St: st, Res: []*Term{tBool(strings.Contains(a, b))}}}, true
				}
			case full == "strings.IndexRune":
				a, ok1 := constRunes(c.Args[0])
				b, ok2 := constRunes(c.Args[1])
				if ok1 && ok2 {
					return []Out{{St: st, Res: []*Term{tConst(strconv.Itoa(strings.Index(a, b)), types.Typ[types.Int])}}}, true
				}
			case full == "errors.Is" && c.Args[0].op == "glob" && c.Args[1].op == "glob":
				return []Out{{St: st, Res: []*Term{tBool(c.Args[0] == c.Args[1])}}}, true
			case (recv == "*strings.Builder" || recv == "*bytes.Buffer") && strings.HasPrefix(f.Name(), "Write"):
				if s, ok := constRunes(c.Args[1]); ok {
					l.writes++
					if b := st.mon["buf"] + s; b == "" || b == "#" {
						st.mon["buf"] = b
					} else {
						st.mon["buf"] = "long"
					}
					if strings.HasPrefix(st.mon["pend"], s) {
						st.mon["pend"] = st.mon["pend"][len(s):]
					} else {
						r.add(name+"/written", p.pos(c.Pos), "%s puts %q into a token where the input has %q", name, s, st.mon["pend"])
						return nil, true
					}
					if st.mon["q"] == "D" && s == "(" {
						st.mon["q"] = "T" // the opening of an array
					}
				}
				return []Out{{St: st, Res: e.okFresh(c)}}, true
			case (recv == "*strings.Builder" || recv == "*bytes.Buffer") && f.Name() == "String":
				if b := st.mon["buf"]; b == "" || b == "#" {
					return []Out{{St: st, Res: []*Term{tConst(strconv.Quote(b), types.Typ[types.String])}}}, true
				}
				v := tSym(c.Site, "token", types.Typ[types.String])
				for _, k := range []string{`""`, `"#"`} {
					st.facts[simplifyEq(v, tConst(k, types.Typ[types.String]))] = 'F'
				}
				return []Out{{St: st, Res: []*Term{v}}}, true
			case (recv == "*strings.Builder" || recv == "*bytes.Buffer") && f.Name() == "Len":
				if st.mon["buf"] == "" {
					return []Out{{St: st, Res: []*Term{tConst("0", types.Typ[types.Int])}}}, true
				}
				if b := st.mon["buf"]; b == "" || b == "#" {
					return []Out{{St: st, Res: []*Term{tConst(strconv.Itoa(len(b)), types.Typ[types.Int])}}}, true
				}
				return []Out{{St: st, Res: []*Term{tConst("2", types.Typ[types.Int])}}}, true
			case (recv == "*strings.Builder" || recv == "*bytes.Buffer") && f.Name() == "Reset":
				delete(st.mon, "buf")
				return []Out{{St: st, Res: nil}}, true
			}
			return nil, false
		}}
}

// okFresh is a fresh result whose error, if there is one, is nil.
func (e *Eng) okFresh(c *Call) []*Term {
	res := e.Fresh(c)
	if i := errResult(c.ResultType2()); i >= 0 {
		res[i] = tNil
	}
	return res
}

// ResultType2 is the signature of the call.
func (c *Call) ResultType2() *types.Signature {
	if c.Common != nil {
		return c.Common.Signature()
	}
	return c.Callee.Signature
}

// lexical compares the tokenizer with the lexical rules.
func (p *Prog) lexical(r *Report, entries []*ssa.Function) {
	for _, f := range entries {
		l := &lexRun{p: p, r: r, fn: f, spec: map[string]bool{}, after: map[string]bool{}}
		name := fnName(f)
		st := newState()
		st.mon["q"] = "S"
		var args []*Term
		for i, q := range f.Params {
			args = append(args, tSym("entry#p"+strconv.Itoa(i)+":"+typeKey(q.Type()), "", q.Type()))
		}
		e := newEng(p, l.client())
		e.MaxConf = 300000
		exits := e.Run(f, args, nil, st)
		r.engine(e)
		ei := errResult(f.Signature)
		good := 0
		for _, x := range exits {
			m := x.St.mon
			if x.Panic {
				continue
			}
			r.ob(1)
			at := p.pos(x.Pos)
			var er *Term
			if ei >= 0 {
				er = x.Res[ei]
			} else {
				er = tNil
			}
			if q, ended := strings.CutPrefix(m["eof"], "in "); ended {
				switch open := lexOpen(q); {
				case open != "" && er == tNil:
					r.add(name+"/open/"+strings.ReplaceAll(open, " ", "-"), at, "%s returns a token or no error when the input ends inside %s", name, open)
				case open != "" && er == eofVal():
					r.add(name+"/open/"+strings.ReplaceAll(open, " ", "-"), at, "%s reports a clean end of input when the input ends inside %s", name, open)
				case (q == "S" || q == "LC") && er != eofVal():
					r.add(name+"/clean-end", at, "%s does not report the end of the input with io.EOF when no expression was begun", name)
				case (q == "W" || q == "HASH" || q == "HASH0" || q == "HASH1" || q == "T" || q == "TQ") && er != tNil:
					r.add(name+"/lost-token", at, "%s loses the token that the end of the input completes", name)
				}
				continue
			}
			good++
			q := m["q"]
			switch {
			case er != tNil:
				r.add(name+"/error", at, "%s fails on input that has not ended (state %s)", name, q)
			case lexOpen(q) != "" && q != "WESC":
				r.add(name+"/short", at, "%s ends a token inside %s", name, lexOpen(q))
			case q == "D":
				r.add(name+"/delimiter", at, "%s swallows the delimiter after a token", name)
			case q == "S" || q == "LC":
				r.add(name+"/nothing", at, "%s returns a token where the input has none yet", name)
			case m["pend"] != "" && q != "T" && l.writes > 0:
				r.add(name+"/dropped", at, "%s returns a token without %q, which it has read", name, m["pend"])
			}
		}
		r.count("lexical transitions followed", len(l.spec))
		r.floor("lexical transitions followed", 40)
		r.count("token exits", good)
		r.floor("token exits", 3)
		if e.P == nil || len(e.Undecided) > 0 {
			for _, u := range e.Undecided {
				r.add(name+"/undecided", p.pos(f.Pos()), "%s: %s", name, u)
			}
		}
	}
}

func checkC12(p *Prog, r *Report) {
	upper, entries := p.parserLayers()
	r.count("functions of the parser", len(upper))
	r.floor("functions of the parser", 3)
	r.count("tokenizer entries", len(entries))
	r.floor("tokenizer entries", 1)
	errT := types.Universe.Lookup("error").Type()

	p.lexical(r, entries)

	// 2. the parser: an end of input after an expression was begun is an error
	isEntry := map[*ssa.Function]bool{}
	mayEOF := map[*ssa.Function]bool{}
	for _, f := range entries {
		isEntry[f] = true
		mayEOF[f] = true
	}
	isUpper := map[*ssa.Function]bool{}
	for _, f := range upper {
		isUpper[f] = true
	}
	run := func(f *ssa.Function, report bool) (eof bool) {
		name := p.genericName(f)
		// only errors and tokens matter here
		cl := &Client{OnLoad: errorGlobals,
			Widen: func(t *Term) bool {
				if t.op == "bin" || t.op == "append" || t.op == "slice" {
					return true
				}
				if t.typ == nil {
					return false
				}
				b, ok := t.typ.Underlying().(*types.Basic)
				return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
			},
			KeepFact: func(t *Term) bool {
				if t.typ != nil && t.typ.String() == "error" {
					return true
				}
				if t.op == "eq" {
					for _, a := range t.args {
						if a.typ != nil && (a.typ.String() == "error" || a.typ.String() == "string") {
							return true
						}
					}
				}
				return false
			}}
		cl.OnCall = func(e *Eng, st *State, c *Call) ([]Out, bool) {
			g := c.Callee
			if c.Method != nil && c.Method.Name() == "ReadRune" || g != nil && g != f && (isEntry[g] || isUpper[g]) || g == f && g != nil {
				direct := g == nil
				if g != nil && errResult(g.Signature) < 0 {
					return nil, false
				}
				if report {
					r.count("reads in the parser", 1)
				}
				res := e.Fresh(c)
				sig := c.ResultType2()
				ei := errResult(sig)
				s1, s2, s3 := st.clone(), st.clone(), st.clone()
				s1.mon["began"] = "1"
				ok := append([]*Term{}, res...)
				ok[ei] = tNil
				bad := append([]*Term{}, res...)
				bad[ei] = globVal("another error", errT)
				outs := []Out{{St: s1, Res: ok}, {St: s3, Res: bad}}
				s3.mon["other"] = "1"
				if direct || mayEOF[g] {
					end := append([]*Term{}, res...)
					end[ei] = eofVal()
					if s2.mon["eof"] == "" {
						s2.mon["eof"] = "0"
						if s2.mon["began"] != "" {
							s2.mon["eof"] = "1"
						}
					}
					outs = append(outs, Out{St: s2, Res: end})
				}
				return outs, true
			}
			if g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "errors" && g.Name() == "Is" && c.Args[0].op == "glob" && c.Args[1].op == "glob" {
				return []Out{{St: st, Res: []*Term{tBool(c.Args[0] == c.Args[1])}}}, true
			}
			if g != nil && !takesRuneScanner(g) && !p.smallHelper(g) {
				return e.Opaque(st, c), true
			}
			return nil, false
		}
		e := newEng(p, cl)
		var args []*Term
		for i, q := range f.Params {
			args = append(args, tSym("entry#p"+strconv.Itoa(i)+":"+typeKey(q.Type()), "", q.Type()))
		}
		exits := e.Run(f, args, nil, newState())
		ei := errResult(f.Signature)
		if report {
			r.engine(e)
			r.count("exits of the parser", len(exits))
			for _, u := range e.Undecided {
				r.add(name+"/undecided", p.pos(f.Pos()), "%s: %s", name, u)
			}
		}
		for _, x := range exits {
			if x.Panic || ei < 0 {
				continue
			}
			er := x.Res[ei]
			if er == eofVal() {
				eof = true
			}
			if !report {
				continue
			}
			r.ob(1)
			at := p.pos(x.Pos)
			m := x.St.mon
			switch {
			case m["eof"] != "" && e.nilness(x.St, er) != 'X':
				r.add(name+"/value-at-end", at, "%s can return a value without an error although the input ended while it was reading", name)
			case m["eof"] == "1" && er == eofVal():
				r.add(name+"/end-inside", at, "%s reports a clean end of input although it ended inside an expression", name)
			case m["eof"] == "" && er == eofVal():
				r.add(name+"/end-invented", at, "%s reports the end of the input although it has not ended", name)
			case m["other"] != "" && e.nilness(x.St, er) != 'X':
				r.add(name+"/error-lost", at, "%s can return a value without an error although reading a part of it failed", name)
			}
		}
		return eof
	}
	for ch := true; ch; {
		ch = false
		for _, f := range upper {
			if !mayEOF[f] && run(f, false) {
				mayEOF[f] = true
				ch = true
			}
		}
	}
	for _, f := range upper {
		run(f, true)
		r.sample("%s: may report a clean end: %v", p.genericName(f), mayEOF[f])
	}
	r.floor("reads in the parser", 8)

	// 3. who reads expressions: an error is an error
	p.checkReaders(r, mayEOF)
}

func (p *Prog) genericName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return fnName(o)
	}
	return fnName(f)
}

// smallHelper says that a function is worth following.
func (p *Prog) smallHelper(g *ssa.Function) bool {
	return p.inRepo(g) && errResult(g.Signature) >= 0 && len(g.Params) <= 2 && len(g.Blocks) <= 6
}

// checkReaders looks at the callers of the reader outside the parser package.
func (p *Prog) checkReaders(r *Report, mayEOF map[*ssa.Function]bool) {
	errT := types.Universe.Lookup("error").Type()
	reader := map[*ssa.Function]bool{}
	for f := range mayEOF {
		reader[f] = true
	}
	// wrappers that hand the reader's result on
	for ch := true; ch; {
		ch = false
		for _, f := range p.All {
			if reader[f] || f.Blocks == nil || !takesRuneScanner(f) || errResult(f.Signature) < 0 || fnPkg(f) == nil || fnPkg(f).Path() == p.ModPath+"/pkg/parser" {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && reader[c.Common().StaticCallee()] && !reader[f] {
						reader[f], ch = true, true
					}
				}
			}
		}
	}
	n := 0
	for _, f := range p.All {
		if f.Blocks == nil || fnPkg(f) == nil || fnPkg(f).Path() == p.ModPath+"/pkg/parser" || madeUp(f) {
			continue
		}
		uses := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && reader[c.Common().StaticCallee()] {
					uses = true
				}
			}
		}
		ei := errResult(f.Signature)
		if !uses || ei < 0 {
			continue
		}
		n++
		name := fnName(f)
		// only errors and tokens matter here
		cl := &Client{OnLoad: errorGlobals,
			Widen: func(t *Term) bool {
				if t.op == "bin" || t.op == "append" || t.op == "slice" {
					return true
				}
				if t.typ == nil {
					return false
				}
				b, ok := t.typ.Underlying().(*types.Basic)
				return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
			},
			KeepFact: func(t *Term) bool {
				if t.typ != nil && t.typ.String() == "error" {
					return true
				}
				if t.op == "eq" {
					for _, a := range t.args {
						if a.typ != nil && (a.typ.String() == "error" || a.typ.String() == "string") {
							return true
						}
					}
				}
				return false
			}}
		cl.OnCall = func(e *Eng, st *State, c *Call) ([]Out, bool) {
			g := c.Callee
			if g != nil && reader[g] {
				res := e.Fresh(c)
				k := errResult(g.Signature)
				ok := append([]*Term{}, res...)
				ok[k] = tNil
				bad := append([]*Term{}, res...)
				bad[k] = globVal("another error", errT)
				end := append([]*Term{}, res...)
				end[k] = eofVal()
				s2, s3 := st.clone(), st.clone()
				s2.mon["other"] = "1"
				s3.mon["eof"] = "1"
				r.count("uses of the reader", 1)
				return []Out{{St: st, Res: ok}, {St: s2, Res: bad}, {St: s3, Res: end}}, true
			}
			if g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "errors" && g.Name() == "Is" && c.Args[0].op == "glob" && c.Args[1].op == "glob" {
				return []Out{{St: st, Res: []*Term{tBool(c.Args[0] == c.Args[1])}}}, true
			}
			if outs, ok := modelRaise(e, st, c); ok {
				return outs, true
			}
			if g != nil && !p.smallHelper(g) || g == nil && c.Method != nil {
				if st.mon["other"] != "" && c.isMethod(p, "World", "Eval") {
					r.add(name+"/goes-on", p.pos(c.Pos), "%s evaluates something after the reader failed", name)
				}
				return e.Opaque(st, c), true
			}
			return nil, false
		}
		e := newEng(p, cl)
		var args []*Term
		for i, q := range f.Params {
			args = append(args, tSym("entry#p"+strconv.Itoa(i)+":"+typeKey(q.Type()), "", q.Type()))
		}
		exits := e.Run(f, args, nil, newState())
		r.engine(e)
		for _, x := range exits {
			if x.Panic {
				continue
			}
			r.ob(1)
			if x.St.mon["other"] != "" && e.nilness(x.St, x.Res[ei]) != 'X' {
				r.add(name+"/reader-error-lost", p.pos(x.Pos), "%s can return without an error although the reader rejected the input", name)
			}
		}
	}
	r.count("functions that use the reader", n)
	r.floor("functions that use the reader", 3)
}

var _ = token.NoPos
