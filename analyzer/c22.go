package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- what is known about texts is worked out

// textOf is the text of a term, if it is known.
func textOf(t *Term) (string, bool) {
	for t.op == "mki" || t.op == "ct" || t.op == "conv" && len(t.args) == 1 && isStringT(t.args[0].typ) {
		t = t.args[0]
	}
	if t.op != "const" || !isStringT(t.typ) {
		return "", false
	}
	s, err := strconv.Unquote(t.s)
	return s, err == nil
}

func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func mkText(s string, t types.Type) *Term { return tConst(strconv.Quote(s), t) }

func mkInt(n int) *Term { return tConst(strconv.Itoa(n), types.Typ[types.Int]) }

// intConst is the integer of a constant term.
func intConst(t *Term) (int, bool) {
	for t.op == "mki" || t.op == "ct" || t.op == "conv" {
		t = t.args[0]
	}
	if t.op != "const" {
		return 0, false
	}
	n, err := strconv.Atoi(t.s)
	return n, err == nil
}

// modelTexts works out functions of package strings, and what is put together
// in a builder.
func modelTexts(e *Eng, st *State, c *Call) ([]Out, bool) {
	f := c.Callee
	if f == nil || fnPkg(f) == nil {
		return nil, false
	}
	one := func(ts ...*Term) ([]Out, bool) { return []Out{{St: st, Res: ts}}, true }
	str, boolT := types.Typ[types.String], tBool
	if outs, ok := modelNumerals(e, st, c); ok {
		return outs, ok
	}
	if rv := f.Signature.Recv(); rv != nil {
		k := typeKey(rv.Type())
		if k != "*strings.Builder" && k != "*bytes.Buffer" {
			return nil, false
		}
		key := "sb:" + strconv.Itoa(c.Args[0].id)
		add := func(s string, n int) ([]Out, bool) {
			st.mon[key] += s
			switch c.ResultType().Len() {
			case 0:
				return one()
			case 1:
				return one(tNil)
			}
			return one(mkInt(n), tNil)
		}
		switch f.Name() {
		case "WriteString":
			if s, ok := textOf(c.Args[1]); ok {
				return add(s, len(s))
			}
		case "Write":
			if s, ok := e.bytesText(st, c.Args[1]); ok {
				return add(s, len(s))
			}
		case "WriteByte", "WriteRune":
			if n, ok := intConst(c.Args[1]); ok {
				if f.Name() == "WriteByte" {
					return add(string([]byte{byte(n)}), 1)
				}
				return add(string(rune(n)), utf8.RuneLen(rune(n)))
			}
		case "String":
			return one(mkText(st.mon[key], str))
		case "Len":
			return one(mkInt(len(st.mon[key])))
		case "Reset":
			st.mon[key] = ""
			return one()
		case "Truncate":
			if n, ok := intConst(c.Args[1]); ok && n <= len(st.mon[key]) {
				st.mon[key] = st.mon[key][:n]
				return one()
			}
		}
		return nil, false
	}
	if fnPkg(f).Path() != "strings" {
		return nil, false
	}
	var s [2]string
	for i := range s {
		if i < len(c.Args) && isStringT(c.Args[i].typ) {
			t, ok := textOf(c.Args[i])
			if !ok {
				return nil, false
			}
			s[i] = t
		}
	}
	n := 0
	if len(c.Args) > 1 {
		n, _ = intConst(c.Args[1])
	}
	switch f.Name() {
	case "ToUpper":
		return one(mkText(strings.ToUpper(s[0]), str))
	case "ToLower":
		return one(mkText(strings.ToLower(s[0]), str))
	case "Repeat":
		if k, ok := intConst(c.Args[1]); ok && k < 1000 {
			return one(mkText(strings.Repeat(s[0], max(k, 0)), str))
		}
	case "ContainsRune":
		return one(boolT(strings.ContainsRune(s[0], rune(n))))
	case "TrimSuffix":
		return one(mkText(strings.TrimSuffix(s[0], s[1]), str))
	case "TrimPrefix":
		return one(mkText(strings.TrimPrefix(s[0], s[1]), str))
	case "TrimRight":
		return one(mkText(strings.TrimRight(s[0], s[1]), str))
	case "TrimLeft":
		return one(mkText(strings.TrimLeft(s[0], s[1]), str))
	case "Trim":
		return one(mkText(strings.Trim(s[0], s[1]), str))
	case "TrimSpace":
		return one(mkText(strings.TrimSpace(s[0]), str))
	case "HasSuffix":
		return one(boolT(strings.HasSuffix(s[0], s[1])))
	case "HasPrefix":
		return one(boolT(strings.HasPrefix(s[0], s[1])))
	case "Contains":
		return one(boolT(strings.Contains(s[0], s[1])))
	case "Index":
		return one(mkInt(strings.Index(s[0], s[1])))
	case "LastIndex":
		return one(mkInt(strings.LastIndex(s[0], s[1])))
	case "IndexByte":
		return one(mkInt(strings.IndexByte(s[0], byte(n))))
	case "IndexRune":
		return one(mkInt(strings.IndexRune(s[0], rune(n))))
	case "LastIndexByte":
		return one(mkInt(strings.LastIndexByte(s[0], byte(n))))
	case "Cut":
		a, b, ok := strings.Cut(s[0], s[1])
		return one(mkText(a, str), mkText(b, str), boolT(ok))
	case "Split", "Fields":
		l := strings.Fields(s[0])
		if f.Name() == "Split" {
			l = strings.Split(s[0], s[1])
		}
		var els []*Term
		for _, x := range l {
			els = append(els, mkText(x, str))
		}
		return one(mkTerm("slist", "", "", types.NewSlice(str), nil, els...))
	case "Count":
		return one(mkInt(strings.Count(s[0], s[1])))
	case "IndexAny":
		return one(mkInt(strings.IndexAny(s[0], s[1])))
	case "ContainsAny":
		return one(boolT(strings.ContainsAny(s[0], s[1])))
	case "Compare":
		if len(c.Args) == 2 {
			return one(mkInt(strings.Compare(s[0], s[1])))
		}
	case "Join":
		l, ok := e.elements(st, c.Args[0])
		var parts []string
		for _, x := range l {
			t, known := textOf(x)
			ok = ok && known
			parts = append(parts, t)
		}
		if sep, known := textOf(c.Args[1]); ok && known {
			return one(mkText(strings.Join(parts, sep), str))
		}
	case "EqualFold":
		return one(boolT(strings.EqualFold(s[0], s[1])))
	case "ReplaceAll":
		if t, ok := textOf(c.Args[2]); ok {
			return one(mkText(strings.ReplaceAll(s[0], s[1], t), str))
		}
	case "CutSuffix":
		r, ok := strings.CutSuffix(s[0], s[1])
		return one(mkText(r, str), boolT(ok))
	case "CutPrefix":
		r, ok := strings.CutPrefix(s[0], s[1])
		return one(mkText(r, str), boolT(ok))
	}
	return nil, false
}

// ---- reading from streams

type readCase struct {
	op   string
	args string // s stream, n nil, t true, v value, x no stream
	text string
	end  string // how the stream ends: EOF or ERR
	// value: what is returned, "eos" at the end of the stream, "ERR" or "error"
	value string
	rest  string // what is still to be read
}

func (c readCase) String() string {
	var l []string
	for _, a := range c.args {
		l = append(l, map[rune]string{'s': "stream", 'n': "nil", 't': "t", 'v': "value", 'x': "object"}[a])
	}
	return fmt.Sprintf("(%s) with %q followed by %s", strings.TrimSpace(c.op+" "+strings.Join(l, " ")), c.text, c.end)
}

func readCases() (out []readCase) {
	lines := []string{"ab\ncd\n", "ab\r\ncd", "\n", "\r\n", "\nb", "a\rb\n", "a\r\r\nb", "ab", "ab\r", "\u3042\u3044\n\u3046", " \t\n", "a  \n b", "a \r\nb", "\n\na"}
	for _, args := range []string{"s", "", "sn", "st", "snv", "stv"} {
		for _, s := range lines {
			if len(args) > 1 && s != lines[0] && s != "\n" && s != "ab" {
				continue
			}
			v, rest, _ := strings.Cut(s, "\n")
			if strings.Contains(s, "\n") {
				v = strings.TrimSuffix(v, "\r")
			}
			for _, end := range []string{"EOF", "ERR"} {
				c := readCase{op: "read-line", args: args, text: s, end: end, value: strconv.Quote(v), rest: rest}
				if end == "ERR" && !strings.Contains(s, "\n") {
					c.value = "ERR"
				}
				out = append(out, c)
			}
		}
		for _, s := range []string{"ab", "\n", "\r\n", "\u3042b", " a", "\x00a"} {
			if len(args) > 1 && s != "ab" {
				continue
			}
			_, n := utf8.DecodeRuneInString(s)
			for _, end := range []string{"EOF", "ERR"} {
				out = append(out, readCase{op: "read-char", args: args, text: s, end: end, value: "'" + s[:n] + "'", rest: s[n:]})
			}
		}
		for _, op := range []string{"read-line", "read-char", "read"} {
			for _, end := range []string{"EOF", "ERR"} {
				c := readCase{op: op, args: args, end: end, value: end}
				if end == "EOF" {
					c.value = "eos"
					if strings.HasPrefix(args, "sn") {
						c.value = "nil"
						if args == "snv" {
							c.value = "value"
						}
					}
				}
				out = append(out, c)
			}
		}
		out = append(out, readCase{op: "read", args: args, text: "\U0010FFFF", end: "EOF", value: "object"})
	}
	for _, op := range []string{"read-line", "read-char", "read"} {
		out = append(out, readCase{op: op, args: "snvv", text: "ab\n", end: "EOF", value: "error"},
			readCase{op: op, args: "x", text: "ab\n", end: "EOF", value: "error"},
			readCase{op: op, args: "xnv", text: "ab\n", end: "EOF", value: "error"})
	}
	return
}

// readers are the interfaces of this module's assertions that a stream to read
// from has.
func (p *Prog) readers() (need, may []types.Type) {
	seen := map[string]bool{}
	for _, f := range p.All {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ta, ok := i.(*ssa.TypeAssert)
				if !ok {
					continue
				}
				it, ok := ta.AssertedType.Underlying().(*types.Interface)
				if !ok || seen[typeKey(ta.AssertedType)] {
					continue
				}
				seen[typeKey(ta.AssertedType)] = true
				base, reads := true, false
				for k := 0; k < it.NumMethods(); k++ {
					switch it.Method(k).Name() {
					case "ReadRune", "UnreadRune", "ReadByte":
						reads = true
					default:
						base = false
					}
				}
				if reads && base {
					need = append(need, ta.AssertedType)
				} else {
					may = append(may, ta.AssertedType)
				}
			}
		}
	}
	return
}

func readRun(p *Prog, r *Report, c readCase, need []types.Type) (bad []string) {
	b := p.Builtin(c.op)
	if b == nil || b.Fn == nil {
		return []string{"there is no such function"}
	}
	if min, max := b.Range(); len(c.args) < min || max >= 0 && len(c.args) > max {
		if c.value != "error" {
			bad = append(bad, "does not take these arguments")
		}
		return
	}
	o := &opRun{p: p, r: r}
	st := o.begin()
	nodeT := o.s.node()
	named := func(n string) *Term {
		t := tSym("arg#"+n, n, nodeT)
		st.facts[t] = 'X'
		return t
	}
	cl := &Client{Concrete: true, Recursion: 16, MaxDepth: 60, Closed: true, Views: true, OnLoad: errorGlobals}
	e := newEng(p, cl)
	stream, object, value := named("stream"), named("object"), named("value")
	for _, t := range need {
		e.assume(st, mkTok(stream, t), true)
		e.assume(st, mkTok(object, t), false)
	}
	read := named("read")
	errT := types.Universe.Lookup("error").Type()
	broken := globVal("the error of the stream", errT)
	last := eofVal()
	if c.end == "ERR" {
		last = broken
	}
	from := func(t *Term) string {
		for t.op == "mki" || t.op == "ta" || t.op == "ct" {
			t = t.args[0]
		}
		switch {
		case t == stream:
			return "stream"
		case worldRooted(t):
			return "standard"
		}
		return "other"
	}
	want := "stream"
	if c.args == "" {
		want = "standard"
	}
	text := c.text
	pos := func(st *State) int { n, _ := strconv.Atoi(st.mon["pos"]); return n }
	set := func(st *State, n int) { st.mon["pos"] = strconv.Itoa(n) }
	cl.OnCall = func(e *Eng, st *State, cc *Call) ([]Out, bool) {
		if cc.Method != nil && len(cc.Args) > 0 {
			one := func(ts ...*Term) ([]Out, bool) { return []Out{{St: st, Res: ts}}, true }
			name := cc.Method.Name()
			switch name {
			case "ReadRune", "ReadByte", "ReadString", "UnreadRune", "UnreadByte", "Peek", "ReadBytes", "ReadSlice", "ReadLine", "Read":
				if w := from(cc.Args[0]); w != want {
					st.mon["other"] = "reads from " + w + " input"
				}
				n := pos(st)
				left := text[n:]
				switch name {
				case "ReadRune":
					if left == "" {
						return one(tConst("0", types.Typ[types.Rune]), mkInt(0), last)
					}
					ch, k := utf8.DecodeRuneInString(left)
					set(st, n+k)
					st.mon["lastk"] = strconv.Itoa(k)
					return one(tConst(strconv.Itoa(int(ch)), types.Typ[types.Rune]), mkInt(k), tNil)
				case "ReadByte":
					if left == "" {
						return one(tConst("0", types.Typ[types.Byte]), last)
					}
					set(st, n+1)
					st.mon["lastk"] = "1"
					return one(tConst(strconv.Itoa(int(left[0])), types.Typ[types.Byte]), tNil)
				case "UnreadRune", "UnreadByte":
					k, _ := strconv.Atoi(st.mon["lastk"])
					if k > n {
						k = n
					}
					set(st, n-k)
					delete(st.mon, "lastk")
					return one(tNil)
				case "ReadString":
					if d, ok := intConst(cc.Args[1]); ok {
						if i := strings.IndexByte(left, byte(d)); i >= 0 {
							set(st, n+i+1)
							return one(mkText(left[:i+1], types.Typ[types.String]), tNil)
						}
						set(st, len(text))
						return one(mkText(left, types.Typ[types.String]), last)
					}
				}
				st.mon["unknown"] = "1"
				return nil, false
			}
		}
		if f := cc.Callee; f != nil {
			// the reader of the language: its own property
			if fnPkg(f) != nil && errResult(f.Signature) == 1 && p.isNode(f.Signature.Results().At(0).Type()) && takesRuneScanner(f) {
				if w := from(cc.Args[0]); w != want {
					st.mon["other"] = "reads from " + w + " input"
				}
				if c.text != "" {
					return []Out{{St: st, Res: []*Term{read, tNil}}}, true
				}
				return []Out{{St: st, Res: []*Term{tNil, last}}}, true
			}
			if fnPkg(f) != nil && (fnPkg(f).Path() == "bufio" || fnPkg(f).Path() == "io" || fnPkg(f).Path() == "fmt" && strings.Contains(f.Name(), "can")) {
				for _, a := range cc.Args {
					if w := from(a); w != "other" {
						st.mon["ahead"] = "hands the stream to " + f.String() + ", which may take more than is returned"
					}
				}
			}
			g := f
			if f.Origin() != nil {
				g = f.Origin()
			}
			if g.Pkg == p.Main && g.Name() == "callHandler" {
				for _, a := range cc.Args {
					if a.op != "mki" {
						continue
					}
					n, ok := derefOr(a.typ).(*types.Named)
					if !ok || n.Obj().Name() != "EndOfStream" {
						continue
					}
					who := "other"
					if v := a.args[0]; true {
						if _, ptr := a.typ.(*types.Pointer); ptr {
							fv := e.Load(st, e.fldAddr(v, n.Underlying().(*types.Struct).Field(0), a.typ), "c22", nodeT)
							who = from(fv)
						} else {
							who = from(e.selField(v, ".Stream", nodeT))
						}
					}
					if who != want {
						st.mon["other"] = "signals the end of " + who + " input"
					}
					er := tSym(cc.Site+"#eos", "EOS", errT)
					st.facts[er] = 'X'
					rt := cc.ResultType()
					res := []*Term{zeroTerm(rt.At(0).Type()), er}
					return []Out{{St: st, Res: res}}, true
				}
			}
		}
		if outs, ok := modelTexts(e, st, cc); ok {
			return outs, ok
		}
		return modelRaise(e, st, cc)
	}
	var args []*Term
	for _, a := range c.args {
		switch a {
		case 's':
			args = append(args, stream)
		case 'n':
			args = append(args, o.s.null())
		case 't':
			args = append(args, o.trueNode())
		case 'v':
			args = append(args, value)
		case 'x':
			args = append(args, object)
		}
	}
	good := 0
	for _, x := range e.Run(b.Fn, o.argsFor(b.Fn, o.world, args...), nil, st) {
		r.ob(1)
		if x.Panic {
			bad = append(bad, "crashes")
			continue
		}
		if m := x.St.mon["ahead"]; m != "" && c.value != "error" {
			return []string{m}
		}
		if x.St.mon["unknown"] != "" {
			bad = append(bad, "undecided")
			good++
			continue
		}
		n := len(bad)
		got := "?"
		if failed(e, x) {
			er := unwrapTerm(x.Res[len(x.Res)-1])
			if strings.Contains(er.String(), "pm:Err") {
				continue
			}
			got = "error"
			switch {
			case er == broken:
				got = "ERR"
			case er.label == "EOS":
				got = "eos"
			case er == eofVal():
				got = "the Go error io.EOF"
			}
		} else {
			v := x.Res[0]
			if s, ok := textOf(v); ok {
				got = strconv.Quote(s)
			} else if k, ok := intConst(v); ok {
				got = "'" + string(rune(k)) + "'"
			} else {
				switch {
				case o.isNull(v):
					got = "nil"
				case v == value:
					got = "value"
				case v == read:
					got = "object"
				}
			}
		}
		if got == "?" {
			good++
			bad = append(bad, "undecided")
			continue
		}
		if c.op == "read" && c.value == "ERR" && got == "error" {
			got = c.value // an error about what was read
		}
		if got != c.value {
			switch c.value {
			case "ERR":
				bad = append(bad, fmt.Sprintf("ends with %s and not with the error of the stream", got))
			case "eos":
				bad = append(bad, fmt.Sprintf("ends with %s and not with the condition for the end of the stream", got))
			default:
				bad = append(bad, fmt.Sprintf("ends with %s and not with %s", got, c.value))
			}
		} else if c.op != "read" && c.value != "ERR" && c.value != "error" && pos(x.St) != len(text)-len(c.rest) {
			bad = append(bad, fmt.Sprintf("leaves %q to be read, not %q", text[pos(x.St):], c.rest))
		}
		if m := x.St.mon["other"]; m != "" && c.value != "error" {
			bad = append(bad, m)
		}
		if n == len(bad) {
			good++
		}
	}
	r.engine(e)
	if good == 0 && len(bad) == 0 {
		bad = append(bad, "has no outcome")
	}
	if good > 0 && len(bad) > 0 {
		r.count("undecided", 1)
		r.sample("undecided: %s: %s", c, strings.Join(bad, "; "))
		return nil
	}
	return uniqStrings(bad)
}

func derefOr(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func checkC22(p *Prog, r *Report) {
	need, _ := p.readers()
	for _, c := range readCases() {
		r.count("calls", 1)
		where := "-"
		if f := p.Builtin(c.op); f != nil && f.Fn != nil {
			where = p.pos(f.Fn.Pos())
		}
		for i, b := range readRun(p, r, c, need) {
			r.add(fmt.Sprintf("%s/%s/%q/%s/%d", c.op, c.args, c.text, c.end, i), where, "%s %s", c, b)
		}
	}
	r.floor("calls", 100)
}

func (o *opRun) trueNode() *Term {
	if t := o.p.globs[o.p.ModPath+".True"]; t != nil {
		return t
	}
	return o.s.sym("t")
}

func (o *opRun) isNull(t *Term) bool { return t == o.s.null() || t == tNil }

func uniqStrings(l []string) (out []string) {
	seen := map[string]bool{}
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return
}
