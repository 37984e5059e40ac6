package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// bytesText is the text of a slice of bytes that are known.
func (e *Eng) bytesText(st *State, t *Term) (string, bool) {
	if s, ok := textOf(t); ok {
		return s, true
	}
	if t.op == "conv" && len(t.args) == 1 {
		if s, ok := textOf(t.args[0]); ok {
			return s, true
		}
	}
	els, ok := e.elements(st, t)
	if !ok {
		return "", false
	}
	var b []byte
	for _, x := range els {
		n, ok := intConst(x)
		if !ok {
			return "", false
		}
		b = append(b, byte(n))
	}
	return string(b), true
}

func floatConst(t *Term) (float64, bool) {
	for t.op == "mki" || t.op == "ct" || t.op == "conv" {
		t = t.args[0]
	}
	if t.op != "const" {
		return 0, false
	}
	f, err := strconv.ParseFloat(t.s, 64)
	return f, err == nil
}

// modelNumerals works out conversions between numbers, runes and text.
func modelNumerals(e *Eng, st *State, c *Call) ([]Out, bool) {
	f := c.Callee
	one := func(ts ...*Term) ([]Out, bool) { return []Out{{St: st, Res: ts}}, true }
	str, rt := types.Typ[types.String], types.Typ[types.Rune]
	ints := func() (l []int) {
		for _, a := range c.Args {
			n, ok := intConst(a)
			if !ok {
				return nil
			}
			l = append(l, n)
		}
		return
	}
	name := fnPkg(f).Path() + "." + f.Name()
	if f.Signature.Recv() != nil {
		return nil, false
	}
	switch name {
	case "strconv.FormatInt":
		if n := ints(); n != nil && n[1] >= 2 && n[1] <= 36 {
			return one(mkText(strconv.FormatInt(int64(n[0]), n[1]), str))
		}
	case "strconv.FormatUint":
		if n := ints(); n != nil && n[1] >= 2 && n[1] <= 36 {
			return one(mkText(strconv.FormatUint(uint64(n[0]), n[1]), str))
		}
	case "strconv.Itoa":
		if n := ints(); n != nil {
			return one(mkText(strconv.Itoa(n[0]), str))
		}
	case "strconv.Atoi", "strconv.ParseInt":
		s, ok := textOf(c.Args[0])
		if !ok {
			break
		}
		base, bits := 10, 64
		if f.Name() == "ParseInt" {
			b, ok1 := intConst(c.Args[1])
			n, ok2 := intConst(c.Args[2])
			if !ok1 || !ok2 || b == 1 || b < 0 || b > 36 || n < 0 || n > 64 {
				break
			}
			base, bits = b, n
		}
		n, err := strconv.ParseInt(s, base, bits)
		if err != nil {
			return one(mkInt(int(n)), globVal("the error of "+f.Name(), types.Universe.Lookup("error").Type()))
		}
		return one(mkInt(int(n)), tNil)
	case "strconv.ParseFloat":
		s, ok := textOf(c.Args[0])
		if bits, ok1 := intConst(c.Args[1]); ok && ok1 && (bits == 32 || bits == 64) {
			v, err := strconv.ParseFloat(s, bits)
			t := tConst(strconv.FormatFloat(v, 'g', -1, 64), types.Typ[types.Float64])
			if err != nil {
				return one(t, globVal("the error of "+f.Name(), types.Universe.Lookup("error").Type()))
			}
			return one(t, tNil)
		}
	case "math.IsInf", "math.IsNaN", "math.Trunc", "math.Floor", "math.Abs":
		if v, ok := floatConst(c.Args[0]); ok {
			float := func(v float64) *Term {
				return tConst(strconv.FormatFloat(v, 'g', -1, 64), types.Typ[types.Float64])
			}
			switch f.Name() {
			case "IsNaN":
				return one(tBool(math.IsNaN(v)))
			case "Trunc":
				return one(float(math.Trunc(v)))
			case "Floor":
				return one(float(math.Floor(v)))
			case "Abs":
				return one(float(math.Abs(v)))
			}
			if sign, ok := intConst(c.Args[1]); ok {
				return one(tBool(math.IsInf(v, sign)))
			}
		}
	case "strconv.FormatFloat":
		v, ok := floatConst(c.Args[0])
		k, ok1 := intConst(c.Args[1])
		prec, ok2 := intConst(c.Args[2])
		bits, ok3 := intConst(c.Args[3])
		if ok && ok1 && ok2 && ok3 && strings.ContainsRune("efgEG", rune(k)) && (bits == 32 || bits == 64) {
			return one(mkText(strconv.FormatFloat(v, byte(k), prec, bits), str))
		}
	case "unicode/utf8.DecodeRuneInString":
		if s, ok := textOf(c.Args[0]); ok {
			r, n := utf8.DecodeRuneInString(s)
			return one(tConst(strconv.Itoa(int(r)), rt), mkInt(n))
		}
	case "unicode/utf8.RuneCountInString":
		if s, ok := textOf(c.Args[0]); ok {
			return one(mkInt(utf8.RuneCountInString(s)))
		}
	case "unicode/utf8.RuneLen":
		if n := ints(); n != nil {
			return one(mkInt(utf8.RuneLen(rune(n[0]))))
		}
	case "unicode/utf8.EncodeRune":
		d := c.Args[0]
		n, ok := intConst(c.Args[1])
		if ok && d.op == "slice" && (d.s == "full" || d.s == "view") {
			lo := 0
			if d.s == "view" {
				lo, _ = strconv.Atoi(d.args[1].s)
			}
			s := string(rune(n))
			if size, ok := e.lenOf(st, d); ok && size >= len(s) {
				bt := types.Typ[types.Byte]
				for i := 0; i < len(s); i++ {
					e.store(st, mkTerm("idx", "", "", types.NewPointer(bt), nil, d.args[0], mkInt(lo+i)), tConst(strconv.Itoa(int(s[i])), bt))
				}
				return one(mkInt(len(s)))
			}
		}
	case "unicode.ToUpper", "unicode.ToLower":
		if n := ints(); n != nil {
			s := strings.ToUpper(string(rune(n[0])))
			if f.Name() == "ToLower" {
				s = strings.ToLower(string(rune(n[0])))
			}
			r, _ := utf8.DecodeRuneInString(s)
			return one(tConst(strconv.Itoa(int(r)), rt))
		}
	case "unicode.IsDigit":
		if n := ints(); n != nil {
			return one(tBool(n[0] >= '0' && n[0] <= '9'))
		}
	case "fmt.Sprintf", "fmt.Sprint":
		if s, ok := sprintf(e, st, c.Args, f.Name() == "Sprintf"); ok {
			return one(mkText(s, str))
		}
	}
	return nil, false
}

// sprintf is what fmt makes of arguments that are known.
func sprintf(e *Eng, st *State, args []*Term, format bool) (string, bool) {
	f := ""
	if format {
		s, ok := textOf(args[0])
		if !ok {
			return "", false
		}
		f = s
		args = args[1:]
	}
	els, ok := e.elements(st, args[0])
	if !ok {
		return "", false
	}
	var vals []any
	for _, x := range els {
		if s, ok := textOf(x); ok {
			vals = append(vals, s)
			continue
		}
		for x.op == "mki" && len(x.args) == 1 {
			b, ok := x.typ.Underlying().(*types.Basic)
			if !ok {
				return "", false
			}
			if b.Info()&types.IsFloat != 0 {
				v, ok := floatConst(x)
				if !ok {
					return "", false
				}
				vals = append(vals, v)
			} else if b.Info()&types.IsInteger != 0 {
				n, ok := intConst(x)
				if !ok {
					return "", false
				}
				switch b.Kind() {
				case types.Int32:
					vals = append(vals, rune(n))
				case types.Uint8:
					vals = append(vals, byte(n))
				default:
					vals = append(vals, n)
				}
			} else {
				return "", false
			}
			break
		}
	}
	if len(vals) != len(els) {
		return "", false
	}
	if format {
		return fmt.Sprintf(f, vals...), true
	}
	return fmt.Sprint(vals...), true
}

// ---- format

// A case: operator | control | arguments | output. Arguments: A object, i1
// integer, f1.5 float, b large integer, cx character, sx string, n nil, t true.
// An object is printed as <A>, or as <A!> readably. $ is the end of a line.
const formatCases = `
format | | | 
format | abc | | abc
format | あ~~b | | あ~b
format | a~%b | | a$b
format | ~%~% | | $$
format | ~3%x | | $$$x
format | ~0%x | | x
format | x~1%y | | x$y
format | a~&b | | a$b
format | a~%~&b | | a$b
format | a$~&b | | a$b
format | a~3&b | | a$$$b
format | a~%~3&b | | a$$$b
format | a~0&b | | ab
format | ~a~&~a | A B | <A>$<B>
format | ~a~&x | sab$ | ab$x
format | ~a~&x | s$b | $b$x
format | ~a~&~a | sあ$い sう | あ$い$う
format | ~6a!~2a! | sab sabc | ab    !abc!
format | ~a | A | <A>
format | ~A | A | <A>
format | ~s | A | <A!>
format | ~S | A | <A!>
format | x~ay~sz | A B | x<A>y<B!>z
format | ~s~s~a | A B C | <A!><B!><C>
format | ~~~a~~ | A | ~<A>~
format | ~%~a~%~a | A B | $<A>$<B>
format | ~5a! | A | <A>  !
format | ~5s! | A | <A!> !
format | ~3a! | A | <A>!
format | ~2a! | A | <A>!
format | ~0a! | A | <A>!
format | ~12a! | A | <A>         !
format | ~d | i0 | 0
format | ~D | i-17 | -17
format | ~d,~d | i1 i2 | 1,2
format | [~5d] | i123 | [  123]
format | [~5d] | i-12 | [  -12]
format | [~5d] | i12345 | [12345]
format | [~2d] | i12345 | [12345]
format | [~10d] | i7 | [         7]
format | [~5,'0d] | i42 | [00042]
format | [~4,'*d] | i42 | [**42]
format | [~4,'あd] | i42 | [ああ42]
format | [~4,',d] | i42 | [,,42]
format | [~4,''d] | i42 | [''42]
format | [~4,'~d] | i42 | [~~42]
format | [~12,'0d] | i42 | [000000000042]
format | ~x | i255 | FF
format | ~X | i-255 | -FF
format | ~6,'0x | i255 | 0000FF
format | ~o | i8 | 10
format | ~o | i-9 | -11
format | ~b | i-5 | -101
format | [~6,'0b] | i-5 | [00-101]
format | ~4O | i8 | __10
format | ~b | i5 | 101
format | ~8,'0B | i5 | 00000101
format | ~d | i4294967297 | 4294967297
format | ~x | i-1099511627776 | -10000000000
format | ~d | i9223372036854775807 | 9223372036854775807
format | ~b | i-9223372036854775808 | -1000000000000000000000000000000000000000000000000000000000000000
format | ~103a! | A | <A>____________________________________________________________________________________________________!
format | a ~&b | | a $b
format | ~a~&b | s$_ | $ $b
format | ~d | b | <BIG 10>
format | ~x | b | <BIG 16>
format | ~o | b | <BIG 8>
format | ~b | b | <BIG 2>
format | ~60a! | A | <A>_________________________________________________________!
format | ~50d | i1 | _________________________________________________1
format | ~12d | b | ____<BIG 10>
format | ~f | f12.5 | 12.5
format | ~F | f-0.5 | -0.5
format | ~f | f1.2345678901 | 1.2345678901
format | ~f | i16777217 | 16777217
format | ~f | f123456789.125 | 123456789.125
format | ~6f | f1.5 | ___1.5
format | ~7,2f | f1.5 | ___1.50
format | ~2,3f | f1.5 | 1.500
format | ~f | i3 | 3
format | ~g | f12.5 | 12.5
format | ~G | f0.25 | 0.25
format | ~e | f12.5 | 1.25e+01
format | ~E | f12.5 | 1.25e+01
format | ~vd! | i5 i3 | ____3!
format | ~v,'0d! | i4 i7 | 0007!
format | ~v,vd! | i4 i45 i7 | ---7!
format | ~v%x | i2 | $$x
format | ~va~a | i5 A B | <A>  <B>
format | ~#d! | i7 i8 | _7!
format | ~#,'0d~d! | i7 i8 i9 | 0078!
format | x~a | A B | x<A>
format | x | A | x
format | ~d~a~x~s | i1 A i10 B | 1<A>A<B!>
format | ~a | | error
format | ~a~a | A | error
format | ~5d | | error
format | ~s | | error
format | ~vd | i5 | error
format | ~va | A B | error
format | ~d | A | error
format | ~x | sx | error
format | ~f | A | error
format | ~e | sx | error
format | ~q | A | error
format | ~İd | i3 | error
format | ~5 | A | error
format-object | | A n | <A>
format-object | | A t | <A!>
format-object | | A B | <A!>
format-char | | cx | x
format-char | | cあ | あ
format-char | | A | error
format-char | | sx | error
format-integer | | i255 i10 | 255
format-integer | | i-255 i16 | -FF
format-integer | | i5 i2 | 101
format-integer | | i35 i36 | Z
format-integer | | b i10 | <BIG 10>
format-integer | | i5 i1 | error
format-integer | | i5 i37 | error
format-integer | | A i10 | error
format-integer | | i5 A | error
format-float | | f1.5 | 1.5
format-float | | A | error
`

type formatCase struct {
	op, control string
	args        []string
	out         string
	dest        string    // nil t stream node string file object
	before      string    // what was written to the destination before
	broken      bool      // the destination cannot be written to
	got         *[]string // if any text will do: what is written on the ways out
}

func (c formatCase) String() string {
	t := "(" + c.op + " " + c.dest
	if c.op == "format" {
		t += " " + strconv.Quote(c.control)
	}
	for _, a := range c.args {
		switch a[0] {
		case 'i', 'f':
			t += " " + a[1:]
		case 'c':
			t += " #\\" + a[1:]
		case 's':
			t += " " + strconv.Quote(a[1:])
		case 'b':
			t += " large"
		case 'n':
			t += " nil"
		default:
			t += " " + a
		}
	}
	t += ")"
	if c.before != "" {
		t += " after " + strconv.Quote(c.before)
	}
	if c.broken {
		t += " on a destination that fails"
	}
	return t
}

func formatCasesList() (out []formatCase) {
	clean := func(s string) string {
		return strings.NewReplacer("$", "\n").Replace(strings.TrimSpace(s))
	}
	var list []formatCase
	for _, l := range strings.Split(formatCases, "\n") {
		f := strings.Split(l, "|")
		if len(f) < 4 {
			continue
		}
		c := formatCase{op: strings.TrimSpace(f[0]), control: clean(f[1]), args: strings.Fields(strings.NewReplacer("$", "\x01", "_", "\x02").Replace(f[2])), out: strings.ReplaceAll(clean(f[3]), "_", " ")}
		list = append(list, c)
	}
	for i, c := range list {
		for _, d := range []string{"nil", "string", "t", "stream", "node", "file"} {
			if d != "nil" && c.out == "error" && d != "t" {
				continue
			}
			if d != "nil" && d != "t" && i%3 != 0 && c.op == "format" {
				continue
			}
			c := c
			c.dest = d
			out = append(out, c)
		}
		if c.out != "error" && c.out != "" {
			for _, d := range []string{"t", "stream", "node"} {
				if d != "t" && i%4 != 0 {
					continue
				}
				c := c
				c.dest, c.broken = d, true
				out = append(out, c)
			}
		}
		if c.out != "error" && i%12 == 1 || c.op != "format" {
			c := c
			c.dest, c.out = "object", "error"
			out = append(out, c)
		}
	}
	for _, d := range []string{"t", "node", "string", "file"} {
		for _, b := range []string{"ab", "ab\n", "a\nb", "あ", "あ\n", "#a", "#\n", "=ab\n", "=\nab"} {
			nl := "\n"
			if strings.HasSuffix(b, "\n") {
				nl = ""
			}
			out = append(out, formatCase{op: "format", control: "~&x", out: strings.TrimLeft(b, "#=") + nl + "x", dest: d, before: b})
			out = append(out, formatCase{op: "format", control: "~2&x", out: strings.TrimLeft(b, "#=") + nl + "\nx", dest: d, before: b})
		}
	}
	for _, d := range []string{"nil", "string", "file"} {
		out = append(out, formatCase{op: "format", control: "~&x", out: "x", dest: d})
	}
	return
}

func formatRun(p *Prog, r *Report, c formatCase) (bad []string) {
	b := p.Builtin(c.op)
	if b == nil || b.Fn == nil {
		return []string{"is no function"}
	}
	o := &opRun{p: p, r: r}
	st := o.begin()
	nodeT := o.s.node()
	cl := &Client{Concrete: true, Recursion: 16, MaxDepth: 60, Closed: true, Views: true}
	e := newEng(p, cl)
	e.MaxConf = 4000
	errT := types.Universe.Lookup("error").Type()
	broken := globVal("the error of the destination", errT)
	stream := tSym("arg#stream", "stream", nodeT)
	st.facts[stream] = 'X'
	opaque := map[*Term]string{}
	object := func(n string) *Term {
		t := tSym("arg#"+n, n, nodeT)
		st.facts[t] = 'X'
		opaque[t] = n
		return t
	}
	var big *Term
	typ := func(n string) types.Type {
		if obj := p.Main.Pkg.Scope().Lookup(n); obj != nil {
			return obj.Type()
		}
		return types.Typ[types.Invalid]
	}
	box := func(v *Term, t types.Type) *Term { return mkTerm("mki", typeKey(t), "", t, nil, v) }
	other := object("object")
	var args []*Term
	for _, a := range c.args {
		switch a[0] {
		case 'i':
			args = append(args, box(tConst(a[1:], typ("Integer")), typ("Integer")))
		case 'f':
			args = append(args, box(tConst(a[1:], typ("Float")), typ("Float")))
		case 'c':
			k, _ := utf8.DecodeRuneInString(a[1:])
			args = append(args, box(tConst(strconv.Itoa(int(k)), typ("Rune")), typ("Rune")))
		case 's':
			args = append(args, box(tConst(strconv.Quote(strings.NewReplacer("\x01", "\n", "\x02", " ").Replace(a[1:])), typ("String")), typ("String")))
		case 'b':
			big = tSym("arg#big", "big", typ("BigInt"))
			st.facts[big] = 'X'
			args = append(args, box(big, typ("BigInt")))
		case 'n':
			args = append(args, o.s.null())
		case 't':
			args = append(args, o.trueNode())
		default:
			args = append(args, object(a))
		}
	}
	// know says what kind of things the objects are
	know := func(st *State) {
		st.facts[stream] = 'X'
		for t := range opaque {
			st.facts[t] = 'X'
		}
		for _, f := range p.All {
			for _, bl := range f.Blocks {
				for _, i := range bl.Instrs {
					ta, ok := i.(*ssa.TypeAssert)
					if !ok {
						continue
					}
					it, isI := ta.AssertedType.Underlying().(*types.Interface)
					prints, writes := false, false
					if isI {
						for k := 0; k < it.NumMethods(); k++ {
							switch it.Method(k).Name() {
							case "GoString", "String":
								prints = true
							case "Write", "WriteString":
								writes = true
							}
						}
						prints = prints && it.NumMethods() == 1
					}
					for t := range opaque {
						if k := mkTok(t, ta.AssertedType); !prints || t == other {
							e.assume(st, k, false)
						} else {
							e.assume(st, k, true)
						}
					}
					switch {
					case isI && writes && it.NumMethods() == 1:
						e.assume(st, mkTok(stream, ta.AssertedType), true)
					case !isI:
						e.assume(st, mkTok(stream, ta.AssertedType), false)
					}
				}
			}
		}
		for t := range opaque {
			for _, n := range []string{"Integer", "Float", "BigInt", "Rune", "String", "_NullType", "_TrueType"} {
				e.assume(st, mkTok(t, typ(n)), false)
			}
			e.assume(st, mkEq(t, o.s.null()), false)
			e.assume(st, mkEq(t, o.trueNode()), false)
		}
	}
	node := tSym("arg#node", "node", types.NewPointer(typ("_WriterNode")))
	st.facts[node] = 'X'
	var dest *Term
	// the standard output is what (standard-output) gives
	var std *Term
	if b := p.Builtin("standard-output"); b != nil && b.Fn != nil {
		for _, x := range e.Run(b.Fn, o.argsFor(b.Fn, o.world), nil, st) {
			if failed(e, x) || x.Panic || len(x.Res) == 0 {
				continue
			}
			t := x.Res[0]
			for t.op == "mki" || t.op == "ta" || t.op == "ct" {
				t = t.args[0]
			}
			if worldRooted(t) {
				std = t
			}
		}
	}
	from := func(t *Term) string {
		for {
			switch {
			case t == stream, t == node, dest != nil && t == dest:
				return c.dest
			case t.op == "sym" && t.typ != nil && c.dest == "file" && typeKey(t.typ) == "*bufio.Writer":
				return c.dest
			case t.op == "cell" && st.mon["dest:"+t.s] != "":
				return c.dest
			case t == std || std == nil && inWorld(t):
				return "t"
			}
			if len(t.args) == 0 || t.op == "clo" {
				return "?"
			}
			t = t.args[0]
		}
	}
	put := func(st *State, w *Term, s string, res *types.Tuple) []Out {
		to := from(w)
		if to != c.dest {
			st.mon["other"] = "writes to another destination"
		}
		if c.broken && s != "" {
			if st.mon["failed"] != "" {
				st.mon["again"] = "1"
			}
			st.mon["failed"] = "1"
			if res.Len() == 1 {
				return []Out{{St: st, Res: []*Term{broken}}}
			}
			return []Out{{St: st, Res: []*Term{mkInt(0), broken}}}
		}
		st.mon["out"] += s
		if res.Len() == 1 {
			return []Out{{St: st, Res: []*Term{tNil}}}
		}
		return []Out{{St: st, Res: []*Term{mkInt(len(s)), tNil}}}
	}
	// writeVia hands text to the method of a writer of this module.
	writeVia := func(e *Eng, st *State, cc *Call, w *Term, s string, names ...string) ([]Out, bool) {
		if w.op == "mki" {
			for _, n := range append(names, "Write") {
				m := p.SSA.LookupMethod(w.typ, p.Main.Pkg, n)
				if m == nil {
					continue
				}
				v := mkText(s, types.Typ[types.String])
				if n == "Write" {
					var els []*Term
					for i := 0; i < len(s); i++ {
						els = append(els, tConst(strconv.Itoa(int(s[i])), types.Typ[types.Byte]))
					}
					v = mkTerm("slist", "", "", types.NewSlice(types.Typ[types.Byte]), nil, els...)
				}
				return e.call(&Call{Callee: m, Args: []*Term{w.args[0], v}, Site: cc.Site + "/" + n, Frame: cc.Frame, Pos: cc.Pos}, st, nil, nil), true
			}
			return nil, false
		}
		return put(st, w, s, cc.ResultType()), true
	}
	cl.OnLoad = func(e *Eng, st *State, addr *Term, site string, t types.Type) *Term {
		if addr.op == "glob" && t != nil {
			if sl, ok := t.Underlying().(*types.Slice); ok && typeKey(sl.Elem()) == "byte" && strings.Contains(strings.ToLower(addr.s), "line") {
				return mkTerm("slist", "", "", t, nil, tConst("10", types.Typ[types.Byte]))
			}
		}
		return errorGlobals(e, st, addr, site, t)
	}
	cl.OnCall = func(e *Eng, st *State, cc *Call) ([]Out, bool) {
		one := func(ts ...*Term) ([]Out, bool) { return []Out{{St: st, Res: ts}}, true }
		write := func(name string, w, arg *Term) ([]Out, bool) {
			switch name {
			case "Write":
				if s, ok := e.bytesText(st, arg); ok {
					return put(st, w, s, cc.ResultType()), true
				}
			case "WriteString":
				if s, ok := textOf(arg); ok {
					return put(st, w, s, cc.ResultType()), true
				}
			case "WriteRune", "WriteByte":
				if n, ok := intConst(arg); ok {
					s := string(rune(n))
					if name == "WriteByte" {
						s = string([]byte{byte(n)})
					}
					return put(st, w, s, cc.ResultType()), true
				}
			}
			st.mon["unknown"] = "text that is not known"
			return put(st, w, "", cc.ResultType()), true
		}
		if cc.Method != nil && cc.Callee == nil && len(cc.Args) > 0 {
			w := cc.Args[0]
			switch n := cc.Method.Name(); n {
			case "Write", "WriteString", "WriteRune", "WriteByte":
				return write(n, w, cc.Args[1])
			case "String", "GoString":
				for w.op == "mki" || w.op == "ta" || w.op == "ct" {
					w = w.args[0]
				}
				if a := opaque[w]; a != "" {
					if n == "GoString" {
						a += "!"
					}
					return one(mkText("<"+a+">", types.Typ[types.String]))
				}
			}
			return modelRaise(e, st, cc)
		}
		f := cc.Callee
		if f == nil || fnPkg(f) == nil {
			return modelRaise(e, st, cc)
		}
		switch fnPkg(f).Path() {
		case "io":
			if f.Name() == "WriteString" {
				if s, ok := textOf(cc.Args[1]); ok {
					return writeVia(e, st, cc, cc.Args[0], s, "WriteString")
				}
				st.mon["unknown"] = "text that is not known"
			}
		case "fmt":
			if strings.HasPrefix(f.Name(), "Fprint") {
				if s, ok := sprintf(e, st, cc.Args[1:], f.Name() == "Fprintf"); ok && f.Name() != "Fprintln" {
					return writeVia(e, st, cc, cc.Args[0], s)
				}
				st.mon["unknown"] = "text that is not known"
			}
		case "bufio":
			if rv := f.Signature.Recv(); rv != nil && typeKey(rv.Type()) == "*bufio.Writer" {
				switch f.Name() {
				case "Write", "WriteString", "WriteRune", "WriteByte":
					st.mon["dest:"+cc.Args[0].s] = "1"
					return write(f.Name(), cc.Args[0], cc.Args[1])
				}
			}
		case "math/big":
			if f.Name() == "NewInt" {
				if n, ok := intConst(cc.Args[0]); ok {
					t := tSym(cc.Site+"#int", "", cc.ResultType().At(0).Type())
					st.facts[t] = 'X'
					st.mon["int:"+t.s] = strconv.Itoa(n)
					return one(t)
				}
			}
			if rv := f.Signature.Recv(); rv != nil && (f.Name() == "Text" || f.Name() == "String") {
				base := 10
				if f.Name() == "Text" {
					n, ok := intConst(cc.Args[1])
					if !ok {
						break
					}
					base = n
				}
				if s := st.mon["int:"+cc.Args[0].s]; s != "" && cc.Args[0].op == "sym" && base >= 2 && base <= 36 {
					n, _ := strconv.Atoi(s)
					return one(mkText(strconv.FormatInt(int64(n), base), types.Typ[types.String]))
				}
				root := cc.Args[0]
				for len(root.args) > 0 {
					root = root.args[0]
				}
				if root == big {
					return one(mkText(fmt.Sprintf("<BIG %d>", base), types.Typ[types.String]))
				}
			}
		case "os":
			if f.Name() == "Create" || f.Name() == "OpenFile" {
				t := tSym(cc.Site+"#file", "file", cc.ResultType().At(0).Type())
				st.facts[t] = 'X'
				return one(t, tNil)
			}
		}
		if outs, ok := modelTexts(e, st, cc); ok {
			return outs, ok
		}
		if outs, ok := modelRaise(e, st, cc); ok {
			return outs, ok
		}
		if k := fnPkg(f).Path(); !p.inRepo(f) && !p.promoted(f) && k != "errors" && k != "context" && k != "sync" {
			st.mon["opaque"] = k + "." + f.Name()
		}
		return nil, false
	}
	// the destination
	starts := []*State{st}
	make1 := func(op string, args ...*Term) bool {
		b := p.Builtin(op)
		if b == nil || b.Fn == nil {
			return false
		}
		for _, x := range e.Run(b.Fn, o.argsFor(b.Fn, o.world, args...), nil, st) {
			if !failed(e, x) && !x.Panic {
				st = x.St
				dest = x.Res[0]
				starts = []*State{st}
				return true
			}
		}
		return false
	}
	switch c.dest {
	case "nil":
		dest = o.s.null()
	case "t":
		dest = o.trueNode()
	case "stream":
		dest = stream
	case "node":
		dest = box(node, node.typ)
	case "object":
		dest = other
	case "string":
		if !make1("create-string-output-stream") {
			return []string{"has no destination: create-string-output-stream fails"}
		}
	case "file":
		if !make1("open-output-file", box(tConst(strconv.Quote("name"), typ("String")), typ("String"))) {
			return []string{"has no destination: open-output-file fails"}
		}
	}
	want := c.out
	run := func(op, control string, args []*Term) (out []Exit) {
		b := p.Builtin(op)
		l := []*Term{dest}
		if op == "format" {
			l = append(l, box(tConst(strconv.Quote(control), typ("String")), typ("String")))
		}
		l = append(l, args...)
		for _, s := range starts {
			out = append(out, e.Run(b.Fn, o.argsFor(b.Fn, o.world, l...), nil, s)...)
		}
		return
	}
	if c.before != "" {
		var exits []Exit
		if k := strings.TrimPrefix(c.before, "#"); k != c.before {
			n, _ := utf8.DecodeRuneInString(k)
			exits = run("format-char", "", []*Term{box(tConst(strconv.Itoa(int(n)), typ("Rune")), typ("Rune"))})
		} else if s := strings.TrimPrefix(c.before, "="); s != c.before {
			exits = run("format", "~a", []*Term{box(tConst(strconv.Quote(s), typ("String")), typ("String"))})
		} else {
			exits = run("format", strings.ReplaceAll(c.before, "\n", "~%"), nil)
		}
		starts = nil
		for _, x := range exits {
			if !failed(e, x) && !x.Panic {
				starts = append(starts, x.St)
			}
		}
		if len(starts) == 0 {
			return []string{"cannot write what comes before"}
		}
	}
	for _, s := range starts {
		know(s)
	}
	good, unknown, definite := 0, 0, false
	for _, x := range run(c.op, c.control, args) {
		r.ob(1)
		n := len(bad)
		switch {
		case x.Panic:
			bad = append(bad, "crashes")
		case x.St.mon["unknown"] != "":
			good++
			unknown++
		case failed(e, x):
			er := unwrapTerm(x.Res[len(x.Res)-1])
			if strings.Contains(er.String(), "pm:Err") {
				continue
			}
			if c.broken {
				if er != broken && !strings.Contains(er.String(), "the error of the destination") {
					bad = append(bad, "fails, but not with the error of the destination")
				}
			} else if want != "error" {
				bad = append(bad, "fails")
			}
		case c.broken:
			if x.St.mon["failed"] != "" {
				bad = append(bad, "does not report that its output could not be written")
			} else {
				bad = append(bad, "writes nothing")
			}
		case want == "error":
			bad = append(bad, "does not fail")
		default:
			got := x.St.mon["out"]
			v := x.Res[0]
			switch c.dest {
			case "nil":
				s, ok := textOf(v)
				if !ok {
					bad = append(bad, "does not return a string")
					if v.op != "mki" && !o.isNull(v) && v != o.trueNode() {
						good++
					}
					continue
				}
				got = s
			case "string":
				got = ""
				for k, s := range x.St.mon {
					if strings.HasPrefix(k, "sb:") {
						got += s
					}
				}
				fallthrough
			default:
				if !o.isNull(v) {
					bad = append(bad, "does not return nil")
				}
			}
			if c.got != nil && x.St.mon["opaque"] != "" {
				unknown++
				got = want
			} else if c.got != nil {
				*c.got = append(*c.got, got)
				got = want
			}
			if got != want && !(strings.Contains(want, "BIG") && strings.EqualFold(got, want)) {
				bad = append(bad, fmt.Sprintf("writes %q, not %q", got, want))
			}
			if m := x.St.mon["other"]; m != "" {
				bad = append(bad, m)
			}
		}
		if n == len(bad) {
			good++
		} else if x.St.mon["opaque"] == "" {
			definite = true
		}
	}
	if len(e.Undecided) > 0 {
		unknown++
		e.Undecided = nil
	}
	r.engine(e)
	if unknown == 0 && good == 0 && len(bad) == 0 {
		bad = append(bad, "has no outcome")
	}
	if unknown > 0 || good > 0 && len(bad) > 0 && !definite {
		r.count("undecided", 1)
		r.sample("undecided: %s: %s", c, strings.Join(uniqStrings(bad), "; "))
		return nil
	}
	return uniqStrings(bad)
}

// inWorld says that t is reached from the interpreter's state.
func inWorld(t *Term) bool {
	for len(t.args) > 0 && t.op != "clo" {
		t = t.args[0]
	}
	return t.op == "sym" && t.label == "world"
}

func checkC18(p *Prog, r *Report) {
	for _, c := range formatCasesList() {
		r.count("calls", 1)
		where := "-"
		if f := p.Builtin(c.op); f != nil && f.Fn != nil {
			where = p.pos(f.Fn.Pos())
		}
		for i, b := range formatRun(p, r, c) {
			r.add(fmt.Sprintf("%s/%d", c, i), where, "%s %s", c, b)
		}
	}
	r.floor("calls", 200)
}
