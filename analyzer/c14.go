package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// replacers gives the pairs of the package variables that are made by
// strings.NewReplacer of constants.
func (p *Prog) replacers() map[string][]string {
	if p.replacerMod != nil {
		return p.replacerMod
	}
	out := map[string][]string{}
	for _, pk := range p.SSA.AllPackages() {
		if !strings.HasPrefix(pk.Pkg.Path(), p.ModPath) || pk.Func("init") == nil {
			continue
		}
		for _, b := range pk.Func("init").Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok1 := st.Addr.(*ssa.Global)
				c, ok2 := st.Val.(*ssa.Call)
				if !ok1 || !ok2 {
					continue
				}
				if pairs, ok := newReplacerPairs(c); ok {
					for _, kv := range pairs {
						out[g.String()] = append(out[g.String()], kv[0], kv[1])
					}
				}
			}
		}
	}
	p.replacerMod = out
	return out
}

// modelRegexp matches known texts with the regular expressions and replacers of the package.
func (p *Prog) modelRegexp(e *Eng, st *State, c *Call) ([]Out, bool) {
	f := c.Callee
	if f == nil || f.Signature.Recv() == nil || len(c.Args) < 2 {
		return nil, false
	}
	one := func(ts ...*Term) ([]Out, bool) { return []Out{{St: st, Res: ts}}, true }
	str := types.Typ[types.String]
	switch typeKey(f.Signature.Recv().Type()) {
	case "*strings.Replacer":
		g := globsIn(c.Args[0])
		s, ok := textOf(c.Args[1])
		if f.Name() == "Replace" && ok && len(g) == 1 && p.replacers()[g[0]] != nil {
			return one(mkText(strings.NewReplacer(p.replacers()[g[0]]...).Replace(s), str))
		}
	case "*regexp.Regexp":
		if p.rxMod == nil {
			p.rxMod = p.rxGlobals()
		}
		g := globsIn(c.Args[0])
		s, ok := textOf(c.Args[1])
		if !ok || len(g) != 1 || p.rxMod[g[0]] == "" {
			return nil, false
		}
		rx, err := regexp.Compile(p.rxMod[g[0]])
		if err != nil {
			return nil, false
		}
		switch f.Name() {
		case "MatchString":
			return one(tBool(rx.MatchString(s)))
		case "FindStringSubmatch":
			m := rx.FindStringSubmatch(s)
			if m == nil {
				return one(zeroTerm(c.ResultType().At(0).Type()))
			}
			var els []*Term
			for _, x := range m {
				els = append(els, mkText(x, str))
			}
			return one(mkTerm("slist", "", "", types.NewSlice(str), nil, els...))
		case "FindString":
			return one(mkText(rx.FindString(s), str))
		}
	}
	return nil, false
}

// readerFn is the function of the interpreter that reads a datum from runes.
func (p *Prog) readerFn() *ssa.Function {
	var found *ssa.Function
	for _, f := range p.All {
		sig := f.Signature
		if f.Pkg != p.Main || sig.Recv() != nil || f.Parent() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 2 || !p.isNode(sig.Results().At(0).Type()) || !isInterface(sig.Params().At(0).Type()) {
			continue
		}
		ms := types.NewMethodSet(sig.Params().At(0).Type())
		if ms.Lookup(nil, "ReadRune") == nil && ms.Lookup(sig.Params().At(0).Type().(*types.Named).Obj().Pkg(), "ReadRune") == nil {
			continue
		}
		if found == nil || f.Object() != nil && f.Object().Exported() {
			found = f
		}
	}
	return found
}

// A reading of a text: what comes out on each way.
type reading struct {
	got    string // the data, or "error"
	left   string // what is not taken from the stream
	unsure bool
}

// readText interprets the reader on the text.
func readText(p *Prog, r *Report, text string) (out []reading, problem string) {
	fn := p.readerFn()
	if fn == nil {
		return nil, "there is no reader"
	}
	o := &opRun{p: p, r: r}
	st := o.begin()
	d := newData(p, st)
	d.s, d.real, d.typed = o.s, true, true
	sameSymbols, allSymbols = p.sameSymbol, true
	defer func() { sameSymbols, allSymbols = nil, false }()
	e := textClient(p, o, d)
	rs := tSym("arg#runes", "runes", fn.Signature.Params().At(0).Type())
	st.facts[rs] = 'X'
	st.mon["pos"] = "0"
	errT := types.Universe.Lookup("error").Type()
	eof := globVal("io.EOF", errT)
	next := e.C.OnCall
	load := e.C.OnLoad
	parseErr := globVal("the error of ParseInt", errT)
	e.C.OnLoad = func(e *Eng, st *State, addr *Term, site string, t types.Type) *Term {
		if addr.op == "fld" && rootTerm(addr).label == "NUMERROR" {
			switch addr.s[strings.LastIndex(addr.s, ".")+1:] {
			case "Num":
				return mkText(st.mon["num"], types.Typ[types.String])
			case "Err":
				if st.mon["numrange"] != "" {
					return globVal("strconv.ErrRange", errT)
				}
				return globVal("strconv.ErrSyntax", errT)
			}
		}
		return load(e, st, addr, site, t)
	}
	e.C.OnCall = func(e *Eng, st *State, cc *Call) ([]Out, bool) {
		one := func(ts ...*Term) ([]Out, bool) { return []Out{{St: st, Res: ts}}, true }
		if m := cc.Method; m != nil && cc.Callee == nil && rootTerm(cc.Args[0]) == rs {
			pos, _ := strconv.Atoi(st.mon["pos"])
			switch m.Name() {
			case "ReadRune":
				delete(st.mon, "back")
				if pos >= len(text) {
					return one(tConst("0", types.Typ[types.Rune]), mkInt(0), eof)
				}
				k, n := utf8.DecodeRuneInString(text[pos:])
				st.mon["pos"] = strconv.Itoa(pos + n)
				st.mon["back"] = strconv.Itoa(n)
				return one(tConst(strconv.Itoa(int(k)), types.Typ[types.Rune]), mkInt(n), tNil)
			case "UnreadRune":
				n, _ := strconv.Atoi(st.mon["back"])
				if n == 0 {
					return one(globVal("the error of UnreadRune", errT))
				}
				delete(st.mon, "back")
				st.mon["pos"] = strconv.Itoa(pos - n)
				return one(tNil)
			}
		}
		if f := cc.Callee; f != nil && fnPkg(f) != nil {
			switch fnPkg(f).Path() + "." + f.Name() {
			case "strconv.ParseInt", "strconv.Atoi", "strconv.ParseUint":
				if s, ok := textOf(cc.Args[0]); ok {
					st.mon["num"] = s
					delete(st.mon, "numrange")
					base, bits := 10, 64
					if f.Name() != "Atoi" {
						b, ok1 := intConst(cc.Args[1])
						n, ok2 := intConst(cc.Args[2])
						if !ok1 || !ok2 || b == 1 || b < 0 || b > 36 || n < 0 || n > 64 {
							return nil, false
						}
						base, bits = b, n
					}
					var err error
					if f.Name() == "ParseUint" {
						var n uint64
						n, err = strconv.ParseUint(s, base, bits)
						if err == nil && n < 1<<62 {
							return one(mkInt(int(n)), tNil)
						}
					} else {
						var n int64
						if n, err = strconv.ParseInt(s, base, bits); err == nil {
							return one(mkInt(int(n)), tNil)
						}
					}
					if err == nil {
						return nil, false
					}
					if strings.Contains(err.Error(), "range") {
						st.mon["numrange"] = "1"
					}
					return one(mkInt(0), parseErr)
				}
			case "errors.As":
				if cc.Args[0] == parseErr || strings.Contains(cc.Args[0].String(), "the error of ParseInt") {
					v := tSym(cc.Site+"#numerror", "NUMERROR", types.Typ[types.Int])
					st.facts[v] = 'X'
					t := cc.Args[1]
					for t.op == "mki" {
						t = t.args[0]
					}
					e.store(st, t, v)
					return one(tTrue)
				}
			case "errors.Is":
				a, b := cc.Args[0], cc.Args[1]
				if a.op == "gval" && b.op == "gval" {
					return one(tBool(a == b))
				}
			case "math/big.SetString":
				s, ok := textOf(cc.Args[1])
				base, ok1 := intConst(cc.Args[2])
				if ok && ok1 {
					n, good := new(big.Int).SetString(s, base)
					if good {
						st.mon["big:"+rootTerm(cc.Args[0]).String()] = n.String()
					}
					return one(cc.Args[0], tBool(good))
				}
			case "unicode.IsSpace", "unicode.ToUpper", "unicode.ToLower", "unicode.IsDigit", "unicode.IsLetter":
				if n, ok := intConst(cc.Args[0]); ok {
					k := rune(n)
					switch f.Name() {
					case "IsSpace":
						return one(tBool(unicode.IsSpace(k)))
					case "IsDigit":
						return one(tBool(unicode.IsDigit(k)))
					case "IsLetter":
						return one(tBool(unicode.IsLetter(k)))
					case "ToUpper":
						return one(tConst(strconv.Itoa(int(unicode.ToUpper(k))), types.Typ[types.Rune]))
					case "ToLower":
						return one(tConst(strconv.Itoa(int(unicode.ToLower(k))), types.Typ[types.Rune]))
					}
				}
			}
		}
		return next(e, st, cc)
	}
	for _, x := range e.Run(fn, []*Term{rs}, nil, st) {
		r.ob(1)
		one := reading{unsure: x.St.mon["opaque"] != ""}
		pos, _ := strconv.Atoi(x.St.mon["pos"])
		one.left = text[min(pos, len(text)):]
		switch {
		case x.Panic:
			one.got = "crash"
		case failed(e, x):
			one.got = "error"
		default:
			d.bigs = x.St.mon
			one.got = d.show(e, x.St, x.Res[0])
		}
		out = append(out, one)
	}
	if len(e.Undecided) > 0 {
		for i := range out {
			out[i].unsure = true
		}
		e.Undecided = nil
	}
	r.engine(e)
	return
}

const readerList = `
a = a
foo-bar* = foo-bar*
A = A
+ = +
- = -
... = ...
1+ = 1+
-a = -a
nil = nil
NIL = nil
t = t
T = t
() = nil
( ) = nil
:key = :key
&rest = &rest
|a b| = |a b|
|a(b)| = |a(b)|
|a;b| = |a;b|
|a\|b| = |a|b|
|a\\b| = a\b
|12| = |12|
| a | = | a |
|| = ||
#\U3042 = #\あ
#\U = #\U
|nil| = |nil|
|:a| = |:a|
|a"b| = |a"b|
|A| = A
12a = 12a
1.2.3 = 1.2.3
e5 = e5
.5a = .5a
#o777777777777 = 68719476735
#b-1 = #b-1
#xg = #xg
2.5E+2 = 250.0
1e+3 = 1000.0
1e400 = error
-0 = 0
-1.5e-3 = -0.0015
9007199254740993.0 = 9.007199254740992e+15
&optional = &optional
:KEY = :KEY
"\a\b" = "ab"
"a\x b\y" = "ax by"
"\\" = "\\"
"\"" = "\""
"a¶b" = "a\tb"
"#|x|#" = "#|x|#"
"; x" = "; x"
0 = 0
12 = 12
-7 = -7
007 = 7
#x1F = 31
#Xff = 255
#o17 = 15
#b101 = 5
#B11 = 3
9223372036854775807 = 9223372036854775807
9223372036854775808 = 9223372036854775808
-9223372036854775809 = -9223372036854775809
123456789012345678901234567890 = 123456789012345678901234567890
#xFFFFFFFFFFFFFFFFFF = 4722366482869645213695
1.5 = 1.5
-0.25 = -0.25
+2.5 = 2.5
2. = 2.0
1e3 = 1000.0
1E-2 = 0.01
2.5e+2 = 250.0
"" = ""
"abc" = "abc"
"a b(c);d" = "a b(c);d"
"a$b" = "a\nb"
"a\"b" = "a\"b"
"a\\b" = "a\\b"
"あ" = "あ"
"|" = "|"
#\a = #\a
#\A = #\A
#\( = #\(
#\) = #\)
#\; = #\;
#\" = #\"
#\| = #\|
#\\ = #\\
#\' = #\'
#\あ = #\あ
#\space = #\_
#\newline = #\$
#\tab = #\^
(a) = (a)
(a b c) = (a b c)
( a$b ) = (a b)
(a (b c) d) = (a (b c) d)
((a)) = ((a))
(a ()) = (a nil)
(a #|x|#) = (a)
(#|x|# a) = (a)
(a . #|x|# b) = (a . b)
(a . b #|x|#) = (a . b)
' a = (quote a)
'#|x|# a = (quote a)
(a .$b) = (a . b)
(()) = (nil)
(a . b) = (a . b)
(a b . c) = (a b . c)
(a . (b c)) = (a b c)
(a . nil) = (a)
((a . b) . (c . d)) = ((a . b) c . d)
(a .b) = (a .b)
(1 "x" #\y z) = (1 "x" #\y z)
'a = (quote a)
'(a b) = (quote (a b))
''a = (quote (quote a))
(a 'b c) = (a (quote b) c)
('a) = ((quote a))
#'car = (function car)
(mapcar #'car x) = (mapcar (function car) x)
#'(lambda (x) x) = (function (lambda (x) x))
§a = (quasiquote a)
§(a ,b) = (quasiquote (a (unquote b)))
§(a ,@b c) = (quasiquote (a (unquote-splicing b) c))
§(,a . ,b) = (quasiquote ((unquote a) unquote b))
,a = (unquote a)
,@(b) = (unquote-splicing (b))
#(a b c) = #(a b c)
#() = #()
#(a (b) #(c)) = #(a (b) #(c))
(#(a) b) = (#(a) b)
#1a(a b) = #(a b)
#2a((a b) (c d)) = #2x2:(a b c d)
#2A((a b c) (d e f)) = #2x3:(a b c d e f)
#3a(((a b) (c d)) ((e f) (g h))) = #2x2x2:(a b c d e f g h)
#2a((a b) (c)) = error
#2a((a) (b c)) = error
#2a((a b) (c) (d e f)) = error
#3a(((a b) (c d)) ((e f))) = error
#2a(a b) = error
#2a((a) (b c d) (e f)) = error
#2a((a b) (c d) e) = error
#02a((a b) (c d)) = #2x2:(a b c d)
#0a() = error
#999a(a) = error
#4a((((a b)) ((c d)))) = #1x2x1x2:(a b c d)
#2a((a (b c)) ("d" #\))) = #2x2:(a (b c) "d" #\))
#(a #|b|# c ; d$) = #(a c)
#('a) = #((quote a))
#2a(((a) nil)) = #1x2:((a) nil)
#| a | b |# c = c
#|x||# a = a
#|x##|y|#|# a = a
#|(|# a = a
#|"|# a = a
(a ; ")$b) = (a b)
(a;x$b) = (a b)
a;x$ = a
(a¶b) = (a b)
(a¬$b) = (a b)
¬$¶ a = a
; x¬ y$a = a
(a;;$;b$c) = (a c)
(#\a #\b) = (#\a #\b)
(#\a;x$) = (#\a)
(#\() = (#\()
(#\a) = (#\a)
("a" "b") = ("a" "b")
("a(" b) = ("a(" b)
(a b)c = (a b) ; left:c
"a" b = "a" ; left:_b
(a b . (c . d)) = (a b c . d)
(a b c . d) = (a b c . d)
(a . (b . (c . nil))) = (a b c)
(a . "x") = (a . "x")
(a . #(b)) = (a . #(b))
((a . b)) = ((a . b))
(a (b . c) d) = (a (b . c) d)
(a |.| b) = (a |.| b)
('a . 'b) = ((quote a) quote b)
§(a §(b ,c)) = (quasiquote (a (quasiquote (b (unquote c)))))
§#(a) = (quasiquote #(a))
#'foo-bar) = (function foo-bar) ; left:)
(#'a #'b) = ((function a) (function b))
((((((a)))))) = ((((((a))))))
(a b c d e f) = (a b c d e f)
(¶(a)(b)) = ((a) (b))
(a . b = error
(a b = error
"a\ = error
"a\" = error
(a "b) = error
(a |b) = error
#2a((a = error
#\ = error
§ = error
, = error
,@ = error
#' = error
('  = error
#| #| a |# = error
; x$a = a
a ; x = a ; left: ; x
#|x|# a = a
#| x #| y |# z |# a = a
(a #|x|# b) = (a b)
(a ; x$b) = (a b)
a b = a ; left:_b
(a) b = (a) ; left:_b
(a)b = (a) ; left:b
a(b) = a ; left:(b)
(a . ) = error
( . b) = error
(a . b c) = error
(a . b . c) = error
( . ) = error
(a = error
( = error
"abc = error
|abc = error
' = error
#| a = error
#( a = error
(a . = error
  = error
; x = error
`

func checkC14(p *Prog, r *Report) {
	for _, l := range strings.Split(readerList, "\n") {
		text, want, ok := strings.Cut(l, " = ")
		if !ok {
			continue
		}
		text = strings.NewReplacer("$", "\n", "§", "`", "¶", "\t", "¬", "\r").Replace(text)
		want, left, check := strings.Cut(want, " ; left:")
		want, left = strings.NewReplacer("_", " ", "$", "\n", "^", "\t").Replace(want), strings.ReplaceAll(left, "_", " ")
		r.count("texts", 1)
		ways, problem := readText(p, r, text)
		if problem != "" {
			r.add("reader", "-", "%s", problem)
			return
		}
		good, definite := 0, false
		var bad []string
		for _, w := range ways {
			if w.got == want && (!check || w.left == left) {
				good++
				continue
			}
			if w.got == want {
				w.got = fmt.Sprintf("%s leaving %q", w.got, w.left)
			}
			bad = append(bad, w.got)
			definite = definite || !w.unsure
		}
		if len(bad) > 0 && !definite {
			r.count("undecided", 1)
			r.sample("undecided: %q is read as %s", text, strings.Join(uniqStrings(bad), " or "))
			continue
		}
		if len(ways) == 0 {
			bad = append(bad, "nothing")
		}
		where := p.pos(p.readerFn().Pos())
		for i, b := range uniqStrings(bad) {
			r.add(fmt.Sprintf("%s/%d", text, i), where, "%q is read as %s, not %s", text, b, want)
		}
	}
	r.floor("texts", 200)
}
