package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// blanks stands for what the text of a case cannot hold in a string.
var blanks = strings.NewReplacer("_", " ", "{", "(", "}", ")")

func (d *data) typ(n string) types.Type {
	if obj := d.p.Main.Pkg.Scope().Lookup(n); obj != nil {
		return obj.Type()
	}
	return types.Typ[types.Invalid]
}

// literal is a string "a", a character #\a, a float 1.5 or a large number.
func (d *data) literal(w string) *Term {
	switch {
	case len(w) >= 2 && w[0] == '"' && w[len(w)-1] == '"':
		return d.boxed(tConst(strconv.Quote(blanks.Replace(w[1:len(w)-1])), d.typ("String")), d.typ("String"))
	case strings.HasPrefix(w, `#\`) && len(w) > 2:
		k, _ := utf8.DecodeRuneInString(blanks.Replace(w[2:]))
		return d.boxed(tConst(strconv.Itoa(int(k)), d.typ("Rune")), d.typ("Rune"))
	case strings.HasPrefix(w, "BIG"):
		t := tSym("arg#"+w, w, d.typ("BigInt"))
		d.s.st.facts[t] = 'X'
		d.name[t] = w
		return d.boxed(t, d.typ("BigInt"))
	}
	if strings.Contains(w, ".") && len(w) > 1 {
		if f, err := strconv.ParseFloat(w, 64); err == nil {
			if f == 0 {
				// the way the compiler writes it
				w = "0"
			}
			return d.boxed(tConst(w, d.typ("Float")), d.typ("Float"))
		}
	}
	return nil
}

// showLiteral writes strings, characters, floats and symbols.
func (d *data) showLiteral(t *Term) string {
	v := t.args[0]
	switch {
	case types.Identical(t.typ, d.typ("String")):
		if s, ok := textOf(v); ok {
			return strconv.Quote(s)
		}
	case types.Identical(t.typ, d.typ("Rune")):
		if n, ok := intConst(v); ok {
			return `#\` + string(rune(n))
		}
	case types.Identical(t.typ, d.typ("Float")):
		if f, ok := floatConst(v); ok {
			return floatText(f)
		}
	case strings.HasPrefix(v.label, "KEY:"):
		return v.label[4:]
	case types.Identical(t.typ, d.typ("BigInt")) && d.bigs != nil:
		if s := d.bigs["big:"+rootTerm(v).String()]; s != "" {
			if _, err := strconv.ParseInt(s, 10, 64); err == nil && d.typed {
				s += " as a big number"
			}
			return s
		}
	case d.real && types.Identical(t.typ, d.s.symT()):
		s := symText(d.p, t)
		if _, err := strconv.ParseFloat(s, 64); d.typed && (err == nil || s == "." || s == "nil" || s == "t" || s == "" || strings.ContainsAny(s, " ();\"|") || s[0] == ':' || s[0] == '&') {
			s = "|" + s + "|" // not to be taken for something else
		}
		return s
	}
	return ""
}

func floatText(f float64) string {
	s := strconv.FormatFloat(f, 'g', -1, 64)
	if !strings.ContainsAny(s, ".eIN") {
		s += ".0"
	}
	return s
}

// a textStep is one call of a case.
type textStep struct{ op, args, want string }

type textCase []textStep

func (c textCase) String() string {
	var l []string
	for _, s := range c {
		l = append(l, strings.TrimSpace("("+s.op+" "+s.args)+")")
	}
	return strings.ReplaceAll(strings.Join(l, " "), " )", ")")
}

// textCases reads lines: (op args) -> result ; (op args) -> result ...
func textCases(text string) (out []textCase) {
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == ';' {
			continue
		}
		var c textCase
		for _, s := range strings.Split(l, " ; ") {
			call, want, _ := strings.Cut(s, " -> ")
			call = strings.TrimSuffix(strings.TrimPrefix(strings.TrimSpace(call), "("), ")")
			op, args, _ := strings.Cut(call, " ")
			c = append(c, textStep{op, args, strings.TrimSpace(want)})
		}
		out = append(out, c)
	}
	return
}

// rootTerm is what a field or a conversion comes from.
func rootTerm(t *Term) *Term {
	for len(t.args) > 0 && t.op != "clo" {
		t = t.args[0]
	}
	return t
}

// textClient interprets functions on texts, numbers and data that are known.
func textClient(p *Prog, o *opRun, d *data) *Eng {
	var cl *Client
	cl = &Client{Concrete: true, Recursion: 16, MaxDepth: 60, Closed: true, Views: true}
	e := newEng(p, cl)
	e.MaxConf = 4000
	model := p.classes()
	cl.OnLoad = func(e *Eng, st *State, addr *Term, site string, t types.Type) *Term {
		if v := model.field(addr, t); v != nil {
			return v
		}
		if d.raises && addr.op == "fld" && o.world != nil && strings.Contains(addr.String(), o.world.String()) && p.isCallableType(t) {
			return zeroTerm(t) // there is no handler
		}
		return errorGlobals(e, st, addr, site, t)
	}
	cl.OnCall = func(e *Eng, st *State, cc *Call) ([]Out, bool) {
		one := func(ts ...*Term) ([]Out, bool) { return []Out{{St: st, Res: ts}}, true }
		if what, ok := p.evalOf(cc); ok && what == "eval" && len(cc.Args) == 3 {
			form := cc.Args[2]
			if form.op == "mki" {
				if n, ok := form.typ.(*types.Named); ok && n.Obj().Name() == "Uneval" && form.args[0].op == "struct" {
					return one(form.args[0].args[0], tNil)
				}
				if types.Identical(form.typ, types.NewPointer(d.s.consT())) {
					car, cdr := d.part(e, st, form, "Car"), d.part(e, st, form, "Cdr")
					if symText(p, car) == "quote" {
						return one(d.part(e, st, cdr, "Car"), tNil)
					}
					return nil, false
				}
				if symText(p, form) == "" {
					return one(form, tNil)
				}
			}
		}
		symbol := func(t *Term) string {
			for t.op == "mki" || t.op == "ta" || t.op == "ct" {
				t = t.args[0]
			}
			if t.typ != nil && symName(t.typ) {
				return symText(p, t)
			}
			return ""
		}
		if m := cc.Method; m != nil && cc.Callee == nil && m.Name() == "String" && len(cc.Args) == 1 {
			if s := symbol(cc.Args[0]); s != "" {
				return one(mkText(s, types.Typ[types.String]))
			}
		}
		if outs, ok := modelReflect(st, cc); ok {
			return outs, ok
		}
		if outs, ok := modelSlices(e, st, cc); ok {
			return outs, ok
		}
		f := cc.Callee
		if f == nil || fnPkg(f) == nil {
			if d.raises && f != nil {
				return nil, false
			}
			return modelRaise(e, st, cc)
		}
		sig := f.Signature
		if sig.Recv() != nil && f.Name() == "String" && len(cc.Args) == 1 && symName(sig.Recv().Type()) {
			if s := symbol(cc.Args[0]); s != "" {
				return one(mkText(s, types.Typ[types.String]))
			}
		}
		if p.inRepo(f) && sig.Recv() == nil && len(cc.Args) == 1 && sig.Results().Len() == 1 && types.Identical(sig.Params().At(0).Type(), types.Typ[types.String]) && symName(sig.Results().At(0).Type()) {
			if s, ok := textOf(cc.Args[0]); ok {
				v := d.s.sym(s)
				if !isInterface(sig.Results().At(0).Type()) {
					v = v.args[0]
				}
				return one(v)
			}
		}
		if p.inRepo(f) && sig.Recv() == nil && len(cc.Args) == 1 && sig.Results().Len() == 1 && types.Identical(sig.Params().At(0).Type(), types.Typ[types.String]) && types.Identical(sig.Results().At(0).Type(), d.typ("Keyword")) {
			if s, ok := textOf(cc.Args[0]); ok {
				return one(tSym("keyword:"+s, "KEY:"+s, d.typ("Keyword")))
			}
		}
		if fnPkg(f).Path() == "math/big" && sig.Recv() != nil && len(cc.Args) > 0 {
			if root := rootTerm(cc.Args[0]); strings.HasPrefix(root.label, "BIG") {
				switch f.Name() {
				case "String":
					return one(mkText("<"+root.label+">", types.Typ[types.String]))
				case "Text":
					if n, ok := intConst(cc.Args[1]); ok && n == 10 {
						return one(mkText("<"+root.label+">", types.Typ[types.String]))
					}
				}
			}
		}
		if outs, ok := p.modelRegexp(e, st, cc); ok {
			return outs, ok
		}
		if outs, ok := modelTexts(e, st, cc); ok {
			return outs, ok
		}
		if outs, ok := modelRaise(e, st, cc); ok && !d.raises {
			for _, x := range outs {
				for _, t := range x.Res {
					if strings.HasPrefix(t.label, "RAISED:") {
						e.assume(x.St, mkEq(t, globVal("io.EOF", types.Universe.Lookup("error").Type())), false)
					}
				}
			}
			return outs, ok
		}
		if k := fnPkg(f).Path(); !p.inRepo(f) && !p.promoted(f) && k != "errors" && k != "context" && k != "sync" && k+f.Name() != "fmtErrorf" {
			st.mon["opaque"] = k + "." + f.Name()
		}
		return nil, false
	}
	return e
}

// textRun interprets the calls of a case, one after the other.
func textRun(p *Prog, r *Report, c textCase) (bad []string) { return textRunFull(p, r, c, false) }

// textRunFull keeps the conditions if conditions is true: a step that wants
// "condition" must end in an error that is a condition, which is "!" in the
// steps behind it.
func textRunFull(p *Prog, r *Report, c textCase, conditions bool) (bad []string) {
	o := &opRun{p: p, r: r}
	st := o.begin()
	d := newData(p, st)
	d.raises = conditions
	d.s, d.real = o.s, true
	sameSymbols, allSymbols = p.sameSymbol, true
	defer func() { sameSymbols, allSymbols = nil, false }()
	e := textClient(p, o, d)
	model := p.classes()
	if conditions {
		for _, ci := range model.classes {
			d.name[ci.term] = ci.name
		}
	}
	states := []*State{st}
	var first *Term
	raised := map[*State]*Term{}
	marks := strings.NewReplacer("$", "=0")
	if conditions {
		marks = strings.NewReplacer("$", "=0", "!", "=1")
	}
	undecided := false
	for i, step := range c {
		b := p.Builtin(strings.TrimPrefix(step.op, "raw:"))
		name, nowhere := strings.CutPrefix(step.op, "nowhere:")
		if nowhere {
			// a method of the scopes, where no scope is left
			b = &Builtin{Lisp: step.op, Fn: p.methodFn("World", name), Kind: "special"}
			if b.Fn == nil {
				return bad
			}
		}
		if b == nil || b.Fn == nil {
			return append(bad, "there is no function "+step.op)
		}
		var next []*State
		good := 0
		var wrong []string
		definite := false
		n0 := d.s.n
		for _, st := range states {
			d.s.st, d.s.n = st, n0
			d.made["0"] = first
			d.made["1"] = nil
			if conditions {
				d.made["1"] = raised[st]
			}
			d.text = nil
			args := d.read(marks.Replace(step.args))
			min, max := b.Range()
			if b.Kind != "special" && (len(args) < min || max >= 0 && len(args) > max) {
				if step.want != "error" {
					wrong = append(wrong, fmt.Sprintf("does not take %d arguments", len(args)))
					definite = true
				} else {
					good++
				}
				continue
			}
			if b.Kind != "special" {
				// the name of a class that comes with the interpreter stands for it
				for k, a := range args {
					if ci := model.byName[symText(p, a)]; ci != nil {
						args[k] = asNode(ci.term)
					}
				}
			}
			in := o.argsFor(b.Fn, o.world, args...)
			if b.Kind == "special" {
				// values stand for forms that evaluate to them
				var l []*Term
				for k, a := range args {
					if strings.HasPrefix(step.op, "raw:") {
						l = append(l, a)
						continue
					}
					if symText(p, a) != "" && k == 0 || a.op == "mki" && types.Identical(a.typ, types.NewPointer(d.s.consT())) {
						a = d.s.list(d.s.sym("quote"), a)
					}
					l = append(l, a)
				}
				in = o.argsFor(b.Fn, o.world, d.s.list(l...))
			}
			if nowhere {
				in = o.argsFor(b.Fn, tNil, args...)
			}
			before := make([]string, len(args))
			for k, a := range args {
				before[k] = d.show(e, st, a)
			}
			for _, x := range e.Run(b.Fn, in, nil, st) {
				r.ob(1)
				n := len(wrong)
				switch {
				case x.Panic:
					wrong = append(wrong, "crashes")
				case failed(e, x):
					if er := unwrapTerm(x.Res[len(x.Res)-1]); strings.Contains(er.String(), "pm:Err") {
						continue
					}
					if conditions && step.want == "condition" {
						er := unwrapTerm(x.Res[len(x.Res)-1])
						if er.op != "mki" || !p.implementsNode(er.typ) {
							wrong = append(wrong, "ends in an error that is no condition")
							if er.op != "mki" && er.op != "glob" && !strings.HasPrefix(er.label, "newerr") {
								x.St.mon["opaque"] = "the error"
							}
						} else {
							raised[x.St] = er
							next = append(next, x.St)
						}
					} else if step.want != "error" {
						wrong = append(wrong, "ends in an error")
					}
				default:
					got := d.show(e, x.St, x.Res[0])
					switch {
					case strings.HasPrefix(step.op, "raw:"):
						// there may be something of that name
						good++
						continue
					case step.want == "error" || conditions && step.want == "condition":
						wrong = append(wrong, fmt.Sprintf("returns %s, and there is no error", got))
					case strings.HasPrefix(step.want, "="):
						if x.Res[0] != d.made[step.want[1:]] && got != d.show(e, x.St, d.made[step.want[1:]]) {
							wrong = append(wrong, fmt.Sprintf("returns %s", got))
						}
					case step.want != "" && got != step.want:
						wrong = append(wrong, fmt.Sprintf("returns %s, not %s", got, step.want))
					}
					for k, a := range args {
						if after := d.show(e, x.St, a); after != before[k] && first != a {
							wrong = append(wrong, fmt.Sprintf("leaves its argument %s as %s", before[k], after))
						}
					}
					next = append(next, x.St)
					raised[x.St] = raised[st]
					if i == 0 {
						first = x.Res[0]
					}
				}
				if len(wrong) == n {
					good++
				} else if x.St.mon["opaque"] == "" {
					definite = true
				}
			}
		}
		if len(wrong) > 0 && !definite {
			// what is wrong comes from library functions that are not followed
			undecided = true
			r.sample("undecided: %s: %s", c, wrong[0])
			break
		}
		for _, w := range uniqStrings(wrong) {
			if len(c) > 1 {
				w = fmt.Sprintf("step %d %s", i+1, w)
			}
			bad = append(bad, w)
		}
		if good == 0 && len(wrong) == 0 {
			bad = append(bad, "has no way out")
		}
		states = next
		if len(bad) > 0 || len(states) == 0 {
			break
		}
	}
	if undecided {
		r.count("undecided", 1)
	}
	r.engine(e)
	return
}

const textList = `
(string-append) -> ""
(string-append "ab") -> "ab"
(string-append "ab" "c" "" "de") -> "abcde"
(string-append "あ" "b") -> "あb"
(string-append "a" #\b) -> error
(string-append "a" 1) -> error
(string-append A "a") -> error
(create-string 3 #\x) -> "xxx"
(create-string 2 #\あ) -> "ああ"
(create-string 0 #\x) -> ""
(create-string 0) -> ""
(create-string -1 #\x) -> error
(create-string "a" #\x) -> error
(create-string 2 "x") -> error
(length "") -> 0
(length "abc") -> 3
(length "aあb") -> 3
(elt "abc" 0) -> #\a
(elt "abc" 2) -> #\c
(elt "aあb" 1) -> #\あ
(elt "aあb" 2) -> #\b
(elt "abc" -1) -> error
(elt ("abc" "de") 1 0) -> #\d
(subseq "abcd" 1 3) -> "bc"
(subseq "abcd" 0 4) -> "abcd"
(subseq "abcd" 2 2) -> ""
(subseq "abcd" 4 4) -> ""
(subseq "aあいb" 1 3) -> "あい"
(subseq "abcd" 1 5) -> error
(subseq "abcd" -1 2) -> error
(subseq "abcd" 3 2) -> error
(subseq "abcd" 0 -1) -> error
(subseq (1 2 3) 0 4) -> error
(subseq (1 2 3) -1 2) -> error
(subseq (1 2 3) 2 1) -> error
(subseq (1 2 3) 1 3) -> (2 3)
(subseq nil 0 0) -> nil
(subseq nil 0 1) -> error
(subseq #(1 2 3) 0 2) -> #(1 2)
(subseq #(1 2 3) 1 3) -> #(2 3)
(subseq #(1 2 3) 2 2) -> #()
(subseq #(1 2 3) 1 4) -> error
(subseq #(1 2 3) -1 1) -> error
(subseq #(1 2 3) 2 1) -> error
(subseq A 0 0) -> error
(subseq "abc" A 1) -> error
(subseq "abc" 0 1.0) -> error
(string-index "c" "abcabc") -> 2
(string-index "bc" "abcabc") -> 1
(string-index "bc" "abcabc" 1) -> 1
(string-index "bc" "abcabc" 2) -> 4
(string-index "bc" "abcabc" 5) -> nil
(string-index "bc" "abcabc" 6) -> nil
(string-index "x" "abc") -> nil
(string-index "abcd" "abc") -> nil
(string-index "" "abc") -> 0
(string-index "" "abc" 2) -> 2
(string-index "" "") -> 0
(string-index "b" "あいb") -> 2
(string-index "い" "あいあい") -> 1
(string-index "い" "あいあい" 2) -> 3
(string-index "b" "abc" 4) -> error
(string-index "b" "abc" -1) -> error
(string-index "b" "abc" "x") -> error
(string-index "b" #\b) -> error
(string-index #\b "abc") -> error
(string-index "b" "ああ" 3) -> error
(string-index "あ" "ああ" 2) -> nil
(string-index "aab" "aaab") -> 1
(string-index "b") -> error
(string-index "b" "abc" 0 1) -> error
(char-index #\b "abcb") -> 1
(char-index #\b "abcb" 1) -> 1
(char-index #\b "abcb" 2) -> 3
(char-index #\b "abcb" 4) -> nil
(char-index #\x "abc") -> nil
(char-index #\B "abc") -> nil
(char-index #\あ "xいあ") -> 2
(char-index #\い "いあい" 1) -> 2
(char-index #\a "") -> nil
(char-index #\b "abc" 4) -> error
(char-index #\b "abc" -1) -> error
(char-index #\い "ああ" 3) -> error
(char-index #\a "ああ" 2) -> nil
(char-index #\b "abc" 0 1) -> error
(char-index "b" "abc") -> error
(char-index #\b (1)) -> error
(convert 5 <integer>) -> 5
(convert 65 <character>) -> #\A
(convert 12354 <character>) -> #\あ
(convert -1 <character>) -> error
(convert 4294967361 <character>) -> error
(convert 3 <float>) -> 3.0
(convert -3 <float>) -> -3.0
(convert 120 <string>) -> "120"
(convert -7 <string>) -> "-7"
(convert 1 <symbol>) -> error
(convert 1 <list>) -> error
(convert 1 <general-vector>) -> error
(convert 1.5 <float>) -> 1.5
(convert 1.5 <character>) -> error
(convert 1.5 <list>) -> error
(convert 1.5 <symbol>) -> error
(convert 1.5 <general-vector>) -> error
(convert BIG <integer>) -> BIG
(convert BIG <string>) -> "<BIG>"
(convert BIG <character>) -> error
(convert BIG <list>) -> error
(convert BIG <symbol>) -> error
(convert #\A <integer>) -> 65
(convert #\あ <integer>) -> 12354
(convert #\A <character>) -> #\A
(convert #\a <symbol>) -> a
(convert #\a <float>) -> error
(convert #\a <list>) -> error
(convert #\a <general-vector>) -> error
(convert "12" <integer>) -> 12
(convert "-12" <integer>) -> -12
(convert "012" <integer>) -> 12
(convert "0x1F" <integer>) -> error
(convert "x" <integer>) -> error
(convert "1x" <integer>) -> error
(convert "" <integer>) -> error
(convert "1.5" <integer>) -> error
(convert "1.5" <float>) -> 1.5
(convert "2" <float>) -> 2.0
(convert "x" <float>) -> error
(convert "1.5x" <float>) -> error
(convert "abc" <string>) -> "abc"
(convert "abc" <symbol>) -> abc
(convert "abc" <list>) -> (#\a #\b #\c)
(convert "aあ" <list>) -> (#\a #\あ)
(convert "" <list>) -> nil
(convert "abc" <general-vector>) -> #(#\a #\b #\c)
(convert "" <general-vector>) -> #()
(convert "aあい" <general-vector>) -> #(#\a #\あ #\い)
(convert "abc" <character>) -> error
(convert "a" <character>) -> error
(convert foo <symbol>) -> foo
(convert foo <string>) -> "foo"
(convert foo <integer>) -> error
(convert foo <float>) -> error
(convert foo <character>) -> error
(convert foo <list>) -> error
(convert foo <general-vector>) -> error
(convert (1 2) <list>) -> (1 2)
(convert (1 2 (3)) <general-vector>) -> #(1 2 (3))
(convert (1) <general-vector>) -> #(1)
(convert (1 nil 2) <general-vector>) -> #(1 nil 2)
(convert (1 2 . 3) <general-vector>) -> error
(convert (1 . 2) <general-vector>) -> error
(convert (1 2) <integer>) -> error
(convert (1 2) <float>) -> error
(convert (1 2) <character>) -> error
(convert (1 2) <symbol>) -> error
(convert (1 2) <string>) -> error
(convert #(1 2 (3)) <list>) -> (1 2 (3))
(convert #() <list>) -> nil
(convert #(1 2) <general-vector>) -> #(1 2)
(convert #(1 2) <string>) -> error
(convert #(1 2) <integer>) -> error
(convert #(1 2) <symbol>) -> error
(convert #2x2:(1 2 3 4) <list>) -> error
(convert nil <list>) -> nil
(convert nil <general-vector>) -> #()
(convert nil <symbol>) -> nil
(convert nil <integer>) -> error
(convert 1 foo) -> error
(convert 1) -> error
(convert 1 <integer> 2) -> error
(string= "abc" "abc") -> t
(string= "abc" "abd") -> nil
(string= "abc" "ab") -> nil
(string= "" "") -> t
(string= "a" "A") -> nil
(string/= "abc" "abc") -> nil
(string/= "abc" "ab") -> t
(string< "abc" "abd") -> t
(string< "abc" "abc") -> nil
(string< "ab" "abc") -> t
(string< "abc" "ab") -> nil
(string< "B" "a") -> t
(string<= "abc" "abc") -> t
(string<= "abd" "abc") -> nil
(string<= "ab" "abc") -> t
(string> "abd" "abc") -> t
(string> "abc" "abc") -> nil
(string> "b" "abc") -> t
(string> "ab" "abc") -> nil
(string>= "abc" "abc") -> t
(string>= "abc" "abd") -> nil
(string>= "abc" "ab") -> t
(string/= "ab" "abc") -> t
(string/= "" "") -> nil
(string< "" "a") -> t
(string< "a" "") -> nil
(string< "abd" "abc") -> nil
(string< "あ" "い") -> t
(string<= "" "") -> t
(string<= "abc" "ab") -> nil
(string> "abc" "abd") -> nil
(string> "abc" "ab") -> t
(string>= "ab" "abc") -> nil
(string>= "abd" "abc") -> t
(string= "あ" "あ") -> t
(string= "あ" "い") -> nil
(string= "a" 1) -> error
(string= 1 "a") -> error
(string/= "a" 1) -> error
(string< "a" #\b) -> error
(string< a "b") -> error
(string<= "a" 1) -> error
(string> "a" 1) -> error
(string>= 1 "a") -> error
(equal "ab" "ab") -> t
(equal "ab" "Ab") -> nil
(equal "ab" "abc") -> nil
(equal "a" a) -> nil
(equal "a" #\a) -> nil
(equal ("a" #\b) ("a" #\b)) -> t
(equal ("a" #\b) ("a" #\c)) -> nil
(eql #\a #\a) -> t
(eql #\a #\A) -> nil
(eql #\a 97) -> nil
(char= #\a #\a) -> t
(char= #\a #\b) -> nil
(char= #\a #\A) -> nil
(char/= #\a #\b) -> t
(char/= #\a #\a) -> nil
(char< #\a #\b) -> t
(char< #\a #\a) -> nil
(char< #\B #\a) -> t
(char< #\b #\a) -> nil
(char<= #\a #\a) -> t
(char<= #\b #\a) -> nil
(char> #\b #\a) -> t
(char> #\a #\a) -> nil
(char>= #\a #\a) -> t
(char>= #\a #\b) -> nil
(char= #\a "a") -> error
(char< 1 #\a) -> error
(assure <integer> 3) -> 3
(assure <string> "a") -> "a"
(assure <list> x=(1 2)) -> =x
(assure <symbol> a) -> a
(assure <character> #\a) -> #\a
(assure <integer> "a") -> error
(assure <string> a) -> error
(assure <string> #\a) -> error
(assure <float> 1) -> error
(assure <list> 3) -> error
(assure A 3) -> error
(assure <integer> nil) -> error
(assure <list> nil) -> nil
(assure <symbol> nil) -> nil
(assure <symbol> "a") -> error
(parse-number 12) -> error
(stringp "a") -> t
(stringp #\a) -> nil
(stringp a) -> nil
(characterp #\a) -> t
(characterp "a") -> nil
(make-hash-table) ; (hash-table-count $) -> 0
(make-hash-table) ; (gethash A $) -> nil
(make-hash-table) ; (set-gethash 1 A $) -> 1 ; (gethash A $) -> 1 ; (gethash B $) -> nil ; (hash-table-count $) -> 1
(make-hash-table) ; (set-gethash 1 A $) -> 1 ; (set-gethash 2 B $) -> 2 ; (gethash A $) -> 1 ; (gethash B $) -> 2 ; (hash-table-count $) -> 2
(make-hash-table) ; (set-gethash 1 A $) -> 1 ; (set-gethash 2 A $) -> 2 ; (gethash A $) -> 2 ; (hash-table-count $) -> 1
(make-hash-table) ; (set-gethash 1 A $) -> 1 ; (set-gethash 2 B $) -> 2 ; (remhash A $) ; (gethash A $) -> nil ; (gethash B $) -> 2 ; (hash-table-count $) -> 1
(make-hash-table) ; (set-gethash 1 A $) -> 1 ; (remhash B $) ; (gethash A $) -> 1 ; (hash-table-count $) -> 1
(make-hash-table) ; (set-gethash 1 A $) ; (set-gethash 2 B $) ; (clrhash $) ; (hash-table-count $) -> 0 ; (gethash A $) -> nil ; (gethash B $) -> nil ; (set-gethash 3 A $) -> 3 ; (gethash A $) -> 3
(make-hash-table) ; (set-gethash 1 "a" $) ; (set-gethash 2 a $) ; (set-gethash 3 #\a $) ; (set-gethash 4 97 $) ; (set-gethash 5 97.0 $) ; (gethash "a" $) -> 1 ; (gethash a $) -> 2 ; (gethash #\a $) -> 3 ; (gethash 97 $) -> 4 ; (gethash 97.0 $) -> 5 ; (hash-table-count $) -> 5
(make-hash-table) ; (set-gethash (1 2) A $) -> (1 2) ; (gethash A $) -> (1 2)
(make-hash-table) ; (set-gethash nil A $) -> nil ; (gethash A $) -> nil ; (hash-table-count $) -> 1
(make-hash-table) ; (set-gethash 1 (A) $) -> error
(make-hash-table) ; (gethash (A) $) -> error
(make-hash-table) ; (remhash (A) $) -> error
(make-hash-table) ; (gethash #(1) $) -> error
(gethash A B) -> error
(set-gethash 1 A (B)) -> error
(remhash A nil) -> error
(hash-table-count A) -> error
(clrhash (A)) -> error
`

func checkC21(p *Prog, r *Report) {
	for _, c := range textCases(textList) {
		r.count("cases", 1)
		where := "-"
		if f := p.Builtin(c[len(c)-1].op); f != nil && f.Fn != nil {
			where = p.pos(f.Fn.Pos())
		}
		for i, b := range textRun(p, r, c) {
			r.add(fmt.Sprintf("%s/%d", c, i), where, "%s %s", c, b)
		}
	}
	r.floor("cases", 200)
}

var _ ssa.Value
