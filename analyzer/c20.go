package main

import (
	"fmt"
	"sort"
	"strings"
)

// libCases: a call of a library operator and what it means. F1.. and B1.. are
// forms of the user, ?x his variables.
//
//	call | what the forms give | value | evaluations in order | variables afterwards
//
// A value "-" is not judged, "error" is an error. An evaluation is written with
// the user's variables that the operator binds around it.
const libCases = `
(when F1 B1 B2) | F1=nil | nil | F1
(when F1 B1 B2) | F1=v | B2 | F1 B1 B2
(when F1) | F1=v | nil | F1
(unless F1 B1 B2) | F1=nil | B2 | F1 B1 B2
(unless F1 B1 B2) | F1=v | nil | F1
(unless F1) | F1=nil | nil | F1
(prog1 F1 B1 B2) | | F1 | F1 B1 B2
(prog1 F1) | | F1 | F1
(prog2 F1 F2 B1 B2) | | F2 | F1 F2 B1 B2
(prog2 F1 F2) | | F2 | F1 F2
(dolist (?x F1) B1 B2) | F1=(a b c) | - | F1 B1{x=a} B2{x=a} B1{x=b} B2{x=b} B1{x=c} B2{x=c}
(dolist (?x F1) B1) | F1=(nil 0) | - | F1 B1{x=nil} B1{x=0}
(dolist (?x F1) B1) | F1=nil | nil | F1
(dolist (?x F1) (setq ?x 7) B1) | F1=(a b) | - | F1 B1{x=7} B1{x=7}
(dolist (?x F1) B1 (return F2)) | F1=(a b) | F2 | F1 B1{x=a} F2{x=a}
(dotimes (?i F1) B1 B2) | F1=3 | - | F1 B1{i=0} B2{i=0} B1{i=1} B2{i=1} B1{i=2} B2{i=2}
(dotimes (?i F1) B1) | F1=0 | nil | F1
(dotimes (?i F1) B1) | F1=-1 | nil | F1
(for ((?x F1 F2) (?y F3 F4)) (B1 B2 B3) B4 B5) | F2=x1,x2; F4=y1,y2; F1=x0; F3=y0; B1=nil,nil,v | B3 | F1 F3 B1{x=x0,y=y0} B4{x=x0,y=y0} B5{x=x0,y=y0} F2{x=x0,y=y0} F4{x=x0,y=y0} B1{x=x1,y=y1} B4{x=x1,y=y1} B5{x=x1,y=y1} F2{x=x1,y=y1} F4{x=x1,y=y1} B1{x=x2,y=y2} B2{x=x2,y=y2} B3{x=x2,y=y2}
(for ((?x F1 F2) (?y F3) (?z F4 F5)) (B1 B2)) | F1=x0; F2=x1; F3=y0; F4=z0; F5=z1; B1=nil,v | B2 | F1 F3 F4 B1{x=x0,y=y0,z=z0} F2{x=x0,y=y0,z=z0} F5{x=x0,y=y0,z=z0} B1{x=x1,y=y0,z=z1} B2{x=x1,y=y0,z=z1}
(for ((?x F1)) (B1 B2) B3) | F1=x0; B1=nil,v | B2 | F1 B1{x=x0} B3{x=x0} B1{x=x0} B2{x=x0}
(for ((?x F1 F2)) (B1) B3) | F1=x0; B1=v | nil | F1 B1{x=x0}
(for () (B1 B2) B3) | B1=nil,v | B2 | B1 B3 B1 B2
(case-using F1 F2 ((1 2) B1 B2) ((3) B3) (t B4)) | F1=@p; F2=key; p=nil,v | B2 | F1 F2 @p(key,1) @p(key,2) B1 B2
(case-using F1 F2 ((1 2) B1 B2) ((3) B3) (t B4)) | F1=@p; F2=key; p=nil,nil,v | B3 | F1 F2 @p(key,1) @p(key,2) @p(key,3) B3
(case-using F1 F2 ((1 2) B1 B2) ((3) B3) (t B4)) | F1=@p; F2=key; p=nil | B4 | F1 F2 @p(key,1) @p(key,2) @p(key,3) B4
(case-using F1 F2 ((1) B1)) | F1=@p; F2=key; p=nil | nil | F1 F2 @p(key,1)
(case-using F1 F2 ((a (b c)) B1) ((d) B2)) | F1=@p; F2=key; p=nil,v | B1 | F1 F2 @p(key,a) @p(key,(b_c)) B1
(incf ?v) | ?v=5 | 6 | | ?v=6
(incf ?v F1) | ?v=5; F1=3 | 8 | F1 | ?v=8
(decf ?v) | ?v=5 | 4 | | ?v=4
(decf ?v F1) | ?v=5; F1=3 | 2 | F1 | ?v=2
(incf (car ?l)) | ?l=(1 2) | 2 | | ?l=(2 2)
(decf (car ?l) F1) | ?l=(1 2); F1=3 | -2 | F1 | ?l=(-2 2)
(setf ?v F1) | ?v=5 | F1 | F1 | ?v=F1
(setf (car F1) F2) | F1=?l; ?l=(a b c) | F2 | F1 F2 ~ | ?l=(F2 b c)
(setf (first F1) F2) | F1=?l; ?l=(a b c) | F2 | F1 F2 ~ | ?l=(F2 b c)
(setf (cdr F1) F2) | F1=?l; ?l=(a b c) | F2 | F1 F2 ~ | ?l=(a . F2)
(setf (cadr F1) F2) | F1=?l; ?l=(a b c d e) | F2 | F1 F2 ~ | ?l=(a F2 c d e)
(setf (second F1) F2) | F1=?l; ?l=(a b c d e) | F2 | F1 F2 ~ | ?l=(a F2 c d e)
(setf (caddr F1) F2) | F1=?l; ?l=(a b c d e) | F2 | F1 F2 ~ | ?l=(a b F2 d e)
(setf (third F1) F2) | F1=?l; ?l=(a b c d e) | F2 | F1 F2 ~ | ?l=(a b F2 d e)
(setf (cadddr F1) F2) | F1=?l; ?l=(a b c d e) | F2 | F1 F2 ~ | ?l=(a b c F2 e)
(setf (cddr F1) F2) | F1=?l; ?l=(a b c d e) | F2 | F1 F2 ~ | ?l=(a b . F2)
(setf (cdddr F1) F2) | F1=?l; ?l=(a b c d e) | F2 | F1 F2 ~ | ?l=(a b c . F2)
(setf (nth F1 F3) F2) | F1=0; F3=?l; ?l=(a b c) | F2 | F1 F2 F3 ~ | ?l=(F2 b c)
(setf (nth F1 F3) F2) | F1=2; F3=?l; ?l=(a b c) | F2 | F1 F2 F3 ~ | ?l=(a b F2)
(setf (nthcdr F1 F3) F2) | F1=2; F3=?l; ?l=(a b c) | F2 | F1 F2 F3 ~ | ?l=(a b . F2)
(setf (nthcdr F1 F3) F2) | F1=1; F3=?l; ?l=(a b c) | F2 | F1 F2 F3 ~ | ?l=(a . F2)
(setf (elt F1 F3) F2) | F1=?l; F3=0; ?l=(a b c) | F2 | F1 F2 F3 ~ | ?l=(F2 b c)
(setf (elt F1 F3) F2) | F1=?l; F3=2; ?l=(a b c) | F2 | F1 F2 F3 ~ | ?l=(a b F2)
(setf (elt F1 F3) F2) | F1=?l; F3=1; ?l=#(a b c) | F2 | F1 F2 F3 ~ | ?l=#(a F2 c)
(setf (elt ?l F3) F2) | F3=1; ?l=(a b c) | F2 | F2 F3 ~ | ?l=(a F2 c)
(setf (elt ?l F3) F2) | F3=1; ?l=#(a b c) | F2 | F2 F3 ~ | ?l=#(a F2 c)
(setf (elt ?l F3) F2) | F3=1; F2=#\x; ?l="abc" | #\x | F2 F3 ~ | ?l="axc"
(setf (elt ?l F3) F2) | F3=0; F2=#\x; ?l="abc" | #\x | F2 F3 ~ | ?l="xbc"
(setf (elt ?l F3) F2) | F3=2; F2=#\x; ?l="abc" | #\x | F2 F3 ~ | ?l="abx"
(setf (elt (car ?l) F3) F2) | F3=1; ?l=((a b c)) | F2 | F2 F3 ~ | ?l=((a F2 c))
(set-elt F1 ?l F2) | F2=1; ?l=(a b c) | F1 | F1 F2 ~ | ?l=(a F1 c)
(setf (aref F1 F3) F2) | F1=?l; F3=1; ?l=#(a b c) | F2 | F1 F2 F3 ~ | ?l=#(a F2 c)
(setf (subseq ?l F1 F3) F2) | F1=1; F3=3; F2=(x y); ?l=(a b c d) | - | F1 F2 F3 ~ | ?l=(a x y d)
(setf (subseq ?l F1 F3) F2) | F1=0; F3=2; F2=(x y); ?l=(a b c d) | - | F1 F2 F3 ~ | ?l=(x y c d)
(setf (subseq ?l F1 F3) F2) | F1=1; F3=3; F2="xy"; ?l="abcd" | - | F1 F2 F3 ~ | ?l="axyd"
(setf (assoc F1 F3) F2) | F1=k; F3=?l; F2=(k 2); ?l=((j 0) (k 1) (m 5)) | (k 2) | F1 F2 F3 ~ | ?l=((j 0) (k 2) (m 5))
(setf (subseq ?l F1 F3) F2) | F1=1; F3=4; F2=(x nil y); ?l=(a b c d) | - | F1 F2 F3 ~ | ?l=(a x nil y)
(setf (subseq ?l F1 F3) F2) | F1=0; F3=2; F2=(x y); ?l=(nil nil nil) | - | F1 F2 F3 ~ | ?l=(x y nil)
(setf (car F1) F2) | F1=?l; F2=nil; ?l=(a b c) | nil | F1 F2 ~ | ?l=(nil b c)
(setf (cadr F1) F2) | F1=?l; F2=nil; ?l=(a b c) | nil | F1 F2 ~ | ?l=(a nil c)
(setf (cddr F1) F2) | F1=?l; F2=nil; ?l=(a b c) | nil | F1 F2 ~ | ?l=(a b)
(setf (nth F1 F3) F2) | F1=1; F3=?l; F2=nil; ?l=(a b c) | nil | F1 F2 F3 ~ | ?l=(a nil c)
(setf (nth F1 F3) F2) | F1=1; F3=?l; ?l=(nil nil nil) | F2 | F1 F2 F3 ~ | ?l=(nil F2 nil)
(setf (nthcdr F1 F3) F2) | F1=1; F3=?l; F2=nil; ?l=(a b c) | nil | F1 F2 F3 ~ | ?l=(a)
(setf (elt F1 F3) F2) | F1=?l; F3=1; F2=nil; ?l=(a nil c) | nil | F1 F2 F3 ~ | ?l=(a nil c)
(setf (elt F1 F3) F2) | F1=?l; F3=1; F2=nil; ?l=#(a b c) | nil | F1 F2 F3 ~ | ?l=#(a nil c)
(setf ?v F1) | ?v=5; F1=nil | nil | F1 | ?v=nil
(setf (property 's 'p) F1) | F1=nil | nil | F1
(nth F1 F2) | F1=2; F2=(nil nil c) | c | F1 F2
(nth F1 F2) | F1=1; F2=(a nil c) | nil | F1 F2
(nthcdr F1 F2) | F1=2; F2=(nil nil c) | (c) | F1 F2
(nthcdr F1 F2) | F1=1; F2=(a nil c) | (nil c) | F1 F2
(third F1) | F1=(nil nil nil d) | nil | F1
(cdddr F1) | F1=(nil nil nil d) | (d) | F1
(prog1 F1 B1) | F1=nil; B1=v | nil | F1 B1
(prog2 F1 F2 B1) | F1=nil; F2=nil; B1=v | nil | F1 F2 B1
(max F1 F2) | F1=0; F2=-1 | 0 | F1 F2
(dotimes (?i F1) B1 (setq ?i (+ ?i 1))) | F1=3 | - | F1 B1{i=0} B1{i=2}
(setf (assoc F1 F3) F2) | F1=z; F3=?l; F2=(k 2); ?l=((j 0) (k 1)) | (k 2) | F1 F2 F3 ~ | ?l=((j 0) (k 1))
(setf (dynamic ?d) F1) | | F1 | F1 dynamic_?d=F1
(setf (setq ?v F1) F2) | ?v=5 | F2 | F1 F2 ~ | ?v=F2
(setf (gethash F1 F2) F3) | F1=k; F2=h; F3=v | - | F1 F2 F3 ~ set-gethash(v,k,h)
(setf (?slot F1) F2) | F1=o; F2=v | - | F1 F2 ~ set-?slot(v,o)
(1+ F1) | F1=4 | 5 | F1
(1- F1) | F1=4 | 3 | F1
(1+ F1) | | (+ F1 1) | F1
(1- F1) | | (- F1 1) | F1
(max F1) | F1=3 | 3 | F1
(max F1 F2) | F1=3; F2=1 | 3 | F1 F2
(max F1 F2) | F1=1; F2=3 | 3 | F1 F2
(max F1 F2 F3) | F1=1; F2=2; F3=3 | 3 | F1 F2 F3
(max F1 F2 F3) | F1=1; F2=3; F3=2 | 3 | F1 F2 F3
(max F1 F2 F3) | F1=2; F2=1; F3=3 | 3 | F1 F2 F3
(max F1 F2 F3) | F1=2; F2=3; F3=1 | 3 | F1 F2 F3
(max F1 F2 F3) | F1=3; F2=1; F3=2 | 3 | F1 F2 F3
(max F1 F2 F3) | F1=3; F2=2; F3=1 | 3 | F1 F2 F3
(max F1 F2 F3) | F1=-3; F2=-2; F3=-2 | -2 | F1 F2 F3
(min F1) | F1=3 | 3 | F1
(min F1 F2) | F1=3; F2=1 | 1 | F1 F2
(min F1 F2) | F1=1; F2=3 | 1 | F1 F2
(min F1 F2 F3) | F1=1; F2=2; F3=3 | 1 | F1 F2 F3
(min F1 F2 F3) | F1=1; F2=3; F3=2 | 1 | F1 F2 F3
(min F1 F2 F3) | F1=2; F2=1; F3=3 | 1 | F1 F2 F3
(min F1 F2 F3) | F1=2; F2=3; F3=1 | 1 | F1 F2 F3
(min F1 F2 F3) | F1=3; F2=1; F3=2 | 1 | F1 F2 F3
(min F1 F2 F3) | F1=3; F2=2; F3=1 | 1 | F1 F2 F3
(min F1 F2 F3) | F1=-3; F2=-3; F3=2 | -3 | F1 F2 F3
(max) | | error |
(min) | | error |
(caar F1) | F1=((a b) c) | a | F1
(cadr F1) | F1=(a b c d e) | b | F1
(cddr F1) | F1=(a b c d e) | (c d e) | F1
(caddr F1) | F1=(a b c d e) | c | F1
(cdddr F1) | F1=(a b c d e) | (d e) | F1
(cadddr F1) | F1=(a b c d e) | d | F1
(first F1) | F1=(a b c d e) | a | F1
(second F1) | F1=(a b c d e) | b | F1
(third F1) | F1=(a b c d e) | c | F1
(rest F1) | F1=(a b c d e) | (b c d e) | F1
(cdr F1) | F1=(a b) | (b) | F1
(cddr F1) | F1=(a b) | nil | F1
(cdddr F1) | F1=(a b) | nil | F1
(cddr F1) | F1=(a b . c) | c | F1
(nth F1 F2) | F1=0; F2=(a b c) | a | F1 F2
(nth F1 F2) | F1=2; F2=(a b c) | c | F1 F2
(nthcdr F1 F2) | F1=0; F2=(a b c) | (a b c) | F1 F2
(nthcdr F1 F2) | F1=1; F2=(a b c) | (b c) | F1 F2
(nthcdr F1 F2) | F1=3; F2=(a b c) | nil | F1 F2
(nthcdr F1 F2) | F1=5; F2=(a b c) | nil | F1 F2
(nthcdr F1 F2) | F1=0; F2=nil | nil | F1 F2
(nthcdr F1 F2) | F1=2; F2=?l; ?l=(a b c) | (c) | F1 F2 | ?l=(a b c)
(error F1 F2 F3) | | - | F1 F2 F3 create(<simple-error>,format-string,F1,format-arguments,(F2_F3)) signal-condition(1,nil)
(error F1) | | - | F1 create(<simple-error>,format-string,F1,format-arguments,nil) signal-condition(1,nil)
(cerror F1 F2 F3 F4) | | - | F1 F2 F3 F4 create(<simple-error>,format-string,F2,format-arguments,(F3_F4)) create-string-output-stream() format(stream,F1,F3,F4) get-output-stream-string(stream) signal-condition(1,text)
(cerror F1 F2) | | - | F1 F2 create(<simple-error>,format-string,F2,format-arguments,nil) create-string-output-stream() format(stream,F1) get-output-stream-string(stream) signal-condition(1,text)
(set-property F1 F2 F3) (property 's 'p) | F1=1; F2=s; F3=p | 1 | F1 F2 F3
(set-property F1 F2 F3) | F1=1; F2=s; F3=p | 1 | F1 F2 F3
(set-property 1 's 'p) (set-property 2 's 'q) (set-property 3 's 'p) (property 's 'p) | | 3 |
(set-property 1 's 'p) (set-property 2 's 'q) (set-property 3 's 'p) (property 's 'q) | | 2 |
(set-property 1 's 'p) (set-property 2 'r 'p) (property 's 'p) | | 1 |
(set-property nil 's 'p) (property 's 'p) | | nil |
(set-property 1 's 'p) (set-property 2 's 'q) (remove-property 's 'p) (property 's 'q) | | 2 |
(set-property 1 's 'p) (set-property 2 'r 'p) (remove-property 's 'p) (property 'r 'p) | | 2 |
(set-property 1 's 'p) (remove-property 's 'p) (property 's 'p) | | error |
(set-property 1 's 'p) (property 's 'q) | | error |
(property 's 'p) | | error |
(set-property 1 's 'p) (remove-property 'r 'p) (property 's 'p) | | 1 |
(set-property 1 's 'p) (remove-property 's 'p) (set-property 2 's 'p) (property 's 'p) | | 2 |
(setf (property 's 'p) F1) | | F1 | F1
`

type libCase struct{ call, vals, value, events, after string }

func libCasesList() (out []libCase) {
	for _, l := range strings.Split(libCases, "\n") {
		f := strings.Split(l, "|")
		if len(f) < 4 {
			continue
		}
		for len(f) < 5 {
			f = append(f, "")
		}
		for i := range f {
			f[i] = strings.TrimSpace(f[i])
		}
		out = append(out, libCase{f[0], f[1], f[2], f[3], f[4]})
	}
	return
}

// value reads a value of the table; symbols are opaque.
func (m *lmach) value(s string) any {
	switch {
	case strings.HasPrefix(s, "@"):
		return &lopq{s}
	case s == "h" || s == "o" || s == "key" || s == "v":
		return &lopq{s}
	case strings.HasPrefix(s, "#\\"):
		return &lopq{s}
	}
	l := m.parseLib(s)
	if len(l) != 1 {
		panic(lunknown{"the value " + s})
	}
	return l[0]
}

func libRun(p *Prog, lib *llib, c libCase, used map[string]bool) (bad []string) {
	m := newMach(p, lib)
	m.used = used
	var names []string
	setup := func() {
		for _, a := range strings.Split(c.vals, ";") {
			n, v, ok := strings.Cut(strings.TrimSpace(a), "=")
			if !ok {
				continue
			}
			n = strings.TrimSpace(n)
			if strings.HasPrefix(n, "?") {
				m.root.vars[m.sy(n)] = m.value(v)
				names = append(names, n)
			}
		}
		for _, a := range strings.Split(c.vals, ";") {
			n, v, ok := strings.Cut(strings.TrimSpace(a), "=")
			if !ok || strings.HasPrefix(n, "?") {
				continue
			}
			var vs []any
			for _, x := range strings.Split(v, ",") {
				if strings.HasPrefix(x, "?") {
					vs = append(vs, m.root.vars[m.sy(x)])
				} else {
					vs = append(vs, m.value(x))
				}
			}
			if n == "p" {
				m.script["@p"] = vs
			} else {
				m.rd.user[n] = &luser{name: n, vals: vs}
			}
		}
	}
	got, where := "", ""
	var nested []string
	func() {
		defer func() {
			switch x := recover().(type) {
			case nil:
			case lfail:
				got, where = "error", x.text
			case lexit:
				got, where = "error", "an exit that nothing receives"
			case lunknown:
				got = "undecided"
				where = x.text
			default:
				panic(x)
			}
		}()
		setup()
		if t, ok := lib.text["/startup"]; ok {
			for _, f := range m.parseLib(t) {
				m.eval(f, m.root)
			}
		}
		m.events = nil
		conds, signals := 0, 0
		for n, do := range map[string]func(a []any) any{
			"create": func(a []any) any {
				conds++
				return &lopq{fmt.Sprint(conds)}
			},
			"create-string-output-stream": func(a []any) any { return &lopq{"stream"} },
			"get-output-stream-string":    func(a []any) any { return &lopq{"text"} },
			"signal-condition":            func(a []any) any { signals++; return &lopq{"resumed"} },
			"format":                      func(a []any) any { return nil },
		} {
			if p.Builtin(n) == nil {
				continue
			}
			m.loaded[n] = &lfun{name: n, do: func(m *lmach, a []any) any {
				var l []string
				for _, x := range a {
					l = append(l, strings.ReplaceAll(lshow(x), " ", "_"))
				}
				m.ev("%s(%s)", n, strings.Join(l, ","))
				return do(a)
			}}
		}
		m.loaded["set-?slot"] = &lfun{name: "set-?slot", do: func(m *lmach, a []any) any {
			m.ev("set-?slot(%s,%s)", lshow(a[0]), lshow(a[1]))
			return a[0]
		}}
		var v any
		forms := m.parse(c.call)
		for i, f := range forms {
			if i > 0 {
				nested = append([]string{}, m.events...)
			}
			v = m.eval(f, m.root)
			if signals > 0 && strings.HasPrefix(c.call, "(property") || signals > 0 && c.value == "error" {
				m.fail("signalled")
			}
		}
		got = lshow(v)
		if signals > 0 && c.value == "-" && got != "resumed" {
			bad = append(bad, fmt.Sprintf("gives %s and not what the condition is continued with", got))
		}
	}()
	_ = nested
	if got == "undecided" {
		return []string{"cannot be followed: " + where}
	}
	if c.value == "error" {
		if got != "error" {
			bad = append(bad, fmt.Sprintf("gives %s, and there is no error", got))
		}
		return
	}
	if got == "error" {
		return append(bad, "ends in an error: "+where)
	}
	if c.value != "-" && got != c.value {
		bad = append(bad, fmt.Sprintf("gives %s, not %s", got, c.value))
	}
	var evs []string
	for _, e := range m.events {
		evs = append(evs, strings.ReplaceAll(e, " ", "_"))
	}
	want := strings.Fields(c.events)
	anyOrder := 0
	for i, w := range want {
		if w == "~" {
			anyOrder = i
			want = append(append([]string{}, want[:i]...), want[i+1:]...)
			break
		}
	}
	if strings.HasPrefix(c.call, "(set-property") || strings.HasPrefix(c.call, "(property") {
		var k []string
		for _, e := range evs {
			if e[0] == 'F' {
				k = append(k, e)
			}
		}
		evs = k
	}
	a, b := append([]string{}, evs...), append([]string{}, want...)
	if anyOrder > 0 && len(a) >= anyOrder && len(b) >= anyOrder {
		sort.Strings(a[:anyOrder])
		sort.Strings(b[:anyOrder])
	}
	if strings.Join(a, " ") != strings.Join(b, " ") {
		bad = append(bad, fmt.Sprintf("evaluates %s, not %s", strings.Join(evs, " "), strings.Join(want, " ")))
	}
	for _, x := range strings.Split(c.after, ";") {
		n, v, ok := strings.Cut(strings.TrimSpace(x), "=")
		if !ok {
			continue
		}
		if g := lshow(m.root.vars[m.sy(n)]); g != v {
			bad = append(bad, fmt.Sprintf("leaves %s as %s, not %s", n, g, v))
		}
	}
	var l []string
	for n := range m.caught {
		l = append(l, n)
	}
	sort.Strings(l)
	for _, n := range l {
		bad = append(bad, fmt.Sprintf("evaluates the forms of its caller where its own variable %s is bound", n))
	}
	return
}

// ---- every name in the library means something

type libLint struct {
	p     *Prog
	lib   *llib
	r     *Report
	file  string
	m     *lmach
	funs  map[string]bool // defined in startup.lsp
	where string
	n     int
	vars  map[string]bool // global variables
}

func (l *libLint) add(key, f string, a ...any) {
	l.r.add(l.file+"/"+key, l.where, "%s: %s", l.file, fmt.Sprintf(f, a...))
}

func (l *libLint) operator(s *lsym, funs map[string]bool) {
	l.n++
	l.r.ob(1)
	n := s.name
	if funs[n] || l.funs[n] || l.p.Builtin(n) != nil {
		return
	}
	if _, ok := l.lib.text[n]; ok {
		return
	}
	l.add("operator:"+n, "the operator %s does not exist", n)
}

func with(m map[string]bool, names ...string) map[string]bool {
	out := map[string]bool{}
	for k := range m {
		out[k] = true
	}
	for _, n := range names {
		out[n] = true
	}
	return out
}

func conses(v any) (l []any) {
	for {
		c, ok := v.(*lcell)
		if !ok {
			return
		}
		l = append(l, c.car)
		v = c.cdr
	}
}

// walk visits code. In a template (tmpl > 0) only what is unquoted is code of
// this level; the rest is code of the expansion, whose variables are checked
// by another walk of it.
func (l *libLint) walk(f any, vars, funs map[string]bool) {
	switch f := f.(type) {
	case *lsym:
		n := f.name
		if n == "t" || strings.HasPrefix(n, ":") || strings.HasPrefix(n, "<") || vars[n] || l.vars[n] {
			return
		}
		l.r.ob(1)
		l.add("variable:"+n, "the variable %s is not bound", n)
	case *lcell:
		args := conses(f.cdr)
		all := func(a []any, vars map[string]bool) {
			for _, x := range a {
				l.walk(x, vars, funs)
			}
		}
		s, ok := f.car.(*lsym)
		if !ok {
			if c, ok := f.car.(*lcell); ok {
				l.walk(c, vars, funs)
			}
			all(args, vars)
			return
		}
		if !funs[s.name] {
			l.operator(s, funs)
		}
		get := func(i int) any {
			if i < len(args) {
				return args[i]
			}
			return nil
		}
		params := func(v any) (n []string) {
			for _, x := range conses(v) {
				switch x := x.(type) {
				case *lsym:
					n = append(n, x.name)
				case *lcell:
					if s, ok := x.car.(*lsym); ok {
						n = append(n, s.name)
					}
				}
			}
			return
		}
		switch s.name {
		case "quote", "class", "defclass", "go":
		case "quasiquote":
			l.template(get(0), vars, funs)
		case "lambda", "lambda-macro":
			if len(args) > 0 {
				all(args[1:], with(vars, params(args[0])...))
			}
		case "defun", "defmacro":
			if len(args) > 1 {
				all(args[2:], with(vars, params(args[1])...))
			}
		case "defmethod":
			if len(args) > 1 {
				all(args[2:], with(vars, params(args[1])...))
			}
		case "let", "let*":
			in := vars
			var names []string
			for _, b := range conses(get(0)) {
				c, ok := b.(*lcell)
				if !ok {
					names = append(names, lshow(b))
					continue
				}
				from := vars
				if s.name == "let*" {
					from = with(vars, names...)
				}
				all(conses(c.cdr), from)
				names = append(names, lshow(c.car))
			}
			in = with(vars, names...)
			if len(args) > 0 {
				all(args[1:], in)
			}
		case "flet", "labels":
			fs := with(funs, params(get(0))...)
			for _, d := range conses(get(0)) {
				c, ok := d.(*lcell)
				if !ok {
					continue
				}
				x := conses(c.cdr)
				inner := funs
				if s.name == "labels" {
					inner = fs
				}
				if len(x) > 0 {
					for _, b := range x[1:] {
						l.walk(b, with(vars, params(x[0])...), inner)
					}
				}
			}
			if len(args) > 0 {
				for _, b := range args[1:] {
					l.walk(b, vars, fs)
				}
			}
		case "function":
			if x, ok := get(0).(*lsym); ok {
				l.operator(x, funs)
			} else if c, ok := get(0).(*lcell); ok {
				l.walk(c, vars, funs)
			}
		case "block":
			all(args[min(1, len(args)):], vars)
		case "return-from":
			all(args[min(1, len(args)):], vars)
		case "dynamic", "defdynamic", "defglobal":
			all(args[min(1, len(args)):], vars)
		case "setf":
			if c, ok := get(0).(*lcell); ok {
				all(conses(c.cdr), vars)
			} else {
				all(args[:min(1, len(args))], vars)
			}
			all(args[min(1, len(args)):], vars)
		case "case":
			all(args[:min(1, len(args))], vars)
			for _, c := range args[min(1, len(args)):] {
				if c, ok := c.(*lcell); ok {
					all(conses(c.cdr), vars)
				}
			}
		case "case-using":
			all(args[:min(2, len(args))], vars)
			for _, c := range args[min(2, len(args)):] {
				if c, ok := c.(*lcell); ok {
					all(conses(c.cdr), vars)
				}
			}
		case "for":
			var names []string
			for _, b := range conses(get(0)) {
				if x := conses(b); len(x) > 0 {
					names = append(names, lshow(x[0]))
					all(x[1:min(2, len(x))], vars)
				}
			}
			in := with(vars, names...)
			for _, b := range conses(get(0)) {
				if x := conses(b); len(x) > 2 {
					all(x[2:], in)
				}
			}
			all(conses(get(1)), in)
			all(args[min(2, len(args)):], in)
		case "cond":
			for _, c := range args {
				all(conses(c), vars)
			}
		case "dolist", "dotimes":
			b := conses(get(0))
			if len(b) > 1 {
				all(b[1:], vars)
				all(args[1:], with(vars, lshow(b[0])))
			}
		default:
			all(args, vars)
		}
	}
}

// template checks the code around a template, and then the template as code:
// what is unquoted stands for anything, also for the name of a variable.
func (l *libLint) template(t any, vars, funs map[string]bool) {
	holes := 0
	var strip func(t any) any
	strip = func(t any) any {
		c, ok := t.(*lcell)
		if !ok {
			return t
		}
		if s, ok := c.car.(*lsym); ok && (s.name == "unquote" || s.name == "unquote-splicing") {
			for _, x := range conses(c.cdr) {
				l.walk(x, vars, funs)
			}
			holes++
			h := &lsym{name: ":hole" + fmt.Sprint(holes)}
			return h
		}
		return &lcell{strip(c.car), strip(c.cdr)}
	}
	x := strip(t)
	// the variables that the template itself binds are caught by libRun
	if c, ok := x.(*lcell); ok {
		l.code(c, map[string]bool{}, map[string]bool{})
	}
}

func (l *libLint) code(f any, vars, funs map[string]bool) {
	// a hole in the place of an operator, or of a binding, is anything
	var fill func(f any) any
	fill = func(f any) any {
		c, ok := f.(*lcell)
		if !ok {
			return f
		}
		if s, ok := c.car.(*lsym); ok && strings.HasPrefix(s.name, ":hole") {
			return &lcell{l.m.sy("progn"), fill(c.cdr)}
		}
		return &lcell{fill(c.car), fill(c.cdr)}
	}
	_ = fill
	c, ok := f.(*lcell)
	if !ok {
		l.walk(f, vars, funs)
		return
	}
	if s, ok := c.car.(*lsym); ok && strings.HasPrefix(s.name, ":hole") {
		for _, x := range conses(c.cdr) {
			l.code(x, vars, funs)
		}
		return
	}
	l.walk(f, vars, funs)
}

func checkC20(p *Prog, r *Report) {
	lib, err := p.loadLib()
	if err != nil {
		r.add("library", "-", "the library cannot be read: %v", err)
		return
	}
	used := map[string]bool{}
	for _, c := range libCasesList() {
		r.count("calls", 1)
		r.ob(1)
		name := strings.Fields(strings.Trim(c.call, "("))[0]
		where := lib.where[name]
		if where == "" {
			where = "startup.lsp:1"
		}
		for i, b := range libRun(p, lib, c, used) {
			r.add(fmt.Sprintf("%s/%s/%d", c.call, c.vals, i), where, "%s (%s) %s", c.call, c.vals, b)
		}
	}
	var names []string
	for n := range lib.text {
		names = append(names, n)
	}
	sort.Strings(names)
	funs := map[string]bool{}
	vars := map[string]bool{}
	m := newMach(p, lib)
	parsed := map[string][]any{}
	for _, n := range names {
		func() {
			defer func() {
				switch x := recover().(type) {
				case nil:
				case lfail:
					r.add(n+"/syntax", lib.where[n], "%s: %s", n, x.text)
				default:
					panic(x)
				}
			}()
			parsed[n] = m.parseLib(lib.text[n])
		}()
		var defs func(f any)
		defs = func(f any) {
			c, ok := f.(*lcell)
			if !ok {
				return
			}
			s, _ := c.car.(*lsym)
			l := conses(c.cdr)
			if s != nil && (s.name == "defun" || s.name == "defmacro" || s.name == "defgeneric") && len(l) > 0 {
				funs[lshow(l[0])] = true
			}
			if s != nil && (s.name == "defglobal" || s.name == "defdynamic") && len(l) > 0 {
				vars[lshow(l[0])] = true
			}
			if s != nil && s.name == "defclass" {
				for _, w := range strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(lshow(f))) {
					if strings.Contains(w, "-") {
						funs[w] = true // accessors
					}
				}
			}
			for ; c != nil; c, _ = c.cdr.(*lcell) {
				defs(c.car)
			}
		}
		if n == "/startup" {
			for _, f := range parsed[n] {
				defs(f)
			}
		}
	}
	for _, n := range names {
		r.count("files", 1)
		l := &libLint{p: p, lib: lib, r: r, file: strings.TrimPrefix(n, "/"), m: m, funs: funs, where: lib.where[n], vars: vars}
		if n == "/startup" {
			l.where = "startup.lsp:1"
		} else if len(parsed[n]) != 1 {
			r.add(n+"/one", lib.where[n], "%s has %d expressions, only the value of one is used", n, len(parsed[n]))
		}
		for _, f := range parsed[n] {
			l.walk(f, map[string]bool{}, map[string]bool{})
		}
		r.count("operators resolved", l.n)
		if n != "/startup" && !used[n] {
			r.count("library functions without a case", 1)
			r.sample("no case: %s", n)
		}
	}
	r.floor("calls", 100)
	r.floor("files", 30)
}
