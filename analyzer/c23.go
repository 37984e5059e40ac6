package main

import (
	"fmt"
	"go/types"
	"strings"
)

func (p *Prog) implementsNode(t types.Type) bool {
	it := p.interfaceNamed("Node")
	return it != nil && t != nil && types.Implements(t, it)
}

// conditionList has calls that fail, and what the condition has: of a domain
// error the object and the class that was expected (* for any), of a division
// the operands, of a parse error the text and the class, of an undefined entity its
// name and name space.
const conditionList = `
(car 1) => domain 1 <cons>
(car "a") => domain "a" <cons>
(cdr A) => domain A <cons>
(cdr #(1)) => domain #(1) <cons>
(set-car 1 A) => domain A <cons>
(set-cdr 2 A) => domain A <cons>
(length 1) => domain 1 *
(length A) => domain A *
(elt "abc" A) => domain A <integer>
(elt (1 2) 1.5) => domain 1.5 <integer>
(aref 1 0) => domain 1 <array>
(aref #(1 2) A) => domain A <integer>
(set-aref 9 #(1 2) "x") => domain "x" <integer>
(array-dimensions 1) => domain 1 <array>
(create-array (A)) => domain A <integer>
(create-array (2 -1)) => domain -1 <integer>
(+ 1 A) => domain A *
(+ A 1) => domain A *
(+ 1 2 "x") => domain "x" *
(- 1 A) => domain A *
(- A) => domain A *
(* 2 #\a) => domain #\a *
(* 1.5 A) => domain A *
(/ A 2) => domain A *
(/ 2 "x") => domain "x" *
(< 1 A) => domain A *
(> A 1) => domain A *
(> 1 A) => domain A *
(<= 1 A) => domain A *
(<= A 1) => domain A *
(>= 1 A) => domain A *
(>= A 1) => domain A *
(- A 1) => domain A *
(* A 2 3) => domain A *
(< A 1) => domain A *
(string-append "a" "b" 3) => domain 3 <string>
(string-append A "a") => domain A <string>
(string< "a" 1) => domain 1 <string>
(string< 2 "b") => domain 2 <string>
(string= A "a") => domain A <string>
(string>= "a" #\a) => domain #\a <string>
(char< #\a "b") => domain "b" <character>
(char= 1 #\a) => domain 1 <character>
(create-string "a") => domain "a" <integer>
(create-string 2 "x") => domain "x" <character>
(create-string -1 #\x) => domain -1 *
(char-index "a" "abc") => domain "a" <character>
(char-index #\a A) => domain A <string>
(string-index 1 "abc") => domain 1 <string>
(string-index "a" 2) => domain 2 <string>
(string-index "a" "b" A) => domain A <integer>
(subseq "abc" A 1) => domain A <integer>
(subseq "abc" 0 "x") => domain "x" <integer>
(raw:setq 1 2) => domain 1 <symbol>
(raw:function 1) => domain 1 <symbol>
(raw:dynamic 1) => domain 1 <symbol>
(raw:defun 1 ()) => domain 1 <symbol>
(raw:defmacro 1 ()) => domain 1 <symbol>
(raw:defglobal 1 2) => domain 1 <symbol>
(raw:defconstant 1 2) => domain 1 <symbol>
(raw:defdynamic 1 2) => domain 1 <symbol>
(raw:return-from 1 2) => domain 1 <symbol>
(raw:go 1) => domain 1 <symbol>
(raw:let ((1 2)) 3) => domain 1 <symbol>
(raw:let* ((1 2)) 3) => domain 1 <symbol>
(raw:flet ((1 () 2)) 3) => domain 1 <symbol>
(raw:labels ((1 () 2)) 3) => domain 1 <symbol>
(raw:lambda (1) 2) => domain 1 <symbol>
(raw:dynamic-let ((1 2)) 3) => domain 1 <symbol>
(raw:block 1 2) => domain 1 <symbol>
(raw:defgeneric 1 (A)) => domain 1 <symbol>
(raw:defclass 1 () ()) => domain 1 <symbol>
(set-car 1 nil) => domain nil <cons>
(elt #(1 2) "x") => domain "x" <integer>
(rem A 2) => domain A *
(rem 2 "x") => domain "x" *
(mod A 2) => domain A *
(mod 5 "x") => domain "x" *
(mod 1.5 A) => domain A *
(rem A 1.5) => domain A *
(- 1 2 A) => domain A *
(* 3 2 "x") => domain "x" *
(char<= #\a 1) => domain 1 <character>
(char>= A #\a) => domain A <character>
(char/= #\a "a") => domain "a" <character>
(string/= "a" A) => domain A <string>
(string<= A "a") => domain A <string>
(string> "a" 1) => domain 1 <string>
(mapcan 1 (1 2)) => domain 1 <function>
(mapcon 1 (1 2)) => domain 1 <function>
(mapl 1 (1 2)) => domain 1 <function>
(create-list A 1) => domain A <integer>
(hash-table-count 1) => domain 1 <hashtable>
(parse-number A) => domain A <string>
(parse-number 1) => domain 1 <string>
(create-string-input-stream 1) => domain 1 <string>
(gethash A 1) => domain 1 <hashtable>
(remhash A 1) => domain 1 <hashtable>
(clrhash A) => domain A <hashtable>
(hash-table-count "x") => domain "x" <hashtable>
(set-gethash 1 A 2) => domain 2 <hashtable>
(funcall 1) => domain 1 <function>
(apply "x" nil) => domain "x" <function>
(mapcar 1 (1 2)) => domain 1 <function>
(mapc "x" (1 2)) => domain "x" <function>
(maplist 1 (1 2)) => domain 1 <function>
(nreverse 1) => domain 1 *
(member A 1) => domain 1 <list>
(assure <integer> "a") => domain "a" <integer>
(assure <string> 5) => domain 5 <string>
(assure <list> 1.5) => domain 1.5 <list>
(sqrt A) => domain A *
(sqrt -1) => domain -1 *
(floor "a") => domain "a" *
(round A) => domain A *
(convert "a" <integer>) => parse "a" <integer>
(convert "1x" <integer>) => parse "1x" <integer>
(convert "" <integer>) => parse "" <integer>
(convert "y" <float>) => parse "y" <float>
(convert -1 <character>) => domain -1 <character>
(convert 1114112 <character>) => domain 1114112 <character>
(parse-number "abc") => parse "abc" <number>
(parse-number "") => parse "" <number>
(parse-number "12a") => parse "12a" <number>
(mod 7 0) => zero (7 0)
(rem -7 0) => zero (-7 0)
(/ 7 0) => zero (7 0)
(/ 1.5 0) => zero (1.5 0)
(/ 8 2 0) => zero (4 0)
(raw:dynamic nosuch) => undefined nosuch variable <unbound-variable>
(nowhere:GetFunc nosuch) => undefined nosuch function <undefined-function>
(nowhere:Get nosuch) => undefined nosuch variable <unbound-variable>
(nowhere:Set nosuch 1) => undefined nosuch variable <unbound-variable>
(/ 7 0.0) => zero (7 0.0)
(/ 1.5 0.0) => zero (1.5 0.0)
(file-length 1 8) => domain 1 <string>
(probe-file 1) => domain 1 <string>
(open-input-file A) => domain A <string>
(create 1) => domain 1 *
(domain-error-expected-class A) => domain A <domain-error>
(undefined-entity-name 1) => domain 1 <undefined-entity>
(undefined-entity-namespace A) => domain A <undefined-entity>
(arithmetic-error-operands 1) => domain 1 <arithmetic-error>
(arithmetic-error-operation A) => domain A <arithmetic-error>
(parse-error-string 1) => domain 1 <parse-error>
(parse-error-expected-class A) => domain A <parse-error>
`

// conditionSteps are the calls that look into the condition.
func conditionSteps(call, what string) string {
	f := strings.Fields(what)
	rest := strings.TrimSpace(strings.TrimPrefix(what, f[0]))
	i := strings.LastIndexByte(rest, ' ')
	steps := ""
	look := func(fn, want string) {
		if want != "*" {
			steps += fmt.Sprintf(" ; (%s !) -> %s", fn, want)
		}
	}
	switch f[0] {
	case "domain":
		look("domain-error-object", rest[:i])
		look("domain-error-expected-class", rest[i+1:])
		look("class-of", "<domain-error>")
	case "parse":
		look("parse-error-string", rest[:i])
		look("parse-error-expected-class", rest[i+1:])
		look("class-of", "<parse-error>")
	case "zero":
		look("arithmetic-error-operands", rest)
		look("class-of", "<division-by-zero>")
	case "undefined":
		look("undefined-entity-name", f[1])
		look("undefined-entity-namespace", f[2])
		look("class-of", f[3])
	}
	return call + " -> condition" + steps
}

func checkC23(p *Prog, r *Report) {
	for _, l := range strings.Split(conditionList, "\n") {
		call, what, ok := strings.Cut(l, " => ")
		if !ok {
			continue
		}
		c := textCases(conditionSteps(call, what))[0]
		r.count("failing calls", 1)
		r.count("conditions looked into", len(c)-1)
		where := "-"
		if b := p.Builtin(strings.TrimPrefix(c[0].op, "raw:")); b != nil && b.Fn != nil {
			where = p.pos(b.Fn.Pos())
		}
		for i, b := range textRunFull(p, r, c, true) {
			r.add(fmt.Sprintf("%s/%d", call, i), where, "%s %s", call, b)
		}
	}
	r.floor("failing calls", 120)
}
