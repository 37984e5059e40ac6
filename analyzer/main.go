package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
)

type check struct {
	rule string
	run  func(*Prog, *Report)
}

var checks = map[string]check{
	"C01": {"every path through the implementation of (unwind-protect) is enumerated abstractly (calls, closures and defers followed; each evaluation forks into success and failure); on every exit each cleanup form was evaluated exactly once after the protected form and the outcome is the protected form's", checkC01},
	"C02": {"every operator whose code writes a field of the interpreter's scoped state is interpreted abstractly on argument lists of every relevant shape, each evaluation forked into success and failure; at every exit each scoped field (and each entry of a scoped table) must be what it was on entry, and the forms inside the scope must be evaluated with the operator's state established", checkC02},
	"C03": {"every operator and function that opens a file is interpreted abstractly with each evaluation, open, flush and close forked into success and failure; on every exit the file is closed or returned, what was written was flushed after the last form and before the close, and a failed open, flush or close is an error", checkC03},
	"C04": {"each function that calls something that can fail is interpreted abstractly on its own, every such call forked into success and failure; a failure must be the function's result unless the code has identified it as a control transfer addressed to it", checkC04},
	"C07": {"every index, slice, integer division, shift, allocation size and radix in the repository is proved within its limits by an interprocedural analysis of difference constraints; type assertions without a check, panics, and comparisons or map keys of types without comparison are reported", checkC07},
	"C13": {"the tables of the reader (character names, escapes in strings and bars) and what the printers produce on every path are extracted from the source by abstract interpretation and compared; the compound printers are followed through an automaton of the printed shape", checkC13},
	"C12": {"the tokenizer is interpreted abstractly in product with an automaton of the lexical rules (every rune class at every read, and the end of input at every read); the parser and the users of the reader are interpreted with every read forked into success, end of input and failure; an end of input inside an expression must be an error that is not io.EOF", checkC12},
	"C11": {"each function on lists, sequences and arrays is interpreted abstractly on heaps of given shapes with opaque elements; value, identity of the cells and the arguments afterwards must be those of the definition", checkC11},
	"C08": {"every function is interpreted with summaries of its callees; the nil of Go must not be the value of a function that does not fail, nor be stored, handed over or used as a value of Lisp", checkC08},
	"C09": {"the context of every evaluation is traced to the context that the enclosing operator was called with; every loop that evaluates must check the context or use up its data on every way round; the calls of stored code and the functions that check the context are interpreted with a context that is done and must run nothing and return an error", checkC09},
	"C10": {"each operator is interpreted abstractly on argument lists of known shape, every value it tests forked; the forms it evaluates, the calls it makes and what it returns must be those of a reference description of the operator", checkC10},
	"C16": {"each comparison, predicate and arithmetic operator is interpreted abstractly with symbolic operands of each combination of types; under every order of the operands the paths that are possible must give the value of the definition, computed in the right type", checkC16},
	"C20": {"the library written in Lisp is interpreted abstractly over opaque forms and values; the evaluations of the caller's forms, the variables they see, the value and the data afterwards must be those of the definition; every operator and variable in the library must exist", checkC20},
	"C21": {"the functions on strings, hash tables and conversions are interpreted abstractly on given arguments; the value must be the one of the definition and the arguments stay", checkC21},
	"C14": {"the reader is interpreted abstractly on given texts; the data and what is left of the text must be those of the syntax of Lisp", checkC14},
	"C32": {"printing and reading of given floats are interpreted abstractly; what is read must be the float that was printed", checkC32},
	"C18": {"format and its relatives are interpreted abstractly with given control strings, arguments and destinations; what is written, where it goes, the value and the errors must be those of the definition", checkC18},
	"C22": {"each function that reads from a stream is interpreted abstractly on streams with given contents that end, or fail, at every place; what it returns or signals and what is left to be read must be those of the definition", checkC22},
	"C17": {"the call of a named function is interpreted abstractly with bodies that call the name again in every place; the evaluations, their environments and the value are compared with those of an ordinary call", checkC17},
	"C19": {"each operator and each kind of function is interpreted abstractly on argument lists of known shape; every evaluation is described with the environment it happens in, and compared with a reference", checkC19},
	"C26": {"sequences of defclass, defmethod, create, accessor calls and class predicates are interpreted abstractly on one state; every result, evaluation and error must be what the sequence says; the class relation is computed for all pairs of built-in classes and kinds of values", checkC26},
	"C23": {"calls that fail are interpreted abstractly, and then the functions that look into the condition on what they signalled", checkC23},
	"C24": {"the methods of a generic function are defined by interpreting defmethod abstractly and the function is interpreted on objects of scripted class hierarchies; the method that runs, its bindings, the evaluations and the error without a method must be those of a reference dispatch", checkC24},
	"C05": {"the receivers (block, catch, tagbody, ignore-errors) and the starters (return, return-from, throw, go) of non-local exits are interpreted abstractly on every path; an exit is received exactly when the path has compared the exit's name or tag with the operator's own and found them the same, and is started exactly when its destination is active", checkC05},
}

func main() {
	prop := flag.String("prop", "", "property")
	repo := flag.String("repo", "/repo", "tree to analyse")
	tier := flag.String("tier", "quick", "quick or thorough")
	ev := flag.String("evidence", "/verif/evidence", "evidence directory")
	kn := flag.String("known", "/verif/known-findings.txt", "known findings")
	flag.Parse()
	c, ok := checks[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	r := newReport(*prop, c.rule)
	func() {
		defer func() {
			if x := recover(); x != nil {
				fmt.Fprintf(os.Stderr, "%v\n%s", x, debug.Stack())
				r.add("analyser-panic", "-", "the analyser could not decide this tree: %v", x)
			}
		}()
		p, err := loadProg(*repo)
		if err != nil {
			r.add("load", "-", "the tree cannot be analysed: %v", err)
			return
		}
		c.run(p, r)
	}()
	os.Exit(r.finish(*tier, *ev, *kn))
}
