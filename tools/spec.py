# The properties and how each is decided: tools/gen.py writes properties.jsonl
# and MANIFEST.json from this list.
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, technique="", note="", na="", state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, na=na, state=state, observe=observe))


prop("C01", "unwind-protect runs every cleanup form exactly once on every way out",
     "However the protected form of (unwind-protect) ends - with a value, an error, or a non-local exit such as return-from, throw or go - every cleanup form is evaluated afterwards, exactly once and in order. When the cleanup forms succeed the construct ends exactly as the protected form did: with its value, or with the same error or exit. An error in a cleanup form is reported.",
     ["programs", "fault_sequences"],
     "all protected forms and cleanup forms, all outcomes of each of their evaluations",
     "The tests run two programs; the guarantee ranges over every outcome of every form.",
     ["progn.go"],
     [{"name": "(unwind-protect) implementation", "where": "cmdUnwindProtect in progn.go"}],
     technique="path-sensitive abstract interpretation of the operator's SSA with a typestate monitor (every evaluation forked into success and failure)",
     note="All paths of the implementation found through the operator table are enumerated over an unbounded cleanup list; what an evaluation returns is unknown but tracked by identity. Assumes the evaluator entry point is World.Eval and that a Go panic does not unwind through it (C07 covers panics).")

prop("C04", "No error, non-local exit, quit or cancellation is lost on its way out",
     "When evaluating a form, calling a function or checking an operand fails, or starts a non-local exit (return-from, throw, go), quit, abort or a cancellation, that same failure or exit is what the surrounding construct ends with, and the construct evaluates nothing further - unless the construct is one whose purpose is to receive it: the block, catch or tagbody it is addressed to, ignore-errors for plain errors (not for non-local exits, quit, abort or cancellation), a with-handler handler, the cleanup forms of unwind-protect, or end-of-input handling. No operator of the interpreter returns normally after something it called failed.",
     ["programs", "fault_sequences"],
     "all operators, all failures of all the evaluations and operand checks they make",
     "Each test makes one evaluation fail; the guarantee is about every call site that can fail.",
     ["progn.go", "lambda.go", "cond.go", "error.go", "macro.go", "sequence.go", "setq.go", "class.go", "generic.go", "io.go", "world.go"],
     [{"name": "every call that can fail", "where": "all functions of the interpreter package and pkg/*"}],
     technique="compositional path-sensitive abstract interpretation over SSA: every call that can fail is forked into success and failure and the failure is tracked to the function's result",
     note="Each function with a failing call is interpreted on its own with every may-evaluate call forked; a failure must be the result unless the path identified it (errors.As/Is and a tag comparison) as addressed to the construct. Failures of output writes and of other library calls are outside this check. Speculative macro expansion while a lambda is built is exempt: a form whose expansion fails is left alone and fails again when it is evaluated.")

prop("C05", "A non-local exit is received by exactly the construct it is addressed to",
     "(return-from N v) and (return v) leave the innermost enclosing active (block N ...) or (block nil ...), which returns v; (throw T v) leaves the (catch T ...) whose tag is eql to T, which returns v; (go T) continues the (tagbody) that contains the tag T with the form right after that tag. No other block, catch or tagbody, and no anonymous function, receives the exit, and errors are not received by them at all. An exit whose destination is not active is not started: it is reported as a control error. (ignore-errors) returns nil after a plain error. A (tagbody) evaluates its forms in order, skipping none, and its tags never.",
     ["programs", "fault_sequences"],
     "all names, tags and values, all nestings, all outcomes of every evaluation",
     "Tests nest two constructs; who receives an exit must be right for every nesting and every pair of tags.",
     ["progn.go", "lambda.go"],
     [{"name": "receivers and starters of exits", "where": "cmdBlock, cmdCatch, cmdTagBody, cmdIgnoreErrors, _Lambda.Call, cmdReturnFrom, funReturn, funThrow, cmdGo"}],
     technique="path-sensitive abstract interpretation over SSA: symbolic identity of the operator's own name or tag against the one the exit carries, on every path of each receiver and starter",
     note="Each receiver and starter is interpreted from its operator-table entry with every evaluation forked. The list of active tags is trusted to be restored (C02). Lookup of a throw's tag in the list of active catches is followed for a match, not for completeness. Whether a named function also receives a return-from of its own name is left open.")

prop("C07", "No program makes an index, slice, division, allocation size or comparison panic",
     "Whatever program is read and run, and whatever the arguments are, the interpreter reports a wrong index, dimension, range, count, radix, divisor or number of arguments as a Lisp error (or returns a value) and never dies from a Go run-time panic of these kinds: slice, array or string index out of range, slice bounds out of range, integer division by zero, an allocation of a negative or absurd size, a failed unchecked type assertion, an explicit panic, or comparing or hashing values that have no comparison. In particular every built-in is registered so that its implementation never sees fewer arguments than it reads.",
     ["inputs", "programs"],
     "all argument values, argument counts and array shapes, all functions of the repository",
     "A test calls a built-in with a few indices; absence of a panic must hold for all integers, all lengths and all argument counts.",
     ["array.go", "string.go", "sequence.go", "format.go", "generic.go", "operator.go", "lambda.go", "hash.go", "io.go", "pkg/parser/main.go", "pkg/parser/tokenize.go"],
     [{"name": "operations checked by the Go runtime", "where": "every index, slice, division, make, type assertion, panic, interface comparison and map key in the repository"}],
     technique="interprocedural dataflow analysis with a domain of difference constraints (zones) over SSA, plus reachability rules over type assertions, panics and interface comparisons",
     note="Every such operation of every function of the repository is an obligation. Entry facts of a function come from its call sites; a built-in's argument count comes from its Function{C,Min,Max} literal. Arrays rely on the invariant that the number of elements is the product of the dimensions, which is itself an obligation at each construction. Nil dereferences, stack exhaustion by deep recursion and panics inside library code for other reasons are outside this check.")

prop("C10", "Operators evaluate the right operands, each once and in order",
     "Special operators evaluate exactly the operands their meaning calls for, each exactly once, from left to right, and give the value their meaning says. progn, let, let*, dynamic-let, flet, labels, block, catch, with-handler, with-standard-input and the with-open-...-file forms evaluate what they bind and then their bodies and give the value of the last form; if, cond, case, and, or and while evaluate only what the tests select (case compares its keys with eql and does not evaluate them; a cond clause without forms gives the value of its test; (and) is t and (or) is nil); unwind-protect evaluates its cleanup forms once after the protected form and gives the value of the protected form; quote, lambda, defun, defmacro, function, go and dynamic evaluate nothing; quasiquote evaluates only what is unquoted; setq, psetq, defglobal, defdynamic, funcall, apply, return-from and convert evaluate their operands once. When an evaluation fails nothing further is evaluated, apart from cleanup forms. A function - built in, user-defined or generic - gets every operand evaluated once, from left to right, before it runs, and does not run when the number of operands is wrong; a macro gets its operands unevaluated and its expansion is evaluated once. mapcar, mapc and mapcan call the function once for each element, maplist and mapl once for each tail, in order, as long as the shortest list lasts. A value is never evaluated a second time when it is handed to a function.",
     ["programs"],
     "all forms and values, all outcomes of every test, operand lists of the shapes that were scripted",
     "Tests look at the values of a few programs; which forms are evaluated, how often and in which order only shows with side effects, for every outcome of every test.",
     ["progn.go", "cond.go", "operator.go", "setq.go", "lambda.go", "macro.go", "generic.go", "sequence.go", "io.go", "quote.go", "error.go"],
     [{"name": "special operators", "where": "the SpecialF entries of the table of built-in operators"},
      {"name": "calls", "where": "the Call methods of Function0, Function1, Function2, Function, SpecialF, _Lambda, _Macro and _Generic"},
      {"name": "functions that call functions", "where": "MapCar, mapList, callHandler, funCreate, funSignalCondition, cmdApply, cmdFunCall"}],
     technique="abstract interpretation over SSA of each operator on scripted argument lists, every evaluation forked into its possible outcomes; the sequence of evaluations and the value on every way out are compared with a reference description of the operator",
     note="Argument lists have up to four elements; loops are unrolled over them. The compiled sequence of evaluations is compared on each path with a reference that asks the same questions (is the value of F1 nil, is it eql to S1). Ways out with an error may stop anywhere but must have evaluated a prefix. Which method of a generic function runs and in which environment a form is evaluated are other properties.")

prop("C19", "Lexical scoping: every form is evaluated where it stands",
     "Variables, functions and macros are lexically scoped. A name means its innermost binding around the place where it stands; setq changes that binding only and fails if there is none. let computes all values outside the scope of its variables, let* sees the variables before but not those after, and a variable without a value is nil; flet makes its functions outside their own scope, labels inside it (macros of the same names are hidden in all of the bodies); psetq computes all values before it assigns any. Functions of lambda, defun, flet, labels, method bodies and initial values of slots run in the environment of their definition plus new variables for their parameters (the &rest parameter is the list of the remaining values in order, nil if there are none), never in that of their caller; operands are evaluated in the environment of the caller. The body of a macro runs in the environment of its definition with the operand forms unevaluated, and the expansion is evaluated where the call stands; when a function is defined, only calls of what names a macro there are expanded. Functions of the embedded library are defined in the outermost environment. The bodies of all other operators are evaluated in the environment of the operator itself.",
     ["programs"],
     "all forms, names and values; operand and parameter lists of the shapes that were scripted",
     "A test uses one program whose names seldom collide; the wrong environment only shows when a name has several bindings, a closure outlives a scope, or a caller happens to bind a free variable of the callee.",
     ["setq.go", "lambda.go", "functionref.go", "macro.go", "generic.go", "class.go", "world.go", "cons.go"],
     [{"name": "operators that bind", "where": "let, let*, flet, labels, lambda, defun, defmacro, setq, psetq, defglobal, function"},
      {"name": "all other special operators", "where": "the SpecialF entries of the table of built-in operators"},
      {"name": "calls", "where": "the Call methods; the closures that defmethod and defclass leave behind; LispString.Eval; macro expansion at definition time"},
      {"name": "lookups", "where": "the methods of World that look a name up or assign it; the Eval methods"}],
     technique="abstract interpretation over SSA of each operator, kind of function and lookup on scripted argument lists and environments; the environment (which names are bound to what, around which other environment) of every evaluation is reconstructed from the abstract heap and compared with a reference",
     note="Environments are described by what they bind at the moment of the evaluation, and a scope that changes afterwards is noticed. Two functions and three variables at most; tail calls are another property. Lookups run over a chain of four environments with one, several or no binding of the name.")

prop("C17", "Calling itself in a tail position is transparent and does not nest",
     "When the last form of a function's body, or of an if, cond, progn, let or let* that stands last in it, calls the function by its own name, the call behaves as the call of any function would, except that it does not nest: the operands are evaluated once each, from left to right, in the environment of the call; the body then runs in the environment of the function's definition with new variables for the parameters (the &rest parameter gets the list of the remaining values, local variables behind a slash are nil again), and the variables of the earlier call, which closures may hold, stay as they were; a wrong number of operands is an error. The value of the whole is that of the last round. A call anywhere else - a test, a value of a binding, a form that is not the last, an operand, or inside any operator that has something left to do when its last form is done (unwind-protect, catch, block, dynamic-let, with-handler, ...) or that does not evaluate it (quote, lambda, ...) - is evaluated in its place as any other form, and so is one whose name means another function where it stands.",
     ["programs"],
     "all forms, values and operands; bodies of the shapes that were scripted",
     "The rewriting of tail calls into a loop only shows when a closure, a local variable, a binding form or a cleanup sees the difference between a loop and a call; tests recurse over numbers.",
     ["lambda.go", "progn.go", "setq.go"],
     [{"name": "functions", "where": "(*_Lambda).Call"},
      {"name": "tail positions", "where": "evalWithTailRecOpt, prognWithTailRecOpt and the operators it hands the function on to"}],
     technique="abstract interpretation over SSA of the call of a named function whose body is scripted, with its name meaning itself or another function; the evaluations and their environments in two rounds are compared with a reference",
     note="Bodies of one or two levels of the tail forms and the non-tail operators; two rounds are followed, the third call is evaluated as that of another function. Functions call themselves by name; mutual recursion nests and is outside.")

prop("C24", "A generic function runs exactly its most specific applicable method",
     "A call of a generic function evaluates its operands once each, from left to right, and then runs exactly one of its methods, with the values as arguments, and its value - also when it is nil - is the value of the call. A method is applicable when the number of arguments fits its parameters (any further ones, also none, go to the &rest parameter as a list, in order) and every argument is an instance of the class that its parameter names - of the class that the &rest parameter names for every further one. An object is an instance of its class and of all direct and indirect superclasses of it, through every one of several superclasses. Of the applicable methods the most specific runs: the leftmost parameter in which their classes differ decides; a subclass is more specific than its superclass; of two unrelated classes the one that the class of the argument reaches by an earlier one of its direct superclasses; of methods for the same classes the one defined last. defmethod adds a method and keeps the others. When no method is applicable, none runs and the call raises an undefined-function error.",
     ["programs"],
     "all sets of methods, class hierarchies and arguments; the hierarchies and method sets that were scripted",
     "Which method runs depends on the order of definition, on the hierarchy and on all arguments together; tests use a handful of classes with one or two methods.",
     ["generic.go", "class.go", "builtinclass.go"],
     [{"name": "dispatch", "where": "(*_Generic).Call, (*_Method).canCallWith, moreSpecific, precedes"},
      {"name": "methods", "where": "cmdDefMethod"},
      {"name": "classes", "where": "(*_StandardClass).InheritP, InstanceP, (*_BuiltInClass).InheritP, InstanceP"}],
     technique="abstract interpretation over SSA: the methods are defined by interpreting defmethod, then the generic function is interpreted on objects whose classes form a scripted hierarchy (the built-in classes as the interpreted package initialisation leaves them); the evaluations and the bindings of the method that runs are compared with a reference dispatch",
     note="233 combinations of hierarchies (chains, several superclasses, diamonds), up to three methods in every order, one or two parameters with and without &rest, and arguments; classes have different names. Methods with and without &rest in the same generic function, call-next-method (which the interpreter does not have) and classes redefined after their use are outside.")

prop("C26", "Objects have the slots, values and classes that defclass and create say",
     "An object made by create has the slots of its class and of all its direct and indirect superclasses, a slot of the same name being the same slot. An initarg followed by a value sets every slot, of any of these classes, that names the initarg; an initarg without a value is an error. Every slot that no initarg sets and that has an initform gets the value of that form, evaluated anew for every object and not evaluated otherwise; the initform of a class takes precedence over those of its superclasses, and of an earlier superclass over those of later ones. All :initarg, :reader, :writer, :accessor and :boundp options of a slot count, also several of the same kind: a reader and an accessor return the value of that slot of that object, a writer and (set-ACCESSOR value object) change it in that object only and return the value, the boundp function tells whether it has a value; applied to anything that is no instance of the class they are errors. create calls the most specific initialize-object; one that the user defines for a class is for that class and its subclasses, also those defined later, and all other classes keep the default. A superclass that is no class is an error. (instancep x C) holds exactly when (class-of x) is C or a subclass of it, through any of several superclasses, and for every class when C is <class>; (subclassp A B) for different classes is transitive, never holds both ways, puts <object> above all classes, and among the classes that ISLisp has is what ISLisp says (for instance <null> is a <list> and a <symbol>, <division-by-zero> an <arithmetic-error>); every name of a built-in class denotes that class.",
     ["programs"],
     "all class hierarchies, slot options, objects and sequences of operations on them; those that were scripted, and all pairs of built-in classes and kinds of values",
     "What a slot holds depends on the whole hierarchy and on everything done before with this and other objects; tests use one or two classes with one option of each kind.",
     ["class.go", "builtinclass.go", "generic.go", "error.go"],
     [{"name": "definitions", "where": "cmdDefClass, readSlotSpec, registerMethod, registerInitializeObject"},
      {"name": "objects", "where": "funCreate, defaultInitializeObject, callInitArg, callInitForm, newGetter, newSetter, newBoundp"},
      {"name": "classes", "where": "InheritP, InstanceP, subClassP and ClassOf of all values, the class variables"}],
     technique="abstract interpretation over SSA of whole sequences of operations: defclass, defmethod, create, readers, writers and class predicates are interpreted one after the other on one abstract state that follows classes, methods, objects and slots, with symbolic forms and values, and every result and evaluation is compared with what the scripted sequence must give; the class relation is computed for all pairs of the classes that the interpreted package initialisation makes",
     note="18 sequences (each with both orders of walking a map), 40 classes, 30 kinds of values. Values are symbols and integers of unknown value; printing of objects, :metaclass and :abstractp options, unknown initargs (which are ignored), reading an unbound slot, and classes redefined under the same name are outside. Condition objects whose class is in a field and <storage-exhausted> are not compared with ISLisp.")

prop("C12", "Cut-off input is an error; the tokenizer takes input apart by its rules",
     "When the input ends in the middle of an expression - inside a list, a vector or array, a string, a symbol in bars or a block comment, or right after a quote, backquote, comma, #', #\\ or a backslash - reading it is an error: it never yields a value and is never taken for the clean end of the input, and what was read before is not silently dropped. An input that ends between expressions is a clean end. ReadAll, (read) and loading a program report what the reader rejects. On every input the tokenizer follows its lexical rules: a token ends only at a blank, a parenthesis or a semicolon outside strings and bars; the delimiter stays in the input; no rune of a token is lost, changed or added; strings end at the first unescaped double quote and bars at the first unescaped bar; block comments nest; line comments end at the line end.",
     ["inputs"],
     "all texts, all positions at which they can be cut off",
     "Tests read a few complete programs; rejection must hold for every cut at every position of every text.",
     ["pkg/parser/main.go", "pkg/parser/tokenize.go", "parse.go", "io.go", "world.go"],
     [{"name": "tokenizer and reader", "where": "readToken, readtokenWord, skipComment, ReadNode, readArray, readUntilCloseParen, ReadAll, funRead"}],
     technique="abstract interpretation of the tokenizer's SSA in product with an automaton of the lexical rules, and compositional path-sensitive analysis of the parser with every read forked into success, end of input and failure",
     note="The tokenizer is interpreted with one representative of each rune class at every read (runes that the code does not tell apart are represented by x, 1 and a kana) and with the end of input at every read; block comments are followed to nesting depth 3; a comment directly after ## or an escaped # inside a token is not followed. Which tokens spell which values is C13 and number syntax is outside.")

prop("C13", "What is printed readably reads back as the same data",
     "Every character, string, symbol, integer, and every list and array with at least one dimension built from them, printed in the readable form (~s, format-object with a true third argument), is text that the reader reads back as an equal object: each character is printed under a name, code or single rune that the reader takes for that very character; in strings exactly the double quote and the backslash are escaped, and the reader undoes it; a symbol is printed bare only when the reader takes the bare name for that symbol and otherwise in bars with its bars and backslashes escaped; an integer is printed as its decimal digits and every decimal numeral is read as an integer; lists and arrays print one opening parenthesis, their elements in the readable form separated by blanks, a dot only before the last tail, and one closing parenthesis, arrays with their rank in front; 'x and `x abbreviate only (quote x) and (quasiquote x). The plain form (~a) is asked for and used only where it is wanted. Floats, functions, classes and objects are not part of this.",
     ["inputs"],
     "all characters, strings, symbol names and integers, all nestings of lists and arrays",
     "Tests print a handful of values; the two sides must agree on every character and every name.",
     ["atom.go", "string.go", "cons.go", "array.go", "format.go", "pkg/parser/main.go", "pkg/parser/tokenize.go"],
     [{"name": "printers", "where": "Rune.GoString, String.GoString, _Symbol.GoString, Integer.String, Cons.PrintTo, Array.PrintTo, tryPrintTo"},
      {"name": "reader", "where": "readNode, readToken"}],
     technique="abstract interpretation over SSA that extracts the tables of the reader and the shapes of all printed texts, compares them with each other, and follows the compound printers through an automaton of the printed shape; inclusion of regular languages for numerals",
     note="Decided: the table of character names against the names printed, the escape tables against the decoding loop, the condition under which a symbol is printed bare (it must have been read back), the printed shape of lists and arrays on every path (loop counts beyond 4 are one case), the mode handed to every part, format-object and the directives ~a and ~s, and the tokenizer's lexical rules (as in C12). That the elements printed are the elements of the list in order is left to the tests. A symbol whose name needs nothing but is in the keyword syntax is not told apart from a keyword of that name.")

prop("C02", "Handlers, streams, dynamic variables and exit tags are restored on every way out",
     "After (with-handler), (with-standard-input), (dynamic-let), (catch), (block) and (tagbody) have ended in any way - with a value, an error, or a non-local exit, including a failure in the middle of their own arguments - the current handler, the standard input, every dynamic variable (a variable that was unbound is unbound again, also when one form binds it twice), and the sets of active block names, catch tags and tagbody tags are exactly what they were before. While the body runs they are as the construct establishes them, catch tags that were active before stay active, and the forms that compute the handler, the stream, the tag and the values of dynamic-let are evaluated in the old state, before any binding is made. No other operator leaves this state changed, except defdynamic and set-dynamic, which change dynamic variables.",
     ["programs", "fault_sequences"],
     "all bodies, all outcomes of every evaluation, all states at entry",
     "Tests leave a construct once, normally; what must be restored depends on the way out and on what was there before.",
     ["cond.go", "io.go", "setq.go", "progn.go", "world.go"],
     [{"name": "operators that change scoped state", "where": "cmdWithHandler, cmdWithStandardInput, cmdDynamicLet, cmdCatch, cmdBlock, cmdTagBody and every other operator whose code writes a field of World.shared"}],
     technique="effect analysis that finds every operator whose code writes a field of the shared state, then path-sensitive abstract interpretation of each over argument lists of scripted shapes, every evaluation forked into success and failure, with the state compared by symbolic identity at every exit and every evaluation",
     note="Argument lists have up to four elements (symbols equal and different, forms, nil, nested binding lists); loops over them are unrolled, and a form evaluated again in a scoped state it was evaluated in before is not followed again. What a body does to the scoped state is assumed to be undone when it ends (induction over the same rule), except that it may assign to bound dynamic variables. Lexical variables and definitions are not part of this state.")

prop("C03", "Files are closed, flushed and their write errors reported on every way out",
     "A file that (with-open-input-file) or (with-open-output-file) has opened is open while its body runs, with the variable bound to the stream, and is closed when the construct ends in any way: with a value, an error or a non-local exit, and also when the construct fails between opening the file and running the body. No operator leaves a file open that it does not return. What the body has written is written out after the last form and before the file is closed; an error while it is written out or while the file is closed makes with-open-output-file and (close stream) end with an error instead of a value, and a file that cannot be opened is an error.",
     ["programs", "fault_sequences"],
     "all bodies and arguments, all outcomes of every evaluation and of every open, flush and close",
     "Tests write one small file successfully; closing and reporting must hold on every way out, with every failure of the disk.",
     ["io.go", "cmd/gmnlisp/main.go"],
     [{"name": "operators that open files", "where": "cmdWithOpenInputFile, cmdWithOpenOutputFile, funOpenInputFile, funOpenOutputFile, funClose, _OutputFileStream.Close in io.go"}],
     technique="path-sensitive abstract interpretation over SSA with a typestate of each opened file (open, written, flushed, closed, returned), every evaluation, open, flush and close forked into success and failure",
     note="Operators that open files are found by their calls of package os; packages under examples/ are not included. A close of a file that is already closed (errors.Is os.ErrClosed) need not be reported. Errors that bufio reports at a write are sticky and reach the flush. What happens to the stream of open-output-file that the program never closes is outside.")

prop("C08", "Lisp's nil has one representation: no value is Go's nil",
     "Whatever a program can get hold of is a value of Lisp. Every built-in function, special operator, macro, method and accessor that does not fail returns a value of Lisp - where there is nothing to return, Lisp's nil - and never the nil of Go. No list, array, hash table, variable, slot, dynamic variable, argument list, object or condition is ever given the nil of Go as an element, as its end, as its value or as the object it is about: lists that are built end in Lisp's nil, a variable without a value, a missing key, element or option is Lisp's nil, and the parts of a condition that a handler can ask for are there. No method is called on a value that may be the nil of Go.",
     ["programs", "inputs"],
     "all paths of all functions that a program can reach, except the text of the reader",
     "(null x) and most operators take the nil of Go for Lisp's nil, so that tests pass; only printing it, comparing it or asking for its class crashes, far from where it came from.",
     ["*.go", "pkg/wildcard/main.go"],
     [{"name": "operators and functions", "where": "all functions of package gmnlisp and the extension packages"}],
     technique="interprocedural, path-sensitive nullness analysis over SSA: every function is interpreted on its own with callees replaced by summaries (which results may be nil although there is no error, which parameters may be nil), iterated to a fixed point; the nil of Go is followed through results, maps, cells, fields and error values to every place where it would become a value of Lisp",
     note="About 770 functions. What is assumed: parameters and memory that the function did not write hold values unless some call or store shows otherwise; functions called through values and interfaces return values (each of them is checked for it). A list under construction may end in the nil of Go as long as only functions that are called directly see it. Elements of slices that were made and never written are not followed, the parser package is outside (C12 and C13 are about what it returns), and a private field that is asked whether it has a value may have none.")

prop("C11", "List and array functions return what ISLisp says and leave their arguments alone",
     "car, cdr, cons, list, append, reverse, member, assoc, last, length, elt, subseq, create-list, the mapping functions mapcar, mapc, maplist, mapl, mapcan and mapcon, the predicates consp, listp, null, not, symbolp, basic-array*-p and general-array*-p, the comparisons eq, eql and equal, vector, create-array, aref, set-aref, array-dimensions, set-car and set-cdr return exactly the value that ISLisp defines for them, in the right order and ending in the right tail, whatever the elements are, and end with an error where the argument is no list, no proper list or the index is negative or outside the array. They do not change their arguments - except set-car, set-cdr and set-aref, which change exactly the one place that the corresponding reader reads and return the object they store - and the lists that append (up to its last argument), reverse, list, subseq, mapcar and maplist return are made of new cells. An array of several dimensions has a place of its own for each index; arrays are equal only when their dimensions and all of their elements are.",
     ["inputs"],
     "lists up to five elements with nesting, dotted and empty lists, arrays up to three dimensions and eight elements; elements are opaque",
     "Sharing of cells, changed arguments, dotted tails, lists of different lengths and the third dimension are beside the few results that tests compare.",
     ["list.go", "sequence.go", "array.go", "cmds.go", "cons.go"],
     [{"name": "list functions", "where": "functions of list.go and sequence.go registered in world.go"},
      {"name": "arrays", "where": "funAref, funSetAref, funCreateArray, funArrayDimensions, (*Array).Equals and Elt in array.go"},
      {"name": "equality", "where": "funEq, funEql, funEqual in cmds.go"}],
     technique="shape analysis: the functions are interpreted abstractly over SSA on heaps of given shapes (about 190 of them) whose elements are opaque and distinct; the shape of the result, the identity of its cells and the shape of every argument afterwards are compared with those the definition demands",
     note="The length of the shapes is bounded; the elements are not looked into by these functions (except by the comparisons), so that the results hold for all elements. Reading past the end of a list with elt gives nil here, which the library of gmnlisp relies on, and is not judged, nor is subseq with bounds outside its list; destructive nreverse is judged for the empty list only. A call whose interpretation meets a library function that is not followed counts as undecided when one of its ways out is right.")

prop("C16", "Comparisons and arithmetic are right for all numbers, characters and strings",
     "(< x1 x2 ...), (<= ...), (> ...) and (>= ...) are t exactly if the relation holds between all neighbours, (= x1 x2 ...) exactly if all are equal and (/= x y) exactly if they are not, for integers, floats and mixtures of both; integers are compared exactly, and an integer and a float as floats. They return nil, not an error, at the first pair that does not satisfy the relation. char= char/= char< ... and string= string/= string< ... compare two characters and two strings in the same sense. eq (for numbers and characters), eql and equal are t exactly for equal numbers, characters or strings of the same type. zerop, plusp, minusp, oddp and evenp tell the sign and the parity of every number, numberp, integerp, floatp, characterp and stringp its type. +, -, * and / compute the sum, difference, product and quotient from the left, with an integer result if all operands are integers (for / the quotient towards zero) and a float otherwise; (- x) is the negative, (+) is 0 and (*) is 1; a division, mod or rem of integers by zero is an error. mod has the sign of the divisor and rem that of the dividend, exactly for all integers. floor, ceiling, truncate and round leave integers alone and round floats down, up, towards zero, and to the nearest or the even one of two equally near. An operand of a comparison or operation that is no number, character or string as it needs one is an error.",
     ["inputs"],
     "all numbers, characters and strings (up to three operands), all combinations of integer and float; integers that do not overflow and floats that are not NaN",
     "Tests compare a few small numbers; fractions, negative and very large numbers, mixed types and chains of three decide what an operator means.",
     ["operator.go", "number.go", "cmds.go", "atom.go", "string.go"],
     [{"name": "arithmetic and comparison operators", "where": "operator.go and the methods Add, Sub, Multi, Divide, LessThan and Equals of Integer and Float in number.go"},
      {"name": "comparisons of characters and strings", "where": "compareRune in atom.go, compareString in string.go"},
      {"name": "predicates of numbers", "where": "funZerop, funPlusp, funMinusp, funOddp, funEvenp in cmds.go"}],
     technique="abstract interpretation over SSA with symbolic operands: values are terms over the operands with their types and conversions, paths carry the comparisons they depend on (predicate abstraction over the orders, signs and remainders of the operands); for every order of the operands the value of the consistent paths must be the one the definition gives",
     note="About 210 combinations of operator and operand types with up to 13 orders each. Conversions from an integer to a float are taken as exact when one operand is a float. strings.Compare, cmp.Compare and the functions of package math are taken at their word. A path that also depends on something else (the lengths of strings, say) counts as undecided if the right one is among the values. Overflow of integers, NaN and the digits of float results are outside.")

prop("C18", "format writes what its control string and its arguments say",
     "(format dest control args...) writes, in order and nothing else: the text of the control string as it is; for ~a and ~s one argument as princ and prin1 print it, padded on the right to the width; for ~d ~x ~o ~b one integer of any size in base 10, 16 (capital letters), 8, 2, padded on the left to the width with the padding character (a space, or any character given as 'c); for ~f ~e ~g one number, with width and digits; ~% a new line (n of them), ~& n new lines, one fewer if nothing was written yet or the last thing written to the destination ended a line, also by an earlier call; ~~ a tilde. A parameter is a decimal, 'c, v (the next argument) or # (how many arguments are left). Arguments are used one by one; those left over are ignored. The destination is nil (the text is returned as a string), t (standard output) or a stream; anything else is an error. Otherwise the value is nil. Too few arguments, an argument of the wrong type, and an unknown directive are errors, and so is output that the destination does not take. format-object, format-char, format-integer and format-float write the same as ~a/~s, the character, the integer in the radix (2 to 36), and ~f.",
     ["inputs", "faults"],
     "format, format-object, format-char, format-integer, format-float; 130 control strings and argument lists with every directive and kind of parameter, on every kind of destination, with output that fails, and after earlier output",
     "Tests print a few values with a few widths to a string; they have no destination that fails, no output before, no v or # parameters, no large or negative numbers in other bases and no characters of more than one byte.",
     ["format.go", "world.go", "io.go", "sequence.go"],
     [{"name": "directives", "where": "formatSub, printInt, printFloat, printSpaces in format.go"},
      {"name": "destinations", "where": "tAndNilToWriter in format.go, _WriterNode in world.go"}],
     technique="abstract interpretation over SSA of format and its relatives with constant control strings and numbers and opaque objects and destinations; every writing method appends to the state, string and number conversions of known values are folded, and what is written, where, the value and the errors are compared with the definition on every path",
     note="Objects are opaque: what ~a and ~s make of each type is C13. A directive that is cut off by the end of the control string, ~d of a float, and omitted parameters before a comma are not judged. The digits of floats are taken from strconv. A case in which an operation of the standard library that is not modelled decides what is written is counted as undecided and is not reported; there is none on the current tree.")

prop("C14", "The reader builds exactly the data that the text shows",
     "Reading a text gives the datum ISLisp's syntax defines for it, and takes from the stream no more than that datum and at most the one character that ends it. Symbols keep their spelling as it is written, between bars with every character, nil and t in either case are the constants, names with a colon or an ampersand in front are keywords; decimal, hexadecimal, octal and binary integers of any size and floats have the value they show, and a word that is no numeral as a whole is a symbol; strings have their characters, with a backslash taking the next one as it is; characters are given by themselves (the delimiters too), by name or by code. Lists have their elements in order, a dot gives the last tail; vectors and arrays of every rank have the elements in order and the dimensions shown; the quotes - quote, function, quasi-quote, unquote, unquote-splicing - are the lists of two elements. Blanks, line ends, line comments and nested block comments separate words and are nothing else, but not inside strings and bars. It is an error if a dot is not followed by exactly one datum or has none before it, if the parts of an array differ in length, if the rank is zero or too large, if a float is too large, and if the text ends before the datum does.",
     ["inputs"],
     "the reader on some 220 texts, each construct alone and inside others; not judged: a closing parenthesis without an opening one, block comments inside words, names in bars next to other characters, backslashes in bare symbols, and characters that follow a character's name",
     "The tests read some twenty texts; every bug in a numeral's pattern, an escape, a nested comment or a dotted list needs its own text.",
     ["pkg/parser/main.go", "pkg/parser/tokenize.go", "parse.go"],
     [{"name": "tokens", "where": "readToken, readtokenWord, skipComment in pkg/parser/tokenize.go"},
      {"name": "data", "where": "readNode, readArray, nodes2cons, readUntilCloseParen, tryParseAsNumber in pkg/parser/main.go; stdFactory in parse.go"}],
     technique="abstract interpretation over SSA of the reader on each text: the stream is a script, regular expressions, replacers, builders and numerals of known texts are folded, and the datum that is built, the error, and what is left in the stream are compared with a table on every path",
     note="What depends on a library function that is not followed is counted as undecided and not reported (none on this tree). Lists of more than eight elements are not followed.")

prop("C32", "A floating point number that is printed reads back as the same number",
     "What format writes for a finite float with ~s and ~a, and the string that convert makes of it, is a numeral that the reader, parse-number and convert to <float> turn into exactly that float again - a float, never an integer or a symbol, with all its bits - whatever its size: whole numbers, fractions with many digits, very large and very small ones, negative ones.",
     ["inputs"],
     "97 finite floats: whole ones, short and 17-digit fractions, the ends of the range, denormal numbers, exponents of one to three digits. Negative zero, infinities and the directives with a format of their own (~f, ~e, ~g, format-float) are outside.",
     "Tests print a few short decimals.",
     ["number.go", "format.go", "convert.go", "pkg/parser/main.go"],
     [{"name": "printing of floats", "where": "Float.String in number.go, the directives ~s and ~a in format.go, cmdConvert in convert.go"},
      {"name": "reading of floats", "where": "tryParseAsFloat in pkg/parser/main.go"}],
     technique="abstract interpretation over SSA, first of format and convert on each float, then of the reader, parse-number and convert on the text that comes out, on every path; the standard library's conversions of known values are folded",
     note="The text is compared by what it is read as, so that any notation will do. Other floats differ from these only inside strconv, which is taken at its word.")

prop("C23", "Failing calls raise the condition that says what failed",
     "When a built-in function or special form is given an object of the wrong class, it raises a <domain-error> whose domain-error-object is exactly that object (not another argument) and whose domain-error-expected-class is the class that was needed: lists and their parts, sequences, array and string indices, strings, characters, arithmetic and comparisons (any object in an operand position that is no number, the first one too), hash tables, function arguments, names in special forms, assure, and the functions that look into conditions. Division by zero (/, mod, rem, by an integer or, for /, a float zero) raises a <division-by-zero> whose arithmetic-error-operands are the dividend and the divisor in that order. A string that is no numeral gives, in convert to <integer> or <float> and in parse-number, a <parse-error> whose parse-error-string is the string and whose parse-error-expected-class is the class asked for (<number> for parse-number). An unbound variable or dynamic variable and an undefined function give an <unbound-variable> or <undefined-function> with the name and, as name space, variable or function.",
     ["inputs"],
     "146 failing calls over the functions above. Where ISLisp leaves the expected class open, or this interpreter knows several, only the object is compared. Calls with several wrong arguments, wrong numbers of arguments, positions out of range, overflows, the errors of streams and of format, and what handlers do with the condition are outside.",
     "Tests look at the contents of a handful of conditions; a swapped field, another argument or a wrong class in the others changes nothing that they see.",
     ["error.go", "number.go", "operator.go", "convert.go", "sequence.go", "world.go", "setq.go"],
     [{"name": "conditions and their accessors", "where": "error.go, raiseDivisionByZero and the accessors in number.go"},
      {"name": "raisers", "where": "ExpectClass, ExpectInterface, ExpectSymbol in error.go and their callers; cmdConvert, funParseNumber; World.Get, GetFunc, Set"}],
     technique="abstract interpretation over SSA of each failing call, on every path, without a handler; the error that comes out is handed to the accessors and to class-of, which are interpreted in turn, and what they return is compared with a table",
     note="What depends on a library function that is not followed is counted as undecided and not reported (none on this tree). Lookups of names are interpreted where no scope is left.")

prop("C21", "String functions, conversions and hash tables give what ISLisp defines",
     "string-append, create-string, length, elt and subseq of strings (subseq also of lists and vectors), string-index, char-index, the comparisons string=, string/=, string<, string<=, string>, string>= and those of characters, equal and eql on strings and characters, assure, and stringp and characterp give exactly the value ISLisp defines for them. Positions and lengths count characters, whatever number of bytes they take; string-index and char-index give the first position at or after the start; comparisons go by character codes from the left, and a string comes after its own beginnings; subseq gives a new object of the same kind. A position outside the sequence (negative, past the end, an end before the start; for elt a negative one), a negative length, an argument of another class and a wrong number of arguments is an error. convert gives each conversion of the ISLisp table - character to integer and symbol, integer to character, float and string, string to integer, float, symbol, list and vector, symbol to string, list to vector and vector to list, and an object of the class already as it is; nil is a list and a symbol - with every element kept in order, and an error for all others, for an integer that is no character code, a string that is not entirely a decimal numeral, and a dotted list. In a hash table strings, symbols, characters, integers and floats are different keys; gethash gives the value stored last under the key or nil, hash-table-count the number of keys that have a value (nil too), remhash removes the one key, clrhash all, and nothing else is changed; a key of another class and a table that is none are errors. Except for the hash tables no argument is changed.",
     ["inputs", "histories"],
     "the functions on strings, characters and hash tables and convert, on a set of arguments with each class, empty and wide texts, and positions at and past both ends. Conversions from floats to integers and strings, of numerals that do not fit an integer, and elt past the end, which gives nil, are outside.",
     "Tests convert and search a few ASCII texts; wide characters, positions past the ends, dotted lists, the forbidden conversions and the sequences of operations on a hash table are not among them.",
     ["string.go", "convert.go", "hash.go", "sequence.go", "atom.go"],
     [{"name": "strings", "where": "compareString, funStringIndex, funStringAppend, funCreateString in string.go; funRuneIndex, compareRune in atom.go; funSubSeq, funElt, funLength in sequence.go"},
      {"name": "conversions", "where": "cmdConvert, funAssure in convert.go"},
      {"name": "hash tables", "where": "hash.go"}],
     technique="abstract interpretation over SSA of the functions on given arguments: strings, numbers, cells, arrays and maps that are known are folded exactly, library functions on known texts too; the rendered value, the arguments afterwards and, for hash tables, each step of a sequence are compared with a table on every path",
     note="282 cases. What depends on a library function that is not followed is counted as undecided and not reported (none on this tree). The printed form of floats is outside.")

prop("C22", "Reading from a stream returns exactly what comes next and takes no more",
     "(read-line stream) returns the text up to the next end of line - LF or CR LF - without it, or what is left before the end of the stream, and takes exactly that line with its end from the stream; (read-char stream) returns and takes exactly the next character, whatever its encoding needs; read takes one datum through the reader of the language, from this stream and not through another buffer. Characters of the line, a CR that is not part of its end included, are kept, and an empty line is an empty string. Without a stream argument they read from standard input. If nothing is left they signal the end-of-stream condition of that stream, or return eos-value (nil if none is given) if eos-error-p is given as nil. An error of the stream other than its end is the error of the call, also in the middle of a line. A fourth argument, or one that is no input stream, is an error.",
     ["inputs", "faults"],
     "read, read-line and read-char on all streams that are input streams, with and without the optional arguments; the texts are a set that has each kind of line end, empty lines, characters of more than one byte, and an end or a failure at each place",
     "Tests read two or three plain lines; where the line ends, what is left afterwards, failures in the middle and wide characters are not among them.",
     ["io.go"],
     [{"name": "reading", "where": "funReadLine, readString, chomp, funReadChar, funRead in io.go"},
      {"name": "stream arguments", "where": "newStreamInput in io.go"}],
     technique="abstract interpretation over SSA of the reading functions with a model of the stream: scripted contents, every reading method moves a position, and the end or an error comes last; strings that are known are folded; results and position are compared with the definition on every path",
     note="The contents are 14 texts for lines and 6 for characters, each followed by the end and by a failure. The reader of the language is taken at its word here (C12 is about it). Files, closing and encodings other than UTF-8 are outside.")

prop("C20", "The operators written in Lisp evaluate their forms once and mean what they say",
     "The operators that are defined in Lisp (embed/*.lsp and startup.lsp: when, unless, prog1, prog2, dolist, dotimes, for, case-using, incf, decf, setf and its places, set-elt, swap-elt, max, min, 1+, 1-, first to third, rest, c..r, nth, nthcdr, error, cerror, property, set-property, remove-property) evaluate the forms they are given each exactly as often and in the order that ISLisp says, and give the value it says. A form of the user is evaluated in the user's environment plus only the variables the operator binds for it: no variable or function of a macro captures one of the user. (setf place value) evaluates the value and the operands of the place once each (in any order), changes exactly that place, and returns the value; the places are variables, dynamic, car, cdr, c..r, first to third, nth, nthcdr, elt, aref, subseq, assoc, gethash, property, setq and the accessors of classes. incf and decf add to the place and return the new value. Properties are kept per symbol and name: setting or removing one leaves the others. Each operator and variable that the library's code uses exists.",
     ["programs", "inputs"],
     "all operators of the library, with forms that are arbitrary but for the values stated in the cases; not judged: the value of dolist and dotimes, a second evaluation of the operands of a place by incf and decf and of a string's place by setf of elt, and the order of the operands of setf",
     "The tests call each operator once or twice with constants; how often a form is evaluated, variables with the names a macro uses and the place after the changed one do not show with constants.",
     ["embed/", "startup.lsp"],
     [{"name": "library", "where": "embed/*.lsp, loaded by name when an operator is first used, and startup.lsp"},
      {"name": "quasi-quotation", "where": "cmdQuasiQuote in cmds.go (its own meaning is checked by C10)"}],
     technique="abstract interpretation of the library's Lisp source: a reader and an evaluator for the Lisp it is written in, in which the forms of the user are opaque and their evaluations, with the user's variables then bound, are events; events, values and changed data are compared with a table; a name resolution lint over all library code",
     note="157 calls. The evaluator takes the special forms and functions of Go at their ISLisp meaning, which C10, C11, C16 and C19 check. A library function that is used by no case is only checked by the lint. An evaluation of a form of the user records every variable that the expansion makes visible to it, so that a capture shows.")

prop("C09", "A cancelled context stops the running program, however it is running",
     "When the context a program runs with is cancelled or its deadline passes, the program ends with the context's error at its next step: a loop (while, and what is built on it, tagbody with go, recursion, tail recursion that reuses its frame) does not begin another round, and no further special form, function with a variable number of arguments, lambda, macro or generic function is called. The error is not swallowed, not even by ignore-errors. Every form that an operator evaluates and every function it calls - operands, bodies, handlers, macro expanders, methods, initforms - runs with the context that this call of the operator was given, never with a fresh context or with one kept from an earlier call.",
     ["programs", "histories"],
     "all programs over data that is not circular, all moments of cancellation",
     "A test cancels one endless while loop and one lambda; every loop, every call and every evaluation an operator makes has to obey.",
     ["utils.go", "lambda.go", "progn.go", "generic.go", "macro.go", "class.go", "cond.go", "error.go", "sequence.go", "world.go"],
     [{"name": "context propagation", "where": "every call in the interpreter that passes a context.Context"},
      {"name": "cancellation points", "where": "checkContext and its callers: SpecialF.Call, Function.Call, _Lambda.Call, _Generic.Call, _Macro.Call, cmdWhile"}],
     technique="provenance analysis of every context argument over SSA, a must-check-or-consume analysis of every loop that evaluates, and path-sensitive abstract interpretation of the cancellation points with a context that is done",
     note="Every context argument in the interpreter is traced through parameters, captured variables, phis and context.With* to the parameter of the operator that is running. A loop that evaluates must on every way round pass a verified check of the context, receive a control transfer whose starter is called through such a check, or use up a list, slice or counter; that those are finite (no circular lists) is assumed. A function of Go that runs long without evaluating (sorting, reading input, a huge allocation) is not covered.")

prop("C30", "Deep recursion ends in an error and not in the death of the process",
     "A program that nests calls or data deeper than the machine can hold ends with an error the program or its host can handle; the process survives.",
     ["programs"],
     "all programs, all depths of recursion that is not a tail call, of nested data and of nested source text",
     "A test can show one depth on one machine.",
     ["lambda.go", "world.go", "parse.go"],
     [{"name": "recursion", "where": "World.Eval, the printer, the reader and Equals call themselves as deep as the data goes"}],
     na="The evaluator, the reader and the printer recurse on Go's stack with no depth counter, so the property does not hold by construction; whether a given depth fits depends on run-time frame sizes and the 1 GB limit of the runtime, which no argument over the source bounds.")

prop("C31", "Interpreters in one process do not disturb each other",
     "Two interpreters made with New() share nothing a program can change, and may run at the same time in different goroutines.",
     ["schedules", "histories"],
     "all programs in two interpreters, all interleavings",
     "Tests run interpreters one after another.",
     ["world.go", "symbol.go", "class.go"],
     [{"name": "package variables", "where": "the tables of globals, functions, symbols, classes and properties are variables of the package, without locks"}],
     na="gmnlisp does not promise this: its own tests require that a defglobal in one interpreter is seen in the next one, and the symbol table and the tables of definitions are unsynchronised package variables by design. There is no guarantee to check.")

prop("C33", "Operations on circular data and on huge requests end or fail in bounded time",
     "length, equal, printing and the like on circular lists, and requests for very large strings, arrays and numbers, end with a value or an error.",
     ["inputs"],
     "all data, circular ones included, all sizes",
     "A test that hits it does not end.",
     ["list.go", "sequence.go", "array.go"],
     [{"name": "traversals", "where": "every loop over a list in Go"}],
     na="ISLisp leaves circular data undefined and gmnlisp's loops follow it for ever, without looking at the context; termination depends on the shape of run-time data that nothing in the source bounds. C07 covers that sizes cannot crash, C09 that loops which evaluate can be cancelled.")
