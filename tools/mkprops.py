#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
                  "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                  "observe_at": observe, "hook_needed": None}})

p("C01", "Non-local exits reach exactly their own target",
  "return-from leaves the lexically visible block of that name, throw the innermost active catch whose tag is eql to the thrown tag, and go the lexically visible tagbody, each abandoning everything in between; block and catch then yield the passed value and tagbody resumes right after the tag and yields nil at its end. A return-from, throw or go whose target is not (or no longer) active is a <control-error>, never a silent or wrong transfer.",
  ["programs"], "For every program that nests block, catch, tagbody, closures, loops, unwind-protect and function calls in any way.",
  "The tests sample about a dozen one-level exits; the guarantee is about every nesting and every capture of an exit in a closure.",
  ["progn.go", "lambda.go", "cond.go", "embed/dolist.lsp", "embed/dotimes.lsp", "embed/for.lsp"],
  [("cmdBlock/cmdReturnFrom/funReturn: error value carries the target", "progn.go"), ("cmdCatch/funThrow", "progn.go"), ("cmdTagBody/cmdGo", "progn.go")],
  ["value and event order of (block)/(catch)/(tagbody)", "class of the error returned by Interpret"])

p("C02", "unwind-protect cleanup runs exactly once on every way out",
  "Whenever the body of an unwind-protect is left, by normal return, error, return-from, throw, go, interpreter exit or a handler's exit, its cleanup forms run exactly once, in order, inner ones before outer ones and before control reaches the target. The body's value or pending exit survives the cleanup unchanged, and an attempt to leave a cleanup form by a non-local exit is a <control-error>.",
  ["programs", "fault_sequences"], "For every body and cleanup, every exit kind, every nesting depth and every point at which the body is left.",
  "Only two tests use unwind-protect; exactly-once and ordering need every exit crossed with every nesting.",
  ["progn.go"], [("cmdUnwindProtect", "progn.go")], ["event order of cleanup forms", "value of the unwind-protect form"])

p("C03", "Dynamic bindings have dynamic extent and are always restored",
  "(dynamic x) sees the most recent dynamic-let binding still active, whatever function it is called from, else the defdynamic value, else it is an unbound-variable error. dynamic-let evaluates all its init forms in order before any new binding takes effect, and when its body is left in any way every variable has the binding it had before, assignments through set-dynamic or (setf (dynamic x)) affecting only the current binding; dynamic variables never interact with lexical variables of the same name.",
  ["programs"], "For every interleaving of binding, assignment, reading, calls and normal or non-local exits.",
  "Tests use one dynamic-let and leave it normally.",
  ["setq.go", "embed/set-dynamic.lsp", "startup.lsp"], [("Dynamics.Set/Close save and restore", "setq.go")], ["value of (dynamic x) before, inside and after dynamic-let"])

p("C04", "Conditions reach the innermost handler once; continue resumes the signal",
  "An error or signalled condition calls the handler of the innermost active with-handler exactly once, with the condition, while the handlers outside it are in force; a handler may leave by a non-local exit, or continue-condition makes a continuable signal-condition, cerror or type-error check return the given value; if it returns, the next outer handler is tried and finally the error reaches the caller. Forms that raise no error call no handler, and with-handler otherwise yields its body's value and restores the previous handler on every exit; ignore-errors yields nil for errors only.",
  ["programs"], "For every nesting of handlers, signals, errors inside handlers, exits and resumptions.",
  "Tests exercise one handler and one error at a time.",
  ["cond.go", "error.go", "progn.go", "embed/error.lsp", "embed/cerror.lsp"],
  [("callHandler/cmdWithHandler/funSignalCondition/cmdContinueCondition", "error.go, cond.go"), ("cmdIgnoreErrors", "progn.go")],
  ["handler events and condition class", "value of with-handler / signal-condition", "error returned by Interpret"])

p("C05", "Lexical scope: names mean their textual binding, closures keep it",
  "Every variable or local function reference denotes the innermost textually enclosing binding made by let, let*, lambda, defun, flet, labels, for or method parameters (else the global one), no matter where it is called from; let and flet bind in parallel, let* and labels in sequence and recursively. Each entry into a binding form or function call creates fresh variables, closures share the variables they captured (assignment is visible to every closure over the same binding and to no other), and setq of an unbound name is an unbound-variable error.",
  ["programs"], "For every program over these binding forms, with shadowing, capture, mutation, recursion and escape of closures.",
  "Tests check a few closures; scoping mistakes only show in combinations of shadowing, capture and call depth.",
  ["lambda.go", "setq.go", "functionref.go", "world.go"], [("World.parent chain, Let/Flet", "world.go"), ("_Lambda.Call", "lambda.go"), ("letValuesToVars", "setq.go")], ["values and events of generated programs"])

p("C06", "Self tail calls behave like ordinary calls, in constant stack",
  "A function whose last action is to call itself (through if, cond, let, let*, progn) gives the same value, effects and errors as the same call anywhere else: arguments are evaluated once, in order, in the old bindings, each iteration has fresh variables and rest list, argument-count errors are raised, and a rebound or shadowed name calls the new function. Hundreds of thousands of such iterations complete without exhausting the stack.",
  ["programs", "inputs"], "For every function shape, parameter list (with and without &rest), capture pattern and iteration count.",
  "The repository has a couple of tail-recursive loops with plain parameters.",
  ["lambda.go"], [("testCarIsCurrFunc / _ErrTailRecOpt loop", "lambda.go")], ["values, events and errors of tail recursive programs", "deep recursion completes"])

p("C07", "Calls evaluate operator arguments once, left to right, and check counts",
  "For every ordinary function, built in, user-defined, generic, funcall or apply, each argument form is evaluated exactly once, left to right, before the function starts, and an error or exit in one argument prevents the later ones and the call. Too few or too many arguments is a <program-error> and a call of an undefined name an <undefined-function> error; the body then runs with parameters bound to those values and the remaining arguments in a fresh list for a rest parameter.",
  ["programs"], "For every callee kind, argument count and position of an effect, error or exit among the arguments.",
  "Tests never observe evaluation order, and arity errors are sampled.",
  ["lambda.go", "world.go", "generic.go", "functionref.go"], [("Function.Call/Function1/Function2/_Lambda.Call/_Generic.Call", "lambda.go, generic.go"), ("cmdFunCall/cmdApply", "lambda.go")], ["event order inside argument lists", "error class for arity"])

p("C08", "Macros expand with unevaluated operands; quasi-quotation builds the template",
  "A defmacro macro receives its operand forms unevaluated and its expansion is evaluated exactly once in the scope of the call, in whatever function, block or file it is used, and macroexpand returns that same expansion; redefinition affects later definitions. Quasi-quotation yields the template with each unquoted form replaced by its value, evaluated once left to right (and a macro's rest parameter spliced by ,@), and gensym returns a symbol different from every other symbol.",
  ["programs"], "For every macro body, operand form and place of use.",
  "Tests use a handful of fixed macros.",
  ["macro.go", "lambda.go", "cmds.go", "cons.go"], [("_Macro.expand, expandMacroOne, quasiQuote, funGensym", "macro.go, lambda.go, cmds.go")], ["value and events of macro calls", "(macroexpand form)"])

p("C09", "Conditionals, sequencing and iteration follow their ISLisp meaning",
  "if, cond, case, case-using, and, or, when, unless evaluate exactly the test forms up to the selected branch and only that branch; progn, prog1, prog2, setq, psetq evaluate every form once in order and yield the documented value. while, for, dolist and dotimes evaluate their test and body the right number of times with the right variable values (for steps all variables in parallel), yield the documented result and end on a return from block nil.",
  ["programs"], "For every nesting, branch structure, clause list and iteration count (including zero).",
  "Tests check results of single forms and not what else was evaluated.",
  ["progn.go", "operator.go", "setq.go", "embed/for.lsp", "embed/dolist.lsp", "embed/dotimes.lsp", "embed/case-using.lsp", "embed/when.lsp", "embed/unless.lsp", "embed/prog1.lsp", "embed/prog2.lsp"],
  [("cmdCond/cmdCase/cmdIf/cmdWhile", "progn.go"), ("cmdAnd/cmdOr", "operator.go")], ["value and event order"])

p("C10", "List operations: right result, right sharing, arguments intact",
  "car, cdr, cons, list, append, reverse, nth, nthcdr, last (the last element), length, member, assoc, mapcar, mapc, maplist, mapl, mapcan, mapcon, elt, subseq and create-list return the structure ISLisp prescribes for every list, including the empty one, calling mapped functions once per position left to right and stopping at the shortest list. Non-destructive operations leave their arguments unchanged, share structure only where prescribed (append's last argument, cdr, nthcdr, member), and set-car, set-cdr and setf change exactly the addressed cell, visible through every alias.",
  ["inputs", "histories"], "For every heap of (possibly shared) lists and every sequence of these operations.",
  "Tests compare printed results of single calls and never look at sharing or at the arguments afterwards.",
  ["cons.go", "list.go", "sequence.go", "atom.go", "embed/nth.lsp", "embed/nthcdr.lsp", "embed/set-nth.lsp", "embed/set-cdr.lsp"],
  [("funGetCar/funSetCar/funAppend/funMap*/Reverse", "cons.go, list.go, sequence.go")], ["returned structure", "contents and identity of all live lists after each operation"])

p("C11", "Arrays, strings and vectors: stored elements are read back, bounds kept",
  "aref, elt, set-aref, setf (aref ...) and setf (elt ...) address exactly the row-major element given by in-range indices of a vector, string or array of any rank, a write being visible through every alias and changing no other element; fewer subscripts than the rank give a view of a sub-array which shares its elements. array-dimensions, length and subseq (which truncates at the end) agree with the extent the object was created with. Too many subscripts, a negative or too large index of a vector, string or array or a non-integer index is an error that changes nothing; elt of a list beyond its end is nil.",
  ["inputs", "histories"], "For every rank, extent, content (including multibyte characters) and sequence of reads and writes.",
  "Tests read one or two fixed arrays.",
  ["array.go", "sequence.go", "string.go", "embed/set-elt.lsp", "embed/set-subseq.lsp"],
  [("Array.dim/list, funAref/funSetAref", "array.go"), ("Elt/subseq/SeqBuilder", "sequence.go")], ["all elements and dimensions after each operation"])

p("C12", "Hash tables and property lists are exact finite maps",
  "After any history, gethash returns the value most recently stored under an equal key (equal text for strings, same kind and value for numbers, characters, symbols) and nil otherwise, remhash removes exactly that key, clrhash all of them, hash-table-count is the number of distinct keys present, and tables are independent of each other. property, set-property and remove-property keep one value per symbol and property name in the same way, property of an absent one being an error.",
  ["histories"], "For every sequence of operations over any number of tables, keys and symbols.",
  "Tests run one insertion and one lookup.",
  ["hash.go", "symbol.go", "startup.lsp"], [("_Hash map", "hash.go"), ("property functions", "startup.lsp")], ["result of every operation and the full content afterwards"])

p("C13", "Instances: own slots, initargs over initforms, accessors agree",
  "create makes a new instance of the class whose slots (own and inherited) hold the initarg value if given, else the initform of the most specific class that has one, evaluated once per creation, else are unbound; user initialize-object methods run with the create arguments and their value is the value of create. A reader, writer, accessor (also via setf) or boundp function touches exactly the named slot of the given instance (a reader of an unbound slot yields nil), instances never share slots, and a reader applied to an object of another class is an error.",
  ["programs", "histories"], "For every class hierarchy, slot option combination and history of creations, reads and writes.",
  "Tests use one or two classes with one slot.",
  ["class.go", "generic.go"], [("cmdDefClass, funCreate, callInitArg/callInitForm, newGetter/newSetter/newBoundp", "class.go")], ["slot values of every live instance after each operation"])

p("C14", "Generic functions run the most specific applicable method",
  "A call of a generic function runs the body of exactly one method: among the methods whose parameter classes all accept the arguments, the most specific one, comparing parameters left to right by class precedence, independently of the order in which methods were defined. Redefining a method for the same classes replaces it, no applicable method is an error, and later method definitions take effect on later calls.",
  ["programs", "histories"], "For every class hierarchy, set of methods, definition order and argument tuple.",
  "Tests define two methods with disjoint classes.",
  ["generic.go", "class.go"], [("_Generic.Call, canCallWith", "generic.go")], ["which method body ran"])

p("C15", "class-of, instancep and subclassp agree and form one hierarchy",
  "Every object is an instance of its class-of and of exactly the classes reachable from it through declared superclasses, always including <object>; subclassp is the strict, transitive ancestor relation of user and built-in classes and instancep(x,c) is equivalent to class-of(x) being c or a subclass of c. Type predicates (consp, listp, symbolp, stringp, numberp and so on) and error condition classes agree with this relation. (Metaclasses and the redefinition of a class are out of scope.)",
  ["inputs", "programs"], "For every object kind, every pair of built-in classes and every user-defined hierarchy.",
  "Tests check single pairs.",
  ["builtinclass.go", "class.go", "error.go", "number.go", "newtypes.go"], [("InheritP/InstanceP/ClassOf", "builtinclass.go, class.go")], ["(instancep x c), (subclassp c d), (class-of x)"])

p("C16", "eq, eql, equal, equalp are consistent equivalences on all values",
  "eq, eql, equal and equalp never fail on any pair of values (circular structures and NaN excluded), are reflexive, symmetric and transitive, and each implies the next; eql compares numbers and characters by kind and value, strings (which are immutable) by their text and everything else by identity, equal compares lists, strings and arrays by structure, and equalp additionally numbers across kinds. member, assoc, case and catch compare with eql, hash lookup by kind and value.",
  ["inputs"], "For every pair and triple of values of every kind, shared or separately built.",
  "Tests compare a few literals.",
  ["atom.go", "cons.go", "array.go", "hash.go", "number.go", "cmds.go"], [("Equals(mode) methods, funEq/funEql/funEqual", "cmds.go and each type")], ["results of all four predicates on all pairs"])

p("C17", "The reader turns every text into the right forms or an error",
  "Reading follows the lexical grammar: integers, floats, radix and character literals, strings with escapes, quoted, keyword and plain symbols, dotted pairs, vectors, arrays, quote/backquote/comma/#' abbreviations, line and nested block comments, white space of any kind; successive forms are read in order regardless of line breaks or chunk sizes. Text that ends inside a form or is malformed is reported as an error and never crashes, drops or invents a form.",
  ["inputs"], "For every character sequence, in particular every token context and every truncation of a valid text.",
  "Tests read about twenty literals.",
  ["pkg/parser/main.go", "pkg/parser/tokenize.go", "parse.go"], [("readtokenString/nodes1/Read", "pkg/parser")], ["forms returned by (read) and Interpret for a text"])

p("C18", "Printed representation reads back as an equal value",
  "For integers, floats, characters, strings, symbols, keywords and lists, vectors and arrays of them, the text printed by ~S (format-object with escapes) read by read gives a value equal to the original, and printing that gives the same text. ~A prints strings and characters as their raw text and everything else the same way.",
  ["inputs"], "For every such value, including special characters, extreme numbers, empty and deeply nested structures.",
  "Tests print a few literals and never read them back.",
  ["atom.go", "cons.go", "array.go", "number.go", "string.go", "pkg/parser/main.go"], [("PrintTo(mode)", "per type"), ("parser.Read", "pkg/parser")], ["printed text, re-read value"])

p("C19", "Stream operations consume and produce exactly the right characters",
  "read-char, read-line and read on string and file streams return the stream's content in order, each character consumed exactly once, with the eos value or an end-of-stream error exactly at the end, however operations are interleaved; get-output-stream-string returns exactly what was written since the last call, and a file written through an output stream contains exactly the characters written. with-* stream forms close their stream on every exit, and redirected standard streams are restored.",
  ["histories", "inputs"], "For every content (empty, no final newline, multibyte, longer than any buffer) and every interleaving of operations.",
  "Tests read one or two lines.",
  ["io.go", "startup.lsp", "string.go"], [("funRead*/funPreviewChar/openFile", "io.go")], ["results of every operation and final file content"])

p("C20", "format output and column tracking are exact",
  "format writes exactly the text its directives prescribe: ~A ~S ~D ~B ~O ~X ~F ~E ~G with their width and padding parameters (a number, 'c, v or #), ~~ ~n% and ~n& (which starts a new line only when the destination is not already at the beginning of one, counting everything written to that stream by any function). Missing or ill-typed arguments and unknown directives are errors, and the destination (stream, t or nil) receives all of the text and nothing else; format-object, format-integer and format-char write the same text as the corresponding directive.",
  ["inputs", "histories"], "For every directive string, argument list, destination and previous output.",
  "Tests cover single directives to a fresh destination.",
  ["format.go", "io.go", "world.go"], [("funFormat and printer helpers, _WriterNode.lastOutputIsNotLf", "format.go, world.go")], ["bytes on the destination"])

p("C21", "Interpreter instances do not influence each other",
  "Functions, macros, generic functions, dynamic variables, handlers, standard streams and control state of one World are unaffected by anything done in other Worlds before, between or after its own operations, and library functions behave the same in every World and every lexical context, whichever used them first. Host bindings given through Let and Flet are visible only through the World they return; global variables (defglobal), classes and symbols are shared by design.",
  ["histories", "configurations"], "For every sequence of operations distributed over any number of Worlds.",
  "Tests use one World at a time and never observe leakage between them.",
  ["world.go", "lambda.go", "cond.go"], [("shared struct per World, LispString cache, autoLoad tables", "world.go, lambda.go")], ["results in each World compared with a World used alone"])

p("C22", "Worlds may run concurrently in separate goroutines",
  "Programs running at the same time in different Worlds never crash the process, deadlock or corrupt data and each produces the outcome of some sequential order: programs that touch no common global variable give exactly what they give alone, and common global variables behave like sequentially consistent registers. Symbols interned concurrently are the same symbol everywhere. (Worlds that run concurrently must not share a mutable object, such as a hash table stored in a global variable.)",
  ["schedules"], "For every interleaving of any number of goroutines each using its own World.",
  "Tests are sequential.",
  ["symbol.go", "world.go", "lambda.go", "class.go"], [("idMap intern tables, autoLoadVars, LispString.compile, class counter", "newtypes.go, atom.go, world.go")], ["outcomes of concurrent runs", "race detector reports"])

p("C23", "Cancelling the context stops evaluation promptly and cleanly",
  "When the context given to Interpret is cancelled, evaluation ends within a bounded amount of further work wherever it is (loops, recursion, tail calls, mapping functions, handlers; the cleanup forms of unwind-protect need not run), Interpret returns an error that is the context's error, and no Lisp form can swallow or convert it. Afterwards the World is usable as before: dynamic bindings, handlers and control state are those of the outermost level and a later call gives the same as in a World that was not cancelled there.",
  ["programs", "crash_points"], "For every program and every moment of cancellation.",
  "One test cancels one loop.",
  ["utils.go", "lambda.go", "progn.go"], [("checkContext in Call/while", "utils.go")], ["error returned by Interpret, work done after cancellation, later Interpret calls"])

p("C24", "Errors and exits reach the host unchanged; the World stays usable",
  "Interpret returns the value of the last form, or stops at the first form that fails and returns an error that identifies it: errors of the host's own functions satisfy errors.Is/As through every Lisp construct, (exit)/(quit) is ErrQuit, (abort) ErrAbort, built-in conditions keep their class and conditions signalled by the program (error, signal-condition) become an error with the reported text. Effects of the forms before it persist, later forms do not run, control state (handlers, blocks, catch tags, dynamic bindings) is reset to top level, and the command reports failures with a non-zero exit status.",
  ["programs", "fault_sequences"], "For every sequence of Interpret calls in which any form at any depth fails or exits in any way.",
  "Tests check single failing forms in fresh Worlds.",
  ["world.go", "error.go", "cmd/gmnlisp/main.go"], [("InterpretNodes, raiseError, ErrQuit", "world.go, error.go")], ["errors.Is/As on the result of Interpret, state seen by the next Interpret, exit status"])

p("C25", "No program can crash or hang the host",
  "Whatever text is interpreted, Interpret returns a value or an error: no Go panic, no fatal runtime error, and no endless loop unless the program itself loops, for any built-in function applied to any number of arguments of any kind and any malformed special form (unbounded recursion, circular structures and running out of memory excluded). Afterwards the World still works.",
  ["programs", "inputs"], "For every built-in operator, argument count and combination of argument values, and every malformed special form.",
  "Tests call each built-in with a few well-typed arguments.",
  ["*.go", "embed/*.lsp", "pkg/*/main.go"], [("ExpectClass/ExpectInterface argument checks", "error.go")], ["process survival, recover() around Interpret"])

p("C26", "Integer and float arithmetic and comparison follow ISLisp",
  "+, -, *, / (which truncates on integers), mod, rem, floor, ceiling, truncate, round, max, min, 1+, 1-, evenp, oddp, zerop, plusp, minusp, =, /=, <, <=, > and >= give the mathematically prescribed result on integers (whose result fits 64 bits) and floats, mixing integers and floats converts to float, and chains compare every adjacent pair. sqrt of a number is the float nearest to its square root, of a negative one a <domain-error>; parse-number gives the number of which its argument is a literal, else a <parse-error>. Division by zero is a <division-by-zero> error, whose condition tells the operation and its operands, and a non-number operand of an operation on numbers an error (+ and the comparisons also accept strings; = and /= accept any objects and compare like equalp).",
  ["inputs"], "For every combination of operands, including negative, zero and mixed ones.",
  "Tests sample a few positive operands.",
  ["number.go", "operator.go", "embed/max.lsp", "embed/min.lsp", "embed/1+.lsp"], [("Integer.Add.. and fun* operators", "number.go, operator.go")], ["result or error class of each operation"])

p("C27", "setf, incf, decf, swap and sequence updates write exactly one place",
  "(setf place v) stores v in exactly the place that reading the same form reads, for variables, car/cdr and their compositions, nth, elt, aref, subseq and nthcdr of lists, assoc, gethash, dynamic, property and slot accessors, and yields v for variables, car, cdr, elt, aref and dynamic; incf and decf store the sum or difference and yield it. Nothing else changes, the value form and the operands are evaluated before the store, and a later read of the place gives the stored value.",
  ["programs", "histories"], "For every place form over every live data structure and every history of updates.",
  "Tests do one setf per place kind.",
  ["embed/setf.lsp", "embed/incf.lsp", "embed/decf.lsp", "embed/set-nth.lsp", "embed/set-nthcdr.lsp", "embed/set-elt.lsp", "embed/set-assoc.lsp", "startup.lsp"], [("setf macro and set-* functions", "embed/")], ["full data state after each update"])

p("C28", "Pattern matching, subst, wildcard and command give exactly what they name",
  "(=~ pattern string) gives the list of all matches of a regular expression, leftmost first and not overlapping, each as the list of the matched text and of what every group matched (an empty string if it took no part), =~i the same as byte offsets (-1), nil if there is none, whatever patterns were used before; a wrong pattern is an error. subst copies a tree with every part eql to the old item replaced and leaves the original unchanged. wildcard gives the sorted names of exactly the existing files which match, and command writes what the program writes to the World's standard output, in order with the World's own output. Arguments of a wrong type are a <domain-error>.",
  ["inputs", "histories"], "For every pattern of literals, classes, groups, alternatives and greedy or lazy repetition, every string (with characters of several bytes), every tree and every set of files.",
  "The repository has one test of subst and none of the pattern functions.",
  ["pkg/regexp/main.go", "pkg/subst/main.go", "pkg/wildcard/main.go", "pkg/command/main.go"], [("getRegexpParam and its cache, funFindAllStringSubmatch(Index)", "pkg/regexp/main.go"), ("subst", "pkg/subst/main.go"), ("funWildcard", "pkg/wildcard/main.go"), ("funCommand", "pkg/command/main.go")], ["value of =~, =~i, subst, wildcard", "output events around (command ...)"])

p("C29", "An ill-formed special form is refused with an error and does nothing else",
  "A special form or defining form with missing or surplus operands, with a name that is no symbol, with a parameter list, binding list, function list or clause of the wrong shape, or with an improper list of operands is an error when it is evaluated: a condition the handlers in force see once and ignore-errors turns into nil, whatever the form is embedded in. No value is produced, no part of the program outside the form is affected, and a form which is never evaluated has no effect however wrong it is (quoted, in an untaken branch, in the body of a function which is not called). Forms at the edge of the syntax which are all right, such as empty bodies, empty binding lists and clauses without forms, work.",
  ["programs", "inputs"], "For every ill-formed form of every special form in every context.",
  "Tests contain only well-formed programs, apart from wrong argument counts of a few functions.",
  ["lambda.go", "progn.go", "setq.go", "cond.go", "functionref.go", "generic.go", "class.go", "utils.go", "macro.go"], [("getParameterList", "lambda.go"), ("Shift, ShiftAndEvalCar and the checks after them", "utils.go, world.go, progn.go"), ("cmdSetq, cmdLet, cmdFlet, cmdBlock, cmdCond, ...", "setq.go, lambda.go, functionref.go, progn.go, cond.go")], ["class and number of the errors seen by handlers", "events before and after the form"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
