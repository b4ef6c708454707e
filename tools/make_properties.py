"""Writes properties.jsonl (run by hand whenever the list changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

p("C01", "Currying never changes what a call means",
  "For every inspectable function and every set of arguments that is a valid call of it, supplying those arguments to the curried function in any number of steps, each argument by position or by name, runs the function exactly once, at the step where the last required parameter gets bound, and gives the result (or exception) of the one-step call. Arguments the signature cannot accept are passed through: on the right, in order, to the callable the call returned, or in front of them its non-callable return values go to the surrounding curry context; a top-level leftover raises TypeError. Partially applied curried functions are never altered by later calls, and type annotations are checked at each step.",
  ["inputs", "histories"], "every function signature, every valid argument list, every split of it into steps, by position or by name",
  "The suite samples a few fixed signatures and splits; the space is signatures x argument lists x splits x pass-by modes.",
  ["unpythonic/fun.py", "unpythonic/arity.py", "unpythonic/funutil.py"],
  [("curry and its action decision", "unpythonic/fun.py curry, _decide_curry_action, partial"), ("argument binding with extras", "unpythonic/arity.py _bind")])

p("C02", "Signature introspection agrees with Python's own call rules",
  "For every function, bound or unbound method, class method, static method or lambda, the reported positional arity range, required and optional keyword-only names, and resolved parameter bindings agree with what calling that object actually accepts and binds. The hashable form of two bindings is equal exactly when the same parameters get equal values, however the arguments were passed (the order among arbitrary named arguments aside).",
  ["inputs", "programs"], "every signature shape (positional-only, defaults, *args, keyword-only, **kwargs), every binding kind, every argument list",
  "Tests fix about thirty signatures by hand; agreement must hold for the full product of parameter kinds, defaults and call shapes.",
  ["unpythonic/arity.py"],
  [("arities / kwargs / resolve_bindings", "unpythonic/arity.py"), ("tuplify_bindings", "unpythonic/arity.py")])

p("C03", "Memoization computes each distinct call once and replays its outcome",
  "A memoized function returns (or raises) for every call what the function itself produced for those parameter bindings; the function body runs at most once per distinct binding, regardless of how the arguments were passed, of recursion, and of any number of threads calling concurrently. An exception outcome is replayed as the very same exception instance. Different bindings never share an outcome.",
  ["histories", "schedules", "inputs"], "every history of calls over every signature, and every interleaving of concurrent callers",
  "Tests run a handful of sequential calls and one threaded smoke test; the guarantee quantifies over call histories and interleavings.",
  ["unpythonic/fun.py", "unpythonic/arity.py"],
  [("memoize: lock + double check", "unpythonic/fun.py memoize")])

p("C04", "Function composition and plumbing equal the nested calls they abbreviate",
  "For every chain of functions, each compose and pipe variant (left/right, one-arg/multi-arg, curried, iterable, piped objects, lazy pipes) computes exactly the nested application in the documented order, calling each function once. Multiple and named return values packed in Values become the positional and named arguments of the next function, and a tuple stays one argument; argument-plumbing helpers (tokth, to, flip, rotate, apply, identity, const, notf, andf, orf, withself, call, callwith) deliver each argument to the documented slot with documented short-circuiting. A lazy pipe plans without running anything and can be extended from any prefix without disturbing the others.",
  ["inputs", "programs"], "every chain of functions, every argument list, every mixture of Values, named and plain results",
  "Tests use 2-3 element chains with fixed lambdas; the law is over all chains, directions and value shapes.",
  ["unpythonic/fun.py", "unpythonic/seq.py", "unpythonic/funutil.py"],
  [("compose family", "unpythonic/fun.py _make_compose, _make_compose1"), ("pipe family", "unpythonic/seq.py"), ("Values", "unpythonic/funutil.py")])

p("C05", "Folds, scans, reductions and unfolds obey their defining equations",
  "For every operator, initial value and iterables (one or many, of equal or different lengths, cut at the shortest or padded to the longest), fold, reduce, scan and their left/right variants give exactly the textbook sequence of operator applications in order, aligned on the left or the right end as documented; a fold is the last (leftmost for right scans, first) element of the corresponding scan. Scans and unfolds are lazy: they call the operator and consume input only for the elements demanded. Map, rmap, zip and window variants pair the documented elements.",
  ["inputs"], "every operator, initial value, number and length of input iterables, and every demanded prefix",
  "Tests check small fixed examples; the equations range over all inputs, including unequal lengths, infinite inputs and empty inputs.",
  ["unpythonic/fold.py", "unpythonic/it.py"],
  [("fold/scan core", "unpythonic/fold.py"), ("map/zip variants", "unpythonic/it.py")])

p("C06", "Iterator utilities yield exactly the right items, lazily, losing none",
  "For every finite or infinite iterable, each iterator utility (take, drop, split_at, partition, unpack, tail, window, chunked, pad, interleave, find, uniqify, flatten, inn, iterate, within, prod, and the rest) yields exactly the items of its defining list-level specification in order. It consumes no more of its input than documented to produce the items demanded, and what it does not consume stays available to the caller. Input sequences are never modified.",
  ["inputs", "histories"], "every input iterable (sequence or one-shot iterator, finite or infinite), every parameter value, every demanded prefix",
  "Tests check one or two examples each; item loss or over-consumption shows only for particular lengths, window sizes or demand patterns.",
  ["unpythonic/it.py"],
  [("iterator utilities", "unpythonic/it.py")])

p("C07", "Memoized generators replay one shared sequence to every consumer",
  "For any number of instances of a memoized generator or iterable advanced in any interleaving, from any number of threads, each instance sees from its start the full sequence the source produces, including a terminating exception, and the source is advanced at most once per item. Distinct argument bindings have independent sequences and equal bindings share one. Already produced items are available by index and slice without advancing the source.",
  ["histories", "schedules"], "every interleaving of instance creation, next, indexing and abandonment, over every source and every thread schedule",
  "Tests advance one or two instances in a fixed order; the guarantee is over all interleavings.",
  ["unpythonic/gmemo.py"],
  [("_MemoizedGenerator shared memo + lock", "unpythonic/gmemo.py")])

p("C08", "Mathematical sequences produce the terms their specification denotes",
  "For every constant, arithmetic, geometric, power or cyclic specification, with or without a final element, the sequence notation yields exactly the denoted terms with the denoted length, and rejects specifications that match no formula or whose final element is not a term; floating-point terms do not accumulate roundoff. Arithmetic and comparison on sequences is termwise, to the shorter operand, in operand order, with scalars broadcast, and lazy. The Cauchy product, diagonal reduction, Fibonacci, triangular and prime sequences equal their mathematical definitions at every index.",
  ["inputs"], "every specification (start, increment or ratio, length, number kind), every operator and operand pair, every prefix length",
  "Tests check fixed prefixes of about thirty sequences.",
  ["unpythonic/mathseq.py"],
  [("s() analysis", "unpythonic/mathseq.py s"), ("termwise operators", "unpythonic/mathseq.py _make_termwise_stream_binop"), ("cauchyprod, primes", "unpythonic/mathseq.py")])

p("C09", "Functional update and slice syntax agree with list semantics, without mutation",
  "For every sequence, index or slice (negative, stepped, reversed, open-ended or empty) and replacement, a functional update returns a new sequence of the same type and length that equals performing the corresponding item or slice assignment on a list copy, applied in order when several are given, and leaves the original and the replacement source untouched; for mappings it equals a dict update on a copy. Slicing an iterable with slice syntax yields the items list slicing would. Membership and position of an index in a slice agree with range arithmetic.",
  ["inputs"], "every sequence type and length, every slice, every replacement sequence or iterator",
  "Tests enumerate a dozen slices; slice corner cases are a product of sign, step, bounds and length.",
  ["unpythonic/fup.py", "unpythonic/slicing.py", "unpythonic/collections.py"],
  [("ShadowedSequence", "unpythonic/collections.py"), ("in_slice/index_in_slice", "unpythonic/collections.py"), ("islice", "unpythonic/slicing.py")])

p("C10", "Views stay live: reads and writes go to the current underlying data",
  "A view, or view of a view to any depth, always shows exactly the elements obtained by applying its chain of slices to the current contents of the underlying sequence, whatever insertions, deletions or replacements happened to it since, and writing through a writable view (item, slice, scalar broadcast, reverse) changes exactly the corresponding underlying elements. Read-only views cannot be used to change data, and writable views over read-only data are refused.",
  ["histories", "inputs"], "every chain of slices, every history of mutations of the underlying list interleaved with view reads and writes",
  "Tests mutate a list once or twice under a fixed view; staleness needs a specific history of length changes.",
  ["unpythonic/collections.py"],
  [("roview/view range computation and cache", "unpythonic/collections.py roview, view")])

p("C11", "Containers keep their value contracts: immutability, equality, hashing, threads",
  "A frozendict equals the dict built by the same updates, cannot be changed after construction by any later change to its inputs, hashes equally when equal, and survives copying and pickling; box and Some hold exactly one item with documented equality, containment and replacement; a thread-local box gives every thread its own content over a shared default, and a shim always reads and writes the object currently in its box, with fallback for missing attributes. Recursive in-place mapping applies the function to every atom exactly once, updates mutable containers in place with their identity kept, rebuilds immutable ones with type kept, and preserves structure.",
  ["inputs", "histories", "schedules"], "every nested container structure, every update history, every assignment of operations to threads",
  "Tests check a few nestings and a single extra thread.",
  ["unpythonic/collections.py"],
  [("frozendict, box, ThreadLocalBox, Some, Shim, mogrify", "unpythonic/collections.py")])

p("C12", "Linked lists and cons trees round-trip and behave as immutable lists",
  "For every iterable, converting it to a linked list and iterating gives back the same items, and reverse, append, zip, member, the c[ad]+r accessors, equality, hashing, repr evaluation, pickling, copying and folds agree with the same operations on Python lists or nested pairs, at any length or nesting the interpreter's own limits allow. Cons cells cannot be modified, and a structure that is not a proper list is reported rather than silently truncated. Binary-tree iteration visits every leaf exactly once.",
  ["inputs"], "every list content and length, every cons tree shape",
  "Tests use lists of 3-5 elements.",
  ["unpythonic/llist.py"],
  [("cons, iterators, llist/ll/lappend/lzip", "unpythonic/llist.py")])

p("C13", "Symbols and singletons keep their identity everywhere in the process",
  "Two symbols are the same object exactly when their names are equal, however and whenever they were made: by call, copy, deep copy, any pickle protocol that supports it, garbage collection in between, or concurrently in several threads. Uninterned symbols are distinct from every other one made, yet their own identity survives copy and pickle. A singleton class has at most one live instance per class under any history and schedule: a second construction fails, and unpickling restores state into the existing instance.",
  ["histories", "schedules"], "every history of creation, deletion, copying and pickling, and every interleaving of concurrent creation",
  "Tests pickle once, in one thread.",
  ["unpythonic/symbol.py", "unpythonic/singleton.py"],
  [("interning registry with lock", "unpythonic/symbol.py"), ("singleton registry", "unpythonic/singleton.py")])

p("C14", "Environments and let forms follow lexical scoping rules exactly",
  "For every set of bindings and every history of operations, an environment behaves as an ordered mapping of identifiers to values; once finalized its names are fixed while values can be rebound, and an assign-once environment refuses every rebinding not made through its explicit rebind. The let, letrec, sequential, decorator and block forms evaluate each binding once in order, make visible to each exactly the bindings the form documents (letrec: all previous values and itself lazily; let: none of its siblings), return the body's value, and leak nothing outside. Misuse is rejected with the documented exception without changing state.",
  ["histories", "programs"], "every binding set, every operation history, every nesting of let forms",
  "Tests run fixed scripts on a few environments.",
  ["unpythonic/env.py", "unpythonic/assignonce.py", "unpythonic/let.py", "unpythonic/lispylet.py", "unpythonic/seq.py"],
  [("env", "unpythonic/env.py"), ("let family", "unpythonic/let.py, unpythonic/lispylet.py"), ("do/begin", "unpythonic/seq.py")])

p("C15", "Dynamic variables are seen, updated and undone by dynamic extent",
  "At every moment, a dynamic variable reads as the innermost binding active in the current thread's dynamic extent, else the registered default, else AttributeError; an assignment changes exactly that innermost binding, a mass update changes all names or none, and leaving a scope by any route restores exactly what was visible before. All views of the bindings (attribute, item, containment, iteration, length, mapping views, live dict views) agree at all times. Scopes pushed in one thread are never seen by another; a thread starts from the main thread's scopes.",
  ["histories", "schedules", "fault_sequences"], "every nesting of scopes, updates and exceptions, in any number of threads",
  "Tests exercise one fixed nesting and one thread.",
  ["unpythonic/dynassign.py"],
  [("scope stack and resolution", "unpythonic/dynassign.py"), ("live views", "unpythonic/dynassign.py _DynLiveView")])

p("C16", "Escapes land at exactly the right catch point",
  "For every nesting of catch points and every escape, control returns from the innermost dynamically enclosing catch point whose tags accept that escape, with the value thrown, running all intervening finally clauses once and no other code; an escape continuation always reaches its own call_ec and no other, even through other catch points, recursion and exceptions handlers for ordinary exceptions. Using one after its extent has ended is an error, and without an escape the function's own result or exception passes through unchanged.",
  ["programs", "fault_sequences"], "every nesting of catch points with every tag configuration, every escape origin, finally clauses and exceptions in between",
  "Tests nest two or three catch points.",
  ["unpythonic/ec.py"],
  [("Escape matching in catch", "unpythonic/ec.py"), ("call_ec validity", "unpythonic/ec.py")])

p("C17", "The condition system runs the right handlers and restarts, and unwinds right",
  "For every nesting of handlers and restarts, signaling a condition calls, without unwinding, every matching handler of the current thread from innermost to outermost, in binding order within a level, until one invokes a restart; invoking a restart unwinds exactly to the innermost provider of that name, runs it with the given arguments, and makes that block yield its value. The protocols end as documented when nobody handles the condition (signal returns, error and cerror raise ControlError from the condition, warn warns), with cerror and warn resumable, and resignaling maps condition types with the original as cause. After any of this, the handlers and restarts in effect are exactly those of the dynamic extent reached.",
  ["programs", "histories", "schedules"], "every program of nested handler and restart scopes, signals, handler actions and exceptions",
  "Tests are fixed scenarios two levels deep.",
  ["unpythonic/conditions.py"],
  [("handler and restart stacks", "unpythonic/conditions.py"), ("signal protocols", "unpythonic/conditions.py signal, error, cerror, warn")])

p("C18", "Tail calls and functional loops compute the same result in constant stack",
  "A program whose tail calls are expressed as jumps between trampolined functions gives the result or exception, and the sequence of side effects, of the same program with ordinary calls, whatever the mixture of targets, positional and named arguments, and nested trampolines, and its stack depth does not grow with the number of tail calls. The functional loop constructs give the results of the equivalent explicit loop, including continue, break, and early exit from inside nested calls, with fresh variables per iteration; tail-chained generators yield the concatenation of the chain, to any length.",
  ["programs", "inputs"], "every call graph of mutually tail-recursive functions, every loop body behaviour per iteration, every generator chain",
  "Tests run a few fixed recursions.",
  ["unpythonic/tco.py", "unpythonic/fploop.py", "unpythonic/gtco.py"],
  [("trampoline", "unpythonic/tco.py trampolined"), ("loops", "unpythonic/fploop.py"), ("gtco", "unpythonic/gtco.py")])

p("C19", "Cycle breaking terminates every recursion cycle and leaves no trace",
  "For every finite call graph of pure functions decorated for cycle breaking, in plain, memoized and tail-call-optimized form, a call terminates, gives the ordinary result when its recursion meets no cycle, and where a call would re-enter itself with the same arguments gives the configured bottom value (or the bottom function applied to the name and arguments) in place of that inner call. After a computation ends, normally or by exception, no visited marks remain, so later computations and other threads are unaffected.",
  ["programs", "histories"], "every finite call graph with cycles, every bottom, memo on or off, sequences of computations including failing ones",
  "Tests use three toy recursions.",
  ["unpythonic/fix.py"],
  [("visited set and tco spy", "unpythonic/fix.py")])

p("C20", "Multiple dispatch selects the latest matching multimethod, deterministically",
  "For every sequence of multimethod registrations and every call, the generic function runs exactly the most recently registered multimethod whose signature binds the arguments and whose annotations all match them, passing the arguments unchanged; if none matches it raises TypeError and runs nothing. For methods, the receiver's class is tried first and then its superclasses in method resolution order; typed functions accept exactly the calls matching their one signature and refuse further registrations. Listing the multimethods shows them in the order tried.",
  ["histories", "inputs", "programs"], "every registration history (types, arities, defaults, keyword-only), every class hierarchy, every call",
  "Tests register a few fixed multimethods.",
  ["unpythonic/dispatch.py", "unpythonic/typecheck.py", "unpythonic/arity.py"],
  [("registry and resolution", "unpythonic/dispatch.py _resolve_multimethod, _list_multimethods")])

p("C21", "Run-time type checking follows the structure of the type specification",
  "For every supported type specification built by nesting concrete types, Any, type variables, new types, unions, optionals, tuples, sequences, sets, mappings, views, callables and protocol types, the check answers true exactly when the value's structure matches the specification recursively, for every value. Checking never modifies or consumes the value.",
  ["inputs"], "every type specification of the supported grammar and every value",
  "Tests check each constructor once with shallow nesting.",
  ["unpythonic/typecheck.py"],
  [("isoftype", "unpythonic/typecheck.py")])

p("C22", "Nondeterministic evaluation enumerates exactly the nested-loop solutions",
  "For every list of choices, assertions and final expression, nondeterministic evaluation yields exactly the tuple of results, in order, that the corresponding nested for loops with if filters would produce, with each name bound to the current choice wherever it is in scope and not elsewhere; the macro form gives the same results as the function form. The monadic list obeys the monad laws and its map, bind, join, then, guard and lift agree with list comprehensions.",
  ["programs", "inputs"], "every program of choices, dependent choices, guards and final expressions",
  "Tests run six fixed puzzles.",
  ["unpythonic/amb.py", "unpythonic/syntax/forall.py"],
  [("forall code generation", "unpythonic/amb.py"), ("macro", "unpythonic/syntax/forall.py")])

p("C23", "Promises are computed at most once and forcing is deep and faithful",
  "A promise evaluates its expression at most once, no earlier than first forced, and every force of it gives the same value or, if it failed, the same exception. Forcing a container replaces every promise in it, at any depth, by its value, keeping structure and container types, and anything that is not a promise is passed through unchanged; lazy-aware functions receive promises unforced and all others receive values.",
  ["inputs", "histories"], "every nesting of containers and promises, every force history, promises that fail",
  "Tests force a few fixed structures.",
  ["unpythonic/lazyutil.py", "unpythonic/collections.py"],
  [("Lazy, force, maybe_force_args", "unpythonic/lazyutil.py")])

p("C24", "Numeric helpers satisfy their mathematical definitions for every input",
  "For every pair of floats the almost-equality test is reflexive, symmetric, exact for values other than numbers, and a relative-error test at the given tolerance; the unit in last place is the spacing of floats at the argument; the fixed-point search returns a value that the function maps to itself within tolerance. For every valid integer, bounds and component set, the integer partition generators yield every ordered sequence of allowed components summing to it, exactly once each, and invalid arguments are rejected.",
  ["inputs"], "every float pair and tolerance, every integer with bounds or component set",
  "Tests check a few constants.",
  ["unpythonic/numutil.py"],
  [("almosteq, ulp, fixpoint, partition_int*", "unpythonic/numutil.py")])

p("C25", "Exception and timing utilities neither lose nor misroute outcomes",
  "For every combination of body behaviour, handlers, else and finally, the expression forms of raise and try run the clauses and give the value or exception that the corresponding statement would; exception remapping replaces exactly the listed types with the documented cause chaining and lets all else pass; an exception injected into another thread reaches that thread only. Miscellaneous helpers (safe subclass checks, recursive attribute access, slurping queues, counting iterators, renaming functions, progress timing) do what they document for every argument and leave their inputs unchanged.",
  ["inputs", "programs", "fault_sequences"], "every try-expression program, every exception mapping, every argument of the helpers",
  "Tests check single examples.",
  ["unpythonic/excutil.py", "unpythonic/misc.py", "unpythonic/timeutil.py"],
  [("tryf/raisef/reraise", "unpythonic/excutil.py"), ("helpers", "unpythonic/misc.py, unpythonic/timeutil.py")])

p("C26", "Every message sent is received intact, in order, whatever the fragmentation",
  "For every sequence of payloads and every way the transport splits, joins or interleaves the encoded bytes, and whatever garbage precedes a message, the receiver delivers exactly the payloads sent, in order, once each, and reports end of stream only when the sender has closed. Nothing read from the transport beyond one message is lost for the next.",
  ["inputs", "schedules", "fault_sequences"], "every payload sequence (including payloads that look like headers), every fragmentation, garbage between messages, truncation at every byte",
  "Tests send two messages over a socket pair with the kernel's own fragmentation.",
  ["unpythonic/net/msg.py", "unpythonic/net/util.py"],
  [("MessageDecoder, encodemsg", "unpythonic/net/msg.py"), ("ReceiveBuffer, netstringify, recvall", "unpythonic/net/util.py")])

p("C27", "REPL server sessions are isolated, faithful and cleaned up",
  "For every set of concurrent client sessions and every sequence of inputs, each session sees exactly the output of its own inputs evaluated in the shared top-level namespace, in order, with no output of another session or of the host process, whose own output still reaches the host. Exceptions and disconnects at any point end only the session concerned, and completion and control requests are answered for that session. Stopping the server leaves the host's streams as they were.",
  ["histories", "schedules", "fault_sequences"], "every number of sessions, every input sequence, disconnect at every point",
  "The existing test opens one session and runs one expression.",
  ["unpythonic/net/server.py", "unpythonic/net/client.py", "unpythonic/net/ptyproxy.py", "unpythonic/net/common.py"],
  [("session handler with thread-local streams", "unpythonic/net/server.py"), ("control channel", "unpythonic/net/common.py")])

p("C28", "let and do macros implement lexical scoping for every program",
  "For every nesting of let, letseq, letrec (expression, decorator and block variants) and do blocks, code in their bodies and bindings reads and assigns exactly the variable that lexical scoping selects, with shadowing by inner lets, lambdas, functions, comprehensions and local names respected, assignments visible to later code, and nothing leaking outside. All bracket syntaxes of the same program mean the same, bindings are evaluated once in order, and the value is that of the last body expression.",
  ["programs"], "every program of nested let/do forms with shadowing, closures, and assignments, in every surface syntax",
  "Tests are about a hundred fixed snippets; scoping errors need particular combinations of nesting and shadowing.",
  ["unpythonic/syntax/letdo.py", "unpythonic/syntax/letdoutil.py", "unpythonic/syntax/scopeanalyzer.py"],
  [("let expander and name transformation", "unpythonic/syntax/letdo.py"), ("syntax destructuring", "unpythonic/syntax/letdoutil.py")])

p("C29", "Automatic TCO preserves the meaning of the program and bounds the stack",
  "For every program, expanding it under the tail-call-optimization macro leaves its results, exceptions and order of side effects unchanged, whatever expression forms its return values use (calls, conditionals, and/or chains, lets, dos, lambdas, nested functions, escapes), and calls in tail position of functions and lambdas in the block do not grow the stack. Automatic return makes each function return the value of its final statement in every branch, as if the return were written out.",
  ["programs"], "every function body built from the supported statement and expression forms",
  "Tests run ten recursive functions.",
  ["unpythonic/syntax/tailtools.py"],
  [("tail position transform", "unpythonic/syntax/tailtools.py"), ("autoreturn", "unpythonic/syntax/tailtools.py")])

p("C30", "Captured continuations resume exactly the rest of the computation",
  "For every program in a continuations block, calling a captured continuation, once or many times, during or after the capturing call, runs exactly the statements after the capture point with the sent values bound to the declared targets and local variables as lexical scoping dictates, and returns what the original function then returns. Programs that capture no continuation compute what they would compute outside the block, and nested, conditional and repeated captures compose.",
  ["programs", "histories"], "every straight-line, branching or nested program with capture points, every multiset of later invocations",
  "Tests hold a few dozen fixed programs.",
  ["unpythonic/syntax/tailtools.py"],
  [("CPS transform and call_cc splitting", "unpythonic/syntax/tailtools.py")])

p("C31", "Automatic laziness evaluates only what is needed, once, to the same values",
  "For every program in a lazify block, an argument or binding is evaluated only if its value is used, at most once, and results equal those of the strict program whenever that terminates normally; unused arguments that would raise or have side effects are never evaluated. This holds for positional, named, starred and defaulted arguments, container literals, let bindings and nested calls, including calls into strict code, which receives plain values.",
  ["programs"], "every program of nested function definitions and calls with used, unused and repeatedly used arguments",
  "Tests run a fixed list of small functions.",
  ["unpythonic/syntax/lazify.py", "unpythonic/lazyutil.py"],
  [("lazify transform", "unpythonic/syntax/lazify.py"), ("promises", "unpythonic/lazyutil.py")])

p("C32", "Automatic currying lets every call be split without changing results",
  "For every program, expanding it in an autocurry block leaves complete calls' results unchanged, lets any call of a function defined in the block be split into successive partial calls with the same final result, and passes extra arguments through as the curry function does. Builtins and uninspectable callables keep working as ordinary calls.",
  ["programs"], "every program of function definitions and calls, every split of each call",
  "Tests run a dozen fixed calls.",
  ["unpythonic/syntax/autocurry.py", "unpythonic/fun.py"],
  [("autocurry transform", "unpythonic/syntax/autocurry.py")])

p("C33", "Static scope analysis agrees with Python's own scoping",
  "For every function, lambda, class or comprehension, the names the analyzer reports as bound, declared nonlocal or global, deleted or used in a scope agree with the Python compiler's own symbol table for that code, for every binding form of the language.",
  ["programs"], "every Python function body over all binding forms and nestings",
  "Tests list around forty snippets, one binding form each.",
  ["unpythonic/syntax/scopeanalyzer.py"],
  [("get_lexical_variables, get_names_in_store_context", "unpythonic/syntax/scopeanalyzer.py")])

p("C34", "Lambda extensions keep function semantics, names and closures",
  "In every program, multi-expression lambdas evaluate all expressions in order and return the last, quick lambdas bind their underscores positionally left to right each level to its own, named lambdas take the name they are assigned to in every assignment form and otherwise behave identically, and env-stored formals read and assign like ordinary parameters. Nesting and combining these never changes which variable a name refers to.",
  ["programs"], "every program of lambdas under the lambda-extension macros, nested and combined",
  "Tests check about thirty snippets.",
  ["unpythonic/syntax/lambdatools.py", "unpythonic/syntax/nameutil.py"],
  [("multilambda/namedlambda/fn/quicklambda/envify", "unpythonic/syntax/lambdatools.py")])

p("C35", "Convenience syntax macros mean their documented expansion",
  "For every program, aif and cond evaluate tests in order and only the selected branch, with it bound to the test value; local syntactic abbreviations substitute their templates exactly within their block; prefix notation calls the head with the rest, honouring quote, unquote and keyword forms; auto-reference resolves names to the referenced object's attribute if present and otherwise to the ordinary variable; debug printing evaluates each printed expression once and returns its value unchanged.",
  ["programs"], "every program over these constructs, nested in each other",
  "Tests check a few snippets of each.",
  ["unpythonic/syntax/ifexprs.py", "unpythonic/syntax/letsyntax.py", "unpythonic/syntax/prefix.py", "unpythonic/syntax/autoref.py", "unpythonic/syntax/dbg.py", "unpythonic/syntax/nb.py"],
  [("ifexprs, letsyntax, prefix, autoref, dbg", "unpythonic/syntax/")])

p("C36", "The test framework counts every outcome correctly and never hides one",
  "For every program of nested test sets, test assertions and events (pass, fail, unexpected exception or signal, expected exception or signal, warning, error, explicit failure, abort), the totals of runs, passes, failures, errors and warnings equal the events that occurred, each attributed once, and a failing or erroring test never stops the following ones unless it aborts its set. The asserted expression is evaluated exactly once, and captured subexpression values are those it had.",
  ["programs", "fault_sequences"], "every nesting of test sets and every sequence of outcomes at every point",
  "The framework's self-test covers a fixed script.",
  ["unpythonic/syntax/testingtools.py", "unpythonic/test/fixtures.py"],
  [("counters and testset conditions handling", "unpythonic/test/fixtures.py"), ("assert expansions", "unpythonic/syntax/testingtools.py")])

p("C37", "Dialects run ordinary programs with exactly their added semantics",
  "For every ordinary program, running it as a module in the Lispython, Pytkell or Listhell dialect (rewritten to prefix form for the last) gives the results it has in plain Python extended with the dialect's documented features: automatic tail calls, implicit returns, multi-expression and named lambdas; laziness and currying; prefix calls and currying. Module docstrings, future imports and dialect imports are preserved and names of the dialect's standard environment are available.",
  ["programs"], "every module of function definitions and calls, for each dialect",
  "Tests hold one fixed module per dialect.",
  ["unpythonic/dialects/lispython.py", "unpythonic/dialects/pytkell.py", "unpythonic/dialects/listhell.py"],
  [("dialect templates", "unpythonic/dialects/")])

p("C38", "Views of let, do and assignment forms read and edit what is written",
  "For every let, letseq, letrec, let_syntax, abbrev or do form, in every surface syntax, before or after expansion, plain or curried, and every environment assignment: the view for macro writers reports exactly the form's kind, bindings and body; what is written through it reads back; and the edited form, expanded and run, means what the edit says. Syntax that is not such a form is never taken for one.",
  ["programs"], "every form in every syntax, every edit of bindings and body",
  "Tests view and edit about twenty fixed forms.",
  ["unpythonic/syntax/letdoutil.py"],
  [("canonize_bindings, islet, isdo, isenvassign and the *View classes", "unpythonic/syntax/letdoutil.py")])

p("C39", "Malformed uses of the macros are refused at expansion, well-formed ones are not",
  "A program that breaks a documented syntactic restriction of a macro (call_cc outside a continuations block or outside statement position, local or delete outside do, duplicate or malformed bindings, wrong number of template arguments or test arguments, stray `it`, `where`, `the` or prefix operators, a macro used as the wrong kind, an unsupported as-part) is refused when expanded, wherever it occurs; the nearest well-formed program is accepted in the same place. Misuse is never silently accepted with another meaning.",
  ["programs"], "every documented restriction of every macro, in every surrounding program",
  "Malformed programs stop the test module from being expanded, so the tests contain almost none (the refusals are marked `pragma: no cover`).",
  ["unpythonic/syntax/letdo.py", "unpythonic/syntax/letdoutil.py", "unpythonic/syntax/letsyntax.py", "unpythonic/syntax/tailtools.py", "unpythonic/syntax/ifexprs.py", "unpythonic/syntax/prefix.py", "unpythonic/syntax/testingtools.py", "unpythonic/syntax/autoref.py", "unpythonic/syntax/dbg.py"],
  [("SyntaxError checks of the macro entry points and transformers", "unpythonic/syntax/")])

p("C40", "The REPL client shows exactly what the server sends and sends what is entered",
  "For every session, however the server's output is cut into packets, the interactive client shows exactly the text the server sent, in order, asks for input exactly when a prompt has arrived, sends each entered line unchanged, passes Ctrl+C and completion requests to the session it is connected to and returns the server's answers, and ends when the user or the server ends the session, without losing text.",
  ["histories", "schedules"], "every server output, every fragmentation, every sequence of user actions",
  "There is no test of the client.",
  ["unpythonic/net/client.py", "unpythonic/net/util.py", "unpythonic/net/common.py"],
  [("connect, ControlClient", "unpythonic/net/client.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
