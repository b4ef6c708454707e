From a6d5daf9690ed36a794cbc31d015a9e83f354f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:03 +0000
Subject: [PATCH 01/79] fix: curry: surplus positional args no longer consume
 keyword-only or **kwargs parameters

In arity._bind, a positional argument that had no positional parameter was
recorded as extra, but the keyword-only (or **kwargs) parameter reached by the
scan was also bound to it, so that parameter could not be passed by name
anymore ('multiple values for argument'), or its value was lost.
---
 unpythonic/arity.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/unpythonic/arity.py b/unpythonic/arity.py
index 1ffc460..b908f81 100644
--- a/unpythonic/arity.py
+++ b/unpythonic/arity.py
@@ -541,7 +541,13 @@ def _bind(thesignature, args, kwargs, *, partial):
                     # argument
                     # raise TypeError(
                     #     'too many positional arguments') from None
+                    #
+                    # All remaining positional arguments are extra. Leave the
+                    # parameter for the next phase, to be bound by name.
                     extra_args.append(arg_val)
+                    extra_args.extend(arg_vals)
+                    parameters_ex = (param,)
+                    break
 
                 if param.kind == Parameter.VAR_POSITIONAL:
                     # We have an '*args'-like argument, let's fill it with
-- 
2.43.0


From 2ae5d12c4fb449635ad8e9be8e427cd1005bc8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:43 +0000
Subject: [PATCH 02/79] fix: curry: top-level leftover args are an error also
 after calling a returned function

When the function returned a callable, it was invoked inside the curry context
of the function that returned it. Hence it never was the top-level context, and
args/kwargs that remained after it were silently returned in a Values instead
of raising TypeError.
---
 unpythonic/fun.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index e3afecf..18e9308 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -412,7 +412,10 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
                 if callable(leftmost):
                     if not iscurried(leftmost):
                         leftmost = curry(leftmost)
-                    return maybe_force_args(leftmost, *later_args, **later_kwargs)
+                    # `leftmost` takes our place: if we are the top-level curry context, then so is it,
+                    # so that any args/kwargs still remaining after the recursion are caught.
+                    with dyn.let(curry_context=outerctx):
+                        return maybe_force_args(leftmost, *later_args, **later_kwargs)
 
                 # The first positional return value is not a callable. Pass the return value(s) through
                 # to the curried procedure waiting in outerctx (e.g. in a curried compose chain).
-- 
2.43.0


From 5089b00cb2379755c14dd3d0ac611eb4e9fdaf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:46 +0000
Subject: [PATCH 03/79] fix: curry: accept args/kwargs for passthrough before
 the last step

Extra arguments given while some required parameter was still unbound were
bound into the partial, and the call then failed with TypeError or ValueError
when it triggered. Now they are held until the call and passed through, as if
they had been given at the last step.
---
 unpythonic/fun.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 18e9308..e072e57 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -438,10 +438,27 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
                 # Fail-fast: use our `partial` wrapper to type-check the partial call signature
                 # when we build the curried function. It delegates to `functools.partial` if the
                 # type check passes, and else raises a `TypeError` immediately.
-                p = partial(f, *args, **kwargs)
+                #
+                # Any args/kwargs already known to be incompatible with the call signature of `f`
+                # must not be bound now; hold them until the call triggers.
+                extra_args, extra_kwargs = (), {}
+                if not isgeneric(f.func if isinstance(f, functools_partial) else f):
+                    extra_args, extra_kwargs = analysis.extra_args, analysis.extra_kwargs
+                if extra_args:
+                    args = args[:-len(extra_args)]
+                p = partial(f, *args, **{k: v for k, v in kwargs.items() if k not in extra_kwargs})
                 if islazy(f):
                     p = passthrough_lazy_args(p)
-                return curry(p)
+                if not (extra_args or extra_kwargs):
+                    return curry(p)
+
+                @wraps(f)
+                def curried_with_extras(*args, **kwargs):
+                    return maybe_force_args(curry(p), *(extra_args + args), **{**extra_kwargs, **kwargs})
+                if islazy(f):
+                    curried_with_extras = passthrough_lazy_args(curried_with_extras)
+                curried_with_extras._is_curried_function = True
+                return curried_with_extras
 
             else:  # pragma: no cover
                 assert False, action
-- 
2.43.0


From 155b6e0978d4dee627f13c6535af09a0486d0be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:35 +0000
Subject: [PATCH 04/79] fix: allow named arguments called f, func, target etc.
 when calling through curry, memoize, call, jump, invoke, ...

The infrastructure functions that pass **kwargs on to a user function had a
positional-or-keyword parameter of their own, so a user function with a
parameter of the same name could not be given it by name ('got multiple values
for argument').
---
 unpythonic/arity.py      | 4 ++--
 unpythonic/conditions.py | 6 +++---
 unpythonic/fun.py        | 8 ++++----
 unpythonic/funutil.py    | 2 +-
 unpythonic/lazyutil.py   | 2 +-
 unpythonic/tco.py        | 2 +-
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/unpythonic/arity.py b/unpythonic/arity.py
index b908f81..7b46d28 100644
--- a/unpythonic/arity.py
+++ b/unpythonic/arity.py
@@ -339,14 +339,14 @@ def arity_includes(f, n):
     lower, upper = arities(f)
     return lower <= n <= upper
 
-def resolve_bindings_partial(f, *args, **kwargs):
+def resolve_bindings_partial(f, /, *args, **kwargs):
     """Like `resolve_bindings`, but use `inspect.Signature.bind_partial`.
 
     That is, it is acceptable for some parameters of `f` not to have a binding.
     """
     return _resolve_bindings(f, args, kwargs, _partial=True)
 
-def resolve_bindings(f, *args, **kwargs):
+def resolve_bindings(f, /, *args, **kwargs):
     """Resolve parameter bindings established by `f` when called with the given args and kwargs.
 
     This is an inspection tool, which does not actually call `f`. This is useful for memoizers
diff --git a/unpythonic/conditions.py b/unpythonic/conditions.py
index a02e853..51f3977 100644
--- a/unpythonic/conditions.py
+++ b/unpythonic/conditions.py
@@ -229,7 +229,7 @@ def _prepare_signal_instance(condition, *, cause, protocol, stacklevel):
 
     return condition
 
-def invoke(name_or_restart, *args, **kwargs):
+def invoke(name_or_restart, /, *args, **kwargs):
     """Invoke a restart currently in scope. Known as `INVOKE-RESTART` in Common Lisp.
 
     `name_or_restart` can be the name of a restart, or a restart object returned
@@ -329,7 +329,7 @@ constant args/kwargs, to instantiate a handler that sends that specific
 set of constant args/kwargs.
 """
 
-def invoker(restart_name, *args, **kwargs):
+def invoker(restart_name, /, *args, **kwargs):
     """Create a handler that just invokes the named restart.
 
     The args and kwargs are "frozen" into the created handler by closure, and
@@ -496,7 +496,7 @@ class handlers(_Stacked):
         self.dq = _stacks.handlers
 
 class InvokeRestart(BaseException):
-    def __init__(self, restart, *args, **kwargs):  # e is the context
+    def __init__(self, restart, /, *args, **kwargs):  # e is the context
         self.restart, self.a, self.kw = restart, args, kwargs
         # message when uncaught
         self.args = ("unpythonic.conditions: internal error: uncaught InvokeRestart",)
diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index e072e57..b7e5fd5 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -107,7 +107,7 @@ def memoize(f):
 # latest application winning. We must resist the temptation to override that behavior here,
 # because there are other places in the stdlib, particularly `inspect._signature_get_partial`
 # (as of Python 3.8), that expect the standard semantics.
-def partial(func, *args, **kwargs):
+def partial(func, /, *args, **kwargs):
     """Type-checking `functools.partial`.
 
     This is a wrapper that type-checks the arguments against the type annotations
@@ -194,7 +194,7 @@ def iscurried(f):
 
 @register_decorator(priority=8)
 @passthrough_lazy_args
-def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, **kwargs):
+def curry(f, /, *args, _curry_force_call=False, _curry_allow_uninspectable=False, **kwargs):
     """Decorator: curry the function f.
 
     Essentially, the resulting function automatically chains partial application
@@ -471,7 +471,7 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
     return curried
 
 @passthrough_lazy_args
-def _currycall(f, *args, **kwargs):
+def _currycall(f, /, *args, **kwargs):
     """Co-operate with unpythonic.syntax.autocurry.
 
     In a ``with autocurry`` block, we need to call `f` also when ``f()`` has
@@ -640,7 +640,7 @@ def rotate(k):
 # --------------------------------------------------------------------------------
 
 @passthrough_lazy_args
-def apply(f, arg0, *more, **kwargs):
+def apply(f, arg0, /, *more, **kwargs):
     """Scheme/Racket-like apply.
 
     Not really needed since Python has *, but included for completeness.
diff --git a/unpythonic/funutil.py b/unpythonic/funutil.py
index 68519e8..3665a4e 100644
--- a/unpythonic/funutil.py
+++ b/unpythonic/funutil.py
@@ -25,7 +25,7 @@ def _init_module():  # called by unpythonic.__init__ when otherwise done
 # pass arguments and then call f from a decorator position.
 @register_decorator(priority=80)
 @passthrough_lazy_args
-def call(f, *args, **kwargs):
+def call(f, /, *args, **kwargs):
     """Call the function f.
 
     **When used as a decorator**:
diff --git a/unpythonic/lazyutil.py b/unpythonic/lazyutil.py
index 7058798..144e301 100644
--- a/unpythonic/lazyutil.py
+++ b/unpythonic/lazyutil.py
@@ -110,7 +110,7 @@ def islazy(f):
     # special-case "_let" for lazify/curry combo when let[] expressions are present
     return hasattr(f, "_passthrough_lazy_args") or (hasattr(f, "__name__") and f.__name__ == "_let")
 
-def maybe_force_args(f, *thunks, **kwthunks):
+def maybe_force_args(f, /, *thunks, **kwthunks):
     """Internal. Helps calling strict functions from inside a ``with lazify`` block.
 
     If `not islazy(f)`, forces the given args and kwargs, and then calls `f` with them.
diff --git a/unpythonic/tco.py b/unpythonic/tco.py
index 16eb80d..b9ad891 100644
--- a/unpythonic/tco.py
+++ b/unpythonic/tco.py
@@ -137,7 +137,7 @@ from .dynassign import dyn
 # In principle, jump should have @passthrough_lazy_args, but for performance reasons
 # it doesn't. "force(target)" is slow, so strict code shouldn't have to do that.
 # This is handled by a special case in maybe_force_args.
-def jump(target, *args, **kwargs):
+def jump(target, /, *args, **kwargs):
     """A jump (noun, not verb).
 
     Used in the syntax `return jump(f, ...)` to request the trampoline to
-- 
2.43.0


From d54302eb5851e654c234201e6b313d664fc75daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:20 +0000
Subject: [PATCH 05/79] fix: curry, partial: chains of three or more partial
 applications, annotated functions, callable objects

functools.partial objects are not flattened by functools.partial once they have
an instance __dict__ (functools.wraps creates it), so after three steps
typing.get_type_hints was called on a partial object and raised TypeError. The
type check of the second and later steps bound all arguments collected so far to
the parameters still left, hence checked them against wrong annotations. For
generic functions, the inspection of the partial object failed with ValueError if
the first multimethod had fewer parameters.
---
 unpythonic/fun.py | 46 ++++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index b7e5fd5..e074c1c 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -134,14 +134,7 @@ def partial(func, /, *args, **kwargs):
     # HACK: As of Python 3.8, `typing.get_type_hints` does not know about `functools.partial` objects,
     # HACK: but those objects have `args` and `keywords` attributes, so we can extract what we need.
     # TODO: Maybe remove this hack if `typing.get_type_hints` gets support for `functools.partial` at some point.
-    if isinstance(func, functools_partial):
-        thecallable = func.func
-        collected_args = func.args + args
-        collected_kwargs = {**func.keywords, **kwargs}
-    else:
-        thecallable = func
-        collected_args = args
-        collected_kwargs = kwargs
+    thecallable, collected_args, collected_kwargs = _unwrap_partial(func, args, kwargs)
 
     if isgeneric(thecallable):  # multiple dispatch
         # For generic functions, at least one multimethod must match the partial signature
@@ -150,30 +143,42 @@ def partial(func, /, *args, **kwargs):
             _raise_multiple_dispatch_error(thecallable, collected_args, collected_kwargs,
                                            candidates=_list_multimethods(thecallable,
                                                                          _extract_self_or_cls(thecallable,
-                                                                                              args)),
+                                                                                              collected_args)),
                                            _partial=True)
     else:  # Not `@generic` or `@typed`; just a function that might have type annotations.
         # It's not very unpythonic-ic to provide this since we already have `@typed` for this use case,
         # but it's much more pythonic, if the type-checking `partial` works properly for code that does
         # not opt in to `unpythonic`'s multiple-dispatch subsystem.
         # TODO: There's some repeated error-reporting code in `unpythonic.dispatch`.
-        type_signature = get_type_hints(thecallable)
+        try:
+            type_signature = get_type_hints(thecallable)
+        except TypeError:  # an instance of a class that defines `__call__`
+            type_signature = get_type_hints(type(thecallable).__call__)
         if type_signature:  # TODO: Python 3.8+: use walrus assignment here
             # Partial mode: allow leaving some parameters unbound.
-            bound_arguments = _resolve_bindings(func, collected_args, collected_kwargs, _partial=True)
+            bound_arguments = _resolve_bindings(thecallable, collected_args, collected_kwargs, _partial=True)
             # Allow having some parameters without type annotations, in which case those parameters
             # will not be type-checked. `@generic` requires them for all parameters except
             # `self`/`cls`, but type annotations in general have no such requirement.
             mismatches = _get_argument_type_mismatches(type_signature, bound_arguments, skip_unannotated=True)
             if mismatches:
-                description = _format_callable(func)
+                description = _format_callable(thecallable)
                 mismatches_list = [f"{parameter}={repr(value)}, expected {expected_type}"
                                        for parameter, value, expected_type in mismatches]
                 mismatches_str = "; ".join(mismatches_list)
                 raise TypeError(f"When partially applying {description}:\nParameter binding(s) do not match type specification: {mismatches_str}")
 
-    # `functools.partial` already handles chaining partial applications, so send only the new args/kwargs to it.
-    return functools_partial(func, *args, **kwargs)
+    # `functools.partial` does not always flatten chained partial applications (it does not, if the original
+    # `partial` object has an instance `__dict__`, which `functools.wraps` triggers), so we do it ourselves.
+    return functools_partial(thecallable, *collected_args, **collected_kwargs)
+
+def _unwrap_partial(f, args, kwargs):
+    """Internal helper. Return `(function, collected_args, collected_kwargs)`, with `f` stripped of any `functools.partial`."""
+    while isinstance(f, functools_partial):
+        args = f.args + args
+        kwargs = {**f.keywords, **kwargs}
+        f = f.func
+    return f, args, kwargs
 
 # --------------------------------------------------------------------------------
 
@@ -326,7 +331,7 @@ def curry(f, /, *args, _curry_force_call=False, _curry_allow_uninspectable=False
     # will perform the signature analysis.)
     if not (args or kwargs):
         try:
-            signature(f)
+            signature(_unwrap_partial(f, (), {})[0])
         except ValueError as err:  # inspection failed in inspect.signature()?
             msg = err.args[0]
             if "no signature found" in msg:
@@ -442,7 +447,7 @@ def curry(f, /, *args, _curry_force_call=False, _curry_allow_uninspectable=False
                 # Any args/kwargs already known to be incompatible with the call signature of `f`
                 # must not be bound now; hold them until the call triggers.
                 extra_args, extra_kwargs = (), {}
-                if not isgeneric(f.func if isinstance(f, functools_partial) else f):
+                if not isgeneric(_unwrap_partial(f, (), {})[0]):
                     extra_args, extra_kwargs = analysis.extra_args, analysis.extra_kwargs
                 if extra_args:
                     args = args[:-len(extra_args)]
@@ -510,14 +515,7 @@ def _decide_curry_action(f, args, kwargs):
     # To support kwargs properly, we must compute argument bindings anyway, so we also use the
     # `func` and `args` attributes. This allows us to compute the bindings of all arguments
     # against the original function.
-    if isinstance(f, functools_partial):
-        function = f.func
-        collected_args = f.args + args
-        collected_kwargs = {**f.keywords, **kwargs}
-    else:
-        function = f
-        collected_args = args
-        collected_kwargs = kwargs
+    function, collected_args, collected_kwargs = _unwrap_partial(f, args, kwargs)
 
     def _bind_arguments(thecallable):
         # For this check we look for a complete match, hence `_partial=False`.
-- 
2.43.0


From 39cd4f18272c329ef0bc6de54a47ec76822a5f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:31 +0000
Subject: [PATCH 06/79] fix: arities, kwargs: bound methods that take self in
 *args or with a default; keyword-only names of generic functions

arities reported a minimum arity of -1 for such bound methods, and
required_kwargs, optional_kwargs and kwargs crashed on a generic function
with keyword-only parameters (a dict was used where a set was meant).
---
 unpythonic/arity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unpythonic/arity.py b/unpythonic/arity.py
index 7b46d28..6c16c86 100644
--- a/unpythonic/arity.py
+++ b/unpythonic/arity.py
@@ -270,7 +270,7 @@ def arities(f):
             elif v.kind is Parameter.VAR_POSITIONAL:
                 upper = _infty  # no upper limit
         if kind in ("instancemethod", "classmethod"):  # self/cls is passed implicitly
-            lower -= 1
+            lower = max(0, lower - 1)  # `self` may have a default, or be a part of `*args`
             upper -= 1
         return lower, upper
     except (TypeError, ValueError) as e:  # likely an uninspectable method of a builtin
@@ -306,7 +306,7 @@ def _kwargs(f, optionals=True):
     # Integration with the multiple-dispatch system (multimethods).
     from .dispatch import isgeneric, list_methods  # circular import
     if isgeneric(f):
-        thekwargs = {}
+        thekwargs = set()
         for (thecallable, type_signature) in list_methods(f):
             thekwargs.update(_kwargs(thecallable, optionals=optionals))
         return thekwargs
-- 
2.43.0


From f3a5495507d6d5168dd247beeaadfdf4b531c835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:57 +0000
Subject: [PATCH 07/79] fix: pipe, piped, lazy_piped: return an empty Values
 as-is instead of raising IndexError

---
 unpythonic/seq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unpythonic/seq.py b/unpythonic/seq.py
index 3c39318..f503ab7 100644
--- a/unpythonic/seq.py
+++ b/unpythonic/seq.py
@@ -343,7 +343,7 @@ def pipe(values0, *bodys):
             else:
                 xs = maybe_force_args(update, xs)
     if isinstance(xs, Values):
-        return xs if xs.kwrets or len(xs.rets) > 1 else xs[0]
+        return xs if xs.kwrets or len(xs.rets) != 1 else xs[0]
     return xs
 
 @passthrough_lazy_args
@@ -396,7 +396,7 @@ class piped:
         xs = self._xs
         assert isinstance(xs, Values)  # __init__ ensures this
         if f is exitpipe:
-            return xs if xs.kwrets or len(xs.rets) > 1 else xs[0]
+            return xs if xs.kwrets or len(xs.rets) != 1 else xs[0]
         cls = self.__class__
         newxs = maybe_force_args(f, *xs.rets, **xs.kwrets)
         if isinstance(newxs, Values):
@@ -464,7 +464,7 @@ class lazy_piped:
                 else:
                     vs = maybe_force_args(g, vs)
             if isinstance(vs, Values):
-                ret = vs if vs.kwrets or len(vs.rets) > 1 else vs[0]
+                ret = vs if vs.kwrets or len(vs.rets) != 1 else vs[0]
             else:
                 ret = vs
             # In `unpythonic`, return values are never implicitly lazy.
-- 
2.43.0


From 362acbda322172d7bac2f23e5ba6ca291d8558e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:08 +0000
Subject: [PATCH 08/79] fix: composerc: passthrough works also for chains of
 three or more functions

When composing from the right, the functions applied later are already composed,
and a composed function was not recognized as curried. Hence no curry context was
provided for the function applied first, and its leftover args raised TypeError.
---
 unpythonic/fun.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index e074c1c..e077214 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -905,7 +905,7 @@ def _make_compose(direction):
         """
         def composed(*args, **kwargs):
             bindings = {}
-            if iscurried(f):
+            if starts_with_curried(f):
                 # Co-operate with curry: provide a top-level curry context
                 # to allow passthrough from the function that is applied first
                 # to the function that is applied second.
@@ -915,7 +915,11 @@ def _make_compose(direction):
             if isinstance(a, Values):
                 return maybe_force_args(f, *a.rets, **a.kwrets)
             return maybe_force_args(f, a)
+        composed._starts_with_curried = starts_with_curried(g)
         return composed
+    def starts_with_curried(f):
+        """Whether the function that first receives the arguments of `f` is curried."""
+        return iscurried(f) or getattr(f, "_starts_with_curried", False)
     if direction == "right":
         compose_two = flip(compose_two)
     def compose(fs):
-- 
2.43.0


From 861db0825b3476f2f68bd9135b71987fb5e83685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:52 +0000
Subject: [PATCH 09/79] fix: tokth, tolast: accept index -n, like standard
 negative indices; tolast(f) works with one argument

---
 unpythonic/fun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index e077214..d6e8fb4 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -1009,8 +1009,8 @@ def tokth(k, f):
         n = len(args)
         if not n:
             raise TypeError("Expected at least one argument")
-        if not -n < k < n:  # standard semantics for negative indices
-            raise IndexError(f"Should have -n < k < n, but n = len(args) = {n}, and k = {k}")
+        if not -n <= k < n:  # standard semantics for negative indices
+            raise IndexError(f"Should have -n <= k < n, but n = len(args) = {n}, and k = {k}")
         j = k % n  # --> j ∈ {0, 1, ..., n - 1}, even if k < 0
         m = j + 1  # --> m ∈ {1, 2, ..., n}
         out = list(args[:j])
-- 
2.43.0


From 76edc618f54c0cab7006e99fff71c1ecd6a9c344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:39 +0000
Subject: [PATCH 10/79] fix: compose: composing a single function returns it
 as-is, without marking it as lazy

The single function itself was given the passthrough_lazy_args mark, which
changed the behavior of the original function inside 'with lazify' blocks,
and raised AttributeError for builtin functions.
---
 unpythonic/fun.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index d6e8fb4..f8c98c2 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -818,7 +818,7 @@ def _make_compose1(direction):
     """
     def compose1_two(f, g):
         # return lambda x: f(g(x))
-        return lambda x: maybe_force_args(f, maybe_force_args(g, x))
+        return passthrough_lazy_args(lambda x: maybe_force_args(f, maybe_force_args(g, x)))
     if direction == "right":
         compose1_two = flip(compose1_two)
     def compose1(fs):
@@ -839,9 +839,7 @@ def _make_compose1(direction):
         # Using reducel is particularly nice here:
         #  - if fs is empty, we output None
         #  - if fs contains only one item, we output it as-is
-        composed = reducel(compose1_two, fs)  # op(elt, acc)
-        composed = passthrough_lazy_args(composed)
-        return composed
+        return reducel(compose1_two, fs)  # op(elt, acc)
     return compose1
 
 _compose1_left = _make_compose1("left")
@@ -916,7 +914,7 @@ def _make_compose(direction):
                 return maybe_force_args(f, *a.rets, **a.kwrets)
             return maybe_force_args(f, a)
         composed._starts_with_curried = starts_with_curried(g)
-        return composed
+        return passthrough_lazy_args(composed)
     def starts_with_curried(f):
         """Whether the function that first receives the arguments of `f` is curried."""
         return iscurried(f) or getattr(f, "_starts_with_curried", False)
@@ -930,9 +928,7 @@ def _make_compose(direction):
         public API functions whose names explicitly state the direction.
         """
         fs = force(fs)
-        composed = reducel(compose_two, fs)  # op(elt, acc)
-        composed = passthrough_lazy_args(composed)
-        return composed
+        return reducel(compose_two, fs)  # op(elt, acc)
     return compose
 
 _compose_left = _make_compose("left")
-- 
2.43.0


From 2b27366fa6ee59bc4b4ab4a88f15f2f1331a8e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:02 +0000
Subject: [PATCH 11/79] fix: inn: require only comparisons of the elements, not
 subtraction, as documented

---
 unpythonic/it.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/unpythonic/it.py b/unpythonic/it.py
index b53caf4..a87c366 100644
--- a/unpythonic/it.py
+++ b/unpythonic/it.py
@@ -673,9 +673,7 @@ def inn(x, iterable):
             return False
     if yj == x:
         return True
-    d = yj - y0
-    assert d != 0
-    pred = (lambda elt: elt <= x) if d > 0 else (lambda elt: elt >= x)
+    pred = (lambda elt: elt <= x) if yj >= y0 else (lambda elt: elt >= x)
     return x in takewhile(pred, it)
 
 def iindex(x, iterable):
-- 
2.43.0


From 3bb29591689fc3605948aa3f844fffab633ee35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:02 +0000
Subject: [PATCH 12/79] fix: within: do not lose the last item of a finite
 input that ends before converging

---
 unpythonic/it.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/unpythonic/it.py b/unpythonic/it.py
index a87c366..8af25a0 100644
--- a/unpythonic/it.py
+++ b/unpythonic/it.py
@@ -783,11 +783,17 @@ def within(tol, iterable):
     (infinite output, or terminating the output early if a part of it looks
     like a converging sequence; think a local maximum of `cos(x)`).
     """
-    for a, b in window(2, iterable):
-        yield a
+    it = iter(iterable)
+    try:
+        a = next(it)
+    except StopIteration:
+        return
+    yield a
+    for b in it:
+        yield b
         if abs(a - b) <= tol:
-            yield b
             return
+        a = b
 
 def interleave(*iterables):
     """Interleave items from several iterables. Generator.
-- 
2.43.0


From 078f699a61b45c1a8c1d3cae546d0f8c1a38693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:02 +0000
Subject: [PATCH 13/79] fix: interleave: no inputs is the empty iterator, not
 an infinite loop

---
 unpythonic/it.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/it.py b/unpythonic/it.py
index 8af25a0..9d69fd3 100644
--- a/unpythonic/it.py
+++ b/unpythonic/it.py
@@ -815,7 +815,7 @@ def interleave(*iterables):
             except StopIteration:
                 raise ShortestInputEnded()
     try:
-        while True:
+        while iters:
             yield from roundrobin()
     except ShortestInputEnded:
         return
-- 
2.43.0


From 92592c7170a1f972b0b7003daeaf5b0e4661fc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:28 +0000
Subject: [PATCH 14/79] fix: gmemoize: the end of the sequence is not an item
 of the memo (len, indexing and slicing of an exhausted memoized generator)

---
 unpythonic/gmemo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unpythonic/gmemo.py b/unpythonic/gmemo.py
index ecd14e6..a8871f4 100644
--- a/unpythonic/gmemo.py
+++ b/unpythonic/gmemo.py
@@ -124,7 +124,9 @@ class _MemoizedGenerator:
             else:
                 try:
                     result = (_success, next(self.g))
-                except BaseException as err:  # StopIteration propagates, not a BaseException
+                except StopIteration:  # end of sequence; not an item, so not memoized
+                    raise
+                except BaseException as err:
                     result = (_fail, err)
                 memo.append(result)
             kind, value = result
-- 
2.43.0


From 4413fd015abf6694fedfec1dd203ed9c7e58c511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:29 +0000
Subject: [PATCH 15/79] fix: gmemoize: thread safety of creating a memoized
 sequence, and of sharing one instance between threads

---
 unpythonic/gmemo.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/unpythonic/gmemo.py b/unpythonic/gmemo.py
index a8871f4..35c05a3 100644
--- a/unpythonic/gmemo.py
+++ b/unpythonic/gmemo.py
@@ -92,12 +92,14 @@ def gmemoize(gfunc):
     See also ``imemoize``, ``fimemoize``.
     """
     memos = {}
+    lock = RLock()
     @wraps(gfunc)
     def gmemoized(*args, **kwargs):
         k = tuplify_bindings(resolve_bindings(gfunc, *args, **kwargs))
-        if k not in memos:
-            # underlying generator instance, memo instance, lock instance
-            memos[k] = (gfunc(*args, **kwargs), [], RLock())
+        with lock:
+            if k not in memos:
+                # underlying generator instance, memo instance, lock instance
+                memos[k] = (gfunc(*args, **kwargs), [], RLock())
         return _MemoizedGenerator(*memos[k])
     return gmemoized
 
@@ -116,9 +118,9 @@ class _MemoizedGenerator:
     def __iter__(self):
         return self
     def __next__(self):
-        j = self.j
         memo = self.memo
         with self.lock:
+            j = self.j
             if j < len(memo):
                 result = memo[j]
             else:
-- 
2.43.0


From 3461e7b807bd33affede804c32eb86513c074022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:12 +0000
Subject: [PATCH 16/79] fix: s: specifications that match no formula raise
 SyntaxError also when a logarithm is undefined; signs of power sequences;
 roundoff in the final element of alternating sequences

---
 unpythonic/mathseq.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/unpythonic/mathseq.py b/unpythonic/mathseq.py
index dc35342..6f3ad02 100644
--- a/unpythonic/mathseq.py
+++ b/unpythonic/mathseq.py
@@ -310,12 +310,17 @@ def s(*spec):
                         # becomes float
                         r = (r1 + r2) / 2
                     return ("geom", a0, r)
-            if abs(a0) != 1 and a1 != 0 and a2 != 0:
+            if abs(a0) not in (0, 1) and abs(a1) not in (0, 1) and a2 != 0:
                 p1 = log(abs(a1), abs(a0))
                 p2 = log(abs(a2), abs(a1))
                 if almosteq(p1, p2):  # a0, a0**p, (a0**p)**p, ...  [a0, **p]
                     p = (p1 + p2) / 2
-                    return ("power", a0, p)
+                    if isinstance(p, _symExpr):
+                        return ("power", a0, p)
+                    if is_almost_int(p):
+                        p = round(p)
+                    if almosteq(a0**p, a1) and almosteq(a1**p, a2):  # check the signs, too
+                        return ("power", a0, p)
             # Most unrecognized sequences trigger this case.
             raise SyntaxError(f"Specification did not match any supported formula: '{origspec}'")
         else:  # more elements are optional but must be consistent
@@ -333,6 +338,11 @@ def s(*spec):
     # final term handler for finite sequences - compute how many terms we should generate in total
     infty = float("inf")
     def nofterms(desc, elt):  # return total number of terms in sequence or False
+        try:
+            return _nofterms(desc, elt)
+        except (ValueError, ZeroDivisionError, OverflowError):  # e.g. logarithm not defined, so no such term
+            return False
+    def _nofterms(desc, elt):
         seqtype, x0, k = desc
         if seqtype == "const":
             if elt == x0:
@@ -346,16 +356,19 @@ def s(*spec):
             # elt = x0*(k**a) --> k**a = (elt/x0) --> a = logk(elt/x0)
             a = log(abs(elt / x0), abs(k))
             if is_almost_int(a) and a > 0:
+                a = round(a)
                 if not almosteq(x0 * (k**a), elt):  # check parity of final term, could be an alternating sequence
                     return False
-                return int(1 + round(a))
+                return int(1 + a)
         else:  # seqtype == "power":
             # elt = x0**(k**a) --> k**a = logx0 elt --> a = logk (logx0 elt)
-            a = log(log(abs(elt), abs(x0)), abs(k))
+            b = log(abs(elt), abs(x0))
+            a = log(b if isinstance(b, _symExpr) else abs(b), abs(k))
             if is_almost_int(a) and a > 0:
+                a = round(a)
                 if not almosteq(x0**(k**a), elt):  # parity
                     return False
-                return int(1 + round(a))
+                return int(1 + a)
         return False
 
     # v0.14.3+: cyclic infinite sequences
-- 
2.43.0


From 35a2db941643c2c80eb543f4592e483f93c60502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:56 +0000
Subject: [PATCH 17/79] fix: islice: negative start with stop at or before it;
 in_slice, fup: standard semantics for slice endpoints outside the sequence

---
 unpythonic/collections.py | 11 +++++------
 unpythonic/slicing.py     |  7 +++----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 280f870..34ec00d 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -931,6 +931,9 @@ def _canonize_slice(s, length=None, wrap=None):  # convert negatives, inject def
     if step == 0:
         raise ValueError("slice step cannot be zero")  # message copied from range(5)[0:4:0]
 
+    if length is not None:  # standard semantics, incl. clipping the endpoints to the sequence
+        return s.indices(length)
+
     wrap = wrap or _make_negidx_converter(length)
 
     start = wrap(s.start)
@@ -938,16 +941,12 @@ def _canonize_slice(s, length=None, wrap=None):  # convert negatives, inject def
         if step > 0:
             start = 0
         else:
-            if length is None:
-                raise ValueError("Need length to determine default start for step < 0")
-            start = wrap(-1)
+            raise ValueError("Need length to determine default start for step < 0")
 
     stop = wrap(s.stop)
     if stop is None:
         if step > 0:
-            if length is None:
-                raise ValueError("Need length to determine default stop for step > 0")
-            stop = length
+            raise ValueError("Need length to determine default stop for step > 0")
         else:
             stop = -1  # yes, really -1 to have index 0 inside the slice
 
diff --git a/unpythonic/slicing.py b/unpythonic/slicing.py
index 1188407..6a0e417 100644
--- a/unpythonic/slicing.py
+++ b/unpythonic/slicing.py
@@ -74,15 +74,14 @@ def islice(iterable):
                     start = stop = None
                 elif start and start < 0:
                     n, start = -start, None
-                    if not stop:
+                    if stop is None:
                         it = lastn(n, iterable)
-                    else:  # stop and stop > 0:
+                    else:  # stop >= 0:
                         # to adjust stop, we must know how many items are dropped
                         cit = CountingIterator(iterable)
                         it = tuple(lastn(n, cit))  # force to actually count (note lastn stores only <= n items)
                         n_dropped = max(0, cit.count - n)  # max needed if start is past the start of iterable
-                        stop -= n_dropped
-                        assert stop >= 0
+                        stop = max(0, stop - n_dropped)  # max needed if stop is before start
                 elif stop and stop < 0:
                     it = butlastn(-stop, iterable)
                     stop = None
-- 
2.43.0


From 6459945fc6458992e150f1bd163b85fa365f5e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:00 +0000
Subject: [PATCH 18/79] fix: fup: index one past the end, and a replacement
 iterable that is too short, raise IndexError as documented

---
 unpythonic/collections.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 34ec00d..60eb83e 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -840,7 +840,10 @@ class ShadowedSequence(Sequence, _StrReprEqMixin):
                 if n_skip:
                     # NOTE: If the iterable is memoized, the items we drop here will enter the memo.
                     self._v_it = drop(n_skip, self._v_it)
-                return next(self._v_it)
+                try:
+                    return next(self._v_it)
+                except StopIteration:
+                    raise IndexError(f"Replacement iterable too short; attempted to access index {i}") from None
             else:
                 assert False
         return self.seq[k]  # not in slice
@@ -910,11 +913,8 @@ def _make_negidx_converter(length):
                 # `convert` function is returned to the caller, let's be
                 # careful.
                 raise TypeError(f"k must be int, got {type(k)} with value {k}")  # pragma: no cover
-            # Almost standard semantics for negative indices. Usually -n < k < n,
-            # but here we must allow for conversion of the end position, for
-            # which the last valid value is one past the end.
-            if length is not None and not -length <= k <= length:
-                raise IndexError(f"Should have -length <= k <= length, but length = {length}, and k = {k}")
+            if length is not None and not -length <= k < length:
+                raise IndexError(f"Should have -length <= k < length, but length = {length}, and k = {k}")
             return apply_conversion(k) if k < 0 else k
     return convert
 
-- 
2.43.0


From 2176d658a1cd0ce32bf810594561117be1e04ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:44 +0000
Subject: [PATCH 19/79] fix: ShadowedSequence: slicing of chained instances

---
 unpythonic/collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 60eb83e..1087947 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -798,7 +798,7 @@ class ShadowedSequence(Sequence, _StrReprEqMixin):
             return self.seq[k]
         n = len(self)
         if isinstance(k, slice):
-            cls = type(self.seq)
+            cls = type(getattrrec(self, "seq"))  # de-onionize
             ctor = tuple if hasattr(cls, "_make") else cls  # slice of namedtuple -> tuple
             return ctor(self._getone(j) for j in range(n)[k])
         elif isinstance(k, tuple):
-- 
2.43.0


From 7d4790f4cabeaf1b9c1660937cfb2e0e1bd182ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:14 +0000
Subject: [PATCH 20/79] fix: view: stale indices in views of views after the
 underlying length changes; assigning from an overlapping view

---
 unpythonic/collections.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 1087947..3470d18 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -638,7 +638,10 @@ class roview(SequenceView, _StrReprEqMixin):
         return len(r)
 
     def _update_cache(self):
-        seql = len(self.seq)
+        seq = self.seq
+        while isinstance(seq, roview):
+            seq = seq.seq
+        seql = len(seq)  # of the underlying data; an intermediate view may shift without changing its length
         if seql != self._seql:
             self._seql = seql
             self._cache = self._range()
@@ -723,7 +726,7 @@ class view(roview, MutableSequenceView):
                 vs = iter(v)
             except TypeError:  # scalar broadcast à la NumPy
                 vs = repeat(v)
-            for j, item in zip(r[k], vs):
+            for j, item in list(zip(r[k], vs)):  # `v` may depend on `data`, so read all of it first
                 data[j] = item
         elif isinstance(k, tuple):
             raise TypeError(f"multidimensional subscripting not supported; got {repr(k)}")
-- 
2.43.0


From 4daf83455b1a5242b7339aeff23351f6c75e2858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:40 +0000
Subject: [PATCH 21/79] fix: frozendict: an empty subclass instance has the
 right type; Shim: a falsy fallback object works; mogrify: view of a
 namedtuple

---
 unpythonic/collections.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 3470d18..af75c15 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -127,7 +127,8 @@ def mogrify(func, container):
         elif isinstance(x, Some):
             return Some(doit(x.get()))
         elif isinstance(x, SequenceView):  # our own cat food
-            ctor = type(getattrrec(x, "seq"))  # de-onionize
+            cls = type(getattrrec(x, "seq"))  # de-onionize
+            ctor = tuple if hasattr(cls, "_make") else cls  # slice of namedtuple -> tuple
             return ctor(doit(elt) for elt in x)
         # dict_items and similar cannot be instantiated, and they support only iteration,
         # not in-place modification, so return a regular set
@@ -376,7 +377,7 @@ class Shim:
     def __getattr__(self, k):
         thing = unbox(self._shim_box)
         fallback = self._shim_fallback
-        if not fallback or hasattr(thing, k):
+        if fallback is None or hasattr(thing, k):
             return getattr(thing, k)
         # fallback and not hasattr(thing, k)
         otherthing = unbox(fallback) if isinstance(fallback, box) else fallback
@@ -428,7 +429,7 @@ class frozendict:
     # Make the empty frozendict() a singleton, but allow invoking the constructor
     # multiple times, always returning the same instance.
     def __new__(cls, *ms, **bindings):
-        if not ms and not bindings:
+        if cls is frozendict and not ms and not bindings:  # a subclass must get an instance of its own
             global _the_empty_frozendict
             if _the_empty_frozendict is None:
                 _the_empty_frozendict = super().__new__(cls)
-- 
2.43.0


From 4eb595396dad9de76b258440b9ea196aaee244ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:11 +0000
Subject: [PATCH 22/79] fix: llist: equality, hash and repr of deeply nested
 trees take linear time; nil is reversible and has no members; cons attributes
 cannot be deleted; llist of a partly consumed reverse iterator

---
 unpythonic/llist.py | 72 ++++++++++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 31 deletions(-)

diff --git a/unpythonic/llist.py b/unpythonic/llist.py
index a8a56d9..a088afe 100644
--- a/unpythonic/llist.py
+++ b/unpythonic/llist.py
@@ -6,7 +6,6 @@ Hashable, pickleable, hooks into the built-in reversed(), can print like in Lisp
 
 from abc import ABCMeta, abstractmethod
 from collections.abc import Iterable, Iterator
-from itertools import zip_longest
 
 from .fun import composer1i
 from .fold import foldr, foldl
@@ -41,6 +40,8 @@ class Nil(Singleton):
         return self
     def __next__(self):
         raise StopIteration()
+    def __reversed__(self):
+        return self
     def __repr__(self):
         return "nil"
 nil = Nil()
@@ -97,6 +98,10 @@ class LinkedListReverseIterator(LinkedListIterator):
     def __init__(self, head, _fullerror=True):
         self._data = lreverse(head)
         super().__init__(self._data, _fullerror)
+    def __next__(self):
+        value = super().__next__()
+        self._data = self._data.cdr  # the part not yet walked; see `llist`
+        return value
 
 class LinkedListOrCellIterator(ConsIterator):
     """Like LinkedListIterator, but allow also a single cons cell.
@@ -220,6 +225,8 @@ class cons:
         if hasattr(self, "_immutable"):
             raise TypeError("'cons' object does not support item assignment")
         super().__setattr__(k, v)
+    def __delattr__(self, k):
+        raise TypeError("'cons' object does not support item deletion")
     def __iter__(self):
         """Return iterator with default iteration scheme: single cell or list."""
         return LinkedListOrCellIterator(self)
@@ -230,44 +237,45 @@ class cons:
         """Representation in pythonic notation.
 
         Suitable for ``eval`` if all elements are."""
-        try:  # duck test linked list (true list only, no single-cell pair)
-            # listcomp, not genexpr, since we want to trigger any exceptions **now**.
-            result_list = [repr(x) for x in LinkedListIterator(self, _fullerror=False)]
-            result_str = ", ".join(result_list)
-            return f"ll({result_str})"
-        except TypeError:
-            result_list = (repr(self.car), repr(self.cdr))
-            result_str = ", ".join(result_list)
-            return f"cons({result_str})"
+        items = self._as_linked_list()
+        if items is not None:  # true list only, no single-cell pair
+            return f"ll({', '.join(repr(x) for x in items)})"
+        return f"cons({repr(self.car)}, {repr(self.cdr)})"
     def lispyrepr(self):  # TODO: maybe rename or alias this to `__str__`?
         """Representation in Lisp-like dot notation."""
-        try:
-            result_list = [repr(x) for x in LinkedListIterator(self, _fullerror=False)]
-        except TypeError:
+        items = self._as_linked_list()
+        if items is not None:
+            result_list = [repr(x) for x in items]
+        else:
             r = lambda obj: obj.lispyrepr() if hasattr(obj, "lispyrepr") else repr(obj)
             result_list = (r(self.car), ".", r(self.cdr))
         result_str = " ".join(result_list)
         return f"({result_str})"
+    def _as_linked_list(self):
+        """If this cell begins a linked list, return its elements as a list, otherwise `None`.
+
+        This only walks the cells; the elements themselves are not touched. Particularly,
+        an exception in an operation on an element won't be confused with not being a list,
+        and a tree nested in the `car` half won't be processed more than once.
+        """
+        try:
+            return list(LinkedListIterator(self, _fullerror=False))
+        except TypeError:
+            return None
     def __eq__(self, other):
-        if other is self:
-            return True
-        if isinstance(other, cons):
-            try:  # duck test linked lists
-                ia, ib = (LinkedListIterator(x) for x in (self, other))
-                fill = object()  # gensym("fill"), but object() is much faster, and we don't need a label, or pickle support.
-                for a, b in zip_longest(ia, ib, fillvalue=fill):
-                    if a != b:
-                        return False
-                return True
-            except TypeError:
-                return self.car == other.car and self.cdr == other.cdr
-        return False
+        if not isinstance(other, cons):
+            return False
+        a, b = self, other
+        while a is not b:  # loop in the `cdr` half, recurse in the `car` half
+            if a.car != b.car:
+                return False
+            a, b = a.cdr, b.cdr
+            if not (isinstance(a, cons) and isinstance(b, cons)):
+                return a == b
+        return True
     def __hash__(self):
-        try:  # duck test linked list
-            tpl = tuple(LinkedListIterator(self))
-        except TypeError:
-            tpl = (self.car, self.cdr)
-        return hash(tpl)
+        items = self._as_linked_list()
+        return hash(tuple(items) if items is not None else (self.car, self.cdr))
 
 def _car(x):
     return _typecheck(x).car
@@ -380,6 +388,8 @@ def member(x, l):
     Returns:
         The matching cons cell (tail of l) if x was found; False if not.
     """
+    if l is nil:
+        return False
     for t in TailIterator(l):
         if t.car == x:
             return t
-- 
2.43.0


From 87414d573f1b549c1d2da23af778f2640c370e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:11 +0000
Subject: [PATCH 23/79] fix: sym, gensym, Singleton: pickle protocols 0 and 1
 keep identity; race with an instance that is being garbage collected; str of
 a sym whose name is not a string

---
 unpythonic/singleton.py | 12 ++++++++----
 unpythonic/symbol.py    | 28 +++++++++++++++++-----------
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/unpythonic/singleton.py b/unpythonic/singleton.py
index 8cf7426..08bdd45 100644
--- a/unpythonic/singleton.py
+++ b/unpythonic/singleton.py
@@ -178,15 +178,19 @@ class Singleton(metaclass=ThereCanBeOnlyOne):
         except KeyError:
             # Then be careful to avoid race conditions.
             with _instances_update_lock:
-                if cls not in _instances:
+                # If some other thread acquired the lock before us, and created the instance
+                # (and that instance is still alive), we use that.
+                instance = _instances.get(cls)
+                if instance is None:
                     # We were the first thread to acquire the lock.
                     # Make a strong reference to keep the new instance alive until construction is done.
                     instance = _instances[cls] = super().__new__(cls)
-                else:
-                    # Some other thread acquired the lock before us, and created the instance.
-                    instance = _instances[cls]
             return instance
 
+    # Pickle protocols older than 2 don't call our `__new__` at unpickle time.
+    def __reduce_ex__(self, protocol):
+        return super().__reduce_ex__(max(protocol, 2))
+
 
 # TODO: This won't work with classes that need another custom metaclass,
 # TODO: because then there's no unique most specific metaclass.
diff --git a/unpythonic/symbol.py b/unpythonic/symbol.py
index a9dccaa..361a5ef 100644
--- a/unpythonic/symbol.py
+++ b/unpythonic/symbol.py
@@ -70,13 +70,13 @@ class sym(Symbol):
         except KeyError:
             # But we still need to be careful to avoid race conditions.
             with _symbols_update_lock:
-                if name not in _symbols:
+                # If some other thread acquired the lock before us, and created the instance
+                # (and that instance is still alive), we use that.
+                instance = _symbols.get(name)
+                if instance is None:
                     # We were the first thread to acquire the lock.
                     # Make a strong reference to keep the new instance alive until construction is done.
                     instance = _symbols[name] = super().__new__(cls)
-                else:
-                    # Some other thread acquired the lock before us, and created the instance.
-                    instance = _symbols[name]
             return instance
 
     def __init__(self, name):
@@ -92,8 +92,12 @@ class sym(Symbol):
     def __getnewargs__(self):
         return (self.name,)
 
+    # Pickle protocols older than 2 don't pass any args to `__new__`.
+    def __reduce_ex__(self, protocol):
+        return super().__reduce_ex__(max(protocol, 2))
+
     def __str__(self):
-        return self.name
+        return str(self.name)
     def __repr__(self):
         return f'sym("{self.name}")'
 
@@ -115,13 +119,12 @@ class gsym(Symbol):
             return _gensyms[uid]
         except KeyError:
             with _gensyms_update_lock:
-                if uid not in _gensyms:
+                # Provided that one of the `uuid` functions creates the
+                # `uid`, finding an instance here should only be possible when unpickling
+                # the same pickled gsym in several threads simultaneously.
+                instance = _gensyms.get(uid)
+                if instance is None:
                     instance = _gensyms[uid] = super().__new__(cls)
-                else:
-                    # Provided that one of the `uuid` functions creates the
-                    # `uid`, this case should only be possible when unpickling
-                    # the same pickled gsym in several threads simultaneously.
-                    instance = _gensyms[uid]
             return instance
 
     def __init__(self, uid, label):
@@ -131,6 +134,9 @@ class gsym(Symbol):
     def __getnewargs__(self):
         return (self.uid, self.label)
 
+    def __reduce_ex__(self, protocol):
+        return super().__reduce_ex__(max(protocol, 2))
+
     def __str__(self):
         return f"gensym#{self.label}:{self.uid}"
     def __repr__(self):
-- 
2.43.0


From 637a855cf502bca24227eed52726d34cf9cc2bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:21 +0000
Subject: [PATCH 24/79] fix: env, assignonce, let: bindings whose name is a
 mapping method or an internal parameter name; update and setdefault obey the
 same rules as assignment; initial bindings of assignonce; copies don't share
 state

---
 unpythonic/assignonce.py | 11 +++----
 unpythonic/env.py        | 69 +++++++++++++++++++++++++++++-----------
 unpythonic/let.py        |  8 ++---
 3 files changed, 59 insertions(+), 29 deletions(-)

diff --git a/unpythonic/assignonce.py b/unpythonic/assignonce.py
index 0267df9..cef907f 100644
--- a/unpythonic/assignonce.py
+++ b/unpythonic/assignonce.py
@@ -23,10 +23,9 @@ class assignonce(_envcls):
         e.set("foo", "tavern")
         e.foo = "quux"  # AttributeError
     """
-    def __setattr__(self, name, value):
-        if name in self._reserved_names or name not in self:
-            return super().__setattr__(name, value)
-        else:
+    def _check_write(self, name):
+        super()._check_write(name)
+        if name in self:
             raise AttributeError(f"name {repr(name)} is already defined")
 
     def set(self, name, value):
@@ -34,6 +33,6 @@ class assignonce(_envcls):
         env = self._env
         if name not in env:
             raise AttributeError(f"name {repr(name)} is not defined")
-        # important part: bypass our own __setattr__, which would refuse the update.
-        super().__setattr__(name, value)
+        # important part: bypass `_check_write`, which would refuse the update.
+        env[name] = value
         return value
diff --git a/unpythonic/env.py b/unpythonic/env.py
index d5538e4..fe7694b 100644
--- a/unpythonic/env.py
+++ b/unpythonic/env.py
@@ -6,6 +6,23 @@ __all__ = ["env"]
 from collections.abc import Container, Sized, Iterable, Mapping, MutableMapping
 from .lazyutil import passthrough_lazy_args
 
+class _shadowable:
+    """Decorator for the methods of `env` that may be shadowed by a binding of the same name.
+
+    E.g. a binding named `items` must read back as the value bound to it, not as the method.
+    """
+    def __init__(self, method):
+        self.method = method
+        self.__doc__ = method.__doc__
+    def __set_name__(self, owner, name):
+        self.name = name
+    def __get__(self, instance, owner=None):
+        if instance is None:
+            return self.method
+        if self.name in instance._env:
+            return instance._env[self.name]
+        return self.method.__get__(instance, owner)
+
 # co-operate with unpythonic.syntax.lazify; this is essentially a binding construct,
 # so it shouldn't force any promises that are stuffed into the env.
 @passthrough_lazy_args
@@ -57,17 +74,22 @@ class env:
 
     # For pickle support, since unpickling calls `__new__` but not `__init__`.
     # If `self._env` is not present, `__getattr__` will crash with an infinite loop. So create it as early as possible.
-    def __new__(cls, **kwargs):
+    def __new__(cls, /, **bindings):
         instance = super().__new__(cls)
         instance._env = {}
         instance._finalized = False  # "let" sets this once env setup done
-        instance.__init__(**kwargs)
         return instance
 
-    def __init__(self, **bindings):
+    def __init__(self, /, **bindings):
         for name, value in bindings.items():
             setattr(self, name, value)
 
+    def __copy__(self):
+        instance = type(self).__new__(type(self))
+        instance._env = self._env.copy()
+        instance._finalized = self._finalized
+        return instance
+
     # item access by name
     # https://docs.python.org/3/reference/datamodel.html#object.__setattr__
     # https://docs.python.org/3/reference/datamodel.html#object.__getattr__
@@ -75,6 +97,12 @@ class env:
         # TODO: doesn't protect against client code writing to the _direct_write names.
         if name in self._direct_write:  # hook to allow creating internal variables directly in self
             return super().__setattr__(name, value)
+        self._check_write(name)
+#        value = self._wrap(name, value)  # for "e.x << value" rebind syntax.
+        self._env[name] = value  # make all other attrs else live inside _env
+
+    def _check_write(self, name):
+        """Raise an exception if binding `name` is not allowed."""
         if name in self._reserved_names:
             raise AttributeError(f"cannot overwrite reserved name {repr(name)}; complete list: {self._reserved_names}")
         if self._finalized and name not in self:
@@ -82,8 +110,6 @@ class env:
         # Block invalid names in subscripting (which redirects here).
         if not name.isidentifier():
             raise ValueError(f"{repr(name)} is not a valid identifier")
-#        value = self._wrap(name, value)  # for "e.x << value" rebind syntax.
-        self._env[name] = value  # make all other attrs else live inside _env
 
     def __getattr__(self, name):
         # Block invalid names in subscripting (which redirects here).
@@ -114,13 +140,17 @@ class env:
     # no __next__, iterating over dict.
 
     # Mapping
+    @_shadowable
     def items(self):
         """Like dict.items()."""
         return self._env.items()
+    @_shadowable
     def keys(self):
         return self._env.keys()
+    @_shadowable
     def values(self):
         return self._env.values()
+    @_shadowable
     def get(self, k, default=None):
         return self[k] if k in self else default
     def __eq__(self, other):
@@ -130,10 +160,12 @@ class env:
         return len(self._env)
 
     # MutableMapping
+    @_shadowable
     def pop(self, k, *default):
         if self._finalized:
             raise TypeError(f"deleting bindings from a finalized environment not allowed; attempted to delete {repr(k)}")
         return self._env.pop(k, *default)
+    @_shadowable
     def popitem(self):
         if self._finalized:
             raise TypeError("deleting bindings from a finalized environment not allowed")
@@ -142,21 +174,20 @@ class env:
         if self._finalized:
             raise TypeError("clearing a finalized environment not allowed")
         return self._env.clear()
-    def update(self, *mapping, **bindings):
+    @_shadowable
+    def update(self, /, *mapping, **bindings):
         """See `dict.update` for the signature."""
-        if mapping:
-            if len(mapping) > 1:
-                raise ValueError(f"Expected at most one `mapping`, got {len(mapping)}.")
-            m = mapping[0]
-            if self._finalized and any(k not in self for k in m):
-                raise AttributeError("adding new bindings to a finalized environment is not allowed")
-        if self._finalized and any(k not in self for k in bindings):
-            raise AttributeError("adding new bindings to a finalized environment is not allowed")
-        return self._env.update(*mapping, **bindings)
-    def setdefault(self, k, *default):
-        if self._finalized and k not in self:
-            raise AttributeError(f"name {repr(k)} is not defined; adding new bindings to a finalized environment is not allowed")
-        return self._env.setdefault(k, *default)
+        if len(mapping) > 1:
+            raise ValueError(f"Expected at most one `mapping`, got {len(mapping)}.")
+        new_bindings = dict(*mapping, **bindings)
+        for k in new_bindings:  # All or nothing: don't update anything if any of the names is not accepted.
+            self._check_write(k)
+        self._env.update(new_bindings)
+    @_shadowable
+    def setdefault(self, k, default=None):
+        if k not in self:
+            self._check_write(k)
+        return self._env.setdefault(k, default)
 
     # subscripting
     def __getitem__(self, k):
diff --git a/unpythonic/let.py b/unpythonic/let.py
index 3b1a253..f298e0c 100644
--- a/unpythonic/let.py
+++ b/unpythonic/let.py
@@ -212,7 +212,7 @@ def bletrec(**bindings):
     This chains ``@dletrec`` and ``@call``."""
     return _blet("letrec", **bindings)
 
-def _let(mode, body, **bindings):
+def _let(mode, body, /, **bindings):
     assert mode in ("let", "letrec")
     # Important for Python 3.6+, which preserves ordering of kwargs (PEP 468):
     #
@@ -254,11 +254,11 @@ def _let(mode, body, **bindings):
 
 # decorator factory: almost as fun as macros?
 # _envname is for co-operation with the dlet macro.
-def _dlet(mode, _envname="env", **bindings):
+def _dlet(mode, _envname="env", /, **bindings):
     def deco(body):
         # evaluate env only once, when the function def runs
         # (to preserve state between calls to the decorated function)
-        env = _let(mode, body=None, **bindings)
+        env = _let(mode, None, **bindings)
         @wraps(body)
         def withenv(*args, **kwargs):
             kwargs_with_env = kwargs.copy()
@@ -267,7 +267,7 @@ def _dlet(mode, _envname="env", **bindings):
         return withenv
     return deco
 
-def _blet(mode, _envname="env", **bindings):
+def _blet(mode, _envname="env", /, **bindings):
     dlet_deco = _dlet(mode, _envname, **bindings)
     def deco(body):
         return call(dlet_deco(body))
-- 
2.43.0


From 6b0cfef8b9900e582785846a3e79ef5a89f17010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:46 +0000
Subject: [PATCH 25/79] fix: dyn: rebinding an inherited dynamic variable in
 one thread no longer affects the others; names of methods in subscripts and
 membership tests; reusable let; live views don't leak

---
 unpythonic/dynassign.py | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/unpythonic/dynassign.py b/unpythonic/dynassign.py
index 8fce245..658217b 100644
--- a/unpythonic/dynassign.py
+++ b/unpythonic/dynassign.py
@@ -6,6 +6,7 @@ __all__ = ["dyn", "make_dynvar"]
 import threading
 from collections import ChainMap
 from collections.abc import Container, Sized, Iterable, Mapping
+from weakref import WeakValueDictionary
 
 from .singleton import Singleton
 
@@ -26,12 +27,14 @@ def _getstack():
         # TODO: preferable to use the parent thread's current stack, but difficult to get.
         # Could monkey-patch threading.Thread.__init__ to record this information in self...
         with _mainthread_lock:
-            _L._stack = _mainthread_stack.copy()
+            # The scopes must be copied, too. Otherwise rebinding an inherited dynvar
+            # in one thread would rebind it also in the others.
+            _L._stack = [scope.copy() for scope in _mainthread_stack.copy()]
     return _L._stack
 
 def _getobservers():
     if not hasattr(_L, "_observers"):
-        _L._observers = {}
+        _L._observers = WeakValueDictionary()
     return _L._observers
 
 class _EnvBlock(object):
@@ -39,7 +42,7 @@ class _EnvBlock(object):
         self.bindings = bindings
     def __enter__(self):
         if self.bindings:  # optimization, skip pushing an empty scope
-            _getstack().append(self.bindings)
+            _getstack().append(self.bindings.copy())  # copy, since the bindings may be updated inside the block
             for o in _getobservers().values():
                 o._refresh()
     def __exit__(self, t, v, tb):
@@ -49,30 +52,12 @@ class _EnvBlock(object):
                 o._refresh()
 
 # We need multiple observer instances, because dynamic scope stacks are thread-local.
-# If they weren't, this could be a singleton and the __del__ method wouldn't be needed.
+# If they weren't, this could be a singleton.
 class _DynLiveView(ChainMap):
     def __init__(self):
         super().__init__(self)
         self._refresh()
         _getobservers()[id(self)] = self
-    # TODO: __del__ most certainly runs during test_dynassign (as can be
-    # evidenced by placing a debug print inside it), but coverage fails
-    # to report it as covered.
-    def __del__(self):  # pragma: no cover
-        # No idea how, but our REPL server can trigger a KeyError here
-        # if the user views `help()`, which causes the client to get stuck.
-        # Then pressing `q` in the server console to quit the help, and then
-        # asking the REPL client (which is now responsive again) to disconnect
-        # (Ctrl+D), triggers the `KeyError` when the server cleans up the
-        # disconnected session.
-        #
-        # Anyway, if `id(self)` is not in the current thread's observers,
-        # we don't need to do anything here, so the Right Thing to do is
-        # to absorb `KeyError` if it occurs.
-        try:
-            del _getobservers()[id(self)]
-        except KeyError:
-            pass
     def _refresh(self):
         self.maps = list(reversed(_getstack())) + [_global_dynvars]
 
@@ -173,7 +158,7 @@ class _Dyn(Singleton):
         scope = self._resolve(name)
         scope[name] = value
 
-    def let(self, **bindings):
+    def let(self, /, **bindings):
         """Introduce dynamic bindings.
 
         Context manager; usage is ``with dyn.let(name=value, ...):``
@@ -189,7 +174,7 @@ class _Dyn(Singleton):
         """
         return _EnvBlock(bindings)
 
-    def update(self, **bindings):
+    def update(self, /, **bindings):
         """Mass-update existing dynamic bindings.
 
         For each binding, the update occurs in the closest enclosing dynamic
@@ -218,7 +203,7 @@ class _Dyn(Singleton):
     # membership test (in, not in)
     def __contains__(self, name):
         try:
-            getattr(self, name)
+            self._resolve(name)
             return True
         except AttributeError:
             return False
@@ -254,7 +239,8 @@ class _Dyn(Singleton):
 
     # subscripting
     def __getitem__(self, k):
-        return getattr(self, k)
+        # Don't `getattr`, to see only the bindings, not the methods of this class.
+        return self._resolve(k)[k]
     def __setitem__(self, k, v):
         setattr(self, k, v)
 
-- 
2.43.0


From 3753bab9c8f24e962bcbdb4a3129b5a7fd7c9c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:57 +0000
Subject: [PATCH 26/79] fix: catch, throw: tags need only be comparable with
 ==, not hashable, as documented

---
 unpythonic/ec.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/unpythonic/ec.py b/unpythonic/ec.py
index 303d3d5..3be1284 100644
--- a/unpythonic/ec.py
+++ b/unpythonic/ec.py
@@ -176,11 +176,8 @@ def catch(tags=None, catch_untagged=True):
             return False
         assert f() == 15
     """
-    if tags is not None:
-        if isinstance(tags, tuple):  # multiple tags
-            tags = set(tags)
-        else:  # single tag
-            tags = set((tags,))
+    if tags is not None and not isinstance(tags, tuple):  # single tag
+        tags = (tags,)
 
     def shouldcatch(e):
         return ((tags is None and e.allow_catchall) or
-- 
2.43.0


From 91cbc963edf81ce721cc2c63528e1316544a92a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:36 +0000
Subject: [PATCH 27/79] fix: conditions: a handler may use handlers of its own;
 a restart function may invoke outer restarts; invoking a restart object out
 of scope is a ControlError; warn accepts a warning class

---
 unpythonic/conditions.py | 53 ++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/unpythonic/conditions.py b/unpythonic/conditions.py
index 51f3977..0d2b63e 100644
--- a/unpythonic/conditions.py
+++ b/unpythonic/conditions.py
@@ -199,28 +199,26 @@ def signal(condition, *, cause=None, protocol=None):
     # `error()` uses this return value; this allows us to provide a unified format for tracebacks.
     return condition
 
-def _prepare_signal_instance(condition, *, cause, protocol, stacklevel):
-    """Canonize a condition, and populate its technical data."""
+def _canonize(exc, err_reason):
+    """Canonize an exception type or instance to an instance. `None` is passed through."""
     # Consistency with behavior of exceptions in Python:
     #   Even if a class is raised, as in `raise StopIteration`, the `raise` statement
     #   converts it into an instance by instantiating with no args. So we need no
     #   special handling for the "class raised" case.
     #     https://docs.python.org/3/reference/simple_stmts.html#the-raise-statement
     #     https://stackoverflow.com/questions/19768515/is-there-a-difference-between-raising-exception-class-and-exception-instance/19768732
-    def canonize(exc, err_reason):
-        if exc is None:
-            return None
-        if isinstance(exc, BaseException):  # "signal(SomeError())"
-            return exc
-        try:
-            if issubclass(exc, BaseException):  # "signal(SomeError)"
-                return exc()  # instantiate with no args, like `raise` does
-        except TypeError:  # "issubclass() arg 1 must be a class"
-            pass
-        error(ControlError(f"Only instances (derived too) and subclasses of BaseException can {err_reason}; got {type(condition)} with value {repr(condition)}."))
-
-    condition = canonize(condition, "be signaled")
-    cause = canonize(cause, "act as the cause of another signal")
+    if exc is None:
+        return None
+    if isinstance(exc, BaseException):  # "signal(SomeError())"
+        return exc
+    if safeissubclass(exc, BaseException):  # "signal(SomeError)"
+        return exc()  # instantiate with no args, like `raise` does
+    error(ControlError(f"Only instances (derived too) and subclasses of BaseException can {err_reason}; got {type(exc)} with value {repr(exc)}."))
+
+def _prepare_signal_instance(condition, *, cause, protocol, stacklevel):
+    """Canonize a condition, and populate its technical data."""
+    condition = _canonize(condition, "be signaled")
+    cause = _canonize(cause, "act as the cause of another signal")
     condition.__cause__ = cause
     condition.__protocol__ = protocol
 
@@ -264,6 +262,9 @@ def invoke(name_or_restart, /, *args, **kwargs):
             error(ControlError(f"No such restart: {repr(name_or_restart)}; available restarts: {available_restarts()}"))
     elif isinstance(name_or_restart, BoundRestart):
         restart = name_or_restart
+        _ensure_stacks()
+        if not any(e is restart.context for e in _stacks.restarts):
+            error(ControlError(f"Restart no longer in scope: {repr(restart.name)}; available restarts: {available_restarts()}"))
     else:
         error(TypeError(f"Expected str or a return value of find_restart, got {type(name_or_restart)} with value {repr(name_or_restart)}"))
     # Found it - now we are guaranteed to unwind only up to the matching "with restarts".
@@ -505,7 +506,8 @@ class InvokeRestart(BaseException):
 
 def _find_handlers(cls):  # 0..n (though 0 is an error, handled at the calling end)
     _ensure_stacks()
-    for e in _stacks.handlers:
+    # Iterate over a copy, because a handler may set up handlers of its own while it runs.
+    for e in tuple(_stacks.handlers):
         for t, handler in e:  # t: tuple or type
             if isinstance(t, tuple):
                 if any(issubclass(cls, x) for x in t):
@@ -668,14 +670,16 @@ def restarts(**bindings):
     # class. This way the code is shorter, and our exception processing can use
     # the standard `try`/`except` construct.
     b = box(None)
-    with Restarts(bindings):
-        try:
+    try:
+        with Restarts(bindings):
             yield b
-        except InvokeRestart as exc:
-            if exc.restart.context is bindings:  # if it's ours
-                b << exc()
-            else:
-                raise  # unwind this level of call stack, propagate outwards
+    except InvokeRestart as exc:
+        # At this point, this block no longer provides its restarts, so that the restart function,
+        # when it runs, may itself invoke the restarts (of any name) provided by the outer levels.
+        if exc.restart.context is bindings:  # if it's ours
+            b << exc()
+        else:
+            raise  # unwind this level of call stack, propagate outwards
 
 def with_restarts(**bindings):
     """Alternate syntax. Use restarts with a `def` code block instead of a `with`.
@@ -841,6 +845,7 @@ def warn(condition, *, cause=None):
     `contextlib.suppress`, except that execution continues normally
     in the caller of `warn` instead of unwinding to the handler.
     """
+    condition = _canonize(condition, "be signaled")
     with restarts(muffle=(lambda: None)):  # just for control, no return value
         with restarts(_proceed=(lambda: None)):  # for internal use by unpythonic.test.fixtures
             signal(condition, cause=cause, protocol=warn)
-- 
2.43.0


From 5f2ad1df2a09c786aa4f92f242426e93cb8d154f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:34 +0000
Subject: [PATCH 28/79] fix: jump to a bound trampolined method keeps its self;
 gtco: a TypeError raised while iterating over the last batch propagates

---
 unpythonic/gtco.py |  4 +++-
 unpythonic/tco.py  | 11 ++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/unpythonic/gtco.py b/unpythonic/gtco.py
index b5cccf3..eab6a96 100644
--- a/unpythonic/gtco.py
+++ b/unpythonic/gtco.py
@@ -30,9 +30,11 @@ def gtco(generator):
         else:
             # usually the return value is None, but allow for an iterable
             try:
-                yield from x  # the last batch!
+                last_batch = iter(x)
             except TypeError:
                 return x  # passthrough
+            yield from last_batch
+            return None
 
 def gtrampolined(gfunc):
     """Decorator for generator functions (i.e. definitions of generators).
diff --git a/unpythonic/tco.py b/unpythonic/tco.py
index b9ad891..5d6f01b 100644
--- a/unpythonic/tco.py
+++ b/unpythonic/tco.py
@@ -128,7 +128,9 @@ slower than Python's ``for``.
 __all__ = ["jump", "trampolined"]
 
 from functools import wraps
+from inspect import ismethod
 from sys import stderr
+from types import MethodType
 
 from .regutil import register_decorator
 from .lazyutil import islazy, passthrough_lazy_args, maybe_force_args
@@ -156,6 +158,13 @@ def jump(target, /, *args, **kwargs):
     """
     return _jump(target, args, kwargs)
 
+def _get_entrypoint(target):
+    """Return the function inside the trampoline if `target` is a trampoline, else `target` itself."""
+    if ismethod(target):
+        function = _get_entrypoint(target.__func__)
+        return MethodType(function, target.__self__) if function is not target.__func__ else target
+    return target._entrypoint if hasattr(target, "_entrypoint") else target
+
 class _jump:
     """The actual class representing a jump.
 
@@ -164,7 +173,7 @@ class _jump:
     """
     def __init__(self, target, args, kwargs):
         # IMPORTANT: don't let target bring along its trampoline if it has one
-        self.target = target._entrypoint if hasattr(target, "_entrypoint") else target
+        self.target = _get_entrypoint(target)
         self.args = args
         self.kwargs = kwargs
         self._claimed = False  # set when the instance is caught by a trampoline
-- 
2.43.0


From bc06edc2405e896e0a7eef69feb95d7098d1f8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:34 +0000
Subject: [PATCH 29/79] fix: fix, fixtco: cycles that mix calls and jumps are
 detected at the same key; visited marks are cleaned up also when an exception
 ends the call; bottom gets the arguments of the jump

---
 unpythonic/fix.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/unpythonic/fix.py b/unpythonic/fix.py
index 92066ae..6edb9dd 100644
--- a/unpythonic/fix.py
+++ b/unpythonic/fix.py
@@ -216,15 +216,17 @@ def _fix(bottom=typing.NoReturn, memo=True, *, tco):
         @wraps(f)
         def f_fix(*args, **kwargs):
             e = _get_threadlocals()
-            me = (f_fix, tuplify_bindings(resolve_bindings(f, *args, **kwargs)))
+            me = (f, tuplify_bindings(resolve_bindings(f, *args, **kwargs)))  # same key as for a TCO jump into `f`
             mrproper = not e.visited  # on outermost call, scrub visited clean at exit
             if me not in e.visited:
+                t = env(target=f, cleanup=set())
                 try:
                     e.visited.add(me)
-                    e.tco_stack.append(env(target=f, cleanup=set()))  # harmless if no TCO
+                    e.tco_stack.append(t)  # harmless if no TCO
                     return f_memo(*args, **kwargs)
                 finally:
                     e.tco_stack.pop()
+                    e.visited.difference_update(t.cleanup)
                     e.visited.clear() if mrproper else e.visited.remove(me)
             else:  # cycle detected
                 return bottom(f_fix.__name__, *args, **kwargs)
@@ -259,19 +261,14 @@ def _fix(bottom=typing.NoReturn, memo=True, *, tco):
             if isinstance(v, _jump):
                 you = (v.target, tuplify_bindings(resolve_bindings(v.target, *v.args, **v.kwargs)))
                 if you in e.visited:  # cycle detected
-                    for target in t.cleanup:
-                        e.visited.remove(target)
                     v._claimed = True  # we have handled the jump, by terminating the infinite cycle.
-                    return bottom(v.target.__name__, *args, **kwargs)
+                    return bottom(v.target.__name__, *v.args, **v.kwargs)
                 # Just like the f_fix loop adds `f` to `visited` before calling it,
                 # we add the target to `visited` before we let the trampoline jump
                 # into it.
                 e.visited.add(you)
                 t.cleanup.add(you)
                 t.target, v.target = v.target, spy  # re-instate the spy
-            else:  # TCO chain ended
-                for target in t.cleanup:
-                    e.visited.remove(target)
             return v
 
         # Putting the memoizer on the outside, TCO call chains do not get
-- 
2.43.0


From ba62f57916c4cc137e5f272d2c3bd3316623bbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:05 +0000
Subject: [PATCH 30/79] fix: isoftype: concrete container, string and callable
 classes are checked with isinstance, as documented; NewType of any
 specification; bounds of type variables; Tuple[()]; Reversible

---
 unpythonic/typecheck.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/unpythonic/typecheck.py b/unpythonic/typecheck.py
index 228c9dd..63741e0 100644
--- a/unpythonic/typecheck.py
+++ b/unpythonic/typecheck.py
@@ -91,11 +91,22 @@ def isoftype(value, T):
     if T is typing.Any:
         return True
 
+    # A concrete type, so delegate. Do this first, because the subclass tests below
+    # (for the meta-utilities) accept also concrete types that happen to implement
+    # the corresponding ABC.
+    if isinstance(T, type) and T.__module__ != "typing":
+        try:
+            return isinstance(value, T)
+        except TypeError:  # not actually a concrete type
+            pass
+
     # AnyStr normalizes to TypeVar("AnyStr", str, bytes)
     # Python 3.6 has "typing.TypeVar" as the repr, but Python 3.7+ adds the "<class '...'>" around it.
     if repr(T.__class__) == "typing.TypeVar" or repr(T.__class__) == "<class 'typing.TypeVar'>":
-        if not T.__constraints__:  # just an abstract type name
-            return True
+        if not T.__constraints__:  # just an abstract type name, possibly with an upper bound
+            if T.__bound__ is None or isinstance(T.__bound__, typing.ForwardRef):
+                return True
+            return isoftype(value, T.__bound__)
         return any(isoftype(value, U) for U in T.__constraints__)
 
     # TODO: Here is THE FULL LIST of `typing` features we **don't** currently support,
@@ -195,24 +206,19 @@ def isoftype(value, T):
         #   UserId = typing.NewType("UserId", int)
         #   i = UserId(42)  # UserId is the identity function, as per `typing` module docs
         #   print(type(i))  # int
-        return isinstance(value, T.__supertype__)
+        return isoftype(value, T.__supertype__)
 
     # Some one-trick ponies.
     for U in (typing.Iterator,    # can't non-destructively check element type
               typing.Iterable,    # can't non-destructively check element type
               typing.Container,   # can't check element type
               typing.Collection,  # Sized Iterable Container; can't check element type
+              typing.Reversible,  # can't non-destructively check element type
               typing.Hashable,
               typing.Sized):
         if U is T:
             return isinstance(value, U)
 
-    if T is typing.Reversible:  # can't non-destructively check element type
-        # We don't isinstance(), because in Python 3.5, typing.Reversible used to be just a protocol,
-        # and "<class 'TypeError'>: Protocols cannot be used with isinstance()."
-        # https://docs.python.org/3/library/collections.abc.html#module-collections.abc
-        return hasattr(value, "__reversed__")
-
     # "Protocols cannot be used with isinstance()", so:
     for U in (typing.SupportsInt,
               typing.SupportsFloat,
@@ -235,8 +241,11 @@ def isoftype(value, T):
             return False
         # bare `typing.Tuple`, no restrictions on length or element type.
         # Python 3.9: if a generic has no args, it has no `__args__` attribute.
-        if not hasattr(T, "__args__") or not T.__args__:
+        if T is typing.Tuple or not hasattr(T, "__args__"):
             return True
+        # `typing.Tuple[()]`, the empty tuple. Python 3.11: the `__args__` are empty.
+        if T.__args__ in ((), ((),)):
+            return not value
         # homogeneous element type, arbitrary length
         if len(T.__args__) == 2 and T.__args__[1] is Ellipsis:
             if not value:  # no elements
-- 
2.43.0


From 4e109311b3f1b9f1de7b9706b670e1aa70ea6f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:05 +0000
Subject: [PATCH 31/79] fix: generic: superclasses are tried in MRO order, also
 for a falsy instance and from super(); functions without source code

---
 unpythonic/dispatch.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/unpythonic/dispatch.py b/unpythonic/dispatch.py
index 5f06e41..87bc04c 100644
--- a/unpythonic/dispatch.py
+++ b/unpythonic/dispatch.py
@@ -463,7 +463,7 @@ def _list_multimethods(dispatcher, self_or_cls=None):
     # See discussions on interaction between `@staticmethod` and `super` in Python:
     #   https://bugs.python.org/issue31118
     #   https://stackoverflow.com/questions/26788214/super-and-staticmethod-interaction/26807879
-    if self_or_cls:
+    if self_or_cls is not None:
         if isinstance(self_or_cls, type):
             cls = self_or_cls
         elif hasattr(self_or_cls, "__class__"):
@@ -471,13 +471,22 @@ def _list_multimethods(dispatcher, self_or_cls=None):
         else:
             assert False
 
-        for base in cls.__mro__[1:]:  # skip the class itself in the MRO
-            if hasattr(base, dispatcher.__name__):  # does this particular super have f?
+        # Collect the generic functions defined directly in each class. An inherited
+        # method is found when its own class comes up in the MRO.
+        candidates = []
+        for base in cls.__mro__:
+            if dispatcher.__name__ in vars(base):  # does this particular class define f?
                 base_oop_method = getattr(base, dispatcher.__name__)
                 base_raw_function, _ = getfunc(base_oop_method)
                 if isgeneric(base_raw_function):  # it's @generic or @typed
-                    base_registry = getattr(base_raw_function, "_method_registry")
-                    relevant_registries.append(reversed(base_registry))
+                    candidates.append(base_raw_function)
+
+        # Look up only in the classes after the one that `dispatcher` belongs to. This is
+        # usually the class itself, but e.g. `super().f(...)` continues from a superclass.
+        if dispatcher in candidates:
+            candidates = candidates[(candidates.index(dispatcher) + 1):]
+        relevant_registries.extend(reversed(base_raw_function._method_registry)
+                                   for base_raw_function in candidates)
 
     return list(chain.from_iterable(relevant_registries))
 
@@ -500,7 +509,10 @@ def _format_callable(thecallable):
     #    the source file where the decorator was defined, not the original function.
     # function = inspect.unwrap(function)  # maybe this helps? But now I can't reproduce the bug to test it.
     filename = inspect.getsourcefile(function)
-    source, firstlineno = inspect.getsourcelines(function)
+    try:
+        source, firstlineno = inspect.getsourcelines(function)
+    except OSError:  # source code not available, e.g. function defined in the standard REPL or in `exec`
+        firstlineno = function.__code__.co_firstlineno
     return f"{thecallable.__qualname__}{str(thesignature)} from {filename}:{firstlineno}"
 
 def _resolve_multimethod(dispatcher, args, kwargs, *, _partial=False):
-- 
2.43.0


From 9c2b74eb9b1d6f73584d3a2761efe46842569f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:21 +0000
Subject: [PATCH 32/79] fix: forall: a failed guard ends the branch before
 later lines run; shadowing; any name; TypeErrors from the lines are not
 swallowed; nil as an item of a choice

---
 unpythonic/amb.py | 110 +++++++++++-----------------------------------
 1 file changed, 26 insertions(+), 84 deletions(-)

diff --git a/unpythonic/amb.py b/unpythonic/amb.py
index cf8d3f8..a7f5a95 100644
--- a/unpythonic/amb.py
+++ b/unpythonic/amb.py
@@ -33,6 +33,7 @@ If you want to roll your own monads, the parts for this module come from:
 __all__ = ["forall", "choice", "insist", "deny"]
 
 from collections import namedtuple
+from types import SimpleNamespace
 
 from .arity import arity_includes, UnknownArity
 from .llist import nil  # we need a sentinel, let's recycle the existing one
@@ -52,8 +53,7 @@ def choice(**binding):
     for k, v in binding.items():  # just one but we don't know its name
         return Assignment(k, v)
 
-# Hacky code generator, because Python has ``eval`` but no syntactic macros.
-# For a cleaner solution based on AST transformation with macros,
+# For a cleaner syntax based on AST transformation with macros,
 # see unpythonic.syntax.forall.
 def forall(*lines):
     """Nondeterministically evaluate lines.
@@ -110,94 +110,35 @@ def forall(*lines):
         - ``insist x`` = ``guard x``
         - ``deny x`` = ``guard (not x)``
     """
-    # Notation used by the monad implementation for the bind and sequence
-    # operators, with any relevant whitespace.
-    bind = " >> "
-    seq = ".then"
-
-    class env:
-        def __init__(self):
-            self.names = set()
-        def assign(self, k, v):
-            self.names.add(k)
-            setattr(self, k, v)
-        # simulate lexical closure property for env attrs
-        #   - freevars: set of names that "fall in" from a surrounding lexical scope
-        def close_over(self, freevars):
-            names_to_clear = {k for k in self.names if k not in freevars}
-            for k in names_to_clear:
-                delattr(self, k)
-            self.names = freevars.copy()
-
-    # stuff used inside the eval
-    e = env()
-    def begin(*exprs):  # args eagerly evaluated by Python
-        # begin(e1, e2, ..., en):
-        #   perform side effects e1, e2, ..., e[n-1], return the value of en.
-        return exprs[-1]
-
-    allcode = ""
-    names = set()  # names seen so far (working line by line, so textually!)
-    bodys = []
-    begin_is_open = False
-    for j, item in enumerate(lines):
-        is_first = (j == 0)
-        is_last = (j == len(lines) - 1)
-
+    names_and_bodys = []
+    for item in lines:
         if isinstance(item, Assignment):
             name, body = item
         else:
             name, body = None, item
         if name and not name.isidentifier():
             raise ValueError(f"name must be valid identifier, got {repr(name)}")
-        bodys.append(body)
-
-        freevars = names.copy()  # names from the surrounding scopes
-        if name:
-            names.add(name)
-
-        # on the last line, don't auto-unpack iterables,
-        # to allow easily returning a tuple from the computation
-        unpack_flag = "True" if not is_last else "False"
-
         if callable(body):
             try:
                 if not arity_includes(body, 1):
                     raise TypeError("Arity mismatch; callable body must allow arity 1, to take in the environment.")
             except UnknownArity:  # pragma: no cover
                 pass
-            code = f"monadify(bodys[{j}](e), {unpack_flag})"
-        else:  # doesn't need the environment
-            code = f"monadify(bodys[{j}], {unpack_flag})"
-
-        if begin_is_open:
-            code += ")"
-            begin_is_open = False
-
-        # monadic-bind or sequence to the next item, leaving only the appropriate
-        # names defined in the env (so that we get proper lexical scoping
-        # even though we use an imperative stateful object to implement it)
-        if not is_last:
-            if name:
-                code += f"{bind}(lambda {name}:\nbegin(e.close_over({freevars}), e.assign('{name}', {name}), "
-                begin_is_open = True
-            else:
-                if is_first:
-                    code += f"{bind}(lambda _:\nbegin(e.close_over(set()), "
-                    begin_is_open = True
-                else:
-                    code += f"{seq}(\n"
-
-        allcode += code
-    allcode += ")" * (len(lines) - 1)
-
-#    print(allcode)  # DEBUG
-
-    # The eval'd code doesn't close over the current lexical scope at the site
-    # of the eval call, but runs in its own initially blank environment,
-    # so provide the necessary names as its globals.
-    mlst = eval(allcode, {"e": e, "bodys": bodys, "begin": begin, "monadify": monadify})
-    return tuple(mlst)
+        names_and_bodys.append((name, body))
+
+    def evaluate(j, e):
+        # Evaluate line `j` and the ones after it, in the environment `e`. Each choice
+        # extends the environment for the lines after it, without changing the original,
+        # so we get proper lexical scoping.
+        name, body = names_and_bodys[j]
+        value = body(e) if callable(body) else body
+        # on the last line, don't auto-unpack iterables,
+        # to allow easily returning a tuple from the computation
+        if j == len(lines) - 1:
+            return monadify(value, unpack=False)
+        return monadify(value) >> (lambda x: evaluate(j + 1, SimpleNamespace(**{**vars(e), name: x}) if name else e))
+
+    return tuple(evaluate(0, SimpleNamespace()))
 
 # --------------------------------------------------------------------------------
 # This low-level machinery is shared with the macro version, `unpythonic.syntax.forall`.
@@ -212,9 +153,11 @@ def monadify(value, unpack=True):
         return value
     elif unpack:
         try:
-            return MonadicList.from_iterable(value)
+            iterator = iter(value)
         except TypeError:
             pass  # fall through
+        else:
+            return MonadicList.from_iterable(iterator)
     return MonadicList(value)  # unit(MonadicList, value)
 
 class MonadicList:  # TODO: This if anything is **the** place to use @typed.
@@ -321,15 +264,14 @@ class MonadicList:  # TODO: This if anything is **the** place to use @typed.
         Eager; the input iterable will be iterated over in its entirety
         to produce the list. If it is consumable, it will be consumed.
         """
-        try:
-            return cls(*iterable)
-        except TypeError:  # maybe a generator; try forcing it before giving up.
-            return cls(*tuple(iterable))
+        result = cls()
+        result.x = tuple(iterable)  # bypass the special meaning of `nil` in the constructor; here it's just an item.
+        return result
 
     def copy(self):
         """Return a copy of this MonadicList."""
         cls = self.__class__
-        return cls(*self.x)
+        return cls.from_iterable(self.x)
 
     @classmethod
     def lift(cls, f):
-- 
2.43.0


From 3a7f9a6c28c6077bf743c93e6aa70d56d78b4c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:06 +0000
Subject: [PATCH 33/79] fix: apply: support a promise as the list to unpack
 (lazify)

---
 unpythonic/fun.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index f8c98c2..ca75b27 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -34,7 +34,7 @@ from .regutil import register_decorator
 from .symbol import sym
 
 # We use `@passthrough_lazy_args` and `maybe_force_args` to support unpythonic.syntax.lazify.
-from .lazyutil import passthrough_lazy_args, islazy, force, maybe_force_args
+from .lazyutil import passthrough_lazy_args, islazy, force, force1, maybe_force_args
 
 # --------------------------------------------------------------------------------
 
@@ -654,11 +654,12 @@ def apply(f, arg0, /, *more, **kwargs):
     The ``**kwargs`` are passed to `f`, allowing to pass also named arguments.
     """
     f = force(f)
+    # lazify support: we also need the list to unpack (but not its elements)
     if not more:
-        args, lst = (), tuple(arg0)
+        args, lst = (), tuple(force1(arg0))
     else:
         args = (arg0,) + more[:-1]
-        lst = tuple(more[-1])
+        lst = tuple(force1(more[-1]))
     return maybe_force_args(f, *(args + lst), **kwargs)
 
 # --------------------------------------------------------------------------------
-- 
2.43.0


From 47552753a9a751bdb5b06f3a7d44afd1606fc6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:52 +0000
Subject: [PATCH 34/79] fix: ulp: exact at all magnitudes, also zero and
 subnormal numbers

---
 unpythonic/numutil.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/unpythonic/numutil.py b/unpythonic/numutil.py
index e70ff29..5d3340a 100644
--- a/unpythonic/numutil.py
+++ b/unpythonic/numutil.py
@@ -6,7 +6,7 @@ __all__ = ["almosteq", "ulp",
            "partition_int", "partition_int_triangular", "partition_int_custom"]
 
 from itertools import takewhile
-from math import floor, log2
+from math import frexp, isfinite, ldexp
 import sys
 
 from .it import iterate1, last, within, rev
@@ -75,10 +75,14 @@ def ulp(x):  # Unit in the Last Place
     See:
         https://en.wikipedia.org/wiki/Unit_in_the_last_place
     """
+    if not isfinite(x):
+        raise ValueError(f"x must be finite; got {x}")
     eps = sys.float_info.epsilon
-    # m_min = abs. value represented by a mantissa of 1.0, with the same exponent as x has
-    m_min = 2**floor(log2(abs(x)))
-    return m_min * eps
+    # m_min = abs. value represented by a mantissa of 1.0, with the same exponent as x has.
+    # (Extract the exponent exactly; `log2` may round up to the next integer.)
+    m_min = ldexp(0.5, frexp(x)[1]) if x else 0.0
+    # Zero and subnormal numbers have the same spacing as the smallest normal numbers.
+    return max(m_min, sys.float_info.min) * eps
 
 
 def fixpoint(f, x0, tol=0):
-- 
2.43.0


From d2e6209c7c5ff2d640d5deae333be3cac8d98d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:52 +0000
Subject: [PATCH 35/79] fix: excutil: tryf no longer swallows unhandled
 exceptions; falsy causes; remapping to StopIteration; async_raise checks the
 thread, not its reusable ident

---
 unpythonic/excutil.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/unpythonic/excutil.py b/unpythonic/excutil.py
index fc9c6b2..5ef0c98 100644
--- a/unpythonic/excutil.py
+++ b/unpythonic/excutil.py
@@ -6,7 +6,7 @@ __all__ = ["raisef", "tryf",
            "async_raise",
            "reraise_in", "reraise"]
 
-from contextlib import contextmanager
+from contextlib import ContextDecorator
 import sys
 import threading
 from types import TracebackType
@@ -49,7 +49,7 @@ def raisef(exc, *, cause=None):
             and you would like to `raise ... from ...`, pass that other exception
             instance as `cause`. The default `None` performs a plain `raise ...`.
     """
-    if cause:
+    if cause is not None:
         raise exc from cause
     else:
         raise exc
@@ -139,6 +139,7 @@ def tryf(body, *handlers, elsef=None, finallyf=None):
                         return handler(exception)
                     else:
                         return handler()
+        raise  # no handler matched
     else:
         if elsef is not None:
             return elsef()
@@ -299,9 +300,10 @@ def async_raise(thread_obj, exception):
     if not hasattr(thread_obj, "ident"):
         raise TypeError(f"Expected a thread object, got {type(thread_obj)} with value '{thread_obj}'")
 
+    # The `ident` alone is not enough, because a new thread may reuse the ident of a terminated one.
+    if not any(thread is thread_obj for thread in threading.enumerate()):
+        raise ValueError("Invalid thread object, cannot find it among currently active threads.")
     target_tid = thread_obj.ident
-    if target_tid not in {thread.ident for thread in threading.enumerate()}:
-        raise ValueError("Invalid thread object, cannot find its ident among currently active threads.")
 
     affected_count = PyThreadState_SetAsyncExc(ctypes.c_long(target_tid), ctypes.py_object(exception))
     if affected_count == 0:
@@ -355,8 +357,7 @@ def reraise_in(body, mapping):
     except BaseException as libraryexc:
         _reraise_handler(mapping, libraryexc)
 
-@contextmanager
-def reraise(mapping):
+class reraise(ContextDecorator):
     """Remap exception types. Context manager.
 
     This allows conveniently converting library exceptions to application
@@ -388,10 +389,15 @@ def reraise(mapping):
 
     See also `reraise_in` for an expression form.
     """
-    try:
-        yield
-    except BaseException as libraryexc:
-        _reraise_handler(mapping, libraryexc)
+    # Not a `@contextmanager`, because a generator cannot raise `StopIteration`,
+    # which must be possible as the output of a conversion.
+    def __init__(self, mapping):
+        self.mapping = mapping
+    def __enter__(self):
+        return None
+    def __exit__(self, exctype, excvalue, traceback):
+        if excvalue is not None:
+            _reraise_handler(self.mapping, excvalue)
 
 def _reraise_handler(mapping, libraryexc):
     """Remap an exception instance to another exception type.
-- 
2.43.0


From 965b734b1bf783855e5dcb6408b840d5b2a12bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:52 +0000
Subject: [PATCH 36/79] fix: misc: namelambda renames a copy as documented;
 callsite_filename ignores callwith

---
 unpythonic/misc.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/unpythonic/misc.py b/unpythonic/misc.py
index 2e765a7..047b6d4 100644
--- a/unpythonic/misc.py
+++ b/unpythonic/misc.py
@@ -51,6 +51,16 @@ def pack(*args):
     """
     return args  # pretty much like in Lisps, (define (list . args) args)
 
+def _copy_function(f):
+    """Return a copy of the function object `f`. (`copy.copy` returns `f` itself.)"""
+    g = FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, f.__closure__)
+    g.__kwdefaults__ = copy(f.__kwdefaults__)
+    for attr in ("__module__", "__qualname__", "__doc__", "__annotations__", "__type_params__"):
+        if hasattr(f, attr):
+            setattr(g, attr, copy(getattr(f, attr)))
+    g.__dict__.update(f.__dict__)
+    return g
+
 @register_decorator(priority=5)  # allow sorting by unpythonic.syntax.sort_lambda_decorators
 def namelambda(name):
     """Rename a function. Decorator.
@@ -91,7 +101,7 @@ def namelambda(name):
             # TODO: Can't raise TypeError; @fploop et al. do-it-now-and-replace-def-with-result
             # TODO: decorators need to do this.
             return f
-        f = copy(f)
+        f = _copy_function(f)
         # __name__ for tools like pydoc; __qualname__ for repr(); __code__.co_name for stack traces
         #     https://stackoverflow.com/questions/40661758/name-of-a-python-function-in-a-stack-trace
         #     https://stackoverflow.com/questions/16064409/how-to-create-a-code-object-in-python
@@ -298,7 +308,7 @@ def callsite_filename():
         # ignore our call-helpers
         if framerecord.function not in ("maybe_force_args",  # lazify
                                         "curried", "curry", "_currycall",  # autocurry
-                                        "call", "callwith"):  # manual use of misc utils
+                                        "call", "callwith", "applyfrozenargsto"):  # manual use of misc utils
             frame = framerecord.frame
             filename = frame.f_code.co_filename
             return filename
-- 
2.43.0


From 1ba61ab6d675f88839c10e8d668f884ae9942b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:35 +0000
Subject: [PATCH 37/79] fix: net: decodemsg with headers in large or split
 buffers and with malformed lengths; streamsource respects chunksize

---
 unpythonic/net/msg.py  | 14 ++++++++------
 unpythonic/net/util.py |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/unpythonic/net/msg.py b/unpythonic/net/msg.py
index cc5d621..8269b6c 100644
--- a/unpythonic/net/msg.py
+++ b/unpythonic/net/msg.py
@@ -217,18 +217,20 @@ def decodemsg(buf, source):
             raise MessageHeaderParseError
         if val[4:5] != b"l":  # length-of-body field
             raise MessageHeaderParseError
-        # The len(val) check prevents a junk flood attack.
+        # The length limit prevents a junk flood attack.
         # The maximum value of the length has 4090 base-10 digits, all nines.
         # The 4096 is arbitrarily chosen, but matches the typical socket read size.
-        while len(val) < 4096:
-            j = val.find(b";")  # end of length-of-body field
-            if j != -1:  # found
+        while True:
+            j = val.find(b";", 0, 4096)  # end of length-of-body field
+            if j != -1 or len(val) >= 4096:
                 break
             val = read_more_input()
         if j == -1:  # maximum length of length-of-body field exceeded, terminator not found.
             raise MessageHeaderParseError
-        j = val.find(b";")
-        body_len = int(val[5:j].decode("utf-8"))
+        length_field = val[5:j]
+        if not length_field.isdigit():  # note this is `bytes.isdigit`, accepting only ASCII digits
+            raise MessageHeaderParseError
+        body_len = int(length_field)
         buf.set(val[(j + 1):])
         return body_len
 
diff --git a/unpythonic/net/util.py b/unpythonic/net/util.py
index 541a6c0..874aece 100644
--- a/unpythonic/net/util.py
+++ b/unpythonic/net/util.py
@@ -128,7 +128,7 @@ def streamsource(stream, chunksize=4096):
         raise TypeError(f"Expected a derivative of `IOBase`, got {type(stream)}")
     def stream_chunk_iterator():
         while True:
-            data = stream.read(4096)
+            data = stream.read(chunksize)
             if len(data) == 0:
                 return
             yield data
-- 
2.43.0


From a3a719f6da187a168e554943d44f92ebeddbe40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:40 +0000
Subject: [PATCH 38/79] fix: scopeanalyzer: dotted imports, match patterns,
 walrus in nested scopes, comprehension targets, names declared global;
 scoping of defaults, outermost iterables, nested functions and compound
 statements

---
 unpythonic/syntax/scopeanalyzer.py | 178 ++++++++++++++++++-----------
 1 file changed, 113 insertions(+), 65 deletions(-)

diff --git a/unpythonic/syntax/scopeanalyzer.py b/unpythonic/syntax/scopeanalyzer.py
index 27d7a8c..5e915f6 100644
--- a/unpythonic/syntax/scopeanalyzer.py
+++ b/unpythonic/syntax/scopeanalyzer.py
@@ -76,11 +76,11 @@ __all__ = ["isnewscope",
            "collect_globals",
            "collect_nonlocals"]
 
-from ast import (Name, Tuple, Lambda, FunctionDef, AsyncFunctionDef, ClassDef,
-                 Import, ImportFrom, Try, ListComp, SetComp, GeneratorExp,
-                 DictComp, Store, Del, Global, Nonlocal)
+from ast import (AST, stmt, iter_fields, Name, Lambda, FunctionDef, AsyncFunctionDef, ClassDef,
+                 For, AsyncFor, Import, ImportFrom, Try, ExceptHandler, ListComp, SetComp,
+                 GeneratorExp, DictComp, Store, Del, Global, Nonlocal)
 
-from mcpyrate.astcompat import TryStar, MatchStar, MatchMapping, MatchClass, MatchAs
+from mcpyrate.astcompat import NamedExpr, TryStar, match_case, MatchStar, MatchMapping, MatchAs
 from mcpyrate.core import Done
 from mcpyrate.walkers import ASTTransformer, ASTVisitor
 
@@ -121,6 +121,8 @@ def scoped_transform(tree, *, callback):
                 tree = callback(tree, names_in_scope)
                 if tree:  # allow deletions by the custom transformer
                     self.generic_withstate(tree, args=(args + moreargs))
+                    for subtree in _get_parts_in_surrounding_scope(tree):
+                        self.withstate(subtree, args=args)
                     return self.generic_visit(tree)
             elif type(tree) in (FunctionDef, AsyncFunctionDef):
                 # Decorator list is processed in the surrounding scope
@@ -128,41 +130,90 @@ def scoped_transform(tree, *, callback):
 
                 moreargs, newnonlocals = get_lexical_variables(tree, collect_locals=False)
 
-                # The function parameters see each other (TODO: check if this is right)
-                self.withstate(tree.args, args=(args + moreargs))
+                # So are the default values and the annotations
                 tree.args = self.visit(tree.args)
+                if tree.returns:
+                    tree.returns = self.visit(tree.returns)
 
-                # The body sees the parameters and any new nonlocals
-                args += moreargs
-                nonlocals = newnonlocals
-                newbody = []
-                for stmt in tree.body:
-                    self.withstate(stmt, args=args, localvars=localvars, nonlocals=nonlocals)
-                    stmt = self.visit(stmt)
-                    # TODO: should we allow the custom transformer to return a list of statements, too?
-                    if stmt:  # allow deletions by the custom transformer
-                        newbody.append(stmt)
-                    # new local variables come into scope at the next statement (not yet on the RHS of the assignment).
-                    # TODO: Nonsense, scoping is a purely lexical thing. Fix this.
-                    newlocalvars = uniqify(get_names_in_store_context(stmt))
-                    newlocalvars = [x for x in newlocalvars if x not in nonlocals]
-                    if newlocalvars:
-                        localvars = localvars + newlocalvars
-                    # deletions of local vars also take effect from the next statement
-                    deletedlocalvars = uniqify(get_names_in_del_context(stmt))
-                    # ignore deletion of nonlocals (too dynamic for a static analysis to make sense)
-                    deletedlocalvars = [x for x in deletedlocalvars if x not in nonlocals]
-                    if deletedlocalvars:
-                        localvars = [x for x in localvars if x not in deletedlocalvars]
-                tree.body[:] = newbody  # avoid changing the id()
+                # The body sees the parameters and any nonlocals
+                self.process_suite(tree.body, args + moreargs, localvars, nonlocals + newnonlocals)
                 return tree
             else:
                 names_in_scope = args + localvars + nonlocals
                 tree = callback(tree, names_in_scope)
                 if tree:  # allow deletions by the custom transformer
                     return self.generic_visit(tree)
+
+        # The statement suites of a function body, including those of any compound statements in it.
+        # The suites are edited in-place (avoid changing the id()). Return the updated `localvars`.
+        def process_suite(self, suite, args, localvars, nonlocals):
+            newsuite = []
+            for stmt in suite:
+                stmt, localvars = self.process_statement(stmt, args, localvars, nonlocals)
+                # TODO: should we allow the custom transformer to return a list of statements, too?
+                if stmt:  # allow deletions by the custom transformer
+                    newsuite.append(stmt)
+            suite[:] = newsuite
+            return localvars
+
+        # Also an `except` handler or a `case` is treated here like a statement. Return `tree, localvars`.
+        def process_statement(self, tree, args, localvars, nonlocals):
+            if isnewscope(tree) or not any(_issuite(value) for _, value in iter_fields(tree)):
+                self.withstate(tree, args=args, localvars=localvars, nonlocals=nonlocals)
+                tree = self.visit(tree)
+                return tree, self.update_localvars(tree, localvars, nonlocals)
+            tree = callback(tree, args + localvars + nonlocals)
+            if tree:
+                fields = list(iter_fields(tree))
+                if type(tree) in (For, AsyncFor):  # the iterable is evaluated before the target is bound
+                    fields.sort(key=lambda field: field[0] != "iter")
+                for fieldname, value in fields:
+                    if _issuite(value):
+                        localvars = self.process_suite(value, args, localvars, nonlocals)
+                    elif type(tree) is ExceptHandler and fieldname == "name" and value is not None:
+                        localvars = localvars + [value]
+                    elif isinstance(value, (AST, list)):
+                        self.withstate(value, args=args, localvars=localvars, nonlocals=nonlocals)
+                        value = self.visit(value)
+                        setattr(tree, fieldname, value)
+                        localvars = self.update_localvars(value, localvars, nonlocals)
+            return tree, localvars
+
+        def update_localvars(self, tree, localvars, nonlocals):
+            # new local variables come into scope at the next statement (not yet on the RHS of the assignment).
+            # TODO: Nonsense, scoping is a purely lexical thing. Fix this.
+            newlocalvars = uniqify(get_names_in_store_context(tree))
+            newlocalvars = [x for x in newlocalvars if x not in nonlocals]
+            if newlocalvars:
+                localvars = localvars + newlocalvars
+            # deletions of local vars also take effect from the next statement
+            deletedlocalvars = uniqify(get_names_in_del_context(tree))
+            # ignore deletion of nonlocals (too dynamic for a static analysis to make sense)
+            deletedlocalvars = [x for x in deletedlocalvars if x not in nonlocals]
+            if deletedlocalvars:
+                localvars = [x for x in localvars if x not in deletedlocalvars]
+            return localvars
     return ScopedTransformer(args=[], localvars=[], nonlocals=[]).visit(tree)
 
+def _issuite(value):
+    """Return whether `value`, a field of an AST node, is a suite of statements (or of handlers or cases)."""
+    return isinstance(value, list) and any(isinstance(x, (stmt, ExceptHandler, match_case)) for x in value)
+
+def _get_parts_in_surrounding_scope(tree):
+    """In a tree representing a lexical scope, get the parts that are evaluated in the surrounding scope.
+
+    Return a `list` of AST nodes.
+    """
+    if type(tree) is Lambda:
+        return tree.args.defaults + [x for x in tree.args.kw_defaults if x is not None]
+    elif type(tree) in (FunctionDef, AsyncFunctionDef):
+        # Beside the default values, `arguments` contains the annotations.
+        return tree.decorator_list + [tree.args] + ([tree.returns] if tree.returns else [])
+    elif type(tree) is ClassDef:
+        return tree.decorator_list + tree.bases + tree.keywords
+    else:  # comprehension
+        return [tree.generators[0].iter]
+
 def get_lexical_variables(tree, collect_locals=True):
     """In a tree representing a lexical scope, get names currently in scope.
 
@@ -226,6 +277,7 @@ def get_lexical_variables(tree, collect_locals=True):
                 localvars = list(uniqify(get_names_in_store_context(tree.body)))
             nonlocals = collect_nonlocals(tree.body) + collect_globals(tree.body)
 
+        localvars = [x for x in localvars if x not in nonlocals]
         return list(uniqify(fname + argnames + localvars)), list(uniqify(nonlocals))
 
     elif type(tree) is ClassDef:
@@ -264,22 +316,17 @@ def get_lexical_variables(tree, collect_locals=True):
         # `scoped_transform`.)
         targetnames = []
         for g in tree.generators:
-            if type(g.target) is Name:
-                targetnames.append(g.target.id)
-            # The `Done` may be produced by expanded `@namemacro`s.
-            elif isinstance(g.target, Done) and type(g.target.body) is Name:
-                targetnames.append(g.target.body.id)
-            elif type(g.target) is Tuple:
-                class NamesCollector(ASTVisitor):
-                    def examine(self, tree):
-                        if type(tree) is Name:
-                            self.collect(tree.id)
-                        self.generic_visit(tree)
-                nc = NamesCollector()
-                nc.visit(g.target)
-                targetnames.extend(nc.collected)
-            else:  # pragma: no cover
-                raise SyntaxError(f"Scope analyzer: unimplemented: comprehension target of type {type(g.target)}")
+            # The target may be e.g. a tuple. It may also contain attributes and subscripts,
+            # but those don't bind any names.
+            class NamesCollector(ASTVisitor):
+                def examine(self, tree):
+                    # macro-created nodes might not have a ctx.
+                    if type(tree) is Name and type(getattr(tree, "ctx", Store())) is Store:
+                        self.collect(tree.id)
+                    self.generic_visit(tree)
+            nc = NamesCollector()
+            nc.visit(g.target)
+            targetnames.extend(nc.collected)
 
         return list(uniqify(targetnames)), []
 
@@ -316,11 +363,16 @@ def get_names_in_store_context(tree):
     by ``get_lexical_variables`` for the nearest lexically surrounding parent
     tree that represents a scope.
     """
-    class MatchCapturesCollector(ASTVisitor):  # Python 3.10+: `match`/`case`
+    # In a comprehension, a walrus binds its target in the scope that contains the comprehension.
+    class WalrusInComprehensionCollector(ASTVisitor):
         def examine(self, tree):
-            if type(tree) is Name:
-                self.collect(tree.id)
-            self.generic_visit(tree)
+            if type(tree) is NamedExpr:
+                target = tree.target.body if isinstance(tree.target, Done) else tree.target
+                self.collect(target.id)
+            if type(tree) is Lambda:
+                self.visit(_get_parts_in_surrounding_scope(tree))
+            else:
+                self.generic_visit(tree)
 
     class StoreNamesCollector(ASTVisitor):
         # def _collect_name_or_list(self, t):
@@ -342,7 +394,8 @@ def get_names_in_store_context(tree):
             #     self._collect_name_or_list(tree.target)
             elif type(tree) in (Import, ImportFrom):
                 for x in tree.names:
-                    self.collect(x.asname if x.asname is not None else x.name)
+                    # `import a.b` binds `a`
+                    self.collect(x.asname if x.asname is not None else x.name.split(".")[0])
             elif type(tree) in (Try, TryStar):  # Python 3.11+: `try`/`except*`
                 # https://docs.python.org/3/reference/compound_stmts.html#the-try-statement
                 #
@@ -354,7 +407,8 @@ def get_names_in_store_context(tree):
                 # TODO: We can't cheat by handling `Try` as a new scope, because any other name bound inside the
                 # TODO: `try`, even inside the `except` blocks, will be bound in the whole parent scope.
                 for h in tree.handlers:
-                    self.collect(h.name)
+                    if h.name is not None:
+                        self.collect(h.name)
             # Python 3.10+: `match`/`case` uses names in `Load` context to denote captures.
             # Also there are some bare strings, and sometimes `None` actually means "_" (but doesn't capture).
             # So we special-case all of this.
@@ -362,21 +416,8 @@ def get_names_in_store_context(tree):
                 if tree.name is not None:
                     self.collect(tree.name)
             elif type(tree) is MatchMapping:
-                mcc = MatchCapturesCollector(tree.patterns)
-                mcc.visit()
-                for name in mcc.collected:
-                    self.collect(name)
                 if tree.rest is not None:  # `rest` is a capture if present
                     self.collect(tree.rest)
-            elif type(tree) is MatchClass:
-                mcc = MatchCapturesCollector(tree.patterns)
-                mcc.visit()
-                for name in mcc.collected:
-                    self.collect(name)
-                mcc = MatchCapturesCollector(tree.kwd_patterns)
-                mcc.visit()
-                for name in mcc.collected:
-                    self.collect(name)
 
             # Python 3.12+: `TypeAlias` uses a name in `Store` context on its LHS so it needs no special handling here.
 
@@ -388,7 +429,14 @@ def get_names_in_store_context(tree):
             # macro-created nodes might not have a ctx, but our macros don't create lexical assignments.
             if type(tree) is Name and hasattr(tree, "ctx") and type(tree.ctx) is Store:
                 self.collect(tree.id)
-            if not isnewscope(tree):
+            if type(tree) in (ListComp, SetComp, GeneratorExp, DictComp):
+                wc = WalrusInComprehensionCollector()
+                wc.visit(tree)
+                for name in wc.collected:
+                    self.collect(name)
+            elif isnewscope(tree):
+                self.visit(_get_parts_in_surrounding_scope(tree))
+            else:
                 self.generic_visit(tree)
     nc = StoreNamesCollector()
     nc.visit(tree)
-- 
2.43.0


From 31571470c5db00104b26a419f34f506445d2f12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:36 +0000
Subject: [PATCH 39/79] fix: dletseq: formal parameters shadow the let
 variables in the body

---
 unpythonic/syntax/letdo.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/unpythonic/syntax/letdo.py b/unpythonic/syntax/letdo.py
index 5bda9cf..55a6d2f 100644
--- a/unpythonic/syntax/letdo.py
+++ b/unpythonic/syntax/letdo.py
@@ -595,23 +595,23 @@ def _dletseq_impl(bindings, body, kind):
     if sys.version_info >= (3, 8, 0):  # Python 3.8+: positional-only arguments
         noargs.posonlyargs = []
     iname = gensym(f"{fname}_inner")
-    body.args = noargs
-    body.name = iname
 
+    # In the body, the original arguments shadow the let variables, so they
+    # must be there when the body is transformed.
     *rest, last = bindings
     dletter = _dlet if kind == "decorate" else _blet
     innerdef = dletter([last], body)
 
     # optimization: in the final step, no need to generate a wrapper function
     if not rest:
-        tmpargs = innerdef.args
-        innerdef.name = fname
-        innerdef.args = userargs
-        # copy the env arg
-        innerdef.args.kwonlyargs += tmpargs.kwonlyargs
-        innerdef.args.kw_defaults += tmpargs.kw_defaults
         return innerdef
 
+    # Move the original arguments to the outer function, leaving only the env arg.
+    innerdef.name = iname
+    innerdef.args = noargs
+    noargs.kwonlyargs = [userargs.kwonlyargs.pop()]
+    noargs.kw_defaults = [userargs.kw_defaults.pop()]
+
     # If kind=="decorate", the outer function needs to call the inner one
     # after defining it.
     # If kind=="call", then, after innerdef completes, the inner function has
-- 
2.43.0


From 4f1c66fc097303b971338f722f8f58ddbbb4ed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:45 +0000
Subject: [PATCH 40/79] fix: do: expand nested macros first, so that a nested
 let or do can shadow a local; local[x := ...] evaluates its value in the old
 bindings also for assignments

---
 unpythonic/syntax/letdo.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/unpythonic/syntax/letdo.py b/unpythonic/syntax/letdo.py
index 55a6d2f..fb55748 100644
--- a/unpythonic/syntax/letdo.py
+++ b/unpythonic/syntax/letdo.py
@@ -844,8 +844,8 @@ def _do(tree):
                         raise SyntaxError("local[...] takes exactly one expression of the form 'name := value' or 'name << value'")  # pragma: no cover
                     view = UnexpandedEnvAssignView(expr)
                     self.collect(view.name)
-                    view.value = self.visit(view.value)  # nested local[] (e.g. from `do0[local[y := 5],]`)
-                    return expr  # `local[x := 21]` --> `x := 21`; compiling *that* makes the env-assignment occur.
+                    value = self.visit(view.value)  # nested local[] (e.g. from `do0[local[y := 5],]`)
+                    return q[a[envset](u[view.name], a[value])]  # `local[x := 21]` --> `e._set('x', 21)`
                 return tree  # don't recurse!
         c = LocaldefCollector()
         tree = c.visit(tree)
@@ -904,13 +904,15 @@ def _do(tree):
         check_stray_localdefs(expr)
         check_stray_deletes(expr)
 
-        # The envassignment transform (LHS) needs the updated bindings, whereas
-        # the name transform (RHS) should use the previous bindings, so that any
-        # changes to bindings take effect starting from the **next** do-item.
-        updated_names = [x for x in names + newnames if x not in deletednames]
-        expr = _letlike_transform(expr, e, lhsnames=updated_names, rhsnames=names, setter=envset)
+        # Like the `let` constructs, `do` expands inside out, so that any names bound
+        # by a nested `let` or `do` shadow ours.
+        expr = dyn._macro_expander.visit_recursively(expr)
+
+        # Both transforms should use the previous bindings, so that any changes
+        # to bindings take effect starting from the **next** do-item.
+        expr = _letlike_transform(expr, e, lhsnames=names, rhsnames=names, setter=envset)
         expr = q[h[namelambda](u[f"do_line{j}"])(a[expr])]
-        names = updated_names
+        names = [x for x in names + newnames if x not in deletednames]
         lines.append(expr)
     # CAUTION: letdoutil.py depends on the literal name "dof" to detect expanded do forms.
     # Also, the views depend on the exact AST structure.
-- 
2.43.0


From 781f1eb59afcbe6e333d4b92a0c3034cc756526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:32 +0000
Subject: [PATCH 41/79] fix: do: allow local[] and delete[] in the
 multi-expression body of a let nested in a do

---
 unpythonic/syntax/letdo.py | 32 ++++----------------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/unpythonic/syntax/letdo.py b/unpythonic/syntax/letdo.py
index fb55748..4117b68 100644
--- a/unpythonic/syntax/letdo.py
+++ b/unpythonic/syntax/letdo.py
@@ -33,14 +33,14 @@ from mcpyrate.quotes import macros, q, u, n, a, t, h  # noqa: F401
 
 from mcpyrate import gensym, namemacro, parametricmacro
 from mcpyrate.quotes import capture_as_macro, is_captured_value
-from mcpyrate.walkers import ASTTransformer, ASTVisitor
+from mcpyrate.walkers import ASTTransformer
 
 from ..dynassign import dyn
 from ..lispylet import _let as letf, _dlet as dletf, _blet as bletf
 from ..misc import namelambda
 from ..seq import do as dof
 
-from .letdoutil import (isdo, isenvassign, UnexpandedEnvAssignView,
+from .letdoutil import (isenvassign, UnexpandedEnvAssignView,
                         UnexpandedLetView, canonize_bindings)
 from .nameutil import getname, is_unexpanded_expr_macro
 from .scopeanalyzer import scoped_transform
@@ -866,25 +866,6 @@ def _do(tree):
         tree = c.visit(tree)
         return tree, c.collected
 
-    def check_strays(ismatch, tree):
-        class StrayHelperMacroChecker(ASTVisitor):  # TODO: refactor this?
-            def examine(self, tree):
-                if is_captured_value(tree):
-                    return  # don't recurse!
-                elif isdo(tree, expanded=False):
-                    return  # don't recurse!
-                elif ismatch(tree):
-                    # Expand the stray helper macro invocation, to trigger its `SyntaxError`
-                    # with a useful message, and *make the expander generate a use site traceback*.
-                    #
-                    # (If we just `raise` here directly, the expander won't see the use site
-                    #  of the `local[]` or `delete[]`, but just that of the `do[]`.)
-                    dyn._macro_expander.visit(tree)
-                self.generic_visit(tree)
-        StrayHelperMacroChecker().visit(tree)
-    check_stray_localdefs = partial(check_strays, islocaldef)
-    check_stray_deletes = partial(check_strays, isdelete)
-
     names = []
     lines = []
     for j, expr in enumerate(tree.elts, start=1):
@@ -898,14 +879,9 @@ def _do(tree):
             if any(x in names for x in newnames):
                 raise SyntaxError("local names must be unique in the same do")  # pragma: no cover
 
-        # Before transforming any further, check that there are no local[] or delete[] further in, where
-        # they don't belong. This allows the error message to show the *untransformed* source code for
-        # the erroneous invocation. These checkers respect the boundaries of any nested do[].
-        check_stray_localdefs(expr)
-        check_stray_deletes(expr)
-
         # Like the `let` constructs, `do` expands inside out, so that any names bound
-        # by a nested `let` or `do` shadow ours.
+        # by a nested `let` or `do` shadow ours. This also expands any stray `local[]` or
+        # `delete[]` further in, where they don't belong, triggering their `SyntaxError`.
         expr = dyn._macro_expander.visit_recursively(expr)
 
         # Both transforms should use the previous bindings, so that any changes
-- 
2.43.0


From e86eb32b863bae52200bcc92d699c606d6d40cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:32 +0000
Subject: [PATCH 42/79] fix: dletseq: the function may assign its parameters;
 let variables persist between calls, as in dlet

---
 unpythonic/syntax/letdo.py | 58 +++++++++++++-------------------------
 1 file changed, 20 insertions(+), 38 deletions(-)

diff --git a/unpythonic/syntax/letdo.py b/unpythonic/syntax/letdo.py
index 4117b68..9524763 100644
--- a/unpythonic/syntax/letdo.py
+++ b/unpythonic/syntax/letdo.py
@@ -568,17 +568,18 @@ def _dletseq_impl(bindings, body, kind):
     #
     # -->
     #
-    # @dlet[x := 1]
-    # def g(*args, **kwargs, e1):  # original args from tree go to the outermost def
-    #   @dlet[x := x + 1]          # on RHS, important for e1.x to be in scope
+    # @blet[x := 1]
+    # def g(*, e1):
+    #   @blet[x := x + 1]                  # on RHS, important for e1.x to be in scope
     #   def g2(*, e2):
     #       @dlet[x := x + 2]
-    #       def g3(*, e3):         # expansion proceeds from inside out
-    #           return e3.x        # original args travel here by the closure property
-    #       return g3()
-    #   return g2()
+    #       def g3(*args, **kwargs, e3):   # expansion proceeds from inside out
+    #           return e3.x
+    #       return g3
+    #   return g2
     # assert g() == 4
     #
+    # In the `kind="call"` variant, the innermost one is a `blet`, too.
     assert kind in ("decorate", "call")
     if type(body) not in (FunctionDef, AsyncFunctionDef):
         raise SyntaxError("Expected a function definition to decorate")  # pragma: no cover
@@ -588,40 +589,21 @@ def _dletseq_impl(bindings, body, kind):
         # with no bindings, when used directly from other syntax transformers.
         return body  # pragma: no cover
 
-    userargs = body.args  # original arguments to the def
-    fname = body.name
-    noargs = arguments(args=[], kwonlyargs=[], vararg=None, kwarg=None,
-                       defaults=[], kw_defaults=[])
-    if sys.version_info >= (3, 8, 0):  # Python 3.8+: positional-only arguments
-        noargs.posonlyargs = []
-    iname = gensym(f"{fname}_inner")
-
-    # In the body, the original arguments shadow the let variables, so they
-    # must be there when the body is transformed.
     *rest, last = bindings
     dletter = _dlet if kind == "decorate" else _blet
     innerdef = dletter([last], body)
-
-    # optimization: in the final step, no need to generate a wrapper function
-    if not rest:
-        return innerdef
-
-    # Move the original arguments to the outer function, leaving only the env arg.
-    innerdef.name = iname
-    innerdef.args = noargs
-    noargs.kwonlyargs = [userargs.kwonlyargs.pop()]
-    noargs.kw_defaults = [userargs.kw_defaults.pop()]
-
-    # If kind=="decorate", the outer function needs to call the inner one
-    # after defining it.
-    # If kind=="call", then, after innerdef completes, the inner function has
-    # already been replaced by its return value.
-    ret = Return(value=q[n[iname]()]) if kind == "decorate" else Return(value=q[n[iname]])
-    outer = FunctionDef(name=fname, args=userargs,
-                        body=[innerdef, ret],
-                        decorator_list=[],
-                        returns=None)  # no return type annotation
-    return _dletseq_impl(rest, outer, kind)
+    for binding in reversed(rest):
+        # By the time `innerdef` completes, the inner name points to the thing to be returned.
+        noargs = arguments(args=[], kwonlyargs=[], vararg=None, kwarg=None,
+                           defaults=[], kw_defaults=[])
+        if sys.version_info >= (3, 8, 0):  # Python 3.8+: positional-only arguments
+            noargs.posonlyargs = []
+        outer = FunctionDef(name=innerdef.name, args=noargs,
+                            body=[innerdef, Return(value=q[n[innerdef.name]])],
+                            decorator_list=[],
+                            returns=None)  # no return type annotation
+        innerdef = _blet([binding], outer)
+    return innerdef
 
 # -----------------------------------------------------------------------------
 # Imperative code in expression position. Uses the "let" machinery.
-- 
2.43.0


From 180c319355ba1817c24873af1ce1a03b78d5aef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:21 +0000
Subject: [PATCH 43/79] fix: do: leave the test macros unexpanded until the do
 has expanded, so that they report the same source code as before

---
 unpythonic/syntax/letdo.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/unpythonic/syntax/letdo.py b/unpythonic/syntax/letdo.py
index 9524763..908f713 100644
--- a/unpythonic/syntax/letdo.py
+++ b/unpythonic/syntax/letdo.py
@@ -32,6 +32,7 @@ import sys
 from mcpyrate.quotes import macros, q, u, n, a, t, h  # noqa: F401
 
 from mcpyrate import gensym, namemacro, parametricmacro
+from mcpyrate.expander import MacroExpander
 from mcpyrate.quotes import capture_as_macro, is_captured_value
 from mcpyrate.walkers import ASTTransformer
 
@@ -812,6 +813,12 @@ def _do(tree):
     envset = q[n[f"{e}._set"]]  # use internal _set to allow new definitions
     envdel = q[n[f"{e}.pop"]]
 
+    # The `test[]` family of macros expands outside in, to see the source code being tested.
+    # Hence those must expand after us.
+    expander = MacroExpander({name: macro for name, macro in dyn._macro_expander.local_bindings.items()
+                              if getattr(macro, "__module__", None) != "unpythonic.syntax.testingtools"},
+                             dyn._macro_expander.filename)
+
     islocaldef = partial(is_unexpanded_expr_macro, local, dyn._macro_expander)
     isdelete = partial(is_unexpanded_expr_macro, delete, dyn._macro_expander)
 
@@ -864,7 +871,7 @@ def _do(tree):
         # Like the `let` constructs, `do` expands inside out, so that any names bound
         # by a nested `let` or `do` shadow ours. This also expands any stray `local[]` or
         # `delete[]` further in, where they don't belong, triggering their `SyntaxError`.
-        expr = dyn._macro_expander.visit_recursively(expr)
+        expr = expander.visit_recursively(expr)
 
         # Both transforms should use the previous bindings, so that any changes
         # to bindings take effect starting from the **next** do-item.
-- 
2.43.0


From c1e26d0e93f32a94ddefd416d369a791ff9ec1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:17 +0000
Subject: [PATCH 44/79] fix: autoreturn: function and class definitions in tail
 position of a branch; except*

---
 unpythonic/syntax/tailtools.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index cb5f5e4..035331d 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -675,31 +675,35 @@ def _autoreturn(block_body):
             if is_captured_value(tree):
                 return tree  # don't recurse!
             if type(tree) in (FunctionDef, AsyncFunctionDef):
-                newtail = TailStatementTransformer().visit(tree.body[-1])
-                if isinstance(newtail, list):  # replaced by more than one statement?
-                    tree.body = tree.body[:-1] + newtail
-                else:
-                    tree.body[-1] = newtail
+                tree.body = transform_tail(tree.body)
             return self.generic_visit(tree)
 
+    def transform_tail(body):  # `body`: list of statements
+        newtail = TailStatementTransformer().visit(body[-1])
+        if isinstance(newtail, list):  # replaced by more than one statement?
+            return body[:-1] + newtail
+        return body[:-1] + [newtail]
+
     class TailStatementTransformer(ASTTransformer):
         def transform(self, tree):
             # TODO: For/AsyncFor/While?
             if type(tree) is If:
-                tree.body[-1] = self.visit(tree.body[-1])
+                tree.body = transform_tail(tree.body)
                 if tree.orelse:
-                    tree.orelse[-1] = self.visit(tree.orelse[-1])
+                    tree.orelse = transform_tail(tree.orelse)
             elif type(tree) in (With, AsyncWith):
-                tree.body[-1] = self.visit(tree.body[-1])
+                tree.body = transform_tail(tree.body)
             elif type(tree) in (Try, TryStar):  # Python 3.11+: `try`/`except*`
                 # We don't care about finalbody; typically used for unwinding only.
                 if tree.orelse:  # tail position is in else clause if present
-                    tree.orelse[-1] = self.visit(tree.orelse[-1])
+                    tree.orelse = transform_tail(tree.orelse)
                 else:  # tail position is in the body of the "try"
-                    tree.body[-1] = self.visit(tree.body[-1])
+                    tree.body = transform_tail(tree.body)
                 # additionally, tail position is in each "except" handler
-                for handler in tree.handlers:
-                    handler.body[-1] = self.visit(handler.body[-1])
+                # (but Python does not allow "return" in "except*")
+                if type(tree) is Try:
+                    for handler in tree.handlers:
+                        handler.body = transform_tail(handler.body)
             elif type(tree) in (FunctionDef, AsyncFunctionDef, ClassDef):  # v0.15.0+
                 # If the item in tail position is a named function definition
                 # or a class definition, it binds a name - that of the function/class.
-- 
2.43.0


From e95806a52d1de7df88ba628157abde7ba48b85c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:23 +0000
Subject: [PATCH 45/79] fix: tco, continuations: a falsy item ending an and
 chain is returned as-is, not as False; a variable named it can be used in the
 last item of an or chain

---
 unpythonic/syntax/tailtools.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index 035331d..a0d3bf2 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -20,14 +20,14 @@ from ast import (Lambda, FunctionDef, AsyncFunctionDef, ClassDef,
 import sys
 
 from mcpyrate.quotes import macros, q, u, n, a, h  # noqa: F401
+from .letdo import macros, let  # noqa: F811, F401
 
 from mcpyrate import gensym
 from mcpyrate.astcompat import getconstant, NameConstant, TryStar
-from mcpyrate.quotes import capture_as_macro, is_captured_value
+from mcpyrate.quotes import is_captured_value
 from mcpyrate.utils import NestingLevelTracker
 from mcpyrate.walkers import ASTTransformer, ASTVisitor
 
-from .ifexprs import aif, it
 from .letdoutil import isdo, islet, ExpandedLetView, ExpandedDoView
 from .util import (isx, isec,
                    detect_callec, detect_lambda,
@@ -41,16 +41,6 @@ from ..funutil import Values
 from ..it import uniqify
 from ..tco import trampolined, jump
 
-# In `continuations`, we use `aif` and `it` as hygienically captured macros.
-# Note the difference between `aif[..., it, ...]` and `q[a[_our_aif][..., a[_our_it], ...]]`.
-#
-# If `it` is bound in the current expander, even *mentioning* it outside an `aif` is a syntax error, by design.
-#
-# When constructing a quasiquoted tree that invokes `aif[]`, we can splice in a hygienic reference to `it`
-# as `a[_our_it]` without even having the macro bound in the expander that expands *this* module.
-_our_aif = capture_as_macro(aif)
-_our_it = capture_as_macro(it)
-
 # --------------------------------------------------------------------------------
 # Macro interface
 
@@ -1628,18 +1618,21 @@ def _transform_retexpr(tree, known_ecs, call_cb=None, data_cb=None):
                     op_of_others = BoolOp(op=tree.op, values=tree.values[:-1])
                 else:
                     op_of_others = tree.values[0]
+                # Using a gensym instead of the `it` of an `aif`, because client code may have its own `it`.
+                others = gensym("others")
                 if type(tree.op) is Or:
-                    # or(data1, ..., datan, tail) --> aif[any(others), it, tail]
-                    tree = q[a[_our_aif][a[op_of_others],
-                                         a[transform_data(_our_it)],
-                                         a[transform(tree.values[-1])]]]  # tail-call item
+                    # or(data1, ..., datan, tail) --> let[x := any(others)][x if x else tail]
+                    body = q[a[transform_data(q[n[others]])]
+                             if n[others]
+                             else a[transform(tree.values[-1])]]  # tail-call item
                 elif type(tree.op) is And:
-                    # and(data1, ..., datan, tail) --> tail if all(others) else False
-                    tree = q[a[transform(tree.values[-1])]
-                             if a[op_of_others]
-                             else a[transform_data(q[False])]]
+                    # and(data1, ..., datan, tail) --> let[x := all(others)][tail if x else x]
+                    # In `continuations`, we send just `False` into the continuation.
+                    falsy = q[n[others]] if data_cb is None else transform_data(q[False])
+                    body = q[a[transform(tree.values[-1])] if n[others] else a[falsy]]
                 else:  # cannot happen
                     raise SyntaxError(f"unknown BoolOp type {tree.op}")  # pragma: no cover
+                tree = q[h[let][(n[others], a[op_of_others])][a[body]]]
             else:  # optimization: BoolOp, no call or compound in tail position --> treat as single data item
                 tree = transform_data(tree)
         else:
-- 
2.43.0


From 7f12342ae0b2837a4c72e83a74efce0083bf62a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:47 +0000
Subject: [PATCH 46/79] fix: tco: do not turn the return value into a tail call
 where the caller still has work to do: inside with and try, and in generators
 and coroutines

---
 unpythonic/syntax/tailtools.py | 50 +++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index a0d3bf2..129b3ca 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -15,7 +15,7 @@ from ast import (Lambda, FunctionDef, AsyncFunctionDef, ClassDef,
                  Call, Name, Starred, Constant,
                  BoolOp, And, Or,
                  With, AsyncWith, If, IfExp, Try, Assign, Return, Expr,
-                 Await,
+                 Await, Yield, YieldFrom,
                  copy_location)
 import sys
 
@@ -163,6 +163,10 @@ def tco(tree, *, syntax, expander, **kw):
           itself does not need to be in tail position; escaping early is the
           whole point of an ec.
 
+    A ``return`` inside a ``with``, or inside a ``try`` that still has exceptions
+    to handle or a ``finally`` clause to run, is not in tail position. Neither is
+    a ``return`` in a generator or in an ``async def``.
+
     All function definitions (``def`` and ``lambda``) lexically inside the block
     undergo TCO transformation. The functions are automatically ``@trampolined``,
     and any tail calls in their return values are converted to ``jump(...)``
@@ -732,12 +736,14 @@ def _tco(block_body):
             continue
 
         stmt = _tco_transform_return(stmt, known_ecs=known_ecs,
-                                     transform_retexpr=transform_retexpr)
+                                     transform_retexpr=transform_retexpr,
+                                     only_tail=True)
         stmt = _tco_transform_def(stmt, preproc_cb=None)
         stmt = _tco_transform_lambda(stmt, preproc_cb=None,
                                      userlambdas=userlambdas,
                                      known_ecs=known_ecs,
-                                     transform_retexpr=transform_retexpr)
+                                     transform_retexpr=transform_retexpr,
+                                     only_tail=True)
         stmt = sort_lambda_decorators(stmt)
         new_block_body.append(stmt)
     return new_block_body
@@ -1484,11 +1490,26 @@ def _tco_transform_def(tree, *, preproc_cb):
 # Transform return statements and calls to escape continuations (ec).
 # known_ecs: list of names (str) of known escape continuations.
 # transform_retexpr: return-value expression transformer (for TCO and stuff).
-def _tco_transform_return(tree, *, known_ecs, transform_retexpr):
+# only_tail: whether to leave alone the returns that are not in tail position with respect to the function definition:
+#   - A `with`, or a `try` with its `except` and `finally` clauses, is still active while the return value is being computed.
+#   - A generator or a coroutine has no trampoline that could run the tail call; it returns to its driver.
+def _tco_transform_return(tree, *, known_ecs, transform_retexpr, only_tail=False):
     class TcoReturnTransformer(ASTTransformer):
         def transform(self, tree):
             if is_captured_value(tree):
                 return tree  # don't recurse!
+            if only_tail:
+                if type(tree) in (FunctionDef, AsyncFunctionDef):
+                    self.withstate(tree.body, istail=(type(tree) is FunctionDef and not _isgenerator(tree)))
+                elif type(tree) in (With, AsyncWith):
+                    self.withstate(tree.body, istail=False)
+                elif type(tree) in (Try, TryStar):
+                    self.withstate(tree.body, istail=False)
+                    if tree.finalbody:
+                        self.withstate(tree.handlers, istail=False)
+                        self.withstate(tree.orelse, istail=False)
+                elif type(tree) is Return and not self.state.istail:
+                    return self.generic_visit(tree)
             if type(tree) is Return:
                 non = q[None]
                 non = copy_location(non, tree)
@@ -1507,10 +1528,24 @@ def _tco_transform_return(tree, *, known_ecs, transform_retexpr):
                     raise SyntaxError("expected exactly one argument for escape continuation")  # pragma: no cover
                 tree.args[0] = transform_retexpr(tree.args[0], known_ecs)
             return self.generic_visit(tree)
-    return TcoReturnTransformer().visit(tree)
+    return TcoReturnTransformer(istail=True).visit(tree)
+
+def _isgenerator(tree):  # tree: FunctionDef or Lambda
+    class YieldDetector(ASTVisitor):
+        def examine(self, tree):
+            if is_captured_value(tree):
+                return  # don't recurse!
+            if type(tree) in (Yield, YieldFrom):
+                self.collect(tree)
+            elif type(tree) in (FunctionDef, AsyncFunctionDef, Lambda, ClassDef):
+                return  # has its own scope
+            self.generic_visit(tree)
+    d = YieldDetector()
+    d.visit(tree.body)
+    return bool(d.collected)
 
 # userlambdas: list of ids; the purpose is to avoid transforming lambdas implicitly added by macros (do, let).
-def _tco_transform_lambda(tree, *, preproc_cb, userlambdas, known_ecs, transform_retexpr):
+def _tco_transform_lambda(tree, *, preproc_cb, userlambdas, known_ecs, transform_retexpr, only_tail=False):
     class TcoLambdaTransformer(ASTTransformer):
         def transform(self, tree):
             if is_captured_value(tree):
@@ -1525,7 +1560,8 @@ def _tco_transform_lambda(tree, *, preproc_cb, userlambdas, known_ecs, transform
             elif type(tree) is Lambda and id(tree) in userlambdas:
                 if preproc_cb:
                     tree = preproc_cb(tree)
-                tree.body = transform_retexpr(tree.body, known_ecs)
+                if not (only_tail and _isgenerator(tree)):
+                    tree.body = transform_retexpr(tree.body, known_ecs)
                 lam = tree
                 if not hastco:  # Enable TCO if not TCO'd already.
                     # Just slap it on; we will sort_lambda_decorators() later.
-- 
2.43.0


From b431c55d916add6db1d53e9e39ad5f18b9624b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:25 +0000
Subject: [PATCH 47/79] fix: tco: a tail call into a memoized, or otherwise
 decorated, trampolined function runs the decorator; into a curried function,
 curries

---
 unpythonic/tco.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/unpythonic/tco.py b/unpythonic/tco.py
index 5d6f01b..371e38a 100644
--- a/unpythonic/tco.py
+++ b/unpythonic/tco.py
@@ -158,12 +158,30 @@ def jump(target, /, *args, **kwargs):
     """
     return _jump(target, args, kwargs)
 
-def _get_entrypoint(target):
+def _get_entrypoint(target, args, kwargs):
     """Return the function inside the trampoline if `target` is a trampoline, else `target` itself."""
     if ismethod(target):
-        function = _get_entrypoint(target.__func__)
+        function = _get_entrypoint(target.__func__, (target.__self__,) + tuple(args), kwargs)
         return MethodType(function, target.__self__) if function is not target.__func__ else target
-    return target._entrypoint if hasattr(target, "_entrypoint") else target
+    if not hasattr(target, "_entrypoint"):
+        return target
+    # A decorator on top of a trampoline usually copies the attributes of the trampoline (`functools.wraps`).
+    # Such a target is not itself a trampoline; the decorator must run, too.
+    #
+    # `curry` is a special case. To allow TCO in curried code, we skip it if it has nothing to do,
+    # i.e. when the arguments match the call signature exactly.
+    wrapped = getattr(target, "__wrapped__", None)
+    if wrapped is target._entrypoint:
+        return wrapped
+    if hasattr(target, "_is_curried_function"):
+        from .fun import _call, _decide_curry_action  # avoid circular import
+        try:
+            action, _ = _decide_curry_action(wrapped, args, kwargs)
+        except Exception:  # not callable with these arguments; let `curry` report it
+            return target
+        if action is _call:
+            return _get_entrypoint(wrapped, args, kwargs)
+    return target
 
 class _jump:
     """The actual class representing a jump.
@@ -173,7 +191,7 @@ class _jump:
     """
     def __init__(self, target, args, kwargs):
         # IMPORTANT: don't let target bring along its trampoline if it has one
-        self.target = _get_entrypoint(target)
+        self.target = _get_entrypoint(target, args, kwargs)
         self.args = args
         self.kwargs = kwargs
         self._claimed = False  # set when the instance is caught by a trampoline
-- 
2.43.0


From 8c3faab0b4a6308999166a8d709a20a5069df853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:47 +0000
Subject: [PATCH 48/79] fix: fploop: in a with tco block, the argument of brk
 may be a tail call

---
 unpythonic/fploop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unpythonic/fploop.py b/unpythonic/fploop.py
index 84692c4..9cc5515 100644
--- a/unpythonic/fploop.py
+++ b/unpythonic/fploop.py
@@ -173,7 +173,7 @@ def breakably_looped(body):
             pass
         tb = trampolined(body)
         return tb(loop, brk)
-    return result
+    return trampolined(lambda: result)()  # in a `with tco`, the argument of `brk` may be a tail call
 
 @register_decorator(priority=50, istco=True)
 def looped_over(iterable, acc=None):  # decorator factory
@@ -340,5 +340,5 @@ def breakably_looped_over(iterable, acc=None):  # decorator factory
                 return acc
             tb = trampolined(body)
             return tb(loop, x0, acc, partial(loop, oldacc), brk)
-        return result
+        return trampolined(lambda: result)()  # in a `with tco`, the argument of `brk` may be a tail call
     return run
-- 
2.43.0


From 2900d79673f2e144fee74250fd2cb039ec39c908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:33 +0000
Subject: [PATCH 49/79] fix: tco: apply TCO to lambdas in default values of
 lambdas, and in the arguments of a parametric decorator of a lambda

---
 unpythonic/syntax/tailtools.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index 129b3ca..0ba8806 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -31,7 +31,7 @@ from mcpyrate.walkers import ASTTransformer, ASTVisitor
 from .letdoutil import isdo, islet, ExpandedLetView, ExpandedDoView
 from .util import (isx, isec,
                    detect_callec, detect_lambda,
-                   has_tco, sort_lambda_decorators,
+                   destructure_decorated_lambda, has_tco, sort_lambda_decorators,
                    suggest_decorator_index,
                    UnpythonicASTMarker, ExpandedContinuationsMarker)
 
@@ -1546,32 +1546,33 @@ def _isgenerator(tree):  # tree: FunctionDef or Lambda
 
 # userlambdas: list of ids; the purpose is to avoid transforming lambdas implicitly added by macros (do, let).
 def _tco_transform_lambda(tree, *, preproc_cb, userlambdas, known_ecs, transform_retexpr, only_tail=False):
+    lambdas_with_tco = set()
     class TcoLambdaTransformer(ASTTransformer):
         def transform(self, tree):
             if is_captured_value(tree):
                 return tree  # don't recurse!
-            hastco = self.state.hastco
             # Detect a userlambda which already has TCO applied.
             #
             # Note at this point we haven't seen the lambda; at most, we're examining
             # a Call node. The checker internally descends if tree looks promising.
             if type(tree) is Call and has_tco(tree, userlambdas):
-                self.generic_withstate(tree, hastco=True)  # the lambda inside the trampolined(...) is the next Lambda node we will descend into.
+                _, thelambda = destructure_decorated_lambda(tree)
+                lambdas_with_tco.add(id(thelambda))
             elif type(tree) is Lambda and id(tree) in userlambdas:
                 if preproc_cb:
                     tree = preproc_cb(tree)
                 if not (only_tail and _isgenerator(tree)):
                     tree.body = transform_retexpr(tree.body, known_ecs)
                 lam = tree
-                if not hastco:  # Enable TCO if not TCO'd already.
+                if id(lam) not in lambdas_with_tco:  # Enable TCO if not TCO'd already.
                     # Just slap it on; we will sort_lambda_decorators() later.
                     tree = q[h[trampolined](a[tree])]
                 # don't recurse on the lambda we just moved, but recurse inside it.
-                self.withstate(lam.body, hastco=False)
+                lam.args = self.visit(lam.args)  # default values
                 lam.body = self.visit(lam.body)
                 return tree
             return self.generic_visit(tree)
-    return TcoLambdaTransformer(hastco=False).visit(tree)
+    return TcoLambdaTransformer().visit(tree)
 
 # Tail-position analysis for a return-value expression (also the body of a lambda).
 # Here we need to be very, very selective about where to recurse so this would not
-- 
2.43.0


From 7d657e50683184ddf9619b52ed87a17d02ec3452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:33 +0000
Subject: [PATCH 50/79] fix: tco: decorators not known to the decorator
 registry, such as property and classmethod, get a trampolined function; catch
 is known

---
 unpythonic/ec.py               |  1 +
 unpythonic/syntax/tailtools.py | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/unpythonic/ec.py b/unpythonic/ec.py
index 3be1284..54417c4 100644
--- a/unpythonic/ec.py
+++ b/unpythonic/ec.py
@@ -72,6 +72,7 @@ class Escape(BaseException):
         # Error message when uncaught
         self.args = ("Not within the dynamic extent of a @catch",)
 
+@register_decorator(priority=80)
 def catch(tags=None, catch_untagged=True):
     """Decorator. Mark function as exitable by ``throw(value)``.
 
diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index 0ba8806..e9dc517 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -31,7 +31,7 @@ from mcpyrate.walkers import ASTTransformer, ASTVisitor
 from .letdoutil import isdo, islet, ExpandedLetView, ExpandedDoView
 from .util import (isx, isec,
                    detect_callec, detect_lambda,
-                   destructure_decorated_lambda, has_tco, sort_lambda_decorators,
+                   destructure_decorated_lambda, has_deco, has_tco, sort_lambda_decorators,
                    suggest_decorator_index,
                    UnpythonicASTMarker, ExpandedContinuationsMarker)
 
@@ -39,6 +39,7 @@ from ..dynassign import dyn
 from ..fun import identity
 from ..funutil import Values
 from ..it import uniqify
+from ..regutil import all_decorators
 from ..tco import trampolined, jump
 
 # --------------------------------------------------------------------------------
@@ -1482,8 +1483,14 @@ def _tco_transform_def(tree, *, preproc_cb):
                     k = suggest_decorator_index("trampolined", tree.decorator_list)
                     if k is not None:
                         tree.decorator_list.insert(k, q[h[trampolined]])
-                    else:  # couldn't determine insert position; just plonk it at the start and hope for the best
+                    elif has_deco(all_decorators, tree):  # couldn't determine insert position; just plonk it at the start and hope for the best
                         tree.decorator_list.insert(0, q[h[trampolined]])
+                    else:
+                        # Decorators we know nothing about should get a function that actually returns its return value.
+                        # But the decorators inserted by already expanded macros (`dlet`) can be inside the trampoline.
+                        isexpanded = lambda deco: type(deco) is Call and is_captured_value(deco.func)
+                        k = max((j for j, deco in enumerate(tree.decorator_list, start=1) if not isexpanded(deco)), default=0)
+                        tree.decorator_list.insert(k, q[h[trampolined]])
             return self.generic_visit(tree)
     return TcoDefTransformer().visit(tree)
 
-- 
2.43.0


From 8b34b4ba31bf714cb8f3af1e2d781afa00dd9a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:50 +0000
Subject: [PATCH 51/79] fix: continuations: later captures in the same function
 keep the continuation of the function; composed continuations can be resumed,
 chained and called; skipping a call_cc runs the continuation once

---
 unpythonic/syntax/tailtools.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index e9dc517..39a4bc0 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -39,6 +39,7 @@ from ..dynassign import dyn
 from ..fun import identity
 from ..funutil import Values
 from ..it import uniqify
+from ..lazyutil import passthrough_lazy_args
 from ..regutil import all_decorators
 from ..tco import trampolined, jump
 
@@ -762,9 +763,16 @@ def _tco(block_body):
 def chain_conts(cc1, cc2, with_star=False):  # cc1=_pcc, cc2=cc
     """Internal function, used in code generated by the continuations macro."""
     if with_star:  # to be chainable from a tail call, accept a multiple-values arglist
-        if cc1 is not None:
-            def cc(*rets, **kwrets):
-                return jump(cc1, cc=cc2, *rets, **kwrets)
+        if cc1 is not None and cc2 is not identity:
+            # A composed continuation is a continuation. It may be stashed and called just like any other,
+            # and it may become the `_pcc` of another continuation, which then chains a `cc` to it.
+            @passthrough_lazy_args
+            @trampolined
+            def composed(*rets, cc=identity, **kwrets):
+                return jump(cc1, *rets, cc=chain_conts(cc2, cc, with_star=True), **kwrets)
+            cc = composed
+        elif cc1 is not None:
+            cc = cc1
         else:
             # Beside a small optimization, it is important to preserve
             # "identity" as "identity", so that the call_cc logic that
@@ -786,6 +794,11 @@ def chain_conts(cc1, cc2, with_star=False):  # cc1=_pcc, cc2=cc
                     return jump(cc2, return_value)
     return cc
 
+def capture_pcc(pcc, cc):
+    """Internal function, used in code generated by the continuations macro."""
+    cc = chain_conts(pcc, cc, with_star=True)  # the whole rest of the computation, seen from the use site of `call_cc[]`
+    return cc if cc is not identity else None
+
 
 _continuations_level = NestingLevelTracker()  # for checking validity of call_cc[]
 
@@ -1088,7 +1101,8 @@ def _continuations(block_body):  # here be dragons.
             if tree:
                 tree.keywords = [keyword(arg="cc", value=q[n[contname]])] + tree.keywords
             else:  # no call means proceed to cont directly, with args set to None
-                tree = q[n[contname](*([None] * u[len(targets)]), cc=n["cc"])]
+                # Our `cc` has already been captured as the `_pcc` of the continuation.
+                tree = q[n[contname](*([None] * u[len(targets)]))]
             return tree
         thecall = prepare_call(thecall)
         if condition:
@@ -1106,10 +1120,10 @@ def _continuations(block_body):  # here be dragons.
         # TODO: needs to be modified, too.
         #
         FDef = type(owner) if owner else FunctionDef  # use same type (regular/async) as parent function
-        non = q[None]
-        maybe_capture = IfExp(test=q[n["cc"] is not h[identity]],
-                              body=q[n["cc"]],
-                              orelse=non)
+        if owner:
+            maybe_capture = q[h[capture_pcc](n["_pcc"], n["cc"])]
+        else:  # the top level of the block has no `_pcc`
+            maybe_capture = q[h[capture_pcc](None, n["cc"])]
         contarguments = arguments(args=[arg(arg=x) for x in targets],
                                   kwonlyargs=[arg(arg="cc"), arg(arg="_pcc")],
                                   vararg=(arg(arg=starget) if starget else None),
-- 
2.43.0


From 25e6e2f417d8e24c9123fe2318c993544f5c4af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:15 +0000
Subject: [PATCH 52/79] fix: lazify: unpacking a promise, augmented assignment
 to a promise, starred items in literals, default values and annotations of
 functions, let decorators

---
 unpythonic/syntax/lazify.py | 69 +++++++++++++++++++++++++++++++++----
 1 file changed, 63 insertions(+), 6 deletions(-)

diff --git a/unpythonic/syntax/lazify.py b/unpythonic/syntax/lazify.py
index af2207b..fb73e5f 100644
--- a/unpythonic/syntax/lazify.py
+++ b/unpythonic/syntax/lazify.py
@@ -4,10 +4,11 @@
 __all__ = ["lazy", "lazyrec", "lazify"]
 
 from ast import (Lambda, FunctionDef, AsyncFunctionDef, Call, Name, Attribute,
-                 Starred, keyword, List, Tuple, Dict, Set, Subscript, Load)
+                 Starred, keyword, List, Tuple, Dict, Set, Subscript, Load, AugAssign,
+                 IfExp, BoolOp)
 from functools import partial
 
-from mcpyrate.quotes import macros, q, u, a, h  # noqa: F401
+from mcpyrate.quotes import macros, q, u, n, a, h  # noqa: F401
 
 from mcpyrate.astcompat import TypeAlias
 from mcpyrate.astfixers import fix_ctx
@@ -512,9 +513,9 @@ def _lazyrec(tree):
     # This helper doesn't need to recurse, so we don't need `ASTTransformer` here.
     def transform(tree):
         if type(tree) in (Tuple, List, Set):
-            tree.elts = [rec(x) for x in tree.elts]
+            tree.elts = [unpacked(x) if type(x) is Starred else rec(x) for x in tree.elts]
         elif type(tree) is Dict:
-            tree.values = [rec(x) for x in tree.values]
+            tree.values = [(unpacked_map(v) if k is None else rec(v)) for k, v in zip(tree.keys, tree.values)]
         elif type(tree) is Call and any(isx(tree.func, ctor) for ctor in _ctorcalls_all):
             p, k = _ctor_handling_modes[getname(tree.func)]
             lazify_ctorcall(tree, p, k)
@@ -528,6 +529,14 @@ def _lazyrec(tree):
             tree = q[a[_our_lazy][a[tree]]]
         return tree
 
+    # A container that is unpacked into another one must not be lazified, but its items can be, if it is a literal.
+    def unpacked(tree):  # [..., *tree, ...]
+        if _is_literal_container(tree.value, maps_only=False):
+            tree.value = rec(tree.value)
+        return tree
+    def unpacked_map(tree):  # {..., **tree, ...}
+        return rec(tree) if _is_literal_container(tree, maps_only=True) else tree
+
     def lazify_ctorcall(tree, positionals="all", keywords="all"):
         if getname(tree.func) in _ctorcalls_that_take_exactly_one_positional_arg and len(tree.args) > 1:
             raise SyntaxError(f"lazyrec[]: while analyzing constructor call `{getname(tree.func)}`: there should be exactly one argument, but {len(tree.args)} were given.")  # pragma: no cover
@@ -572,6 +581,19 @@ def _is_literal_container(tree, maps_only=False):
 
 # -----------------------------------------------------------------------------
 
+class _ForcedReads:
+    """Internal. Force what is read from an attribute or subscript of `obj`. This is used in augmented assignments."""
+    def __init__(self, obj):
+        object.__setattr__(self, "_obj", obj)
+    def __getitem__(self, k):
+        return force(object.__getattribute__(self, "_obj")[k])
+    def __setitem__(self, k, v):
+        object.__getattribute__(self, "_obj")[k] = v
+    def __getattribute__(self, k):
+        return force(getattr(object.__getattribute__(self, "_obj"), k))
+    def __setattr__(self, k, v):
+        setattr(object.__getattribute__(self, "_obj"), k, v)
+
 # Note we do **not** lazify the RHS of assignments. This is one place where
 # explicit is better than implicit; with auto-lazification of assignment RHSs
 # it is too easy to accidentally set up an infinite recursion.
@@ -613,6 +635,12 @@ def _lazify(body):
         def transform(self, tree):
             forcing_mode = self.state.forcing_mode
 
+            # The "flat" mode is for resolving the container or object that a reference points to.
+            # In any other kind of expression, the values are actually used.
+            if forcing_mode == "flat" and type(tree) not in (Name, Attribute, Subscript, Starred, List, Tuple, IfExp, BoolOp, Call):
+                forcing_mode = "full"
+                self.generic_withstate(tree, forcing_mode=forcing_mode)
+
             # Forcing references (Name, Attribute, Subscript):
             #   x -> f(x)
             #   a.x -> f(force1(a).x)
@@ -657,6 +685,23 @@ def _lazify(body):
                 if type(tree) is Lambda and id(tree) not in userlambdas:
                     return self.generic_visit(tree)  # ignore macro-introduced lambdas (but recurse inside them)
                 else:
+                    # The default values and annotations are evaluated at the definition site.
+                    # A reference can be passed as-is, since the function will force it when needed.
+                    def transform_default(tree):
+                        if tree is not None:  # `kw_defaults` has a `None` if there is no default
+                            isref = type(tree) in (Name, Attribute, Subscript)
+                            self.withstate(tree, forcing_mode=("off" if isref else "full"))
+                            tree = self.visit(tree)
+                        return tree
+                    tree.args.defaults = [transform_default(x) for x in tree.args.defaults]
+                    tree.args.kw_defaults = [transform_default(x) for x in tree.args.kw_defaults]
+                    for x in (tree.args.posonlyargs + tree.args.args + [tree.args.vararg] +
+                              tree.args.kwonlyargs + [tree.args.kwarg]):
+                        if x is not None and x.annotation is not None:
+                            x.annotation = self.visit(x.annotation)
+                    if type(tree) is not Lambda and tree.returns is not None:
+                        tree.returns = self.visit(tree.returns)
+
                     # mark this definition as lazy, and insert the interface wrapper
                     # to allow also strict code to call this function
                     if type(tree) is Lambda:
@@ -697,8 +742,9 @@ def _lazify(body):
                     return tree
 
                 def transform_starred(tree, dstarred=False):
+                    # A promise cannot be unpacked, but there is no need to force the items.
                     isref = type(tree) in (Name, Attribute, Subscript)
-                    self.withstate(tree, forcing_mode=("off" if isref else "full"))
+                    self.withstate(tree, forcing_mode=("flat" if isref else "full"))
                     tree = self.visit(tree)
                     # lazify items if we have a literal container
                     # we must avoid lazifying any other exprs, since a Lazy cannot be unpacked.
@@ -717,7 +763,8 @@ def _lazify(body):
                         for b in view.bindings.elts:  # b = (name, (lambda e: ...))
                             thelambda = b.elts[1]
                             thelambda.body = transform_arg(thelambda.body)
-                    if view.body:  # let decorators have no body inside the Call node
+                    kind, _ = islet(tree)
+                    if not kind.endswith("decorator"):  # let decorators have no body inside the Call node
                         thelambda = view.body
                         thelambda.body = self.visit(thelambda.body)
                     return tree
@@ -826,6 +873,16 @@ def _lazify(body):
                 tree = f(tree)
                 return tree
 
+            # In `x += ...`, the `x` is in Store context, but it is also read.
+            elif type(tree) is AugAssign:
+                if type(tree.target) is Name:
+                    with q as setup:
+                        n[tree.target.id] = h[force](n[tree.target.id])
+                    return setup + [self.generic_visit(tree)]
+                tree = self.generic_visit(tree)
+                tree.target.value = q[h[_ForcedReads](a[tree.target.value])]
+                return tree
+
             elif type(tree) is Name and type(tree.ctx) is Load:
                 # using the currently active forcing mode, force the value.
                 tree = f(tree)
-- 
2.43.0


From 99a8bde96057b09f50653b43d3e404d9441bf16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:52 +0000
Subject: [PATCH 53/79] fix: let views: setting the body of a let[] to an AST
 node that has a value attribute no longer makes the node contain itself

---
 unpythonic/syntax/letdoutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/syntax/letdoutil.py b/unpythonic/syntax/letdoutil.py
index d286d0e..5b26920 100644
--- a/unpythonic/syntax/letdoutil.py
+++ b/unpythonic/syntax/letdoutil.py
@@ -29,7 +29,8 @@ def _set_subscript_slice(tree, newslice):  # newslice: AST
     assert type(tree) is Subscript
     if sys.version_info >= (3, 9, 0):  # Python 3.9+: the Index wrapper is gone.
         tree.slice = newslice
-    tree.slice.value = newslice
+    else:
+        tree.slice.value = newslice
 def _canonize_macroargs_node(macroargs):
     # We do this like `mcpyrate.expander.destructure_candidate` does,
     # except that we also destructure a list.
-- 
2.43.0


From d4c1f43e3b2daeaf605b9f49070bcf81b0956015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:46 +0000
Subject: [PATCH 54/79] fix: autocurry: partial applications of a lambda with
 TCO have a trampoline

---
 unpythonic/syntax/autocurry.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/autocurry.py b/unpythonic/syntax/autocurry.py
index 0124c3b..3d2d85c 100644
--- a/unpythonic/syntax/autocurry.py
+++ b/unpythonic/syntax/autocurry.py
@@ -11,7 +11,8 @@ from mcpyrate.astcompat import TypeAlias
 from mcpyrate.quotes import is_captured_value
 from mcpyrate.walkers import ASTTransformer
 
-from .util import (suggest_decorator_index, isx, has_curry, sort_lambda_decorators)
+from .util import (suggest_decorator_index, isx, has_curry, has_deco, sort_lambda_decorators,
+                   is_decorated_lambda, destructure_decorated_lambda)
 
 from ..dynassign import dyn
 
@@ -91,7 +92,20 @@ def _autocurry(block_body):
                 return tree
 
             hascurry = self.state.hascurry
-            if type(tree) is Call:
+            if (type(tree) is Call and is_decorated_lambda(tree, mode="known") and
+                    has_deco(["trampolined"], tree) and not has_curry(tree)):
+                # Like in a `def`, the `curry` must go on the outside of the trampoline.
+                # Otherwise a partial application of the function would have no trampoline.
+                decorator_list, thelambda = destructure_decorated_lambda(tree)
+                for deco in decorator_list:
+                    if type(deco.func) is Call and not is_captured_value(deco.func):  # parametric decorator
+                        deco.func.args = self.visit(deco.func.args)
+                        deco.func.keywords = self.visit(deco.func.keywords)
+                self.withstate(thelambda.body, hascurry=False)
+                thelambda.body = self.visit(thelambda.body)
+                return q[h[curryf](a[tree])]
+
+            elif type(tree) is Call:
                 # Don't auto-curry some calls we know not to need it. This is both a performance optimization
                 # and allows other macros (particularly `lazify`) to be able to see the original calls.
                 # (It also generates cleaner expanded output.)
-- 
2.43.0


From 660195a66b8f51119d1775bdf9ab949d74d52397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:58 +0000
Subject: [PATCH 55/79] fix: autocurry, lazify, tco: builtins that look at the
 caller's frame are called directly; autocurry: builtins with an invalid
 signature, and type, can be called

---
 unpythonic/fun.py              | 18 ++++++++++++------
 unpythonic/syntax/autocurry.py |  5 +++--
 unpythonic/syntax/lazify.py    |  4 +++-
 unpythonic/syntax/tailtools.py |  5 +++--
 unpythonic/syntax/util.py      | 12 +++++++++++-
 5 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index ca75b27..14ee1e1 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -18,7 +18,7 @@ __all__ = ["memoize", "curry", "iscurried",
            "withself"]
 
 from collections import namedtuple
-from functools import wraps, partial as functools_partial
+from functools import wraps, WRAPPER_ASSIGNMENTS, partial as functools_partial
 from inspect import signature
 from threading import RLock
 from typing import get_type_hints
@@ -197,6 +197,11 @@ def iscurried(f):
     """Return whether f is a curried function."""
     return hasattr(f, "_is_curried_function")
 
+def _isuninspectable(err):
+    """Return whether `err` is a `ValueError` by which `inspect.signature` reports an uninspectable callable."""
+    msg = str(err.args[0]) if err.args else ""
+    return any(x in msg for x in ("no signature found", "has invalid signature"))
+
 @register_decorator(priority=8)
 @passthrough_lazy_args
 def curry(f, /, *args, _curry_force_call=False, _curry_allow_uninspectable=False, **kwargs):
@@ -333,12 +338,14 @@ def curry(f, /, *args, _curry_force_call=False, _curry_allow_uninspectable=False
         try:
             signature(_unwrap_partial(f, (), {})[0])
         except ValueError as err:  # inspection failed in inspect.signature()?
-            msg = err.args[0]
-            if "no signature found" in msg:
+            if _isuninspectable(err):
                 return fallback()
             raise
 
-    @wraps(f)
+    # Python 3.12+: the `__type_params__` of the builtin `type` is not a tuple, so it cannot be copied.
+    assigned = [x for x in WRAPPER_ASSIGNMENTS
+                if x != "__type_params__" or isinstance(getattr(f, x, None), tuple)]
+    @wraps(f, assigned=assigned)
     def curried(*args, **kwargs):
         outerctx = dyn.curry_context
         with dyn.let(curry_context=(outerctx + [f])):
@@ -350,8 +357,7 @@ def curry(f, /, *args, _curry_force_call=False, _curry_allow_uninspectable=False
             try:
                 action, analysis = _decide_curry_action(f, args, kwargs)
             except ValueError as err:  # inspection failed in inspect.signature()?
-                msg = err.args[0]
-                if "no signature found" in msg:
+                if _isuninspectable(err):
                     return fallback()
                 raise
 
diff --git a/unpythonic/syntax/autocurry.py b/unpythonic/syntax/autocurry.py
index 3d2d85c..7c0cee4 100644
--- a/unpythonic/syntax/autocurry.py
+++ b/unpythonic/syntax/autocurry.py
@@ -11,7 +11,7 @@ from mcpyrate.astcompat import TypeAlias
 from mcpyrate.quotes import is_captured_value
 from mcpyrate.walkers import ASTTransformer
 
-from .util import (suggest_decorator_index, isx, has_curry, has_deco, sort_lambda_decorators,
+from .util import (iscallerdependent, suggest_decorator_index, isx, has_curry, has_deco, sort_lambda_decorators,
                    is_decorated_lambda, destructure_decorated_lambda)
 
 from ..dynassign import dyn
@@ -114,7 +114,8 @@ def _autocurry(block_body):
                 #     This has the effect that in `with continuations`, the tail-calls to continuation
                 #     functions won't be curried, but perhaps that's ok. This allows the Pytkell dialect's
                 #     `with lazify, autocurry` combo to work with an inner `with continuations`.
-                if (isx(tree.func, "Values") or
+                #   - Builtins that look at the stack frame of the caller, such as `super()`.
+                if (isx(tree.func, "Values") or iscallerdependent(tree) or
                         (type(tree.func) is Call and isx(tree.func.func, "chain_conts"))):
                     # However, *do* auto-curry in the positional and named args of the call.
                     tree.args = self.visit(tree.args)
diff --git a/unpythonic/syntax/lazify.py b/unpythonic/syntax/lazify.py
index fb73e5f..d473f3d 100644
--- a/unpythonic/syntax/lazify.py
+++ b/unpythonic/syntax/lazify.py
@@ -17,7 +17,7 @@ from mcpyrate.unparser import unparse
 from mcpyrate.walkers import ASTTransformer
 
 from .util import (suggest_decorator_index, sort_lambda_decorators, detect_lambda,
-                   isx, getname, is_decorator)
+                   isx, getname, is_decorator, iscallerdependent)
 from .letdoutil import islet, isdo, ExpandedLetView
 from .nameutil import is_unexpanded_expr_macro
 from ..lazyutil import Lazy, passthrough_lazy_args, force, force1, maybe_force_args
@@ -778,6 +778,7 @@ def _lazify(body):
                 #   - `Lazy` takes a lambda, constructs a `Lazy` object; if we're calling `Lazy`,
                 #     the expression is already lazy.
                 #   - `_autoref_resolve` does the name lookup in `with autoref` blocks.
+                #   - Builtins that look at the stack frame of the caller, such as `super()`.
                 #
                 # Don't lazify in calls to return-value utilities, because return values
                 # are never implicitly lazy in `unpythonic`.
@@ -788,6 +789,7 @@ def _lazify(body):
                       isx(tree.func, _expanded_lazy_name) or
                       isx(tree.func, "_autoref_resolve") or
                       isx(tree.func, "Values") or
+                      iscallerdependent(tree) or
                       (type(tree.func) is Call and isx(tree.func.func, "chain_conts"))):
                     # Here we know the operator (.func) to be one of specific names;
                     # don't transform it to avoid confusing `lazyrec[]`.
diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index 39a4bc0..4887c9d 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -29,7 +29,7 @@ from mcpyrate.utils import NestingLevelTracker
 from mcpyrate.walkers import ASTTransformer, ASTVisitor
 
 from .letdoutil import isdo, islet, ExpandedLetView, ExpandedDoView
-from .util import (isx, isec,
+from .util import (isx, isec, iscallerdependent,
                    detect_callec, detect_lambda,
                    destructure_decorated_lambda, has_deco, has_tco, sort_lambda_decorators,
                    suggest_decorator_index,
@@ -1652,9 +1652,10 @@ def _transform_retexpr(tree, known_ecs, call_cb=None, data_cb=None):
             #   - If a Values(...), leave it alone; that just constructs
             #     a multiple-return-values object so it doesn't need TCO.
             #     But it acts like bare data.
+            #   - Similarly for a builtin that looks at our stack frame, such as super().
             if isx(tree.func, _isjump) or isec(tree, known_ecs):
                 pass
-            elif isx(tree.func, "Values"):
+            elif isx(tree.func, "Values") or iscallerdependent(tree):
                 tree = transform_data(tree)
             else:
                 tree.args = [tree.func] + tree.args
diff --git a/unpythonic/syntax/util.py b/unpythonic/syntax/util.py
index 721b8b3..bc41339 100644
--- a/unpythonic/syntax/util.py
+++ b/unpythonic/syntax/util.py
@@ -4,7 +4,7 @@
 This module also contains the definitions for working with "decorated lambdas".
 """
 
-__all__ = ["isec", "detect_callec",
+__all__ = ["isec", "iscallerdependent", "detect_callec",
            "detect_lambda",
            "is_decorator",
            "is_lambda_decorator", "is_decorated_lambda", "destructure_decorated_lambda",
@@ -38,6 +38,16 @@ def isec(tree, known_ecs):
     """
     return type(tree) is Call and getname(tree.func, accept_attr=False) in known_ecs
 
+def iscallerdependent(tree):
+    """Test whether tree is a call to a builtin that looks at the stack frame of its caller.
+
+    Such a function must be called directly from the function whose frame it is meant to look at.
+
+    **CAUTION**: Only bare-name references are supported.
+    """
+    return (type(tree) is Call and
+            getname(tree.func, accept_attr=False) in ("super", "locals", "globals", "vars", "dir", "eval", "exec"))
+
 def detect_callec(tree):
     """Collect names of escape continuations from call_ec invocations in tree.
 
-- 
2.43.0


From 21f73a0ff615f9bce212deb6a49e6f1ce0e62ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:40 +0000
Subject: [PATCH 56/79] fix: envify: respect local variables, class bodies,
 comprehensions and docstrings

---
 unpythonic/syntax/lambdatools.py | 105 ++++++++++++++++++++++++-------
 1 file changed, 83 insertions(+), 22 deletions(-)

diff --git a/unpythonic/syntax/lambdatools.py b/unpythonic/syntax/lambdatools.py
index 4b12fd2..45fbdd9 100644
--- a/unpythonic/syntax/lambdatools.py
+++ b/unpythonic/syntax/lambdatools.py
@@ -7,8 +7,9 @@ __all__ = ["multilambda",
            "quicklambda",
            "envify"]
 
-from ast import (Lambda, Name, Assign, Subscript, Call, FunctionDef,
-                 AsyncFunctionDef, Attribute, keyword, Dict, Constant, arg)
+from ast import (Lambda, Name, Assign, AnnAssign, Subscript, Call, FunctionDef,
+                 AsyncFunctionDef, ClassDef, Expr, Attribute, keyword, Dict, Constant, arg,
+                 ListComp, SetComp, GeneratorExp, DictComp)
 from copy import deepcopy
 
 from mcpyrate.quotes import macros, q, u, n, a, h  # noqa: F401
@@ -29,6 +30,8 @@ from ..symbol import sym
 from .letdo import _implicit_do, _do
 from .letdoutil import islet, isenvassign, UnexpandedLetView, UnexpandedEnvAssignView, ExpandedDoView
 from .nameutil import getname
+from .scopeanalyzer import (get_lexical_variables, get_names_in_store_context,
+                            extract_args, collect_globals, collect_nonlocals)
 from .util import (is_decorated_lambda, isx, has_deco,
                    destructure_decorated_lambda, detect_lambda)
 
@@ -449,19 +452,6 @@ def _envify(block_body):
     block_body = dyn._macro_expander.visit_recursively(block_body)
 
     # second pass, inside-out
-    def getargs(tree):  # tree: FunctionDef, AsyncFunctionDef, Lambda
-        a = tree.args
-        if hasattr(a, "posonlyargs"):  # Python 3.8+: positional-only parameters
-            allargs = a.posonlyargs + a.args + a.kwonlyargs
-        else:
-            allargs = a.args + a.kwonlyargs
-        argnames = [x.arg for x in allargs]
-        if a.vararg:
-            argnames.append(a.vararg.arg)
-        if a.kwarg:
-            argnames.append(a.kwarg.arg)
-        return argnames
-
     def isfunctionoruserlambda(tree):
         return ((type(tree) in (FunctionDef, AsyncFunctionDef)) or
                 (type(tree) is Lambda and id(tree) in userlambdas))
@@ -470,25 +460,63 @@ def _envify(block_body):
     # nodes added by us have a unique .func (not used by other macros or user code)
     _envify = env
 
+    # Names bound in the body of a `def` or `class`. If not `namenodes`, ignore the ones bound by a `Name` node.
+    #
+    # Under `envify`, a walrus assigns to the formal parameter, if there is one in scope, so it doesn't count.
+    def getstores(body, namenodes=True):
+        class Remover(ASTTransformer):
+            def transform(self, tree):
+                if type(tree) is NamedExpr:
+                    return self.visit(tree.value)
+                elif type(tree) is Name and not namenodes:
+                    return Constant(value=None)
+                return self.generic_visit(tree)
+        return set(get_names_in_store_context(Remover().visit(deepcopy(body))))
+
+    def without(bindings, names):
+        return {k: v for k, v in bindings.items() if k not in names}
+
     class EnvifyTransformer(ASTTransformer):
+        # `bindings`: the formals to be looked up in our envs, as seen from here.
+        # `outerbindings`: the same, as seen from any nested function. (The names bound in a class body
+        #                  are in scope in the class body only, not in the methods.)
         def transform(self, tree):
             if is_captured_value(tree):
                 return tree  # don't recurse!
 
             bindings = self.state.bindings
+            outerbindings = self.state.outerbindings
             enames = self.state.enames
 
+            def visit_in(subtree, bindings, outerbindings=None, enames=enames):
+                outerbindings = bindings if outerbindings is None else outerbindings
+                self.withstate(subtree, bindings=bindings, outerbindings=outerbindings, enames=enames)
+                return self.visit(subtree)
+
             def isourupdate(thecall):
                 if type(thecall.func) is not Attribute:
                     return False
                 return thecall.func.attr == "update" and any(isx(thecall.func.value, x) for x in enames)
 
-            if isfunctionoruserlambda(tree):
-                argnames = getargs(tree)
-                if argnames:
+            if type(tree) in (FunctionDef, AsyncFunctionDef, Lambda):
+                # The decorators, default values and annotations belong to the surrounding scope.
+                tree.args = self.visit(tree.args)
+                argnames = extract_args(tree)
+                newbindings = without(outerbindings, argnames)
+                newenames = enames
+                if type(tree) is not Lambda:
+                    tree.decorator_list = self.visit(tree.decorator_list)
+                    if tree.returns is not None:
+                        tree.returns = self.visit(tree.returns)
+                    declared = set(collect_nonlocals(tree.body))
+                    shadowed = (getstores(tree.body) - declared) | set(collect_globals(tree.body))
+                    newbindings = without(newbindings, shadowed)
+                    # A formal that is rebound by e.g. an `import` remains a local variable.
+                    nonnames = getstores(tree.body, namenodes=False)
+                    argnames = [k for k in argnames if k not in nonnames]
+                if argnames and isfunctionoruserlambda(tree):
                     # prepend env init to function body, update bindings
                     kws = [keyword(arg=k, value=q[n[k]]) for k in argnames]  # "x" --> x
-                    newbindings = bindings.copy()
                     if type(tree) in (FunctionDef, AsyncFunctionDef):
                         ename = gensym("e")
                         theenv = q[h[_envify]()]
@@ -496,7 +524,9 @@ def _envify(block_body):
                         with q as quoted:
                             n[ename] = a[theenv]
                         assignment = quoted[0]
-                        tree.body.insert(0, assignment)
+                        hasdocstring = (type(tree.body[0]) is Expr and type(tree.body[0].value) is Constant and
+                                        type(tree.body[0].value.value) is str)
+                        tree.body.insert(1 if hasdocstring else 0, assignment)
                     elif type(tree) is Lambda and id(tree) in userlambdas:
                         # We must in general inject a new do[] even if one is already there,
                         # due to scoping rules. If the user code writes to the same names in
@@ -513,7 +543,35 @@ def _envify(block_body):
                         thecall.keywords = kws
                         tree.body = splice_expression(thecall, tree.body, "_here_")
                     newbindings.update({k: q[n[f"{ename}.{k}"]] for k in argnames})  # "x" --> e.x
-                    self.generic_withstate(tree, enames=(enames + [ename]), bindings=newbindings)
+                    newenames = enames + [ename]
+                tree.body = visit_in(tree.body, newbindings, enames=newenames)
+                return tree
+
+            elif type(tree) is ClassDef:
+                tree.decorator_list = self.visit(tree.decorator_list)
+                tree.bases = self.visit(tree.bases)
+                tree.keywords = self.visit(tree.keywords)
+                declared = set(collect_nonlocals(tree.body))
+                shadowed = (getstores(tree.body) - declared) | set(collect_globals(tree.body))
+                tree.body = visit_in(tree.body, without(bindings, shadowed), outerbindings)
+                return tree
+
+            elif type(tree) in (ListComp, SetComp, GeneratorExp, DictComp):
+                # The outermost iterator is evaluated in the surrounding scope.
+                first = tree.generators[0]
+                first.iter = self.visit(first.iter)
+                targetnames, _ignored = get_lexical_variables(tree)
+                newbindings = without(outerbindings, targetnames)
+                for g in tree.generators:
+                    if g is not first:
+                        g.iter = visit_in(g.iter, newbindings)
+                    g.target = visit_in(g.target, newbindings)
+                    g.ifs = visit_in(g.ifs, newbindings)
+                for fieldname in ("key", "value", "elt"):
+                    if hasattr(tree, fieldname):
+                        setattr(tree, fieldname, visit_in(getattr(tree, fieldname), newbindings))
+                return tree
+
             else:
                 # leave alone the _envify() added by us
                 if type(tree) is Call and (isx(tree.func, "_envify") or isourupdate(tree)):
@@ -540,7 +598,10 @@ def _envify(block_body):
                     out = deepcopy(bindings[tree.id])
                     out.ctx = ctx
                     return out
+                # an annotated assignment to something else than a bare name is not "simple"
+                elif type(tree) is AnnAssign and type(tree.target) is Name and tree.target.id in bindings.keys():
+                    tree.simple = 0
 
             return self.generic_visit(tree)
 
-    return EnvifyTransformer(bindings={}, enames=[]).visit(block_body)
+    return EnvifyTransformer(bindings={}, outerbindings={}, enames=[]).visit(block_body)
-- 
2.43.0


From fe7b0bb7e6a6a989dbae173c1233647dc340d407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:19 +0000
Subject: [PATCH 57/79] fix: namedlambda: name lambdas in defaults and call
 targets, accept non-string keys and let decorators

---
 unpythonic/syntax/lambdatools.py | 70 ++++++++++++--------------------
 1 file changed, 25 insertions(+), 45 deletions(-)

diff --git a/unpythonic/syntax/lambdatools.py b/unpythonic/syntax/lambdatools.py
index 45fbdd9..12cea03 100644
--- a/unpythonic/syntax/lambdatools.py
+++ b/unpythonic/syntax/lambdatools.py
@@ -312,56 +312,43 @@ def _namedlambda(block_body):
         return tree, thelambda, match
 
     class NamedLambdaTransformer(ASTTransformer):
+        # Name the literal lambda `tree` as `myname`, if it is one, and process anything inside it.
+        def visitnamed(self, myname, tree):
+            tree, thelambda, match = nameit(myname, tree)
+            return self.visit(tree)
+
         def transform(self, tree):
             if is_captured_value(tree):
                 return tree  # don't recurse!
-            if islet(tree, expanded=False):  # let bindings
+            letkind = islet(tree, expanded=False)
+            if letkind:  # let bindings
                 view = UnexpandedLetView(tree)
                 newbindings = []
                 for b in view.bindings:
-                    b.elts[1], thelambda, match = nameit(getname(b.elts[0]), b.elts[1])
-                    if match:
-                        thelambda.body = self.visit(thelambda.body)
-                    else:
-                        b.elts[1] = self.visit(b.elts[1])
+                    b.elts[1] = self.visitnamed(getname(b.elts[0]), b.elts[1])
                     newbindings.append(b)
                 view.bindings = newbindings  # write the new bindings (important!)
-                view.body = self.visit(view.body)
+                if letkind[0] != "decorator":  # the body of a decorated function is not part of the let form itself
+                    view.body = self.visit(view.body)
                 return tree
             # assumption: no one left-shifts by a literal lambda :)
             elif isenvassign(tree):  # f << (lambda ...: ...)
                 view = UnexpandedEnvAssignView(tree)
-                view.value, thelambda, match = nameit(view.name, view.value)
-                if match:
-                    thelambda.body = self.visit(thelambda.body)
-                else:
-                    view.value = self.visit(view.value)
+                view.value = self.visitnamed(view.name, view.value)
                 return tree
             elif issingleassign(tree):  # f = lambda ...: ...
-                tree.value, thelambda, match = nameit(getname(tree.targets[0]), tree.value)
-                if match:
-                    thelambda.body = self.visit(thelambda.body)
-                else:
-                    tree.value = self.visit(tree.value)
+                tree.value = self.visitnamed(getname(tree.targets[0]), tree.value)
                 return tree
             elif type(tree) is NamedExpr:  # f := lambda ...: ...  (Python 3.8+, added in unpythonic 0.15.0)
-                tree.value, thelambda, match = nameit(getname(tree.target), tree.value)
-                if match:
-                    thelambda.body = self.visit(thelambda.body)
-                else:
-                    tree.value = self.visit(tree.value)
+                tree.value = self.visitnamed(getname(tree.target), tree.value)
                 return tree
             elif iscallwithnamedargs(tree):  # foo(f=lambda: ...)
+                tree.func = self.visit(tree.func)
                 for kw in tree.keywords:
                     if kw.arg is None:  # **kwargs in Python 3.5+
                         kw.value = self.visit(kw.value)
-                        continue
-                    # a single named arg
-                    kw.value, thelambda, match = nameit(kw.arg, kw.value)
-                    if match:
-                        thelambda.body = self.visit(thelambda.body)
-                    else:
-                        kw.value = self.visit(kw.value)
+                    else:  # a single named arg
+                        kw.value = self.visitnamed(kw.arg, kw.value)
                 tree.args = self.visit(tree.args)
                 return tree
             elif type(tree) is Dict:  # {"f": lambda: ..., "g": lambda: ...}
@@ -370,17 +357,11 @@ def _namedlambda(block_body):
                     k, v = tree.keys[j], tree.values[j]
                     if k is None:  # {..., **d, ...}
                         tree.values[j] = self.visit(v)
+                    elif type(k) in (Constant, Str) and type(getconstant(k)) is str:  # Python 3.8+: ast.Constant
+                        tree.values[j] = self.visitnamed(getconstant(k), v)
                     else:
-                        if type(k) in (Constant, Str):  # Python 3.8+: ast.Constant
-                            thename = getconstant(k)
-                            tree.values[j], thelambda, match = nameit(thename, v)
-                            if match:
-                                thelambda.body = self.visit(thelambda.body)
-                            else:
-                                tree.values[j] = self.visit(v)
-                        else:
-                            tree.keys[j] = self.visit(k)
-                            tree.values[j] = self.visit(v)
+                        tree.keys[j] = self.visit(k)
+                        tree.values[j] = self.visit(v)
                 return tree
             return self.generic_visit(tree)
 
@@ -400,17 +381,16 @@ def _namedlambda(block_body):
             # Recurse into the lambda body in already named lambdas.
             if is_decorated_lambda(tree, mode="any") and has_deco(["namelambda"], tree):
                 decorator_list, thelambda = destructure_decorated_lambda(tree)
-                thelambda.body = self.visit(thelambda.body)
+                for thecall in decorator_list:
+                    thecall.func = self.visit(thecall.func)
+                self.generic_visit(thelambda)
                 return tree
             elif type(tree) is Lambda:
                 if hasattr(tree, "lineno"):
                     thename = f"<lambda at {dyn._macro_expander.filename}:{tree.lineno}>"
                     tree, thelambda, match = nameit(thename, tree)
-                    if match:
-                        thelambda.body = self.visit(thelambda.body)
-                    else:
-                        tree = self.visit(tree)
-                return tree
+                    self.generic_visit(thelambda)
+                    return tree
             return self.generic_visit(tree)
     return NamedLambdaFinalizationTransformer().visit(newbody)
 
-- 
2.43.0


From c83446a01b8ce5bb616fcf303f9bd1c4ebd9636f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:30 +0000
Subject: [PATCH 58/79] fix: fn: avoid generating names that a class body
 mangles

---
 unpythonic/syntax/lambdatools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/syntax/lambdatools.py b/unpythonic/syntax/lambdatools.py
index 12cea03..025eae0 100644
--- a/unpythonic/syntax/lambdatools.py
+++ b/unpythonic/syntax/lambdatools.py
@@ -413,7 +413,7 @@ def _fn(tree, mynames=()):
             if type(tree) is Subscript and type(tree.value) is Name and tree.value.id in mynames:
                 return tree
             elif type(tree) is Name and tree.id == "_":
-                name = gensym("_")
+                name = gensym("arg")  # not "_"; a leading double underscore is subject to name mangling in a class
                 tree.id = name
                 self.collect(name)
             return self.generic_visit(tree)
-- 
2.43.0


From 3cbe3b993962ee4d1c52d31066dfac6ebf9aa895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:29 +0000
Subject: [PATCH 59/79] fix: fn: order the parameters as the underscores appear
 in the source

---
 unpythonic/syntax/lambdatools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/lambdatools.py b/unpythonic/syntax/lambdatools.py
index 025eae0..379d5fe 100644
--- a/unpythonic/syntax/lambdatools.py
+++ b/unpythonic/syntax/lambdatools.py
@@ -415,11 +415,13 @@ def _fn(tree, mynames=()):
             elif type(tree) is Name and tree.id == "_":
                 name = gensym("arg")  # not "_"; a leading double underscore is subject to name mangling in a class
                 tree.id = name
-                self.collect(name)
+                self.collect((getattr(tree, "lineno", 0), getattr(tree, "col_offset", 0), name))
             return self.generic_visit(tree)
     ut = UnderscoreTransformer()
     tree = ut.visit(tree)
-    used_names = ut.collected
+    # The parameters are in the order in which the underscores appear in the source code. This differs from
+    # the order of the AST traversal e.g. in `{_: _, _: _}`, where the AST stores first the keys, then the values.
+    used_names = [name for _lineno, _col, name in sorted(ut.collected, key=lambda item: item[:2])]
     tree = q[lambda _: a[tree]]  # noqa: F811, it's a placeholder overwritten at the next line.
     tree.args.args = [arg(arg=x) for x in used_names]
     return tree
-- 
2.43.0


From 940d76a2e3279b4d129d7329c6346c932bbc4cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:12 +0000
Subject: [PATCH 60/79] fix: prefix: accept the empty tuple

---
 unpythonic/syntax/prefix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/syntax/prefix.py b/unpythonic/syntax/prefix.py
index 671358f..557ef8a 100644
--- a/unpythonic/syntax/prefix.py
+++ b/unpythonic/syntax/prefix.py
@@ -212,6 +212,8 @@ def _prefix(block_body):
             # macro-created nodes might not have a ctx, but we run outside in.
             if not (type(tree) is Tuple and type(tree.ctx) is Load):
                 return self.generic_visit(tree)
+            if not tree.elts:  # an empty tuple has no operator, so it is just data
+                return tree
             op, *data = tree.elts
             quotelevel = self.state.quotelevel
             while True:
-- 
2.43.0


From bc8a1fbd707937a6731b24c2298235da2659d172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:12 +0000
Subject: [PATCH 61/79] fix: prefix: accept let decorators

---
 unpythonic/syntax/prefix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/prefix.py b/unpythonic/syntax/prefix.py
index 557ef8a..d1e0e02 100644
--- a/unpythonic/syntax/prefix.py
+++ b/unpythonic/syntax/prefix.py
@@ -165,7 +165,8 @@ def _prefix(block_body):
             # but recurse inside them.
             #
             # let and do have not expanded yet when prefix runs (better that way!).
-            if islet(tree, expanded=False):
+            letkind = islet(tree, expanded=False)
+            if letkind:
                 view = UnexpandedLetView(tree)
                 newbindings = []
                 for binding in view.bindings:
@@ -175,7 +176,7 @@ def _prefix(block_body):
                     binding.elts[1] = self.visit(value)
                     newbindings.append(binding)
                 view.bindings = newbindings  # write the new bindings (important!)
-                if view.body:
+                if letkind[0] != "decorator":  # the body of a decorated function is not part of the let form itself
                     view.body = self.visit(view.body)
                 return tree
             elif isdo(tree, expanded=False):
-- 
2.43.0


From a4fdcc6b940b2a6341c317f7dbd04f55651714cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:57 +0000
Subject: [PATCH 62/79] fix: let_syntax, abbrev: accept templates in the
 haskelly syntaxes

---
 unpythonic/syntax/letdo.py     |  2 +-
 unpythonic/syntax/letdoutil.py | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/unpythonic/syntax/letdo.py b/unpythonic/syntax/letdo.py
index 908f713..45c4880 100644
--- a/unpythonic/syntax/letdo.py
+++ b/unpythonic/syntax/letdo.py
@@ -81,7 +81,7 @@ def _destructure_and_apply_let(tree, args, macro_expander, let_transformer, lets
             bs = canonize_bindings(args, letsyntax_mode=letsyntax_mode)
             return let_transformer(bindings=bs, body=tree)
         # haskelly syntax, let[[...] in ...], let[..., where[...]]
-        view = UnexpandedLetView(tree)  # note "tree" here is only the part inside the brackets
+        view = UnexpandedLetView(tree, letsyntax_mode)  # note "tree" here is only the part inside the brackets
         return let_transformer(bindings=view.bindings, body=view.body)
 
 # --------------------------------------------------------------------------------
diff --git a/unpythonic/syntax/letdoutil.py b/unpythonic/syntax/letdoutil.py
index 5b26920..2d96f6a 100644
--- a/unpythonic/syntax/letdoutil.py
+++ b/unpythonic/syntax/letdoutil.py
@@ -8,6 +8,7 @@ __all__ = ["canonize_bindings",  # used by the macro interface layer
 
 from ast import (Call, Name, Subscript, Compare, In,
                  Tuple, List, Constant, BinOp, LShift, Lambda)
+from functools import partial
 import sys
 
 from mcpyrate import unparse
@@ -459,8 +460,10 @@ class UnexpandedLetView:
         If ``tree`` is just the bracketed part of a haskelly let, then ``mode`` is
         ``None``, because the mode information is contained in the surrounding
         subscript form (expr macro invocation) and hence not accessible from here.
+
+    ``letsyntax_mode``: in such a case, used by let_syntax to allow template definitions.
     """
-    def __init__(self, tree):
+    def __init__(self, tree, letsyntax_mode=False):
         data = islet(tree, expanded=False)
         self._has_subscript_container = True
         if not data:
@@ -476,6 +479,8 @@ class UnexpandedLetView:
             self._has_subscript_container = False
         self._tree = tree
         self._type, self.mode = data
+        # `let_syntax` and `abbrev` allow also template definitions in the bindings.
+        self._letsyntax_mode = letsyntax_mode or self.mode in ("let_syntax", "abbrev")
         if self._type not in ("decorator", "lispy_expr", "in_expr", "where_expr"):
             raise NotImplementedError(f"unknown unexpanded let form type '{self._type}'")  # pragma: no cover, this just catches the internal error if we add new forms but forget to add them here.
 
@@ -487,6 +492,7 @@ class UnexpandedLetView:
 
     def _getbindings(self):
         t = self._type
+        canonize = partial(canonize_bindings, letsyntax_mode=self._letsyntax_mode)
         if t in ("decorator", "lispy_expr"):
             if t == "decorator":
                 # dlet[...], blet[...]
@@ -499,20 +505,20 @@ class UnexpandedLetView:
                 thetree = self._tree.value
 
             if type(thetree) is Call:  # parenthesis syntax for macro arguments  TODO: Python 3.9+: remove once we bump minimum Python to 3.9
-                return canonize_bindings(thetree.args)
+                return canonize(thetree.args)
             # Subscript
             theargs = _get_subscript_slice(thetree)
-            return canonize_bindings(_canonize_macroargs_node(theargs))
+            return canonize(_canonize_macroargs_node(theargs))
         else:  # haskelly let, `let[[...] in ...]`, `let[..., where[...]]`
             theexpr = self._theexpr_ref()  # `[...] in ...`, `..., where[...]`
             if t == "in_expr":
-                return canonize_bindings(_canonize_macroargs_node(theexpr.left))
+                return canonize(_canonize_macroargs_node(theexpr.left))
             elif t == "where_expr":
                 thewhere = theexpr.elts[1]
                 if type(thewhere) is Call:
-                    return canonize_bindings(thewhere.args)
+                    return canonize(thewhere.args)
                 else:  # Subscript
-                    return canonize_bindings(_canonize_macroargs_node(_get_subscript_slice(thewhere)))
+                    return canonize(_canonize_macroargs_node(_get_subscript_slice(thewhere)))
             assert False
     def _setbindings(self, newbindings):
         t = self._type
-- 
2.43.0


From e2954b6792116eabc6fdd7796ce755e9112ac06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:53 +0000
Subject: [PATCH 63/79] fix: let_syntax, abbrev: substitute the formals of a
 template simultaneously, and accept a template in its own arguments

---
 unpythonic/syntax/letsyntax.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/unpythonic/syntax/letsyntax.py b/unpythonic/syntax/letsyntax.py
index 1a52807..16c11fa 100644
--- a/unpythonic/syntax/letsyntax.py
+++ b/unpythonic/syntax/letsyntax.py
@@ -23,7 +23,7 @@ from copy import deepcopy
 from functools import partial
 import sys
 
-from mcpyrate import parametricmacro
+from mcpyrate import gensym, parametricmacro
 from mcpyrate.quotes import is_captured_value
 from mcpyrate.utils import rename
 from mcpyrate.walkers import ASTTransformer, ASTVisitor
@@ -401,7 +401,7 @@ def _analyze_lhs(tree):
         raise SyntaxError("expected a name (e.g. x) or a template (e.g. f(x, ...)) on the LHS")  # pragma: no cover
     return name, args
 
-def _substitute_barename(name, value, tree, mode):
+def _substitute_barename(name, value, tree, mode, dorename=True):
     def isthisname(tree):
         return type(tree) is Name and tree.id == name
     def splice(tree):
@@ -421,14 +421,13 @@ def _substitute_barename(name, value, tree, mode):
                 elif isthisname(tree):
                     if mode == "block":
                         raise SyntaxError(f"cannot substitute block '{name}' into expression position")  # pragma: no cover
-                    tree = subst()
-                    return self.generic_visit(tree)
+                    return subst()  # don't recurse; the value itself may mention `name`
                 return self.generic_visit(tree)
         return Splicer().visit(tree)
 
     # If the new value is also bare name, perform the substitution (now as a string)
     # also in the name part of def and similar, to support human intuition of "renaming".
-    if type(value) is Name:
+    if type(value) is Name and dorename:
         postproc = partial(rename, name, value.id)
     else:
         postproc = lambda x: x
@@ -460,9 +459,14 @@ def _substitute_templates(templates, tree):
                 raise SyntaxError(f"let_syntax template '{name}' expected {len(formalparams)} arguments, got {len(theargs)}")  # pragma: no cover
             # make a fresh deep copy of the RHS to avoid destroying the template.
             tree = deepcopy(value)  # expand the f itself in f[x, ...] or f(x, ...)
-            for k, v in zip(formalparams, theargs):  # expand the x, ... in the expanded form of f
+            # The args may mention names that are the same as those of the formal parameters,
+            # so first replace the formal parameters by unique names.
+            formals = [(k, gensym(k), v) for k, v in zip(formalparams, theargs)]
+            for k, uniquename, v in formals:
+                tree = _substitute_barename(k, Name(id=uniquename), tree, "expr", dorename=(type(v) is Name))
+            for k, uniquename, v in formals:  # expand the x, ... in the expanded form of f
                 # can't put statements in a Subscript or in a Call, so always treat args as expressions.
-                tree = _substitute_barename(k, v, tree, "expr")
+                tree = _substitute_barename(uniquename, v, tree, "expr")
             return tree
         def splice(tree):
             class Splicer(ASTTransformer):
@@ -477,8 +481,8 @@ def _substitute_templates(templates, tree):
                     elif isthisfunc(tree):
                         if mode == "block":
                             raise SyntaxError(f"cannot substitute block '{name}' into expression position")  # pragma: no cover
-                        tree = subst(tree)
-                        return self.generic_visit(tree)
+                        # The args may use the template, too. Expand that first.
+                        return subst(self.generic_visit(tree))
                     return self.generic_visit(tree)
             return Splicer().visit(tree)
         tree = splice(tree)
-- 
2.43.0


From 19415fc805e6a78666a6a673cb12c4f200aa64ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:38 +0000
Subject: [PATCH 64/79] fix: dbg: accept sep=None in the default block mode
 printer

---
 unpythonic/syntax/dbg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/syntax/dbg.py b/unpythonic/syntax/dbg.py
index 0eb10d7..81e21f0 100644
--- a/unpythonic/syntax/dbg.py
+++ b/unpythonic/syntax/dbg.py
@@ -155,6 +155,8 @@ def dbgprint_block(ks, vs, *, filename=None, lineno=None, sep=", ", **kwargs):
     expansion and the macro that generated it didn't bother to fill in the
     ``lineno`` attribute of the AST node.
     """
+    if sep is None:  # like in built-in `print`
+        sep = ", "
     header = f"[{filename}:{lineno}] "
     if "\n" in sep:
         print(sep.join(f"{header}{k}: {v}" for k, v in zip(ks, vs)), **kwargs)
-- 
2.43.0


From 74c7510f1a72b5e1e034707da781498b8def7cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:38 +0000
Subject: [PATCH 65/79] fix: dbg: keep the values in step with the expressions
 when there are starred arguments

---
 unpythonic/syntax/dbg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/dbg.py b/unpythonic/syntax/dbg.py
index 81e21f0..4a30b58 100644
--- a/unpythonic/syntax/dbg.py
+++ b/unpythonic/syntax/dbg.py
@@ -8,7 +8,7 @@ The printing can be customized; see ``dbgprint_block`` and ``dbgprint_expr``.
 
 __all__ = ["dbg", "dbgprint_block", "dbgprint_expr"]
 
-from ast import Call, Name, keyword
+from ast import Call, Load, Name, Starred, Tuple, keyword
 
 from mcpyrate.quotes import macros, q, u, a, t, h  # noqa: F401
 
@@ -225,7 +225,9 @@ def _dbg_block(body, args):
             if type(tree) is Call and type(tree.func) is Name and tree.func.id == pname:
                 names = [q[u[unparse(node)]] for node in tree.args]  # x --> "x"; (1 + 2) --> "(1 + 2)"; ...
                 names = q[t[names]]
-                values = q[t[tree.args]]
+                # *xs --> (*xs,), so that each expression has exactly one corresponding value
+                values = [Tuple(elts=[node], ctx=Load()) if type(node) is Starred else node for node in tree.args]
+                values = q[t[values]]
                 tree.args = [names, values]
                 # can't use inspect.stack in the printer itself because we want the line number *before macro expansion*.
                 lineno = tree.lineno if hasattr(tree, "lineno") else None
-- 
2.43.0


From 131ffcb8a99aa9dad53c4de4cc97cd344007fd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:47 +0000
Subject: [PATCH 66/79] fix: autoref: accept let decorators

---
 unpythonic/syntax/autoref.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/autoref.py b/unpythonic/syntax/autoref.py
index 739b22d..a2924f9 100644
--- a/unpythonic/syntax/autoref.py
+++ b/unpythonic/syntax/autoref.py
@@ -4,7 +4,8 @@
 __all__ = ["autoref"]
 
 from ast import (Name, Load, Call, Lambda, arg,
-                 Attribute, Subscript, Store, Del)
+                 Attribute, Subscript, Store, Del,
+                 FunctionDef, AsyncFunctionDef)
 
 from mcpyrate.quotes import macros, q, u, n, a, h  # noqa: F401
 
@@ -216,6 +217,10 @@ def _autoref(block_body, args, asname):
                 return self.generic_visit(tree)
         return PlaceholderRenamer().visit(newtree)
 
+    def isletdecorator(tree):
+        kind = islet(tree)
+        return kind and kind[0].endswith("decorator")
+
     class AutorefTransformer(ASTTransformer):
         def transform(self, tree):
             if is_captured_value(tree):
@@ -225,7 +230,11 @@ def _autoref(block_body, args, asname):
             if type(tree) in (Attribute, Subscript, Name) and type(tree.ctx) in (Store, Del):
                 return tree
             # skip autoref lookup for let/do envs
-            elif islet(tree):
+            elif type(tree) in (FunctionDef, AsyncFunctionDef):
+                envnames = [getconstant(kw.value) for deco in tree.decorator_list if isletdecorator(deco)
+                            for kw in deco.keywords if kw.arg == "_envname"]  # def f(..., *, e14): ...
+                self.generic_withstate(tree, referents=referents + envnames)
+            elif islet(tree) and not isletdecorator(tree):
                 view = ExpandedLetView(tree)
                 self.generic_withstate(tree, referents=referents + [view.body.args.args[0].arg])  # lambda e14: ...
             elif isdo(tree):
-- 
2.43.0


From 7b3d74d779254f4d4887ca582116e2142f7954ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:30 +0000
Subject: [PATCH 67/79] fix: test: a value whose truth or printed form raises
 is an outcome of that test only

---
 unpythonic/syntax/testingtools.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/unpythonic/syntax/testingtools.py b/unpythonic/syntax/testingtools.py
index 73fcad0..5d139da 100644
--- a/unpythonic/syntax/testingtools.py
+++ b/unpythonic/syntax/testingtools.py
@@ -539,6 +539,17 @@ def _observe(thunk):
         return fixtures.raised, err
 
 
+def _describe_value(value, describe):
+    """Return `describe(value)`, where `describe` is `repr` or `str`.
+
+    If that fails, return a generic description, so that a value that cannot be
+    printed does not prevent reporting the outcome of the test.
+    """
+    try:
+        return describe(value)
+    except Exception:
+        return object.__repr__(value)
+
 def unpythonic_assert(sourcecode, func, *, filename, lineno, message=None):
     """Custom assert function, for building test frameworks.
 
@@ -586,7 +597,12 @@ def unpythonic_assert(sourcecode, func, *, filename, lineno, message=None):
     # by the comparison destructuring mechanism.
     e = env(captured_values=[])
     testexpr = func  # descriptive name for stack trace; if you change this, change also in `_test_expr`.
-    mode, test_result = _observe(thunk=(lambda: testexpr(e)))  # <-- run the actual expr being asserted
+    def runtest():
+        result = testexpr(e)  # <-- run the actual expr being asserted
+        return result, bool(result)  # computing the truth value may also raise or signal
+    mode, test_result = _observe(runtest)
+    if mode is fixtures.completed:
+        test_result, test_passed = test_result
     if e.captured_values:
         # Convenience for testing/debugging macro code:
         #
@@ -601,7 +617,7 @@ def unpythonic_assert(sourcecode, func, *, filename, lineno, message=None):
         # This is only done for logging. In order to avoid breaking introspection,
         # the actual exception instance (if the test fails) always gets the
         # original raw values.
-        logged_values = [(source, (repr(v) if not isinstance(v, AST) else f"<AST; unparsed form: '{unparse(v)}'>"))
+        logged_values = [(source, (_describe_value(v, repr) if not isinstance(v, AST) else f"<AST; unparsed form: '{unparse(v)}'>"))
                          for source, v in e.captured_values]
 
         # Canonization eliminates surface syntax differences such as
@@ -624,11 +640,11 @@ def unpythonic_assert(sourcecode, func, *, filename, lineno, message=None):
         if values_strs:
             values_msg = ", due to " + ", ".join(values_strs)
         else:  # if we have no useful details to report, report the value of the whole expression.
-            values_msg = f", due to result = {test_result}"
+            values_msg = f", due to result = {_describe_value(test_result, str)}"
     else:
         # It's legal to omit capturing the values of any subexprs.
         # In that case, we report the value of the whole expression.
-        values_msg = f", due to result = {test_result}"
+        values_msg = f", due to result = {_describe_value(test_result, str)}"
     fixtures._update(fixtures.tests_run, +1)
 
     if message is not None:
@@ -678,7 +694,7 @@ def unpythonic_assert(sourcecode, func, *, filename, lineno, message=None):
 
     # general cases
     elif mode is fixtures.completed:
-        if test_result:
+        if test_passed:
             return
         fixtures._update(fixtures.tests_failed, +1)
         conditiontype = fixtures.TestFailure
-- 
2.43.0


From 361a54d956a55fc3be3235931f87575025681d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:30 +0000
Subject: [PATCH 68/79] fix: test: the[] in a nested test block belongs to it,
 and a nested the[] shows its source as written

---
 unpythonic/syntax/testingtools.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/unpythonic/syntax/testingtools.py b/unpythonic/syntax/testingtools.py
index 5d139da..027f8c2 100644
--- a/unpythonic/syntax/testingtools.py
+++ b/unpythonic/syntax/testingtools.py
@@ -19,7 +19,7 @@ from mcpyrate.quotes import is_captured_value
 from mcpyrate.utils import extract_bindings
 from mcpyrate.walkers import ASTTransformer
 
-from ast import Tuple, Subscript, Name, Call, copy_location, Compare, arg, Return, parse, Expr, AST
+from ast import Tuple, With, Subscript, Name, Call, copy_location, Compare, arg, Return, parse, Expr, AST
 import sys
 
 from ..dynassign import dyn
@@ -481,6 +481,12 @@ def isunexpandedtestmacro(tree):
     return (type(tree) is Subscript and
             type(tree.value) is Name and
             tree.value.id in _test_asserter_names)
+def isunexpandedtestblock(tree):
+    """Return whether `tree` is a `with` block invocation of a test asserter, unexpanded."""
+    return (type(tree) is With and
+            any(isunexpandedtestmacro(item.context_expr) or
+                (type(item.context_expr) is Name and item.context_expr.id in _test_asserter_names)
+                for item in tree.items))
 def isexpandedtestmacro(tree):
     """Return whether `tree` is an invocation of a test asserter, expanded."""
     return (type(tree) is Call and
@@ -879,10 +885,12 @@ def _is_important_subexpr_mark(tree):
 def _record_value(envname, sourcecode, value):
     envname.captured_values.append((sourcecode, value))
     return value
-def _inject_value_recorder(envname, tree):  # wrap tree with the the[] handler
+def _inject_value_recorder(envname, tree, sourcecode=None):  # wrap tree with the the[] handler
     recorder = q[h[_record_value]]  # TODO: stash hygienic value?
+    if sourcecode is None:
+        sourcecode = unparse(tree, color=True, expander=dyn._macro_expander)
     return q[a[recorder](n[envname],
-                         u[unparse(tree, color=True, expander=dyn._macro_expander)],
+                         u[sourcecode],
                          a[tree])]
 def _transform_important_subexpr(tree, envname):
     # The the[] mark mechanism is invoked outside-in, because for reporting,
@@ -893,7 +901,7 @@ def _transform_important_subexpr(tree, envname):
             if is_captured_value(tree):
                 return tree  # don't recurse!
             # Respect the boundaries of nested test constructs (don't recurse there).
-            if isunexpandedtestmacro(tree):
+            if isunexpandedtestmacro(tree) or isunexpandedtestblock(tree):
                 return tree
             elif _is_important_subexpr_mark(tree):
                 if sys.version_info >= (3, 9, 0):  # Python 3.9+: the Index wrapper is gone.
@@ -902,8 +910,9 @@ def _transform_important_subexpr(tree, envname):
                     thing = tree.slice.value
                 self.collect(thing)  # or anything really; value not used, we just count them.
                 # Handle any nested the[] subexpressions
+                sourcecode = unparse(thing, color=True, expander=dyn._macro_expander)  # before any edits
                 subtree = self.visit(thing)
-                return _inject_value_recorder(envname, subtree)
+                return _inject_value_recorder(envname, subtree, sourcecode)
             else:
                 return self.generic_visit(tree)  # recurse
     transformer = ImportantSubexprTransformer()
-- 
2.43.0


From f3a8d964c20c7e6d5810fb361ecf7fa92d0383ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:07 +0000
Subject: [PATCH 69/79] fix: test: let terminate pass through a test to the
 session

---
 unpythonic/syntax/testingtools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/testingtools.py b/unpythonic/syntax/testingtools.py
index 027f8c2..b6b1877 100644
--- a/unpythonic/syntax/testingtools.py
+++ b/unpythonic/syntax/testingtools.py
@@ -539,8 +539,11 @@ def _observe(thunk):
             # i.e. if thunk() completed normally.
             return fixtures.completed, ret
         return fixtures.signaled, unbox(sig)
-    # This testing framework always signals, never raises, so we don't need any
-    # special handling here.
+    # Belongs to the enclosing `session`, not to the test.
+    except fixtures.TestSessionExit:
+        raise
+    # Beside that, this testing framework always signals, never raises, so we don't
+    # need any special handling here.
     except Exception as err:  # including ControlError raised by an unhandled `unpythonic.conditions.error`
         return fixtures.raised, err
 
-- 
2.43.0


From b3ff47199ed2204d75ac6c606b97300d481e8ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:12 +0000
Subject: [PATCH 70/79] fix: autocurry: leave an expanded lazy[] visible to
 lazify, so that it is not made into a promise of a promise

---
 unpythonic/syntax/autocurry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unpythonic/syntax/autocurry.py b/unpythonic/syntax/autocurry.py
index 7c0cee4..ae66d50 100644
--- a/unpythonic/syntax/autocurry.py
+++ b/unpythonic/syntax/autocurry.py
@@ -121,6 +121,10 @@ def _autocurry(block_body):
                     tree.args = self.visit(tree.args)
                     tree.keywords = self.visit(tree.keywords)
                     return tree
+                #   - `Lazy(lambda: ...)` is an expanded `lazy[...]`; `lazify` must be able to see it is already a promise.
+                elif isx(tree.func, "Lazy") and len(tree.args) == 1 and type(tree.args[0]) is Lambda:
+                    tree.args[0].body = self.visit(tree.args[0].body)
+                    return tree
                 else:  # general case
                     if has_curry(tree):  # detect decorated lambda with manual curry
                         # the lambda inside the curry(...) is the next Lambda node we will descend into.
-- 
2.43.0


From 9c31718de5fd59a5316441eacf0ccea3045b2299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:57 +0000
Subject: [PATCH 71/79] fix: PTYSocketProxy, REPL server: never block or lose
 data, and let a disconnect end the session at any point

---
 unpythonic/net/ptyproxy.py | 107 ++++++++++++++++++++++++++++---------
 unpythonic/net/server.py   |  26 ++++++++-
 2 files changed, 107 insertions(+), 26 deletions(-)

diff --git a/unpythonic/net/ptyproxy.py b/unpythonic/net/ptyproxy.py
index 7e870ca..e3c5f0e 100644
--- a/unpythonic/net/ptyproxy.py
+++ b/unpythonic/net/ptyproxy.py
@@ -1,6 +1,8 @@
 """PTY/socket proxy. Useful for serving terminal applications for remote use."""
 
+import errno
 import os
+import socket
 import tty
 import termios
 import select
@@ -37,7 +39,7 @@ class PTYSocketProxy:
 
         `on_socket_disconnect`, if set, is a one-argument callable that is called
         when an EOF is detected on the socket. It receives the `PTYSocketProxy`
-        instance and can e.g. `os.write(proxy.master, some_disconnect_command)`
+        instance and can e.g. `proxy.write(some_disconnect_command)`
         to tell the software connected on the slave side to exit.
 
         What the command is, is up to the protocol your specific software
@@ -56,6 +58,7 @@ class PTYSocketProxy:
         """
         # master is the "pty side", slave is the "tty side".
         master, slave = os.openpty()
+        os.set_blocking(master, False)
         tty.setraw(master, termios.TCSANOW)  # http://man7.org/linux/man-pages/man3/termios.3.html
         self.sock = sock
         self.master, self.slave = master, slave
@@ -63,6 +66,15 @@ class PTYSocketProxy:
         self.on_slave_disconnect = on_slave_disconnect
         self._terminated = True
         self._thread = None
+        self._input_open = True  # whether the socket can still provide input
+        self._to_slave = bytearray()  # data waiting to be written to the slave
+
+    def write(self, data):
+        """Send `data` (`bytes`) to the slave, as if it arrived from the socket.
+
+        Meant for use in `on_socket_disconnect`.
+        """
+        self._to_slave.extend(data)
 
     def start(self):
         """Start forwarding traffic between the PTY master and the socket."""
@@ -72,41 +84,88 @@ class PTYSocketProxy:
         # Note we use raw fds (file descriptors) and the low-level os.read, os.write functions,
         # which bypass all niceties file objects have.
         # https://docs.python.org/3/library/os.html
+        #
+        # Neither direction may block the other, so we write only when the receiving end
+        # is able to accept data (and only as much as it accepts).
         def forward_traffic():
-            mypoll = select.poll()
-            mypoll.register(self.sock, select.POLLIN)
-            mypoll.register(self.master, select.POLLIN)
-            while not self._terminated:
-                try:
-                    fdlist = mypoll.poll(1000)
-                    for fd, event in fdlist:
-                        if fd == self.master:
-                            request = os.read(fd, 4096)
-                            if len(request) == 0:  # disconnect by PTY slave
-                                self.on_slave_disconnect(self)
-                                return
-                            self.sock.send(request)
-                        else:
-                            request = self.sock.recv(4096)
-                            if len(request) == 0:  # disconnect by client behind socket
-                                self.on_socket_disconnect(self)
-                                return
-                            os.write(self.master, request)
-                except ConnectionResetError:
+            to_slave, to_socket = self._to_slave, bytearray()  # data read, but not yet written
+            connected = True  # whether the client behind the socket can still receive data
+
+            def on_disconnect():
+                self._input_open = False
+                if self.on_socket_disconnect:
                     self.on_socket_disconnect(self)
+
+            def read_slave():
+                try:
+                    data = os.read(self.master, 4096)
+                except BlockingIOError:
+                    return True
+                except OSError as err:
+                    if err.errno != errno.EIO:
+                        raise
+                    data = b""  # in Linux, this is what an EOF looks like
+                if len(data) == 0:  # disconnect by PTY slave
+                    return False
+                if connected:
+                    to_socket.extend(data)
+                return True
+
+            while True:
+                mypoll = select.poll()
+                sock_events = (select.POLLIN if self._input_open and not to_slave else 0) | (select.POLLOUT if to_socket else 0)
+                if sock_events:
+                    mypoll.register(self.sock, sock_events)
+                pty_events = (select.POLLIN if not to_socket else 0) | (select.POLLOUT if to_slave else 0)
+                if pty_events:
+                    mypoll.register(self.master, pty_events)
+                fdlist = mypoll.poll(1000)
+                if not fdlist and self._terminated:  # client does not accept the rest of the output
                     return
+                for fd, event in fdlist:
+                    if fd == self.master:
+                        if to_slave and event & select.POLLOUT:
+                            try:
+                                del to_slave[:os.write(fd, to_slave)]
+                            except BlockingIOError:
+                                pass
+                        if not to_socket and event & ~select.POLLOUT:
+                            if not read_slave():
+                                if not self._terminated and self.on_slave_disconnect:
+                                    self.on_slave_disconnect(self)
+                                return
+                    else:
+                        try:
+                            if to_socket and event & ~select.POLLIN:
+                                del to_socket[:self.sock.send(to_socket, socket.MSG_DONTWAIT)]
+                            if self._input_open and not to_slave and event & ~select.POLLOUT:
+                                data = self.sock.recv(4096, socket.MSG_DONTWAIT)
+                                if len(data) == 0:  # disconnect by client behind socket
+                                    on_disconnect()
+                                to_slave.extend(data)
+                        except BlockingIOError:
+                            pass
+                        except ConnectionError:
+                            connected = False
+                            to_socket.clear()
+                            if self._input_open:
+                                on_disconnect()
 
         self._terminated = False
         self._thread = threading.Thread(target=forward_traffic, name=f"PTY on {os.ttyname(self.slave)}", daemon=True)
         self._thread.start()
 
     def stop(self):
-        """Shut down. This also closes the PTY."""
+        """Shut down. This also closes the PTY.
+
+        Any output already written into the PTY slave is first sent to the socket.
+        """
         if self._thread:
             self._terminated = True
+            # Once the slave is closed, reading the master gives any remaining data, and then an EOF.
+            os.close(self.slave)
+            self.slave = None
             self._thread.join()
             self._thread = None
             os.close(self.master)
             self.master = None
-            os.close(self.slave)
-            self.slave = None
diff --git a/unpythonic/net/server.py b/unpythonic/net/server.py
index a62a3a0..82c6479 100644
--- a/unpythonic/net/server.py
+++ b/unpythonic/net/server.py
@@ -117,6 +117,7 @@ around 100 CE.
 __all__ = ["start", "stop"]  # Exports for code that wants to embed the server.
 
 import rlcompleter  # yes, just rlcompleter without readline; backend for remote tab completion.
+import io
 import threading
 import sys
 import os
@@ -425,6 +426,24 @@ class ControlSession(socketserver.BaseRequestHandler, ApplevelProtocolMixin):
             server_print(err)
 
 
+_EOF = "\x04"  # Ctrl+D
+
+class _SessionInput(io.TextIOWrapper):
+    """Input stream of a REPL session. Ctrl+D at the end of a line signals EOF, and discards that line.
+
+    This is needed because the PTY is in raw mode.
+    """
+    _at_eof = False
+    def readline(self, *args):
+        if self._at_eof:
+            return ""
+        line = super().readline(*args)
+        if line.rstrip("\r\n").endswith(_EOF):
+            self._at_eof = True
+            return ""
+        return line
+
+
 class ConsoleSession(socketserver.BaseRequestHandler):
     """Entry point for connections from the TCP server.
 
@@ -446,7 +465,9 @@ class ConsoleSession(socketserver.BaseRequestHandler):
 
             def on_socket_disconnect(adaptor):
                 server_print(f"PTY on {os.ttyname(adaptor.slave)} for client {client_address_str} disconnected by client.")
-                os.write(adaptor.master, "quit()\n".encode("utf-8"))  # as if this text arrived from the socket
+                # Discard any incomplete line, then EOF. This works also if the REPL is currently waiting for the rest of
+                # a multi-line statement, or if the user code is waiting for input.
+                adaptor.write(f"{_EOF}\n".encode("utf-8"))  # as if this text arrived from the socket
             def on_slave_disconnect(adaptor):
                 server_print(f"PTY on {os.ttyname(adaptor.slave)} for client {client_address_str} disconnected by PTY slave.")
             adaptor = PTYSocketProxy(self.request, on_socket_disconnect, on_slave_disconnect)
@@ -460,7 +481,7 @@ class ConsoleSession(socketserver.BaseRequestHandler):
             # exactly like standard input and output. The proxying between the master side
             # and the network socket runs in binary mode inside PTYSocketProxy.
             with open(adaptor.slave, "wt", encoding="utf-8", closefd=False) as wfile:
-                with open(adaptor.slave, "rt", encoding="utf-8", closefd=False) as rfile:
+                with _SessionInput(open(adaptor.slave, "rb", closefd=False), encoding="utf-8") as rfile:
                     # Set up the input and output streams for the thread we are running in.
                     # We use ThreadingTCPServer, so each connection gets its own thread.
                     # Here we just send the relevant object into each thread-local box.
@@ -492,6 +513,7 @@ class ConsoleSession(socketserver.BaseRequestHandler):
                         pass
                     finally:
                         server_print(f"Closing PTY on {os.ttyname(adaptor.slave)} for {client_address_str}.")
+                        wfile.flush()
                         adaptor.stop()
                         server_print(f"Closing REPL session {self.session_id} for {client_address_str}.")
         except BaseException as err:  # yes, SystemExit and KeyboardInterrupt, too.
-- 
2.43.0


From 80cb71c0eb83ee2e61d8773825673acc3018c50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:57 +0000
Subject: [PATCH 72/79] fix: REPL server: fg gets the result of a bg thread,
 whatever other threads have run

---
 unpythonic/net/server.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/unpythonic/net/server.py b/unpythonic/net/server.py
index 82c6479..300fd14 100644
--- a/unpythonic/net/server.py
+++ b/unpythonic/net/server.py
@@ -246,14 +246,14 @@ def bg(thunk):
     """
     @namelambda(thunk.__name__)
     def worker():
-        _bg_results[thread.ident] = (_bg_running, None)
         try:
             result = thunk()
         except Exception as err:
-            _bg_results[thread.ident] = (_bg_fail, err)
+            _bg_results[thread] = (_bg_fail, err)
         else:
-            _bg_results[thread.ident] = (_bg_success, result)
+            _bg_results[thread] = (_bg_success, result)
     thread = threading.Thread(target=worker, name=thunk.__name__, daemon=True)
+    _bg_results[thread] = (_bg_running, None)
     thread.start()
     return thread
 
@@ -269,15 +269,15 @@ def fg(thread):
       - returned normally: return the value.
       - raised an exception: raise that exception.
     """
-    if "ident" not in thread:
+    if not isinstance(thread, threading.Thread):
         raise TypeError(f"Expected a Thread object, got {type(thread)} with value {repr(thread)}.")
-    if thread.ident not in _bg_results:
+    if thread not in _bg_results:
         raise ValueError(f"No result for thread {repr(thread)}")
     # This pattern is very similar to that used by unpythonic.fun.memoize...
-    status, value = _bg_results[thread.ident]
+    status, value = _bg_results[thread]
     if status is _bg_running:
         return thread
-    _bg_results.pop(thread.ident)
+    _bg_results.pop(thread)
     if status is _bg_success:
         return value
     elif status is _bg_fail:
-- 
2.43.0


From 0ea3a979a6fdbf433052abc7be64c1a1cbf858eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:43 +0000
Subject: [PATCH 73/79] fix: REPL server: stop restores the streams and prompts
 as they were at start, and a failed start changes nothing

---
 unpythonic/net/server.py | 49 ++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/unpythonic/net/server.py b/unpythonic/net/server.py
index 300fd14..e11447b 100644
--- a/unpythonic/net/server.py
+++ b/unpythonic/net/server.py
@@ -146,10 +146,7 @@ from .ptyproxy import PTYSocketProxy
 # Because "These are only defined if the interpreter is in interactive mode.",
 # we have to do something like this.
 # https://docs.python.org/3/library/sys.html#sys.ps1
-try:
-    _original_ps1, _original_ps2 = sys.ps1, sys.ps2
-except AttributeError:
-    _original_ps1, _original_ps2 = None, None
+_original_ps1, _original_ps2 = None, None
 
 _server_instance = None
 _active_sessions = {}
@@ -570,10 +567,6 @@ def start(locals, bind="127.0.0.1", repl_port=1337, control_port=8128, banner=No
     if _server_instance is not None:
         raise RuntimeError("The current process already has a running REPL server.")
 
-    _console_locals_namespace = locals
-    for function in _repl_exports:  # Inject REPL utilities
-        _console_locals_namespace[function.__name__] = function
-
     global _banner
     if banner is None:
         default_msg = ("Unpythonic REPL server at {addr}:{port}, on behalf of:\n"
@@ -593,10 +586,31 @@ def start(locals, bind="127.0.0.1", repl_port=1337, control_port=8128, banner=No
     else:
         _banner = banner
 
+    # Bind the ports first, so that if it fails, nothing else in the process has been changed.
+    # https://docs.python.org/3/library/socketserver.html#socketserver.BaseServer.server_address
+    # https://docs.python.org/3/library/socketserver.html#socketserver.BaseServer.RequestHandlerClass
+    server = ReuseAddrThreadingTCPServer((bind, repl_port), ConsoleSession)
+    server.daemon_threads = True  # Allow Python to exit even if there are REPL sessions alive.
+    # Control channel for remote tab completion and remote Ctrl+C requests.
+    # Default port is 8128 because it's for *completing* things, and https://en.wikipedia.org/wiki/Perfect_number
+    # This is the first one above 1024, and was already known to Nicomachus around 100 CE.
+    try:
+        cserver = ReuseAddrThreadingTCPServer((bind, control_port), ControlSession)
+    except BaseException:
+        server.server_close()
+        raise
+    cserver.daemon_threads = True
+
+    _console_locals_namespace = locals
+    for function in _repl_exports:  # Inject REPL utilities
+        _console_locals_namespace[function.__name__] = function
+
     # Set the prompts. We use four "." to make semi-sure the prompt string only appears as a prompt.
     # The client needs to identify the prompts from the data stream in order to know when to switch
     # between listening and prompting, so "..." is not even semi-safe (it's valid Python, as well as
     # valid English).
+    global _original_ps1, _original_ps2
+    _original_ps1, _original_ps2 = getattr(sys, "ps1", None), getattr(sys, "ps2", None)
     sys.ps1 = ">>>> "
     sys.ps2 = ".... "
 
@@ -607,22 +621,17 @@ def start(locals, bind="127.0.0.1", repl_port=1337, control_port=8128, banner=No
     # thread-local boxes. In the main thread (and as a default), the boxes contain
     # the original sys.stdin et al., whereas in session threads, the boxes are filled
     # with streams established for that particular session.
+    global _original_stdin, _original_stdout, _original_stderr
+    _original_stdin, _original_stdout, _original_stderr = sys.stdin, sys.stdout, sys.stderr
+    _threadlocal_stdin.setdefault(_original_stdin)
+    _threadlocal_stdout.setdefault(_original_stdout)
+    _threadlocal_stderr.setdefault(_original_stderr)
     sys.stdin = Shim(_threadlocal_stdin)
     sys.stdout = Shim(_threadlocal_stdout)
     sys.stderr = Shim(_threadlocal_stderr)
 
-    # https://docs.python.org/3/library/socketserver.html#socketserver.BaseServer.server_address
-    # https://docs.python.org/3/library/socketserver.html#socketserver.BaseServer.RequestHandlerClass
-    server = ReuseAddrThreadingTCPServer((bind, repl_port), ConsoleSession)
-    server.daemon_threads = True  # Allow Python to exit even if there are REPL sessions alive.
     server_thread = threading.Thread(target=server.serve_forever, name="Unpythonic REPL server", daemon=True)
     server_thread.start()
-
-    # Control channel for remote tab completion and remote Ctrl+C requests.
-    # Default port is 8128 because it's for *completing* things, and https://en.wikipedia.org/wiki/Perfect_number
-    # This is the first one above 1024, and was already known to Nicomachus around 100 CE.
-    cserver = ReuseAddrThreadingTCPServer((bind, control_port), ControlSession)
-    cserver.daemon_threads = True
     cserver_thread = threading.Thread(target=cserver.serve_forever, name="Unpythonic REPL control server", daemon=True)
     cserver_thread.start()
 
@@ -653,11 +662,11 @@ def stop():
         sys.stderr = _original_stderr
         _console_locals_namespace = None
         atexit.unregister(stop)
-        if _original_ps1:
+        if _original_ps1 is not None:
             sys.ps1 = _original_ps1
         else:
             delattr(sys, "ps1")
-        if _original_ps2:
+        if _original_ps2 is not None:
             sys.ps2 = _original_ps2
         else:
             delattr(sys, "ps2")
-- 
2.43.0


From 7755dfef3f3fc8d06b66abb4609e7961ca7f6eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:58 +0000
Subject: [PATCH 74/79] fix: REPL server: answer every well-formed control
 request, and keep the control session open

---
 unpythonic/net/server.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/unpythonic/net/server.py b/unpythonic/net/server.py
index e11447b..9b15b22 100644
--- a/unpythonic/net/server.py
+++ b/unpythonic/net/server.py
@@ -343,11 +343,11 @@ class ControlSession(socketserver.BaseRequestHandler, ApplevelProtocolMixin):
                 # field may contain a short description about the failure.
                 # More information may be included in arbitrary other fields.
                 request = self._recv()
-                if not request:
+                if request is None:
                     server_print(f"Socket for {client_address_str} closed by client.")
                     raise ClientExit
 
-                if "command" not in request:
+                if not isinstance(request, dict) or "command" not in request:
                     reply = {"status": "failed", "reason": "Request is missing the 'command' field."}
 
                 elif request["command"] == "DescribeServer":
@@ -362,7 +362,7 @@ class ControlSession(socketserver.BaseRequestHandler, ApplevelProtocolMixin):
                     if "id" not in request:
                         reply = {"status": "failed", "reason": "Request is missing the PairWithSession parameter 'id'."}
                     else:
-                        if request["id"] not in _active_sessions:
+                        if not isinstance(request["id"], int) or request["id"] not in _active_sessions:
                             errmsg = f"Pairing control session failed; there is no active REPL session with id={request['id']}."
                             reply = {"status": "failed", "reason": errmsg}
                             server_print(errmsg)
@@ -375,9 +375,13 @@ class ControlSession(socketserver.BaseRequestHandler, ApplevelProtocolMixin):
                     if "text" not in request or "state" not in request:
                         reply = {"status": "failed", "reason": "Request is missing at least one of the TabComplete parameters 'text' and 'state'."}
                     else:
-                        completion = completer_backend.complete(request["text"], request["state"])
-                        # server_print(request, reply)  # DEBUG
-                        reply = {"status": "ok", "result": completion}
+                        try:
+                            completion = completer_backend.complete(request["text"], request["state"])
+                        except Exception as err:
+                            reply = {"status": "failed", "reason": f"Completion failed: {type(err).__name__}: {err}"}
+                        else:
+                            # server_print(request, reply)  # DEBUG
+                            reply = {"status": "ok", "result": completion}
 
                 elif request["command"] == "KeyboardInterrupt":
                     server_print(f"Client {client_address_str} sent request for remote Ctrl+C.")
-- 
2.43.0


From 306fd6a9c5a3feff36585c702c53efacc58db092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:46 +0000
Subject: [PATCH 75/79] fix: with prefix: refuse kw(**kwargs), as documented

---
 unpythonic/syntax/prefix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/prefix.py b/unpythonic/syntax/prefix.py
index d1e0e02..7f515c1 100644
--- a/unpythonic/syntax/prefix.py
+++ b/unpythonic/syntax/prefix.py
@@ -6,7 +6,7 @@ Experimental, not for use in production code.
 
 __all__ = ["prefix", "q", "u", "kw"]
 
-from ast import Call, Starred, Tuple, Load, Subscript
+from ast import Call, Tuple, Load, Subscript
 import sys
 
 from mcpyrate.quotes import macros, q, u, a, t  # noqa: F811, F401
@@ -242,7 +242,7 @@ def _prefix(block_body):
             # In Python 3.5+, this tags *args as invalid, too, because those are Starred items inside `args`.
             invalids = list(flatmap(lambda tree: tree.args, kwargs_calls))  # no positional args allowed in kw()
             kwargs = list(flatmap(lambda x: x.keywords, kwargs_calls))
-            invalids += [x for x in kwargs if type(x) is Starred]  # reject **kwargs
+            invalids += [x for x in kwargs if x.arg is None]  # reject **kwargs
             if invalids:
                 raise SyntaxError("kw(...) may only specify individual named args")  # pragma: no cover
             kwargs = list(rev(uniqify(rev(kwargs), key=lambda x: x.arg)))  # latest wins, but keep original ordering
-- 
2.43.0


From f7ad93fca985f4936a30c21fad1be89d56b9a610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:46 +0000
Subject: [PATCH 76/79] fix: refuse call_cc[] in expression position, do not
 silently drop it

---
 unpythonic/syntax/tailtools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index 4887c9d..98fb4ae 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -1184,7 +1184,7 @@ def _continuations(block_body):  # here be dragons.
     # TODO: improve error reporting for stray call_cc[] invocations
     class StrayCallccChecker(ASTVisitor):
         def examine(self, tree):
-            if iscallccstatement(tree):
+            if type(tree) is CallCcMarker:
                 raise SyntaxError("call_cc[...] only allowed at the top level of a def, or at the top level of the block; must appear as an expr or an assignment RHS")  # pragma: no cover
             if type(tree) in (Assign, Expr):
                 v = tree.value
-- 
2.43.0


From df952f052ea220d172fde9f04f82157a5cbc5039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:06 +0000
Subject: [PATCH 77/79] fix: REPL client: handle server output cut at any byte

---
 unpythonic/net/client.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/unpythonic/net/client.py b/unpythonic/net/client.py
index 8cd85d5..798b88c 100644
--- a/unpythonic/net/client.py
+++ b/unpythonic/net/client.py
@@ -32,6 +32,7 @@ had a dumb connection; the client must supply its own. Which implies the need
 for a remote tab completer, and a separate client-side `input()` loop.)
 """
 
+import codecs
 import readline  # noqa: F401, input() uses the readline module if it has been loaded.
 import socket
 import select
@@ -142,6 +143,20 @@ class ControlClient(ApplevelProtocolMixin):
         return self._remote_execute({"command": "KeyboardInterrupt"})
 
 
+def _incomplete_tail_length(data, prompts):
+    """Return how many bytes at the end of `data` may be an incomplete prompt or utf-8 character.
+
+    data: bytes
+    prompts: iterable of bytes
+    """
+    for n in range(max(len(p) for p in prompts) - 1, 0, -1):
+        if len(data) >= n and any(len(p) > n and p.startswith(data[-n:]) for p in prompts):
+            return n
+    decoder = codecs.getincrementaldecoder("utf-8")()
+    decoder.decode(data)
+    return len(decoder.getstate()[0])
+
+
 def connect(host, repl_port, control_port):
     """Connect to a remote REPL server.
 
@@ -194,8 +209,7 @@ def connect(host, repl_port, control_port):
                     val = buf.getvalue()
                     while True:
                         if b"\n" in val:
-                            text = val.decode("utf-8")
-                            first_line, *rest = text.split("\n")
+                            first_line = val.split(b"\n")[0].decode("utf-8")
                             matches = re.findall(r"session (\d+) connected", first_line)
                             assert len(matches) == 1, "Expected server to print session id on the first line"
                             repl_session_id = int(matches[0])
@@ -267,9 +281,12 @@ def connect(host, repl_port, control_port):
                                 raise SessionExit
 
                         else:  # no prompt yet, just print whatever came in, and clear the buffer
-                            text = val.decode("utf-8")
+                            # The data may have been cut at any byte, so keep what may be just the beginning
+                            # of a prompt (or of a character), until we have the rest.
+                            n = len(val) - _incomplete_tail_length(val, (bps1, bps2))
+                            text = val[:n].decode("utf-8")
                             sys.stdout.write(text)
-                            buf.set(b"")
+                            buf.set(val[n:])
 
                         val = read_more_input()
 
@@ -340,6 +357,7 @@ def connect(host, repl_port, control_port):
         print("Session closed.")
 
     except EOFError:
+        sys.stdout.write(buf.getvalue().decode("utf-8", errors="replace"))  # any text not yet printed
         print("unpythonic.net.client: disconnected by server.")
 
 
-- 
2.43.0


From b6ed1c2fee927d01d63a99fc5add9d9c47f99452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:44 +0000
Subject: [PATCH 78/79] fix: let_syntax block: nested let_syntax and abbrev
 shadow outer definitions also when not directly in the block

---
 unpythonic/syntax/letsyntax.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/unpythonic/syntax/letsyntax.py b/unpythonic/syntax/letsyntax.py
index 16c11fa..6c031f6 100644
--- a/unpythonic/syntax/letsyntax.py
+++ b/unpythonic/syntax/letsyntax.py
@@ -333,6 +333,25 @@ def _let_syntax_block(block_body, *, expand_inside):
                 return mode, "template"
         return False
 
+    # expr[...], expr[...][...], expr(...)[...], for `let_syntax` and `abbrev`
+    def is_let_syntax_expr(tree):
+        if type(tree) is not Subscript:
+            return False
+        macro = tree.value
+        if type(macro) is Subscript:
+            macro = macro.value
+        elif type(macro) is Call:
+            macro = macro.func
+        return type(macro) is Name and dyn._macro_expander.isbound(macro.id) in (let_syntax, abbrev)
+
+    class NestedLetSyntaxExpander(ASTTransformer):
+        def transform(self, tree):
+            if is_captured_value(tree):
+                return tree  # don't recurse!
+            if is_let_syntax(tree) or is_abbrev(tree) or is_let_syntax_expr(tree):
+                return dyn._macro_expander.visit_recursively(tree)
+            return self.generic_visit(tree)
+
     templates = []
     barenames = []
     new_block_body = []
@@ -342,6 +361,8 @@ def _let_syntax_block(block_body, *, expand_inside):
         if expand_inside and (is_let_syntax(stmt) or is_abbrev(stmt)):
             stmt = dyn._macro_expander.visit_recursively(stmt)
             expanded = True
+        elif expand_inside:
+            stmt = NestedLetSyntaxExpander().visit(stmt)
 
         stmt = _substitute_templates(templates, stmt)
         stmt = _substitute_barenames(barenames, stmt)
-- 
2.43.0


From c05e13781e6a69d54265cb84e23ff35cf7708ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:53 +0000
Subject: [PATCH 79/79] fix: envify: a formal rebound in a nested scope by a
 def, import, etc. via nonlocal remains a local variable

---
 unpythonic/syntax/lambdatools.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/lambdatools.py b/unpythonic/syntax/lambdatools.py
index 379d5fe..5db61c3 100644
--- a/unpythonic/syntax/lambdatools.py
+++ b/unpythonic/syntax/lambdatools.py
@@ -20,7 +20,7 @@ from mcpyrate.expander import MacroExpander
 from mcpyrate.quotes import is_captured_value
 from mcpyrate.splicing import splice_expression
 from mcpyrate.utils import extract_bindings
-from mcpyrate.walkers import ASTTransformer
+from mcpyrate.walkers import ASTTransformer, ASTVisitor
 
 from ..dynassign import dyn
 from ..env import env
@@ -455,6 +455,22 @@ def _envify(block_body):
                 return self.generic_visit(tree)
         return set(get_names_in_store_context(Remover().visit(deepcopy(body))))
 
+    # Names bound by something else than a `Name` node in the body of a `def`, or in a nested scope that sees the same variable.
+    def getnonnames(body):
+        names = getstores(body, namenodes=False)
+        class NestedScopesVisitor(ASTVisitor):
+            def examine(self, tree):
+                if type(tree) in (FunctionDef, AsyncFunctionDef):
+                    own = getstores(tree.body) - set(collect_nonlocals(tree.body))
+                    own.update(extract_args(tree), collect_globals(tree.body))
+                    names.update(getnonnames(tree.body) - own)
+                else:
+                    if type(tree) is ClassDef:
+                        names.update(getstores(tree.body, namenodes=False) & set(collect_nonlocals(tree.body)))
+                    self.generic_visit(tree)
+        NestedScopesVisitor().visit(body)
+        return names
+
     def without(bindings, names):
         return {k: v for k, v in bindings.items() if k not in names}
 
@@ -494,7 +510,7 @@ def _envify(block_body):
                     shadowed = (getstores(tree.body) - declared) | set(collect_globals(tree.body))
                     newbindings = without(newbindings, shadowed)
                     # A formal that is rebound by e.g. an `import` remains a local variable.
-                    nonnames = getstores(tree.body, namenodes=False)
+                    nonnames = getnonnames(tree.body)
                     argnames = [k for k in argnames if k not in nonnames]
                 if argnames and isfunctionoruserlambda(tree):
                     # prepend env init to function body, update bindings
-- 
2.43.0

