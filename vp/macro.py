"""Running macro-enabled source text."""
import itertools
import sys

import vp  # noqa: F401
import mcpyrate.activate  # noqa: F401
from mcpyrate.compiler import run, create_module, expand
from mcpyrate.quotes import _lookup_cache

import unpythonic.syntax  # noqa: F401  (expand the macro library once, in the parent process)

_n = itertools.count()


def run_macros(src, **names):
    """Expand, compile and run `src` as a module of its own. -> its namespace"""
    _lookup_cache.clear()  # keyed by the id of objects that die with the programs run earlier
    m = create_module(f"vp_generated_{next(_n)}", filename=f"<vp-macro-{next(_n)}>")
    m.__dict__.update(names)
    try:
        run(src, m)
    finally:
        sys.modules.pop(m.__name__, None)
    return m.__dict__


def run_module(src, names):
    """Like run_macros, but -> (namespace, the exception raised by the program or None). Errors in expanding the macros are raised."""
    _lookup_cache.clear()
    m = create_module(f"vp_generated_{next(_n)}", filename=f"<vp-macro-{next(_n)}>")
    m.__dict__.update(names)
    exc = None
    try:
        code = compile(expand(src, filename=m.__file__, self_module=m.__name__), m.__file__, "exec")
        try:
            exec(code, m.__dict__)
        except Exception as e:
            exc = e
    finally:
        sys.modules.pop(m.__name__, None)
    return m.__dict__, exc
