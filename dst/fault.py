"""Aborts at arbitrary points inside SimCATS: an exception raised at the k-th line event of simcats frames.

Where a program cannot protect itself an abort proves nothing, so none is raised there: inside `finally` and `except`
blocks (and whatever they call), on the lines of `try:` and `with ...:` themselves (the interpreter reports them once more
just before a context manager's exit), and inside __enter__/__exit__.  An abort due at such a line happens at the next
line that is not one.
"""
import ast
import os
import sys

from dst.boot import SIMCATS_DIR
from dst.rng import stat


class Interrupt(KeyboardInterrupt):
    pass


EXC = {"interrupt": Interrupt, "memory": MemoryError, "timeout": TimeoutError, "runtime": RuntimeError}
_LINES = {}      # file -> (lines of clean-up blocks, these and the lines of with/try themselves)


def _lines_of(path):
    if path not in _LINES:
        blocks, heads = set(), set()
        try:
            with open(path) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module(body=[], type_ignores=[])
        for node in ast.walk(tree):
            if isinstance(node, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                heads.add(node.lineno)
                for h in node.handlers:
                    heads.add(h.lineno)
                for s in node.finalbody + [x for h in node.handlers for x in h.body]:
                    blocks.update(range(s.lineno, s.end_lineno + 1))
            elif isinstance(node, (ast.With, ast.AsyncWith)):
                heads.update(range(node.lineno, max(node.lineno + 1, node.body[0].lineno)))
        _LINES[path] = (blocks, blocks | heads)
    return _LINES[path]


for _d, _, _files in os.walk(SIMCATS_DIR):
    for _f in _files:
        if _f.endswith(".py"):
            _lines_of(os.path.join(_d, _f))


def protected(frame):
    """Is the program cleaning up (or about to be able to) at this point?  For callers only clean-up blocks count: a call
    made on the line of a `with` or `try` is ordinary code."""
    f = frame
    while f is not None:
        code = f.f_code
        if code.co_filename.startswith(SIMCATS_DIR):
            if code.co_name in ("__exit__", "__del__") or f is frame and code.co_name == "__enter__":
                return True
            if f.f_lineno in _lines_of(code.co_filename)[f is frame]:
                return True
        f = f.f_back
    return False


class Tracer:
    """Counts line events in simcats frames, optionally raising at one of them, optionally calling a hook at each."""

    def __init__(self, raise_at=None, exc=None, hook=None, where=None):
        self.n = 0
        self.raise_at, self.exc, self.hook = raise_at, exc, hook
        self.fired = None
        self.where = where      # optional predicate on file name

    def _global(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if event == "call" and fn.startswith(SIMCATS_DIR):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.hook is not None:
                self.hook(frame)
            if self.raise_at is not None and self.n >= self.raise_at and self.fired is None and not protected(frame):
                self.fired = (frame.f_code.co_filename[len(SIMCATS_DIR):], frame.f_code.co_name, frame.f_lineno)
                raise self.exc
        return self._local

    def run(self, fn):
        old = sys.gettrace()
        sys.settrace(self._global)
        try:
            return fn()
        finally:
            sys.settrace(old)


def count_lines(fn):
    t = Tracer()
    t.run(fn)
    return t.n


def abort_at(fn, k, kind):
    """Run fn with an exception injected at line event k.  Returns (outcome, value, exception injected, where)."""
    exc = EXC[kind]("injected by the simulator")
    t = Tracer(raise_at=k, exc=exc)
    try:
        val = t.run(fn)
        return "finished", val, exc, t.fired
    except BaseException as e:
        if t.fired is None:
            raise
        stat(f"fault:abort-{kind}")
        return ("same" if e is exc else "other"), e, exc, t.fired
