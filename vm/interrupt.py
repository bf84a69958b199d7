"""Breaking a parse off: an exception raised at the nth line the package executes.

Python itself cannot leave a `with` or `finally` cleanly when broken off right there, so no library can be asked to: the lines of
`finally` and `except` bodies, of `try` itself, and the second visit of a `with` line (its exit) are no places to break off.
"""
import ast
import os
import sys

from . import base

_unfair = {}


def lines_of(nodes):
    out = set()
    for n in nodes:
        out.update(range(n.lineno, n.end_lineno + 1))
    return out


def unfair(path):
    """(lines never to break off at, lines not to break off at when visited again)."""
    if path not in _unfair:
        never, again = set(), set()
        try:
            with open(path, "rb") as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for n in ast.walk(tree):
            if isinstance(n, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                never |= lines_of(n.finalbody) | lines_of(n.handlers) | set(range(n.lineno, n.body[0].lineno))
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                again |= set(range(n.lineno, n.body[0].lineno)) or {n.lineno}
                again.add(n.lineno)
        _unfair[path] = never, again
    return _unfair[path]


class Break:
    """Within the context, counts lines and raises `exc` at the nth (none: only counts)."""

    def __init__(self, nth=None, exc=None):
        self.nth, self.exc = nth, exc
        self.lines = 0
        self.where = None
        self.prefix = os.path.join(os.path.realpath(base.REPO), "pytiled_parser") + os.sep

    def glob(self, frame, event, arg):
        code = frame.f_code
        if event != "call" or not code.co_filename.startswith(self.prefix) or code.co_name == "<module>":
            return None
        never, again = unfair(code.co_filename)
        seen = set()

        def local(frame, event, arg):
            if event != "line":
                return local
            line = frame.f_lineno
            if line in never or (line in again and line in seen):
                return local
            seen.add(line)
            self.lines += 1
            if self.lines == self.nth:
                self.where = f"{os.path.relpath(code.co_filename, self.prefix)}:{line} ({code.co_name})"
                raise self.exc
            return local

        return local

    def __enter__(self):
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False
