"""How much work a call does: interpreter events, files opened and bytes behind them."""
import contextlib
import os
import sys

from .monitor import IO

TOOL = 3


class TooMuch(BaseException):
    pass


class Work:
    """Counts statements and branches executed while the call runs, per function."""

    def __init__(self, budget):
        self.budget = budget
        self.by_code = {}

    def __enter__(self):
        mon = sys.monitoring
        counts, budget = self.by_code, [self.budget]

        def event(code, *_):
            counts[code] = counts.get(code, 0) + 1
            budget[0] -= 1
            if budget[0] < 0:
                budget[0] = 1 << 62
                raise TooMuch(f"stopped in {code.co_qualname} of {os.path.basename(code.co_filename)}")

        mon.use_tool_id(TOOL, "work")
        E = mon.events
        for e in (E.LINE, E.BRANCH, E.PY_START):
            mon.register_callback(TOOL, e, event)
        self.io = IO()
        self.io.__enter__()
        mon.set_events(TOOL, E.LINE | E.BRANCH | E.PY_START)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(TOOL, 0)
        self.io.__exit__(*a)
        for e in (mon.events.LINE, mon.events.BRANCH, mon.events.PY_START):
            mon.register_callback(TOOL, e, None)
        mon.free_tool_id(TOOL)
        here = os.path.dirname(__file__)
        for c in [c for c in self.by_code if c.co_filename.startswith(here)]:
            del self.by_code[c]
        self.events = sum(self.by_code.values())
        self.opens = len(self.io.opens)
        self.bytes = 0
        for p in self.io.reads:
            with contextlib.suppress(OSError):
                self.bytes += os.path.getsize(p)
        return False

    def top(self, other):
        """The functions whose share grew most against another measurement."""
        grown = sorted(((n - other.by_code.get(c, 0), c.co_qualname, n) for c, n in self.by_code.items()), reverse=True)
        return ", ".join(f"{name} {n}" for _, name, n in grown[:4])
