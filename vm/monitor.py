"""Instrumentation around a parse: audit events, open files, output and process state.

Nothing here touches the code under test: the interpreter's audit hook reports opens and
other system operations; /proc/self/fd and ResourceWarnings tell what was left open;
descriptors 1 and 2 are captured; snapshots of the process-wide settings are compared.
"""
import atexit
import builtins
import contextlib
import decimal
import gc
import io
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import sysconfig
import tempfile
import threading
import time
import warnings

from . import base

_active = None
_installed = False

LIBS = tuple({os.path.realpath(p) + os.sep for p in
              (sys.prefix, sys.base_prefix, sysconfig.get_path("stdlib"), sysconfig.get_path("purelib"))})
# Events that are no effect on the outside and reveal nothing of interest
QUIET = {"compile", "exec", "object.__getattr__", "object.__setattr__", "object.__delattr__",
         "builtins.id", "sys._getframe", "sys._getframemodulename", "import", "marshal.loads", "marshal.load",
         "code.__new__", "function.__new__", "gc.get_objects", "gc.get_referrers", "gc.get_referents",
         "sys.unraisablehook", "sys.excepthook", "time.sleep", "os.listdir", "os.scandir", "array.__new__",
         "pickle.find_class", "sys.set_asyncgen_hooks_firstiter", "sys.monitoring.register_callback",
         "sys.settrace", "sys.setprofile", "cpython._PySys_ClearAuditHooks", "glob.glob", "glob.glob/2",
         "os.fwalk", "os.walk", "pathlib.Path.glob", "pathlib.Path.rglob", "locale.setlocale"}
SETTINGS = {"sys.settrace": "trace function", "sys.setprofile": "profile function"}


def _hook(event, args):
    m = _active
    if m is None or m.paused:
        return
    if event == "open":
        m.on_open(args)
    elif event == "os.chdir" or event == "os.fchdir" or event not in QUIET:
        m.on_other(event, args)


def is_library(p):
    return p.startswith(LIBS) or (p.startswith(os.path.realpath(base.REPO) + os.sep)
                                  and p.endswith((".py", ".pyc", ".so")))


class IO:
    """Context manager recording what the code inside opened and did."""

    def __init__(self):
        self.opens = []       # (absolute path, writes?)
        self.reads = []       # absolute paths of plain reads that are no library files
        self.effects = []     # everything else worth reporting
        self.paused = False

    def on_open(self, args):
        p, mode, flags = (list(args) + [None, None, None])[:3]
        if isinstance(p, int):
            return  # a descriptor that is already open
        try:
            p = os.fsdecode(os.fspath(p))
        except TypeError:
            p = repr(p)
        writes = False
        if isinstance(mode, str):
            writes = any(c in mode for c in "wax+")
        if isinstance(flags, int):
            writes = writes or (flags & os.O_ACCMODE) != os.O_RDONLY or bool(flags & (os.O_CREAT | os.O_TRUNC))
        p = os.path.join(m_cwd(), p)
        if not writes and is_library(p):
            return
        self.opens.append((p, writes))
        if writes:
            self.effects.append(f"opens {p} for writing")
        else:
            self.reads.append(p)

    def on_other(self, event, args):
        if event == "socket.__new__" or not event.startswith("cpython."):
            self.effects.append(f"{event} {str(args)[:150]}")

    def __enter__(self):
        global _active, _installed
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True
        _active = self
        return self

    def __exit__(self, *a):
        global _active
        _active = None
        return False


def m_cwd():
    m = _active
    old, m.paused = m.paused, True
    try:
        return os.getcwd()
    except OSError:
        return "/"
    finally:
        m.paused = old


def fds():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            out[int(n)] = os.readlink(f"/proc/self/fd/{n}")
    return out


class Output:
    """Captures descriptors 1 and 2 and sys.stdout/sys.stderr."""

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.file = tempfile.TemporaryFile(dir=base.scratch_base())
        self.file_no = self.file.fileno()
        self.saved = os.dup(1), os.dup(2)
        os.dup2(self.file.fileno(), 1)
        os.dup2(self.file.fileno(), 2)
        return self

    def __exit__(self, *a):
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(self.saved[0], 1)
        os.dup2(self.saved[1], 2)
        os.close(self.saved[0])
        os.close(self.saved[1])
        self.file.seek(0)
        self.text = self.file.read(2000).decode("utf-8", "replace")
        self.file.close()
        return False


# Calls that change a process-wide setting, watched even if the change is undone at once
WATCHED = [(sys, "setrecursionlimit"), (sys, "setswitchinterval"), (sys, "set_int_max_str_digits"),
           (locale, "setlocale"), (signal, "signal"), (os, "umask"), (os, "chdir"), (os, "fchdir"),
           (os, "putenv"), (os, "unsetenv"), (os, "nice"), (gc, "disable"), (gc, "freeze"), (gc, "set_threshold"),
           (socket, "setdefaulttimeout"), (random, "seed"), (warnings, "simplefilter"), (warnings, "filterwarnings"),
           (warnings, "resetwarnings"), (atexit, "register"), (threading, "settrace"), (threading, "setprofile"),
           (logging, "basicConfig"), (logging, "disable"), (resource, "setrlimit"), (time, "tzset"),
           (faulthandler := __import__("faulthandler"), "enable")]
_calls = None


def watch_calls():
    """Wrap the setters; must run before the subject is imported so that every way of
    naming them is covered."""
    def wrap(mod, name):
        real = getattr(mod, name)

        def call(*a, **k):
            if _calls is not None:
                _calls.append(f"{mod.__name__}.{name}{str(a)[:80]}")
            return real(*a, **k)

        call.__wrapped__ = real
        call.__name__ = name
        setattr(mod, name, call)

    for mod, name in WATCHED:
        if hasattr(mod, name) and not hasattr(getattr(mod, name), "__wrapped__"):
            if mod is locale:
                wrap_setlocale()
            else:
                wrap(mod, name)


def wrap_setlocale():
    real = locale.setlocale

    def setlocale(category, locale=None):
        if _calls is not None and locale is not None:
            _calls.append(f"locale.setlocale{(category, locale)}")
        return real(category, locale)

    setlocale.__wrapped__ = real
    locale.setlocale = setlocale


class Calls:
    def __enter__(self):
        global _calls
        _calls = self.seen = []
        return self

    def __exit__(self, *a):
        global _calls
        _calls = None
        return False


def state():
    """The process-wide settings a parse must leave alone."""
    import json
    import xml.etree.ElementTree as etree

    mask = getattr(os.umask, "__wrapped__", os.umask)(0o22)
    getattr(os.umask, "__wrapped__", os.umask)(mask)
    handlers = {}
    for s in signal.valid_signals():
        with contextlib.suppress(Exception):
            handlers[int(s)] = repr(signal.getsignal(s))
    ctx = decimal.getcontext()
    return {
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "locale": getattr(locale.setlocale, "__wrapped__", locale.setlocale)(locale.LC_ALL, None),
        "warning filters": [repr(f) for f in warnings.filters],
        "showwarning": id(warnings.showwarning),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "module search path": list(sys.path),
        "path hooks": (len(sys.path_hooks), len(sys.meta_path)),
        "signal handlers": handlers,
        "umask": mask,
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count()),
        "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(threading.excepthook)),
        "trace functions": (repr(sys.gettrace()), repr(sys.getprofile())),
        "threads": sorted(t.name for t in threading.enumerate()),
        "socket timeout": socket.getdefaulttimeout(),
        "random state": hash(random.getstate()),
        "builtins": {k: id(v) for k, v in vars(builtins).items() if k != "_"},
        "open functions": (id(io.open), id(os.open)),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
        "decimal context": (ctx.prec, ctx.rounding, str(ctx.traps)),
        "exit handlers": atexit._ncallbacks(),
        "int digits": sys.get_int_max_str_digits(),
        "xml namespaces": dict(etree._namespace_map),
        "json decoder": (id(json._default_decoder), id(json.JSONDecoder.decode), id(json.decoder.scanstring)),
        "file size limits": resource.getrlimit(resource.RLIMIT_NOFILE) + resource.getrlimit(resource.RLIMIT_STACK),
    }


def state_changes(a, b):
    out = []
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                keys = [x for x in set(a[k]) | set(b[k]) if a[k].get(x) != b[k].get(x)]
                out.append(f"{k} changed: {keys[:5]}")
            else:
                out.append(f"{k} changed from {str(a[k])[:120]} to {str(b[k])[:120]}")
    return out


def tree(root):
    """What a directory tree holds: names, types, sizes, times and content."""
    out = {}
    for d, dirs, files in os.walk(root):
        st = os.lstat(d)
        out[d] = ("dir", st.st_mode, st.st_mtime_ns)
        for n in files + [x for x in dirs if os.path.islink(os.path.join(d, x))]:
            p = os.path.join(d, n)
            st = os.lstat(p)
            body = None
            if os.path.islink(p):
                body = os.readlink(p)
            elif os.path.isfile(p):
                with open(p, "rb") as f:
                    body = f.read()
            out[p] = (st.st_mode, st.st_size, st.st_mtime_ns, st.st_ino, body)
    return out


def tree_changes(a, b):
    return ([f"created {p}" for p in b if p not in a] + [f"deleted {p}" for p in a if p not in b]
            + [f"changed {p}" for p in a if p in b and a[p] != b[p]])[:5]
