"""Failing and slow files: a stand-in for open() that injects errors at chosen events."""
import builtins
import errno
import io
import os

_real_open = io.open


class Raw(io.RawIOBase):
    """A file whose reads may be short or fail."""

    def __init__(self, file, plan, opener=None):
        self.inner = io.FileIO(file, "r", opener=opener)
        self.plan = plan
        self.name = file

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, *a):
        return self.inner.seek(*a)

    def tell(self):
        return self.inner.tell()

    def fileno(self):
        return self.inner.fileno()

    def isatty(self):
        return False

    def readinto(self, b):
        n = self.plan.on_read(self.name, len(b))
        data = self.inner.read(n)
        b[:len(data)] = data
        return len(data)

    def close(self):
        if not self.closed:
            self.inner.close()
        super().close()


class Plan:
    """Within the context: the nth open or the nth read raises, or reads are short."""

    def __init__(self, fail_open=None, fail_read=None, code=errno.EIO, chunk=None, only=None):
        self.fail_open, self.fail_read, self.code, self.chunk = fail_open, fail_read, code, chunk
        self.only = only
        self.opens = self.reads = 0
        self.fired = False

    def error(self, name):
        self.fired = True
        return OSError(self.code, os.strerror(self.code), os.fspath(name) if not isinstance(name, int) else None)

    def on_open(self, name):
        self.opens += 1
        if self.fail_open is not None and self.opens == self.fail_open:
            raise self.error(name)

    def on_read(self, name, n):
        self.reads += 1
        if self.fail_read is not None and self.reads == self.fail_read:
            raise self.error(name)
        return min(n, self.chunk) if self.chunk else n

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        if isinstance(file, int) or any(c in mode for c in "wax+"):
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.on_open(file)
        raw = Raw(file, self, opener)
        if buffering == 0:
            return raw
        buf = io.BufferedReader(raw)
        if "b" in mode:
            return buf
        try:
            return io.TextIOWrapper(buf, encoding, errors, newline)
        except BaseException:
            buf.close()
            raise

    def __enter__(self):
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *a):
        builtins.open = io.open = _real_open
        return False
