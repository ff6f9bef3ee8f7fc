"""Instrumented in-memory files: every operation is recorded at the boundary
between vblf and its file, the contents survive close(), faults can be injected."""

from __future__ import annotations

import io


class OpLimit(BaseException):
    """vblf issued more file operations than any terminating run needs."""


class Injected(OSError):
    """Marker for injected faults."""


class RecFile(io.BytesIO):
    """BytesIO that records operations.

    ops: list of (name, offset, length-or-data).  keep_data stores written bytes (for crash states).
    fault(index, name, data) -> None or (exception, stored) decides whether operation `index` fails, and how
    many bytes of a write are stored before it does (stored=None: all of it).
    """

    def __init__(self, initial=b"", *, keep_data=False, fault=None, max_ops=None):
        super().__init__(initial)
        self.ops = []
        self.nops = 0
        self.keep_data = keep_data
        self.fault = fault
        self.max_ops = max_ops
        self.final = None
        self.high = 0  # highest offset read so far
        self.nclose = 0
        self.nread = self.nwrite = 0

    def _op(self, name, data=b""):
        i = self.nops
        self.nops += 1
        if self.max_ops is not None and i > self.max_ops:
            raise OpLimit(f"more than {self.max_ops} file operations")
        if self.fault is not None:
            return self.fault(i, name, data)
        return None

    # -- writing
    def write(self, data):
        f = self._op("write", data)
        self.nwrite += 1
        pos = super().tell()
        if f is not None:
            exc, stored = f
            part = bytes(data) if stored is None else bytes(data)[:stored]
            super().write(part)
            raise exc
        if self.keep_data:
            self.ops.append(("write", pos, bytes(data)))
        n = super().write(data)
        return n

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def truncate(self, size=None):
        f = self._op("truncate")
        if f is not None:
            raise f[0]
        if self.keep_data:
            self.ops.append(("truncate", super().tell() if size is None else size, None))
        return super().truncate(size)

    # -- reading
    def _did_read(self, n):
        self.nread += 1
        self.high = max(self.high, super().tell())

    def read(self, size=-1):
        f = self._op("read")
        if f is not None:
            raise f[0]
        out = super().read(size)
        self._did_read(len(out))
        return out

    def read1(self, size=-1):
        f = self._op("read")
        if f is not None:
            raise f[0]
        out = super().read1(size)
        self._did_read(len(out))
        return out

    def readinto(self, b):
        f = self._op("read")
        if f is not None:
            raise f[0]
        n = super().readinto(b)
        self._did_read(n)
        return n

    def readline(self, size=-1):
        f = self._op("read")
        if f is not None:
            raise f[0]
        out = super().readline(size)
        self._did_read(len(out))
        return out

    def getvalue(self):
        return self.final if self.closed else super().getvalue()

    # -- positions and life cycle
    def seek(self, pos, whence=0):
        f = self._op("seek")
        if f is not None:
            raise f[0]
        return super().seek(pos, whence)

    def tell(self):
        f = self._op("tell")
        if f is not None:
            raise f[0]
        return super().tell()

    def flush(self):
        f = self._op("flush")
        if f is not None:
            raise f[0]
        return super().flush()

    def close(self):
        if not self.closed:
            f = self._op("close")
            if f is not None:
                raise f[0]
            self.final = super().getvalue()
            self.nclose += 1
        super().close()

    def since(self, pos):
        """What is in the file from `pos` on (not an operation of the code under test)."""
        if self.closed:
            return self.final[pos:]
        with super().getbuffer() as v:
            return bytes(v[pos:])

    def content(self):
        return self.final if self.closed else super().getvalue()

    def __del__(self):  # garbage collection must not run fault plans
        self.fault = None
        self.max_ops = None


def apply_ops(ops, upto, torn=None):
    """File contents after the first `upto` recorded operations; `torn` bytes of the next write are stored too."""
    buf = bytearray()
    seq = list(ops[:upto])
    if torn is not None and upto < len(ops) and ops[upto][0] == "write":
        name, pos, data = ops[upto]
        seq.append((name, pos, data[:torn]))
    for name, pos, data in seq:
        if name == "write":
            if len(buf) < pos:
                buf.extend(bytes(pos - len(buf)))
            buf[pos:pos + len(data)] = data
        else:
            del buf[pos:]
            if len(buf) < pos:
                buf.extend(bytes(pos - len(buf)))
    return bytes(buf)


class NullSink(io.BufferedIOBase):
    """Seekable sink that keeps only the first bytes (for logs beyond 4 GiB)."""

    def __init__(self, keep=4096):
        self.head = bytearray(keep)
        self.keep = keep
        self.pos = 0
        self.size = 0

    def write(self, data):
        n = len(data)
        if self.pos < self.keep:
            part = bytes(data[: self.keep - self.pos])
            self.head[self.pos:self.pos + len(part)] = part
        self.pos += n
        self.size = max(self.size, self.pos)
        return n

    def seek(self, pos, whence=0):
        self.pos = pos if whence == 0 else self.pos + pos if whence == 1 else self.size + pos
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        self.size = self.pos if size is None else size
        return self.size

    def seekable(self):
        return True

    def writable(self):
        return True

    def readable(self):
        return False
