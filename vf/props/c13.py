"""C13: readers and writers open, refuse and close files predictably."""

import builtins
import gc
import io
import os
import pathlib
import struct
import sys
import zlib

from .. import blf, gen, idle, model as m
from ..iofiles import RecFile

PROP = "C13"
LEVEL = "exploration"
RULE = ("A case opens readers or writers on paths and file objects, leaves contexts normally or by an exception, "
        "closes again, or passes input that must be refused, and monitors exceptions, file contents, closed flags and "
        "the process's open file descriptors. Distinct = different (operation, input); non-trivial = all.")
ASSUMPTIONS = ["the file itself works (faults: C14)"]
REQUIRED = {"writer_contexts": 200, "reader_contexts": 200, "exceptions_passed": 100, "refused_inputs": 300,
            "refused_types": 60, "refused_endless": 300, "refused_buffer_sizes": 30, "double_closes": 100, "writes_after_close": 100,
            "fd_checks": 300, "abandoned": 400}


class Boom(Exception):
    pass


class Exit(BaseException):
    pass


def fds():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[int(n)] = os.readlink(f"/proc/self/fd/{n}")
        except OSError:
            pass
    return out


def open_on(path):
    """Descriptors of this process open on `path`."""
    p = os.path.realpath(path)
    return [n for n, t in fds().items() if t == p or t == p + " (deleted)"]


def check_fd(ctx, path, what):
    ctx.count("fd_checks")
    left = open_on(path)
    if left:
        # only a descriptor that stays open without anybody else holding it counts: nothing else here opens the path
        ctx.fail(f"{what}: file still open (descriptor {left})")


def verify_log(ctx, raw, items, what):
    try:
        blf.locate(b"".join(c.payload for c in blf.parse_containers(raw)), [i.raw for i in items])
    except blf.Malformed as ex:
        ctx.fail(f"{what}: {ex}", file=raw)
    h = blf.parse_header(raw)
    ctx.check(h["object_count"] == len(items) and h["file_size"] == len(raw),
              f"{what}: header states {h['object_count']} objects and {h['file_size']} bytes, "
              f"log has {len(items)} and {len(raw)}", file=raw)


ERRORS = (Boom("x"), ValueError("y"), KeyError("k"), KeyboardInterrupt(), Exit(), GeneratorExit(), SystemExit(3), OSError(5, "io"),
          StopIteration(), MemoryError())
ERRORS += tuple(c() for c in sorted((c for c in vars(builtins).values() if isinstance(c, type) and issubclass(c, BaseException)
                                     and not issubclass(c, (UnicodeError, BaseExceptionGroup)) and
                                     c not in {type(e) for e in ERRORS}), key=lambda c: c.__name__))
ERRORS += (UnicodeDecodeError("x", b"", 0, 1, "y"), BaseExceptionGroup("g", [KeyboardInterrupt()]), struct.error("s"),
           zlib.error("z"), StopAsyncIteration(1), io.UnsupportedOperation("u"), ExceptionGroup("e", [ValueError(1)]))


def writer_context(ctx, rng, index):
    """with-blocks left in all ways."""
    items = gen.seq(rng, rng.choice((0, 1, 3, 10)), 60)
    level, bs = rng.randint(0, 9), gen.gen_buffer_size(rng)
    use_path = index % 2 == 0
    f = ctx.path() if use_path else RecFile()
    exc = None if index % 3 == 0 else ERRORS[(index // 3) % len(ERRORS)]
    how = index % 5
    stop = rng.randint(0, len(items))
    written = items
    w = None
    try:
        with gen.writer_cls()(f, level, bs) as w:
            for k, it in enumerate(items):
                if exc is not None and k == stop:
                    written = items[:k]
                    raise exc
                w.write(it.build())
            if exc is not None and stop == len(items):
                raise exc
            if how == 4:
                w.close()  # inside the block already
    except BaseException as ex:
        ctx.check(ex is exc, f"with-block raised {type(ex).__name__}: {ex} instead of {exc!r}")
        ctx.count("exceptions_passed")
    else:
        ctx.check(exc is None, f"{exc!r} raised in the with-block was suppressed")
    ctx.count("writer_contexts")
    what = f"writer context left by {exc!r}, {len(written)} objects (level {level}, buffer {bs})"
    if use_path:
        check_fd(ctx, f, what)
        with open(f, "rb") as fh:
            raw = fh.read()
    else:
        ctx.check(f.closed, f"{what}: file object not closed")
        raw = f.content()
    verify_log(ctx, raw, written, what)
    # closing again changes nothing
    for _ in range(2):
        w.close()
    w.__exit__(None, None, None)
    if use_path:
        with open(f, "rb") as fh:
            raw2 = fh.read()
        check_fd(ctx, f, what + ", closed again")
    else:
        raw2 = f.content()
    ctx.check(raw2 == raw, f"{what}: closing again changed the file")
    ctx.count("double_closes")
    # writing after close raises and changes nothing
    for it in gen.seq(rng, 2, 20):
        try:
            w.write(it.build())
        except ValueError:
            ctx.count("writes_after_close")
        except Exception as ex:
            ctx.fail(f"{what}: write after close raised {type(ex).__name__} ({ex}), not the documented ValueError")
        else:
            ctx.fail(f"{what}: write after close returned normally")
    w.close()
    if use_path:
        with open(f, "rb") as fh:
            raw2 = fh.read()
    else:
        raw2 = f.content()
    ctx.check(raw2 == raw, f"{what}: write after close changed the file")
    ctx.eval((tuple(i.raw for i in written), repr(exc), how, use_path, level, bs))
    ctx.sample(lambda: {"exception": repr(exc), "objects": len(written), "file": "path" if use_path else "file object"})


def writer_plain(ctx, rng, index):
    """close() without a context; close() twice; the writer then dropped."""
    items = gen.seq(rng, rng.choice((0, 1, 5)), 60)
    path = ctx.path()
    w = gen.writer_cls()(path, rng.randint(0, 9), gen.gen_buffer_size(rng))
    for it in items:
        w.write(it.build())
    w.close()
    check_fd(ctx, path, "closed writer")
    with open(path, "rb") as f:
        raw = f.read()
    verify_log(ctx, raw, items, "closed writer")
    st = os.stat(path)
    w.close()
    w.close()
    ctx.count("double_closes")
    st2 = os.stat(path)
    ctx.check((st.st_size, st.st_mtime_ns) == (st2.st_size, st2.st_mtime_ns), "closing again touched the file")
    # the path taken over by another log: closing the old writer again must not touch it
    other = gen.seq(rng, 2, 30)
    with gen.writer_cls()(path) as w2:
        for it in other:
            w2.write(it.build())
        w.close()
    w.close()
    with open(path, "rb") as f:
        verify_log(ctx, f.read(), other, "log at the same path")
    ctx.eval((tuple(i.raw for i in items), "plain"))


def reader_context(ctx, rng, index):
    items = gen.seq(rng, rng.choice((0, 1, 3, 10)), 60)
    raw = gen.write_log(items, rng.randint(0, 9), gen.gen_buffer_size(rng)).content()
    kind = ("path", "pathlib", "bytesio", "file")[index % 4]
    path = ctx.path()
    with open(path, "wb") as fh:
        fh.write(raw)
    src = {"path": lambda: path, "pathlib": lambda: pathlib.Path(path), "bytesio": lambda: RecFile(raw),
           "file": lambda: open(path, "rb")}[kind]()
    exc = None if index % 3 == 0 else ERRORS[(index // 3) % len(ERRORS)]
    stop = rng.randint(0, len(items))
    got = []
    r = None
    try:
        with gen.reader_cls()(src) as r:
            if exc is None or index % 2:
                for k, o in enumerate(r):
                    if exc is not None and k == stop:
                        raise exc
                    got.append(o)
            else:
                for k in range(stop):
                    got.append(r.read_object())
            if exc is not None:
                raise exc
    except BaseException as ex:
        ctx.check(ex is exc, f"with-block of a reader raised {type(ex).__name__}: {ex} instead of {exc!r}")
        ctx.count("exceptions_passed")
    else:
        ctx.check(exc is None, f"{exc!r} raised in the reader's with-block was suppressed")
    ctx.count("reader_contexts")
    what = f"reader context ({kind}) left by {exc!r}"
    check_fd(ctx, path, what)
    if hasattr(src, "closed"):
        ctx.check(src.closed, f"{what}: file object not closed")
    r.__exit__(None, None, None)  # closing again changes nothing
    ctx.count("double_closes")
    with open(path, "rb") as fh:
        ctx.check(fh.read() == raw, f"{what}: the file has changed")
    ctx.no(gen.check_items(items[:len(got)], got), what)
    ctx.eval((tuple(i.raw for i in items), kind, repr(exc), stop))


def bad_inputs(rng, index):
    """Inputs that are not BLF files."""
    head = blf.file_header(level=index % 10)
    log = head + blf.container(b"".join(i.raw for i in gen.seq(rng, 2, 30)), deflate=True)
    k = index % 8
    if k == 0:
        return head[:(index // 8) % 144], "header cut"
    if k == 1:
        return b"", "empty file"
    if k == 2:
        sig = bytearray(b"LOGG")
        sig[rng.randrange(4)] ^= rng.choice((1, 0x20, 0x80, 0xFF))
        return bytes(sig) + log[4:], "wrong signature"
    if k == 3:
        return rng.choice((b"LOBJ", b"logg", b"LOG\0", b"GGOL", b"\0LOG", b"LOGO", b"\xef\xbb\xbfL", b"FOGG")) + log[4:], "other signature"
    if k == 4:
        x = rng.randbytes(rng.choice((1, 3, 4, 100, 143, 144, 145, 1000, 5000)))
        return (b"\0" + x[1:] if x.startswith(b"LOGG") else x), "random bytes"
    if k == 5:
        return rng.choice((b"\0", b" ", b"\n", b"L", b"LO")) + log, "shifted log"
    if k == 6:
        return log[4:], "log without signature"
    return bytes(rng.choice((1, 143, 144, 200))), "zeros"


def refuse_input(ctx, rng, index):
    raw, what = bad_inputs(rng, index)
    path = ctx.path()
    with open(path, "wb") as f:
        f.write(raw)
    for kind in ("path", "bytes", "pathlib", "bytesio", "file"):
        src = {"path": lambda: path, "bytes": lambda: os.fsencode(path), "pathlib": lambda: pathlib.Path(path),
               "bytesio": lambda: io.BytesIO(raw), "file": lambda: open(path, "rb")}[kind]()
        try:
            gen.reader_cls()(src)
        except ValueError as ex:
            err = ex
            ctx.count("refused_inputs")
        except BaseException as ex:
            ctx.fail(f"{what} of {len(raw)} bytes ({kind}) raised {type(ex).__name__}: {ex} instead of ValueError", file=raw)
        else:
            ctx.fail(f"{what} of {len(raw)} bytes ({kind}) was accepted", file=raw)
        if kind in ("path", "bytes", "pathlib"):
            # the exception is still alive here: only an explicit close counts, not garbage collection
            check_fd(ctx, path, f"{what} refused ({kind}, {type(err).__name__} kept)")
        if hasattr(src, "close"):
            src.close()
    with open(path, "rb") as f:
        ctx.check(f.read() == raw, f"{what}: refused file was changed")
    ctx.eval((raw, what))


class TooMuch(BaseException):
    pass


class Endless(io.RawIOBase):
    """A file without end (a device, or more than memory holds) that begins with `start`."""

    BUDGET = 4 << 20

    def __init__(self, start, fill, seekable):
        self.start, self.fill, self._seekable = start, fill, seekable
        self.pos = self.taken = 0
        self.biggest = 0

    def readable(self):
        return True

    def seekable(self):
        return self._seekable

    def seek(self, pos, whence=0):
        if not self._seekable:
            raise io.UnsupportedOperation("seek")
        self.pos = pos if whence == 0 else self.pos + pos if whence == 1 else (1 << 50) + pos
        return self.pos

    def tell(self):
        if not self._seekable:
            raise io.UnsupportedOperation("tell")
        return self.pos

    def _take(self, n):
        if n is None or n < 0:
            raise TooMuch("everything was asked for")
        self.taken += n
        self.biggest = max(self.biggest, n)
        if self.taken > self.BUDGET:
            raise TooMuch(f"{self.taken} bytes were asked for")
        out = self.start[self.pos:self.pos + n]
        out += self.fill * (n - len(out))
        self.pos += n
        return out

    def read(self, n=-1):
        return self._take(n)

    def readall(self):
        return self._take(-1)

    def read1(self, n=-1):
        return self._take(n)

    def readinto(self, b):
        b[:] = self._take(len(b))
        return len(b)

    def readline(self, n=-1):
        return self._take(n)


def refuse_endless(ctx, rng, index):
    """Input that is refused is refused from its beginning, however much there is of it."""
    raw, what = bad_inputs(rng, 1 + index % 7 + 8 * (index // 7))
    fill = rng.choice((b"\0", b"x", b"L"))
    f = Endless(raw, fill, bool(index % 2))
    whole = (raw + fill * 144)[:144]
    if whole.startswith(b"LOGG"):
        f = Endless(b"\0" + raw, fill, bool(index % 2))
    buffered = index % 5 == 0
    try:
        gen.reader_cls()(io.BufferedReader(f) if buffered else f)
    except ValueError:
        ctx.count("refused_endless")
    except TooMuch as ex:
        ctx.fail(f"{what} followed by {fill!r} without end: {ex} before it was refused")
    except Exception as ex:
        ctx.fail(f"{what} followed by {fill!r} without end: raised {type(ex).__name__}: {ex} instead of ValueError")
    else:
        ctx.fail(f"{what} followed by {fill!r} without end was accepted")
    ctx.maxi("bytes_before_refusal", f.taken)
    ctx.eval((raw, fill, buffered, index % 2))


def refuse_type(ctx, rng, index):
    """Arguments that are neither paths nor files."""
    bad = [None, 5, 0, -1, 1.5, [], ["x"], {}, (), object(), True, set(), 3j, type, memoryview(b"LOGG"), bytearray(b"x.blf"),
           range(3), Boom, len][index % 19]
    for cls in (gen.reader_cls(), gen.writer_cls()):
        before = fds()
        try:
            cls(bad)
        except TypeError:
            ctx.count("refused_types")
        except BaseException as ex:
            ctx.fail(f"{cls.__name__}({bad!r}) raised {type(ex).__name__}: {ex} instead of TypeError")
        else:
            ctx.fail(f"{cls.__name__}({bad!r}) was accepted")
        after = fds()
        ctx.check(set(after) <= set(before) | {n for n in after if "/proc/" in after[n]},
                  f"{cls.__name__}({bad!r}) left a file open: {after}")
    ctx.check(not os.listdir(ctx.newdir()), "harness")
    ctx.eval(("type", index % 19, index))


def refuse_buffer(ctx, rng, index):
    """Buffer sizes below 1 are refused before any file is touched."""
    size = (0, -1, -8, -128 * 1024, -(1 << 40))[index % 5]
    path = ctx.path()
    exists = index % 2
    old = rng.randbytes(300)
    if exists:
        with open(path, "wb") as f:
            f.write(old)
        mt = os.stat(path).st_mtime_ns
    rec = RecFile(b"keep me")
    for f in (path, pathlib.Path(path), rec):
        try:
            gen.writer_cls()(f, rng.randint(0, 9), size)
        except ValueError as ex:
            err = ex
            ctx.count("refused_buffer_sizes")
        except BaseException as ex:
            ctx.fail(f"buffer size {size} raised {type(ex).__name__}: {ex} instead of ValueError")
        else:
            ctx.fail(f"buffer size {size} was accepted")
        check_fd(ctx, path, f"buffer size {size} refused ({err})")
    if exists:
        with open(path, "rb") as f:
            ctx.check(f.read() == old and os.stat(path).st_mtime_ns == mt, f"buffer size {size}: existing file was changed")
    else:
        ctx.check(not os.path.exists(path), f"buffer size {size}: a file was created")
    ctx.check(rec.nwrite == 0 and rec.getvalue() == b"keep me", f"buffer size {size}: something was written to the file")
    ctx.eval(("buffer", size, index))


def interleaved(ctx, rng, index):
    """Nested and overlapping contexts close exactly their own file."""
    n = rng.randint(2, 5)
    files = [RecFile() for _ in range(n)]
    its = [gen.seq(rng, rng.randint(0, 4), 30) for _ in range(n)]
    ws = [gen.writer_cls()(f, rng.randint(0, 9), gen.gen_buffer_size(rng)) for f in files]
    order = list(range(n))
    rng.shuffle(order)
    for w, il in zip(ws, its):
        for it in il:
            w.write(it.build())
    for j, k in enumerate(order):
        if rng.random() < 0.5:
            ws[k].close()
        else:
            ws[k].__exit__(None, None, None)
        for q in range(n):
            ctx.check(files[q].closed == (q in order[:j + 1]), f"closing writer {k} left file {q} "
                      f"{'closed' if files[q].closed else 'open'}")
    for f, il in zip(files, its):
        verify_log(ctx, f.content(), il, "closed in another order")
        ctx.check(f.nclose == 1, f"file closed {f.nclose} times")
    ctx.eval((tuple(i.raw for il in its for i in il), tuple(order)))


def reopen(ctx, rng, index):
    """Many readers and writers one after the other leave nothing open."""
    path = ctx.path()
    gc.collect()
    for k in range(8):
        items = gen.seq(rng, rng.randint(0, 3), 20)
        with gen.writer_cls()(path) as w:
            for it in items:
                w.write(it.build())
        check_fd(ctx, path, "writer context")
        with gen.reader_cls()(path) as r:
            objs = list(r)
        check_fd(ctx, path, "reader context")
        ctx.no(gen.check_items(items, objs))
    ctx.eval(("reopen", index))


def abandoned(ctx, rng, index):
    """Readers and writers that are dropped, not closed, leave the caller's file object open and as it was."""
    items = gen.seq(rng, rng.choice((0, 1, 4)), 60)
    level, bs = gen.gen_level(rng), rng.choice((1, 50, 1 << 20))
    raw = gen.write_log(items, level, bs).content()
    f = RecFile(raw)
    r = gen.reader_cls()(f)
    stop = rng.randint(0, len(items) + 1)
    cyc = rng.random() < 0.3
    got = []
    it = iter(r)
    for k in range(stop):
        o = r.read_object() if k % 2 else next(it, None)
        if o is not None:
            got.append(o)
    if cyc:
        loop = [r, it]
        loop.append(loop)
        del loop
    del r, it
    gc.collect()
    ctx.check(not f.closed and not f.nclose, f"a reader dropped after {stop} of {len(items)} objects closed the caller's file")
    ctx.check(f.content() == raw and not f.nwrite, "a dropped reader changed the file")
    f.seek(0)
    ctx.no(gen.check_items(items, list(gen.reader_cls()(f))), "a second reader on the file object")
    ctx.no(gen.check_items(items[:len(got)], got), "objects kept beyond their reader")
    # refused input: the file object stays the caller's
    bad = RecFile(b"LOGX" + raw[4:] if index % 2 else raw[:index % 144])
    for cls, arg in ((gen.reader_cls(), (bad,)), (gen.writer_cls(), (bad, level, -1))):
        was, n = bad.content(), bad.nclose
        try:
            cls(*arg)
        except ValueError:
            pass
        gc.collect()
        ctx.check(not bad.closed and bad.nclose == n and bad.content() == was, f"a refused file object was closed or changed ({cls.__name__})")
    # a writer dropped without close: the file stays open, and dropping changes nothing
    g = RecFile()
    w = gen.writer_cls()(g, level, bs)
    for x in items:
        w.write(x.build())
    was = g.content()
    if cyc:
        loop = [w]
        loop.append(loop)
        del loop
    del w
    gc.collect()
    ctx.check(not g.closed and not g.nclose, f"a writer dropped after {len(items)} objects closed the caller's file")
    ctx.check(g.content() == was, "a writer being dropped changed the caller's file")
    ctx.count("abandoned", 2)
    ctx.eval((raw, stop, cyc))


AT_EXIT = r"""
import atexit, gc, os, sys
sys.path[:0] = [os.environ.get("VF_SRC", "/repo/src"), sys.argv[1]]
from random import Random
held = []

def last():
    for k, (what, f, was, nops) in enumerate(held):
        if f.closed or f.nclose:
            print(f"file {k} ({what}) was closed at exit", flush=True)
        elif f.content() != was or f.nwrite != nops:
            print(f"file {k} ({what}) was written to at exit", flush=True)
    print("done", len(held), flush=True)
atexit.register(last)
from vf import gen
from vf.iofiles import RecFile
rng = Random(sys.argv[2])
for k in range(12):
    items = gen.seq(rng, rng.choice((0, 1, 4)), 60)
    level, bs = gen.gen_level(rng), rng.choice((1, 50, 1 << 20))
    if k % 3 == 0:
        f = RecFile(gen.write_log(items, level, bs).content())
        r = gen.reader_cls()(f)
        for _ in range(rng.randint(0, 3)):
            r.read_object()
        what = "reader dropped"
        del r
    else:
        f = RecFile()
        w = gen.writer_cls()(f, level, bs)
        for x in items:
            w.write(x.build())
        what = "writer dropped"
        if k % 3 == 2:
            loop = [w]
            loop.append(loop)
            del loop
        del w
    gc.collect()
    held.append((what, f, f.content(), f.nwrite))
"""


def at_exit(ctx, rng, index):
    """Nor when the process ends."""
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    p = idle.run([sys.executable, "-c", AT_EXIT, here, f"at exit/{ctx.seed}/{index}"], "readers and writers dropped at exit", text=True)
    ctx.check(p.returncode == 0 and p.stdout == "done 12\n",
              f"readers and writers dropped before the process ended ({p.returncode}): {p.stdout[-600:]} {p.stderr[-1500:]}")
    ctx.count("abandoned", 12)
    ctx.eval(("at exit", index, ctx.seed))


def families(tier):
    t = tier == "thorough"
    return [
        ("writer_context", 30000 if t else 1200, writer_context),
        ("writer_plain", 6000 if t else 200, writer_plain),
        ("reader_context", 20000 if t else 1000, reader_context),
        ("refuse_input", 10000 if t else 8 * 150, refuse_input),
        ("refuse_endless", 4000 if t else 400, refuse_endless),
        ("refuse_type", 400 if t else 57, refuse_type),
        ("refuse_buffer", 1000 if t else 60, refuse_buffer),
        ("interleaved", 10000 if t else 300, interleaved),
        ("abandoned", 10000 if t else 300, abandoned),
        ("at_exit", 60 if t else 6, at_exit),
        ("reopen", 1000 if t else 40, reopen),
    ]
