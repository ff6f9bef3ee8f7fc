"""C25: using the library touches nothing but the file it is given."""

import builtins
import gc
import io
import json
import locale
import logging
import os
import random as _random
import resource
import signal
import struct
import subprocess
import sys
import sysconfig
import tempfile
import threading
import time
import warnings
import decimal
import codecs

from .. import blf, gen, idle, model as m, procstate
from ..engine import COV, SRC
from .c03 import snap

PROP = "C25"
LEVEL = "exploration"
RULE = ("A case runs a script of API calls (reading well-formed, damaged and refused files, writing, rejected writes, failing "
        "files, encoding, decoding, factories) inside a window in which an audit hook records every file opened, created, "
        "renamed or removed, process started, socket used and signal sent; standard output and error are captured at their "
        "descriptors; directories, descriptors, threads and process-wide settings are compared before and after. "
        "Distinct = different (script, contents); non-trivial = at least one file was opened or call made.")
ASSUMPTIONS = ["modules of the Python installation may be imported on first use"]
REQUIRED = {"windows": 300, "audit_events": 2000, "opens_seen": 300, "states_compared": 300, "directories_compared": 300,
            "interpreters": 6, "odd_settings": 150, "damaged": 40, "refused": 40, "rejected": 40,
            "large": 16}

WATCH = None  # list of events while a window is open
ALLOWED = ()
_hooked = False
PREFIXES = tuple(sorted({os.path.realpath(p) + os.sep for p in
                         (sys.prefix, sys.base_prefix, sys.exec_prefix, SRC, *sysconfig.get_paths().values())}))
# events that are read-only, or belong to what a window may do
QUIET = ("import", "compile", "exec", "object.", "code.", "sys._getframe", "marshal.", "builtins.id", "sys.unraisablehook",
         "gc.", "cpython.", "os.listdir", "os.scandir", "os.walk", "os.fwalk", "sys.monitoring", "array.", "pickle.",
         "time.sleep", "sys.excepthook", "setopencodehook", "sys._current", "function.", "_thread.", "threading.",
         "os.stat", "os.getxattr", "mmap.__new__", "glob.", "sys.set_asyncgen", "shutil.which", "types.")


def _hook(event, args):
    w = WATCH
    if w is None or idle.LOOKING:
        return
    w.append((event, args))


def install():
    global _hooked
    if not _hooked:
        sys.addaudithook(_hook)
        _hooked = True


def target(p):
    if isinstance(p, int):
        return p
    try:
        return os.path.realpath(os.fsdecode(p))
    except (TypeError, ValueError):
        return repr(p)


def judge(ctx, events, mine, what):
    """mine: path -> 'r' or 'w'."""
    mine = {os.path.realpath(p): k for p, k in mine.items()}
    for event, args in events:
        ctx.count("audit_events")
        if event == "open":
            path, mode, flags = (list(args) + [None, None])[:3]
            path = target(path)
            if isinstance(path, int):
                continue
            ctx.count("opens_seen")
            writing = bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)) or \
                (isinstance(mode, str) and any(c in mode for c in "wax+"))
            if path in mine:
                ctx.check(not writing or mine[path] == "w", f"{what}: the log to be read was opened for writing "
                          f"(mode {mode!r}, flags {flags})")
                continue
            ctx.check(not writing, f"{what}: opened {path!r} for writing (mode {mode!r}, flags {flags})")
            ctx.check(path.startswith(PREFIXES) or path.startswith(("/usr/share/zoneinfo/", "/etc/localtime", "/dev/null")),
                      f"{what}: opened {path!r}, a file it was not given")
        elif event.startswith(QUIET):
            continue
        elif event in ("os.truncate", "os.ftruncate"):
            p = target(args[0])
            ctx.check(isinstance(p, int) or mine.get(p) == "w", f"{what}: {event} of {p!r}")
        else:
            ctx.fail(f"{what}: caused {event}{tuple(str(a)[:80] for a in args)!r}")


def settings():
    """Process-wide settings that code can change."""
    ctxd = decimal.getcontext()
    return {
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "int digits": sys.get_int_max_str_digits(),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "locale": locale.setlocale(locale.LC_ALL),
        "time zone": (time.tzname, time.timezone, time.daylight),
        "signals": {s: repr(signal.getsignal(s)) for s in signal.valid_signals()},
        "signal mask": signal.pthread_sigmask(signal.SIG_BLOCK, []),
        "warning filters": list(warnings.filters),
        "warnings.showwarning": warnings.showwarning,
        "root log level": logging.getLogger().level,
        "root log handlers": [repr(h) for h in logging.getLogger().handlers],
        "logging disabled": logging.root.manager.disable,
        "random state": _random.getstate(),
        "threads": sorted(t.name for t in threading.enumerate()),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "hooks": (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook, sys.gettrace(), sys.getprofile(),
                  sys.breakpointhook),
        "import path": (list(sys.path), [repr(f) for f in sys.meta_path], len(sys.path_hooks)),
        "builtins": {k: id(v) for k, v in vars(builtins).items() if k != "_"},
        "decimal context": (ctxd.prec, ctxd.rounding, ctxd.Emax, ctxd.Emin),
        "resource limits": [resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_FSIZE, resource.RLIMIT_AS,
                                                            resource.RLIMIT_STACK, resource.RLIMIT_CORE)],
        "nice": os.getpriority(os.PRIO_PROCESS, 0),
        "affinity": os.sched_getaffinity(0),
        "umask": umask(),
        "open": (builtins.open, io.open, os.open),
        "time": (time.time, time.monotonic, time.localtime),
        **procstate.state(),
    }


def umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


def listing(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(base, n)
            st = os.lstat(p)
            out[os.path.relpath(p, d)] = (st.st_mode, st.st_ino, st.st_uid, st.st_gid, st.st_nlink,
                                          None if n in dirs else (st.st_size, st.st_mtime_ns))
    return out


class Window:
    """Everything observed while one script runs."""

    def __init__(self, ctx, rng, what, mine, work):
        self.ctx, self.rng, self.what, self.mine, self.work = ctx, rng, what, mine, work

    def __enter__(self):
        global WATCH
        install()
        gc.collect()
        self.odd()
        self.s = settings()
        # codecs and modules are imported on first use: not what is looked for
        self.before = listing(self.work)
        self.fds = set(os.listdir("/proc/self/fd"))
        sys.stdout.flush()
        sys.stderr.flush()
        self.cap = os.memfd_create("cap")
        self.old = os.dup(1), os.dup(2)
        os.dup2(self.cap, 1)
        os.dup2(self.cap, 2)
        self.ops = WATCH = []
        return self

    def odd(self):
        """Settings that are not the usual ones."""
        rng = self.rng
        ctxd = decimal.getcontext()
        self.usual = (os.umask(0o22), gc.isenabled(), gc.get_threshold(), sys.getrecursionlimit(), sys.getswitchinterval(),
                      ctxd.prec, logging.getLogger().level, logging.root.manager.disable, list(warnings.filters),
                      os.environ.get("VBLF_X"))
        os.umask(self.usual[0])
        if rng.random() < 0.4:
            return
        os.umask(rng.choice((0o22, 0o77, 0, 0o27, 0o137)))
        if rng.random() < 0.5:
            gc.disable()
        gc.set_threshold(rng.choice((700, 50, 10_000)))
        sys.setrecursionlimit(rng.choice((900, 1000, 1500, 3000, 20_000)))
        sys.setswitchinterval(rng.choice((0.005, 0.001, 0.1)))
        ctxd.prec = rng.choice((28, 5, 60))
        logging.getLogger().setLevel(rng.choice((logging.WARNING, logging.DEBUG, logging.CRITICAL)))
        logging.disable(rng.choice((0, logging.INFO, 100)))
        if rng.random() < 0.5:
            warnings.simplefilter(rng.choice(("error", "ignore", "always")))
        os.environ["VBLF_X"] = "1"
        self.ctx.count("odd_settings")

    def usually(self):
        u, on, th, rec, sw, prec, lv, dis, filters, var = self.usual
        os.umask(u)
        (gc.enable if on else gc.disable)()
        gc.set_threshold(*th)
        sys.setrecursionlimit(rec)
        sys.setswitchinterval(sw)
        decimal.getcontext().prec = prec
        logging.getLogger().setLevel(lv)
        logging.disable(dis)
        warnings.filters[:] = filters
        warnings._filters_mutated()
        if var is None:
            os.environ.pop("VBLF_X", None)

    def __exit__(self, et, ev, tb):
        try:
            return self.leave(et, ev, tb)
        finally:
            self.usually()

    def leave(self, et, ev, tb):
        global WATCH
        WATCH = None
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(self.old[0], 1)
        os.dup2(self.old[1], 2)
        os.close(self.old[0])
        os.close(self.old[1])
        n = os.lseek(self.cap, 0, os.SEEK_END)
        text = os.pread(self.cap, min(n, 2000), 0)
        os.close(self.cap)
        if et is not None:
            return False
        ctx, what = self.ctx, self.what
        judge(ctx, self.ops, self.mine, what)
        ctx.check(not text, f"{what}: wrote to the standard streams: {text[:300]!r}")
        s = settings()
        for k in self.s:
            ctx.check(s[k] == self.s[k], f"{what}: changed {k}: {str(self.s[k])[:300]} -> {str(s[k])[:300]}")
        ctx.count("states_compared")
        after = listing(self.work)
        own = {os.path.relpath(p, self.work) for p, k in self.mine.items() if k == "w"}
        for n in before_after(self.before, after):
            ctx.check(n in own, f"{what}: {'created' if n not in self.before else 'removed' if n not in after else 'changed'} "
                      f"{n!r}: {self.before.get(n)} -> {after.get(n)}")
        for n in own:
            if n in self.before and n in after:  # an existing file is overwritten in place
                a, b = self.before[n], after[n]
                ctx.check(a[:5] == b[:5], f"{what}: the existing file {n!r} was replaced or its mode changed: {a} -> {b}")
        ctx.count("directories_compared")
        gc.collect()
        fds = set(os.listdir("/proc/self/fd"))
        ctx.check(len(fds) <= len(self.fds), f"{what}: descriptors left open: "
                  f"{[os.readlink('/proc/self/fd/' + f) for f in fds - self.fds if os.path.lexists('/proc/self/fd/' + f)]}")
        ctx.count("windows")
        return False


def before_after(a, b):
    return [n for n in sorted(set(a) | set(b)) if a.get(n) != b.get(n)]


def warm():
    """First uses (imports of codecs, caches) outside the window; the window allows imports anyway."""
    "x".encode("cp1252").decode("cp1252")


def reading(ctx, rng, index):
    """A file is read: by path, as an object, damaged, refused."""
    warm()
    work = ctx.newdir()
    path = os.path.join(work, "log.blf")
    for n in ("other.blf", "log.blf.idx", "log.txt"):
        with open(os.path.join(work, n), "wb") as f:
            f.write(b"neighbour")
    items = gen.seq(rng, rng.choice((0, 3, 12)), 80)
    raw, _ = gen.package(rng, items)
    if index % 21 == 7:  # long
        body = b"".join(i.raw + bytes(-len(i.raw) % 4) for i in gen.seq(rng, 20, 40)) * rng.choice((60, 200))
        cut = rng.choice((len(body), 1000, 20_000))
        raw = gen.any_header(rng, level=6)
        for a in range(0, len(body), cut):
            raw += blf.container(body[a:a + cut], deflate=rng.random() < 0.5, zlevel=1)
            raw += bytes(-len(raw) % 8)
    kind = ("whole", "whole", "damaged", "cut", "refused", "empty", "missing", "unsupported")[index % 8]
    if kind == "damaged":
        raw = bytearray(raw)
        for _ in range(rng.randint(1, 5)):
            raw[rng.randrange(len(raw))] = rng.randrange(256)
        raw = bytes(raw)
        ctx.count("damaged")
    elif kind == "cut":
        raw = raw[:rng.randrange(len(raw) + 1)]
        if index // 8 % 4 == 1:  # ends within an object that claims to be large
            size = (1000, 1 << 17, (1 << 20) + 1, (1 << 24) + 8, (1 << 27) + 3, 1 << 30)[index // 32 % 6]
            part = struct.pack("<4sHHLL", b"LOBJ", 16, 1, size, (10, 1, 86, 115)[index // 192 % 4]) + bytes(index // 8 % 100)
            whole = blf.container(items[0].raw + bytes(-len(items[0].raw) % 4) if items else b"", deflate=False)
            raw = blf.file_header(level=0) + whole + bytes(-len(whole) % 8) + part
        ctx.count("damaged")
    elif kind == "refused":
        raw = b"LOGX" + raw[4:]
        ctx.count("refused")
    elif kind == "empty":
        raw = b""
        ctx.count("refused")
    elif kind == "unsupported":
        raw = gen.any_header(rng) + blf.container(b"".join(
            gen.raw_item(rng, 40).raw + bytes(3) for _ in range(20)), deflate=False)
    if kind != "missing":
        with open(path, "wb") as f:
            f.write(raw)
        os.chmod(path, rng.choice((0o444, 0o600, 0o644)))
    early = rng.random() < 0.2
    how = rng.choice((path, os.fsencode(path), "object", "memory"))
    os.chdir(work)
    if rng.random() < 0.2 and how == path:
        how = "log.blf"
    with Window(ctx, rng, f"reading a log ({kind}, {how if how in ('object', 'memory') else 'by path'})", {path: "r"}, work):
        try:
            arg = (open(path, "rb") if how == "object" else io.BytesIO(raw) if how == "memory" else how)
            try:
                with gen.reader_cls()(arg) as r:
                    for k, o in enumerate(r):
                        repr(o)
                        if early and k > 3:
                            break
            finally:
                if how == "object":
                    arg.close()
        except Exception as ex:
            ctx.count("exceptions")
            del ex
        o = r = arg = None
    os.chdir(ctx.tmp)
    ctx.eval(("reading", kind, str(how)[-6:], raw))
    ctx.sample(lambda: {"kind": kind, "how": str(how)[-6:], "bytes": len(raw)})


def writing(ctx, rng, index):
    """A log is written: to new and existing paths, with rejected writes, abandoned by an exception."""
    warm()
    work = ctx.newdir()
    path = os.path.join(work, "log.blf")
    for n in ("log.blf.tmp", "log.blf~", "log.bak", "tmp", "other.blf"):
        with open(os.path.join(work, n), "wb") as f:
            f.write(b"neighbour")
    kind = ("new", "existing", "link", "readonly-dir-entry", "object", "memory", "missing-dir", "bad-buffer")[index % 8]
    if kind in ("existing", "bad-buffer"):
        with open(path, "wb") as f:
            f.write(os.urandom(rng.choice((10, 5000))))
        os.chmod(path, rng.choice((0o600, 0o664, 0o755)))
    mine = {path: "w"}
    if kind == "link":
        real = os.path.join(work, "real.blf")
        with open(real, "wb") as f:
            f.write(b"old")
        os.symlink(real, path)
        mine = {real: "w"}
    items = gen.seq(rng, rng.choice((0, 3, 30)), 80)
    built = [i.build() for i in items]
    if index % 21 == 9:  # long
        built = [i.build() for i in gen.seq(rng, 20, 40)] * rng.choice((60, 200))
    level, bs = gen.gen_level(rng), gen.gen_buffer_size(rng) if len(built) < 100 else rng.choice((1000, 131072))
    bad = rng.random() < 0.5
    rejects = [rng.randrange(len(built) + 1) for _ in range(3)] if bad else []
    wrong = [gen.reject(rng)[1] for _ in rejects] if bad else []
    dies = rng.random() < 0.3
    if kind == "missing-dir":
        path = os.path.join(work, "nowhere", "log.blf")
        mine = {path: "w"}
    if kind == "bad-buffer":
        bs = rng.choice((0, -1))
        mine = {path: "r"}
    os.chdir(work)
    with Window(ctx, rng, f"writing a log ({kind}, level {level}, buffer size {bs})", mine, work):
        try:
            arg = open(path, "wb") if kind == "object" else io.BytesIO() if kind == "memory" else path
            with gen.writer_cls()(arg, level, bs) as w:
                for k, o in enumerate(built):
                    w.write(o)
                    if k in rejects:
                        try:
                            w.write(wrong[rejects.index(k)])
                        except (Exception, KeyboardInterrupt):
                            ctx.count("rejected")
                if dies:
                    raise gen.PackError("the caller fails")
        except Exception:
            ctx.count("exceptions")
        w = arg = o = None
    os.chdir(ctx.tmp)
    ctx.eval(("writing", kind, level, bs, tuple(i.raw for i in items)))


def large(ctx, rng, index):
    """Objects and containers of many megabytes, buffers up to gigabytes: still nothing is put aside or looked up elsewhere."""
    warm()
    work = ctx.newdir()
    path = os.path.join(work, "log.blf")
    size = (1 << 20, 3 << 20, 9 << 20, 20 << 20, 70 << 20)[index % (5 if ctx.thorough else 4)] + rng.randint(0, 99)
    small = [i.build() for i in gen.seq(rng, 4, 40)]
    body = gen._raw_big(rng, size).raw
    obj = gen.vb("general").NotImplementedObject.unpack(body)
    deflate = rng.random() < 0.5
    way = index // 2 % 2
    how = rng.choice(("path", "object", "memory"))
    bs = rng.choice((1 << 17, 1 << 22, 17 << 20, 1 << 25, 1 << 28, 1 << 30, 1 << 34))
    if way == 0:
        objs = b"".join(o.pack() + bytes(-len(o.pack()) % 4) for o in small)
        whole = objs + body + bytes(-len(body) % 4) + objs
        cut = rng.choice((len(whole), len(whole), 5 << 20, 400_000))
        raw = blf.file_header(level=0)
        for a in range(0, len(whole), cut):
            raw += blf.container(whole[a:a + cut], deflate=deflate, zlevel=1)
            raw += bytes(-len(raw) % 8)
        with open(path, "wb") as f:
            f.write(raw)
    os.chdir(work)
    n = 0
    with Window(ctx, rng, f"{'writing' if way else 'reading'} an object of {size} bytes ({how}, "
                f"{f'buffer size {bs}' if way else 'deflated' if deflate else 'stored'})", {path: "w" if way else "r"}, work):
        if way == 0:
            arg = path if how == "path" else open(path, "rb") if how == "object" else io.BytesIO(raw)
            with gen.reader_cls()(arg) as r:
                for o in r:
                    n += 1
            if how == "object":
                arg.close()
        else:
            arg = path if how == "path" else open(path, "wb") if how == "object" else io.BytesIO()
            with gen.writer_cls()(arg, 1 if deflate else 0, bs) as w:
                for o in (*small, obj, *small):
                    w.write(o)
                    n += 1
        o = r = w = arg = None
    os.chdir(ctx.tmp)
    ctx.check(n == 2 * len(small) + 1, f"{n} objects of {2 * len(small) + 1}")
    ctx.count("large")
    ctx.eval(("large", way, size, how, deflate, bs))


def codecs_(ctx, rng, index):
    """Encoding, decoding, factories, file headers, system times."""
    warm()
    import datetime
    work = ctx.newdir()
    os.chdir(work)
    items = [gen.item(rng, 60) for _ in range(10)]
    built = [i.build() for i in items]
    fs = gen.vb("general").FileStatistics
    sy = gen.vb("general").SystemTime
    when = datetime.datetime(rng.randint(1601, 9999), rng.randint(1, 12), rng.randint(1, 28), 3, 4, 5, 6000)
    with Window(ctx, rng, "encoding and decoding", {}, work):
        for it, o in zip(items, built):
            o.pack()
            type(o).unpack(it.raw)
            for bad in (it.raw[:20], it.raw[:-1], b"", it.raw[:40] + b"\xff" * (len(it.raw) - 40)):
                try:
                    type(o).unpack(bad)
                except Exception:
                    ctx.count("rejected")
        s = fs.new()
        fs.unpack(s.pack())
        t = sy.from_datetime(when)
        repr(t)
        for n in ("to_datetime",):
            getattr(t, n)()
        s = t = o = None
    os.chdir(ctx.tmp)
    ctx.eval(("codecs", tuple(i.raw for i in items)))


CHILD = r"""
import sys, os
with open(sys.argv.pop(1)) as f:
    exec(compile(f.read(), "state", "exec"))
more = state
import sys, os, json, builtins, gc, signal, warnings, logging, locale, threading
events = []
def hook(e, a):
    if e == "open":
        p, mode, flags = (list(a) + [None, None])[:3]
        if not isinstance(p, int):
            events.append(["open", os.path.realpath(os.fsdecode(p)), str(mode), flags or 0])
    elif e.startswith(("os.", "socket.", "subprocess.", "shutil.", "tempfile.", "signal.", "urllib.", "fcntl.", "ctypes.", "resource.")) \
            and not e.startswith(("os.listdir", "os.scandir", "os.walk")):
        events.append([e, [str(x)[:80] for x in a]])
os.umask(0o077)
import typing_extensions, struct, dataclasses, datetime, zlib, io, enum, importlib.metadata, contextlib, random, decimal, resource
def settings():
    return repr(dict(gc=(gc.isenabled(), gc.get_threshold()), rec=sys.getrecursionlimit(), sw=sys.getswitchinterval(), cwd=os.getcwd(),
        env=sorted(os.environ.items()), loc=locale.setlocale(locale.LC_ALL), sig=[repr(signal.getsignal(s)) for s in sorted(signal.valid_signals())],
        warn=warnings.filters, root=(logging.getLogger().level, logging.getLogger().handlers, logging.root.manager.disable),
        rnd=hash(random.getstate()), thr=[t.name for t in threading.enumerate()], hooks=(sys.excepthook, sys.displayhook, sys.unraisablehook),
        path=sys.path, bi=sorted(vars(builtins)), op=(builtins.open, builtins.print), dec=repr(decimal.getcontext()),
        um=[os.umask(0o077), os.umask(0o077)][0], nice=os.nice(0),
        lim=[resource.getrlimit(r) for r in range(10)], streams=(id(sys.stdout), id(sys.stderr), id(sys.stdin)))) + repr(more())
settings()
a = settings()
sys.addaudithook(hook)
for n in sys.argv[1:]:
    __import__(n)
ev = list(events)
b = settings()
sys.__stdout__.write(json.dumps(dict(events=ev, before=a, after=b)))
"""


def importing(ctx, rng, index):
    """Importing the package in a fresh interpreter, in some order."""
    mods = [n[:-3] for n in sorted(os.listdir(os.path.join(SRC, "vblf"))) if n.endswith(".py")]
    mods = ["vblf" if n == "__init__" else "vblf." + n for n in mods]
    if index:
        rng.shuffle(mods)
        mods = mods[:rng.randint(1, len(mods))]
    work = ctx.newdir()
    env = {"PATH": os.environ.get("PATH", ""), "PYTHONPATH": SRC, "PYTHONDONTWRITEBYTECODE": "1", "HOME": work}
    what = f"importing {', '.join(mods)}"
    p = idle.run([sys.executable, "-W", "always", "-c", CHILD, procstate.__file__, *mods], what, cwd=work, env=env)
    ctx.check(p.returncode == 0, f"{what}: failed: {p.stderr[-500:]!r}")
    ctx.check(not p.stderr, f"{what}: wrote to standard error: {p.stderr[:300]!r}")
    ctx.check(p.stdout.startswith(b"{"), f"{what}: wrote to standard output: {p.stdout[:200]!r}")
    r = json.loads(p.stdout)
    ctx.check(r["before"] == r["after"], f"{what}: process-wide settings changed", before=r["before"], after=r["after"])
    for e in r["events"]:
        ctx.count("audit_events")
        if e[0] != "open":
            ctx.fail(f"{what}: caused {e}")
        flags = e[3]
        ctx.check(not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC), f"{what}: opened {e[1]} for writing")
        ctx.check(e[1].startswith(PREFIXES), f"{what}: opened {e[1]}")
    ctx.check(not os.listdir(work), f"{what}: left {os.listdir(work)}")
    ctx.count("interpreters")
    ctx.eval(("import", tuple(mods)))


def families(tier):
    t = tier == "thorough"
    return [
        ("importing", 60 if t else 8, importing),
        ("large", 400 if t else 16, large),
        ("reading", 20000 if t else 800, reading),
        ("writing", 20000 if t else 800, writing),
        ("codecs", 6000 if t else 200, codecs_),
    ]
