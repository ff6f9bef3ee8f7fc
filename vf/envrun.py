"""A fixed script of library use, run in interpreters of all kinds (C26): prints what was observed as JSON lines."""

import datetime
import hashlib
import io
import json
import os
import sys
from random import Random


def digest(x):
    return hashlib.blake2b(repr(x).encode("utf-8", "surrogatepass"), digest_size=12).hexdigest()


def script(seed, tmp, emit):
    from . import blf, gen, model as m
    from .props.c03 import snap

    rng = Random(f"env/{seed}")

    # codecs
    items = []
    for spec in m.SPECS:
        for _ in range(3):
            items.append(gen.Item(spec, spec.gen(rng, 40)))
    items += [gen.raw_item(rng, 50) for _ in range(10)]
    for k, it in enumerate(items):
        o = it.build()
        p = o.pack()
        if p != it.raw:
            raise SystemExit(f"{it.name}: encodes to {p.hex()}, layout is {it.raw.hex()}")
        d = type(o).unpack(it.raw)
        bad = it.check(d)
        if bad:
            raise SystemExit(f"{it.name}: decoded: {bad[:3]}")
        emit("codec", k, it.name, digest(p), digest(snap(d)))

    # relative paths mean what they mean when they are used
    try:
        home = os.getcwd()
    except FileNotFoundError:
        home = os.path.join(tmp, "removed again")
    for k, d in enumerate(("", "sub", os.path.join("sub", "deeper"))):
        d = os.path.join(tmp, d)
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        part = items[k:k + 5]
        name = ("rel.blf", os.path.join(".", "rel.blf"), os.path.join(os.pardir, "rel2.blf"))[k]
        gen.write_log(part, k, 100, file=name)
        full = os.path.normpath(os.path.join(d, name))
        if not os.path.exists(full):
            raise SystemExit(f"log written to {name} in {d} is not there")
        raw = open_read(full)
        with gen.reader_cls()(name) as r:
            bad = gen.check_items(part, list(r))
        if bad:
            raise SystemExit(f"log written to {name} in {d}: {bad}")
        emit("relative", k, len(raw), sorted(os.listdir(d)))
        os.unlink(full)
        try:
            gen.reader_cls()(name)
            got = "read"
        except OSError as ex:
            got = type(ex).__name__
        emit("gone", k, got)
        if not os.path.isdir(home):
            os.mkdir(home)
            os.chdir(home)
            os.rmdir(home)
        else:
            os.chdir(home)

    # logs
    for k in range(12):
        part = [rng.choice(items) for _ in range(rng.choice((0, 1, 8, 30)))]
        level, bs = rng.randint(0, 9), rng.choice((20, 100, 1000, 131072))
        if k % 2:
            path = os.path.join(tmp, f"{k}.blf")
            gen.write_log(part, level, bs, file=path)
            with open(path, "rb") as f:
                raw = f.read()
            with gen.reader_cls()(path) as r:
                objs = list(r)
            os.unlink(path)
        else:
            raw = gen.write_log(part, level, bs).content()
            objs = gen.read_log(raw)
        bad = gen.check_items(part, objs)
        if bad:
            raise SystemExit(f"log {k}: {bad}")
        h = bytearray(raw)
        h[40:72] = bytes(32)
        emit("log", k, len(raw), digest(bytes(h)))
        start = sy(raw[40:56])
        last = sy(raw[56:72])
        now = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
        for t in (start, last):
            if not abs((now - t).total_seconds()) < 120:
                raise SystemExit(f"log {k}: times {start}, {last} in the header, it is {now} UTC")
        raw, _ = gen.package(rng, part)
        bad = gen.check_items(part, gen.read_log(raw))
        if bad:
            raise SystemExit(f"packaged log {k}: {bad}")

    # long filler, many objects, many containers, objects over many containers
    it = items[rng.randrange(len(items))]
    for k, n in enumerate((300, 1200, 5000)):
        gap = (bytes(n), b"\xff" * n, b"LOB" * (n // 3))[k]
        for where in range(2):
            body = it.raw + gap + it.raw
            raw = blf.file_header() + (blf.container(body, deflate=False) if where else body)
            objs = gen.read_log(raw)
            emit("filler", n, where, len(objs), digest([snap(o) for o in objs]))
            if len(objs) != 2:
                raise SystemExit(f"{len(objs)} of 2 objects around {n} bytes of filler")
    for n, bs in ((1500, 131072), (1500, 40), (3, 10)):
        part = [rng.choice(items[:50]) for _ in range(n)]
        raw = gen.write_log(part, 1, bs).content()
        objs = gen.read_log(raw)
        if [bytes(o.pack()) for o in objs] != [i.raw for i in part]:
            raise SystemExit(f"log of {n} objects (buffer size {bs}) reads back as {len(objs)} objects, or differently")
        r = gen.reader_cls()(io.BytesIO(raw))
        count = 0
        while r.read_object() is not None:
            count += 1
        emit("long", n, bs, count)

    # rejected objects and refused files
    for k, kind in enumerate(gen.REJECTS * 2):
        f = io.BytesIO()
        w = gen.writer_cls()(f, 0, 100)
        keep = items[k]
        w.write(keep.build())
        try:
            w.write(gen.reject(rng, kind)[1])
            got = "accepted"
        except (Exception, KeyboardInterrupt) as ex:
            got = type(ex).__name__
        w.write(keep.build())
        f.close = lambda: None
        w.close()
        emit("reject", k, kind, got, len(gen.read_log(f.getvalue())))
    for k in range(20):
        raw = bytearray(blf.file_header() + blf.container(items[k].raw, deflate=k % 2 == 1))
        if k < 6:
            raw = raw[:rng.choice((0, 3, 4, 100, 143))]
        elif k < 10:
            raw[rng.randrange(4)] ^= 1
        else:
            for _ in range(3):
                raw[rng.randrange(144, len(raw))] = rng.randrange(256)
        try:
            out = digest([snap(o) for o in gen.read_log(bytes(raw))])
        except Exception as ex:
            out = type(ex).__name__
        emit("refused", k, out)

    # system times: of naive values, and of aware ones in UTC
    st = gen.vb("general").SystemTime
    for k in range(300):
        t = datetime.datetime(rng.randint(1970, 2037), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24),
                              rng.randrange(60), rng.randrange(60), rng.randrange(1000) * 1000)
        s = st.from_datetime(t)
        u = st.from_datetime(t.replace(tzinfo=datetime.timezone.utc))
        emit("time", k, repr(t), digest(snap(s)), digest(snap(u)), repr(s.to_datetime()))

    # factories and file headers
    from .props import c18
    for name in c18.CAN:
        spec = m.SPEC_BY_NAME[name]
        for n in (0, 1, 8, c18.CAN[name]):
            v, data = c18.can_values(rng, spec, n)
            o = c18.can_object(spec, v, data, n % 3)
            emit("factory", name, n, digest(o.pack()), digest(snap(o)))
    fs = gen.vb("general").FileStatistics
    for k in range(20):
        raw = bytearray(blf.file_header(app=k % 10, level=k % 10, count=rng.getrandbits(32), usize=rng.getrandbits(64)))
        emit("header", k, digest(snap(fs.unpack(bytes(raw)))), digest(fs.unpack(bytes(raw)).pack()))


def open_read(path):
    with open(path, "rb") as f:
        return f.read()


def sy(b):
    y, mo, _, d, h, mi, s, ms = (int.from_bytes(b[i:i + 2], "little") for i in range(0, 16, 2))
    return datetime.datetime(y, mo, d, h, mi, s, ms * 1000)


def main(seed, tmp, out, mode):
    lines = []

    def emit(*a):
        lines.append(list(a))

    def go():
        script(seed, tmp, emit)

    failed = []
    if mode == "record":
        record(os.environ)
        if hasattr(os, "environb"):
            record(os.environb)

    def guarded():
        try:
            go()
        except BaseException as ex:
            import traceback
            failed.append(traceback.format_exc()[-3000:] if not isinstance(ex, SystemExit) else str(ex))

    if mode == "thread":
        import threading
        t = threading.Thread(target=guarded)
        t.start()
        t.join()
    elif mode == "fork":
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            guarded()
            report(out, lines, failed)
            os._exit(0)
        os.waitpid(pid, 0)
        return
    elif mode == "asyncio":
        import asyncio

        async def co():
            guarded()
        asyncio.run(co())
    elif mode == "atexit":
        import atexit
        from . import gen  # noqa: F401

        def late():
            guarded()
            report(out, lines, failed)
        atexit.register(late)
        return
    elif mode == "gc":
        import gc
        gc.set_threshold(7)
        guarded()
    elif mode == "nogc":
        import gc
        gc.disable()
        guarded()
    elif mode == "trace":
        seen = set()

        def tr(frame, event, arg):
            seen.add((frame.f_code.co_filename, frame.f_lineno))
            return tr
        sys.settrace(tr)
        guarded()
        sys.settrace(None)
    elif mode == "recursion":
        from . import gen  # noqa: F401
        import sys as _s
        _s.setrecursionlimit(200)
        guarded()
    elif mode == "locale":
        import locale
        locale.setlocale(locale.LC_ALL, "")
        guarded()
    elif mode == "decimal":
        import decimal
        decimal.getcontext().prec = 3
        import random
        random.seed(0)
        guarded()
    elif mode == "nocwd":
        d = os.path.join(tmp, "removed")
        os.mkdir(d)
        os.chdir(d)
        os.rmdir(d)
        guarded()
    elif mode == "onecpu":
        os.sched_setaffinity(0, {min(os.sched_getaffinity(0))})
        guarded()
    elif mode == "fewfds":
        import resource
        resource.setrlimit(resource.RLIMIT_NOFILE, (24, 24))
        guarded()
    elif mode == "umask":
        os.umask(0o177)
        make = os.makedirs

        def passable(d, **kw):
            old = os.umask(0o77)
            make(d, **kw)
            os.umask(old)
        os.makedirs = passable
        guarded()
    elif mode == "signals":
        import signal
        signal.signal(signal.SIGALRM, lambda *a: None)
        signal.setitimer(signal.ITIMER_REAL, 0.0003, 0.0003)
        guarded()
        signal.setitimer(signal.ITIMER_REAL, 0, 0)
    elif mode == "deep":
        def down(n):
            return guarded() if n == 0 else down(n - 1)
        down(700)
    elif mode == "generator":
        def g():
            yield guarded()
        for _ in g():
            pass
    elif mode == "memory":
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (1 << 30, 1 << 30))
        guarded()
    elif mode == "logging":
        import logging
        logging.basicConfig(level=1, stream=open(os.devnull, "w"))
        guarded()
    elif mode == "lowfds":
        for fd in (0, 1, 2):
            try:
                os.close(fd)
            except OSError:
                pass
        guarded()
    elif mode == "clock":
        # a machine whose clock shows a time long ago or far ahead is no reason to fail
        import time
        os.environ["TZ"] = "XYZ-13:30"
        time.tzset()
        guarded()
    else:
        guarded()
    report(out, lines, failed)


READ = set()  # environment variables the library looked up


def record(environ):
    """Remember the variables looked up by the library itself."""
    cls = type(environ)
    pkg = os.sep + "vblf" + os.sep

    def note(key):
        f = sys._getframe(2)
        while f and (f.f_globals.get("__name__") in ("os", "_collections_abc", "collections.abc") or f.f_code.co_filename.startswith("<")):
            f = f.f_back
        if f and pkg in f.f_code.co_filename:
            READ.add(key.decode("utf-8", "replace") if isinstance(key, bytes) else str(key))

    class Recording(cls):
        def __getitem__(self, key):
            note(key)
            return super().__getitem__(key)

        def __contains__(self, key):
            note(key)
            return super().__contains__(key)

        def get(self, key, default=None):
            note(key)
            return super().get(key, default)

        def pop(self, key, *d):
            note(key)
            return super().pop(key, *d)

        def setdefault(self, key, value):
            note(key)
            return super().setdefault(key, value)

        def __delitem__(self, key):
            note(key)
            return super().__delitem__(key)

    environ.__class__ = Recording


def report(out, lines, failed):
    with open(out, "w", encoding="utf-8") as f:
        json.dump({"lines": lines, "failed": failed, "read": sorted(READ)}, f)


if __name__ == "__main__":
    main(int(sys.argv[1]), sys.argv[2], sys.argv[3], sys.argv[4])
