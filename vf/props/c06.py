"""C06: the file header of a closed log tells the truth."""

import calendar
import io
import os
import time

from .. import blf, gen, model as m
from ..gen import vb
from ..iofiles import NullSink, RecFile

PROP = "C06"
LEVEL = "exploration"
RULE = ("A case records the history of a writer (creation, accepted and rejected writes, closing, with the clock read "
        "around each call), then parses the finished file's header independently and compares every stated value with "
        "the history; the same values are read through BlfReader. Distinct = different (encodings, level, buffer size, "
        "clock setting); non-trivial = at least one object or a checked pair of times.")
ASSUMPTIONS = ["the system clock is not stepped backwards while logging", "stated times are exact to 1 ms (rounding)"]
REQUIRED = {"large_objects": 50, "headers_checked": 1000, "timed_histories": 20, "zones": 10, "virtual_clock_logs": 50,
            "objects_beyond_16_bits": 1, "rewritten_paths": 20}


def ms_of(st):
    y, mo, _dow, d, h, mi, s, ms = st
    return calendar.timegm((y, mo, d, h, mi, s)) * 1000 + ms


def within(ms, lo, hi):
    return lo * 1000 - 1.001 <= ms <= hi * 1000 + 1.001


def verify(ctx, raw, encs, level, start, last, size=None, usize=None, count=None):
    """start, last: (earliest, latest) seconds for the stated times."""
    h = blf.parse_header(raw[:144])
    size = len(raw) if size is None else size
    usize = 144 + sum(encs) if usize is None else usize
    count = len(encs) if count is None else count
    bad = []
    if h["object_count"] != count:
        bad.append(f"object_count {h['object_count']}, written {count}")
    if h["file_size"] != size:
        bad.append(f"file_size {h['file_size']}, real {size}")
    if h["uncompressed_file_size"] != usize:
        bad.append(f"uncompressed_file_size {h['uncompressed_file_size']}, real {usize}")
    if h["compression_level"] != int(level):
        bad.append(f"compression_level {h['compression_level']}, used {int(level)}")
    s, e = h["measurement_start_time"], h["last_object_time"]
    for name, st in (("measurement_start_time", s), ("last_object_time", e)):
        y, mo, dow, d, hh, mi, ss, ms = st
        if not (1 <= mo <= 12 and 1 <= d <= 31 and hh < 24 and mi < 60 and ss < 60 and ms < 1000):
            bad.append(f"{name} {st} is not a time")
    if not bad:
        S, E = ms_of(s), ms_of(e)
        if S > E:
            bad.append(f"measurement start {s} after last object time {e}")
        if not within(S, *start):
            bad.append(f"measurement start {s} is {S - start[0] * 1000:.1f} ms after the earliest and "
                       f"{S - start[1] * 1000:.1f} ms after the latest possible time of creation")
        if not within(E, *last):
            bad.append(f"last object time {e} is {E - last[0] * 1000:.1f} ms after the earliest and "
                       f"{E - last[1] * 1000:.1f} ms after the latest possible time of the last write")
    ctx.no(bad, f"level {int(level)}", header=h)
    ctx.count("headers_checked")
    return h


def same_through_reader(ctx, raw, h):
    r = gen.reader_cls()(io.BytesIO(raw))
    fs = r.file_statistics
    bad = []
    for k in ("object_count", "file_size", "uncompressed_file_size", "compression_level"):
        if int(getattr(fs, k)) != h[k]:
            bad.append(f"reader's {k} {getattr(fs, k)!r}, file has {h[k]}")
    for k in ("measurement_start_time", "last_object_time"):
        st = getattr(fs, k)
        got = (st.year, st.month, st.day_of_week, st.day, st.hour, st.minute, st.second, st.milliseconds)
        if got != h[k]:
            bad.append(f"reader's {k} {got}, file has {h[k]}")
    before = (fs.object_count, fs.file_size, fs.uncompressed_file_size)
    n = sum(1 for _ in r)
    if before != (r.file_statistics.object_count, r.file_statistics.file_size, r.file_statistics.uncompressed_file_size):
        bad.append("file_statistics changed by reading")
    if n != h["object_count"]:
        bad.append(f"{n} objects delivered, header states {h['object_count']}")
    ctx.no(bad, header=h)


def history(ctx, rng, items, level, bs, clock=time.time, pause=None, rejects=False, file=None, now=None):
    """Run a writer and return (raw, sizes, start bracket, last bracket)."""
    f = RecFile() if file is None else file
    c0 = clock()
    w = gen.writer_cls()(f, level, bs)
    c1 = clock()
    last = None
    sizes = []
    for it in items:
        if pause:
            pause("before")
        a = clock()
        w.write(it.build())
        last = (a, clock())
        sizes.append(len(it.raw))
        if rejects and rng.random() < 0.4:
            if pause:
                pause("reject")
            a = clock()
            extra = gen.try_reject(ctx, w, rng)
            if extra:
                last = (a, clock())
                sizes.append(len(extra.raw))
    if rejects:
        if pause:
            pause("reject")
        a = clock()
        extra = gen.try_reject(ctx, w, rng, "own_error")
    if pause:
        pause("close")
    w.close()
    c2 = clock()
    return f, sizes, (c0, c1), last or (c0, c2)


def random(ctx, rng, index):
    items = gen.seq(rng, rng.choice((0, 1, 2, 5, 10, 30)), rng.choice((0, 30, 300)))
    level, bs = rng.randint(0, 9), gen.gen_buffer_size(rng)
    if level in (0, 1, 6, 9) and rng.random() < 0.5:
        level = vb("constants").Compression(level)
    f, sizes, start, last = history(ctx, rng, items, level, bs, rejects=index % 3 == 0)
    raw = f.content()
    h = verify(ctx, raw, sizes, level, start, last)
    same_through_reader(ctx, raw, h)
    ctx.eval((tuple(i.raw for i in items), int(level), bs))
    ctx.sample(lambda: {"objects": [i.name for i in items], "header": h})


def large(ctx, rng, index):
    """Objects of all sizes up to some MiB, around powers of two."""
    items = []
    for _ in range(rng.randint(1, 5)):
        if rng.random() < 0.7:
            items.append(gen.big_item(rng, (1 << rng.randint(8, 20)) + rng.choice((0, 1, -1, rng.randint(-20, 20), rng.randint(0, 1 << 18)))))
        else:
            items.append(gen.item(rng, 60))
    level, bs = gen.gen_level(rng), rng.choice((1000, 4096, 65536, 131072, 1 << 22))
    f, sizes, start, last = history(ctx, rng, items, level, bs)
    raw = f.content()
    h = verify(ctx, raw, sizes, level, start, last)
    same_through_reader(ctx, raw, h)
    ctx.count("large_objects", sum(n >= 1 << 16 for n in sizes))
    ctx.eval(("large", tuple(sizes), int(level), bs))


def timed(ctx, rng, index):
    """Real pauses between creation, writes, rejected writes and closing."""
    pauses = []

    def pause(where):
        t = rng.choice((0, 0.012, 0.025))
        if where in ("close", "reject"):
            t = 0.03
        pauses.append(t)
        time.sleep(t)

    items = gen.seq(rng, rng.choice((0, 1, 3)), 40)
    level, bs = rng.randint(0, 9), rng.choice((1, 50, 131072))
    path = ctx.path()
    f, sizes, start, last = history(ctx, rng, items, level, bs, pause=pause, rejects=index % 2 == 0, file=path)
    with open(path, "rb") as fh:
        raw = fh.read()
    h = verify(ctx, raw, sizes, level, start, last)
    same_through_reader(ctx, raw, h)
    ctx.count("timed_histories")
    ctx.eval(("timed", index, tuple(i.raw for i in items)))


class SlowPath:
    """A path object that takes its time (first use of a network path, say)."""

    def __init__(self, path):
        self.path = path

    def __fspath__(self):
        time.sleep(0.02)
        return self.path


def slow_open(ctx, rng, index):
    items = gen.seq(rng, index % 2, 20)
    path = ctx.path()
    f, sizes, start, last = history(ctx, rng, items, 0, 1000, file=SlowPath(path))
    with open(path, "rb") as fh:
        raw = fh.read()
    verify(ctx, raw, sizes, 0, start, last)
    ctx.count("timed_histories")
    ctx.eval(("slow", index))


ZONES = ["UTC0", "ABC-11", "ABC+9:30", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "XYZ-14", "XYZ+12",
         "NPT-5:45", "AEST-10AEDT,M10.1.0,M4.1.0/3"]


def zones(ctx, rng, index):
    """Local time zones must not show in the header."""
    old = os.environ.get("TZ")
    try:
        os.environ["TZ"] = ZONES[index % len(ZONES)]
        time.tzset()
        items = gen.seq(rng, rng.choice((0, 1, 4)), 20)
        f, sizes, start, last = history(ctx, rng, items, 6, 100)
        raw = f.content()
        h = verify(ctx, raw, sizes, 6, start, last)
        same_through_reader(ctx, raw, h)
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()
    ctx.count("zones")
    ctx.eval(("zone", index % len(ZONES), tuple(i.raw for i in items)))


class VirtualClock:
    """Every clock of the process that can tell the date shows .t while this context is active."""

    def __init__(self, t):
        self.t = t
        self.calls = 0

    def __call__(self):
        self.calls += 1
        return self.t

    def __enter__(self):
        import datetime
        import sys

        real, clk = datetime.datetime, self
        utc = datetime.timezone.utc

        class Now(real):
            @classmethod
            def now(cls, tz=None):
                return real.fromtimestamp(clk(), tz)

            @classmethod
            def utcnow(cls):
                return real.fromtimestamp(clk(), utc).replace(tzinfo=None)

            today = classmethod(lambda cls: cls.now())

        gmtime, localtime, gettime = time.gmtime, time.localtime, time.clock_gettime
        new = {
            "time": self, "time_ns": lambda: round(self() * 1e9),
            "gmtime": lambda s=None: gmtime(self() if s is None else s),
            "localtime": lambda s=None: localtime(self() if s is None else s),
            "clock_gettime": lambda c: self() if c == time.CLOCK_REALTIME else gettime(c),
            "monotonic": self, "perf_counter": self, "monotonic_ns": lambda: round(self() * 1e9),
            "perf_counter_ns": lambda: round(self() * 1e9),
        }
        swaps = {id(getattr(time, n)): f for n, f in new.items()}
        swaps[id(real)] = Now
        self.undo = []

        def put(where, name, value):
            self.undo.append((where, name, getattr(where, name)))
            setattr(where, name, value)

        for n, f in new.items():
            put(time, n, f)
        put(datetime, "datetime", Now)
        for name, mod in list(sys.modules.items()):  # names imported from those modules
            if name == "vblf" or name.startswith("vblf."):
                for k, x in list(vars(mod).items()):
                    if id(x) in swaps:
                        put(mod, k, swaps[id(x)])
        return self

    def __exit__(self, *exc):
        for where, name, value in reversed(self.undo):
            setattr(where, name, value)


def virtual(ctx, rng, index):
    """Clock readings all over the calendar and at the edges of seconds, years and leap days."""
    edges = [0.0, 0.999, 0.9994, 0.9995, 0.99951, 0.9999, 0.99999, 0.0004, 0.0005, 0.0006, 0.5, 0.4995]
    base = rng.choice((0, 951782399, 951868799, 1709164799, 1709251199, 1735689599, 4102444799, 1711846799, 1729987199,
                       rng.randrange(0, 4_102_444_800)))
    clk = VirtualClock(base + rng.choice(edges))

    def pause(where):
        clk.t += rng.choice((0, 0.0001, 0.0004, 0.001, 0.3, 1, 86399, 86400, 31_536_000)) if where != "close" else 3600

    items = gen.seq(rng, rng.choice((0, 1, 2, 6)), 20)
    level = rng.randint(0, 9)
    r0 = time.time()
    with clk:
        f, sizes, start, last = history(ctx, rng, items, level, 100, clock=lambda: clk.t, pause=pause,
                                        rejects=rng.random() < 0.3)
    raw = f.content()
    ctx.count("virtual_clock_logs")
    stated = blf.parse_header(raw)
    for k in ("measurement_start_time", "last_object_time"):
        if abs(ms_of(stated[k]) / 1000 - r0) < 3600 < abs(clk.t - r0):
            # a clock that is not virtual after all: nothing can be said here
            ctx.count("real_clock_logs")
            return
    h = verify(ctx, raw, sizes, level, start, last)
    same_through_reader(ctx, raw, h)
    ctx.eval(("virtual", base, tuple(i.raw for i in items)))


def many(ctx, rng, index):
    """Object counts beyond 16, 20 and 24 bits."""
    n = (70_000, 1_060_000, 66_000, 135_000, 17_000_000)[index]
    it = gen.RawItem(200, m.raw_object(200, b"x" * index))
    o = it.build()
    f = NullSink()
    c0 = time.time()
    w = gen.writer_cls()(f, (0, 1)[index % 2])
    c1 = time.time()
    for _ in range(n - 1):
        w.write(o)
    a = time.time()
    w.write(o)
    b = time.time()
    w.close()
    verify(ctx, bytes(f.head), None, (0, 1)[index % 2], (c0, c1), (a, b), size=f.size, usize=144 + n * len(it.raw), count=n)
    ctx.maxi("objects", n)
    ctx.count("objects_beyond_16_bits")
    ctx.eval(("many", n))


def beyond_4g(ctx, rng, index):
    """Uncompressed and file sizes beyond 32 bits, into a sink that keeps only the beginning."""
    body = bytes(64 * 1024 * 1024 - 16)
    it = gen.RawItem(200, m.raw_object(200, body))
    o = it.build()
    n = 65
    sink = NullSink()
    c0 = time.time()
    w = gen.writer_cls()(sink, 0, 1 << 26)
    c1 = time.time()
    for _ in range(n):
        a = time.time()
        w.write(o)
    b = time.time()
    w.close()
    verify(ctx, bytes(sink.head), None, 0, (c0, c1), (a, b), size=sink.size, usize=144 + n * len(it.raw), count=n)
    ctx.maxi("uncompressed_gib", round(n * len(it.raw) / 2**30, 2))
    ctx.eval(("4g", n))


def overwrite(ctx, rng, index):
    """A log written over an existing longer file."""
    path = ctx.path()
    with open(path, "wb") as f:
        f.write(rng.randbytes(rng.randint(1, 100_000)))
    items = gen.seq(rng, rng.choice((0, 1, 5)), 40)
    level = rng.randint(0, 9)
    _, sizes, start, last = history(ctx, rng, items, level, 200, file=path)
    with open(path, "rb") as f:
        raw = f.read()
    h = verify(ctx, raw, sizes, level, start, last)
    same_through_reader(ctx, raw, h)
    ctx.count("overwritten_files")
    ctx.eval(("over", tuple(i.raw for i in items)))


def same_path(ctx, rng, index):
    """Logs of equal size, time stamp and place one after the other: each reader exposes the header of the present one."""
    path = ctx.path()
    name = path if index % 3 else os.fsencode(path)
    kept = []
    for k in range(6):
        n = rng.randint(1, 8)
        total = 16 * 40
        cut = sorted(rng.sample(range(1, 39), n - 1)) if n > 1 else []
        sizes = [16 * (b - a) for a, b in zip([0] + cut, cut + [40])]
        assert sum(sizes) == total
        items = [gen.RawItem(50, m.raw_object(50, rng.randbytes(x - 16) if x > 16 else b"")) for x in sizes]
        _, sz, start, last = history(ctx, rng, items, 0, 1 << 16, file=name)
        os.utime(path, ns=(10**18, 10**18))
        with open(path, "rb") as f:
            raw = f.read()
        h = verify(ctx, raw, sz, 0, start, last)
        with gen.reader_cls()(name) as r:
            fs = r.file_statistics
            ctx.check(fs.pack() == raw[:144], f"reader of log {k} at the same path exposes {fs}, the file has {h}", file=raw)
            ctx.no(gen.check_items(items, list(r)), f"log {k} at the same path", file=raw)
        kept.append((fs, raw[:144]))
        for j, (a, b) in enumerate(kept):
            ctx.check(a.pack() == b, f"statistics of reader {j} changed when log {k} was written or read")
    ctx.count("rewritten_paths")
    ctx.eval(("same path", raw))


def families(tier):
    t = tier == "thorough"
    return [
        ("beyond_4g", 2 if t else 1, beyond_4g),
        ("many", 5 if t else 2, many),
        ("large", 3000 if t else 160, large),
        ("timed", 800 if t else 80, timed),
        ("slow_open", 40 if t else 8, slow_open),
        ("zones", 900 if t else 90, zones),
        ("virtual", 30000 if t else 1500, virtual),
        ("overwrite", 2000 if t else 100, overwrite),
        ("same_path", 2000 if t else 60, same_path),
        ("random", 60000 if t else 3000, random),
    ]
