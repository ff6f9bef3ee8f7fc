"""C24: the work of reading and writing grows in proportion to the log."""

import gc
import io
import time

from .. import blf, gen, model as m
from ..engine import COV
from ..iofiles import RecFile

PROP = "C24"
LEVEL = "exploration"
RULE = ("A case does the same kind of work at one size and at several times that size and compares three meters: executed "
        "lines of vblf (sys.monitoring), operations and bytes moved at the file boundary, and processor time (minimum of "
        "repetitions, only to tell linear from quadratic). Distinct = different (kind of work, parameters); non-trivial = all.")
ASSUMPTIONS = ["objects fit into one container (an object spread over many containers is copied once per container)",
               "allowed growth: 1.5 times proportional for lines, operations and bytes, 4 times proportional for time"]
REQUIRED = {"line_comparisons": 60, "byte_comparisons": 60, "time_comparisons": 20, "long_logs": 10}


class Meter:
    lines = ops = moved = 0


class Metered(RecFile):
    """Counts bytes and operations."""

    def __init__(self, initial=b""):
        super().__init__(initial)
        self.moved = 0

    def write(self, data):
        self.moved += len(data)
        return super().write(data)

    def read(self, size=-1):
        out = super().read(size)
        self.moved += len(out)
        return out

    def readinto(self, b):
        n = super().readinto(b)
        self.moved += n
        return n

    read1 = read


def lines_of(fn):
    COV.start_budget(1 << 60)
    try:
        r = fn()
    finally:
        n = COV.steps
        COV.stop_budget()
    return r, n


def excess(small, big, k, unit, slack=1.5, const=2000):
    """Says what has grown more than k times."""
    return [] if big <= k * slack * small + const else [f"{small} {unit}, {k} times the work: {big} {unit}"]


def compare(ctx, what, k, run):
    """run(size factor) -> file (or None); compares lines, operations and bytes.

    What is read ahead in chunks costs more and more until the log is longer than a chunk: growth is judged
    between three pairs of sizes, and work out of proportion to the size is found between each of them.
    """
    at, small = 1, lines_of(lambda: run(1))
    first = []
    while True:
        big = lines_of(lambda: run(at * k))
        bad = excess(small[1], big[1], k, "lines of vblf executed")
        if big[0] is not None:
            bad += excess(small[0].moved, big[0].moved, k, "bytes moved at the file")
            bad += excess(small[0].nops, big[0].nops, k, "file operations")
        first.append("; ".join(bad))
        if not bad:
            break
        ctx.count("judged_at_larger_sizes")
        ctx.check(at < k * k, f"{what}: {' / '.join(first)}")
        at, small = at * k, big
    ctx.count("line_comparisons")
    ctx.maxi("lines_compared", big[1])
    if big[0] is not None:
        ctx.count("byte_comparisons")


def write(items, level, bs, rejects=0):
    f = Metered()
    w = gen.writer_cls()(f, level, bs)
    for k, o in enumerate(items):
        w.write(o)
        if rejects and k % rejects == 0:
            try:
                w.write(gen.own_object(lambda: b"LOBJ", 40))
            except ValueError:
                pass
    w.close()
    return f


def read(raw, way=0):
    f = Metered(raw)
    n = 0
    r = gen.reader_cls()(f)
    if way == 0:
        for _ in r:
            n += 1
    elif way == 1:
        while r.read_object() is not None:
            n += 1
    elif way == 2:
        while next(iter(r), None) is not None:
            n += 1
    else:
        while (r.read_object() if n % 2 else next(iter(r), None)) is not None:
            n += 1
    f.count = n
    return f


WAYS = ("for", "read_object", "next(iter())", "mixed")


def log(rng, items, deflate, csize, filler=0):
    """An independently built file with containers of about csize payload bytes, never cutting an object."""
    out = bytearray(gen.head(rng, level=6 if deflate else 0))
    cur = bytearray()
    for it in items:
        if cur and len(cur) + len(it.raw) > csize:
            out += blf.container(bytes(cur), deflate=deflate, zlevel=1)
            out += bytes(-len(out) % 8) + bytes(filler)
            cur.clear()
        cur += it.raw + bytes(-len(it.raw) % 4)
    if cur:
        out += blf.container(bytes(cur), deflate=deflate, zlevel=1)
    return bytes(out)


def pool_of(rng):
    if rng.random() < 0.3:
        spec = rng.choice(m.SPECS)
        return [gen.Item(spec, spec.gen(rng, 40)) for _ in range(4)]
    return [gen.item(rng, 60) for _ in range(6)] + [gen.raw_item(rng, 100)]


def writing(ctx, rng, index):
    pool = pool_of(rng)
    built = [i.build() for i in pool]
    level, bs = gen.gen_level(rng), (1 << 20, 131072, 9000, 1000, 200, 50)[index % 6]
    n = rng.choice((200, 600))
    rejects = rng.choice((0, 0, 3))
    compare(ctx, f"writing {n} objects (level {level}, buffer size {bs})", 4,
            lambda k: write(built * (n * k // len(built)), level, bs, rejects))
    ctx.eval(("writing", tuple(i.raw for i in pool), level, bs, n))


def reading(ctx, rng, index):
    pool = pool_of(rng)
    deflate, csize = index % 2 == 1, (1 << 20, 131072, 9000, 1000, 300)[index % 5]
    n = rng.choice((200, 600))
    filler = rng.choice((0, 0, 1, 13, 100))
    way = index // 2 % 4
    compare(ctx, f"reading {n} objects by {WAYS[way]} ({'deflated' if deflate else 'stored'} containers of {csize}, filler of {filler})", 4,
            lambda k: read(log(rng, pool * (n * k // len(pool)), deflate, csize, filler), way))
    ctx.eval(("reading", tuple(i.raw for i in pool), deflate, csize, n, filler, way))


def filling(ctx, rng, index):
    """Filler between objects and between containers."""
    inside = index % 2 == 0
    n = rng.choice((500, 3000))
    byte = bytes([rng.choice((0, 0, 0xFF, 0x20, ord("L")))])
    it = gen.item(rng, 30)

    def run(k):
        pad = byte * (n * k)
        body = it.raw + pad + it.raw
        raw = blf.file_header(level=0) + (blf.container(body, deflate=False) if inside else body)
        f = read(raw)
        ctx.check(f.count == 2, f"{f.count} of 2 objects around {n * k} bytes of filler")
        return f

    compare(ctx, f"{n} bytes of filler {byte.hex()} {'inside' if inside else 'outside'} containers", 4, run)
    ctx.eval(("filling", n, inside, byte, it.raw))


def sizes(ctx, rng, index):
    """Objects with long variable parts: written and read."""
    n = rng.choice((2000, 8000, 15_000))
    seed = rng.random()

    def make(k):
        from random import Random
        r = Random(f"{seed}/{index}")
        return gen.big_item(r, n * k)

    a, b = make(1), make(4)
    level = 0  # deflated sizes depend on the contents
    compare(ctx, f"writing a {a.name} of {n} bytes", 4, lambda k: write([(a if k == 1 else b).build()] * 3, level, 131072))
    compare(ctx, f"reading a {a.name} of {n} bytes", 4,
            lambda k: read(log(rng, [a if k == 1 else b] * 3, level > 0, 131072)))
    ctx.eval(("sizes", a.raw, level))


def spent(fn, reps=3):
    best = None
    for _ in range(reps):
        gc.collect()
        gc.disable()
        try:
            t = time.thread_time()
            fn()
            t = time.thread_time() - t
        finally:
            gc.enable()
        best = t if best is None else min(best, t)
    return best


def timed(ctx, what, k, prepare):
    """prepare(factor) -> function to be timed."""
    a, b = prepare(1), prepare(k)
    tries = []
    for _ in range(4):
        t1 = spent(a)
        t2 = spent(b, 2)
        tries.append((round(t1, 4), round(t2, 4)))
        if t2 <= 4 * k * t1 + 0.02:
            break
    else:
        ctx.fail(f"{what}: {k} times the work took {[round(y / max(x, 1e-6), 1) for x, y in tries]} times as long "
                 f"(processor seconds {tries})")
    ctx.count("time_comparisons")
    ctx.maxi("time_ratio_percent", int(100 * t2 / max(t1, 1e-6) / k))


def time_reading(ctx, rng, index):
    """Many objects in one container; many containers; long filler; long objects."""
    what = ("one container", "many containers", "deflated container", "filler", "outside containers",
            "long objects")[index % 6]
    k = 16
    it = [gen.item(rng, 30) for _ in range(5)]
    if what == "long objects":
        it = [gen.big_item(rng, 4000) for _ in range(3)]
    n = (250, 250, 250, 0, 250, 60)[index % 6] * (2 if ctx.thorough else 1)

    def prepare(f):
        if what == "filler":
            body = it[0].raw + bytes(3000 * f) + it[0].raw
            raw = blf.file_header(level=0) + blf.container(body, deflate=False)
        elif what == "outside containers":
            raw = blf.file_header(level=0) + b"".join(i.raw + bytes(-len(i.raw) % 4) for i in it * (n * f // len(it)))
        else:
            csize = 2000 if what == "many containers" else 1 << 30
            raw = log(rng, it * (n * f // len(it)), what == "deflated container", csize)

        def go():
            for _ in gen.reader_cls()(io.BytesIO(raw)):
                pass

        return go

    timed(ctx, f"reading {what}, {n} objects", k, prepare)
    ctx.eval(("time reading", index, tuple(i.raw for i in it)))


def time_writing(ctx, rng, index):
    what, bs, level = (("few containers", 1 << 22, 0), ("many containers", 300, 0), ("many deflated containers", 2000, 6),
                       ("default", 131072, 0), ("deflated", 131072, 6))[index % 5]
    it = [gen.item(rng, 30).build() for _ in range(5)]
    n = 300 * (2 if ctx.thorough else 1)

    def prepare(f):
        objs = it * (n * f // len(it))

        def go():
            w = gen.writer_cls()(io.BytesIO(), level, bs)
            for o in objs:
                w.write(o)
            w.close()

        return go

    timed(ctx, f"writing {n} objects, {what}", 16, prepare)
    ctx.eval(("time writing", index, tuple(o.pack() for o in it)))


def time_codec(ctx, rng, index):
    """Encoding and decoding objects with long variable parts."""
    seed = f"{rng.random()}"

    def prepare(f):
        from random import Random
        r = Random(seed)
        it = gen.big_item(r, 4000 * f)
        o = it.build()

        def go():
            for _ in range(20):
                o.pack()
                type(o).unpack(it.raw)

        return go

    timed(ctx, "encoding and decoding an object of 4000 bytes", 64, prepare)
    ctx.eval(("time codec", index, seed))


class TooLong(Exception):
    pass


def long_log(ctx, rng, index):
    """Tens of thousands of objects against some hundreds; the long run is broken off when it has taken too long."""
    what = ("written stored", "written deflated", "written, many containers", "read stored", "read deflated", "read, many containers",
            "read by read_object", "read outside containers", "written, some rejected", "read by next(iter())",
            "written, buffered as a whole", "read, one container each")[index % 12]
    it = [gen.item(rng, 20) for _ in range(5)]
    n, k = 500, 64
    if what.startswith("written"):
        built = [i.build() for i in it]
        wrong = gen.own_object(lambda: b"LOBJ", 40)
        level, bs = (0, 131072) if "stored" in what or "rejected" in what else (1, 131072) if "deflated" in what else \
            (index // 12 % 2, 1 << 30) if "whole" in what else (0, 300)

        def prepare(f):
            def go(until):
                w = gen.writer_cls()(io.BytesIO(), level, bs)
                for j in range(n * f):
                    w.write(built[j % 5])
                    if not j % 200:
                        if "rejected" in what:
                            try:
                                w.write(wrong)
                            except ValueError:
                                pass
                        if time.thread_time() > until:
                            raise TooLong
                w.close()
            return go
    else:
        def prepare(f):
            if "outside" in what:
                raw = blf.file_header(level=0) + b"".join(i.raw + bytes(-len(i.raw) % 4) for i in it * (n * f // 5))
            else:
                raw = log(rng, it * (n * f // 5), "deflated" in what, 300 if "many" in what else 1 if "each" in what else 1 << 30)

            def go(until):
                r = gen.reader_cls()(io.BytesIO(raw))
                ask = r.read_object if "read_object" in what else (lambda: next(iter(r), None)) if "next" in what else \
                    iter(r).__next__
                for j in range(n * f):
                    if ask() is None:
                        ctx.fail(f"{j} of {n * f} objects {what}")
                    if not j % 200 and time.thread_time() > until:
                        raise TooLong
            return go
    small, big = prepare(1), prepare(k)
    tries = []
    for _ in range(3):
        t1 = spent(lambda: small(1e9), 5)
        limit = 3 * k * t1 + 0.05
        try:
            t2 = spent(lambda: big(time.thread_time() + limit), 1)
            break
        except TooLong:
            tries.append(round(t1, 5))
    else:
        ctx.fail(f"{n} objects {what} took {tries} processor seconds, {k} times as many more than {3 * k} times as long")
    ctx.count("time_comparisons")
    ctx.count("long_logs")
    ctx.maxi("long_ratio_percent", int(100 * t2 / max(t1, 1e-6) / k))
    ctx.eval(("long", what, tuple(i.raw for i in it)))


def families(tier):
    t = tier == "thorough"
    return [
        ("time_reading", 240 if t else 12, time_reading),
        ("time_writing", 200 if t else 10, time_writing),
        ("time_codec", 240 if t else 12, time_codec),
        ("long_log", 240 if t else 24, long_log),
        ("writing", 1200 if t else 36, writing),
        ("reading", 1200 if t else 40, reading),
        ("filling", 1200 if t else 40, filling),
        ("sizes", 1200 if t else 40, sizes),
    ]
