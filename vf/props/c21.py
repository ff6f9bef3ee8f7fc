"""C21: logs are read incrementally."""

import gc
import io
import os
import pathlib
import tracemalloc
import weakref

from .. import blf, gen, model as m
from ..iofiles import RecFile

PROP = "C21"
LEVEL = "exploration"
RULE = ("A case reads a log of many containers with an instrumented file: at every delivery the highest position read "
        "so far is compared with the end of the container completing the object plus a fixed allowance; weak references "
        "to delivered objects are watched; logs up to far more than the memory limit are generated on the fly and read "
        "under a traced memory peak. Distinct = different (log, way of reading); non-trivial = the log is longer than "
        "the look-ahead allowance or has at least 10 containers.")
ASSUMPTIONS = ["look-ahead of up to 1 MiB and 64 kept objects counts as bounded",
               "containers and objects are small compared with the log (at most 1 MiB here)"]
REQUIRED = {"deliveries_watched": 20000, "opened": 100, "released_objects": 5000, "virtual_mib_read": 300,
            "logs_over_8_mib": 6, "small_containers": 50000, "distinct_objects": 50000}

AHEAD = 1 << 20
KEPT = 64


def big_log(rng, mib, size, deflate, csize):
    """(raw, items, file offset of the end of the container completing each object)."""
    pool = []
    for _ in range(8):
        n = max(16, int(size * rng.uniform(0.5, 1.5)))
        pool.append(gen.RawItem(rng.choice(m.UNSUPPORTED), m.raw_object(rng.choice(m.UNSUPPORTED), rng.randbytes(n - 16))))
        pool[-1].num = blf.u(pool[-1].raw, 12, 4)
    pool += [gen.item(rng, 60) for _ in range(4)]
    raw = bytearray(gen.any_header(rng, level=6 if deflate else 0, fsize=mib << 20, usize=mib << 20))
    items, ends, pending = [], [], 0
    stream = bytearray()
    total = mib << 20
    while len(raw) < total:
        while len(stream) < csize:
            it = rng.choice(pool)
            items.append(it)
            stream += it.raw + bytes(-len(it.raw) % 4)
        cut = csize
        raw += blf.container(bytes(stream[:cut]), deflate=deflate, zlevel=1)
        del stream[:cut]
        # objects complete so far
        pending += cut
        while len(ends) < len(items) and pos_end(items, ends, len(ends)) <= pending:
            ends.append(len(raw))
        raw += bytes(-len(raw) % 8)
    if stream:
        raw += blf.container(bytes(stream), deflate=deflate, zlevel=1)
        while len(ends) < len(items):
            ends.append(len(raw))
    return bytes(raw), items, ends


_pos = {}


def pos_end(items, ends, k):
    """Stream position where object k ends (computed once per log)."""
    key = id(items)
    st = _pos.get(key)
    if st is None or st[0] is not items:
        _pos.clear()
        st = _pos[key] = [items, 0, -1, 0]
    while st[2] < k:
        st[2] += 1
        n = len(items[st[2]].raw)
        st[3] = st[1] + n
        st[1] = st[3] + -n % 4
    return st[3]


def watch(ctx, raw, items, ends, what, way):
    f = RecFile(raw, max_ops=100_000 + 8 * len(raw))
    r = gen.reader_cls()(f)
    ctx.check(f.high <= 144 + AHEAD, f"{what}: opening the log read up to byte {f.high} of {len(raw)}")
    ctx.count("opened")
    it = iter(r)
    refs = []
    worst = 0
    for k, exp in enumerate(items):
        o = next(it, None) if way == 0 or (way == 2 and k % 2) else r.read_object()
        ctx.check(o is not None, f"{what}: only {k} of {len(items)} objects")
        ahead = f.high - ends[k]
        worst = max(worst, ahead)
        if ahead > AHEAD:
            ctx.fail(f"{what}: object {k}, complete with the container ending at {ends[k]}, was delivered after {f.high} of "
                     f"{len(raw)} bytes had been read")
        if k % 64 == 0 or k > len(items) - 5:
            ctx.no(exp.check(o), f"{what}: object {k}")
        try:
            refs.append(weakref.ref(o))
        except TypeError:
            pass
        del o
        if len(refs) > 4 * KEPT:
            alive = sum(x() is not None for x in refs[:-KEPT])
            if alive:
                gc.collect()
                alive = sum(x() is not None for x in refs[:-KEPT])
            ctx.check(alive <= KEPT, f"{what}: {alive} of {len(refs) - KEPT} delivered objects are still kept at object {k}")
            ctx.count("released_objects", len(refs) - KEPT - alive)
            refs = [x for x in refs if x() is not None]
    ctx.check(r.read_object() is None, f"{what}: more objects than written")
    ctx.count("deliveries_watched", len(items))
    ctx.maxi("bytes_read_ahead", worst)
    ctx.eval((hash(raw), way), len(raw) > AHEAD)


def large(ctx, rng, index):
    """Logs beyond 8 MiB, stored and deflated (random payloads), different container and object sizes."""
    size, csize = ((300, 4096), (2000, 131072), (20000, 65536), (100_000, 10_000), (500, 1 << 19), (6000, 1000),
                   (150, 131072), (131072, 131072))[index % 8]
    deflate = index // 8 % 2 == 1 if ctx.thorough else index % 2 == 1
    raw, items, ends = big_log(rng, 9, size, deflate, csize)
    watch(ctx, raw, items, ends, f"log of {len(raw)} bytes, containers of {csize}, {'deflated' if deflate else 'stored'}", rng.randrange(3))
    if len(raw) > 8 << 20:
        ctx.count("logs_over_8_mib")
    ctx.sample(lambda: {"bytes": len(raw), "objects": len(items), "container": csize, "deflated": deflate})


def by_writer(ctx, rng, index):
    """Logs as the real writer makes them."""
    pool = gen.seq(rng, 30, 200)
    items = []
    n = 0
    while n < (3 << 20):
        it = rng.choice(pool)
        items.append(it)
        n += len(it.raw)
    level, bs = gen.gen_level(rng), rng.choice((1000, 8192, 128 * 1024))
    raw = gen.write_log(items, level, bs).content()
    cs = blf.parse_containers(raw)
    bounds, _ = blf.locate(b"".join(c.payload for c in cs), [i.raw for i in items])
    ends, tot, k = [], 0, 0
    for c in cs:
        tot += len(c.payload)
        while k < len(bounds) and bounds[k] <= tot:
            ends.append(c.end)
            k += 1
    watch(ctx, raw, items, ends, f"written log of {len(raw)} bytes (level {level}, buffer {bs})", rng.randrange(3))


def opening(ctx, rng, index):
    """Opening reads only the beginning, whatever follows."""
    count = gen.COUNTS[index % len(gen.COUNTS)]
    size = gen.SIZES[index // len(gen.COUNTS) % len(gen.SIZES)]
    f = RecFile(blf.file_header(level=index % 10, count=count, fsize=size, usize=size) + rng.randbytes(64) * (1 << 15), max_ops=10_000)
    gen.reader_cls()(f)
    ctx.check(f.high <= 144 + AHEAD, f"opening a log said to hold {count} objects in {size} bytes read up to byte {f.high}")
    ctx.count("opened")
    ctx.eval(("open", index))


def fd_position(path):
    """Highest position of this process' descriptors open on path (None if there is none)."""
    best = None
    for fd in os.listdir("/proc/self/fd"):
        try:
            if os.readlink(f"/proc/self/fd/{fd}") != path:
                continue
            with open(f"/proc/self/fdinfo/{fd}") as g:
                p = int(g.readline().split()[1])
        except (OSError, ValueError, IndexError):
            continue
        best = p if best is None else max(best, p)
    return best


def bytes_read():
    """Bytes this process has taken in by read calls (None if the system does not tell)."""
    try:
        with open("/proc/self/io") as g:
            return int(g.readline().split()[1])
    except (OSError, ValueError, IndexError):
        return None


def on_disk(ctx, rng, index):
    """Logs opened by path: the descriptor's position, the bytes read and the memory taken are watched."""
    raw, items, ends = big_log(rng, 16, rng.choice((2000, 20000)), index % 2 == 1, rng.choice((4096, 131072)))
    path = os.path.realpath(ctx.path())
    with open(path, "wb") as f:
        f.write(raw)
    h, size = hash(raw), len(raw)
    del raw
    arg = (path, os.fsencode(path), pathlib.Path(path), None)[index % 4]
    opened = None
    if arg is None:
        arg = opened = open(path, "rb")
    gc.collect()
    tracemalloc.start(1)
    try:
        base = tracemalloc.get_traced_memory()[0]
        n0 = bytes_read()
        with gen.reader_cls()(arg) as r:
            n1 = bytes_read()
            if n0 is not None and n1 is not None:
                ctx.check(n1 - n0 <= 4096 + 2 * AHEAD, f"opening a file of {size} bytes read {n1 - n0} bytes")
                ctx.count("openings_metered")
            peak = tracemalloc.get_traced_memory()[1] - base
            ctx.check(peak <= 3 * AHEAD, f"opening a file of {size} bytes took {peak} bytes of memory")
            p = fd_position(path)
            if p is not None:
                ctx.check(p <= 144 + AHEAD, f"opening a file of {size} bytes moved its descriptor to {p}")
                ctx.count("descriptor_positions")
            for k in range(len(items)):
                o = r.read_object()
                ctx.check(o is not None, f"only {k} of {len(items)} objects")
                if k % 20 == 0:
                    p = fd_position(path)
                    if p is not None:
                        ctx.check(p <= ends[k] + AHEAD, f"object {k}, complete at {ends[k]}, delivered with the descriptor at {p} of {size}")
                        ctx.count("descriptor_positions")
                    ctx.no(items[k].check(o), f"object {k}")
                    peak = tracemalloc.get_traced_memory()[1] - base
                    ctx.check(peak <= 10 << 20, f"reading took {peak} bytes of memory for a file of {size} bytes (object {k})")
            ctx.check(r.read_object() is None, "more objects than written")
    finally:
        tracemalloc.stop()
        if opened is not None:
            opened.close()
    os.unlink(path)
    ctx.maxi("disk_peak_kib", peak >> 10)
    ctx.count("opened")
    ctx.count("logs_over_8_mib")
    ctx.count("deliveries_watched", len(items))
    ctx.eval((h, "disk", index % 4))


class VirtualLog(io.RawIOBase):
    """header, then `n` copies of `unit`; nothing is stored."""

    def __init__(self, head, unit, n):
        self.head, self.unit, self.n = head, unit, n
        self.size = len(head) + n * len(unit)
        self.pos = 0
        self.high = 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        self.pos = max(0, pos if whence == 0 else self.pos + pos if whence == 1 else self.size + pos)
        return self.pos

    def read(self, k=-1):
        if k is None or k < 0:
            k = self.size - self.pos
        k = max(0, min(k, self.size - self.pos))
        if not k:
            return b""
        a, h, u = self.pos, len(self.head), len(self.unit)
        self.pos += k
        self.high = max(self.high, self.pos)
        out = []
        while k:
            if a < h:
                part = self.head[a:a + k]
            else:
                i = (a - h) % u
                part = self.unit[i:i + k]
            out.append(part)
            a += len(part)
            k -= len(part)
        return out[0] if len(out) == 1 else b"".join(out)

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


def virtual(ctx, rng, index):
    """Logs generated on the fly, far larger than the traced memory peak allowed."""
    deflate = index % 2 == 1
    size = (60_000, 3_000)[index // 2 % 2]
    mib = (100, 40)[index // 2 % 2] if not ctx.thorough else (5000, 400)[index // 2 % 2]
    it = [gen.RawItem(85, m.raw_object(85, rng.randbytes(size - 16))) for _ in range(max(1, 120_000 // size))]
    it.append(gen.item(rng, 50))
    stream = b"".join(i.raw + bytes(-len(i.raw) % 4) for i in it)
    cut = rng.choice((len(stream), len(stream) // 2, len(stream) // 3 + 7))
    unit = b""
    for a in range(0, len(stream), cut):
        unit += blf.container(stream[a:a + cut], deflate=deflate, zlevel=1)
        unit += bytes(-len(unit) % 8)
    n = (mib << 20) // len(unit)
    f = VirtualLog(gen.any_header(rng, level=6 if deflate else 0, count=n * len(it), fsize=144 + n * len(unit),
                                  usize=144 + n * len(stream)), unit, n)
    gc.collect()
    tracemalloc.start(1)
    try:
        base = tracemalloc.get_traced_memory()[0]
        r = gen.reader_cls()(f)
        ctx.check(f.high <= 144 + AHEAD, f"opening read up to byte {f.high} of {f.size}")
        count = 0
        limit = 24 << 20
        for o in r:
            if count % 97 == 0 or count < 5:
                ctx.no(it[count % len(it)].check(o), f"object {count} of a log of {f.size} bytes")
            count += 1
            if count % 500 == 0:
                peak = tracemalloc.get_traced_memory()[1] - base
                ctx.check(peak <= limit, f"reading took {peak} bytes of memory after {f.high} of {f.size} bytes of the log "
                          f"({count} objects, {'deflated' if deflate else 'stored'})")
        peak = tracemalloc.get_traced_memory()[1] - base
    finally:
        tracemalloc.stop()
    ctx.check(count == n * len(it), f"{count} objects of {n * len(it)} from a log of {f.size} bytes")
    ctx.check(peak <= limit, f"reading took {peak} bytes of memory for a log of {f.size} bytes")
    ctx.count("virtual_mib_read", f.size >> 20)
    ctx.maxi("traced_peak_kib", peak >> 10)
    ctx.eval(("virtual", index, f.size))


def small_containers(ctx, rng, index):
    """Thousands of small containers: what reading them leaves in memory does not grow with their number."""
    csize = (1000, 200, 3000, 500, 60, 1500)[index % 6]
    deflate = index % 2 == 1
    n = 3000 if csize > 500 else 8000
    it = [gen.RawItem(85, m.raw_object(85, rng.randbytes(max(16, csize // 3) - 16))) for _ in range(3)]
    if index % 3 == 2:
        it = [gen.item(rng, 40) for _ in range(5)]
    stream = b"".join(i.raw + bytes(-len(i.raw) % 4) for i in it)
    unit = b""
    for a in range(0, len(stream), csize):
        unit += blf.container(stream[a:a + csize], deflate=deflate, zlevel=1)
        unit += bytes(-len(unit) % 8)
    f = VirtualLog(gen.any_header(rng, level=6 if deflate else 0, count=n * len(it), fsize=144 + n * len(unit),
                                  usize=144 + n * len(stream)), unit, n)
    way = index % 4
    gc.collect()
    tracemalloc.start(1)
    try:
        r = gen.reader_cls()(f)
        its = iter(r)
        marks, peaks = [], []
        total = n * len(it)
        stops = (total // 10, total // 2, total - 1)
        for k in range(total):
            o = next(its, None) if way == 0 else r.read_object() if way == 1 else next(iter(r), None) if way == 2 else \
                (r.read_object() if k % 3 else next(its, None))
            ctx.check(o is not None, f"{k} of {total} objects")
            if k % 499 == 0:
                ctx.no(it[k % len(it)].check(o), f"object {k}")
            if k in stops:
                del o
                gc.collect()
                marks.append(tracemalloc.get_traced_memory()[0])
                peaks.append(tracemalloc.get_traced_memory()[1])
                tracemalloc.reset_peak()
    finally:
        tracemalloc.stop()
    grown = marks[2] - marks[0]
    ctx.check(grown <= 128 << 10, f"reading {n} times {len(unit)} bytes of containers of {csize} bytes: {marks} bytes of memory held at 10 %, 50 %, "
              "100 % of the log")
    ctx.check(peaks[2] <= peaks[0] + (512 << 10), f"containers of {csize} bytes: memory peaks {peaks} until 10 %, 50 %, 100 % of the log")
    ctx.maxi("held_growth_bytes", max(0, grown))
    ctx.count("small_containers", n)
    ctx.eval(("small", unit, way))


def le(n, size):
    return n.to_bytes(size, "little")


def one_of_a_kind(rng, kind, i):
    """An object that differs from all others in its header and contents (flags excepted: enum keeps their values itself)."""
    n = (i * 2654435761) & 0xFFFFFFFF
    stamp = (i << 20) + 12345
    if kind == 0:
        return m.raw_object(1000 + i, n.to_bytes(4, "little") * 5)
    if kind == 1:  # CAN_MESSAGE
        body = bytes((1, 0, 0, 8)) + n.to_bytes(4, "little") + stamp.to_bytes(8, "little")
        num = 1
    elif kind == 2:  # EVENT_COMMENT
        text = b"comment %d" % n
        body = n.to_bytes(4, "little") + len(text).to_bytes(4, "little") + bytes(8) + text
        num = 92
    elif kind == 3:  # SYS_VARIABLE
        name, data = b"name%d" % n, b"%d" % stamp
        body = bytes((1, 0, 0, 0)) + n.to_bytes(4, "little") + bytes(8) + len(name).to_bytes(4, "little") + \
            len(data).to_bytes(4, "little") + bytes(8) + name + data
        num = 72
    elif kind == 4:  # ETHERNET_FRAME_EX
        data = rng.randbytes(40)
        body = bytes(22) + len(data).to_bytes(2, "little") + n.to_bytes(4, "little") + bytes(4) + data
        num = 120
    else:  # REALTIMECLOCK
        body = stamp.to_bytes(8, "little") + n.to_bytes(8, "little")
        num = 51
    return (b"LOBJ" + le(32, 2) + le(1, 2) + le(32 + len(body), 4) + le(num, 4) + le(1, 4) + le(i & 0xFFFF, 2)
            + le(n & 0xFFFF, 2) + le(stamp, 8) + body)


def distinct(ctx, rng, index):
    """No two objects alike: what reading leaves in memory does not grow with the number of different ones."""
    kind = index % 6
    deflate = index % 4 == 1
    total = 8000 if not ctx.thorough else 40_000
    raws = [one_of_a_kind(rng, kind, i) for i in range(total)]
    csize = rng.choice((400, 5000, 131072))
    raw = bytearray(gen.any_header(rng, level=6 if deflate else 0, count=total))
    cur = bytearray()
    for r in raws:
        cur += r + bytes(-len(r) % 4)
        if len(cur) >= csize:
            raw += blf.container(bytes(cur), deflate=deflate, zlevel=1)
            raw += bytes(-len(raw) % 8)
            cur.clear()
    raw += blf.container(bytes(cur), deflate=deflate, zlevel=1)
    f = RecFile(bytes(raw), max_ops=100_000 + 8 * len(raw))
    stops = (total // 10, total // 2, total - 1)
    marks = []
    gc.collect()
    tracemalloc.start(1)
    try:
        rd = gen.reader_cls()(f)
        for k in range(total):
            o = rd.read_object()
            ctx.check(o is not None, f"{k} of {total} objects")
            if k % 397 == 0:
                ctx.check(o.pack() == raws[k], f"object {k} of {total} different ones: {o.pack().hex()}, stored {raws[k].hex()}")
            if k in stops:
                del o
                gc.collect()
                marks.append(tracemalloc.get_traced_memory()[0])
    finally:
        tracemalloc.stop()
    # the container being read is in memory
    grown = min(marks[1] - marks[0], marks[2] - marks[1])
    allowed = (total * 2 // 5) * 20 + (96 << 10)
    ctx.check(marks[2] - marks[0] <= allowed or grown <= 64 << 10,
              f"reading {total} objects of type {blf.u(raws[0], 12, 4)}, no two alike: {marks} bytes of memory held at 10 %, 50 %, 100 % of the log")
    ctx.maxi("held_by_distinct_bytes", max(0, marks[2] - marks[0]))
    ctx.count("distinct_objects", total)
    ctx.eval(("distinct", index, hash(bytes(raw))))


def families(tier):
    t = tier == "thorough"
    return [
        ("virtual", 24 if t else 8, virtual),
        ("large", 160 if t else 16, large),
        ("small_containers", 200 if t else 24, small_containers),
        ("distinct", 72 if t else 18, distinct),
        ("on_disk", 40 if t else 8, on_disk),
        ("by_writer", 120 if t else 8, by_writer),
        ("opening", 1000 if t else 240, opening),
    ]
