"""C22: logs are written incrementally, in bounded memory, and only grow."""

import gc
import os
import tracemalloc
import weakref

from .. import blf, gen, model as m
from ..iofiles import NullSink, RecFile
from .c03 import set_path

PROP = "C22"
LEVEL = "exploration"
RULE = ("A case drives a writer and watches its file operation by operation: bytes of containers that were complete when "
        "a call began may never be overwritten with other contents or cut off, before, during or after closing; written "
        "objects are watched by weak references; traced memory after n and after 4n objects is compared and its peak "
        "bounded. Distinct = different (encodings, level, buffer size); non-trivial = containers were emitted before "
        "closing or memory was compared.")
ASSUMPTIONS = ["the file itself works (faults: C14)", "up to 64 kept objects and 96 KiB of growth count as bounded",
               "the first 144 bytes (file header) may be rewritten at any time"]
REQUIRED = {"writes_watched": 5000, "operations_watched": 10000, "containers_committed": 3000, "released_objects": 5000,
            "memory_comparisons": 8, "objects_under_memory_watch": 100_000, "followed_files": 40}

KEPT = 64
GROWTH = 96 << 10


def committed(raw, start=144):
    """End of the last complete container at or behind `start` (which is the end of an earlier one)."""
    pos = start
    while True:
        a = pos + -pos % 8
        if raw[a:a + 4] != b"LOBJ" or len(raw) < a + 16:
            return pos
        n = int.from_bytes(raw[a + 8:a + 12], "little")
        if n < 32 or len(raw) < a + n:
            return pos
        pos = a + n


class Follow:
    """Applies the recorded operations one by one and watches the committed part."""

    def __init__(self, ctx, f, what):
        self.ctx, self.f, self.what = ctx, f, what
        self.buf = bytearray()
        self.done = 0
        self.end = 144
        self.containers = 0

    def step(self, call):
        ops = self.f.ops
        while self.done < len(ops):
            name, pos, data = ops[self.done]
            self.done += 1
            if name == "write":
                a, b = max(pos, 144), min(pos + len(data), self.end)
                if a < b and bytes(self.buf[a:b]) != data[a - pos:b - pos]:
                    self.ctx.fail(f"{self.what}: {call} overwrote bytes {a}..{b} of the file, in containers that were complete "
                                  f"up to {self.end}")
                if len(self.buf) < pos:
                    self.buf.extend(bytes(pos - len(self.buf)))
                self.buf[pos:pos + len(data)] = data
            else:
                self.ctx.check(pos >= self.end or len(self.buf) <= pos,
                               f"{self.what}: {call} cut the file to {pos} bytes, containers were complete up to {self.end}")
                del self.buf[pos:]
                if len(self.buf) < pos:
                    self.buf.extend(bytes(pos - len(self.buf)))
            self.ctx.count("operations_watched")
        new = committed(self.buf, self.end)
        if new != self.end:
            self.ctx.count("containers_committed")
        self.end = new


def watch(ctx, rng, items, level, bs, what, rejects=0.0):
    f = RecFile(keep_data=True, max_ops=100_000 + 50 * sum(len(i.raw) for i in items))
    w = gen.writer_cls()(f, level, bs)
    fo = Follow(ctx, f, what)
    fo.step("the constructor")
    early = 0
    encs = []
    for k, it in enumerate(items):
        if rejects and rng.random() < rejects:
            extra = gen.try_reject(ctx, w, rng)
            if extra is not None:
                encs.append(extra.raw)
            fo.step(f"rejected write before object {k}")
        w.write(it.build())
        encs.append(it.raw)
        fo.step(f"write of object {k}")
        ctx.count("writes_watched")
    early = fo.end
    w.close()
    before = bytes(fo.buf)
    fo.step("close()")
    raw = f.content()
    ctx.check(bytes(fo.buf) == raw, f"{what}: operations recorded do not explain the file")  # harness consistency
    ctx.check(raw[144:early] == before[144:early], f"{what}: close() changed containers complete before")
    w.close()
    fo.step("second close()")
    ctx.check(f.content() == raw, f"{what}: a second close() changed the file")
    ctx.eval((tuple(encs), level, bs), early > 144)
    ctx.sample(lambda: {"level": level, "buffer_size": bs, "object_sizes": [len(i.raw) for i in items][:40],
                        "committed_before_close": early})


def random(ctx, rng, index):
    items = gen.seq(rng, rng.choice((0, 1, 5, 20, 60)), rng.choice((10, 60, 300)))
    level, bs = rng.randint(0, 9), gen.gen_buffer_size(rng)
    watch(ctx, rng, items, level, bs, f"level {level}, buffer size {bs}", 0.2 if index % 4 == 0 else 0)


def large(ctx, rng, index):
    items = [gen.big_item(rng, rng.choice((1000, 10_000, 200_000, 400_000))) if rng.random() < 0.4 else gen.item(rng, 100)
             for _ in range(rng.randint(2, 12))]
    level, bs = gen.gen_level(rng), rng.choice((500, 4096, 10_000, 65536, 131072))
    watch(ctx, rng, items, level, bs, f"large objects, level {level}, buffer size {bs}")


def followed(ctx, rng, index):
    """A real file read by someone else while it is being written: what is there stays."""
    path = ctx.path()
    items = gen.seq(rng, rng.randint(20, 150), 400)
    level, bs = gen.gen_level(rng), rng.choice((200, 1000, 9000))
    kind = index % 3
    if kind == 1:
        with open(path, "wb") as f:  # an older, longer log
            f.write(os.urandom(200_000))
    arg = path if kind < 2 else open(path, "wb", buffering=rng.choice((16, 512, 8192)))
    w = gen.writer_cls()(arg, level, bs)
    shots = []
    with open(path, "rb") as g:
        for k, it in enumerate(items):
            w.write(it.build())
            if k % 5 == 0:
                g.seek(0)
                shots.append((k, g.read()))
        w.close()
        g.seek(0)
        raw = g.read()
    for k, s in shots:
        ctx.check(raw[144:len(s)] == s[144:], f"file after object {k} (level {level}, buffer {bs}) is not a beginning of the "
                  f"finished log (first difference at byte {first_diff(raw, s)})")
        ctx.count("writes_watched")
    ctx.count("followed_files")
    ctx.eval((hash(raw[144:]), level, bs), len(shots) > 2)
    os.unlink(path)


def first_diff(a, b):
    for i in range(144, min(len(a), len(b))):
        if a[i] != b[i]:
            return i
    return min(len(a), len(b))


def watchable(o):
    """The object as an instance of a subclass that can be referenced weakly."""
    cls = type(o)
    sub = type(cls.__name__, (cls,), {})
    n = sub.__new__(sub)
    for x in __import__("dataclasses").fields(o):
        setattr(n, x.name, getattr(o, x.name))
    return n


def released(ctx, rng, index):
    """Written objects are not kept."""
    # all different: nothing about them repeats
    level, bs = gen.gen_level(rng), rng.choice((300, 5000, 131072))
    specs = m.SPECS if index % 4 else [rng.choice(m.SPECS)]
    w = gen.writer_cls()(NullSink(), level, bs)
    refs = []
    rejected = []
    stride = rng.choice((1, 1000, 10**9, 3600 * 10**9))
    for k in range(1500):
        spec = rng.choice(specs)
        v = spec.gen(rng, 60, "std")
        for path, mask in numbered(spec):
            if rng.random() < 0.7:
                v[path] = k * (stride if path == "header.object_time_stamp" else 1) & mask
        if k % 7 == 3:
            o = gen.raw_item(rng, 60).build()
        else:
            o = spec.build(v)
        del v
        try:
            r = weakref.ref(o)
        except TypeError:
            o = watchable(o)
            r = weakref.ref(o)
        w.write(o)
        refs.append(r)
        del o
        if k % 3 == 1:  # and objects it does not accept
            bad, x, _ = gen.reject(rng)
            if x is not None and not isinstance(x, (bytes, int)) and type(x) is not object:
                try:
                    r = weakref.ref(x)
                except TypeError:
                    x = watchable(x)
                    r = weakref.ref(x)
                try:
                    w.write(x)
                except (Exception, KeyboardInterrupt):
                    ctx.count("rejected_objects")
                rejected.append(r)
            del x
        if len(rejected) > 60:
            kept = rejected[:-8]
            if any(x() is not None for x in kept):
                gc.collect()
            alive = sum(x() is not None for x in kept)
            ctx.check(alive <= 8, f"{alive} of {len(kept)} rejected objects are still kept after object {k} (level {level}, buffer size {bs})")
            ctx.count("released_rejected", len(kept) - alive)
            rejected = rejected[-8:]
        if len(refs) > 4 * KEPT:
            alive = sum(x() is not None for x in refs[:-KEPT])
            if alive > KEPT:
                gc.collect()
                alive = sum(x() is not None for x in refs[:-KEPT])
            ctx.check(alive <= KEPT, f"{alive} of {len(refs) - KEPT} written objects are still kept after object {k} "
                      f"(level {level}, buffer size {bs})")
            ctx.count("released_objects", len(refs) - KEPT - alive)
            refs = refs[-KEPT:]
    w.close()
    ctx.eval(("released", index, level, bs))


_numbered = {}


def numbered(spec):
    """(path, mask) of the integer fields of a class that objects can be told apart by."""
    if spec is None:
        return ()
    if spec.cls_name not in _numbered:
        _numbered[spec.cls_name] = [(f.path, (1 << 8 * f.size) - 1) for f in m.free_fields(spec)
                                    if f.kind[0] == "u" and not f.enum and not f.path.endswith("]")
                                    and ("." not in f.path or f.path == "header.object_time_stamp")]
    return _numbered[spec.cls_name]


def memory(ctx, rng, index):
    """Memory taken after n objects and after 4n objects."""
    n, size, bs = ((6000, 40, 131072), (6000, 40, 1000), (5000, 120, 8192), (300, 5000, 131072), (30, 1_000_000, 131072),
                   (30, 200_000, 5000), (8000, 16, 1 << 20), (4000, 60, 30))[index % 8]
    level = (0, 6)[index // 8 % 2] if ctx.thorough else (0, 0, 6, 0)[(index + ctx.seed) % 4]
    if ctx.thorough:
        n *= 3
    if size < 200:
        pool = [gen.item(rng, size) for _ in range(12)]
    else:
        pool = [gen.big_item(rng, size) for _ in range(3)]
    biggest = max(len(i.raw) for i in pool)
    rejects = index % 3 == 2
    built = [i.build() for i in pool]
    varied = size < 200 and index % 2 == 0
    serial = [0]
    stride = rng.choice((1, 1_000_003, 10**9, 60 * 10**9, 3600 * 10**9 + 1))  # time stamps far apart too
    what = f"objects of up to {biggest} bytes, level {level}, buffer size {bs}"
    gc.collect()
    tracemalloc.start(1)
    try:
        base = tracemalloc.get_traced_memory()[0]
        w = gen.writer_cls()(NullSink(), level, bs)

        def put(count):
            for k in range(count):
                o = built[k % len(built)]
                if varied:  # objects told apart by channel, time stamp, identifier ..
                    serial[0] += 1
                    for path, mask in numbered(getattr(pool[k % len(built)], "spec", None)):
                        x = serial[0] * (stride if path == "header.object_time_stamp" else stride % 65521 or 1)
                        set_path(o, path, x & mask)
                w.write(o)
                if rejects and k % 50 == 0:
                    try:
                        w.write(gen.own_object(lambda: b"LOBJ", 40))
                    except ValueError:
                        pass

        put(n)
        gc.collect()
        m1 = tracemalloc.get_traced_memory()[0] - base
        put(3 * n)
        gc.collect()
        m2, peak = tracemalloc.get_traced_memory()
        m2 -= base
        peak -= base
        w.close()
        after = tracemalloc.get_traced_memory()[0] - base
    finally:
        tracemalloc.stop()
    ctx.check(m2 - m1 <= GROWTH + 2 * bs + biggest, f"{what}: {m1} bytes held after {n} objects, {m2} after {4 * n}")
    limit = (2 << 20) + 8 * (bs + biggest)
    ctx.check(peak <= limit, f"{what}: peak of {peak} bytes while logging {4 * n} objects")
    ctx.check(after <= (1 << 20) + 2 * bs + 2 * biggest, f"{what}: {after} bytes held after close()")
    ctx.count("memory_comparisons")
    ctx.count("objects_under_memory_watch", 4 * n)
    ctx.maxi("peak_kib", peak >> 10)
    ctx.maxi("growth_bytes", m2 - m1)
    ctx.eval(("memory", index, level))


def families(tier):
    t = tier == "thorough"
    return [
        ("memory", 64 if t else 8, memory),
        ("released", 120 if t else 8, released),
        ("large", 2000 if t else 50, large),
        ("followed", 2000 if t else 60, followed),
        ("random", 60000 if t else 2000, random),
    ]
