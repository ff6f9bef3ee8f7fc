"""C19: the log records each object as it was when written."""

import contextlib
import copy
import dataclasses
import gc
import io

from .. import blf, gen, model as m
from ..iofiles import RecFile
from .c03 import set_path, snap

PROP = "C19"
LEVEL = "exploration"
RULE = ("A case writes objects while taking deep snapshots before and after each write, then changes, reuses or discards "
        "them (fields, headers, nested records, byte buffers in place) and keeps writing; the finished log must hold the "
        "encodings of the moment of each write. On reading, delivered objects are kept, snapshotted, mutated, and must "
        "not change by reading on nor affect later ones. Distinct = different (encodings, mutation history); "
        "non-trivial = at least one mutation between write and close, or two objects kept.")
ASSUMPTIONS = ["an object is not changed by another thread during the write call itself"]
REQUIRED = {"mutations_after_write": 5000, "rewrites": 2000, "snapshots_unchanged": 5000, "kept_objects": 3000,
            "mutable_buffers": 500, "large_buffers": 300, "read_mutations": 1000, "plain_values": 800}


def wild(rng, obj):
    """Change anything reachable, ending in whatever state (the object is not encoded again)."""
    for _ in range(rng.randint(1, 4)):
        target = obj
        while True:
            names = [x.name for x in dataclasses.fields(target)]
            n = rng.choice(names)
            x = getattr(target, n)
            if hasattr(x, "__dataclass_fields__") and rng.random() < 0.8:
                target = x
                continue
            break
        if isinstance(x, bytearray):
            x[:] = rng.randbytes(rng.randint(0, 20))
        elif isinstance(x, list) and x and rng.random() < 0.7:
            x[rng.randrange(len(x))] = 0xEE
        else:
            with contextlib.suppress(AttributeError):  # an attribute may be read-only
                setattr(target, n, rng.choice((None, 0, -1, b"", b"changed", "x", [], 1 << 80)))


def tame(rng, spec, v, obj):
    """Change one field in place keeping the object encodable; v follows."""
    fs = [f for f in m.free_fields(spec)]
    for _ in range(rng.randint(1, 4)):
        f = rng.choice(fs)
        x = m.gen_value(rng, f)
        if f.enum in m.ENUMS:
            x = rng.choice(list(m.ENUMS[f.enum]))
        v[f.path] = x
        set_path(obj, f.path, m.typed(f.enum, x) if f.enum else x)


def checked_write(ctx, w, obj, what):
    before = snap(obj)
    w.write(obj)
    ctx.check(snap(obj) == before, f"{what}: write changed the object", before=before, after=snap(obj))
    ctx.count("snapshots_unchanged")


def finish(ctx, f, w, want, what):
    w.close()
    raw = f.content()
    try:
        blf.locate(b"".join(c.payload for c in blf.parse_containers(raw)), [r for r in want])
    except blf.Malformed as ex:
        ctx.fail(f"{what}: log differs from the objects at the moment of their writes: {ex}", file=raw)
    h = blf.parse_header(raw)
    ctx.check(h["object_count"] == len(want), f"{what}: header counts {h['object_count']} objects of {len(want)}")
    objs = gen.read_log(raw)
    ctx.check(len(objs) == len(want), f"{what}: {len(objs)} objects read back of {len(want)}")
    for k, (o, r) in enumerate(zip(objs, want)):
        ctx.check(bytes(o.pack()) == r, f"{what}: object {k} ({type(o).__name__}) reads back differently", file=raw)


def history(ctx, rng, index):
    """Random histories of write / change / write again / discard on a few live objects."""
    f = RecFile(max_ops=3_000_000)
    level, bs = gen.gen_level(rng), rng.choice((1, 50, 300, 2000, 100_000, 1 << 20))
    w = gen.writer_cls()(f, level, bs)
    live = []  # (spec, v, obj)
    dead = []
    want, log = [], []
    for _ in range(rng.randint(5, 40)):
        r = rng.random()
        if not live or r < 0.3:
            spec = rng.choice(m.SPECS)
            if bs >= 2000 and rng.random() < 0.05:
                it = gen.big_item(rng, rng.choice(gen.LARGE))
                while not hasattr(it, "spec"):
                    it = gen.big_item(rng, rng.choice(gen.LARGE))
                spec, v = it.spec, it.v
            else:
                v = spec.gen(rng, 40, "std")
            v["@pad"] = 0
            spec.resize(v)
            obj = spec.build(v) if rng.random() < 0.5 else spec.cls.unpack(spec.encode(v))
            live.append((spec, v, obj))
        k = rng.randrange(len(live))
        spec, v, obj = live[k]
        if r < 0.7:
            raw = spec.encode(v)
            checked_write(ctx, w, obj, f"{spec.cls_name}")
            want.append(raw)
            log.append(("write", k))
            if rng.random() < 0.3:  # again, unchanged
                for _ in range(rng.randint(1, 3)):
                    checked_write(ctx, w, obj, f"{spec.cls_name} again")
                    want.append(raw)
                    ctx.count("rewrites")
        elif r < 0.85:
            tame(rng, spec, v, obj)
            ctx.count("mutations_after_write")
            log.append(("change", k))
        elif r < 0.95:
            wild(rng, obj)
            ctx.count("mutations_after_write")
            del live[k]
            log.append(("ruin", k))
        else:
            del live[k]
            log.append(("drop", k))
    for _, _, obj in live:
        if rng.random() < 0.7:
            wild(rng, obj)
            ctx.count("mutations_after_write")
    finish(ctx, f, w, want, f"history (level {level}, buffer {bs}) {log[:30]}")
    ctx.eval((tuple(want), tuple(log)), any(a != "write" for a, _ in log))
    ctx.sample(lambda: {"history": log, "level": level, "buffer_size": bs})


def reuse(ctx, rng, index):
    """One object instance per class changed and written many times: one record each, as of its write."""
    spec = m.SPECS[index % len(m.SPECS)]
    f = RecFile(max_ops=3_000_000)
    w = gen.writer_cls()(f, rng.choice((0, 6)), rng.choice((30, 1000, 1 << 20)))
    v = spec.gen(rng, 30, "std")
    v["@pad"] = 0
    spec.resize(v)
    obj = spec.build(v)
    want = []
    for _ in range(12):
        want.append(spec.encode(v))
        checked_write(ctx, w, obj, spec.cls_name)
        ctx.count("rewrites")
        tame(rng, spec, v, obj)
        ctx.count("mutations_after_write")
    wild(rng, obj)
    finish(ctx, f, w, want, f"{spec.cls_name} reused")
    ctx.eval(tuple(want))


def buffers(ctx, rng, index):
    """Payloads in bytearrays and objects returning a reused bytearray or memoryview: the buffer is overwritten after
    each write."""
    f = RecFile(max_ops=3_000_000)
    large = index % 4 == 3  # buffers of kilobytes
    w = gen.writer_cls()(f, rng.choice((0, 6)), rng.choice((1000, 20_000, 1 << 20) if large else (16, 100, 1 << 20)))
    want, log = [], []
    scratch = bytearray(200)
    for _ in range(rng.randint(4, 20)):
        kind = rng.randrange(5)
        big = gen.LARGE[rng.randrange(len(gen.LARGE))] + rng.randint(-20, 20) if large and rng.random() < 0.5 else 0
        log.append(kind)
        if kind == 0:  # payload field given as a bytearray
            name = rng.choice(("CanMessage", "CanMessage2", "CanFdMessage", "LinMessage", "CanErrorFrameExt"))
            spec = m.SPEC_BY_NAME[name]
            v = spec.gen(rng, 8, "std")
            obj = spec.build(v)
            obj.data = buf = bytearray(v["data"])
            want.append(spec.encode(v))
            checked_write(ctx, w, obj, f"{name} with a bytearray")
            ctx.check(bytes(buf) == v["data"], f"{name}: write changed the payload buffer")
            for i in range(len(buf)):
                buf[i] ^= 0xFF
        elif kind == 1:  # not-implemented object around a bytearray
            it = gen._raw_big(rng, big) if big else gen.raw_item(rng, 60)
            obj = it.build()
            obj.buffer = buf = bytearray(it.raw)
            want.append(it.raw)
            checked_write(ctx, w, obj, "raw object with a bytearray")
            ctx.check(bytes(buf) == it.raw, "write changed the raw object's buffer")
            buf[:] = b"\xee" * len(buf)
        elif kind == 2:  # own class returning the same scratch buffer each time
            it = gen._raw_big(rng, big) if big else gen.raw_item(rng, 100)
            part = bytearray(it.raw)
            obj = gen.own_object(lambda part=part: part, len(it.raw))
            w.write(obj)
            want.append(it.raw)
            ctx.check(bytes(part) == it.raw, "write changed the buffer returned by pack()")
            try:
                part[:] = b""  # raises BufferError if a view is still held
            except BufferError:
                ctx.fail("the writer still holds a view of the buffer returned by pack()")
        elif kind == 3:  # scratch buffer shared by several objects
            it = gen.raw_item(rng, 100)
            n = len(it.raw)
            if n <= 200:
                scratch[:n] = it.raw
                w.write(gen.own_object(lambda n=n: scratch[:n], n))
                want.append(it.raw)
                scratch[:] = b"\xdd" * 200
        else:  # texts and data of variable objects
            spec = m.SPEC_BY_NAME[rng.choice(("EnvironmentVariable", "SystemVariable", "FunctionBus"))]
            v = spec.gen(rng, 60, "std")
            v["@pad"] = 0
            if big:
                v["@data"] = rng.randbytes(big)
            spec.resize(v)
            obj = spec.build(v)
            obj.data = buf = bytearray(obj.data)
            want.append(spec.encode(v))
            checked_write(ctx, w, obj, f"{spec.cls_name} with a bytearray")
            buf[:] = b"\xcc" * len(buf)
        ctx.count("mutable_buffers")
        if big:
            ctx.count("large_buffers")
        ctx.count("mutations_after_write")
    finish(ctx, f, w, want, f"buffers changed after the write {log}")
    ctx.eval((tuple(want), tuple(log)))


def discard(ctx, rng, index):
    """Objects are discarded right after the write: the writer does not need (or keep) them."""
    f = RecFile(max_ops=3_000_000)
    w = gen.writer_cls()(f, rng.choice((0, 6)), rng.choice((100, 1 << 20)))
    want = []
    items = gen.seq(rng, 12, 60)
    for it in gen.enlarge(rng, items) if index % 4 == 3 else items:
        o = it.build()
        w.write(o)
        want.append(it.raw)
        wild(rng, o.header) if rng.random() < 0.5 else None
        del o
    gc.collect(0)
    for it in gen.seq(rng, 12, 60):  # new objects take their places in memory
        it.build().pack()
    finish(ctx, f, w, want, "objects discarded after the write")
    ctx.count("mutations_after_write", 6)
    ctx.eval(tuple(want))


def rewrite(ctx, rng, index):
    """The same object n times, to several writers: n records each."""
    it = gen.item(rng, 60) if rng.random() < 0.8 else gen.raw_item(rng, 60)
    if index % 10 == 9:
        it = gen.big_item(rng, rng.choice(gen.LARGE))
    o = it.build()
    before = snap(o)
    ws = []
    for _ in range(rng.randint(1, 3)):
        f = RecFile(max_ops=3_000_000)
        ws.append((f, gen.writer_cls()(f, rng.choice((0, 6)), gen.gen_buffer_size(rng) if len(it.raw) < 1000 else
                                       rng.choice((5000, 131072, 1 << 20))), [0]))
    for _ in range(rng.randint(2, 40)):
        f, w, n = rng.choice(ws)
        w.write(o)
        n[0] += 1
        ctx.count("rewrites")
    ctx.check(snap(o) == before, f"{it.name}: changed by being written several times")
    ctx.count("snapshots_unchanged")
    for f, w, n in ws:
        finish(ctx, f, w, [it.raw] * n[0], f"{it.name} written {n[0]} times")
    ctx.eval((it.raw, tuple(n[0] for _, _, n in ws)))


def keep(ctx, rng, index):
    """Objects read are kept: reading on does not alter them; changing them does not alter later ones."""
    items = gen.seq(rng, rng.randint(2, 20), rng.choice((20, 200)))
    if index % 8 == 7:
        gen.enlarge(rng, items)
    if rng.random() < 0.5:
        items = [rng.choice(items[:3]) for _ in items]  # equal objects may tempt to share
    if rng.random() < 0.5:
        raw = gen.write_log(items, rng.choice((0, 6)), rng.choice((3000, 131072)) if index % 8 == 7 else
                            gen.gen_buffer_size(rng)).content()
    else:
        raw, _ = gen.package(rng, items)
    src = io.BytesIO(raw)
    r = gen.reader_cls()(src)
    stats = snap(r.file_statistics)
    kept, snaps, changed = [], [], 0
    mutate = rng.random() < 0.6
    for k, it in enumerate(items):
        o = next(iter(r))
        d = it.check(o)
        ctx.no(d, f"object {k} ({it.name}) after {changed} earlier ones were changed", file=raw)
        if mutate and rng.random() < 0.5:
            wild(rng, o)
            changed += 1
            ctx.count("read_mutations")
        kept.append(o)
        snaps.append(snap(o))
        for j in range(max(0, k - 3), k):
            ctx.check(snap(kept[j]) == snaps[j], f"object {j} ({items[j].name}) was altered by reading object {k} ({it.name})", file=raw)
    ctx.check(r.read_object() is None, "more objects than written", file=raw)
    ctx.check(mutate or snap(r.file_statistics) == stats, "file statistics changed by reading", file=raw)
    r.__exit__(None, None, None)
    for j, (o, s) in enumerate(zip(kept, snaps)):
        ctx.check(snap(o) == s, f"object {j} ({items[j].name}) was altered by reading to the end or closing", file=raw)
    # no two delivered objects share mutable parts
    seen = {}
    for j, o in enumerate(kept):
        for x in mutable(o):
            ctx.check(seen.setdefault(id(x), j) == j, f"objects {seen[id(x)]} and {j} share a {type(x).__name__}", file=raw)
    ctx.count("kept_objects", len(kept))
    ctx.eval((hash(raw), changed), len(kept) > 1)


def mutable(o):
    if hasattr(o, "__dataclass_fields__"):
        yield o
        for n in (x.name for x in dataclasses.fields(o)):
            yield from mutable(getattr(o, n))
    elif isinstance(o, (list, bytearray)):
        yield o


def decode_buffers(ctx, rng, index):
    """An object decoded from a buffer does not follow later changes of the buffer, nor is the buffer changed."""
    it = gen.item(rng, 60) if rng.random() < 0.9 else gen.raw_item(rng, 60)
    if index % 10 == 9:
        it = gen.big_item(rng, rng.choice(gen.LARGE))
    cls = it.spec.cls if isinstance(it, gen.Item) else gen.vb("general").NotImplementedObject
    data = bytes(it.raw)
    a = cls.unpack(data)
    b = cls.unpack(data)
    sa = snap(a)
    ctx.check(a is not b, f"{it.name}: decoding twice gives the same instance")
    shared = {id(x) for x in mutable(a)} & {id(x) for x in mutable(b)}
    ctx.check(not shared, f"{it.name}: two decoded objects share a part")
    b.header.base.object_size = 0
    wild(rng, b)
    ctx.check(snap(a) == sa and data == it.raw, f"{it.name}: changing one decoded object changes another")
    ctx.no(it.check(cls.unpack(data)), f"{it.name} decoded after an earlier one was changed")
    c = copy.deepcopy(a)
    ctx.check(snap(c) == sa and bytes(c.pack()) == it.raw, f"{it.name}: a copy differs")
    ctx.count("kept_objects", 2)
    ctx.count("read_mutations")
    ctx.eval((it.name, it.raw))


def ruin(o):
    """Overwrite every mutable part in place and every attribute."""
    for f in dataclasses.fields(o):
        x = getattr(o, f.name)
        if dataclasses.is_dataclass(x):
            ruin(x)
        elif isinstance(x, list):
            for k in range(len(x)):
                if dataclasses.is_dataclass(x[k]):
                    ruin(x[k])
                else:
                    x[k] = 0xBAD
            x.append(0xBAD)
        elif isinstance(x, bytearray):
            x[:] = b"\xba\xd0" * 8
        if not dataclasses.is_dataclass(x):
            setattr(o, f.name, 0xBAD)


def plain_values(ctx, rng, index):
    """Objects full of zeros, ones and repeated values, which tempt to share parts: none is shared."""
    spec = m.SPECS[index % len(m.SPECS)]
    v = spec.gen(rng, 0 if rng.random() < 0.5 else 24, "std")
    raw = bytearray(spec.encode(v))
    fill = rng.choice((b"\0", b"\0", b"\1", b"\xff"))
    if index // len(m.SPECS) % 2 == 0:
        raw[32:] = fill * (len(raw) - 32)
        if fill != b"\0":
            fill = b"\0"
    else:
        for _ in range(rng.randint(1, 8)):
            a = rng.randrange(16, len(raw) + 1)
            n = rng.choice((1, 2, 4, 8, 16, 32))
            raw[a:a + n] = fill * len(raw[a:a + n])
    raw = bytes(raw)
    try:
        first = spec.cls.unpack(raw)
    except Exception:
        raw = raw[:32] + bytes(len(raw) - 32)
        try:
            first = spec.cls.unpack(raw)
        except Exception:
            ctx.count("not_decodable")
            return
    was = snap(first)
    kept = [first]
    for k in range(3):
        o = spec.cls.unpack(raw)
        ctx.check(snap(o) == was, f"{spec.cls_name}: decoded differently after {k} equal objects were decoded and changed", data=raw,
                  expected=was, got=snap(o))
        shared = {id(x) for x in mutable(o)} & {id(x) for p in kept for x in mutable(p)}
        ctx.check(not shared, f"{spec.cls_name}: two decoded objects share a part", data=raw)
        held = snap(o)
        if k:
            ruin(kept[-1])
            ctx.count("read_mutations")
        ctx.check(snap(o) == held, f"{spec.cls_name}: changing one decoded object in place changes another", data=raw)
        kept.append(o)
    # and of the other objects nothing is changed either
    other = gen.item(rng, 30)
    ruin(kept[-1])
    d = other.spec.cls.unpack(other.raw)
    ctx.no(other.check(d), f"{other.name} decoded after a {spec.cls_name} was changed")
    ctx.check(bytes(other.build().pack()) == other.raw, f"{other.name} built after a {spec.cls_name} was changed encodes differently")
    ctx.count("kept_objects", len(kept))
    ctx.count("plain_values")
    ctx.eval((spec.cls_name, "plain", raw))


def families(tier):
    t = tier == "thorough"
    return [
        ("reuse", len(m.SPECS) * (400 if t else 12), reuse),
        ("buffers", 30000 if t else 600, buffers),
        ("discard", 10000 if t else 250, discard),
        ("rewrite", 20000 if t else 400, rewrite),
        ("keep", 40000 if t else 1200, keep),
        ("decode_buffers", 60000 if t else 3000, decode_buffers),
        ("plain_values", len(m.SPECS) * (800 if t else 60), plain_values),
        ("history", 60000 if t else 1500, history),
    ]
