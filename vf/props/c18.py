"""C18: objects and headers made by the factories are complete and valid."""

import dataclasses
import io
import os
import time

from .. import blf, gen, model as m
from ..gen import vb
from .c03 import snap
from .c06 import ms_of, within

PROP = "C18"
LEVEL = "exploration"
RULE = ("A case calls a factory with known values (swept and random, by position and by keyword), compares every "
        "attribute and the encoding with the independent layout, checks that earlier results are not touched by later "
        "calls, and sends CAN objects with payloads of every length through the real writer and reader. Distinct = "
        "different argument tuples; non-trivial = some argument not zero.")
ASSUMPTIONS = ["arguments lie in the range of their layout fields; payloads are not longer than the frame's data field",
               "the application version in a new file header is that of the package"]
REQUIRED = {"can_objects": 3000, "round_trips": 2000, "headers": 1500, "containers": 1000, "large_containers": 40, "file_headers": 100,
            "short_payloads": 1000}

CAN = {"CanMessage": 8, "CanMessage2": 8, "CanFdMessage": 64}
ARGS = {
    "CanMessage": ["channel", "flags", "dlc", "frame_id", "data"],
    "CanMessage2": ["channel", "flags", "dlc", "frame_id", "data", "frame_length", "bit_count"],
    "CanFdMessage": ["channel", "flags", "dlc", "frame_id", "frame_length", "arb_bit_count", "canfd_flags", "data"],
}


def parts_of_its_own(ctx, o, what):
    """No mutable part is found twice inside one object: changing one place changes no other."""
    seen = {}

    def walk(x, path):
        if dataclasses.is_dataclass(x) or isinstance(x, (list, bytearray, dict, set)):
            ctx.check(id(x) not in seen, lambda: f"{what}: {path or 'it'} and {seen[id(x)]} are the same object")
            seen[id(x)] = path
        if dataclasses.is_dataclass(x):
            for f in dataclasses.fields(x):
                walk(getattr(x, f.name), f"{path}.{f.name}" if path else f.name)
        elif isinstance(x, (list, tuple)):
            for k, y in enumerate(x):
                walk(y, f"{path}[{k}]")

    walk(o, "")
    ctx.count("objects_with_parts_of_their_own")


def can_values(rng, spec, n):
    """Layout values of a factory-made object with a payload of n bytes."""
    v = {f.path: 0 for f in spec.fields}
    width = CAN[spec.cls_name]
    for f in spec.fields:
        if f.path in ARGS[spec.cls_name] and f.path != "data":
            v[f.path] = m.gen_value(rng, f)
    data = m.gen_bytes(rng, n)
    v.update({"header.base.signature": m.SIG, "header.base.header_size": 32, "header.base.header_version": 1,
              "header.base.object_size": spec.fixed, "header.base.object_type": spec.types[0],
              "header.object_flags": rng.choice((0, 1, 2, 3, m.gen_int(rng, 32))),
              "header.object_time_stamp": m.gen_int(rng, 64), "data": data + bytes(width - n)})
    if "valid_data_bytes" in v:
        v["valid_data_bytes"] = n
    return v, data


def can_object(spec, v, data, by_name):
    a = [v[k] for k in ARGS[spec.cls_name]]
    names = ARGS[spec.cls_name]
    a[names.index("data")] = data
    if "canfd_flags" in names:
        a[names.index("canfd_flags")] = m.typed("CanFdMessageFlags", v["canfd_flags"])
    head = [m.typed("ObjFlags", v["header.object_flags"]), v["header.object_time_stamp"]]
    if by_name:
        kw = dict(zip(["object_flags", "object_time_stamp"] + names, head + a))
        return spec.cls.new(**dict(sorted(kw.items(), reverse=by_name > 1)))
    return spec.cls.new(*head, *a)


class CanItem(gen.Item):
    """Compares like any item: spec and padded values."""

    def __init__(self, spec, v):
        self.spec, self.v = spec, v
        v["@pad"] = 0
        self.raw = spec.encode(v)


def check_can(ctx, rng, spec, v, data, kind=bytes):
    o = can_object(spec, v, kind(data), rng.randrange(3))
    what = f"{spec.cls_name}.new with {len(data)} bytes of data"
    ctx.check(type(o) is spec.cls, f"{what} made a {type(o).__name__}")
    parts_of_its_own(ctx, o, what)
    ctx.check(bytes(o.data) == data, f"{what}: data is {o.data!r}", given=data)
    bad = [b for b in spec.compare(o, dict(v)) if not b.startswith("data:")]
    ctx.no(bad, what, values=v)
    it = CanItem(spec, v)
    p = o.pack()
    ctx.check(p == it.raw, lambda: f"{what}: encodes to {p.hex()}, layout is {it.raw.hex()}", values=v)
    ctx.count("can_objects")
    if len(data) < CAN[spec.cls_name]:
        ctx.count("short_payloads")
    ctx.eval((spec.cls_name, it.raw, data), any(data) or any(it.raw[16:]))
    return o, it


def can(ctx, rng, index):
    """CAN objects, also through a log; earlier ones stay as they are."""
    specs = [m.SPEC_BY_NAME[n] for n in CAN]
    objs, items = [], []
    for k in range(rng.randint(1, 8)):
        spec = rng.choice(specs)
        w = CAN[spec.cls_name]
        v, data = can_values(rng, spec, rng.choice((0, w, rng.randint(0, w), rng.randint(0, min(w, 8)))))
        o, it = check_can(ctx, rng, spec, v, data)
        objs.append(o)
        items.append(it)
    snaps = [snap(o) for o in objs]
    level, bs = gen.gen_level(rng), gen.gen_buffer_size(rng)
    raw = gen.write_log(items, level, bs, objs=objs).content()
    back = gen.read_log(raw)
    ctx.no(gen.check_items(items, back), "factory-made CAN objects written and read back", file=raw)
    for o, it, s in zip(objs, items, snaps):
        ctx.check(snap(o) == s, f"{it.name} made by its factory changed", before=s)
        ctx.check(o.pack() == it.raw, f"{it.name} made by its factory encodes differently later")
    ctx.count("round_trips", len(back))
    ctx.sample(lambda: {"objects": [i.describe() for i in items]})


def lengths(ctx, rng, index):
    """Every payload length of each class, each argument at its limits."""
    name = list(CAN)[index % 3]
    spec = m.SPEC_BY_NAME[name]
    for n in range(CAN[name] + 1):
        v, data = can_values(rng, spec, n)
        check_can(ctx, rng, spec, v, data)
        v2 = dict(v)
        for p in ARGS[name]:
            if p == "data":
                continue
            f = spec.by_path[p]
            for x in (0, 1, (1 << 8 * f.size) - 1):
                v2[p] = x
                check_can(ctx, rng, spec, dict(v2), data)
            v2[p] = v[p]
    # extremes of all kinds: all-zero, all-one payloads
    for data in (b"", bytes(CAN[name]), b"\xff" * CAN[name], b"\0", b"LOBJ"):
        v, _ = can_values(rng, spec, 0)
        v["data"] = data.ljust(CAN[name], b"\0")
        if "valid_data_bytes" in v:
            v["valid_data_bytes"] = len(data)
        check_can(ctx, rng, spec, v, data)


def headers(ctx, rng, index):
    g = vb("general")
    made = []
    for _ in range(12):
        num = rng.choice(list(m.TYPE_NAMES))
        size = m.gen_int(rng, 32)
        flags = rng.choice((0, 1, 2, m.gen_int(rng, 32)))
        version, ts = m.gen_int(rng, 16), m.gen_int(rng, 64)
        args = [size, m._const("ObjType")(num), m.typed("ObjFlags", flags), version, ts]
        if rng.random() < 0.5:
            h = g.ObjectHeader.new(*args)
        else:
            h = g.ObjectHeader.new(**dict(zip(["object_size", "object_type", "object_flags", "object_version",
                                               "object_time_stamp"], args)))
        want = (m.SIG + m.enc("u16", 32) + m.enc("u16", 1) + m.enc("u32", size) + m.enc("u32", num) + m.enc("u32", flags)
                + m.enc("u16", 0) + m.enc("u16", version) + m.enc("u64", ts))
        what = f"ObjectHeader.new({args})"
        parts_of_its_own(ctx, h, what)
        bad = [f"{k} is {got!r} instead of {exp!r}" for k, got, exp in (
            ("signature", h.base.signature, m.SIG), ("header_size", h.base.header_size, 32),
            ("header_version", h.base.header_version, 1), ("object_size", h.base.object_size, size),
            ("object_type", h.base.object_type, num), ("object_flags", h.object_flags, flags),
            ("client_index", h.client_index, 0), ("object_version", h.object_version, version),
            ("object_time_stamp", h.object_time_stamp, ts)) if got != exp]
        ctx.no(bad, what)
        ctx.check(h.pack() == want, f"{what}: encodes to {h.pack().hex()}, layout is {want.hex()}")
        back = g.ObjectHeader.unpack(want)
        ctx.check(back == h, f"{what}: decodes to {back}")
        made.append((h, want))
        ctx.count("headers")
        ctx.eval(want, True)
    for h, want in made:
        ctx.check(h.pack() == want, "a header made earlier was changed by later ones")
    # a change to one header does not show in others
    h, want = made[0]
    h.base.object_size ^= 1
    h.client_index ^= 1
    for h2, want2 in made[1:]:
        ctx.check(h2.pack() == want2, "a header changed with another")


def containers(ctx, rng, index):
    g = vb("general")
    made = []
    for _ in range(8):
        data = m.gen_bytes(rng, rng.choice((0, 1, 7, 100, rng.randint(0, 5000))))
        ts = m.gen_int(rng, 64)
        flags = rng.choice((None, 0, 1, 2, 3))
        client = rng.choice((None, 0, 1, m.gen_int(rng, 16)))
        kw = {}
        if flags is not None:
            kw["flags"] = m.typed("ObjFlags", flags)
        if client is not None:
            kw["client_index"] = client
        c = g.LogContainer.new(data, ts, **kw) if rng.random() < 0.5 else g.LogContainer.new(data=data, time_stamp=ts, **kw)
        fl = 2 if flags is None else flags
        cl = client or 0
        want = (m.SIG + m.enc("u16", 16) + m.enc("u16", 1) + m.enc("u32", 32 + len(data)) + m.enc("u32", 10)
                + m.enc("u32", fl) + m.enc("u16", cl) + m.enc("u16", 0) + m.enc("u64", ts) + data)
        what = f"LogContainer.new of {len(data)} bytes, time_stamp {ts}, {kw}"
        h = c.header
        parts_of_its_own(ctx, c, what)
        parts_of_its_own(ctx, h, what)
        bad = [f"{k} is {got!r} instead of {exp!r}" for k, got, exp in (
            ("signature", h.base.signature, m.SIG), ("header_size", h.base.header_size, 16),
            ("header_version", h.base.header_version, 1), ("object_size", h.base.object_size, 32 + len(data)),
            ("object_type", h.base.object_type, 10), ("object_flags", h.object_flags, fl),
            ("client_index", h.client_index, cl), ("object_version", h.object_version, 0),
            ("object_time_stamp", h.object_time_stamp, ts), ("data", bytes(c.data), data)) if got != exp]
        ctx.no(bad, what)
        ctx.check(bytes(c.pack()) == want, f"{what}: encodes to {bytes(c.pack())[:64].hex()}, layout is {want[:64].hex()}")
        ctx.check(len(c.pack()) == c.header.base.object_size, f"{what}: {len(c.pack())} bytes encoded")
        back = g.LogContainer.unpack(want)
        ctx.check(back == c, f"{what}: decodes to {back!r:.300}")
        made.append((c, want))
        ctx.count("containers")
        ctx.eval(want, True)
    for c, want in made:
        ctx.check(bytes(c.pack()) == want, "a container made earlier was changed by later ones")
    # what the factory makes is a container for the reader
    it = gen.item(rng, 60)
    raw = blf.file_header(level=0) + bytes(g.LogContainer.new(it.raw, len(it.raw), m.typed("ObjFlags", 0)).pack())
    ctx.no(gen.check_items([it], gen.read_log(raw)), "an object in a factory-made container", file=raw)


def large_containers(ctx, rng, index):
    """Containers of many megabytes, and of every size around powers of two."""
    g = vb("general")
    k = (8, 12, 15, 16, 17, 20, 23, 24, 25, 26)[index % (10 if ctx.thorough else 9)]
    n = (1 << k) + rng.choice((-33, -32, -1, 0, 1, rng.randint(2, 100)))
    data = rng.randbytes(64) * (n // 64) + bytes(n % 64)
    c = g.LogContainer.new(data, n)
    h = c.header.base
    want = m.SIG + m.enc("u16", 16) + m.enc("u16", 1) + m.enc("u32", 32 + n) + m.enc("u32", 10) + m.enc("u32", 2) + bytes(4) + m.enc("u64", n)
    ctx.check(h.object_size == 32 + n and c.header.object_time_stamp == n and len(c.data) == n,
              f"LogContainer.new of {n} bytes: declares {h.object_size}, time stamp {c.header.object_time_stamp}, {len(c.data)} bytes of data")
    p = bytes(c.pack())
    ctx.check(p[:32] == want and p[32:] == data, f"LogContainer.new of {n} bytes: encodes to {len(p)} bytes beginning {p[:32].hex()}, layout is {want.hex()}")
    ctx.check(g.LogContainer.unpack(p) == c, f"LogContainer.new of {n} bytes: decodes differently")
    ctx.count("large_containers")
    ctx.eval(want, True)


def file_headers(ctx, rng, index):
    g = vb("general")
    zone = os.environ.get("TZ")
    os.environ["TZ"] = rng.choice(("UTC", "America/New_York", "Asia/Tokyo", "XXX-13:45", "XXX+11"))
    time.tzset()
    try:
        a = time.time()
        s = g.FileStatistics.new()
        b = time.time()
    finally:
        if zone is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = zone
        time.tzset()
    import vblf

    major, minor = [int(x) for x in vblf.__version__.split(".")[:2]]
    want = {"signature": b"LOGG", "statistics_size": 144, "api_number": 0x3E4630, "application_id": 0, "application_major": major,
            "application_minor": minor, "file_size": 144, "uncompressed_file_size": 144, "object_count": 0,
            "application_build": 0, "restore_points_offset": 0, "reserved": bytes(64)}
    bad = [f"{k} is {getattr(s, k)!r} instead of {v!r}" for k, v in want.items() if getattr(s, k) != v]
    ctx.no(bad, "FileStatistics.new()")
    parts_of_its_own(ctx, s, "FileStatistics.new()")
    raw = s.pack()
    h = blf.parse_header(raw)
    ctx.check(len(raw) == 144, f"FileStatistics.new() encodes to {len(raw)} bytes")
    bad = [f"{k} encoded as {h[k]!r} instead of {v!r}" for k, v in want.items() if h[k] != v]
    ctx.no(bad, "FileStatistics.new()")
    ctx.check(h["compression_level"] == int(s.compression_level) and 0 <= h["compression_level"] <= 9, f"compression level {h['compression_level']}")
    for k in ("measurement_start_time", "last_object_time"):
        y, mo, dow, d, hh, mi, ss, ms = h[k]
        ctx.check(1 <= mo <= 12 and 1 <= d <= 31 and hh < 24 and mi < 60 and ss < 60 and ms < 1000 and dow < 7, f"{k} is {h[k]}")
        ctx.check(within(ms_of(h[k]), a, b), f"{k} {h[k]} is not the UTC time of the call ({ms_of(h[k]) / 1000:.3f}, called at {a:.3f})")
    ctx.check(ms_of(h["measurement_start_time"]) <= ms_of(h["last_object_time"]), "start after last object")
    back = g.FileStatistics.unpack(raw)
    ctx.check(back == s, f"decodes to {back}")
    ctx.check(gen.read_log(raw) == [], "a file of only this header is not read as an empty log")
    # its two times are independent, and two headers are
    u = g.FileStatistics.new()
    one, two = ("measurement_start_time", "last_object_time")[::rng.choice((1, -1))]
    kept = snap(getattr(u, two))
    for f in dataclasses.fields(getattr(u, one)):
        setattr(getattr(u, one), f.name, 1)
    ctx.check(snap(getattr(u, two)) == kept, f"FileStatistics.new(): changing {one} changes {two}")
    t = g.FileStatistics.new()
    before = snap(s)
    t.object_count, t.measurement_start_time.year, t.last_object_time.month, t.reserved = 7, 1999, 1, b"\1" * 64
    ctx.check(snap(s) == before and g.FileStatistics.new().object_count == 0
              and g.FileStatistics.new().measurement_start_time.year > 2000, "file headers made by the factory share state")
    ctx.count("file_headers")
    ctx.eval(raw)


def subclasses(ctx, rng, index):
    """Factories called on a subclass or an instance make that class."""
    name = list(CAN)[index % 3]
    spec = m.SPEC_BY_NAME[name]
    sub = type("Sub", (spec.cls,), {})
    v, data = can_values(rng, spec, rng.randint(0, CAN[name]))
    a = {k: v[k] for k in ARGS[name]}
    a["data"] = data
    o = sub.new(object_flags=m.typed("ObjFlags", v["header.object_flags"]), object_time_stamp=v["header.object_time_stamp"], **a)
    it = CanItem(spec, v)
    ctx.check(isinstance(o, spec.cls) and o.pack() == it.raw, f"factory of a subclass of {name}")
    raw = gen.write_log([it], 0, 100, objs=[o]).content()
    ctx.no(gen.check_items([it], gen.read_log(raw)), f"object of a subclass of {name}", file=raw)
    ctx.count("round_trips")
    ctx.eval(it.raw)


def families(tier):
    t = tier == "thorough"
    return [
        ("lengths", 3 * (200 if t else 8), lengths),
        ("headers", 30000 if t else 1000, headers),
        ("containers", 30000 if t else 1000, containers),
        ("large_containers", 400 if t else 45, large_containers),
        ("file_headers", 20000 if t else 800, file_headers),
        ("subclasses", 10000 if t else 400, subclasses),
        ("can", 100_000 if t else 3000, can),
    ]
