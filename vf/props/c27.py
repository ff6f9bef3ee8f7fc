"""C27: names stand for the numbers the BLF format assigns to them."""

import io

from .. import blf, gen, model as m
from ..gen import vb
from ..iofiles import RecFile

PROP = "C27"
LEVEL = "exploration"
RULE = ("A case sets a field of an object, object header or file header to a value given by name (or a combination of flag names), encodes "
        "it, writes it to a log and looks at the stored bytes; and it stores a number in bytes, decodes it and looks at the names of "
        "the value. Names and numbers are those of the BLF format, written down in this check. Distinct = enumeration, names, field and object bytes; "
        "non-trivial = all.")
ASSUMPTIONS = ["names beyond those the format has at this version may be added"]
REQUIRED = {"names_stored": 3000, "names_read": 3000, "flag_combinations": 2000, "through_log": 1000, "numbers_without_name": 2000,
            "type_names": 129, "fields_with_names": 11, "methods_and_levels": 100}

NUMBERS = {
    "ObjType": {n: x for x, n in m.TYPE_NAMES.items()},
    "AppId": {n: x for x, n in m.APP_IDS.items()},
    "Compression": {n: x for x, n in m.COMPRESSION.items()},
    "CompressionMethod": {"NONE": 0, "ZLIB": 2},
    "TriggerFlag": {"SINGLE_TRIGGER": 0, **m.FLAG_BITS["TriggerFlag"]},
    "ObjFlags": m.FLAG_BITS["ObjFlags"],
    "CanFdFlags": m.FLAG_BITS["CanFdFlags"],
    "CanFdMessageFlags": m.FLAG_BITS["CanFdMessageFlags"],
    **{e: {n: x for x, n in t.items()} for e, t in m.ENUMS.items()},
}
WIDE = {"ObjType", "AppId", "Compression", "CompressionMethod"}
FIELDS = [(s, f) for s in m.SPECS for f in s.fields if f.enum]
assert {f.enum for _, f in FIELDS} | WIDE == set(NUMBERS), {f.enum for _, f in FIELDS}


def named(enum, name):
    return getattr(m._const(enum), name)


def put(obj, path, value):
    parent, _, leaf = path.rpartition(".")
    setattr(m.get(obj, parent) if parent else obj, leaf, value)


def at(raw, f):
    return m.dec(f.kind, raw[f.off:f.off + f.size])


def shown(ctx, enum, value, number, **info):
    """A value read says which names apply to it."""
    ctx.check(isinstance(value, int) and int(value) == number, f"{enum} {number} reads as {value!r}", **info)
    for name, x in NUMBERS[enum].items():
        n = named(enum, name)
        ctx.check((value == n) == (number == x), lambda: f"{enum} {number} read as {value!r}: equality with {name} ({x}) is {value == n}", **info)
        if enum in m.FLAGS and x:
            ctx.check(isinstance(value, type(n)) and (n in value) == (number & x == x), lambda: f"{enum} {number:#x} read as {value!r} does "
                      f"not show whether it contains {name}", **info)
            ctx.check(bool(value & n) == bool(number & x), lambda: f"{enum} {number:#x} read as {value!r}: {name} ({x:#x}) is {value & n!r}", **info)
    ctx.count("names_read")


def through(ctx, rng, obj, raw, f, number):
    """The object in a log: its bytes are stored, and the value read back shows the names."""
    level = rng.choice((0, 6))
    file = RecFile(max_ops=10_000)
    w = gen.writer_cls()(file, level, rng.choice((50, 1000, 100_000)))
    w.write(obj)
    w.close()
    data = file.content()
    payload = b"".join(c.payload for c in blf.parse_containers(data))
    ctx.check(payload[:len(raw)] == raw, f"{f.path} by name: the log stores other bytes than the object's encoding", object=raw, stored=payload)
    got = gen.read_log(data)
    ctx.check(len(got) == 1, f"{len(got)} objects read back")
    ctx.count("through_log")
    return got[0]


def enumerations(ctx, rng, index):
    """Every name of an enumeration in every field that carries it."""
    spec, f = FIELDS[index % len(FIELDS)]
    enum = f.enum
    ctx.count("fields_with_names")
    names = list(NUMBERS[enum])
    rng.shuffle(names)
    for name in names:
        v = spec.gen(rng, 40, "std")
        x = NUMBERS[enum][name]
        v[f.path] = x
        spec.resize(v)
        want = spec.encode(v)
        obj = spec.build(v)
        put(obj, f.path, named(enum, name))
        raw = obj.pack()
        info = {"object": spec.cls_name, "field": f.path, "name": name, "bytes": bytes(raw)}
        ctx.check(at(raw, f) == x, lambda: f"{enum}.{name} in {spec.cls_name}.{f.path} is stored as {at(raw, f)}, the format's number is {x}", **info)
        ctx.check(raw == want, f"{spec.cls_name} with {f.path} by name encodes differently from the layout", want=want, **info)
        ctx.count("names_stored")
        for got in (spec.cls.unpack(want), through(ctx, rng, obj, want, f, x)):
            shown(ctx, enum, m.get(got, f.path), x, **info)
            if enum not in m.FLAGS:
                ctx.check(getattr(m.get(got, f.path), "name", None) == name, f"{enum} {x} reads as {m.get(got, f.path)!r}, not {name}", **info)
        ctx.eval((enum, name, spec.cls_name, f.path, want))


FLAG_FIELDS = [(s, f) for s, f in FIELDS if f.enum in m.FLAGS]


def flags(ctx, rng, index):
    """Combinations of flags, with bits that have no name as well."""
    spec, f = FLAG_FIELDS[index % len(FLAG_FIELDS)]
    table = NUMBERS[f.enum]
    for _ in range(8):
        names = rng.sample(sorted(table), rng.randint(0, len(table)))
        extra = rng.choice((0, 0, m.gen_int(rng, 8 * f.size)))
        for x in table.values():
            extra &= ~x
        value, number = m._const(f.enum)(extra), extra
        for n in names:
            value |= named(f.enum, n)
            number |= table[n]
        v = spec.gen(rng, 40, "std")
        v[f.path] = number
        spec.resize(v)
        want = spec.encode(v)
        obj = spec.build(v)
        put(obj, f.path, value)
        raw = obj.pack()
        info = {"object": spec.cls_name, "field": f.path, "names": names, "extra": extra, "bytes": bytes(raw)}
        ctx.check(raw == want, lambda: f"{'|'.join(names) or 0} + {extra:#x} in {spec.cls_name}.{f.path} is stored as {at(raw, f):#x}, "
                  f"the format's number is {number:#x}", **info)
        got = m.get(spec.cls.unpack(want), f.path)
        shown(ctx, f.enum, got, number, **info)
        if rng.random() < 0.2:
            shown(ctx, f.enum, m.get(through(ctx, rng, obj, want, f, number), f.path), number, **info)
        ctx.count("flag_combinations")
        if extra:
            ctx.count("numbers_without_name")
        ctx.eval((f.enum, number, spec.cls_name, f.path, want))


def types(ctx, rng, index):
    """Object types: each name has its number, in headers encoded, decoded and read; other numbers read as UNKNOWN."""
    g = vb("general")
    T = m._const("ObjType")
    mine = [n for k, n in enumerate(sorted(NUMBERS["ObjType"])) if k % 8 == index % 8]
    for name in mine:
        x = NUMBERS["ObjType"][name]
        t = getattr(T, name)
        ctx.check(int(t) == x, f"ObjType.{name} is {int(t)}, the format's number is {x}")
        ctx.check(T.from_int(x) is t and T(x) is t, f"ObjType {x} is {T.from_int(x)!r}, not {name}")
        size = 32 + rng.randrange(100)
        h = g.ObjectHeader.new(size, t, m._const("ObjFlags")(1), 0, 5)
        raw = bytearray(size)
        h.pack_into(raw, 0)
        ctx.check(blf.u(raw, 12, 4) == x, f"a header made for ObjType.{name} stores the type {blf.u(raw, 12, 4)}, the format's number is {x}", header=bytes(raw))
        ctx.count("names_stored")
        b = g.ObjectHeaderBase.unpack(bytes(raw[:16]))
        ctx.check(b.object_type is t, f"the type {x} reads as {b.object_type!r}, not {name}")
        ctx.count("type_names")
        if x in m.SPEC_BY_TYPE:
            s = m.SPEC_BY_TYPE[x]
            v = s.gen(rng, 40)
            v["header.base.object_type"] = x
            it = gen.Item(s, v)
        elif x != m.CONTAINER_TYPE:
            it = gen.raw_item(rng, 60, x)
        else:
            continue
        data = blf.file_header() + blf.container(it.raw, deflate=rng.random() < 0.5)
        got = gen.read_log(data)
        ctx.check(len(got) == 1 and got[0].header.base.object_type is t,
                  lambda: f"an object of the type {x} is read with {[o.header.base.object_type for o in got]!r}, not {name}", object=it.raw)
        if x in m.SPEC_BY_TYPE:
            put(got[0], "header.base.object_type", t)
        through(ctx, rng, got[0], it.raw, m.Field("header.base.object_type", "u32", 12), x)
        ctx.count("names_read")
        ctx.eval(("ObjType", name, it.raw))
    for _ in range(60):
        x = rng.choice((rng.randint(129, 70000), m.gen_int(rng, 32)))
        if x in m.TYPE_NAMES:
            continue
        b = g.ObjectHeaderBase.unpack(m.raw_object(x, b"")[:16])
        ctx.check(b.object_type is T.UNKNOWN and T.from_int(x) is T.UNKNOWN, f"the type {x} reads as {b.object_type!r}, not UNKNOWN")
        ctx.count("numbers_without_name")
        ctx.eval(("ObjType", x))


def file_headers(ctx, rng, index):
    """Application ids and compression levels by name, in header records and through writers; compression methods of containers."""
    g = vb("general")
    s = g.FileStatistics.new()
    for name, x in NUMBERS["AppId"].items():
        s.application_id = named("AppId", name)
        raw = s.pack()
        ctx.check(raw[12] == x, f"AppId.{name} is stored as {raw[12]}, the format's number is {x}", header=raw)
        got = g.FileStatistics.unpack(raw).application_id
        shown(ctx, "AppId", got, x)
        ctx.check(got is named("AppId", name) and m._const("AppId").from_int(x) is got, f"application id {x} reads as {got!r}, not {name}")
        ctx.count("names_stored")
        ctx.eval(("AppId", name))
    for name, x in NUMBERS["Compression"].items():
        s.compression_level = named("Compression", name)
        raw = s.pack()
        ctx.check(raw[13] == x, f"Compression.{name} is stored as {raw[13]}, the format's number is {x}", header=raw)
        got = g.FileStatistics.unpack(raw).compression_level
        shown(ctx, "Compression", got, x)
        ctx.check(got is named("Compression", name) and m._const("Compression").from_int(x) is got, f"compression level {x} reads as {got!r}, not {name}")
        ctx.count("names_stored")
        items = gen.seq(rng, rng.randint(1, 4), 200)
        file = RecFile(max_ops=10_000)
        w = gen.writer_cls()(file, named("Compression", name), rng.choice((100, 5000)))
        for it in items:
            w.write(it.build())
        w.close()
        data = file.content()
        ctx.check(data[13] == x, f"a log written with Compression.{name} states level {data[13]}", header=data[:144])
        want = "ZLIB" if x else "NONE"
        for c in blf.parse_containers(data):
            ctx.check(c.method == NUMBERS["CompressionMethod"][want], f"a container written with Compression.{name} declares method {c.method}")
            lc = g.LogContainer.unpack(data[c.off:c.end])
            ctx.check(int(lc.header.object_flags) == int(named("CompressionMethod", want)),
                      f"a container's method {c.method} reads as {lc.header.object_flags!r}, CompressionMethod.{want} is {named('CompressionMethod', want)!r}")
            ctx.count("methods_and_levels")
        r = gen.reader_cls()(io.BytesIO(data))
        ctx.check(r.file_statistics.compression_level is named("Compression", name), f"a log written with Compression.{name} "
                  f"is read with {r.file_statistics.compression_level!r}")
        ctx.no(gen.check_items(items, list(r)), "log written with a named level")
        ctx.eval(("Compression", name, tuple(i.raw for i in items)))
    for x in range(256):
        if x not in m.COMPRESSION:
            y = m._const("Compression").from_int(x)
            ctx.check(y == x and isinstance(y, int), f"Compression.from_int({x}) is {y!r}")
        if x not in m.APP_IDS:
            y = m._const("AppId").from_int(x)
            ctx.check(y is named("AppId", "UNKNOWN"), f"AppId.from_int({x}) is {y!r}")
        ctx.count("numbers_without_name", (x not in m.COMPRESSION) + (x not in m.APP_IDS))
    for name, x in NUMBERS["CompressionMethod"].items():
        ctx.check(int(named("CompressionMethod", name)) == x, f"CompressionMethod.{name} is {int(named('CompressionMethod', name))}, the format's number is {x}")


def made(ctx, rng, index):
    """Objects made by the factories with named flags: type and flags are stored under the format's numbers."""
    can = vb("can")
    for name in ("CAN_MESSAGE", "CAN_MESSAGE2", "CAN_FD_MESSAGE"):
        spec = m.SPEC_BY_TYPE[NUMBERS["ObjType"][name]]
        for flag in NUMBERS["ObjFlags"]:
            ts = m.gen_int(rng, 64)
            fd = rng.sample(sorted(NUMBERS["CanFdMessageFlags"]), rng.randint(0, 3))
            canfd = m._const("CanFdMessageFlags")(0)
            for n in fd:
                canfd |= named("CanFdMessageFlags", n)
            args = {"CAN_MESSAGE": (1, 0, 8, 5, bytes(8)), "CAN_MESSAGE2": (1, 0, 8, 5, bytes(8), 7, 9),
                    "CAN_FD_MESSAGE": (1, 0, 8, 5, 7, 9, canfd, bytes(64))}[name]
            o = getattr(can, spec.cls_name).new(named("ObjFlags", flag), ts, *args)
            raw = o.pack()
            info = {"class": spec.cls_name, "flag": flag, "fd": fd, "bytes": bytes(raw)}
            ctx.check(blf.u(raw, 12, 4) == NUMBERS["ObjType"][name], f"{spec.cls_name}.new stores the type {blf.u(raw, 12, 4)}", **info)
            ctx.check(blf.u(raw, 16, 4) == NUMBERS["ObjFlags"][flag], f"{spec.cls_name}.new with {flag} stores the flags {blf.u(raw, 16, 4)}", **info)
            ctx.check(blf.u(raw, 24, 8) == ts, f"{spec.cls_name}.new stores another time stamp", **info)
            if name == "CAN_FD_MESSAGE":
                want = sum(NUMBERS["CanFdMessageFlags"][n] for n in fd)
                f = spec.by_path["canfd_flags"]
                ctx.check(at(raw, f) == want, f"CAN FD flags {fd} are stored as {at(raw, f)}, the format's number is {want}", **info)
                got = through(ctx, rng, o, raw, f, want)
                shown(ctx, "CanFdMessageFlags", got.canfd_flags, want, **info)
            ctx.count("names_stored", 2)
            ctx.eval((name, flag, ts, want if name == "CAN_FD_MESSAGE" else 0))


def families(tier):
    t = tier == "thorough"
    return [
        ("types", 8 * (1500 if t else 40), types),
        ("file_headers", 3000 if t else 80, file_headers),
        ("enumerations", len(FIELDS) * (300 if t else 10), enumerations),
        ("flags", len(FLAG_FIELDS) * (1500 if t else 40), flags),
        ("made", 20000 if t else 200, made),
    ]
