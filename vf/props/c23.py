"""C23: objects behave as plain values: equality, copies, pickles."""

import copy
import dataclasses
import pickle

from .. import blf, gen, model as m
from .c02 import all_fields, var_parts
from .c03 import set_path, snap

PROP = "C23"
LEVEL = "exploration"
RULE = ("A case makes objects (built from values, decoded from bytes, read from a log), headers, nested records, system times "
        "and file headers, and compares them: equal exactly if class and every field are equal, with one field changed at "
        "a time; copies, deep copies, pickles and dataclass replacements equal the original, encode to the same bytes, and "
        "deep ones share no mutable part with it. Distinct = different (class, encoding); non-trivial = some field not zero.")
ASSUMPTIONS = ["no NaN among the values (a NaN does not equal itself)"]
REQUIRED = {"equal_pairs": 5000, "unequal_pairs": 5000, "copies": 5000, "fields_distinguished": 300, "independent_copies": 2000,
            "records": 500, "leaves": 4000, "wild_leaves": 1500,
            "large": 80}


def finite(v):
    return not any(isinstance(x, float) and x != x for x in v.values())


def values(rng, spec, cap, headers="std"):
    for _ in range(50):
        v = spec.gen(rng, cap, headers)
        if finite(v):
            return v
    raise AssertionError("only NaN values")


def equal(ctx, a, b, what):
    ctx.check(a == b, f"{what}: not equal")
    ctx.check(not (a != b), f"{what}: equal and unequal at once")
    ctx.check(b == a, f"{what}: equality is not symmetric")
    ctx.count("equal_pairs")


def unequal(ctx, a, b, what):
    ctx.check(a != b, f"{what}: equal")
    ctx.check(not (a == b), f"{what}: equal and unequal at once")
    ctx.check(b != a, f"{what}: equality is not symmetric")
    ctx.count("unequal_pairs")


def mutable_ids(o, out=None):
    out = {} if out is None else out
    if dataclasses.is_dataclass(o):
        out[id(o)] = type(o).__name__
        for f in dataclasses.fields(o):
            mutable_ids(getattr(o, f.name), out)
    elif isinstance(o, (list, bytearray, dict, set)):
        out[id(o)] = type(o).__name__
    return out


def attempt(ctx, f, o, what):
    """A copy; failing to make one is a violation wherever it fails."""
    try:
        return f(o)
    except Exception as ex:
        ctx.fail(f"{what} fails: {type(ex).__name__}: {ex}")


def copies(ctx, rng, o, raw, what):
    before = snap(o)
    made = [(n, attempt(ctx, f, o, f"{what}: {n}"), deep) for n, f, deep in
            (("copy.copy", copy.copy, False), ("copy.deepcopy", copy.deepcopy, True), ("dataclasses.replace", dataclasses.replace, False))]
    for p in rng.sample(range(2, pickle.HIGHEST_PROTOCOL + 1), 2) + [pickle.DEFAULT_PROTOCOL]:
        made.append((f"pickle protocol {p}", attempt(ctx, lambda x: pickle.loads(pickle.dumps(x, p)), o, f"{what}: pickle protocol {p}"), True))
    mine = mutable_ids(o)
    for name, c, deep in made:
        ctx.check(type(c) is type(o), f"{what}: {name} is a {type(c).__name__}")
        equal(ctx, o, c, f"{what} and its {name}")
        ctx.check(snap(c) == before, f"{what}: {name} has other contents")
        if raw is not None:
            ctx.check(bytes(c.pack()) == raw, f"{what}: {name} encodes differently", expected=raw)
        ctx.count("copies")
        if deep:
            for i, t in mutable_ids(c).items():
                ctx.check(i not in mine, f"{what}: {name} shares a {t} with the original")
            scramble(rng, c)
            ctx.check(snap(o) == before, f"{what}: changing its {name} changes it")
            if raw is not None:
                ctx.check(bytes(o.pack()) == raw, f"{what}: encodes differently after its {name} was changed", expected=raw)
            ctx.count("independent_copies")


def scramble(rng, o):
    for f in dataclasses.fields(o):
        x = getattr(o, f.name)
        if dataclasses.is_dataclass(x):
            scramble(rng, x)
        elif isinstance(x, list):
            x[:] = [0] * len(x)
        elif isinstance(x, bytearray):
            x[:] = bytes(len(x))
        setattr(o, f.name, x if rng.random() < 0.5 and dataclasses.is_dataclass(x) else None)


def objects(ctx, rng, index):
    spec = m.SPECS[index % len(m.SPECS)]
    v = values(rng, spec, rng.choice((0, 8, 64, 300)), rng.choice(("std", "any")))
    if index % 16 == 15:
        big = gen.big_item(rng, max(16, rng.choice(gen.LARGE) + rng.randint(-20, 20)))
        if isinstance(big, gen.Item) and finite(big.v):
            spec, v = big.spec, big.v
            ctx.count("large")
    raw = spec.encode(v)
    a, b, c = spec.build(v), spec.build(v), spec.cls.unpack(raw)
    d = gen.read_log(blf.file_header(level=0) + blf.container(raw + bytes(-len(raw) % 4), deflate=False))[0]
    if "@pad" in v and v["@pad"]:  # bytes behind the last text are no part of the values
        pass
    equal(ctx, a, b, f"{spec.cls_name} built twice from the same values")
    equal(ctx, c, spec.cls.unpack(raw), f"{spec.cls_name} decoded twice from the same bytes")
    equal(ctx, c, d, f"{spec.cls_name} decoded directly and read from a log")
    equal(ctx, a, c, f"{spec.cls_name} built and decoded")
    for o, how in ((a, "built"), (c, "decoded"), (d, "read")):
        copies(ctx, rng, o, raw, f"{spec.cls_name} ({how})")
    other = m.SPECS[(index + 1 + rng.randrange(len(m.SPECS) - 1)) % len(m.SPECS)]
    if other.cls is not spec.cls:
        unequal(ctx, a, other.build(values(rng, other, 8)), f"{spec.cls_name} and {other.cls_name}")
    for x in (None, 0, "", raw, ()):
        ctx.check(not (a == x) and a != x, f"{spec.cls_name} equals {x!r}")
    ctx.eval((spec.cls_name, raw), any(raw[16:]))
    ctx.sample(lambda: {"class": spec.cls_name, "bytes": raw[:200]})


FIELDS = None


def fields(ctx, rng, index):
    """Objects differing in one field only are unequal, whatever the field."""
    global FIELDS
    FIELDS = FIELDS or all_fields()
    spec, f = FIELDS[index % len(FIELDS)]
    for _ in range(6 if ctx.thorough else 3):
        v = values(rng, spec, 16)
        w = dict(v)
        for _ in range(40):
            x = m.gen_value(rng, f)
            if x == x and x != v[f.path]:
                break
        else:
            if f.enum in m.ENUMS and len(m.ENUMS[f.enum]) < 2:
                return
            continue
        w[f.path] = x
        if f.kind == "f64" and x == 0 == v[f.path]:
            continue
        a, b = spec.build(v), spec.build(w)
        e = spec.expected(v)
        if e.get(f.path) == spec.expected(w).get(f.path):
            continue  # presence of optional parts decides
        unequal(ctx, a, b, f"two {spec.cls_name} differing in {f.path} ({v[f.path]} and {x})")
        c = attempt(ctx, copy.deepcopy, a, "copy.deepcopy")
        set_path(c, f.path, m.get(b, f.path))
        unequal(ctx, a, c, f"{spec.cls_name} and its copy with {f.path} changed")
        ctx.count("fields_distinguished")
        ctx.eval((spec.cls_name, f.path, spec.encode(v)))


def headers_differ(ctx, rng, index):
    """Objects that differ only in their header are unequal."""
    spec = m.SPECS[index % len(m.SPECS)]
    v = values(rng, spec, 16)
    for f in spec.fields:
        if not f.path.startswith("header."):
            continue
        a, b = spec.build(v), spec.build(v)
        old = m.get(a, f.path)
        new = None
        if isinstance(old, bytes):
            new = bytes(x ^ 1 for x in old)
        elif f.enum in m.ENUMS:
            new = next((m.typed(f.enum, x) for x in m.ENUMS[f.enum] if x != old), None)
        else:
            if f.path == "header.base.object_type":
                new = m._const("ObjType")(rng.choice([x for x in m.TYPE_NAMES if x != int(old)]))
            else:
                new = type(old)(int(old) ^ rng.choice((1, 2, 4)))
        if new is None:
            continue
        set_path(b, f.path, new)
        unequal(ctx, a, b, f"two {spec.cls_name} differing in {f.path} ({old} and {new})")
        unequal(ctx, a.header, b.header, f"two headers differing in {f.path}")
        set_path(b, f.path, old)
        equal(ctx, a, b, f"{spec.cls_name} with {f.path} changed and restored")
    ctx.eval((spec.cls_name, "headers", spec.encode(v)))


def parts(ctx, rng, index):
    """Objects differing in a variable part only."""
    ps = var_parts()
    spec, name = ps[index % len(ps)][:2]
    v = values(rng, spec, 40)
    a = spec.build(v)
    for attr in (name[1:] if name.startswith("@") else name,):
        if not hasattr(a, attr):
            return
        old = getattr(a, attr)
        if isinstance(old, (bytes, bytearray)):
            news = [bytes(old) + b"\0", bytes(old)[:-1] + bytes([(old[-1] ^ 1) if old else 1]), bytes(old)[1:] if old else b"x"]
        elif isinstance(old, str):
            news = [old + "x", old[:-1] if old else "y", "z" + old]
        else:
            return
        for n in news:
            if n == old:
                continue
            b = attempt(ctx, copy.deepcopy, a, "copy.deepcopy")
            setattr(b, attr, n)
            unequal(ctx, a, b, f"two {spec.cls_name} differing in {attr}")
        ctx.count("fields_distinguished")
    ctx.eval((spec.cls_name, attr, spec.encode(v)))


def leaves(o, path=""):
    """(holder, key, path, value) of everything an object consists of."""
    for f in dataclasses.fields(o):
        x = getattr(o, f.name)
        p = f"{path}.{f.name}" if path else f.name
        if dataclasses.is_dataclass(x):
            yield from leaves(x, p)
        elif isinstance(x, list):
            for k, y in enumerate(x):
                if dataclasses.is_dataclass(y):
                    yield from leaves(y, f"{p}[{k}]")
                else:
                    yield x, k, f"{p}[{k}]", y
        elif isinstance(x, tuple):
            for k, y in enumerate(x):
                yield o, (f.name, k), f"{p}[{k}]", y
        else:
            yield o, f.name, p, x


def other_value(rng, x):
    import enum
    if isinstance(x, enum.Flag):
        return type(x)(int(x) ^ rng.choice([int(y) for y in type(x)] or [1]))
    if isinstance(x, enum.Enum):
        others = [y for y in type(x) if y != x]
        return rng.choice(others) if others else None
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return x ^ (1 << rng.randrange(max(8, x.bit_length()))) if rng.random() < 0.5 else x + rng.choice((-1, 1))
    if isinstance(x, float):
        return x + 1.0 if x + 1.0 != x else x / 2 if x / 2 != x else 0.5
    if isinstance(x, (bytes, bytearray)):
        return type(x)(rng.choice([bytes(x) + b"\0", bytes(x)[:-1] + bytes([(x[-1] ^ (1 << rng.randrange(8))) if x else 7]),
                                   b"\0" + bytes(x)]))
    if isinstance(x, str):
        n = rng.choice([x + "x", x[:-1] if x else "y", " " + x, x + "\0", x.swapcase() if x.swapcase() != x else x + "z"])
        return n
    return None


def assign(holder, key, x):
    if isinstance(holder, list):
        holder[key] = x
    elif isinstance(key, tuple):
        t = list(getattr(holder, key[0]))
        t[key[1]] = x
        setattr(holder, key[0], tuple(t))
    else:
        setattr(holder, key, x)


def same(ctx, o, what):
    """Copies of an object as it is now, whatever was assigned to it since it was made."""
    now = snap(o)
    for name, f in (("copy.copy", copy.copy), ("copy.deepcopy", copy.deepcopy), ("dataclasses.replace", dataclasses.replace),
                    ("pickle", lambda x: pickle.loads(pickle.dumps(x)))):
        c = attempt(ctx, f, o, f"{what}: {name}")
        ctx.check(type(c) is type(o), f"{what}: {name} is a {type(c).__name__}")
        ctx.check(snap(c) == now, f"{what}: {name} has other contents", expected=now, got=snap(c))
        equal(ctx, o, c, f"{what} and its {name}")
        ctx.count("copies")
    ctx.check(snap(o) == now, f"{what}: changed by being copied")


class Odd:
    """A value of the caller's own type, comparing by value."""

    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return isinstance(other, Odd) and other.x == self.x

    def __hash__(self):
        return hash(self.x)

    def __repr__(self):
        return f"Odd({self.x})"


def wild_value(rng, x):
    """Something that does not belong there: values do not have to be encodable to be compared."""
    for _ in range(20):
        n = rng.choice((None, -1, 1 << 16, 1 << 32, 1 << 64, -(1 << 63), 1 << 200, "text", "", b"", b"\xff", (), (1, 2), [], [0],
                        {}, {"a": 1}, 0.5, -1e300, float("inf"), Odd(rng.randrange(9)), bytearray(b"ab"), "中", True, range(3)))
        if n != x and type(n) is not type(x):
            return n
    return Odd(1)


def everything(ctx, rng, index):
    """Whatever an object consists of counts: assigning any part makes it differ, and copies follow the assignment."""
    g = gen.vb("general")
    k = index % (len(m.SPECS) + 10)
    if k < len(m.SPECS):
        spec = m.SPECS[k]
        v = values(rng, spec, 24)
        a = spec.cls.unpack(spec.encode(v)) if rng.random() < 0.5 else spec.build(v)
        name = spec.cls_name
    elif k == len(m.SPECS):
        a, name = g.NotImplementedObject.unpack(gen.raw_item(rng, 60).raw), "NotImplementedObject"
    elif k == len(m.SPECS) + 1:
        a, name = g.SystemTime.unpack(rng.randbytes(16)), "SystemTime"
    elif k == len(m.SPECS) + 2:
        a, name = g.FileStatistics.unpack(blf.file_header()), "FileStatistics"
    elif k == len(m.SPECS) + 3:
        a, name = g.FileStatistics.new(), "FileStatistics.new()"
    elif k == len(m.SPECS) + 4:
        data = m.gen_bytes(rng, rng.randint(1, 200))
        a, name = g.LogContainer.new(data, m.gen_int(rng, 64)), "LogContainer.new()"
    elif k == len(m.SPECS) + 5:
        a, name = g.LogContainer.unpack(blf.container(rng.randbytes(rng.randint(1, 200)), deflate=index % 2 == 0)), "LogContainer"
    else:
        spec = m.SPEC_BY_NAME["FunctionBus" if k == len(m.SPECS) + 6 else "CanMessage"]
        a = spec.cls.unpack(spec.encode(values(rng, spec, 24))).header
        if k == len(m.SPECS) + 8:
            a = a.base
        elif k == len(m.SPECS) + 9:
            a = g.NotImplementedObject.unpack(gen.raw_item(rng, 60).raw).header
        name = type(a).__name__
    if k >= len(m.SPECS):
        copies(ctx, rng, a, None if name == "HeaderWithBase" else bytes(a.pack()), name)
        ctx.count("parts_copied")
    ctx.check(dataclasses.is_dataclass(a), f"{name}: not a dataclass")
    ls = list(leaves(a))
    pick = ls if len(ls) <= 40 else rng.sample(ls, 40)
    for holder, key, path, old in pick:
        new = other_value(rng, old)
        if new is None or new == old:
            continue
        b = attempt(ctx, copy.deepcopy, a, "copy.deepcopy")
        assign(holder, key, new)  # holder belongs to a
        unequal(ctx, a, b, f"{name} and its copy, with {path} changed from {old!r:.60} to {new!r:.60}")
        if rng.random() < 0.4:
            same(ctx, a, f"{name} with {path} changed")
        assign(holder, key, old)
        equal(ctx, a, b, f"{name} and its copy, with {path} changed and restored")
        ctx.count("leaves")
    values_at = {p: x for _, _, p, x in ls}
    for holder, key, path, old in rng.sample(ls, min(len(ls), 12)):
        if isinstance(key, tuple):
            continue
        new = wild_value(rng, old)
        b = attempt(ctx, copy.deepcopy, a, "copy.deepcopy")
        assign(holder, key, new)
        unequal(ctx, a, b, f"{name} and its copy, with {path} changed from {old!r:.60} to {new!r:.60}")
        for _, _, p, x in leaves(a):
            if not p.startswith(path) and p in values_at:
                ctx.check(x == values_at[p] or x != x, f"{name}: assigning {path} changed {p} to {x!r:.60}")
        same(ctx, a, f"{name} with {path} set to {new!r:.60}")
        b = attempt(ctx, copy.deepcopy, a, "copy.deepcopy")
        equal(ctx, a, b, f"{name} and its copy, both with {path} set to {new!r:.60}")
        assign(holder, key, old)
        unequal(ctx, a, b, f"{name} and its copy, the latter with {path} set to {new!r:.60}")
        ctx.count("wild_leaves")
    for holder, key, path, old in rng.sample(ls, rng.randint(1, len(ls))):
        new = other_value(rng, old)
        if new is not None:
            assign(holder, key, new)
    same(ctx, a, f"{name} with many parts changed")
    ctx.eval((name, snap(a)))


def raws(ctx, rng, index):
    """Not-implemented objects compare by their bytes."""
    it = gen.raw_item(rng, 100)
    if index % 8 == 7:
        it = gen._raw_big(rng, max(16, rng.choice(gen.LARGE) + rng.randint(-20, 20)))
        ctx.count("large")
    cls = gen.vb("general").NotImplementedObject
    a, b = cls.unpack(it.raw), cls.unpack(bytes(it.raw))
    equal(ctx, a, b, "NotImplementedObject decoded twice")
    copies(ctx, rng, a, it.raw, "NotImplementedObject")
    x = bytearray(it.raw)
    k = rng.choice([0, 4, 5, 6, 7, 12] + list(range(16, len(x))) * 3)
    x[k] ^= 1 << rng.randrange(8)
    unequal(ctx, a, cls.unpack(bytes(x)), f"NotImplementedObjects differing in byte {k}")
    ctx.eval((it.num, it.raw))


def records(ctx, rng, index):
    """System times and file headers."""
    g = gen.vb("general")
    b16 = rng.randbytes(16)
    a = g.SystemTime.unpack(b16)
    equal(ctx, a, g.SystemTime.unpack(b16), "system times of the same bytes")
    copies(ctx, rng, a, b16, "SystemTime")
    x = bytearray(b16)
    k = rng.randrange(16)
    x[k] ^= 1 << rng.randrange(8)
    unequal(ctx, a, g.SystemTime.unpack(bytes(x)), f"system times differing in byte {k}")
    h = bytearray(rng.randbytes(144))
    h[:4] = b"LOGG"
    h[12] = rng.choice(sorted(m.ENUMS["AppId"])) if "AppId" in m.ENUMS else 1
    h = bytes(h)
    s = g.FileStatistics.unpack(h)
    equal(ctx, s, g.FileStatistics.unpack(h), "file headers of the same bytes")
    copies(ctx, rng, s, h, "FileStatistics")
    x = bytearray(h)
    k = rng.choice([i for i in range(4, 144) if i != 12])
    x[k] ^= 1 << rng.randrange(8)
    unequal(ctx, s, g.FileStatistics.unpack(bytes(x)), f"file headers differing in byte {k}")
    ctx.count("records", 2)
    ctx.eval((b16, h))


def families(tier):
    t = tier == "thorough"
    return [
        ("fields", len(all_fields()) * (20 if t else 1), fields),
        ("headers_differ", len(m.SPECS) * (60 if t else 4), headers_differ),
        ("parts", len(var_parts()) * (60 if t else 6), parts),
        ("everything", (len(m.SPECS) + 4) * (120 if t else 8), everything),
        ("raws", 20000 if t else 600, raws),
        ("records", 20000 if t else 600, records),
        ("objects", 60000 if t else 1500, objects),
    ]
