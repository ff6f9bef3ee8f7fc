"""C02: objects decode to the values the BLF layout stores."""

import os

from .. import blf, gen, model as m

PROP = "C02"
LEVEL = "exploration"
RULE = ("A case encodes generated or swept field values with the independent layout model and decodes the bytes with "
        "the real class (directly and through BlfReader); all decoded attributes are compared with type, enumeration "
        "member and flag bits. Distinct = different encodings; non-trivial = not all variable fields zero.")
ASSUMPTIONS = ["well-formed encodings as described by vf/model.py: named enumerators, defined cp1252 / valid UTF-8 text,"
               " lengths that fit the object; NaN floats compared bit by bit"]
REQUIRED = {"huge_parts": 30, "decoded": 10000, "fields_swept": 300}


def decode(ctx, spec, v, raw=None, reader=False):
    raw = spec.encode(v) if raw is None else raw
    if reader:
        objs = gen.read_log(blf.file_header(level=0) + raw)
        ctx.check(len(objs) == 1, f"{len(objs)} objects delivered for one {spec.cls_name}", bytes=raw)
        obj = objs[0]
        ctx.check(type(obj) is spec.cls, f"{type(obj).__name__} for a {spec.cls_name}", bytes=raw)
    else:
        obj = spec.cls.unpack(raw)
    bad = spec.compare(obj, v)
    if bad:
        ctx.no(bad, f"{spec.cls_name} decoded wrongly", bytes=raw)
    ctx.count("decoded")
    ctx.eval((spec.cls_name, raw), any(raw[16:]))
    return obj


def random(ctx, rng, index):
    spec = m.SPECS[index % len(m.SPECS)]
    v = spec.gen(rng, rng.choice((0, 8, 64, 300, 3000)), rng.choice(("std", "any")))
    decode(ctx, spec, v, reader=rng.random() < 0.3)
    ctx.sample(lambda: {"class": spec.cls_name, "bytes": spec.encode(v)[:200]})


def sweep_field(ctx, rng, index):
    """Every value of small fields, every bit pattern of the others, one field at a time."""
    fields = all_fields()
    spec, f = fields[index % len(fields)]
    v = spec.gen(rng, 12, "std")
    base = bytearray(spec.encode(v))
    bits = f.size * 8
    if f.enum in m.ENUMS:
        values = [m.enc(f.kind, x) for x in m.ENUMS[f.enum]]
    elif f.kind == "f64":
        values = [m.enc(f.kind, m.gen_float(rng)) for _ in range(200)]
        values.append(bytes.fromhex("000000000000f87f"))
    elif f.kind[0] == "b":
        values = []
        for i in range(f.size):
            for x in (1, 0x80, 0xFF) if not ctx.thorough else range(256):
                values.append(bytes(i) + bytes([x]) + bytes(f.size - i - 1))
        values += [rng.randbytes(f.size) for _ in range(20)]
    elif bits == 8:
        values = [bytes([x]) for x in range(256)]
    elif bits == 16 and ctx.thorough:
        values = [m.enc("u16", x) for x in range(65536)]
    else:
        values = [m.enc(f"u{bits}", x) for x in m.PATTERNS[bits]]
        values += [rng.randbytes(f.size) for _ in range(40)]
    for x in values:
        base[f.off:f.off + f.size] = x
        v[f.path] = m.dec(f.kind, x)
        decode(ctx, spec, v, bytes(base))
    ctx.count("fields_swept")
    ctx.count("values_swept", len(values))


def all_fields():
    return [(s, f) for s in m.SPECS for f in m.free_fields(s)]


def lengths(ctx, rng, index):
    """All lengths of each variable part, including zero, odd, 255/256 and (sometimes) beyond 64 KiB."""
    spec, part = var_parts()[index % len(var_parts())]
    hi = 300
    if spec.cls_name == "CanFdMessage64":
        hi = 183
    if spec.cls_name == "CanFdErrorFrame64":
        hi = 150
    pts = list(range(hi + 1)) if ctx.thorough else sorted(set(list(range(0, 70)) + rng.sample(range(70, hi + 1), 40) + [hi]))
    v = spec.gen(rng, 20, "std")
    kind = next((k for a, _, k in getattr(spec.var, "p", []) if a == part), None)
    old = v["@" + part]
    if len(pts) and hi == 300:
        pts += [1000, 4096, 65535 if spec.cls_name not in ("EthernetFrameEx", "FlexrayVFrReceiveMsgEx") else 65000]
        if spec.cls_name not in ("EthernetFrameEx", "FlexrayVFrReceiveMsgEx"):
            pts += [65536, 70000]
    for n in pts:
        if isinstance(old, str):
            v["@" + part] = m.gen_text(rng, n, kind == "utf8") if n < 5000 else "ab€" * (n // 3)
        else:
            v["@" + part] = m.gen_bytes(rng, n)
        spec.resize(v)
        decode(ctx, spec, v, reader=n % 50 == 0)
    ctx.count("length_sweeps")


def var_parts():
    return [(s, p) for s in m.SPECS if s.var for p in s.var.parts]


HUGE = len([x for x in m.SPECS if x.var and x.cls_name not in ("CanFdMessage64", "CanFdErrorFrame64", "EthernetFrameEx", "FlexrayVFrReceiveMsgEx")
            for _ in x.var.parts])


def huge(ctx, rng, index):
    """Variable parts of up to some MiB, around powers of two, one or all of an object's."""
    spec, part = [x for x in var_parts() if x[0].cls_name not in
                  ("CanFdMessage64", "CanFdErrorFrame64", "EthernetFrameEx", "FlexrayVFrReceiveMsgEx")][index % HUGE]
    v = spec.gen(rng, 20, "std")
    for p in spec.var.parts if rng.random() < 0.3 else (part,):
        n = (1 << rng.randint(12, 21 if index % 9 else 23)) + rng.choice((0, -1, 1, rng.randint(-70, 70), rng.randint(0, 1 << 12)))
        if isinstance(v["@" + p], str):
            kind = next((k for a, _, k in getattr(spec.var, "p", []) if a == p), None)
            v["@" + p] = (m.gen_text(rng, 997, kind == "utf8") * (n // 997 + 1))[:n]
        else:
            v["@" + p] = (rng.randbytes(4093) * (n // 4093 + 1))[:n]
    spec.resize(v)
    decode(ctx, spec, v, reader=index % 2 == 1)
    ctx.count("huge_parts")


def optional(ctx, rng, index):
    """Objects with and without optional trailing parts, next to each other in history."""
    name = ("LinMessage2", "CanFdMessage64", "CanFdErrorFrame64")[index % 3]
    spec = m.SPEC_BY_NAME[name]
    for _ in range(6):
        v = spec.gen(rng, 80, "std")
        decode(ctx, spec, v, reader=rng.random() < 0.5)
        key = v.get("@ver", v.get("@ext"))
        ctx.count(f"{name}_{key}")


def corpus(ctx, rng, index):
    """The sample objects shipped with the repository's tests, decoded through the model's layout."""
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "corpus")
    names = sorted(n for n in os.listdir(d) if n.endswith(".lobj") and n != "LOG_CONTAINER.lobj")
    name = names[index % len(names)]
    with open(os.path.join(d, name), "rb") as f:
        raw = f.read()
    num = blf.u(raw, 12, 4)
    spec = m.SPEC_BY_TYPE.get(num)
    objs = gen.read_log(blf.file_header(level=0) + raw)
    ctx.check(len(objs) == 1, f"{name}: {len(objs)} objects delivered")
    if spec is None:
        ctx.no(gen.RawItem(num, raw).check(objs[0]), name)
    else:
        ctx.check(type(objs[0]) is spec.cls, f"{name}: decoded as {type(objs[0]).__name__}")
        for f in spec.fields:
            if spec.cls_name == "LinMessage2" and "databyte" in f.path or "[" in f.path:
                continue
            exp = m.dec(f.kind, raw[f.off:f.off + f.size])
            if f.path == "header.base.object_type":
                ctx.check(objs[0].header.base.object_type.name == m.TYPE_NAMES[exp], f"{name}: object_type")
                continue
            got = m.get(objs[0], f.path)
            ctx.check(m.same(exp, got, f), f"{name}: {f.path} is {got!r}, stored {exp!r}")
    ctx.check(objs[0].pack() == raw, f"{name}: re-encodes differently")
    ctx.count("samples_decoded")
    ctx.eval((name, raw))


def history(ctx, rng, index):
    """Decoding does not depend on what was decoded before (same bytes again, other objects in between)."""
    its = [gen.item(rng, 60) for _ in range(8)]
    order = [rng.randrange(8) for _ in range(40)]
    for k in order:
        o = its[k].spec.cls.unpack(its[k].raw)
        ctx.no(its[k].check(o), f"{its[k].name} decoded after others", bytes=its[k].raw)
        ctx.count("decoded")
    ctx.eval(tuple(i.raw for i in its))


def longer(ctx, rng, index):
    """Fixed-size objects that a later format revision made longer: the known fields are where they were."""
    spec = [s for s in m.SPECS if s.var is None][index % sum(s.var is None for s in m.SPECS)]
    for _ in range(4):
        v = spec.gen(rng, 20)
        v["@pad"] = 0
        spec.resize(v)
        raw = bytearray(spec.encode(v) + rng.randbytes(rng.choice((1, 2, 4, 8, 12, 24, 40, 100, 1000))))
        raw[8:12] = m.enc("u32", len(raw))
        v["header.base.object_size"] = len(raw)
        decode(ctx, spec, v, bytes(raw), reader=rng.random() < 0.3)
        ctx.count("longer_objects")


def families(tier):
    t = tier == "thorough"
    nf = len(all_fields())
    return [
        ("sweep_field", nf * (3 if t else 1), sweep_field),
        ("huge", HUGE * (60 if t else 5), huge),
        ("lengths", len(var_parts()) * (6 if t else 1), lengths),
        ("optional", 6000 if t else 300, optional),
        ("longer", 4000 if t else 200, longer),
        ("corpus", 120, corpus),
        ("history", 2000 if t else 60, history),
        ("random", 600_000 if t else 28_000, random),
    ]
